"""C06: over a prime field the printed parametrization describes exactly the solutions."""
from solving import *

KNOWN_INPUT = "x,y,z,t\n1073741789\nx^2-x,\ny^2-y,\nz^2-z,\nt^2-t,\n4*t-8*z*t\n"

def cases(chk, n, big):
    for i in range(n):
        r = chk.rng("case", big, i)
        ch = r.choice(PRIMES_SOLVE)
        S = larger(r, ch) if big else system(r, ch, WSOL)
        o = opts_ff(r) if r.random() < .6 else []
        yield dict(S=S, text=text_of(r, S), args=o, req="sol", seed=r.randrange(10**6), timeout=120 if big else None,
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam] + opt_feats(o))

def listed(chk):
    """the input named in known_findings.json, run every time"""
    yield dict(text=KNOWN_INPUT, args=[], req="sol", seed=1, feats=["listed input"])

if __name__ == "__main__":
    chk = Check("C06", rule="cases are counted by input text; 'parametrization printed' in 'observed' counts the decided parametrizations")
    chk.known_cap = .01
    j = stable_judge(when=lambda c, v: not known_square(c, v))
    chk.run(listed(chk), judge)
    chk.run(cases(chk, chk.scale(150, 3000), True), j)
    chk.run(cases(chk, chk.scale(4500, 60000), False), j)
    chk.finish(min_distinct=300, assumptions=["reference engine (basis, quotient dimension, number of distinct solutions) correct",
        "a wrong answer counts if it recurs for 3 of 4 further seeds (random linear forms over a finite field can be unlucky)"])
