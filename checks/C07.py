"""C07: over Q the printed rational parametrization describes exactly the complex solutions."""
from solving import *

def cases(chk, n, big):
    for i in range(n):
        r = chk.rng("case", big, i)
        S = larger(r, 0) if big else system(r, 0, WSOL)
        o = opts_qq(r) if r.random() < .6 else []
        P = r.choice(["1", "1", "2"])
        yield dict(S=S, text=text_of(r, S), args=["-P", P] + o, req="sol nobox=1", seed=r.randrange(10**6), timeout=120 if big else None,
                   feats=["family " + S.fam, "-P " + P] + opt_feats(o))

def listed(chk):
    """the inputs named in known_findings.json, run every time"""
    yield dict(text="x,y,z,t\n0\nx^2-x,\ny^2-y,\nz^2-z,\nt^2-t,\n4*t-8*z*t\n", args=["-P", "1"], req="sol nobox=1", seed=1, feats=["listed input"])

if __name__ == "__main__":
    chk = Check("C07", rule="cases are counted by input text; 'parametrization printed' in 'observed' counts the decided parametrizations")
    chk.known_cap = .01
    chk.run(listed(chk), judge)
    chk.run(cases(chk, chk.scale(60, 1500), True), judge)
    chk.run(cases(chk, chk.scale(4000, 60000), False), judge)
    chk.finish(min_distinct=300, assumptions=["reference engine correct; the parametrization is verified modulo random 60-bit primes unknown to msolve (three before refusing)"])
