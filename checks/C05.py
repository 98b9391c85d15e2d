"""C05: the first entry of the answer classifies the solution set: none / finitely / infinitely many."""
from solving import *
W5 = [("random", 14), ("posdim", 22), ("unit", 18), ("dup", 10), ("small", 14), ("manyvars", 10), ("fieldeq", 8), ("grid", 4), ("nonrad", 6), ("ci", 4), ("highdeg", 3)]

def special(r, ch):
    """close to the border between the classes"""
    n = r.choice([1, 2, 3, 4, 5])
    k = r.choice(["allvars", "one-missing", "inconsistent-linear", "line", "point", "double-point", "hidden-unit", "const"])
    V = [gen.pvar(i, n) for i in range(n)]
    c = lambda: gen.rcoef(r, ch, 6)
    if k == "allvars": ps = [gen.pvar(i, n, r.randint(1, 3)) for i in range(n)]
    elif k == "one-missing": ps = [gen.pvar(i, n, r.randint(1, 3)) for i in range(n) if i != n - 1] or [gen.padd(gen.pvar(0, n, 2), gen.pconst(1, n))]
    elif k == "inconsistent-linear":
        l = gen.rpoly(r, n, 1, 3, ch, size=4); ps = [l, gen.padd(l, gen.pconst(1, n))]
    elif k == "line":
        ps = [gen.padd(V[i], gen.padd(gen.pscale(V[n - 1], c()), gen.pconst(c(), n))) for i in range(n - 1)] or [gen.pconst(3 if ch != 3 else 1, n)]
    elif k == "point": ps = [gen.padd(v, gen.pconst(c(), n)) for v in V]
    elif k == "double-point": ps = [gen.ppow(gen.padd(v, gen.pconst(c(), n)), 2, n) for v in V]
    elif k == "hidden-unit":
        f = gen.rpoly(r, n, 2, 3, ch, size=4); g = gen.rpoly(r, n, 1, 2, ch, size=4)
        ps = [f, gen.padd(gen.pmul(f, g), gen.pconst(1, n))]
    else: ps = [gen.pconst(c(), n)] + ([V[0]] if r.random() < .5 else [])
    ps = [p for p in (gen.pmod(p, ch) for p in ps) if p]
    if not ps: ps = [gen.pconst(1, n)]
    return gen.Sys(gen.names(r, n), ch, ps, "border-" + k)

def cases(chk, n):
    for i in range(n):
        r = chk.rng("case", i)
        ch = 0 if r.random() < .5 else r.choice(PRIMES_SOLVE)
        S = special(r, ch) if r.random() < .35 else system(r, ch, W5)
        o = (opts_ff if ch else opts_qq)(r) if r.random() < .6 else []
        P = [] if ch else ["-P", r.choice(["0", "1", "2"])]
        yield dict(S=S, text=text_of(r, S), args=P + o, req="sol nodelta=1 nobox=1", seed=r.randrange(10**6),
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam] + opt_feats(P + o))

CLASSMSG = ("answer says", "wrong number of variables in the positive", "valid input", "no answer within", "malformed", "list expected", "unknown answer")
def j5(ctx, c):
    v = sj(ctx, c)
    if v.kind == "bad" and not any(m in v.what for m in CLASSMSG) and "Sanitizer" not in v.what:
        return Verdict("inc", "class correct, other fields wrong (see C06/C07)", feats=v.feats)
    return v
sj = stable_judge(when=lambda c, v: c["S"].ch != 0)

if __name__ == "__main__":
    chk = Check("C05", rule="cases are counted by input text; every decided case names its class in 'observed'")
    chk.run(cases(chk, chk.scale(4500, 60000)), j5)
    chk.finish(min_distinct=300, assumptions=["reference engine correct; over Q the class is computed modulo random 60-bit primes (three before refusing)"])
