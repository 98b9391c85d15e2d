"""C18: real roots of one univariate polynomial: every real root isolated once, no other box."""
from common import *
from fractions import Fraction

def P(*c):      # ascending coefficients
    return {(i,): x for i, x in enumerate(c) if x}
def mul(a, b): return gen.pmul(a, b)
def power(a, e): return gen.ppow(a, e, 1)
def from_roots(rs):
    f = P(1)
    for q in rs:
        q = Fraction(q)
        f = mul(f, P(-q.numerator, q.denominator))
    return f
def cheb(n):
    a, b = P(1), P(0, 1)
    for _ in range(n - 1): a, b = b, gen.padd(mul(P(0, 2), b), a, -1)
    return b
def hermite(n):
    a, b = P(1), P(0, 2)
    for k in range(1, n): a, b = b, gen.padd(mul(P(0, 2), b), gen.pscale(a, 2 * k), -1)
    return b
def scale_var(f, num, den):       # roots multiplied by num/den
    d = max(m[0] for m in f)
    return {m: c * den ** m[0] * num ** (d - m[0]) for m, c in f.items()}

def poly(r):
    k = r.choice(["wilkinson", "mignotte", "cheb", "hermite", "random", "randbig", "dyadic", "close", "zero-root", "sparse", "noreal", "nested", "ratroots",
                  "mult", "allpos", "allneg", "even", "tiny", "huge", "pow2ends", "tinydyadic", "tinydyadic", "mixscale", "linear", "linear", "power2bounds"])
    R = r.randint
    if k == "wilkinson": f = from_roots(range(R(-5, 1), R(3, 22)))
    elif k == "mignotte":
        a = R(3, 60); f = gen.padd({(R(5, 30),): 1}, mul(P(2), power(P(-1, a), 2)), -1)
        if r.random() < .4: f = mul(f, gen.padd({(R(3, 9),): 1}, mul(P(2), power(P(-1, a), 2)), -1))
    elif k == "cheb": f = cheb(R(2, 60))
    elif k == "hermite": f = hermite(R(2, 40))
    elif k == "random": f = {(i,): R(-9, 9) for i in range(R(2, 80))}
    elif k == "randbig": f = {(i,): R(-2**200, 2**200) for i in range(R(2, 25))}
    elif k == "dyadic": f = from_roots([Fraction(R(-64, 64), 2 ** R(0, 8)) for _ in range(R(2, 9))])
    elif k == "close":
        c = Fraction(R(-50, 50), R(1, 30)); e = Fraction(1, 2 ** R(5, 120))
        f = from_roots([c, c + e] + [Fraction(R(-9, 9)) for _ in range(R(0, 3))])
        if r.random() < .5: f = mul(f, from_roots([c - e, c + 2 * e]))
    elif k == "zero-root": f = mul({(R(1, 3),): 1}, {(i,): R(-9, 9) for i in range(R(2, 12))} or P(1))
    elif k == "sparse": f = {(0,): R(-9, 9) or 1, (R(2, 30),): R(-99, 99), (R(31, 120),): R(1, 99), (R(3, 60),): R(-999, 999)}
    elif k == "noreal": f = gen.padd(power({(i,): R(-5, 5) for i in range(R(2, 6))} or P(1), 2), P(R(1, 5)))
    elif k == "nested": f = gen.padd(power(P(-R(1, 9), 0, 1), 2), P(Fraction(-1, 1) if r.random() < .5 else -R(1, 3)))
    elif k == "ratroots": f = from_roots([Fraction(R(-99, 99), R(1, 99)) for _ in range(R(1, 10))])
    elif k == "mult":
        f = P(1)
        for _ in range(R(1, 4)): f = mul(f, power({(0,): R(-6, 6), (1,): R(1, 5), (2,): r.choice([0, 0, 1])}, R(1, 4)))
    elif k == "allpos": f = from_roots([Fraction(R(1, 99), R(1, 9)) for _ in range(R(1, 9))])
    elif k == "allneg": f = from_roots([-Fraction(R(1, 99), R(1, 9)) for _ in range(R(1, 9))])
    elif k == "even": f = {(2 * i,): R(-9, 9) for i in range(R(2, 15))}
    elif k == "tiny": f = scale_var(from_roots([R(-20, 20) for _ in range(R(1, 6))]), 1, 2 ** R(1, 150))
    elif k == "tinydyadic":     # roots that are ends of each other's isolating intervals, below the default precision
        rs = set()
        for _ in range(R(2, 6)): rs.add(r.choice([1, 1, -1]) * Fraction(R(1, 2 ** R(1, 6)), 2 ** R(0, 5)))
        f = scale_var(from_roots(rs), 1, 2 ** R(100, 260))
        if r.random() < .4: f = mul(f, from_roots([R(-3, 3) for _ in range(R(1, 2))]))
    elif k == "mixscale":
        f = from_roots([r.choice([1, -1]) * Fraction(R(1, 20)) * Fraction(2) ** R(-160, 160) for _ in range(R(2, 6))])
    elif k == "huge": f = scale_var(from_roots([R(-20, 20) for _ in range(R(1, 6))]), 2 ** R(1, 150), 1)
    elif k == "pow2ends": f = from_roots([r.choice([1, -1]) * Fraction(2) ** R(-9, 9) for _ in range(R(1, 7))])
    elif k == "power2bounds": f = gen.padd(from_roots([r.choice([1, -1]) * Fraction(2) ** R(0, 9) for _ in range(R(1, 5))]), P(r.choice([0, 1, -1])))
    else: f = P(R(-10**6, 10**6), R(1, 10**6))
    f = {m: c for m, c in f.items() if c}
    if not f or max(m[0] for m in f) < 1: f, k = P(-2, 0, 1), "sqrt2"
    if r.random() < .3 and max(m[0] for m in f) < 30: f = mul(f, {(0,): R(1, 9), (1,): R(-3, 3), (2,): R(4, 9)}); f = {m: c for m, c in f.items() if c}
    if r.random() < .15: f = gen.pscale(f, r.choice([-1, 7, Fraction(1, 3), 2**40]))
    return k, f

def big(r, k=None):
    """degrees beyond the threshold of the divide and conquer Taylor shift"""
    R = r.randint
    k = k or r.choice(["rand", "rand", "rand", "mign", "sparse", "cheb", "cluster", "kacroots"])
    if k == "gaps":     # (C15; too large for the reference) more than one block in the Taylor shift, some of whose upper ends vanish
        d = R(1025, 1500)
        f = {(R(1, d - 1),): R(-2 ** r.choice([5, 40, 200]), 2 ** 20) for _ in range(R(3, 60))}
        f[(d,)] = R(1, 9); f[(0,)] = r.choice([1, -1]) * R(1, 2 ** r.choice([3, 200]))
    elif k == "rand": f = {(i,): R(-9, 9) for i in range(R(257, 420))}
    elif k == "mign":
        a = R(2, 5); f = gen.padd({(R(257, 300),): 1}, mul(P(2), power(P(-1, a), 2)), -1)
    elif k == "sparse": f = {(R(0, 300),): R(-99, 99) for _ in range(R(3, 9))}; f[(R(301, 520),)] = R(1, 9); f[(0,)] = R(-9, 9) or 1
    elif k == "cheb": f = cheb(R(61, 130))
    elif k == "cluster": f = mul({(i,): R(-3, 3) for i in range(R(257, 300))}, from_roots([Fraction(x, 64) for x in r.sample(range(-64, 65), R(1, 5))]))
    else: f = mul({(i,): R(-2**20, 2**20) for i in range(R(257, 330))}, from_roots(r.sample(range(-9, 10), R(1, 4))))
    f = {m: c for m, c in f.items() if c}
    return "large-" + k, f

def width(j):
    """the last (only) coordinate is refined to the requested precision when no linear form is needed"""
    def jj(ctx, c):
        v = j(ctx, c)
        if v.kind == "ok" and v.sample:
            kv = dict(w.split("=", 1) for w in v.sample["reference"].split() if "=" in w)
            if kv.get("sqf") == "1" and int(kv.get("maxw", -10**9)) > 3 - (c["p"] or 64):
                return Verdict("bad", "interval of width 2^%s for -p %s" % (kv["maxw"], c["p"]), feats=v.feats, replay={"in.ms": c["text"], "cmd": v.sample["cmd"]})
        return v
    return jj

def cases(chk, n, large=False):
    for i in range(n):
        r = chk.rng("case", large, i)
        k, f = big(r) if large else poly(r)
        S = gen.Sys([r.choice(["x", "t", "x_1"])], 0, [f], k)
        p = r.choice([None, None, None, 1, 16, 64, 200])
        o = (["-p", str(p)] if p else []) + (["-t", r.choice(["2", "4", "8"])] if r.random() < .25 else [])
        yield dict(S=S, text=gen.to_text(S, r, r.choice([0, 1])), args=o, p=p, req="uni prec=%d" % max(64, p or 32), seed=r.randrange(10**6), feats=["family " + k] + opt_feats(o))

if __name__ == "__main__":
    chk = Check("C18", rule="squarefree part of degree at least 2; cases are counted by input text")
    chk.run(cases(chk, chk.scale(60, 1500), True), width(judge))
    chk.run(cases(chk, chk.scale(3500, 60000)), width(judge))
    chk.finish(min_distinct=300, assumptions=["FLINT (number of real roots by Sturm/Descartes, Arb enclosures) is correct"])
