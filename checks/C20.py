"""C20: builds with different vector instruction sets print the same. Every question is answered by the builds for
AVX-512 (when this processor has it), AVX2 and no vector extension, each also by reading from junk-filled memory."""
from meta import *

EDGE = [251, 241, 127, 131, 65521, 65519, 32771, 32749, 46349, 46337, 2147483647, 2147483629, 1073741827, 1073741789, 1518500213, 1518500279]

def edge(r, k):
    """dense systems modulo the largest primes of every coefficient size: sums of products that just fit"""
    if k == "fglm":
        ch = r.choice([p for p in EDGE if 2**15 < p < 1518500213])
        S = None
        if r.random() < .6:      # dense products as long as a dot product can be before it must be reduced
            ch = r.choice([1518500183, 1518500173, 1518500171, 1518500143])
            a, b = r.choice([(3, 5), (7, 9), (5, 11), (3, 13), (9, 7), (3, 7), (5, 3), (3, 18), (5, 6)])
            ps = [{m: r.randrange(1, ch) for m in gen.dense(r, 2, t, 0, 3)} for t in (a, b)]
            S = gen.Sys(gen.names(r, 2), ch, ps, "edge-fglm-dense")
            return dict(kind="solff", S=S, text=gen.to_text(S, r), args=[])
        d = r.choice([12, 20, 33, 48, 64, 65])
        w = {(0, e): ch - r.randint(1, 9) for e in range(d)}; w[(0, d)] = 1
        g = {(0, e): ch - r.randint(1, 9) for e in range(d)}; g[(1, 0)] = 1
        if r.random() < .5:
            nv = r.choice([3, 4]); ps = [{m: ch - r.randint(1, 9) for m in gen.dense(r, nv, 2, 0, 3)} for _ in range(nv)]
        else: nv, ps = 2, [w, g]
        S = gen.Sys(gen.names(r, nv), ch, ps, "edge-fglm")
        return dict(kind="solff", S=S, text=gen.to_text(S, r), args=[])
    ch = r.choice(EDGE)
    nv = r.choice([3, 4, 5, 6])
    ps = [{m: (ch - r.randint(1, 3) if r.random() < .8 else r.randrange(1, ch)) for m in gen.dense(r, nv, 2, 0, 3)} for _ in range(nv + r.choice([-1, 0, 1]))]
    S = gen.Sys(gen.names(r, nv), ch, ps, "edge-gb")
    return dict(kind="gb", S=S, text=gen.to_text(S, r), args=["-g", "2"])

def cases(chk, n, big):
    others = ["scalar"] + (["avx2"] if build.HAS_AVX512 else [])
    for i in range(n):
        r = chk.rng("case", big, i)
        x = r.random()
        if big: m = biggb(r, r.random() < .2)
        elif x < .25: m = edge(r, "gb")
        elif x < .4: m = edge(r, "fglm")
        else: m = mode(r, big=.3)
        k = m["kind"]
        la = r.choice(["1", "2", "2", "42", "44"] if k in GB else ["1", "2", "44"])
        o = ["-l", la] + (["-m", r.choice(["1", "2", "5"])] if r.random() < .2 else []) + (["-t", r.choice(["2", "4"])] if la in ("1", "2") and r.random() < .15 else [])
        a = m["args"] + o
        runs = [dict(args=a)] + [dict(args=a, variant=v, feats=["build " + v]) for v in others]
        yield dict(m, runs=runs, seed=r.randrange(10**6), timeout=120 if big else None,
                   feats=["mode " + k, "field " + gen.prime_class(m["S"].ch), "family " + m["S"].fam, "option -l " + la, "build " + ("avx512" if build.HAS_AVX512 else "avx2" if build.HAS_AVX2 else "scalar")])

def j20(ctx, c):
    return compare(ctx, c, lambda t: t)

if __name__ == "__main__":
    chk = Check("C20", variants=("plain", "scalar") + (("avx2",) if build.HAS_AVX512 else ()), timeout=60,
                rule="the same question answered by every build, output compared byte for byte; distinct by input")
    import itertools
    chk.run(itertools.chain(cases(chk, chk.scale(60, 1500), True), cases(chk, chk.scale(2500, 40000), False)), j20)
    chk.finish(min_distinct=300, assumptions=["vector extensions of this processor: " + ("AVX-512, AVX2" if build.HAS_AVX512 else "AVX2" if build.HAS_AVX2 else "none: only the scalar build could run")])
