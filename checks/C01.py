"""C01: over a prime field -g 2 prints the reduced Groebner basis for grevlex, whatever the field
size, the linear-algebra option and the resource options."""
from common import *

def cases(chk, n):
    for i in range(n):
        r = chk.rng("case", i)
        ch = gen.pick_prime(r)
        S = system(r, ch, big=.15)
        o = perf_opts(r) if r.random() < .6 else []
        yield dict(S=S, text=text_of(r, S), args=["-g", "2"] + o, req="gb", seed=r.randrange(10**6),
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam] + opt_feats(o))

def large(chk, n):
    """matrices large enough for every code path of the linear algebra (blocks, dense rows, many
    rounds, hash-table growth)"""
    for i in range(n):
        r = chk.rng("large", i)
        k = r.choice(["kat", "cyc", "quad", "eco", "rand", "posd", "cub"])
        ch = gen.pick_prime(r)
        if k == "kat": nv, ps = gen.katsura(r.choice([5, 6, 7]))
        elif k == "cyc": nv, ps = gen.cyclic(6)
        elif k == "eco": nv, ps = gen.eco(r.choice([7, 8]))
        elif k == "quad": nv = r.choice([5, 6, 7]); ps = [gen.dense(r, nv, 2, ch) for _ in range(nv)]
        elif k == "cub": nv = r.choice([3, 4]); ps = [gen.dense(r, nv, 3, ch) for _ in range(nv)]
        elif k == "posd": nv = 6; ps = [gen.dense(r, nv, 2, ch) for _ in range(4)]
        else: nv = r.choice([5, 6]); ps = [gen.rpoly(r, nv, r.choice([2, 3]), r.randint(4, 12), ch) for _ in range(nv)]
        ps = [p for p in (gen.pmod(p, ch) for p in ps) if p]
        S = gen.Sys(gen.names(r, nv), ch, ps, "large-" + k)
        o = perf_opts(r) if r.random() < .6 else []
        yield dict(S=S, text=gen.to_text(S, r), args=["-g", "2"] + o, req="gb ops=3000000000", seed=r.randrange(10**6), timeout=120,
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam] + opt_feats(o))

def tall(chk, n):
    for i in range(n):
        r = chk.rng("tall", i)
        ch = gen.pick_prime(r)
        S = tall_system(r, ch)
        if not S: continue
        yield dict(S=S, text=gen.to_text(S, r), args=["-g", "2"] + (perf_opts(r) if r.random() < .4 else []), req="gb" + TALL, seed=r.randrange(10**6), timeout=20,
                   feats=["field " + gen.prime_class(ch), "family tall"])

OVER = "x,z\n101\nx^40000-z^40000,\nx^20000*z^30000-1\n"
def j_over(ctx, c):
    """the basis has an element of degree 70000, which a 16-bit exponent cannot hold: refusing is right, another basis is not"""
    ctx.write("in.ms", c["text"])
    R = run_case(ctx, c)
    if R.timeout: return Verdict("inc", "watchdog", feats=c["feats"])
    if R.rc > 0: return Verdict("ok", feats=c["feats"] + ["refused"])
    o = "".join(l for l in (ctx.read("out.ms") or "").split("\n") if not l.startswith("#"))
    if "z^70000" in o: return Verdict("ok", feats=c["feats"])
    return Verdict("bad", "degree of a basis element above 65535 wraps around: %s prints %s" % (c["text"].replace("\n", " "), o[:80]), key="degree-overflow-listed", feats=c["feats"], replay={"in.ms": c["text"]})

if __name__ == "__main__":
    chk = Check("C01", rule="the reference engine needed at least one critical pair to compute the basis; cases are counted by input text")
    j = stable_judge(when=lambda c, v: probabilistic(c["args"]))
    chk.run([dict(text=OVER, args=["-g", "2"], seed=1, feats=["listed input"])], j_over)
    chk.run(tall(chk, chk.scale(400, 6000)), j)
    chk.run(large(chk, chk.scale(80, 2000)), j)
    chk.run(cases(chk, chk.scale(3000, 80000)), j)
    chk.finish(min_distinct=300, assumptions=["reference engine (own Buchberger implementation, exact arithmetic modulo p) is correct",
        "a wrong answer of the probabilistic linear algebra (-l 42/44) counts only if it recurs for 3 of 4 further seeds"])
