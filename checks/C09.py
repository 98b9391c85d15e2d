"""C09: -n k prints the normal forms of the last k generators modulo the ideal of the others."""
from common import *

def cases(chk, n):
    done = i = 0
    while done < n:
        i += 1
        r = chk.rng("case", i)
        ch = gen.pick_prime(r)
        S = system(r, ch, big=.1)
        k = r.random()
        if k < .6:      # forms worth reducing: high powers, products, members of the ideal
            extra = []
            for _ in range(r.randint(1, 4)):
                q = r.random()
                f = gen.rpoly(r, S.nv, r.choice([1, 2, 3, 5, 8]) if S.nv < 8 else 2, r.randint(1, 6), ch)
                if q < .3: f = gen.pmul(f, r.choice(S.polys))
                elif q < .5: f = gen.padd(gen.pmul(f, r.choice(S.polys)), gen.rpoly(r, S.nv, 1, 2, ch))
                elif q < .6: f = {}
                f = gen.pmod(f, ch)
                if len(f) < 400: extra.append(f)
            if not extra: continue
            nn = len(extra)
            S.polys = S.polys + extra
        else:
            if len(S.polys) < 2: continue
            nn = r.randint(1, len(S.polys) - 1)
        done += 1
        o = perf_opts(r) if r.random() < .5 else []
        yield dict(S=S, text=text_of(r, S), args=["-n", str(nn)] + o, req="nf n=%d" % nn, seed=r.randrange(10**6),
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam, "forms %d" % min(nn, 5)] + opt_feats(o))

def tall(chk, n):
    """exponents beyond 8 bits in the ideal, the forms and the remainders"""
    for i in range(n):
        r = chk.rng("tall", i)
        ch = gen.pick_prime(r)
        S = tall_system(r, ch)
        if not S: continue
        extra = []
        for _ in range(r.randint(1, 3)):
            f = {}
            for _ in range(r.randint(1, 4)):
                e = [0] * S.nv
                for _ in range(r.choice([1, 1, 2])): e[r.randrange(S.nv)] = r.choice([0, 1, 3, 127, 255, 256, 257, 300, 511, 700, 1100, 2000])
                f[tuple(e)] = r.randint(1, ch - 1)
            if r.random() < .3: f = gen.pmod(gen.padd(gen.pmul(f, r.choice(S.polys)), gen.rpoly(r, S.nv, 2, 2, ch)), ch)
            if f: extra.append(f)
        if not extra: continue
        S.polys = S.polys + extra
        yield dict(S=S, text=gen.to_text(S, r), args=["-n", str(len(extra))] + (perf_opts(r) if r.random() < .3 else []), req="nf n=%d" % len(extra) + TALL, seed=r.randrange(10**6), timeout=10, slow=True,
                   feats=["field " + gen.prime_class(ch), "family tall", "forms %d" % len(extra)])

def judge_isgb(ctx, c):
    """-i: the first generators are msolve's own basis (checked by C01), given back as input"""
    import os
    ctx.write("in.ms", c["text"])
    R = ctx.msolve(["-g", "2"], seed=c["seed"])
    if R.timeout or R.rc: return Verdict("inc", "basis not available")
    o = ctx.read("out.ms")
    body = "".join(l for l in o.split("\n") if not l.startswith("#")).strip()
    if not body.endswith("]:"): return Verdict("inc", "basis not available")
    G = [g.strip() for g in body[1:-2].split(",")]
    if G == ["0"]: return Verdict("inc", "zero ideal")
    S = c["S"]
    text = ",".join(S.vars) + "\n%d\n" % S.ch + ",\n".join(G + [gen.poly_str(f, S.vars) for f in c["forms"]]) + "\n"
    n = len(c["forms"])
    return judge(ctx, dict(c, text=text, args=["-n", str(n), "-i", "1"] + c["opts"], req="nf n=%d" % n))

def gbcases(chk, n):
    for i in range(n):
        r = chk.rng("isgb", i)
        ch = gen.pick_prime(r)
        S = system(r, ch, big=0)
        fs = [gen.pmod(gen.rpoly(r, S.nv, r.choice([1, 2, 3, 5]) if S.nv < 8 else 2, r.randint(1, 6), ch), ch) for _ in range(r.randint(1, 4))]
        yield dict(S=S, text=text_of(r, S), forms=fs, opts=perf_opts(r, dens=.5), seed=r.randrange(10**6),
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam, "input declared a basis (-i)"])

if __name__ == "__main__":
    chk = Check("C09", rule="at least one requested polynomial differs from its normal form; cases are counted by input text")
    chk.run(tall(chk, chk.scale(400, 6000)), stable_judge(when=lambda c, v: probabilistic(c["args"])))
    chk.run(cases(chk, chk.scale(3500, 60000)), stable_judge(when=lambda c, v: probabilistic(c["args"])))
    chk.run(gbcases(chk, chk.scale(1000, 15000)), judge_isgb)
    chk.finish(min_distinct=300, assumptions=["reference engine correct"])
