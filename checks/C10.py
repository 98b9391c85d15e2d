"""C10: -S prints the reduced basis of the saturation of the first k-1 generators by the last one."""
from common import *
P32 = gen.PRIMES17 + gen.PRIMES18 + gen.PRIMES31

def mk(r, ch):
    k = r.random()
    if k < .35:       # I : f^oo with a component inside f = 0
        nv = r.choice([2, 3, 3, 4])
        f = gen.rpoly(r, nv, 1, r.randint(1, 3), ch, size=4)
        A = [gen.rpoly(r, nv, r.choice([1, 2]), r.randint(2, 4), ch, size=4) for _ in range(r.randint(1, nv))]
        e = r.choice([1, 1, 2, 3])
        ps = [gen.pmul(a, gen.ppow(f, r.choice([0, e]), nv)) for a in A]
        ps.append(f if r.random() < .7 else gen.pmul(f, gen.rpoly(r, nv, 1, 2, ch, size=3)))
        fam = "component"
    elif k < .5:      # by a variable
        S = gen.make(r, r.choice(["random", "posdim", "ci", "nonrad"]), ch)
        nv, ps = S.nv, list(S.polys)
        ps.append(gen.pvar(r.randrange(nv), nv)); fam = "by-variable"
    elif k < .6:      # f in the ideal or its radical: the unit ideal
        S = gen.make(r, r.choice(["random", "ci", "nonrad"]), ch)
        nv, ps = S.nv, list(S.polys)
        ps.append(r.choice(ps)); fam = "in-ideal"
    elif k < .7:      # f a unit / coprime: nothing changes
        S = gen.make(r, r.choice(["random", "ci", "shape", "posdim"]), ch)
        nv, ps = S.nv, list(S.polys)
        ps.append(gen.pconst(gen.rcoef(r, ch), nv) if r.random() < .3 else gen.rpoly(r, nv, 1, nv + 1, ch)); fam = "generic"
    else:
        S = gen.make(r, pick(r, W), ch)
        nv, ps = S.nv, list(S.polys)
        if len(ps) < 2: ps.append(gen.pvar(0, nv))
        fam = S.fam
    ps = [p for p in (gen.pmod(p, ch) for p in ps[:-1]) if p] + [gen.pmod(ps[-1], ch)]
    if len(ps) < 2 or not ps[-1]: return None
    return gen.Sys(gen.names(r, nv), ch, ps, fam)

def cases(chk, n):
    done = i = 0
    while done < n:
        i += 1
        r = chk.rng("case", i)
        S = mk(r, r.choice(P32))
        if S is None: continue
        done += 1
        o = perf_opts(r, la=(1, 2, 44)) if r.random() < .3 else []
        yield dict(S=S, text=text_of(r, S), args=["-S", "-g", "2"] + o, req="sat", seed=r.randrange(10**6),
                   feats=["family " + S.fam, "field " + gen.prime_class(S.ch)] + opt_feats(o))

CAT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sat_catalogue.json")

def catalogue(chk):
    """fixed systems, proper saturations, on which f4sat was seen to find the whole saturation for
    every seed tried; there an incomplete answer is a violation"""
    import json
    for i, t in enumerate(json.load(open(CAT))):
        r = chk.rng("cat", i)
        o = perf_opts(r, la=(1, 2, 44)) if chk.thorough() and r.random() < .5 else []
        yield dict(text=t, args=["-S", "-g", "2"] + o, req="sat", seed=r.randrange(10**6), feats=["catalogued proper saturation"], cat=True)

def listed(chk):
    """the inputs named in known_findings.json, run every time"""
    yield dict(text="x1,x2\n131071\nx1^3+14*x1^1,\nx2^2+58305*x1^1+124889*x2^1,\nx2^1\n", args=["-S", "-g", "2"], req="sat", seed=1, feats=["listed input"])

def j10(ctx, c):
    v = judge(ctx, c)
    if v.kind == "ok" and v.sample:
        kv = dict(w.split("=", 1) for w in v.sample["reference"].split() if "=" in w)
        f = list(c["feats"]) + ["dimension class %s to %s" % (kv["idim"], kv["jdim"]), "saturation " + ("equal to the ideal" if kv["samesize"] == "1" else "larger than the ideal")]
        if kv["complete"] != "1":
            w = "the output is smaller than the saturation [%s]" % v.sample["cmd"]
            return Verdict("bad", w, key=("catalogue: " if c.get("cat") else "incomplete-saturation ") + w, feats=f, replay={"in.ms": c["text"], "cmd": v.sample["cmd"]})
        v.feats = f
        v.nontrivial = int(kv["pairs"]) > 0 or kv["samesize"] != "1"
    return v

if __name__ == "__main__":
    chk = Check("C10", rule="the reference computation needed at least one critical pair or the saturation is larger than the ideal; cases are counted by input text")
    chk.known_cap = .25
    j = stable_judge(when=lambda c, v: "incomplete-saturation" not in v.key, base=j10)
    chk.run(listed(chk), j10)
    chk.run(catalogue(chk), j)
    chk.run(cases(chk, chk.scale(8000, 60000)), j)
    chk.finish(min_distinct=200, assumptions=["reference engine correct", "a wrong answer counts if it recurs for 3 of 4 further seeds (f4sat draws random multipliers)"])
