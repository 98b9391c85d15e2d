"""C08: over Q the printed boxes isolate exactly the real solutions, to the requested precision."""
from solving import *

def scaled(r):
    """a univariate polynomial with roots of extreme size or with roots that are ends of dyadic intervals,
    the other coordinates being polynomials in that root"""
    import C18
    while True:
        k, f = C18.poly(r)
        if k in ("tinydyadic", "mixscale", "tiny", "huge", "dyadic", "close", "pow2ends", "zero-root", "mignotte", "ratroots") and max(m[0] for m in f) <= 12: break
    nv = r.randint(2, 3)
    d = max(m[0] for m in f)
    ps = [{(0,) * (nv - 1) + m: c for m, c in f.items()}]
    for i in range(nv - 1):
        g = {(0,) * (nv - 1) + (j,): r.randint(-9, 9) * 2 ** r.choice([0, 0, 0, 20, 100]) for j in range(r.randint(1, d))}
        g[tuple(int(q == i) for q in range(nv))] = r.choice([1, 1, -1, 3]) * 2 ** r.choice([0, 0, 60])
        ps.append({m: c for m, c in g.items() if c})
    r.shuffle(ps)
    return gen.Sys(gen.names(r, nv), 0, ps, "scaled-" + k)

def cases(chk, n, big):
    for i in range(n):
        r = chk.rng("case", big, i)
        S = larger(r, 0) if big else scaled(r) if r.random() < .12 else system(r, 0, WSOL)
        o = opts_qq(r, .5) if r.random() < .4 else []
        p = r.choice([None, None, 1, 2, 3, 4, 7, 8, 16, 32, 53, 64, 100, 128, 200, 300, 512])
        yield dict(S=S, text=text_of(r, S), opts=o + (["-p", str(p)] if p else []), p=p or 32, seed=r.randrange(10**6), timeout=120 if big else None,
                   sep=r.random() < .5, feats=["family " + S.fam, "precision %s" % (p or "default")] + opt_feats(o))

def j8(ctx, c):
    """-P 1 gives parametrization and boxes; for half of the cases the boxes of a -P 0 run (input
    variable order, same seed) are judged against that parametrization"""
    req = "sol prec=%d" % max(c["p"], 64)
    a = ["-P", "1"] + c["opts"]
    if c["sep"]:
        ctx.write("in.ms", c["text"])
        seed2 = c["seed"]
        R = ctx.msolve(["-P", "0"] + c["opts"], outfile="box.ms", seed=seed2, timeout=c["timeout"])
        rep = {"in.ms": c["text"], "cmd": "VP_TIME=%d msolve -f in.ms -o box.ms -P 0 %s" % (1000003 + seed2, " ".join(c["opts"]))}
        if R.timeout: return hang(ctx, dict(c, args=["-P", "0"] + c["opts"]), c["feats"], rep)
        if R.rc != 0: return Verdict("bad", "valid input: %s %s [%s]" % (mon.describe_exit(R), R.err[-160:], rep["cmd"]), feats=c["feats"], replay=rep)
        box = ctx.read("box.ms") or ""
        body = "".join(l for l in box.split("\n") if not l.startswith("#"))
        if body.lstrip("[").startswith("0"): req += " box=" + ctx.path("box.ms")
        c = dict(c, feats=c["feats"] + ["boxes of a separate -P 0 run"])
    v = judge(ctx, dict(c, args=a, req=req))
    if v.kind == "bad":
        if not any(m in v.what for m in ("box", "interval", "real s", "valid input", "no answer", "Sanitizer", "malformed", "expected")):
            return Verdict("inc", "parametrization refused (see C07)", feats=v.feats)
        if c["sep"]: v.replay["box.ms"] = ctx.read("box.ms") or ""
    if v.kind == "ok" and v.sample:
        kv = dict(w.split("=", 1) for w in v.sample["reference"].split() if "=" in w)
        if "real" in kv:
            n = int(kv["real"]); v.feats = list(v.feats) + ["real solutions: " + ("none" if n == 0 else "1" if n == 1 else "2-5" if n < 6 else "6+")]
            v.nontrivial = n > 0
            rel = int(kv["relw"])
            # coordinates are evaluated at a working precision tied to the last one, so only small
            # well-conditioned cases carry a width guarantee
            if c["p"] >= 32 and not c["S"].fam.startswith("scaled") and int(kv["D"]) <= 8 and rel > -min(c["p"], 64) // 2:
                return Verdict("bad", "box much wider than requested: relative width 2^%d for -p %d" % (rel, c["p"]), feats=v.feats, replay={"in.ms": c["text"], "cmd": " ".join(a)})
        else: v.nontrivial = False
    return v

if __name__ == "__main__":
    chk = Check("C08", rule="at least one real solution; cases are counted by input text")
    chk.run(cases(chk, chk.scale(50, 1500), True), j8)
    chk.run(cases(chk, chk.scale(3500, 50000), False), j8)
    chk.finish(min_distinct=300, assumptions=["FLINT/Arb root isolation of the verified parametrization is correct", "boxes are closed sets"])
