"""C15: the number of threads and the schedule do not change the answer, and the run ends. The program runs over
an OpenMP runtime whose hand-out of loop chunks, start order, delays and starvation are decided by a seed."""
from meta import *
import sched

def cases(chk, n, big, gaps=False):
    for i in range(n):
        r = chk.rng("gaps" if gaps else "case", big, i)
        m = biggb(r, r.random() < .25) if big else mode(r, big=.2)
        k = m["kind"]
        if gaps or not big and r.random() < .015:
            import C18
            fam, f = C18.big(r, "gaps" if gaps else None)
            S = gen.Sys(["x"], 0, [f], "uni-" + fam); k = "uni"
            m = dict(kind="uni", S=S, text=gen.to_text(S, r), args=["-p", "64"])
        la = r.choice(["1", "2", "2", "42", "44"] if k in GB else ["1", "2", "44"])
        o = ["-l", la] + (["-s", r.choice(["2", "3", "5", "8", "12"])] if r.random() < .7 else []) + (["-m", r.choice(["1", "2", "5"])] if r.random() < .4 else [])
        if k == "solqq" and r.random() < .15: o += ["-L", "1"]
        runs = [dict(args=m["args"] + o + ["-t", "1"], variant="plain")]
        for _ in range(3):
            t = r.choice([2, 3, 4, 5, 8, 8, 16])
            sm = r.choice([0, 1, 1, 2, 2, 3])
            if big and sm == 2: t = min(t, 4)
            runs.append(dict(args=m["args"] + o + ["-t", str(t)], variant="shim", env={"VP_SCHED": str(r.randrange(1, 10**6)), "VP_SCHED_MODE": str(sm), "VP_SCHED_LOG": "sched"},
                             feats=["schedule " + ["free", "delays", "one at a time", "starving one thread"][sm], "threads %d" % t]))
        if gaps: runs = runs[:1] + runs[2:]
        if gaps or r.random() < .3: runs.append(dict(args=m["args"] + o + ["-t", "8" if gaps else r.choice(["2", "8"])], variant="plain", feats=["native OpenMP runtime"]))
        yield dict(m, runs=runs, slow=gaps, seed=r.randrange(10**6), timeout=120 if big else 30 if gaps else None, feats=["mode " + k, "field " + gen.prime_class(m["S"].ch), "family " + m["S"].fam, "option -l " + la])

def j15(ctx, c):
    try: os.unlink(ctx.path("sched"))
    except OSError: pass
    v = compare(ctx, c)
    LOG.add(ctx.read("sched"), ctx.chk.bins["shim"]["msolve"])
    if v.kind == "ok" and not any(l.startswith("R") for l in (ctx.read("sched") or "").split("\n")): v.nontrivial = False
    return v

def sticky(ctx, c):
    """a schedule-dependent failure need not recur at once: try the schedules of the case again"""
    v = j15(ctx, c)
    if v.kind == "hang" and c.get("slow"): return Verdict("inc", "slow case: watchdog", feats=v.feats)
    if v.kind in ("bad", "hang"): v.replay["sticky"] = "1"
    if v.kind == "hang":
        for _ in range(2):
            w = j15(ctx, c)
            if w.kind in ("bad", "hang"): return v
        return Verdict("inc", "slow once", feats=v.feats)
    if v.kind == "bad" and any(probabilistic(q["args"]) for q in c["runs"]):
        bad = 0
        for s in range(4):
            w = j15(ctx, dict(c, seed=c["seed"] + 7919 * (s + 1)))
            bad += w.kind in ("bad", "hang")
        if bad < 3: return Verdict("inc", "probabilistic answer, differs for %d of 5 seeds" % (bad + 1), feats=v.feats)
    return v

if __name__ == "__main__":
    chk = Check("C15", variants=("plain", "shim"), timeout=60, rule="the same question answered by one thread and under three or four schedules of several threads, parallel regions having been entered; distinct by input")
    LOG = sched.Log(chk)
    import itertools
    chk.run(itertools.chain(cases(chk, chk.scale(30, 800), True), cases(chk, chk.scale(16, 400), False, True), cases(chk, chk.scale(900, 20000), False)), sticky)
    chk.finish(min_distinct=150, extra=LOG.extra(), assumptions=["the replacement runtime implements the OpenMP constructs msolve uses; a share of the cases also runs on the native runtime"])
