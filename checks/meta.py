"""Shared by the metamorphic checks: random (input, mode) pairs over all modes, and a judge that
compares what several executions of the same question printed."""
from common import *
import solving

GB = ("gb", "elim", "lead", "nf")

def mode(r, big=.1, kinds=None, weights=W):
    """-> dict(kind, S, text, args)"""
    k = r.choice(kinds or ("gb", "gb", "gb", "elim", "lead", "nf", "sat", "gbq", "gbq", "elimq", "solff", "solqq", "solqq", "uni"))
    if k == "uni":
        import C18
        while True:
            fam, f = C18.poly(r)
            S = gen.Sys(["x"], 0, [f], "uni-" + fam)
            if len(f) < 60: break
        return dict(kind=k, S=S, text=gen.to_text(S, r), args=["-p", str(r.choice([32, 64, 128]))])
    q = k in ("gbq", "elimq", "solqq")
    if q: ch = 0
    elif k == "sat": ch = r.choice(gen.PRIMES17 + gen.PRIMES18 + gen.PRIMES31)
    elif k == "solff": ch = r.choice(PRIMES_SOLVE)
    else: ch = gen.pick_prime(r)
    if k == "sat":
        import C10
        while True:
            S = C10.mk(r, ch)
            if S: break
        args = ["-S", "-g", "2"]
    elif k in ("solff", "solqq"):
        S = solving.larger(r, ch) if r.random() < big else system(r, ch, WSOL)
        args = ["-P", r.choice(["0", "1", "2"])] if q else []
    else:
        for _ in range(100):
            S = system(r, ch, weights, big=big)
            if not k.startswith("elim") or S.nv > 1: break
        else: k = "gb"
        args = ["-g", "2"]
        if k.startswith("elim"): args += ["-e", str(r.randint(1, S.nv - 1))]
        if k == "lead": args = ["-g", "1"]
        if k == "nf":
            fs = [gen.pmod(gen.rpoly(r, S.nv, r.choice([1, 2, 3, 5]) if S.nv < 8 else 2, r.randint(1, 6), S.ch), S.ch) for _ in range(r.randint(1, 3))]
            fs = [f for f in fs if f] or [gen.pvar(0, S.nv, 2)]
            S.polys = S.polys + fs
            args = ["-n", str(len(fs))]
    return dict(kind=k, S=S, text=gen.to_text(S, r), args=args)

def biggb(r, q=False):
    """Groebner bases with matrices of hundreds to thousands of columns"""
    k = r.choice(["kat", "cyc", "quad", "eco", "cub", "posd", "rand"])
    ch = 0 if q else gen.pick_prime(r)
    if k == "kat": nv, ps = gen.katsura(r.choice([6, 7, 8] if not q else [5, 6]))
    elif k == "cyc": nv, ps = gen.cyclic(6 if q else r.choice([6, 6, 7]))
    elif k == "eco": nv, ps = gen.eco(r.choice([8, 9, 10] if not q else [7, 8]))
    elif k == "quad": nv = r.choice([6, 7, 8] if not q else [4, 5]); ps = [gen.dense(r, nv, 2, ch, 6) for _ in range(nv)]
    elif k == "cub": nv = r.choice([4, 5] if not q else [3]); ps = [gen.dense(r, nv, 3, ch, 4) for _ in range(nv)]
    elif k == "posd": nv = r.choice([6, 7] if not q else [5]); ps = [gen.dense(r, nv, 2, ch, 4) for _ in range(nv - 2 if nv < 7 else 4)]
    else: nv = r.choice([5, 6, 7] if not q else [4]); ps = [gen.rpoly(r, nv, r.choice([2, 3]), r.randint(4, 12), ch, size=4) for _ in range(nv)]
    ps = [p for p in (gen.pmod(p, ch) for p in ps) if p]
    S = gen.Sys(gen.names(r, nv), ch, ps, "large-" + k)
    return dict(kind="gbq" if q else "gb", S=S, text=gen.to_text(S, r), args=["-g", "2"])

def body(t):
    """the answer without comment lines and without white space"""
    return "".join("".join(l.split()) for l in t.split("\n") if not l.startswith("#"))

def extended(t):
    """solving: was a variable added (random linear form), or which order was used"""
    return t

def once(ctx, text, args, seed, variant="plain", env=None, timeout=None, infile="in.ms", outfile="out.ms", feats=()):
    """one execution -> (answer or None, Verdict or None)"""
    ctx.write(infile, text)
    c = dict(text=text, args=args, seed=seed, variant=variant, env=env or {}, timeout=timeout)
    R = run_case(ctx, c)
    e = " ".join("%s=%s" % kv for kv in (env or {}).items())
    cmd = "VP_TIME=%d %s msolve(%s) %s" % (1000003 + seed, e, variant, " ".join(map(str, args)))
    rep = {"in.ms": text, "cmd": cmd, "stderr": R.err[-5000:]}
    if R.timeout:
        return None, hang(ctx, c, feats, rep)
    san = sanitizer_report(R.err)
    if san: return None, Verdict("bad", san + " [" + cmd + "]", feats=feats, replay=rep)
    if R.rc != 0:
        if "could not get" in R.err or "Cannot allocate" in R.err or "Allocating" in R.err:
            return None, Verdict("inc", "out of memory", feats=feats)
        return None, Verdict("bad", "valid input: %s %s [%s]" % (mon.describe_exit(R), (R.err or R.out)[-160:].strip(), cmd), feats=feats, replay=rep)
    return (ctx.read(outfile) or ""), None

def compare(ctx, c, norm=body):
    """c: runs = list of dicts for once() (first is the reference), feats, kind"""
    first = None
    feats = list(c["feats"])
    for i, q in enumerate(c["runs"]):
        o, v = once(ctx, q.get("text", c["text"]), q["args"], q.get("seed", c["seed"]), q.get("variant", "plain"), q.get("env"), q.get("timeout", c.get("timeout")), feats=feats)
        if v: return v
        feats += q.get("feats", [])
        n = q.get("norm", norm)(o)
        if i == 0:
            first, fo = n, o
            continue
        if n != first:
            j = next((k for k in range(min(len(n), len(first))) if n[k] != first[k]), min(len(n), len(first)))
            w = "answers differ: [%s %s] prints ...%s... and [%s %s] prints ...%s... (%s)" % (
                " ".join(map(str, c["runs"][0]["args"])), c["runs"][0].get("variant", ""), first[max(0, j - 20):j + 40],
                " ".join(map(str, q["args"])), " ".join("%s=%s" % x for x in (q.get("env") or {}).items()) + q.get("variant", ""), n[max(0, j - 20):j + 40], c["kind"])
            return Verdict("bad", w, key=w + " " + c.get("key", ""), feats=feats, replay={"in.ms": q.get("text", c["text"]), "in0.ms": c["runs"][0].get("text", c["text"]), "out0.ms": fo, "out1.ms": o,
                "cmd": "seed %d\n%s\n%s" % (c["seed"], c["runs"][0], q)})
    return Verdict("ok", feats=feats, nontrivial=len(first) > 8 and len(c["runs"]) > 1, sig=c["text"],
                   sample={"input": c["text"][:200], "runs": [" ".join(map(str, q["args"])) + " " + q.get("variant", "") + str(q.get("env") or "") for q in c["runs"]][:4], "answer": first[:100]})
