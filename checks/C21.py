"""C21: where the answer goes and in which form."""
from meta import *
import stat

def boxes_part(t):
    """the printed points of a -P 0/1 answer over Q: the last [n, [[..]]] list"""
    b = body(t)
    if not b.startswith("[0,") or not b.endswith("]:"): return None
    return b

def split_solution(b, P):
    """-> (parametrization text, boxes text) of a solving answer over Q"""
    if not b.startswith("[0,"): return b, b
    inner = b[3:-2]
    if P == "2": return inner, None
    if P == "0": return None, inner
    # the parametrization is a bracketed list, followed by a comma and the boxes
    d = 0
    for i, ch in enumerate(inner):
        d += (ch == "[") - (ch == "]")
        if d == 0: return inner[:i + 1], inner[i + 2:]
    return inner, None

def points(t):
    """boxes as a multiset of points, each a multiset of intervals (the order of the variables of -P 1 may differ)"""
    if not t.startswith("["): return None
    m = re.match(r"\[1,\[(.*)\]\]$", t, re.S)
    if not m: return t
    d, cur, out = 0, "", []
    for ch in m.group(1):
        d += (ch == "[") - (ch == "]")
        cur += ch
        if d == 0 and ch == "]": out.append(cur); cur = ""
    pts = []
    for p in out:
        l = re.findall(r"\[[^\[\]]*\]", p[1:-1] if p.startswith("[[") else p)
        pts.append(tuple(sorted(l)))
    return sorted(pts)

OUTER = {"gb", "gbq", "elim", "elimq", "nf", "sat", "lead", "solff", "solqq", "uni"}

def cases(chk, n):
    for i in range(n):
        r = chk.rng("case", i)
        m = mode(r, big=.15)
        if r.random() < .1 and m["kind"] in ("gb", "gbq", "solqq", "solff", "nf"):
            # nothing to compute with
            S = m["S"]
            yield dict(what="zero", text=",".join(S.vars) + "\n%d\n%s\n" % (S.ch, ",\n".join(r.choice(["0", "0*" + S.vars[0]]) for _ in range(r.randint(1, 4)))),
                       args=[a for a in m["args"] if m["kind"] != "nf"], seed=1, feats=["all generators zero", "mode " + m["kind"]], kind=m["kind"])
            continue
        args = m["args"] + ["-l", r.choice(["2", "2", "1"])]
        c = dict(m, what="run", seed=r.randrange(10**6), base=args, old=r.choice(["", "x" * 100000, "old answer", "[0, [1, []]]:\n"]),
                 v=r.choice(["1", "1", "2", "3"]), t=r.choice(["1", "1", "2"]), dev=r.random() < .1, feats=["mode " + m["kind"], "family " + m["S"].fam])
        yield c

def run_raw(ctx, args, seed, variant="plain", env=None):
    e = {"VP_TIME": str(1000003 + seed)}
    e.update(env or {})
    return mon.execute([ctx.chk.bins[variant]["msolve"]] + [str(a) for a in args], env=e, timeout=ctx.chk.timeout, cwd=ctx.dir)

def bad(c, w, feats, **rep): return Verdict("bad", w, key=w, feats=feats, replay=dict(rep, **{"in.ms": c.get("text", "")}))

TERM = re.compile(r":\s*$")

def j21(ctx, c):
    if c["what"] == "errors": return errors(ctx, c)
    feats = list(c["feats"])
    ctx.write("in.ms", c["text"])
    if c["what"] == "zero":
        ctx.write("out.ms", "old answer")
        R = run_raw(ctx, ["-f", "in.ms", "-o", "out.ms"] + c["args"], 1)
        if R.timeout: return Verdict("inc", "watchdog", feats=feats)
        o = ctx.read("out.ms") or ""
        if R.rc == 0: return bad(c, "no non-zero generator: exit status 0, answer %r [%s]" % (o[:40], " ".join(c["args"])), feats)
        if R.rc < 0: return bad(c, "no non-zero generator: %s [%s]" % (mon.describe_exit(R), " ".join(c["args"])), feats)
        if not (R.err + R.out).strip(): return bad(c, "no non-zero generator: stops without a message", feats)
        if o.strip() not in ("", "old answer"): return bad(c, "stops with an error but writes an answer: %r" % o[:60], feats)
        return Verdict("ok", feats=feats, sig=("zero", c["text"]))
    s, a = c["seed"], c["base"] + ["-t", c["t"]]
    th = " ".join(a)
    # 1: with -o over old contents, no verbosity
    ctx.write("out.ms", c["old"])
    R1 = run_raw(ctx, ["-f", "in.ms", "-o", "out.ms"] + a, s)
    if R1.timeout: return hang(ctx, dict(timeout=None, args=a), feats, {"in.ms": c["text"]})
    if R1.rc:
        if "allocate" in R1.err.lower(): return Verdict("inc", "out of memory", feats=feats)
        return bad(c, "valid input: %s %s [%s]" % (mon.describe_exit(R1), (R1.err + R1.out)[-150:].strip(), th), feats)
    o1 = ctx.read("out.ms")
    if not o1: return bad(c, "exit status 0 without an answer [%s]" % th, feats, stderr=R1.err)
    if not TERM.search(o1): return bad(c, "the answer is not terminated: ...%r [%s]" % (o1[-40:], th), feats, **{"out.ms": o1})
    if R1.out.strip(): return bad(c, "-o given, but standard output gets %r [%s]" % (R1.out[:80], th), feats)
    # 2: standard output
    R2 = run_raw(ctx, ["-f", "in.ms"] + a, s)
    if R2.timeout: return Verdict("inc", "watchdog", feats=feats)
    if R2.rc: return bad(c, "without -o: %s [%s]" % (mon.describe_exit(R2), th), feats)
    if R2.out != o1: return bad(c, "standard output %r is not what -o writes %r [%s]" % (R2.out[:80], o1[:80], th), feats, **{"out.ms": o1, "stdout": R2.out})
    # 3: verbosity
    R3 = run_raw(ctx, ["-f", "in.ms", "-o", "out3.ms", "-v", c["v"]] + a, s)
    if R3.timeout: return Verdict("inc", "watchdog", feats=feats)
    if R3.rc: return bad(c, "with -v %s: %s [%s]" % (c["v"], mon.describe_exit(R3), th), feats)
    o3 = ctx.read("out3.ms") or ""
    if o3 != o1: return bad(c, "the answer changes with -v %s: %r instead of %r [%s]" % (c["v"], o3[:80], o1[:80], th), feats, **{"out.ms": o1, "out3.ms": o3})
    feats.append("-v " + c["v"])
    # 4: -v without -o: the answer is on standard output, in one piece
    R4 = run_raw(ctx, ["-f", "in.ms", "-v", c["v"]] + a, s)
    if R4.timeout: return Verdict("inc", "watchdog", feats=feats)
    if R4.rc or o1 not in R4.out: return bad(c, "with -v %s the answer is not on standard output in one piece [%s]" % (c["v"], th), feats, **{"out.ms": o1, "stdout": R4.out})
    # 5: -P
    if c["kind"] in ("solqq", "uni"):
        P = {}
        for p in "012":
            R = run_raw(ctx, ["-f", "in.ms", "-o", "o%s.ms" % p] + (["-P", p] if c["kind"] != "solqq" else []) + [p if j and a[j - 1] == "-P" else x for j, x in enumerate(a)], s)
            if R.timeout: return Verdict("inc", "watchdog", feats=feats)
            if R.rc: return bad(c, "with -P %s: %s [%s]" % (p, mon.describe_exit(R), th), feats)
            P[p] = body(ctx.read("o%s.ms" % p) or "")
        if len({x[:3] for x in P.values()}) != 1: return bad(c, "-P changes the class: %r [%s]" % ([x[:10] for x in P.values()], th), feats)
        if P["0"].startswith("[0,"):
            p1, b1 = split_solution(P["1"], "1")
            p2, _ = split_solution(P["2"], "2")
            _, b0 = split_solution(P["0"], "0")
            if p1 != p2: return bad(c, "-P 1 and -P 2 print different parametrizations: %s and %s [%s]" % (p1[:80], p2[:80], th), feats, **P)
            if points(b0) != points(b1): return bad(c, "-P 0 and -P 1 print different boxes: %s and %s [%s]" % (b0[:80], b1[:80], th), feats, **P)
            feats.append("-P 0, 1 and 2 compared")
            if b0 != "[1,[]]": feats.append("real solutions printed")
        elif len(set(P.values())) != 1: return bad(c, "-P changes the answer: %s [%s]" % (list(P.values()), th), feats)
    # 6: an unwritable output
    if c["dev"]:
        for out in ("no/such/dir/out.ms", "."):
            R = run_raw(ctx, ["-f", "in.ms", "-o", out] + a, s)
            if R.rc == 0 or R.rc < 0: return bad(c, "unwritable output %r: %s [%s]" % (out, mon.describe_exit(R), th), feats)
            if not (R.err + R.out).strip(): return bad(c, "unwritable output: no message", feats)
        feats.append("unwritable output")
    return Verdict("ok", feats=feats, nontrivial=len(o1) > 8, sig=c["text"], sample={"input": c["text"][:200], "args": th, "answer": o1[:100]})

def listed(chk):
    ok = "x,y\n0\nx^2-2,\ny-x\n"
    for name, files, args in (
        ("no such input", {}, ["-f", "absent.ms"]), ("no such input, output given", {}, ["-f", "absent.ms", "-o", "out.ms"]),
        ("no input option", {}, ["-o", "out.ms"]), ("no option at all", {}, []), ("unknown option", {"in.ms": ok}, ["-f", "in.ms", "-z", "1"]),
        ("option without its value", {"in.ms": ok}, ["-f", "in.ms", "-g"]), ("input in a missing directory", {}, ["-f", "a/b/c.ms"]),
        ("saturation over a small prime field", {"in.ms": "x,y\n101\nx^2*y,\ny\n"}, ["-f", "in.ms", "-o", "out.ms", "-S", "-g", "2"]),
        ("characteristic beyond 31 bits", {"in.ms": "x,y\n4294967311\nx^2*y,\ny\n"}, ["-f", "in.ms", "-o", "out.ms", "-g", "2"]),
        ("negative characteristic", {"in.ms": "x,y\n-7\nx^2*y,\ny\n"}, ["-f", "in.ms", "-o", "out.ms", "-g", "2"]),
        ("duplicate variable", {"in.ms": "x,y,x\n7\nx^2*y,\ny\n"}, ["-f", "in.ms", "-o", "out.ms", "-g", "2"])):
        yield dict(what="errors", name=name, files=files, args=args)

def errors(ctx, c):
    feats = ["error: " + c["name"]]
    for f, t in c["files"].items(): ctx.write(f, t)
    if "-o" in c["args"]: ctx.write("out.ms", "")
    R = run_raw(ctx, c["args"], 1)
    if R.timeout: return Verdict("bad", "%s: no end" % c["name"], feats=feats)
    if R.rc <= 0: return bad(dict(text=str(c)), "%s: %s instead of an error [%s]" % (c["name"], mon.describe_exit(R) if R.rc else "exit status 0", " ".join(c["args"])), feats, out=R.out, err=R.err)
    if not (R.err + R.out).strip(): return bad(dict(text=str(c)), "%s: no message" % c["name"], feats)
    if "-o" in c["args"] and (ctx.read("out.ms") or "").strip(): return bad(dict(text=str(c)), "%s: an error, but also an answer" % c["name"], feats)
    return Verdict("ok", feats=feats, sig=("error", c["name"]))

if __name__ == "__main__":
    chk = Check("C21", timeout=20, rule="an answer of more than a constant, asked for in at least four ways; distinct by input")
    chk.run(listed(chk), j21)
    chk.run(cases(chk, chk.scale(1200, 20000)), j21)
    chk.finish(min_distinct=300, assumptions=["with -P 1 the variables of a box may be listed in the order of the parametrization: boxes are compared as sets of intervals"])
