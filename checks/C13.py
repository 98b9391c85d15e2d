"""C13: hostile, malformed and unusable input files, read by the sanitizer build. Whatever the bytes are, msolve answers
or stops with a message; it never corrupts memory or dies from a signal of its own."""
from meta import *
import stat

BITS = [b"^", b"^-1", b"^65535", b"^65536", b"^99999", b"^4294967296", b"^18446744073709551617", b"99999999999999999999", b"-9223372036854775808", b"1/0*", b"0/0", b"*", b"**", b"//",
        b",,", b"\0", b"\xff", b"\r\n", b"1/", b"^*", b"+-", b"++", b"--", b"- -", b"^^", b"()", b"(x+1)^2", b"#", b"[", b"]:", b"1e5", b"0x10", b"1.5", b"\xef\xbb\xbf", b"x^2 x", b"%s%n%d", b"\t", b"\v"]

def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
        if not b: b = bytearray(b"x")
        k, i = r.randrange(11), r.randrange(len(b))
        if k == 0: b[i] = r.randrange(256)
        elif k == 1: del b[i:i + r.choice([1, 1, 1, 3, 10])]
        elif k == 2: b[i:i] = bytes(r.choice(b"+-*/^,.0123456789xyz_() \n\t#[]:") for _ in range(r.choice([1, 1, 2, 5])))
        elif k == 3: j = r.randrange(len(b)); b[i:i] = b[j:j + r.randrange(1, 20)]
        elif k == 4: b = b[:i]
        elif k == 5:
            l = bytes(b).split(b"\n"); q = r.randrange(len(l))
            if r.random() < .5: del l[q]
            else: l.insert(q, l[r.randrange(len(l))])
            b = bytearray(b"\n".join(l))
        elif k == 6: b[i:i] = r.choice(BITS)
        elif k == 7: b[i:i] = b"1" * r.choice([10, 20, 300, 1000])
        elif k == 8: b[i:i] = bytes([b[i]]) * r.choice([2, 60, 2000])
        elif k == 9:   # swap two lines
            l = bytes(b).split(b"\n"); p, q = r.randrange(len(l)), r.randrange(len(l)); l[p], l[q] = l[q], l[p]
            b = bytearray(b"\n".join(l))
        elif k == 10:  # another header
            l = bytes(b).split(b"\n")
            if len(l) > 1: l[1] = r.choice([b"", b"-1", b"1", b"4", b"26", b"255", b"65536", b"2147483648", b"4294967291", b"4294967311", b"18446744073709551629", b"p", b"0 0", b" 7 ", b"2/3", b"0x7"])
            b = bytearray(b"\n".join(l))
    return bytes(b)

def crafted(r):
    k = r.choice(["random", "tokens", "longterm", "longname", "manyvars", "manygens", "longline", "commas", "header", "nul", "deep"])
    if k == "random": return k, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 50, 500])))
    if k == "tokens": return k, b"x,y\n" + r.choice([b"0", b"101", b"65537"]) + b"\n" + b"".join(r.choice(BITS + [b"x", b"y", b"+", b"-", b"*", b"3", b",\n", b"2*x^2"]) for _ in range(r.randint(1, 30)))
    if k == "longterm":   # around the longest term that is read
        n = r.choice([49990, 49996, 49997, 49998, 49999, 50000, 50001, 50002, 60000, 120000])
        t = r.choice([b"1" * n, b"1" * (n - 2) + b"*x", b"x" * n, b"x^" + b"0" * (n - 3) + b"1"])
        return k, b"x,y\n" + r.choice([b"0", b"101"]) + b"\n" + r.choice([b"y+" + t, t + b"-y", b"-" + t, t, b"y-" + t + b"+x", b"y+x-" + t]) + b",\nx^2-y^2+" + r.choice([b"1", b"x"]) + r.choice([b"", b"\n"])
    if k == "longname":
        n = r.choice([1, 49, 50, 51, 255, 256, 1000, 5000, 49990, 60000])
        v = b"v" * n; w = b"w" * r.choice([1, n])
        return k, v + b"," + w + b"\n" + r.choice([b"0", b"101", b"65537"]) + b"\n" + v + b"^2-" + w + b",\n" + w + b"^2-3\n"
    if k == "manyvars":
        n = r.choice([100, 300, 1000])
        vs = [b"x%d" % i for i in range(n)]
        return k, b",".join(vs) + b"\n" + r.choice([b"101", b"65537"]) + b"\n" + b",\n".join(v + b"-%d" % (i % 7) for i, v in enumerate(vs[:r.choice([1, n // 2, n])])) + b"\n"
    if k == "manygens":
        n = r.choice([100, 2000, 20000])
        return k, b"x,y\n" + r.choice([b"101", b"0"]) + b"\n" + r.choice([b",", b",\n"]).join(r.choice([b"x", b"y^2", b"0", b"x+y", b"3*x"]) for _ in range(n)) + r.choice([b"", b",", b"\n"])
    if k == "longline":
        n = r.choice([1000, 30000])
        return k, b"x,y\n101\n" + b"+".join(b"%d*x^%d*y" % (r.randint(1, 99), r.randint(0, 20)) for _ in range(n)) + b",\ny^2+x\n"
    if k == "commas": return k, b"," * r.choice([1, 5, 1000]) + b"\n" + b"," * r.choice([1, 3]) + b"\n" + b"," * r.choice([1, 100])
    if k == "header": return k, r.choice([b"x", b"x,", b",x", b"x y", b"1,2", b"x,x", b"+,-", b"^,*", b"", b"\n\n\n", b"x\n\n", b"x\n7", b"x\n7\n", b"x\n7\n\n\n", b"x\n\n7\nx\n", b"\nx\n7\nx\n", b"x,y\r\n7\r\nx-y,\r\ny^2\r\n", b"x\r7\rx\r"]) + r.choice([b"", b"\n7\nx-1\n", b"\n0\nx^2-2\n"])
    if k == "nul": return k, b"x,y\n101\nx^2-\0y,\ny^2\0-x\n"
    return k, b"x\n101\n" + r.choice([b"+", b"-", b"*", b"^", b"x*", b"x+", b"-x"]) * r.choice([1, 3, 1000, 20000]) + r.choice([b"", b"x"])

def cases(chk, n):
    # every prefix of an input, for both readers
    for base, a in ((b"x,y\n0\n-3/4*x^2*y+12*y-1,\nx-y^3+5/7\n", []), (b"ab,c_1\n65537\n-3*ab^2*c_1+12*c_1-1,\nab-c_1^3+70000\n", ["-g", "2"])):
        for i in range(len(base)): yield dict(data=base[:i], args=a, kind="prefix", feats=["input cut short"], seed=1)
    # the longest term that is read, byte by byte around the limit, wherever the term stands in its generator
    for n0 in range(49996, 50004):
        for ch in (b"0", b"101"):
            for q, (a, b) in enumerate(((b"", b"-y+1"), (b"", b"+y-1"), (b"", b"-y"), (b"", b"+y"), (b"y+1-", b"+x-y"), (b"y-1+", b"-x+y"), (b"y-", b"+x"), (b"y+", b"-x"), (b"y-", b""), (b"-", b""), (b"", b""))):
                for t in ((b"x^" + b"0" * (n0 - 3) + b"1",) if not chk.thorough() else (b"x^" + b"0" * (n0 - 3) + b"1", b"1" * (n0 - 2) + b"*x")):
                    yield dict(data=b"x,y\n" + ch + b"\n" + a + t + b + b",\nx^2-y^2+1\n", args=["-g", "2"], kind="crafted", feats=["crafted: longterm"], seed=q)
    for i in range(n):
        r = chk.rng("case", i)
        m = mode(r, big=0)
        if r.random() < .25:
            k, d = crafted(r)
            a = m["args"] if m["kind"] != "uni" else []
            yield dict(data=d, args=a, kind="crafted", feats=["crafted: " + k, "mode " + m["kind"]], seed=r.randrange(10**6))
        else:
            yield dict(data=mutate(r, m["text"].encode()), args=m["args"], kind="mutated", feats=["mutated", "mode " + m["kind"], "field " + gen.prime_class(m["S"].ch)], seed=r.randrange(10**6))

def unusable():
    """files that cannot be read"""
    ok = b"x,y\n7\nx^2-y,\ny\n"
    for a in ([], ["-g", "2"], ["-g", "1"], ["-S", "-g", "2"], ["-n", "1"], ["-e", "1", "-g", "2"], ["-P", "2"]):
        for name in ("missing", "empty", "directory", "newline only", "unreadable", "dangling link", "variables only", "no generator", "blanks only"):
            yield dict(kind="unusable", name=name, args=a, feats=["unusable: " + name])

def j13(ctx, c):
    feats = c["feats"]
    p = ctx.path("in.ms")
    import shutil as sh
    if os.path.islink(p) or os.path.isfile(p): os.unlink(p)
    elif os.path.isdir(p): os.rmdir(p)
    data = c.get("data", b"")
    uid = None
    if c["kind"] == "unusable":
        n = c["name"]
        data = {"empty": b"", "newline only": b"\n", "unreadable": b"x\n7\nx\n", "variables only": b"x,y\n", "no generator": b"x,y\n7\n", "blanks only": b"  \n\t\n"}.get(n)
        if n == "directory": os.mkdir(p)
        elif n == "dangling link": os.symlink("nowhere", p)
    if data is not None and not os.path.isdir(p) and not os.path.islink(p):
        with open(p, "wb") as f: f.write(data)
    if c.get("name") in ("missing", "dangling link") and os.path.isfile(p): os.unlink(p)
    drop = c.get("name") == "unreadable"
    if drop: os.chmod(p, 0)
    env = dict(SAN_ENV, VP_TIME=str(1000003 + c.get("seed", 1)))
    env["ASAN_OPTIONS"] += ":hard_rss_limit_mb=3000"
    try: os.unlink(ctx.path("out.ms"))
    except OSError: pass
    argv = [ctx.chk.bins["asan"]["msolve"], "-f", "in.ms", "-o", "out.ms"] + [str(a) for a in c["args"]]
    if drop:   # root may read everything
        if os.geteuid() == 0: argv = ["/usr/bin/setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--"] + argv if os.path.exists("/usr/bin/setpriv") else None
        if argv is None: return Verdict("inc", "cannot give up privileges", feats=feats)
    R = mon.execute(argv, env=env, timeout=ctx.chk.timeout, cwd=ctx.dir, mem_mb=0, stack_mb=1024)
    cmd = "msolve(asan) -f in.ms -o out.ms " + " ".join(map(str, c["args"]))
    import re as _re
    R.err = _re.sub(r"==\d+==WARNING: AddressSanitizer failed to allocate 0xf{8}[0-9a-f]{8} bytes\n", "", R.err)   # a negative count; malloc refuses it and nothing is stored
    rep = {"in.ms": (data or b"").decode("latin-1"), "cmd": cmd, "stderr": R.err[-5000:]}
    o = ctx.read("out.ms") or ""
    what = (c.get("name") or data.decode("latin-1")[:60])
    if R.timeout: return Verdict("inc", "watchdog", feats=feats)
    if drop and "Permission denied" in R.err and "setpriv" in R.err: return Verdict("inc", "cannot execute unprivileged", feats=feats)
    san = sanitizer_report(R.err)
    if san:
        if "hard rss limit" in R.err: return Verdict("inc", "memory", feats=feats)
        return Verdict("bad", san + " [" + cmd + "] on %r" % what, key=san, feats=feats, replay=rep)
    if "hard rss limit" in R.err or "llocat" in R.err and R.rc: return Verdict("inc", "memory", feats=feats)
    if R.rc < 0:
        if R.rc == -6 and "Flint exception" in R.err: feats = feats + ["stopped by the arithmetic library with its message"]
        else: return Verdict("bad", "%s [%s] on %r" % (mon.describe_exit(R), cmd, what), feats=feats, replay=rep)
    msg = (R.err + R.out).strip()
    if R.rc != 0 and not msg: return Verdict("bad", "stops with exit code %d without a message [%s] on %r" % (R.rc, cmd, what), feats=feats, replay=rep)
    if c["kind"] == "unusable":
        if R.rc == 0: return Verdict("bad", "%s input file: exit code 0 [%s], message %r, answer %r" % (c["name"], cmd, msg[:80], o[:40]), feats=feats, replay=rep)
    elif R.rc == 0 and not o.strip() and not ("-S" in map(str, c["args"]) and msg):   # -S is documented for 32-bit prime fields only; elsewhere it says something and stops
        return Verdict("bad", "exit code 0 without an answer [%s] on %r" % (cmd, what), feats=feats, replay=rep)
    return Verdict("ok", feats=feats + ["refused" if R.rc else "answered"], nontrivial=True, sig=(data, tuple(c["args"]), c.get("name")),
                   sample={"input": what, "args": cmd, "exit": R.rc, "message": msg[:80]})

if __name__ == "__main__":
    chk = Check("C13", variants=("asan",), oracle=False, timeout=8,
                rule="byte strings given as input file to the AddressSanitizer/UBSan build; distinct by bytes and options")
    import itertools
    chk.run(itertools.chain(unusable(), cases(chk, chk.scale(3500, 60000))), j13)
    chk.finish(min_distinct=1000, assumptions=["executions that run into the 8 s or 3 GB limits are not judged (counted as inconclusive)"])
