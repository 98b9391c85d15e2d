"""C14: parallel runs are free of data races. ThreadSanitizer on the real program over an OpenMP runtime
whose fork, join, barrier, critical sections are visible to it and whose bookkeeping is not."""
from meta import *
import sched, subprocess, C17

PUB = re.compile(r"^__wrap___tsan_atomic|^__tsan_atomic\d+_compare_exchange")

def frames(b):
    """[(function, file, line)] of one stack, wrapper frames dropped"""
    out = []
    for l in b.split("\n"):
        m = re.match(r"\s+#\d+ (\S+) (\S+?):(\d+)", l) or re.match(r"\s+#\d+ (\S+) (\S+)", l)
        if m: out.append((m.group(1), os.path.basename(m.group(2)), m.group(3) if m.lastindex == 3 else "0"))
    return out

def clean(fn):
    return re.sub(r"\.(_omp_fn|constprop|part|isra|cold|lto_priv).*", "", fn)

def md_fields(binary):
    """byte offset -> member of md_t"""
    t = subprocess.run(["gdb", "-batch", "-ex", "ptype /o md_t", binary], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    d = {}
    for m in re.finditer(r"/\*\s*(\d+)\s*\|\s*(\d+)\s*\*/\s+(.*?)(\w+)(\[\d+\])?;", t):
        for k in range(int(m.group(1)), int(m.group(1)) + int(m.group(2))): d[k] = m.group(4)
    return d

def parse(err, fields):
    """race reports -> {key: text}"""
    res = {}
    for b in err.split("=================="):
        if "WARNING: ThreadSanitizer: data race" not in b: 
            m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", b)
            if m: res.setdefault("ThreadSanitizer: " + m.group(1), b)
            continue
        acc, pub, size, addr = [], False, 0, 0
        for p in re.split(r"\n\s*\n", b):
            h = re.search(r"^\s+((Previous )?(atomic )?(read|write)) of size (\d+) at (0x[0-9a-f]+)", p, re.M | re.I)
            if not h: continue
            f = frames(p)
            if f and PUB.match(f[0][0]): pub = True
            f = [x for x in f if not x[0].startswith(("__wrap_", "__tsan"))]
            acc.append((h.group(1).lower().replace("previous ", ""), f[0] if f else ("?", "?", "0")))
            addr = int(h.group(6), 16); size = int(h.group(5))
        if pub and size == 8: continue       # the publication of a pivot row
        loc = ""
        m = re.search(r"Location is heap block of size (\d+) at (0x[0-9a-f]+) allocated by[^\n]*\n((?:\s+#.*\n)+)", b)
        if m:
            al = [x for x in frames(m.group(3)) if not x[0].startswith(("__wrap_", "malloc", "calloc", "realloc", "__interceptor"))]
            loc = "heap block of %s" % (al[0][0] if al else "?")
            if al and "meta_data" in al[0][0]:
                loc = "md_t.%s" % fields.get(addr - int(m.group(2), 16), "?")
        else:
            m = re.search(r"Location is (global '[^']*'|stack of [^\n]*?thread)", b)
            if m: loc = m.group(1)
        key = " / ".join(sorted("%s in %s (%s)" % (a, clean(f[0]), f[1]) for a, f in acc[:2])) + " on " + (loc or "?")
        if re.search(r"md_t\.(application|trace)_nr_(mult|add|red)$", key): key = "statistics counters of md_t: " + key
        res.setdefault(key, b)
    return res

def cases(chk, n, big):
    for i in range(n):
        r = chk.rng("case", big, i)
        if big: m = biggb(r, r.random() < .2)
        elif r.random() < .02:
            import C18
            k, f = C18.big(r)
            S = gen.Sys(["x"], 0, [f], "uni-" + k)
            m = dict(kind="uni", S=S, text=gen.to_text(S, r), args=["-p", "64"])
        else: m = mode(r, big=.25)
        k = m["kind"]
        la = ["1", "2", "2", "42", "44"] if k in GB else ["1", "2", "44"]
        t = r.choice(["2", "3", "4", "8"])
        if k in ("gbq", "elimq") or big: t = r.choice(["2", "3", "4"])
        yield dict(m, args=m["args"] + ["-l", r.choice(la), "-t", t] + (["-s", r.choice(["2", "5", "8", "12"])] if r.random() < .8 else []) + (["-m", r.choice(["2", "5"])] if r.random() < .4 else []),
                   variant=r.choice(["tsan", "tsan", "tsan-avx2"]), seed=r.randrange(10**6), sched=r.randrange(1, 10**6))

def grid(chk, rounds):
    """every linear algebra over every coefficient width, in the scalar and the AVX2 build"""
    for i in range(rounds):
        for w, chs in (("8", gen.PRIMES8), ("16", gen.PRIMES16), ("17+", gen.PRIMES17 + gen.PRIMES18), ("31", gen.PRIMES31)):
            for la in ("1", "2", "42", "44"):
                for v in ("tsan", "tsan-avx2"):
                    r = chk.rng("grid", i, w, la, v)
                    lib = la in ("42", "44") and w in ("8", "16") and (w == "8" or i % 2)
                    # the program itself falls back to -l 2 below 2^15; a host of the library is not held back
                    ch = r.choice([p for p in chs if lib or w == "8" or la in "12" or p > 2**15])
                    k = r.choice(["quad", "kat", "eco", "rand"])
                    if k == "kat": nv, ps = gen.katsura(r.choice([5, 6]))
                    elif k == "eco": nv, ps = gen.eco(r.choice([6, 7]))
                    elif k == "quad": nv = 5; ps = [gen.dense(r, nv, 2, ch, 6) for _ in range(nv)]
                    else: nv = 5; ps = [gen.rpoly(r, nv, 2, r.randint(6, 12), ch, size=4) for _ in range(nv)]
                    ps = [p for p in (gen.pmod(p, ch) for p in ps) if p]
                    S = gen.Sys(gen.names(r, nv), ch, ps, "grid-" + k)
                    t = r.choice(["2", "3", "4"])
                    yield dict(kind="gb", S=S, text=gen.to_text(S, r), args=["-g", "2", "-l", la, "-t", t], lib=lib and "GB %d 0 0 %d 17 %s 0 0 %s 1\n" % (ch, nv, t, la) + C17.sysblock(ps, nv, ch, r), variant=v, seed=r.randrange(10**6), sched=r.randrange(1, 10**6))

def j14(ctx, c):
    ctx.write("in.ms", c["text"])
    try: os.unlink(ctx.path("sched"))
    except OSError: pass
    env = {"TSAN_OPTIONS": "exitcode=0:history_size=7:report_thread_leaks=0:report_signal_unsafe=0:detect_deadlocks=0", "VP_SCHED": str(c["sched"]), "VP_SCHED_MODE": "2", "VP_SCHED_LOG": "sched"}
    if c.get("lib"): R = mon.execute([ctx.chk.bins[c["variant"]]["libcall"], "result"], env=dict(env, VP_TIME=str(1000003 + c["seed"])), timeout=ctx.chk.timeout, cwd=ctx.dir, stdin=c["lib"], mem_mb=0)
    else: R = run_case(ctx, dict(c, env=env, variant=c["variant"]))
    feats = ["mode " + c["kind"], "field " + gen.prime_class(c["S"].ch), "family " + c["S"].fam] + opt_feats(c["args"]) + (["called as a library"] if c.get("lib") else [])
    cmd = "VP_TIME=%d %s msolve(%s) %s" % (1000003 + c["seed"], " ".join("%s=%s" % x for x in env.items()), c["variant"], " ".join(c["args"]))
    lg = ctx.read("sched")
    LOG.add(lg, ctx.chk.bins[c["variant"]]["msolve"])
    races = parse(R.err, FIELDS)
    vs = []
    for k, b in races.items():
        vs.append(Verdict("bad", "data race: %s [%s]" % (k, cmd), key=k, feats=feats, replay=dict({"in.ms": c["text"], "cmd": cmd, "report": b}, **({"script": c["lib"]} if c.get("lib") else {}))))
    if vs:
        return vs
    if R.timeout: return Verdict("inc", "watchdog", feats=feats)
    if R.rc != 0: return Verdict("inc", "did not finish: %s %s" % (mon.describe_exit(R), R.err[-60:].strip()), feats=feats)
    nreg = sum(1 for l in (lg or "").split("\n") if l.startswith("R"))
    return Verdict("ok", feats=feats, nontrivial=nreg > 0, sig=c["text"] + str(c["args"]),
                   sample={"input": c["text"][:200], "cmd": cmd, "parallel regions run by several threads": nreg})

if __name__ == "__main__":
    chk = Check("C14", variants=("tsan", "tsan-avx2"), programs={v: ("msolve", "libcall") for v in ("tsan", "tsan-avx2")}, oracle=False, timeout=45,
                rule="an execution whose trace of synchronisation and memory accesses was checked by the happens-before detector; non-trivial: at least one parallel region was run by several threads; distinct by input and options")
    FIELDS = md_fields(chk.bins["tsan"]["msolve"])
    LOG = sched.Log(chk)
    import itertools
    chk.run(grid(chk, chk.scale(2, 40)), j14)
    chk.run(itertools.chain(cases(chk, chk.scale(10, 400), True), cases(chk, chk.scale(380, 12000), False)), j14, deadline=chk.scale(200, 4000))
    chk.finish(min_distinct=100, extra=LOG.extra(), assumptions=[
        "the scalar and the AVX2 build are monitored; accesses inside of libgmp, libflint and libmpfr are seen only where ThreadSanitizer intercepts them",
        "8-byte loads of a location that is published with compare-and-swap are treated as atomic acquire loads (the publication excluded by the property)",
        "a schedule is one member at a time with a seeded choice at every chunk; the detector itself is independent of timing"])
