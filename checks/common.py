"""Shared by the checks: weighted choice of families, option vectors, and the judge that
runs the real msolve on a case and asks the reference checker about what it printed."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gen, mon, build
from mon import Verdict, Check

W = [("random", 20), ("quad", 10), ("classic", 12), ("shape", 12), ("nonrad", 8), ("grid", 5), ("ci", 10), ("posdim", 14),
     ("unit", 8), ("dup", 10), ("manyvars", 8), ("highdeg", 8), ("fieldeq", 6), ("small", 8)]
WSOL = [("random", 14), ("quad", 10), ("classic", 12), ("shape", 18), ("nonrad", 10), ("grid", 10), ("ci", 12), ("posdim", 8),
        ("unit", 6), ("dup", 8), ("manyvars", 8), ("highdeg", 6), ("fieldeq", 4), ("small", 8)]

PRIMES_SOLVE = [p for p in gen.PRIMES16 + gen.PRIMES17 + gen.PRIMES18 + gen.PRIMES31 if 2**15 < p < 1518500213]

def pick(r, table):
    x = r.random() * sum(w for _, w in table)
    for n, w in table:
        x -= w
        if x < 0: return n
    return table[-1][0]

def perf_opts(r, la=(1, 2, 42, 44), dens=1.0, threads=(2, 3, 4, 8), fullmem=True):
    """options documented as affecting only how the answer is computed"""
    o = []
    if r.random() < .5 * dens: o += ["-l", r.choice(la)]
    if threads and r.random() < .25 * dens: o += ["-t", r.choice(threads)]
    if r.random() < .4 * dens: o += ["-s", r.choice([2, 3, 4, 5, 8, 12])]
    if r.random() < .2 * dens: o += ["-u", r.choice([1, 2, 3])]
    if r.random() < .3 * dens: o += ["-m", r.choice([1, 2, 3, 5, 20])]
    return [str(x) for x in o]

def system(r, ch, weights=W, big=.1):
    fam = pick(r, weights)
    if fam == "fieldeq" and ch and ch < 2**15: ch = r.choice([2, 2, 3, 5, 7])
    return gen.make(r, fam, ch, big=r.random() < big)

def tall_system(r, ch, nvs=(2, 2, 3), tops=(130, 260, 300, 520, 700, 1100)):
    """sparse systems with exponents beyond 8 bits; every degree met stays below 2^16 (pass maxdeg to the reference).
    In three variables only two polynomials: a zero-dimensional ideal would have a quotient of dimension 1e8, which msolve enumerates"""
    nv = r.choice(nvs)
    top = r.choice(tops)
    def mono(d):
        e = [0] * nv
        for _ in range(r.choice([1, 1, 2])): e[r.randrange(nv)] = r.choice([d, d - r.randint(0, 5), r.randint(1, d), 255, 256, 257]) if d > 257 else r.randint(1, d)
        return tuple(e)
    ps = []
    for _ in range(r.choice([2, 2, 3]) if nv == 2 else 2):
        p = {mono(top): 1}
        for _ in range(r.choice([1, 1, 1, 2])): p[r.choice([mono(top // 2), mono(r.choice([3, top])), (0,) * nv])] = r.randint(1, ch - 1) if ch else r.choice([-3, -2, -1, 1, 1, 2, 5])
        p = gen.pmod(p, ch)
        if p: ps.append(p)
    if not ps: return None
    return gen.Sys(gen.names(r, nv), ch, ps, "tall")

TALL = " ops=20000000 maxdeg=20000"

def text_of(r, S):
    return gen.to_text(S, r, r.choice([0, 0, 1, 2, 3]))

def opt_feats(opts):
    f = []
    for i in range(len(opts)):
        if str(opts[i]).startswith("-") and i + 1 < len(opts): f.append("option %s %s" % (opts[i], opts[i + 1]))
        elif str(opts[i]).startswith("-"): f.append("option %s" % opts[i])
    return f

PROB = {"42", "44"}
def probabilistic(opts):
    o = [str(x) for x in opts]
    return any(o[i] == "-l" and o[i + 1] in PROB for i in range(len(o) - 1))

def sanitizer_report(err):
    m = re.search(r"(\S+ runtime error:.*)", err)
    if m: return "undefined behaviour: " + m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        fr = [x for x in re.findall(r"#\d+ \S+ in (\S+) (\S+)", err) if "/repo/" in x[1] or "src/" in x[1]][:3]
        if not fr: fr = re.findall(r"#\d+ \S+ in (\S+) (\S+)", err)[:3]
        return "AddressSanitizer: %s at %s" % (m.group(1), "; ".join("%s (%s)" % (a, b.split("/")[-1]) for a, b in fr))
    if "WARNING: ThreadSanitizer" in err:
        return "ThreadSanitizer report"
    return None

SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=201",
           "UBSAN_OPTIONS": "print_stacktrace=0"}

def run_case(ctx, c):
    """execute one case: c has text, args; optional variant, env, seed, timeout"""
    v = c.get("variant", "plain")
    env = dict(c.get("env", {}))
    if "asan" in v: env.update(SAN_ENV)
    elif c.get("seed", 1) % 3: env.setdefault("VP_FILL", str(1 + (c.get("seed", 1) * 37) % 254))
    return ctx.msolve(c["args"], variant=v, env=env, seed=c.get("seed", 1), timeout=c.get("timeout"),
                      mem_mb=0 if ("asan" in v or "tsan" in v) else c.get("mem", 6144))

def judge(ctx, c):
    """one execution against the reference checker.
    c: text, args, req ("gb elim=1" ...), feats, + the fields of run_case"""
    ctx.write("in.ms", c["text"])
    feats = list(c.get("feats", []))
    cmd = "%s msolve -f in.ms -o out.ms %s" % ("VP_TIME=%d" % (1000003 + c.get("seed", 1)), " ".join(map(str, c["args"])))
    rep = {"in.ms": c["text"], "cmd": cmd + "\nvariant: " + c.get("variant", "plain") + "\n"}
    R = run_case(ctx, c)
    if R.timeout:
        return hang(ctx, c, feats, rep)
    san = sanitizer_report(R.err)
    if san: return Verdict("bad", san + " [" + cmd + "]", feats=feats, replay=dict(rep, stderr=R.err[-20000:]))
    if R.rc != 0:
        if "could not get" in R.err or "Cannot allocate" in R.err or "Allocating" in R.err:
            return Verdict("inc", "out of memory", feats=feats)
        return Verdict("bad", "valid input: %s %s [%s]" % (mon.describe_exit(R), (R.err or R.out)[-160:].strip(), cmd), feats=feats, replay=dict(rep, stderr=R.err[-20000:]))
    rep["out.ms"] = ctx.read("out.ms") or ""
    if not c.get("req"):
        return Verdict("ok", feats=feats, nontrivial=len(rep["out.ms"]) > 0, sig=(c["text"], c.get("variant")), sample={"input": c["text"][:200], "cmd": cmd})
    op, _, rest = c["req"].partition(" ")
    k, what, kv = ctx.oracle.ask("%s in=%s out=%s %s" % (op, ctx.path("in.ms"), ctx.path("out.ms"), rest), timeout=c.get("oracle_timeout", 60))
    if k == "INC": return Verdict("inc", what, feats=feats)
    if k == "BAD":
        return Verdict("bad", "%s [%s] %s" % (what, cmd, " ".join(c.get("feats", [])[:2])), key=what + " " + c.get("key", ""), feats=feats, replay=rep)
    return Verdict("ok", feats=feats + sol_feats(kv), nontrivial=nontrivial(op, kv), sig=c["text"],
                   sample={"input": c["text"][:300], "cmd": cmd, "reference": what[:200]})

def sol_feats(kv):
    f = []
    if "dimc" in kv: f.append("dimension class " + {"-1": "empty", "0": "finite", "1": "infinite"}[kv["dimc"]])
    if "D" in kv and kv.get("dimc") == "0":
        D = int(kv["D"])
        f.append("degree " + ("1" if D == 1 else "2-9" if D < 10 else "10-31" if D < 32 else "32-99" if D < 100 else "100+"))
        if kv.get("delta", "-1") not in ("-1", kv["D"]): f.append("ideal with multiplicities")
        if kv.get("nvo") and kv.get("par") == "1": f.append("parametrization printed")
    return f

def nontrivial(op, kv):
    if op in ("gb", "sat"): return int(kv.get("pairs", 0)) > 0
    if op == "nf": return int(kv.get("changed", 0)) > 0
    if op == "uni": return int(kv.get("wdeg", 0)) > 1
    return True

def hang(ctx, c, feats, rep):
    """no answer within the watchdog: a violation only if the reference engine, from scratch,
    needs a small fraction of that time"""
    if c.get("slow"): return Verdict("inc", "slow case: watchdog", feats=feats)     # sparse high degrees: minutes are legitimate
    what = "no answer within %ds [%s]" % (c.get("timeout") or ctx.chk.timeout, " ".join(map(str, c["args"])))
    k, _, _ = ctx.oracle.ask("refgb in=%s ops=60000000" % ctx.path("in.ms"), timeout=10)
    if k == "INC": return Verdict("inc", "slow case: watchdog", feats=feats)
    return Verdict("hang", what, feats=feats, replay=rep)

def stable_judge(n=4, need=3, when=lambda c, v: True, base=None):
    """for answers that msolve documents as probabilistic: a wrong answer counts when it recurs
    under `need` of `n` further seeds"""
    base = base or judge
    def j(ctx, c):
        v = base(ctx, c)
        if v.kind == "bad" and when(c, v):
            bad = 0
            for k in range(n):
                w = base(ctx, dict(c, seed=c.get("seed", 1) + 7919 * (k + 1)))
                if w.kind in ("bad", "hang"): bad += 1
            if bad < need:
                return Verdict("inc", "probabilistic answer, wrong for %d of %d seeds" % (bad + 1, n + 1), feats=v.feats)
        return v
    return j
