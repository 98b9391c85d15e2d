"""C19: over Q the answer does not depend on the random seed. Seed sweeps, and systems built around the primes
msolve will draw from a given seed: a generator lost, a solution at infinity, a double root or a vanishing
coefficient modulo exactly these primes."""
from meta import *
import ctypes
from fractions import Fraction

_libc = ctypes.CDLL("libc.so.6")
_lock = __import__("threading").Lock()

def isprime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def nextprime(n):
    n += 1
    while not isprime(n): n += 1
    return n

def primes(seed, n=6):
    """the primes of a run: the learning prime, then the following ones"""
    with _lock:
        _libc.srand(1000003 + seed); r = _libc.rand()
    out = [nextprime(r % (1303905301 - (1 << 30) + 1) + (1 << 30))]
    while len(out) < n + 1: out.append(nextprime(out[-1]))
    return out

def mix(r, ps):
    """an invertible integer combination of the generators"""
    ps = [dict(p) for p in ps]
    n = len(ps)
    if n < 2: return ps
    for _ in range(n + r.randint(0, 2)):
        i, j = r.sample(range(n), 2)
        k = r.choice([-3, -2, -1, 1, 2, 3])
        for m, c in ps[j].items():
            ps[i][m] = ps[i].get(m, 0) + k * c
        ps[i] = {m: c for m, c in ps[i].items() if c}
        if not ps[i]: return None
    return ps

def adversarial(r, S, p):
    """-> (polys, how) or None"""
    nv = S.nv
    ps = [dict(f) for f in S.polys]
    if any(isinstance(c, Fraction) and c.denominator != 1 for f in ps for c in f.values()): return None
    ps = [{m: int(c) for m, c in f.items()} for f in ps]
    how = r.choice(["coefficient", "generator lost", "generator lost", "solution at infinity", "solution at infinity", "double root", "double root", "leading term"])
    if how == "coefficient":
        f = r.choice(ps); t = r.choice(sorted(f)); f[t] *= p
        return ps, how
    if how == "generator lost":
        if len(ps) < 2: return None
        i, j = r.sample(range(len(ps)), 2)
        f = {m: c * p for m, c in ps[i].items()}
        k = r.choice([1, 1, 2, -3])
        for m, c in ps[j].items(): f[m] = f.get(m, 0) + k * c
        ps[i] = {m: c for m, c in f.items() if c}
        return ps, how
    if how == "solution at infinity":
        # x -> p*x - a modulo the others: one coordinate becomes a fraction with denominator p
        v = r.randrange(nv); a = r.randint(-5, 5)
        d = max((m[v] for f in ps for m in f), default=0)
        if not d or d > 4 or sum(len(f) for f in ps) > 60: return None
        out = []
        for f in ps:
            g = {}
            for m, c in f.items():
                # substitute x_v by p*x_v - a
                import math
                for e in range(m[v] + 1):
                    mm = m[:v] + (e,) + m[v + 1:]
                    g[mm] = g.get(mm, 0) + c * math.comb(m[v], e) * p ** e * (-a) ** (m[v] - e)
            out.append({m: c for m, c in g.items() if c})
        out = mix(r, out)
        return (out, how) if out and all(out) else None
    if how == "double root":
        v = r.randrange(nv); a = r.randint(-5, 5)
        e1 = tuple(int(i == v) for i in range(nv)); e2 = tuple(2 * int(i == v) for i in range(nv)); z = (0,) * nv
        q = r.choice([1, 1, -1, 2]) * p
        ps = ps[:max(1, len(ps) - 1)] + [{m: c for m, c in {e2: 1, e1: -(2 * a + q), z: a * (a + q)}.items() if c}]
        if r.random() < .5: ps = mix(r, ps)
        return (ps, how) if ps else None
    i = r.randrange(len(ps)); f = ps[i]
    d = max(sum(m) for m in f)
    v = r.randrange(nv)
    m = tuple((d + r.randint(0, 1)) * int(k == v) for k in range(nv))
    f[m] = f.get(m, 0) + r.choice([1, -1, 3]) * p
    ps = mix(r, ps)
    return (ps, how) if ps and all(ps) else None

def cases(chk, n):
    for i in range(n):
        r = chk.rng("case", i)
        k = r.choice(["gbq", "gbq", "elimq", "solqq", "solqq"])
        m = mode(r, kinds=[k], big=0)
        k, S = m["kind"], m["S"]
        if k == "solqq": m["args"] = ["-P", r.choice(["1", "1", "2"])]
        seed = r.randrange(10**6)
        la = r.choice(["2", "2", "2", "1", "44"])
        t = r.choice(["1", "1", "2", "4"])
        o = ["-l", la, "-t", t, "-v", "1"]
        f = ["mode " + k, "option -l " + la, "option -t " + t, "family " + S.fam]
        if r.random() < .35:
            if k == "gbq" and r.random() < .3: m["args"] = ["-g", "1"]
            runs = [dict(args=m["args"] + o, seed=seed + 7919 * j) for j in range(4)]
            yield dict(m, runs=runs, seed=seed, feats=f + ["seed sweep"])
            continue
        P = primes(seed)
        which = r.choice([[0], [0], [1], [1], [2], [3], [4]])
        p = 1
        for w in which: p *= P[w]
        a = adversarial(r, S, p)
        if not a: continue
        ps = [q for q in a[0] if q]
        if not ps: continue
        S = gen.Sys(S.vars, 0, ps, S.fam)
        S0 = gen.Sys(S.vars, P[0], [q for q in (gen.pmod(q, P[0]) for q in ps) if q] or [{(1,) + (0,) * (S.nv - 1): 1}], S.fam)
        runs = [dict(args=m["args"] + o, seed=seed + 1), dict(args=m["args"] + o, seed=seed)]
        yield dict(kind=k, S=S, text=gen.to_text(S, r), text0=gen.to_text(S0), args=m["args"], runs=runs, seed=seed, which=which, how=a[1],
                   feats=f + ["primes " + "".join("p%d" % w for w in which), a[1]])

def listed(chk):
    """the input named in known_findings.json: modulo the first prime p the solution is at infinity"""
    p = primes(1)[0]
    yield dict(kind="gbq", text="x,y\n0\nx-y,\n%d*x-y-1\n" % (p + 1), args=["-g", "2"], runs=[dict(args=["-g", "2"], seed=2), dict(args=["-g", "2"], seed=1)], seed=1, feats=["listed input"], listed=1, key="listed-first-prime")

def canon(kind, t):
    """what must not depend on the seed"""
    b = body(t)
    if kind != "solqq": return b, b
    if not b.startswith("[0,"): return b, b
    # the choice of an announced linear form may vary: then only the class is compared here
    m = re.match(r"\[0,\[0,(\d+),(\d+),\[([^\]]*)\],\[([^\]]*)\]", b)
    plain = m and set(m.group(4).split(",")) <= {"0", "1"}
    return b, (b if plain else None)

def prime_changes_class(ctx, c):
    """does the first prime alone change the answer of the single modular computation that decides the class,
    the unit ideal and the leading ideal?"""
    lead = []
    a = ["-g", "1"] + (c["args"][c["args"].index("-e"):][:2] if "-e" in c["args"] else [])
    for text, seed in ((c["text0"], 1), (c["text"], c["seed"] + 1)):
        ctx.write("in.ms", text)
        R = ctx.msolve(a, seed=seed)
        if R.timeout or R.rc: return True
        lead.append(body(ctx.read("out.ms") or ""))
    return lead[0] != lead[1]

def j19(ctx, c):
    feats = list(c["feats"])
    first = None
    for i, q in enumerate(c["runs"]):
        ctx.write("in.ms", c["text"])
        d = dict(text=c["text"], args=q["args"], seed=q["seed"], env={"VP_TIME_TICK": "400"} if c.get("which") else {}, timeout=c.get("timeout"))
        R = run_case(ctx, d)
        cmd = "VP_TIME=%d VP_TIME_TICK=400 msolve %s" % (1000003 + q["seed"], " ".join(q["args"]))
        rep = {"in.ms": c["text"], "cmd": cmd, "stderr": R.err[-5000:]}
        if R.timeout: return hang(ctx, d, feats, rep)
        if R.rc: return Verdict("bad", "stops with an error because of the primes: %s %s [%s] (%s)" % (mon.describe_exit(R), R.err[-120:].strip(), cmd, c.get("how", "sweep")), feats=feats, replay=rep)
        o = ctx.read("out.ms") or ""
        if i and c.get("which"):
            nb = len(re.findall(r"<bp:", R.out)) + sum(int(x) for x in re.findall(r"#bad primes\s+(\d+)", R.out))
            if nb: feats.append("bad primes met while lifting")
            if "Bad prime chosen initially" in R.err or "computation will restart" in R.err: feats.append("restarted with another first prime")
        full, det = canon(c["kind"], o)
        cls = full[:3] if c["kind"] == "solqq" else full
        if i == 0: first = (full, det, cls, o); continue
        w = None
        if cls != first[2]: w = "the class of the solution set" if c["kind"] == "solqq" else "the answer"
        elif det and first[1] and det != first[1]: w = "the parametrization"
        if w:
            if c.get("which") and prime_changes_class(ctx, c):
                return Verdict("inc", "decided by the first prime alone (known finding)", feats=feats)
            j = next((k for k in range(min(len(full), len(first[0]))) if full[k] != first[0][k]), 0)
            what = "%s depends on the seed: ...%s... and ...%s... [%s] (%s)" % (w, first[0][max(0, j - 20):j + 40], full[max(0, j - 20):j + 40], cmd, "%s %s" % (c.get("how", "sweep"), c.get("which")))
            return Verdict("bad", what, key=what + " " + c.get("key", ""), feats=feats, replay=dict(rep, **{"out0.ms": first[3], "out1.ms": o, "cmd0": "seed %d" % c["runs"][0]["seed"]}))
        if c["kind"] == "solqq" and c.get("which") and full.startswith("[0,"):
            # also against the reference checker, as the linear form may differ
            k, what, kv = ctx.oracle.ask("sol in=%s out=%s nobox=1" % (ctx.path("in.ms"), ctx.path("out.ms")), timeout=20)
            if k == "BAD" and "square-missing,ext" not in what:
                return Verdict("bad", "%s [%s] (%s)" % (what, cmd, c.get("how")), feats=feats, replay=dict(rep, **{"out.ms": o}))
            if k != "INC": feats.append("verified by the reference checker")
    return Verdict("ok", feats=feats, nontrivial=len(first[0]) > 8, sig=c["text"],
                   sample={"input": c["text"][:200], "seeds": [q["seed"] for q in c["runs"]], "args": " ".join(c["runs"][0]["args"]), "how": c.get("how", "sweep"), "answer": first[0][:80]})

if __name__ == "__main__":
    chk = Check("C19", timeout=20, rule="an answer of more than a constant, computed with at least two seeds; distinct by input")
    chk.run(listed(chk), j19)
    chk.run(cases(chk, chk.scale(4000, 60000)), stable_judge(base=j19, when=lambda c, v: probabilistic(c["runs"][0]["args"]) and not c.get("which")))
    chk.finish(min_distinct=300, assumptions=["the primes are predicted from the seed with the C library's rand(); 'bad primes met while lifting' in 'observed' counts the executions that really met them"])
