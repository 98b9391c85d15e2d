"""C17: the exported functions, call after call in one process, against the program on the same data."""
from meta import *
import ast

def nums(S): # lens, exps, coefficients
    out = [str(len(S))]
    out += [str(len(p)) for p in S]
    return out

def sysblock(ps, nv, ch, r, rational=False, signed=False):
    lens = " ".join(str(len(p)) for p in ps)
    ex, cf = [], []
    for p in ps:
        ms = list(p)
        for m in ms:
            ex += [str(e) for e in m]
            c = Fraction(p[m])
            if rational: cf += ["%d" % c.numerator, "%d" % c.denominator]
            else:
                v = int(c) % ch
                if signed and r.random() < .5: v -= ch
                cf.append(str(v))
    return "%d %s\n%s\n%s\n" % (len(ps), lens, " ".join(ex), " ".join(cf))

from fractions import Fraction

def totext(S):
    return ",".join(S.vars) + "\n%d\n" % S.ch + ",\n".join(gen.poly_str(p, S.vars) for p in S.polys) + "\n"

def job(r, same):
    """-> dict(kind, nv, ch, script text, program text and args)"""
    k = r.choice(["gb", "gb", "gb", "elim", "nf", "nf", "gbq", "gbq", "elimq", "sol", "sol"])
    if same and r.random() < .5: k = "nf-chain"
    q = k in ("gbq", "elimq", "sol")
    ch = 0 if q else gen.pick_prime(r)
    if k == "nf-chain": ch = same["S"].ch
    for _ in range(100):
        S = system(r, ch, WSOL if k == "sol" else W, big=.15)
        if "elim" in k and S.nv < 2: continue
        ch = S.ch
        if ch and any(not gen.pmod(p, ch) for p in S.polys): continue
        break
    if ch: S.polys = [gen.pmod(p, ch) for p in S.polys]
    for i, p in enumerate(S.polys):   # the order of the terms is the caller's, and the same for the program
        ms = list(p); r.shuffle(ms); S.polys[i] = {m: p[m] for m in ms}
    la, th, mp, ht, rs = r.choice([1, 2, 2]), r.choice([1, 1, 2, 4]), r.choice([0, 0, 1, 2, 5]), r.choice([17, 17, 2, 5, 12]), r.choice([0, 0, 1, 3])
    el = r.randint(1, S.nv - 1) if "elim" in k else 0
    sg = ch and r.random() < .3
    j = dict(kind=k, S=S, el=el)
    if k in ("gb", "elim", "gbq", "elimq"):
        if not q and ch > 200 and r.random() < .3: la = r.choice([42, 44]); j["prob"] = True
        mo = 0   # 1 (lexicographical) is not claimed, see DESIGN.md
        j["script"] = "GB %d %d %d %d %d %d %d %d %d 1\n" % (ch, mo, el, S.nv, ht, th, mp, rs, la) + sysblock(S.polys, S.nv, ch, r, q, sg)
        j["text"], j["args"] = totext(S), ["-g", "2"] + (["-e", str(el)] if el else [])
    elif k in ("nf", "nf-chain"):
        if k == "nf-chain": S, el = same["S"], same["el"]
        n = r.randint(1, 4)
        fs = [gen.pmod(gen.rpoly(r, S.nv, r.choice([1, 2, 3, 5]) if S.nv < 8 else 2, r.randint(1, 6), ch), ch) for _ in range(n)]
        if r.random() < .3: fs.append(gen.pmod(gen.pmul(S.polys[0], gen.pvar(0, S.nv)), ch))
        if r.random() < .1: fs.append(gen.pmod({(0,) * S.nv: 1}, ch))
        fs = [f for f in fs if f] or [gen.pvar(0, S.nv, 2)]
        j["script"] = "NF %d %d %d %d %d %d\n" % (ch, el, S.nv, th, int(k == "nf-chain"), int(k == "nf-chain")) + sysblock(fs, S.nv, ch, r, False, sg) + (sysblock(S.polys, S.nv, ch, r, False, sg) if k == "nf" else "")
        T = gen.Sys(S.vars, ch, S.polys + fs, S.fam)
        j["S"] = S
        j["text"], j["args"] = totext(T), ["-n", str(len(fs))] + (["-e", str(el)] if el else [])
    else:
        prec = j["prec"] = r.choice([32, 64, 128, 200])
        j["script"] = "SOL %d %d %d %d %d 1 2 %d\n%s\n%%s\n" % (S.nv, ht, th, mp, la, prec, " ".join(S.vars)) + sysblock(S.polys, S.nv, 0, r, True)
        # the program on the same polynomials in the same order
        j["text"], j["args"] = totext(S), ["-P", "1", "-p", str(prec), "-l", str(la), "-t", str(th)] + (["-m", str(mp)] if mp else [])
    return j

def cases(chk, n):
    for i in range(n):
        r = chk.rng("case", i)
        js, last = [], None
        for _ in range(r.randint(2, 9)):
            if js and r.random() < .15: j = r.choice([x for x in js])   # exactly the same call again
            else: j = job(r, last)
            if j["kind"] == "nf-chain" and (last is None or j["S"] is not last["S"]): continue
            js.append(j)
            if j["kind"] in ("gb", "elim"): last = j
        yield dict(jobs=js, seed=r.randrange(10**6), variant="asan" if r.random() < .25 else "plain",
                   feats=["calls in one process: %d" % len(js)] + ["call " + j["kind"] for j in js] + ["field " + gen.prime_class(j["S"].ch) for j in js] + ["family " + j["S"].fam for j in js])

def listing(t):
    """program output -> list of polynomial texts"""
    b = body(t)
    if not b.endswith("]:"): return None
    return b[b.index("[") + 1:-2].split(",") if b.startswith("[") else None

def same_polys(txt, R, vars, ch, nf):
    """text of the program's list against RES/EXP/CF of the call"""
    b = body(txt)
    if not (b.startswith("[") and b.endswith("]:")): return "program answer not understood"
    P = [p for p in b[1:-2].split(",")]
    ld, lens, ex, cf = R
    if P == ["0"] and ld == 0: return None
    if len(P) != ld: return "%d polynomials returned, the program prints %d" % (ld, len(P))
    nv, t = len(vars), 0
    for i, p in enumerate(P):
        want = []
        for s in re.findall(r"[+-]?[^+-]+", p):
            sg = -1 if s[0] == "-" else 1
            fs = s.lstrip("+-").split("*")
            if fs[0].isdigit(): c = sg * int(fs.pop(0))
            else: c = sg
            e = [0] * nv
            for f in fs:
                x, _, k = f.partition("^")
                e[vars.index(x)] += int(k or 1)
            want.append((c, e))
        got = [(cf[t + k], ex[(t + k) * nv:(t + k + 1) * nv]) for k in range(lens[i])]
        t += lens[i]
        if got != want:
            if want == [] or (len(want) == 1 and want[0][0] == 0 and len(got) == 1 and got[0][0] == 0): continue
            return "polynomial %d differs: the call returns %s, the program prints %s" % (i + 1, got[:4], want[:4])
    return None

def ints(l): return [int(x) for x in l.split()]

def nested(t):
    """program's solving answer -> nested lists (fractions become pairs)"""
    t = re.sub(r"'(\w+)'", r'"\1"', t)
    t = re.sub(r"(-?\d+)\s*/\s*2\^(\d+)", lambda m: "(%s,%d)" % (m.group(1), 2 ** int(m.group(2))), t)
    t = re.sub(r"(-?\d+)\s*/\s*(\d+)", r"(\1,\2)", t)
    return ast.literal_eval(t)

def same_sol(txt, L, vars):
    b = body(txt)
    A = nested(b[:-1])
    if A[0] == -1: return None if L["ld"] == -1 or L.get("lens") == [] else "the program finds no solution, the call returns a parametrization"
    if A[0] == 1: return None if L.get("dim", 0) > 0 and L.get("lens") == [] else "the program finds infinitely many solutions, the call returns dimension %s with %s lengths" % (L.get("dim"), len(L.get("lens", [])))
    if L["ld"] < 0: return "the program finds finitely many solutions, the call returns none"
    par = A[1]
    ch, nv, deg, names, lf, P = par[0], par[1], par[2], par[3], par[4], par[5]
    if L["dim"] != 0: return "dimension %d" % L["dim"]
    if L["dquot"] != deg: return "degree of the quotient %d, the program prints %d" % (L["dquot"], deg)
    if L["nv"] != nv or L["names"] != names: return "variables %s, the program prints %s" % (L["names"], names)
    want = []
    body_ = P[1]
    if L["lens"] == [] : return "no parametrization returned"
    el, den, cs = body_
    want += el[1] + den[1]
    ln = [len(el[1]), len(den[1])]
    for (c, f) in cs:
        want += c[1] + [f]; ln.append(len(c[1]) + 1)
    if L["lens"] != ln: return "lengths %s, the program prints %s" % (L["lens"], ln)
    if L["cf"] != want: return "coefficients of the parametrization %s, the program prints %s" % (L["cf"][:6], want[:6])
    if L["lf"]:
        if L["lf"] != [x[0] if isinstance(x, tuple) else x for x in lf]: return "linear form %s, the file has %s" % (L["lf"], lf)
    elif any(isinstance(x, tuple) or x not in (0, 1) for x in lf) or sum(lf) != 1: return "no linear form is returned, the file has %s" % lf
    boxes = A[2][1]
    wantr = []
    for p in boxes:
        for iv in p:
            for x in iv: wantr.append(Fraction(x[0], x[1]) if isinstance(x, tuple) else Fraction(x))
    gotr = [Fraction(L["real"][1 + 2 * i]) / (Fraction(2)**L["real"][2 + 2 * i]) for i in range((len(L["real"]) - 1) // 2)]
    if L["real"][0] != len(boxes): return "%d real solutions, the program prints %d" % (L["real"][0], len(boxes))
    if gotr != wantr: return "the real solutions are not those the program prints"
    return None

def j17(ctx, c):
    feats = list(c["feats"])
    script = ""
    for i, j in enumerate(c["jobs"]):
        script += j["script"] if j["kind"] != "sol" else j["script"].replace("%s", "sol%d.ms" % i, 1)
    rep = {"script": script, "cmd": "VP_TIME=%d libcall(%s) result < script" % (1000003 + c["seed"], c["variant"])}
    for i in range(len(c["jobs"])):
        try: os.unlink(ctx.path("sol%d.ms" % i))
        except OSError: pass
    try: os.unlink(ctx.path("result"))
    except OSError: pass
    env = {"VP_TIME": str(1000003 + c["seed"])}
    if c["variant"] == "asan": env.update(SAN_ENV)
    elif c["seed"] % 3: env["VP_FILL"] = str(1 + c["seed"] % 254)
    R = mon.execute([ctx.chk.bins[c["variant"]]["libcall"], "result"], env=env, timeout=ctx.chk.timeout * (2 if c["variant"] == "plain" else 6), cwd=ctx.dir, stdin=script,
                    mem_mb=0 if c["variant"] == "asan" else 6144)
    out = ctx.read("result") or ""
    rep["result"] = out
    if R.timeout: return Verdict("inc", "watchdog", feats=feats)
    san = sanitizer_report(R.err)
    if san: return Verdict("bad", san, key=san, feats=feats, replay=dict(rep, stderr=R.err[-20000:]))
    v = re.search(r"^VIOL (\d+) (.*)$", out, re.M)
    if v: return Verdict("bad", "call %s (%s of %s): %s" % (v.group(1), c["jobs"][int(v.group(1)) - 1]["kind"], " ".join(j["kind"] for j in c["jobs"]), v.group(2)), feats=feats, replay=rep)
    if R.rc:
        if "allocate" in R.err.lower() or R.rc == 77: return Verdict("inc", "out of memory", feats=feats)
        return Verdict("bad", "the calls %s end with %s %s" % (" ".join(j["kind"] for j in c["jobs"]), mon.describe_exit(R), (R.err + R.out)[-200:].strip()), feats=feats, replay=rep)
    if not re.search(r"^END %d " % len(c["jobs"]), out, re.M): return Verdict("bad", "not every call returned", feats=feats, replay=rep)
    L = out.split("\n")
    res, k = {}, 0
    while k < len(L):
        w = L[k].split()
        if w and w[0] == "RES":
            x = ints(L[k][4:])
            res[x[0]] = (x[1], x[2:], ints(L[k + 1][3:]), ints(L[k + 2][2:])); k += 3
        elif w and w[0] == "SOL":
            d = dict(ld=int(w[2]), dim=int(w[3]))
            i = int(w[1])
            if d["ld"] >= 0:
                d.update(nv=int(w[4]), dquot=int(w[5]), names=L[k + 1].split()[1:], lf=ints(L[k + 2][2:]), lens=ints(L[k + 3][4:]), cf=ints(L[k + 4][2:]), real=ints(L[k + 5][4:])); k += 6
            else: k += 1
            res[i] = d
        else: k += 1
    done = {}
    for i, j in enumerate(c["jobs"]):
        if i + 1 not in res: continue
        key = (j["text"], tuple(j["args"]))
        if key in done: o = done[key]
        else:
            o, v = once(ctx, j["text"], j["args"], c["seed"], feats=feats)
            if v:
                if v.kind == "inc": continue
                return v
            done[key] = o
        f = None
        try:
            if j["kind"] == "sol":
                # what the call wrote to its file is an answer of the program; what it returned is what it wrote
                f = ctx.read("sol%d.ms" % i)
                if f is None: e = "no answer in the output file"
                elif body(f)[:3] != body(o)[:3]: e = "class %r, the program finds %r" % (body(f)[:3], body(o)[:3])
                else:
                    e = same_sol(f, res[i + 1], j["S"].vars)
                    if not e and key + ("f", f) not in done:
                        done[key + ("f", f)] = 1
                        ctx.write("in.ms", j["text"])
                        k, what, kv = ctx.oracle.ask("sol prec=%d in=%s out=%s" % (max(64, j["prec"]), ctx.path("in.ms"), ctx.path("sol%d.ms" % i)), timeout=60)
                        if k == "BAD" and "square-missing,ext" not in what: e = what
                        elif k == "BAD": feats.append("parametrization not judged (known finding of C07)")
                        elif k == "INC": feats.append("reference undecided")
                        else: feats.append("answer judged by the reference")
            else: e = same_polys(o, res[i + 1], j["S"].vars, j["S"].ch, j["kind"].startswith("nf"))
        except (ValueError, SyntaxError, IndexError, KeyError) as x:
            e = "answers cannot be compared (%s)" % x
        if e: return Verdict("bad", "call %d (%s, after %s): %s" % (i + 1, j["kind"], " ".join(x["kind"] for x in c["jobs"][:i]) or "no other call", e), feats=feats,
                             replay=dict(rep, **{"in.ms": j["text"], "out.ms": o, "sol.ms": f or "", "args": " ".join(j["args"])}))
        feats.append("call compared: " + j["kind"])
    return Verdict("ok", feats=feats, nontrivial=len(res) > 1, sig=script, sample={"calls": [j["kind"] for j in c["jobs"]], "first": c["jobs"][0]["text"][:200]})

def some_probabilistic(c, v): return any(j.get("prob") for j in c["jobs"])

if __name__ == "__main__":
    chk = Check("C17", variants=("plain", "asan"), programs={"plain": ("msolve", "libcall"), "asan": ("libcall",)}, timeout=30,
                rule="sequences of library calls in one process, each result compared with the program; distinct by script")
    chk.run(cases(chk, chk.scale(700, 12000)), stable_judge(when=some_probabilistic, base=j17))
    chk.finish(min_distinct=100)
