"""C12: no memory error or undefined behaviour on valid inputs. AddressSanitizer and UBSan over every mode,
freed and fresh memory filled with junk, uninitialised automatic variables filled with a pattern."""
from meta import *

def opts(r, k):
    la = (1, 2, 42, 44) if k in GB else (1, 2, 44)
    o = []
    if r.random() < .6: o += ["-l", r.choice(la)]
    if r.random() < .3: o += ["-t", r.choice([2, 3, 4])]
    if r.random() < .6: o += ["-s", r.choice([2, 3, 4, 5, 8, 12])]
    if r.random() < .25: o += ["-u", r.choice([1, 2, 3])]
    if r.random() < .4: o += ["-m", r.choice([1, 2, 3, 5, 20])]
    if r.random() < .35: o += ["-v", r.choice(["1", "2"])]
    if k in ("solff", "solqq") and r.random() < .3: o += ["-d", r.choice(["0", "1", "2", "3"])]
    if k == "solqq" and r.random() < .2: o += ["-L", "1"]
    if k in ("gb", "gbq", "lead") and r.random() < .1: o += ["-r", "0"]
    return [str(x) for x in o]

def cases(chk, n, big):
    for i in range(n):
        r = chk.rng("case", big, i)
        m = biggb(r, r.random() < .3) if big else mode(r)
        k = m["kind"]
        o = opts(r, k)
        f = ["mode " + k, "field " + gen.prime_class(m["S"].ch), "family " + m["S"].fam] + opt_feats(o)
        seed = r.randrange(10**6)
        yield dict(m, args=m["args"] + o, variant=r.choice(["asan", "asan", "asan-scalar"]), what="san", seed=seed, feats=f, timeout=150 if big else None)
        if not big and r.random() < .7:
            # the same question with different junk in memory: an answer decided by a value never set changes
            a = m["args"] + [x for x in o]
            runs = [dict(args=a), dict(args=a, env={"VP_FILL": "90"}), dict(args=a, env={"VP_FILL": "255"}), dict(args=a, variant="junk", env={"VP_FILL": "1"})]
            yield dict(m, runs=runs, what="fill", seed=seed, feats=f + ["junk-filled memory"])

def pairs(chk, n):
    """long runs with one or two critical pairs at a time: the growing arrays pass through nearly every fill level"""
    for i in range(n):
        r = chk.rng("pairs", i)
        ch = gen.pick_prime(r)
        nv = r.choice([4, 5, 6])
        ng = r.choice([nv, nv + 1, nv + 3, 19, 20, 21])
        ps = [gen.rpoly(r, nv, r.choice([2, 3, 3, 4]), r.randint(2, 5), ch, size=4) for _ in range(ng)]
        ps = [p for p in (gen.pmod(p, ch) for p in ps) if p]
        if not ps: continue
        S = gen.Sys(gen.names(r, nv), ch, ps, "pairs")
        o = ["-g", "1", "-m", r.choice(["1", "1", "2"]), "-s", r.choice(["2", "5", "10"])]
        yield dict(kind="lead", S=S, text=gen.to_text(S, r), args=o, variant="asan", what="san", seed=r.randrange(10**6), timeout=20, feats=["one pair at a time", "field " + gen.prime_class(ch)])

def wide(chk, n):
    """more variables than bits in a divisor mask, in every mode; elimination of any number of them"""
    kinds = ("elim", "elim", "elimq", "gb", "gbq", "lead", "nf", "solqq", "solff")
    for i in range(n):
        r = chk.rng("wide", i)
        m = mode(r, kinds=kinds, weights=[("manyvars", 1)], big=0)
        k, S = m["kind"], m["S"]
        if S.nv < 8: continue
        a = m["args"]
        if k.startswith("elim"): a = a[:-1] + [str(r.choice([q for q in (1, 8, 16, 29, 30, 31, 32, 33, 34, 36, 38, 39, S.nv - 2, S.nv - 1) if 0 < q < S.nv]))]
        o = opts(r, k)
        yield dict(m, args=a + o, variant=r.choice(["asan", "asan", "asan-scalar"]), what="san", seed=r.randrange(10**6), timeout=None,
                   feats=["mode " + k, "field " + gen.prime_class(S.ch), "%s than 32 variables" % ("more" if S.nv > 32 else "not more")] + opt_feats(o))

def huge_text(ch, D):
    """one generator with every monomial of degree < D in three variables"""
    t = []
    for i in range(D):
        for j in range(D - i):
            for k in range(D - i - j): t.append("%d*x^%d*y^%d*z^%d" % ((i * 7 + j * 3 + k) % 97 + 1, i, j, k))
    return "x,y,z\n%d\n%s\n" % (ch, "".join(a + b for a, b in zip(t, "+-" * (len(t) // 2 + 1))).rstrip("+-"))

def huge(chk):
    """objects that must not live on the stack: judged by surviving with the default limits"""
    for ch in (251, 65521, 1073741827, 0): yield dict(what="huge", ch=ch, D=196, args=["-g", "1"], feats=["generator with a million terms", "field " + gen.prime_class(ch)])
    for n in (130, 250): yield dict(what="huge", ch=65521, vars=n, args=["-g", "1"], feats=["more than a hundred variables"])

def jhuge(ctx, c):
    if "D" in c: text, want = huge_text(c["ch"], c["D"]), "[x^%d]" % (c["D"] - 1)
    else:
        vs = ["v%d" % i for i in range(c["vars"])]
        text, want = ",".join(vs) + "\n%d\n" % c["ch"] + ",\n".join("%s-%d*%s" % (v, i + 2, vs[-1]) for i, v in enumerate(vs[:-1])) + "\n", "v0"
    o, v = once(ctx, text, c["args"], 1, "plain", {}, 120, feats=c["feats"])
    if v: return v
    if want not in o.replace("\n", ""): return Verdict("bad", "%s: answer %r" % (c["feats"][0], o[-200:]), feats=c["feats"])
    return Verdict("ok", feats=c["feats"], nontrivial=True, sig=str((c["ch"], c.get("D"), c.get("vars"))))

def j12(ctx, c):
    if c["what"] == "huge": return jhuge(ctx, c)
    if c["what"] == "fill": return compare(ctx, c)
    o, v = once(ctx, c["text"], c["args"], c["seed"], c["variant"], SAN_ENV, c["timeout"], feats=c["feats"] + ["build " + c["variant"]])
    if v: return v
    return Verdict("ok", feats=c["feats"] + ["build " + c["variant"]], nontrivial=len(o) > 6, sig=c["text"] + str(c["args"]),
                   sample={"input": c["text"][:200], "args": " ".join(c["args"]), "build": c["variant"], "answer": o[:80]})

if __name__ == "__main__":
    chk = Check("C12", variants=("asan", "asan-scalar", "plain", "junk"), oracle=True, timeout=60,
                rule="an execution that printed an answer and whose every access was checked; distinct by input and options")
    import itertools
    chk.run(itertools.chain(huge(chk), pairs(chk, chk.scale(300, 6000)), wide(chk, chk.scale(250, 4000)), cases(chk, chk.scale(40, 600), True), cases(chk, chk.scale(1900, 20000), False)), j12)
    chk.finish(min_distinct=200, assumptions=["memory inside of libgmp, libmpfr and libflint is checked at their allocations only", "memory that is still reachable or leaked at exit is not an error here"])
