"""C16: the answer depends on the input system, not on how it is written."""
from meta import *
from fractions import Fraction

NAMES = [["x", "x1", "x11", "x111", "x2", "x12", "x21", "x112", "y", "y1", "y11", "y2"],
         ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"],
         ["a_1", "a_2", "a_11", "a_12", "_b", "b_", "__", "_", "b_1_1", "b_11", "c__1", "c_1"],
         ["x[1]", "x[2]", "x[11]", "x[12]", "y[1]", "y[2]", "y[11]", "z[1]", "z[2]", "z[3]", "z[4]", "z[5]"],
         ["e", "e1", "E1", "i", "I", "pi", "in", "X", "Xx", "xX", "Y", "yY"],
         ["var_with_a_very_long_name_%d_" % i + "q" * 60 for i in range(12)],
         ["x'", "x''", "y'", "y''", "z", "z'", "t", "u", "v", "w", "s", "r"],
         ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu"]]

def rename(r, S):
    if S.nv > 12: return ["v%d" % (i + 1) for i in r.sample(range(3 * S.nv), S.nv)]
    l = list(r.choice(NAMES)); r.shuffle(l)
    return l[:S.nv]

class Speller:
    def __init__(self, r, ch, q):
        self.r, self.ch, self.q = r, ch, q
        # each kind of liberty is taken or not, so that a failure tells which one
        self.on = {k for k in ("blanks", "lines", "order", "factors", "ones", "split", "cancel", "zeros", "residues", "fractions", "plus", "power0", "tabs", "commas") if r.random() < .4}
        if not self.on: self.on = {r.choice(["blanks", "order", "factors", "ones", "split", "residues" if ch else "fractions"])}
        self.feats = set()
    def ws(self):
        r, s = self.r, ""
        if "blanks" in self.on and r.random() < .4: s += " " * r.randint(1, 3)
        if "tabs" in self.on and r.random() < .1: s += "\t"
        if "lines" in self.on and r.random() < .15: s += r.choice(["\n", "\r\n", "\n \n"])
        return s
    def mono(self, m, vs):
        r = self.r
        l = []
        for i, e in enumerate(m):
            if e: l.append(vs[i] + ("^" + self.ws() + str(e) if e > 1 or ("ones" in self.on and r.random() < .5) else ""))
            elif "power0" in self.on and r.random() < .1: l.append(vs[i] + "^0")
        if "factors" in self.on: r.shuffle(l)
        return l
    def coef(self, c):
        """-> (sign, digits)"""
        r = self.r
        if self.ch:
            if "residues" in self.on and r.random() < .5: c += self.ch * r.choice([-3, -2, -1, 1, 2, 7, (1 << 62) // self.ch])
            if c < 0: return "-", str(-c)
            return "+", str(c)
        c = Fraction(c)
        n, d = c.numerator, c.denominator
        if "fractions" in self.on and r.random() < .5:
            k = r.choice([1, 2, 3, 10, 12345678901234567890]); n *= k; d *= k
            if d == 1 and r.random() < .5: return ("-" if n < 0 else "+"), "%d/1" % abs(n)
        return ("-" if n < 0 else "+"), (str(abs(n)) if d == 1 else "%d/%d" % (abs(n), d))
    def poly(self, f, vs):
        r = self.r
        t = sorted(f.items())
        if "order" in self.on: r.shuffle(t)
        else: t.reverse()
        if "split" in self.on:
            u = []
            for m, c in t:
                if r.random() < .3:
                    a = r.randrange(1, self.ch) if self.ch else r.randint(-99, 99)
                    if self.ch: u += [(m, a), (m, (c - a) % self.ch)]
                    else: u += [(m, Fraction(a, r.choice([1, 1, 7])))]; u += [(m, c - u[-1][1])]
                else: u.append((m, c))
            t = u
            if "order" in self.on: r.shuffle(t)
        if "cancel" in self.on and r.random() < .5:
            n = len(next(iter(f)))
            m = tuple(r.randint(0, 3) if r.random() < .5 else 0 for _ in range(n))
            a = r.randrange(1, self.ch) if self.ch else r.randint(1, 10**9)
            t.insert(r.randint(0, len(t)), (m, a)); t.insert(r.randint(0, len(t)), (m, -a))
        if "zeros" in self.on and r.random() < .4:
            n = len(next(iter(f)))
            t.insert(r.randint(0, len(t)), (tuple(r.randint(0, 2) for _ in range(n)), 0))
        out = ""
        for i, (m, c) in enumerate(t):
            s, d = self.coef(c)
            l = self.mono(m, vs)
            if not (d == "1" and l and not ("ones" in self.on and r.random() < .5)): l = [d] + l
            if s == "-" or i or ("plus" in self.on and r.random() < .5): out += self.ws() + s + self.ws()
            out += (self.ws() + "*" + self.ws()).join(l) + self.ws()
        return out
    def system(self, vs, polys):
        r = self.r
        sep = r.choice([",", ", "]) if "blanks" in self.on else ","
        nl = "\r\n" if "lines" in self.on and r.random() < .2 else "\n"
        eq = "," + (nl if not ("lines" in self.on and r.random() < .3) else r.choice(["", " ", "\n\n"]))
        fs = [self.poly(f, vs) for f in polys]
        t = sep.join(vs) + nl + str(self.ch) + nl
        for i, f in enumerate(fs):
            t += f
            if i < len(fs) - 1: t += eq
            if "commas" in self.on and r.random() < .3: t += r.choice([",", ",\n", ", ,"])
        return t + r.choice([nl, nl, ""] if "lines" in self.on else [nl])

def cases(chk, n):
    for i in range(n):
        r = chk.rng("case", i)
        m = mode(r, big=.1)
        k, S = m["kind"], m["S"]
        if k == "solqq": m["args"] = ["-P", r.choice(["1", "2"])]
        la = r.choice(["2", "2", "1"])
        a = m["args"] + ["-l", la]
        seed = r.randrange(10**6)
        runs = [dict(args=a)]
        for j in range(3):
            sp = Speller(r, S.ch, not S.ch)
            polys = list(S.polys)
            last = int(m["args"][1]) if k == "nf" else 1 if k == "sat" else 0
            head, tail = polys[:len(polys) - last], polys[len(polys) - last:]
            f = []
            if k != "sat" and r.random() < .4: r.shuffle(head); f.append("generators in another order")
            if r.random() < .3:
                if S.ch:
                    if k != "sat": head = [gen.pmod(gen.pscale(p, r.randrange(1, S.ch)), S.ch) for p in head]
                else: head = [gen.pscale(p, Fraction(r.choice([1, -1, 2, 6, -35]), r.choice([1, 1, 3, 4]))) for p in head]
                f.append("generators times units")
            if k != "sat" and r.random() < .15 and head: head.insert(r.randint(0, len(head)), dict(r.choice(head))); f.append("a generator twice")
            vs = S.vars
            if r.random() < .4: vs = rename(r, S); f.append("other names")
            text = sp.system(vs, head + tail)
            runs.append(dict(args=a, why=f + sorted(sp.on), text=text, feats=f + ["spelling: " + x for x in sorted(sp.on)], norm=unname(vs, S.vars, k)))
        yield dict(m, runs=runs, seed=seed, feats=["mode " + k, "field " + gen.prime_class(S.ch), "family " + S.fam], norm0=unname(S.vars, S.vars, k))

def unname(vs, ws, k):
    d = dict(zip(vs, ws))
    rx = re.compile("|".join(re.escape(v) for v in sorted(vs, key=len, reverse=True)))
    def f(t):
        b = "".join("".join(l.split()) for l in t.split("\n") if not l.startswith("#"))
        if k not in ("solff", "solqq", "uni"):
            return rx.sub(lambda q: d[q.group(0)], b)
        # names only occur in the list of the variables
        i = b.find("['")
        j = b.find("']", i)
        if i < 0 or j < 0: return b
        while b[j + 1:j + 3] == "']" : j += 1
        l = [d.get(x, x) for x in b[i + 2:j].split("','")]
        h = b[:i] + "|" + ",".join(l) + "|" + b[j + 2:]
        # when a variable was added, its linear form (drawn at random) decides about all numbers
        m = re.search(r"\|,\[([-0-9/,]*)\]", h)
        if m and not set(m.group(1).split(",")) <= {"0", "1"}:
            return b[:4] + " with a linear form"
        return h
    return f

def j16(ctx, c):
    if "runs" not in c: return repeated(ctx, c)
    runs = [dict(c["runs"][0], norm=c["norm0"])] + c["runs"][1:]
    return compare(ctx, dict(c, runs=runs))

REPEATED = [("x,y\n65521\nx*x+y,\ny^2-x\n", "x,y\n65521\nx^2+y,\ny^2-x\n", "repeated-variable-ff"),
            ("x,y\n0\nx*y*x+1,\ny^3-x\n", "x,y\n0\nx^2*y+1,\ny^3-x\n", "repeated-variable-qq")]

def repeated(ctx, c):
    out = []
    for t in c["texts"]:
        o, v = once(ctx, t, ["-g", "2"], 1)
        if v: return v
        out.append(body(o))
    if out[0] != out[1]:
        return Verdict("bad", "a monomial with a repeated variable is misread: %s and %s" % tuple(out), key=c["key"], feats=["a variable repeated in a monomial"], replay={"in.ms": c["texts"][0]})
    return Verdict("ok", feats=["a variable repeated in a monomial"], sig=c["key"])

if __name__ == "__main__":
    chk = Check("C16", timeout=20, rule="the same system written in four ways; distinct by input")
    chk.run([dict(texts=(a, b), key=k) for a, b, k in REPEATED], j16)
    chk.run(cases(chk, chk.scale(2000, 40000)), j16)
    chk.finish(min_distinct=300, assumptions=["a coefficient is written in front of its monomial, as in the documentation"])
