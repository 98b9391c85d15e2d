"""Seeded generators of polynomial systems.  A polynomial is {exponent tuple: coefficient}
with int or Fraction coefficients; a system carries its variables, characteristic and a
label of the family it came from."""
import random
from fractions import Fraction

PRIMES8 = [2, 3, 5, 7, 11, 13, 31, 101, 127, 131, 199, 241, 251]
PRIMES16 = [257, 263, 1009, 4093, 8191, 16381, 32749, 32771, 40961, 65213, 65519, 65521]
PRIMES17 = [65537, 65539, 100003, 131071, 131101]
PRIMES18 = [131111, 200003, 262139]
PRIMES31 = [262147, 1000003, 16777213, 536870909, 1073741789, 1073741827, 1518500143, 1518500183, 1518500213,
            2000000011, 2147483423, 2147483629, 2147483647]

def prime_class(p):
    if p == 0: return "Q"
    if p < 2**8: return "8"
    if p < 2**16: return "16"
    if p < 2**17: return "17"
    if p < 2**18: return "18"
    return "31"

def pick_prime(r, kinds=("8", "16", "17", "18", "31")):
    k = r.choice(kinds)
    return r.choice({"8": PRIMES8, "16": PRIMES16, "17": PRIMES17, "18": PRIMES18, "31": PRIMES31}[k])

class Sys:
    def __init__(self, vars, ch, polys, fam, **meta):
        self.vars, self.ch, self.polys, self.fam, self.meta = list(vars), ch, polys, fam, meta
    @property
    def nv(self): return len(self.vars)

# ------------------------------------------------------------------ polynomial helpers
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(x + y for x, y in zip(m, n))
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def pscale(a, s):
    return {m: c * s for m, c in a.items() if c * s}
def ppow(a, e, n):
    r = pconst(1, n)
    for _ in range(e): r = pmul(r, a)
    return r
def pconst(c, n):
    return {(0,) * n: c} if c else {}
def pvar(i, n, e=1):
    m = [0] * n; m[i] = e
    return {tuple(m): 1}
def pmod(a, ch):
    """drop terms that vanish modulo ch (so that no printed coefficient is 0 mod ch)"""
    if not ch:
        return {m: c for m, c in a.items() if c}
    r = {}
    for m, c in a.items():
        c %= ch
        if c: r[m] = c
    return r
def psubst_lin(f, M, n):
    """f(M x): substitute x_i -> sum_j M[i][j] x_j + M[i][n]"""
    lin = []
    for i in range(n):
        l = pconst(M[i][n], n)
        for j in range(n):
            if M[i][j]: l = padd(l, pscale(pvar(j, n), M[i][j]))
        lin.append(l)
    r = {}
    for m, c in f.items():
        t = pconst(c, n)
        for i, e in enumerate(m):
            for _ in range(e): t = pmul(t, lin[i])
        r = padd(r, t)
    return r

def rcoef(r, ch, size=None):
    if ch:
        k = r.random()
        if k < .2: return 1
        if k < .3: return ch - 1
        if k < .5 and ch > 20: return r.randrange(1, 20)
        return r.randrange(1, ch)
    b = size or r.choice([3, 3, 5, 8, 16, 31, 40, 70])
    v = 0
    while not v: v = r.randrange(-(1 << b), (1 << b) + 1)
    return v

def rmono(r, n, d):
    m = [0] * n
    for _ in range(d): m[r.randrange(n)] += 1
    return tuple(m)

def rpoly(r, n, d, nt, ch, homog=False, size=None):
    f = {}
    for _ in range(nt):
        m = rmono(r, n, d if homog else r.randint(0, d))
        f[m] = rcoef(r, ch, size)
    if all(sum(m) < d for m in f):
        f[rmono(r, n, d)] = rcoef(r, ch, size)
    return f

def dense(r, n, d, ch, size=None):
    def rec(k, left):
        if k == n - 1:
            for e in range(left + 1): yield (e,)
            return
        for e in range(left + 1):
            for t in rec(k + 1, left - e): yield (e,) + t
    return {m: rcoef(r, ch, size) for m in rec(0, d)}

# ------------------------------------------------------------------ classical systems
def katsura(n):
    """n+1 variables"""
    N = n + 1
    ps = []
    def u(i):
        i = abs(i)
        return i if i <= n else None
    for m in range(n):
        f = {}
        for l in range(-n, n + 1):
            a, b = u(l), u(m - l)
            if a is None or b is None: continue
            f = padd(f, pmul(pvar(a, N), pvar(b, N)))
        f = padd(f, pvar(m, N), -1)
        ps.append(f)
    f = pconst(-1, N)
    for l in range(-n, n + 1): f = padd(f, pvar(abs(l), N))
    ps.append(f)
    return N, ps
def cyclic(n):
    ps = []
    for d in range(1, n):
        f = {}
        for i in range(n):
            m = [0] * n
            for j in range(d): m[(i + j) % n] += 1
            f = padd(f, {tuple(m): 1})
        ps.append(f)
    ps.append({(1,) * n: 1, (0,) * n: -1})
    return n, ps
def eco(n):
    ps = []
    for k in range(1, n):
        f = pvar(k - 1, n)
        for i in range(1, n - k): f = padd(f, pmul(pvar(i - 1, n), pvar(i + k - 1, n)))
        f = padd(pmul(f, pvar(n - 1, n)), pconst(k, n), -1)
        ps.append(f)
    f = pconst(1, n)
    for i in range(n - 1): f = padd(f, pvar(i, n))
    ps.append(f)
    return n, ps
def noon(n):
    ps = []
    for i in range(n):
        f = {}
        for j in range(n):
            if j != i: f = padd(f, pmul(pvar(i, n), ppow(pvar(j, n), 2, n)))
        f = pscale(f, 10)
        f = padd(f, pscale(pvar(i, n), 11), -1)
        f = padd(f, pconst(10, n))
        ps.append(f)
    return n, ps

def unimod(r, n, b=2):
    """small invertible integer matrix plus shift"""
    M = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for _ in range(2 * n):
        i, j = r.randrange(n), r.randrange(n)
        if i != j:
            c = r.choice([-1, 1, 1, 2][:b + 2])
            M[i] = [x + c * y for x, y in zip(M[i], M[j])]
    return [row + [r.randint(-2, 2)] for row in M]

# ------------------------------------------------------------------ families
NAMES = ["x", "y", "z", "t", "u", "v", "w", "a", "b", "c", "d"]
def names(r, n):
    k = r.random()
    if k < .45 and n <= len(NAMES): return NAMES[:n]
    if k < .7: return ["x%d" % (i + 1) for i in range(n)]
    if k < .85: return ["x_%d" % i for i in range(n)]
    return ["var%dq" % i for i in range(n)]

def fam_random(r, ch, big=False):
    n = r.choice([2, 2, 3, 3, 3, 4, 4, 5] + ([5, 6] if big else []))
    m = max(1, n + r.choice([-2, -1, 0, 0, 0, 0, 1, 1, 2]))
    d = r.choice([1, 2, 2, 2, 3]) if n <= 4 else r.choice([1, 2, 2])
    hom = r.random() < .15
    ps = []
    for _ in range(m):
        dd = max(1, d + r.choice([-1, 0, 0, 0]) + (1 if n <= 3 and r.random() < .2 else 0))
        ps.append(rpoly(r, n, dd, r.randint(2, 6), ch, hom, None if ch else r.choice([3, 3, 6, 12, 31])))
    return n, ps

def fam_quad(r, ch, big=False):
    n = r.choice([2, 3, 3, 4, 4] + ([5, 6] if big else []))
    return n, [dense(r, n, 2, ch, None if ch else r.choice([3, 6, 10])) for _ in range(n + r.choice([0, 0, 0, 1]))]

def fam_classic(r, ch, big=False):
    k = r.choice(["kat", "cyc", "eco", "noon"])
    if k == "kat": return katsura(r.choice([2, 3, 4, 5] + ([6] if big else [])))
    if k == "cyc": return cyclic(r.choice([3, 4, 4, 5] + ([6] if big else [])))
    if k == "eco": return eco(r.choice([3, 4, 5, 6] + ([7] if big else [])))
    return noon(r.choice([2, 3] + ([4] if big else [])))

def fam_shape(r, ch, big=False, rad=True):
    """w(x_n), x_i - g_i(x_n), then a linear change of variables"""
    n = r.choice([1, 2, 2, 3, 3, 4])
    d = r.choice([1, 2, 3, 4, 5, 6, 8])
    x = n - 1
    w = pconst(1, n)
    if rad:
        for _ in range(d):
            w = pmul(w, padd(pscale(pvar(x, n), r.choice([1, 1, 1, 2, 3])), pconst(r.randint(-9, 9), n)))
        w = padd(w, pconst(r.choice([0, 0, 1, -1, 5]), n))
    else:
        while sum(max(m) for m in w if True) < 1 or max(max(m) for m in w) < d:
            w = pmul(w, ppow(padd(pvar(x, n), pconst(r.randint(-3, 3), n)), r.randint(1, 3), n))
    ps = [w]
    for i in range(n - 1):
        g = {}
        for e in range(r.randint(0, max(0, d - 1)) + 1):
            c = r.randint(-4, 4)
            if c: g = padd(g, pscale(pvar(x, n, e), c)) if e else padd(g, pconst(c, n))
        ps.append(padd(pvar(i, n), g, -1))
    if n > 1 and d <= 5 and r.random() < .6:
        M = unimod(r, n, 1)
        ps = [psubst_lin(f, M, n) for f in ps]
    # mix generators
    if len(ps) > 1 and r.random() < .5:
        i, j = r.sample(range(len(ps)), 2)
        ps[i] = padd(ps[i], pscale(ps[j], r.choice([1, -1, 2])))
    return n, ps

def fam_nonrad(r, ch, big=False):
    return fam_multi(r, ch) if r.random() < .2 else fam_shape(r, ch, big, rad=False)

def fam_multi(r, ch):
    """many different multiplicities: in one variable, or x_n of a system in triangular form"""
    n = r.choice([1, 1, 2, 2, 3])
    k = r.choice([3, 4, 4, 5])
    x = n - 1
    w = pconst(1, n)
    ms = r.sample(range(1, 6), k) if r.random() < .6 else [r.randint(1, 5) for _ in range(k)]
    for a, m in zip(r.sample(range(-5, 6), k), ms):
        f = padd(pvar(x, n), pconst(-a, n))
        if r.random() < .15: f = padd(pvar(x, n, 2), pconst(r.choice([-2, -3, 1, 2]), n))
        w = pmul(w, ppow(f, m, n))
    ps = [w]
    for i in range(n - 1):
        g = pvar(i, n, r.choice([1, 1, 1, 2]))
        for e in range(r.randint(0, 3)):
            c = r.randint(-4, 4)
            if c: g = padd(g, pscale(pvar(x, n, e), c) if e else pconst(c, n), -1)
        ps.append(g)
    if n > 1 and r.random() < .4:
        M = unimod(r, n, 1)
        if max(sum(m) for m in w) < 9: ps = [psubst_lin(f, M, n) for f in ps]
    return n, ps

def fam_grid(r, ch, big=False):
    """products of linear factors in each variable: radical, never in shape position for free"""
    n = r.choice([2, 2, 3])
    ps = []
    for i in range(n):
        f = pconst(1, n)
        roots = r.sample(range(-6, 7), r.choice([1, 2, 2, 3]))
        for a in roots: f = pmul(f, padd(pvar(i, n), pconst(-a, n)))
        ps.append(f)
    if r.random() < .4:   # kill some of the grid
        ps.append(pmul(padd(pvar(0, n), pconst(r.randint(-6, 6), n)), padd(pvar(n - 1, n), pconst(r.randint(-6, 6), n))))
    return n, ps

def fam_ci(r, ch, big=False):
    n = r.choice([2, 3, 3, 4])
    ps = []
    for i in range(n):
        d = r.choice([2, 2, 3]) if n < 4 else 2
        f = pvar(i, n, d)
        for _ in range(r.randint(1, 4)):
            f = padd(f, {rmono(r, n, r.randint(0, d - 1)): rcoef(r, ch, None if ch else 5)})
        ps.append(f)
    return n, ps

def fam_posdim(r, ch, big=False):
    k = r.choice(["prod", "binom", "under", "minors", "mono"])
    n = r.choice([2, 3, 3, 4])
    if k == "prod":
        l = [rpoly(r, n, 1, 3, ch, size=4) for _ in range(3)]
        return n, [pmul(l[0], l[1]), pmul(l[0], l[2])]
    if k == "binom":
        n = r.choice([3, 4, 5])
        ps = []
        for _ in range(r.randint(1, 4)):
            d = r.choice([1, 2, 2, 3])
            ps.append(padd({rmono(r, n, d): 1}, {rmono(r, n, d): 1}, -1))
        ps = [p for p in ps if p] or [pvar(0, n)]
        return n, ps
    if k == "under":
        return n, [rpoly(r, n, r.choice([1, 2, 3]), r.randint(2, 5), ch, size=6) for _ in range(max(1, n - 2))]
    if k == "minors":
        n = 6
        ps = []
        for a, b in ((0, 1), (0, 2), (1, 2)):
            ps.append(padd(pmul(pvar(a, n), pvar(3 + b, n)), pmul(pvar(b, n), pvar(3 + a, n)), -1))
        if r.random() < .5: ps.append(rpoly(r, n, 1, 4, ch, size=3))
        return n, ps
    return n, [{rmono(r, n, r.randint(1, 4)): 1} for _ in range(r.randint(1, 5))]

def fam_unit(r, ch, big=False):
    n, ps = r.choice([fam_random, fam_shape, fam_posdim])(r, ch)
    k = r.random()
    if k < .5: ps.append(padd(r.choice(ps), pconst(r.choice([1, -1, 2]) if ch != 2 else 1, n)))
    elif k < .6: ps.append(pconst(1, n))
    else:
        q = rpoly(r, n, 1, 2, ch, size=3)
        ps.append(padd(pmul(q, r.choice(ps)), pconst(1, n)))
    return n, ps

def fam_dup(r, ch, big=False):
    n, ps = r.choice([fam_random, fam_shape, fam_ci])(r, ch)
    ps = list(ps)
    for _ in range(r.randint(1, 3)):
        f = r.choice(ps)
        k = r.random()
        if k < .3: ps.append(dict(f))
        elif k < .5: ps.append(pscale(f, rcoef(r, ch, 6)))
        elif k < .8: ps.append(pmul(f, rpoly(r, n, 1, 2, ch, size=3)))
        else:
            g = r.choice(ps)
            ps.append(padd(f, g))
    r.shuffle(ps)
    return n, ps

def fam_manyvars(r, ch, big=False):
    n = r.choice([8, 12, 20, 31, 32, 33, 34, 40])
    ps = []
    k = r.randint(1, 3)           # effective variables: the last k; others linear in them
    for i in range(n - k):
        f = pvar(i, n)
        for _ in range(r.randint(1, 3)):
            f = padd(f, {rmono(r, n, 0) if r.random() < .3 else tuple(1 if q == r.randrange(max(i + 1, n - k), n) else 0 for q in range(n)): rcoef(r, ch, 4)})
        ps.append(f)
    for i in range(k):
        f = pvar(n - 1 - i, n, 2)
        for _ in range(2):
            m = [0] * n; m[n - 1 - r.randrange(k)] += r.randint(0, 1)
            f = padd(f, {tuple(m): rcoef(r, ch, 4)})
        ps.append(f)
    if r.random() < .3: ps = ps[1:]
    if r.random() < .3: ps.append({tuple(1 if q in (0, n - 1) else 0 for q in range(n)): 1, (0,) * n: rcoef(r, ch, 3)})
    r.shuffle(ps)
    return n, ps

def fam_highdeg(r, ch, big=False):
    n = r.choice([1, 2, 2, 3])
    ps = []
    for i in range(n):
        d = r.choice([7, 15, 16, 17, 31, 33, 40]) if n < 3 else r.choice([5, 9, 17])
        f = padd(pvar(i, n, d), {rmono(r, n, r.randint(0, 3)): rcoef(r, ch, 4)})
        ps.append(f)
        if n == 2 and i == 0: pass
    if n >= 2:    # keep the quotient small
        m = [0] * n; m[0] = r.randint(1, 6); m[1] = r.randint(1, 3)
        ps.append(padd({tuple(m): 1}, {rmono(r, n, r.randint(0, 2)): rcoef(r, ch, 3)}))
        ps.append(padd(pvar(n - 1, n, r.randint(2, 5)), {rmono(r, n, 1): rcoef(r, ch, 3)}))
    return n, ps

def fam_fieldeq(r, ch, big=False):
    p = ch if ch and ch <= 7 else 2
    n = r.choice([2, 3, 4, 5])
    ps = [padd(pvar(i, n, p), pvar(i, n), -1) for i in range(n)]
    for _ in range(r.randint(1, 3)): ps.append(rpoly(r, n, 2, r.randint(2, 5), ch, size=3))
    return n, ps

def fam_small(r, ch, big=False):
    n = r.choice([1, 1, 2, 3])
    k = r.random()
    if k < .2: return n, [pvar(r.randrange(n), n)]
    if k < .35: return n, [pconst(rcoef(r, ch, 5), n)]
    if k < .5: return n, [rpoly(r, n, r.randint(1, 6), r.randint(1, 4), ch, size=8)]
    if k < .7: return n, [padd(pvar(i, n), pconst(r.randint(-5, 5), n)) for i in range(n)]
    if k < .85: return n, [pvar(i, n, r.randint(1, 3)) for i in range(n)]
    return n, [rpoly(r, n, 1, 3, ch, size=40) for _ in range(n)]

FAMS = dict(random=fam_random, quad=fam_quad, classic=fam_classic, shape=fam_shape, nonrad=fam_nonrad, grid=fam_grid,
            ci=fam_ci, posdim=fam_posdim, unit=fam_unit, dup=fam_dup, manyvars=fam_manyvars, highdeg=fam_highdeg,
            fieldeq=fam_fieldeq, small=fam_small)

def make(r, fam, ch, big=False, variables=None):
    for _ in range(50):
        n, ps = FAMS[fam](r, ch, big)
        ps = [pmod(p, ch) for p in ps]
        ps = [p for p in ps if p]
        if ps: break
    else:
        n, ps = 2, [{(1, 0): 1}, {(0, 1): 1}]
    return Sys(variables or names(r, n), ch, ps, fam)

# ------------------------------------------------------------------ printing
def term(m, c, vars, r=None, first=False, style=0):
    c = Fraction(c) if not isinstance(c, int) else c
    neg = c < 0
    a = -c if neg else c
    mon = "*".join(v + ("^%d" % e if e > 1 or (style & 1) else "") for v, e in zip(vars, m) if e)
    if isinstance(a, Fraction) and a.denominator != 1: cs = "%d/%d" % (a.numerator, a.denominator)
    else: cs = "%d" % int(a)
    if not mon: body = cs
    elif a == 1 and not (style & 2): body = mon
    else: body = cs + "*" + mon
    return ("-" if neg else ("" if first else "+")) + body

def poly_str(p, vars, r=None, style=0, order=None):
    ms = list(p)
    if order == "sorted": ms.sort(key=lambda m: (sum(m), m), reverse=True)
    elif r is not None: r.shuffle(ms)
    return "".join(term(m, p[m], vars, r, i == 0, style) for i, m in enumerate(ms)) or "0"

def to_text(S, r=None, style=0):
    return ",".join(S.vars) + "\n" + str(S.ch) + "\n" + ",\n".join(poly_str(p, S.vars, r, style, None if r else "sorted") for p in S.polys) + "\n"
