"""shared by C05-C08: systems for the solving mode"""
from common import *

def opts_qq(r, dens=1.0):
    o = perf_opts(r, la=(1, 2, 44), dens=.6 * dens)
    if r.random() < .25 * dens: o += ["-d", r.choice(["0", "1", "3"])]
    if r.random() < .2 * dens: o += ["-L", "1"]
    return o

def opts_ff(r, dens=1.0):
    o = perf_opts(r, la=(1, 2, 44), dens=.6 * dens)
    if r.random() < .2 * dens: o += ["-d", r.choice(["0", "1", "3"])]
    return o

def known_square(c, v):
    return "square-missing,ext" in v.key

def larger(r, ch):
    k = r.choice(["kat", "cyc", "eco", "noon", "quad", "shape", "ci"])
    if k == "kat": nv, ps = gen.katsura(r.choice([4, 5, 6]))
    elif k == "cyc": nv, ps = gen.cyclic(5)
    elif k == "eco": nv, ps = gen.eco(r.choice([6, 7]))
    elif k == "noon": nv, ps = gen.noon(3)
    elif k == "quad": nv = r.choice([4, 5]); ps = [gen.dense(r, nv, 2, ch, 6) for _ in range(nv)]
    elif k == "ci":
        nv = r.choice([2, 3]); d = {2: 6, 3: 4}[nv]
        ps = [gen.dense(r, nv, d if i == 0 else r.choice([2, 3, d]), ch, 5) for i in range(nv)]
    else:
        nv, ps = 2, None
        d = r.choice([16, 24, 40, 60])
        w = {(0, e): r.randint(-9, 9) for e in range(d)}
        w[(0, d)] = 1
        g = {(0, e): r.randint(-9, 9) for e in range(d)}; g[(1, 0)] = 1
        ps = [{m: c for m, c in f.items() if c} for f in (w, g)]
    ps = [p for p in (gen.pmod(p, ch) for p in ps) if p]
    return gen.Sys(gen.names(r, nv), ch, ps, "larger-" + k)
