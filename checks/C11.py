"""C11: performance options never change the answer."""
from meta import *

def variants(r, kind, big):
    la = (1, 2, 42, 44) if kind in GB else (1, 2, 44) if kind in ("sat", "solff", "solqq") else (1, 2, 44)
    o = []
    if r.random() < .6: o += ["-l", r.choice(la)]
    if r.random() < .35: o += ["-t", r.choice([2, 3, 4, 8])]
    if r.random() < .5: o += ["-s", r.choice([2, 3, 4, 5, 8, 10, 12, 20])]
    if r.random() < .3: o += ["-u", r.choice([1, 2, 3, 5])]
    if r.random() < .5: o += ["-m", r.choice([1, 2, 3, 5, 20, 100, 1000])]
    if r.random() < .3: o += ["-v", "1"]
    if kind in ("solqq",) and r.random() < .2: o += ["-L", "1"]
    return [str(x) for x in o]

def cases(chk, n, big):
    for i in range(n):
        r = chk.rng("case", big, i)
        m = biggb(r, r.random() < .2) if big else mode(r)
        k = m["kind"]
        if k in ("solff", "solqq") and r.random() < .3: m["args"] = m["args"] + ["-d", r.choice(["0", "1", "3"])]
        runs = [dict(args=m["args"] + ["-l", "2"])]
        for _ in range(3):
            o = variants(r, k, big)
            runs.append(dict(args=m["args"] + o, feats=opt_feats(o)))
        yield dict(m, runs=runs, seed=r.randrange(10**6), timeout=120 if big else None, feats=["mode " + k, "field " + gen.prime_class(m["S"].ch), "family " + m["S"].fam])

def j11(ctx, c):
    return compare(ctx, c)

if __name__ == "__main__":
    chk = Check("C11", rule="the same question under four option vectors; cases are counted by input text")
    j = stable_judge(base=j11, when=lambda c, v: any(probabilistic(q["args"]) for q in c["runs"]))
    chk.run(cases(chk, chk.scale(60, 1500), True), j)
    chk.run(cases(chk, chk.scale(1500, 30000), False), j)
    chk.finish(min_distinct=200, assumptions=["an answer that differs under the probabilistic linear algebra counts only if it recurs for 3 of 4 further seeds"])
