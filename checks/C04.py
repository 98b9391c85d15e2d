"""C04: -g 1 prints exactly the minimal generators of the leading ideal."""
from common import *

def cases(chk, n):
    for i in range(n):
        r = chk.rng("case", i)
        q = r.random() < .5
        ch = 0 if q else gen.pick_prime(r)
        S = system(r, ch, big=.1)
        o = perf_opts(r, la=(1, 2)) if r.random() < .5 else []
        args = ["-g", "1"] + o
        req = "gb lead=1"
        f = []
        if S.nv > 1 and r.random() < .25 and not q:
            k = r.randint(1, S.nv - 1)
            args += ["-e", str(k)]; req += " elim=%d" % k; f = ["elimination order"]
        yield dict(S=S, text=text_of(r, S), args=args, req=req, seed=r.randrange(10**6),
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam] + f + opt_feats(o))

def tall(chk, n):
    for i in range(n):
        r = chk.rng("tall", i)
        q = r.random() < .35
        ch = 0 if q else gen.pick_prime(r)
        S = tall_system(r, ch, **(dict(nvs=(1, 2, 2), tops=(130, 260, 260, 300, 520)) if q else {}))
        if not S: continue
        o = perf_opts(r, la=(1, 2)) if r.random() < .4 else []
        args, req = ["-g", "1"] + o, "gb lead=1"
        if not q and r.random() < .25: args += ["-e", "1"]; req += " elim=1"
        yield dict(S=S, text=gen.to_text(S, r), args=args, req=req + TALL, seed=r.randrange(10**6), timeout=10, slow=True,
                   feats=["field " + gen.prime_class(ch), "family tall"])

if __name__ == "__main__":
    chk = Check("C04", rule="the reference engine needed at least one critical pair; cases are counted by input text")
    chk.run(tall(chk, chk.scale(400, 6000)), judge)
    chk.run(cases(chk, chk.scale(4000, 60000)), judge)
    chk.finish(min_distinct=300, assumptions=["reference engine correct"])
