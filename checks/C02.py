"""C02: -e k: elimination-order basis over prime fields, basis of the elimination ideal over Q."""
from common import *

def cases(chk, n):
    i = 0
    done = 0
    while done < n:
        i += 1
        r = chk.rng("case", i)
        q = r.random() < .3
        ch = 0 if q else gen.pick_prime(r)
        S = system(r, ch, big=.1)
        if S.nv < 2: continue
        done += 1
        k = r.choice([1, S.nv - 1, r.randint(1, S.nv - 1)])
        o = perf_opts(r, la=(1, 2) if q else (1, 2, 42, 44)) if r.random() < .6 else []
        yield dict(S=S, text=text_of(r, S), args=["-g", "2", "-e", str(k)] + o, req="gb elim=%d%s" % (k, " elimonly=1" if q else ""), seed=r.randrange(10**6),
                   feats=["field " + gen.prime_class(S.ch), "family " + S.fam, "eliminates %s" % ("one" if k == 1 else "all but one" if k == S.nv - 1 else "several")] + opt_feats(o))

def tall(chk, n):
    for i in range(n):
        r = chk.rng("tall", i)
        ch = gen.pick_prime(r)
        S = tall_system(r, ch, tops=(130, 260, 260, 300))
        if not S: continue
        k = r.randint(1, S.nv - 1)
        yield dict(S=S, text=gen.to_text(S, r), args=["-g", "2", "-e", str(k)] + (perf_opts(r) if r.random() < .3 else []), req="gb elim=%d" % k + TALL, seed=r.randrange(10**6), timeout=10, slow=True,
                   feats=["field " + gen.prime_class(ch), "family tall"])

if __name__ == "__main__":
    chk = Check("C02", rule="the reference engine needed at least one critical pair; cases are counted by input text")
    j = stable_judge(when=lambda c, v: probabilistic(c["args"]))
    chk.run(tall(chk, chk.scale(250, 4000)), j)
    chk.run(cases(chk, chk.scale(4000, 60000)), stable_judge(when=lambda c, v: probabilistic(c["args"])))
    chk.finish(min_distinct=300, assumptions=["reference engine correct", "over Q the comparison is made modulo a random 60-bit prime (three before refusing)"])
