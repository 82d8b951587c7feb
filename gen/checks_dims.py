"""The dimension policy (spec: Dims, Trace_Dims)."""
from checks_core import segs
from core_gen import CoreGen
POL = ["strict", "smart", "truncate", "pad", "warn"]
def C15(run):
    def mk(r):
        g = CoreGen(r, dim=r.choice([1, 2, 3]), autodim=r.random() < .6, adapt=r.choice(POL), sim=r.choice(["cosine", "cosine", "cosine", "dot", "euclid"]),
                    index=r.choice(["flat", "flat", "hnsw"]), ids=list("abcde")).seg()
        def v():
            n = r.choice([g.dim] * 3 + [1, 2, 3, 4, 5]); x = g.vec(n, zero=.08)
            if r.random() < .07: x[r.randrange(n)] = r.choice([999999, 999998, 999997])
            return [] if r.random() < .04 else x
        row = lambda: dict(id=g.aid(), vec=v(), txt=[], doc="", meta=[], col="", acl=[])
        for _ in range(26):
            x = r.random()
            if x < .3: g.add(op="upsert", row=row())
            elif x < .5: g.add(op="upsert_batch", rows=[row() for _ in range(r.randint(1, 4))])
            elif x < .56: g.o_delete()
            elif x < .6: g.add(op="clear")
            elif x < .66: g.add(op="set_policy", policy=r.choice(POL))
            elif x < .72:
                if r.random() < .5: g.cfg = dict(g.cfg, dim=0)
                g.o_reopen(adapt=r.choice(POL))
            elif x < .8: g.add(op="adapt", div=r.choice([1, 8]), policy=r.choice(POL), vec=g.vec(r.randint(1, 5)), d=r.randint(1, 5))
            else: g.add(op="search", q=v(), k=r.choice([1, 2, 9]), col="", filt=[], thr=0)
            g.add(op="stats")
            for i in r.sample(g.ids, 2): g.add(op="get_m", id=i)
        for i in g.ids: g.add(op="get_m", id=i)
        return g
    run.trace_check("Trace_Dims", segs(run, run.scale(160, 2000), mk))
