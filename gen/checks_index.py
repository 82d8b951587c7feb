"""The stand-alone index structures (spec: Index, Trace_Index, MC_Index)."""
from checks_core import segs
from core_gen import dims
IDS = list("abcdefgh")
RADII = [1, 113, 303, 509, 701, 907, 1003, 1501, 2003, 3001]
class IdxGen:
    def __init__(s, r, kind=None, big=False):
        s.r = r; s.ops = []; k = s.kind = kind or r.choice(["flat", "flat", "hnsw", "hnsw", "hnsw", "ivf", "ivf", "lsh", "hybrid", "hybrid", "multi", "multi"])
        s.dim, s.comp = dims(r, [1, 2, 2, 3, 3, 4]); s.big = big
        s.ids = [f"n{i}" for i in range(r.choice([25, 33, 40, 60]))] if big else IDS
        sim = r.choice(["euclid", "cosine", "dot"]) if k in ("flat", "hnsw", "lsh") else "euclid"
        nc = r.choice([1, 2, 3, 4])
        s.cfg = dict(kind=k, dim=s.dim, sim=sim, unit=k == "flat" and sim == "cosine" and r.random() < .5, m=r.choice([1, 2, 4, 16, 16]) if not big else r.choice([16, 16, 32, 4]), efc=r.choice([4, 50, 200]),
                     nc=nc, nprobe=nc if r.random() < .7 else r.choice([1, 1, 0, 2]), tables=r.choice([1, 2, 4]), funcs=r.choice([1, 1, 2, 8]), seed=r.randint(1, 999),
                     how=r.choice(["primary_only", "merge_all", "rerank", "voting", "nonsense"]), primary=r.choice(["hnsw", "ivf"]), rerank=r.choice([0, 0, 1, 5]), parallel=r.random() < .5)
        if k == "hnsw" and r.random() < .6: s.cfg["efc"] = 200
        s.trained = False
        s.ops.append(dict(op="seg", dom="index", cfg=s.cfg, seg=0))
    def vec(s, n=None): return [s.r.randint(-s.comp, s.comp) for _ in range(s.dim if n is None else n)]
    def mvec(s): return s.vec(s.r.choice([s.dim - 1, s.dim + 1])) if s.kind != "hnsw" and s.r.random() < .05 else s.vec()
    def id(s): return s.r.choice(s.ids)
    def add(s, **o): s.ops.append(o)
    def train(s, bad=.1):
        n = s.cfg["nc"] + s.r.choice([0, 1, 4]); ok = True
        vs = [s.vec() for _ in range(n)]
        if s.r.random() < bad:
            ok = False
            if s.r.random() < .5: vs = vs[:s.cfg["nc"] - 1]
            else: vs[s.r.randrange(n)] = s.vec(s.dim + s.r.choice([-1, 1]))
        s.add(op="i_train", vecs=vs); s.trained |= ok
    def write(s):
        r = s.r; x = r.random()
        if s.kind == "multi" and not s.trained: return s.train()
        if s.kind in ("ivf", "hybrid", "multi") and x < (.5 if not s.trained else .06): return s.train()
        if s.kind == "hnsw" and x < .25: return s.add(op="i_upsert", id=s.id(), vec=s.vec())
        if s.kind in ("hnsw", "flat") and x < .37: return s.batch()
        if s.kind in ("flat", "lsh", "ivf") and x > .98: return s.add(op="i_clear")
        if x < .72: return s.add(op="i_insert", id=s.id(), vec=s.mvec())
        return s.add(op="i_delete", id=s.id())
    def batch(s, n=None, workers=0):
        n = s.r.choice([0, 1, 2, 3, 4]) if n is None else n
        if s.kind == "hnsw" and not workers and s.r.random() < .2: workers = 4
        s.add(op="i_batch", rows=[dict(id=s.id(), vec=s.mvec()) for _ in range(n)], workers=workers)
    def read(s):
        r = s.r; x = r.random(); n = len(s.ids)
        if x < .12: return s.add(op="i_size")
        if s.kind == "flat" and x < .3: return s.add(op="i_get", id=s.id())
        if s.kind == "flat" and x < .5:
            t = r.choice(RADII + dict(euclid=[1000, 2000, 3000, 5000], dot=[1000, 2000, 3000]).get(s.cfg["sim"], [])); t = -t if s.cfg["sim"] == "euclid" else 1000 - t if s.cfg["sim"] == "cosine" else r.choice([1, -1]) * t
            return s.add(op="i_range", q=s.mvec(), t=t)
        ef = r.choice([n, n, 50, 100, 3, 1, 0]) if s.kind == "hnsw" else r.choice([0, 1, 2, 9]) if s.kind == "lsh" else 0
        if s.kind == "hnsw" and r.random() < .15: ef = -1
        s.add(op="i_search", q=s.mvec(), k=r.choice([1, 2, 3, n, n, n + 5, 0, -1]), ef=ef)
    def snap(s):
        r = s.r; s.add(op="i_save")
        for _ in range(r.choice([0, 0, 2])): s.write()
        for _ in range(r.choice([1, 3])): s.add(op="i_flip", at=r.randrange(1000), mask=1 << r.randrange(8))
        for _ in range(r.choice([1, 3])): s.add(op="i_load", how="cut", at=r.choice([0, 999, r.randrange(1000), r.randrange(1000)]), fresh=r.random() < .6)
        s.read(); s.add(op="i_size")
        s.add(op="i_load", how="full", at=0, fresh=r.random() < .6); s.add(op="i_size"); s.read(); s.read()
MC = """SPECIFICATION Spec
CONSTANTS MIds = {%s}
MKind = "%s"
MEmit = TRUE
VIEW View
INVARIANTS HeldIsPlaced Emit
PROPERTY RefusedIsNoOp
CHECK_DEADLOCK FALSE
"""
def C22(run):
    out = []
    for kind in ("flat", "hnsw", "ivf", "lsh", "hybrid", "multi"):
        progs, alpha = run.model_programs("MC_Index", MC % ('"a", "b"' if run.tier == "quick" else '"a", "b", "c"', kind), label=f"MC_Index/{kind}")
        for i, p in enumerate(progs if run.tier == "quick" else progs[::max(1, len(progs) // 1500)]):
            r = run.rng(f"{kind}{i}"); g = IdxGen(r, kind); g.dim, g.comp = 2, 3; g.cfg.update(dim=2, nprobe=g.cfg["nc"], m=4, efc=50)
            if kind == "multi": g.ops.append(dict(op="i_train", vecs=[g.vec() for _ in range(5)])); g.trained = True
            for o in p + [r.choice(alpha) for _ in range(4)]:
                if o["op"] == "seg" or (o["op"] == "i_train" and kind == "multi"): continue
                o = dict(o)
                if o["op"] == "i_train": o["vecs"] = [g.vec() for _ in range(g.cfg["nc"] + 1)]; g.trained = True
                if o["op"] == "i_load" and not any(x["op"] == "i_save" for x in g.ops): continue
                if o["op"] == "i_load": o.update(at=r.randrange(1000), fresh=r.random() < .5)
                g.ops.append(o); g.read()
            out.append(g.ops)
    run.trace_check("Trace_Index", out)
    def mk(r):
        g = IdxGen(r)
        if g.kind in ("ivf", "hybrid", "multi"): g.train(.05)
        for _ in range(12):
            for _ in range(r.choice([1, 2, 4])): g.write()
            for _ in range(2): g.read()
        return g
    run.trace_check("Trace_Index", segs(run, run.scale(500, 5000), mk))
    def big(r):
        g = IdxGen(r, r.choice(["hnsw", "hnsw", "flat", "hybrid", "ivf", "lsh", "multi"]), True)
        if g.kind in ("ivf", "hybrid", "multi"): g.train(0)
        if g.kind in ("hnsw", "flat"):
            for _ in range(r.choice([1, 2])): g.batch(r.choice([20, 25, 45]), r.choice([0, 2, 2, 4]) if g.kind == "hnsw" else 0)
        else:
            for x in g.ids: g.add(op="i_insert", id=x, vec=g.vec())
        for _ in range(4):
            for _ in range(8): g.write()
            if g.kind == "hnsw" and r.random() < .4: g.batch(r.choice([20, 40]), 2)
            for _ in range(3): g.read()
        return g
    run.trace_check("Trace_Index", segs(run, run.scale(120, 1000), big))
def C23(run):
    def mk(r):
        g = IdxGen(r, r.choice(["hnsw", "ivf"]), r.random() < .15)
        if g.kind == "ivf" and r.random() < .9: g.train(0)
        for _ in range(5):
            for _ in range(r.choice([0, 2, 4, 8])): g.write()
            g.snap()
            for _ in range(3): g.write()
            g.read(); g.read()
        return g
    run.trace_check("Trace_Index", segs(run, run.scale(500, 5000), mk))
