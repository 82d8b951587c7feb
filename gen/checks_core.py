"""Checks of the embedding store (spec: VecStore, StoreOps; Trace_Store)."""
from core_gen import *
WRITES = dict(upsert=6, upsert_batch=3, delete=3, delete_batch=1.5, delete_by_doc=.7, clear=.15, clear_docs=.5, create_col=.7,
              delete_col=.4, create_doc=1, update_doc=.4, delete_document=.6)
READS = dict(get=3, get_by_doc=1, by_type=1, list_docs=1, list_docs_info=1, stats=1.5, get_col=.5, list_cols=.5, col_stats=1,
             get_document=1, docs_by=.5, snap=3)
SETUP = dict(good=4, good_batch=1.5, delete=1.5, create_doc=.3, delete_document=.15, delete_col=.1, create_col=.3, delete_by_doc=.15)
SIMS = ["cosine", "cosine", "dot", "euclid"]

def segs(run, n, make, salt=""):
    out = []
    for i in range(n):
        r = run.rng(f"{salt}{i}")
        out.append(make(r).ops)
    return out

def idx(r):
    """an index configuration that need not approximate at this size"""
    k = r.choice(["flat", "hnsw", "hnsw", "ivf"])
    return dict(index=k) if k != "ivf" else dict(index="ivf", sim="euclid")

def gen(r, **kw):
    if "ids" not in kw and r.random() < .15: kw.setdefault("odd", "names")
    if kw.get("index", "flat") != "flat" and r.random() < .1: kw.setdefault("autosave", 3)
    kw.setdefault("sim", r.choice(SIMS)); d, c = dims(r, [2, 3, 4])
    if "dim" not in kw: kw["dim"] = d; kw["comp"] = min(c, kw.get("comp", 3))
    return CoreGen(r, **kw).seg()

def MC_STORE(ids=("a", "b"), docs=("d1",), cols=("c1",)):
    q = lambda xs: "{" + ",".join('"%s"' % x for x in xs) + "}"
    return f"""SPECIFICATION Spec
VIEW View
INVARIANTS Integrity DimKnown OneHome Emit
PROPERTY RefusedIsNoOp
CHECK_DEADLOCK FALSE
CONSTANTS MIds = {q(ids)}
 MDocs = {q(docs)}
 MCols = {q(cols)}
 MEmit = TRUE
"""
def from_model(run, extra, walk=5, keep=lambda o: True, cfgs=None, per_state=None):
    """The programs of MC_Store, each continued through the alphabet, with observations after every step."""
    progs, alpha = run.model_programs("MC_Store", MC_STORE())
    alpha = [o for o in alpha if keep(o)]
    out = []
    for i, p in enumerate(progs):
        n = per_state or run.scale(1, 0)
        r = run.rng(f"m{i}")
        conts = [[r.choice(alpha) for _ in range(walk)] for _ in range(n)] if n else [[o] for o in alpha]
        for ops in conts:
            cfg = r.choice(cfgs or [dict(index="flat")])
            g = CoreGen(r, dim=2, autodim=True, ids=["a", "b"], **cfg).seg(); opened = True
            def do(o):
                nonlocal opened
                if o["op"] in ("seg",): return
                if o["op"] == "close": opened = False
                if o["op"] == "reopen":
                    if opened: return
                    opened = True; o = dict(o, cfg=g.cfg)
                g.ops.append(dict(o))
            for o in p: do(o)
            for o in ops:
                do(o)
                if opened: g.o_snap()
                g.mix(extra, 1)
            out.append(g.ops)
    return out

def bulk(g, n, words=False):
    """more rows at once than any chunk, page or batch the code works in"""
    rows = [g.goodrow(f"m{i}", txt=g.txt()[:3] if words else [], vec=g.vec(zero=0)) for i in range(n)]
    g.add(op="upsert_batch", rows=rows); return [x["id"] for x in rows]

SIZES = [105, 320, 620, 1105]
def big(run, how, n=8, sizes=SIZES, words=False, **kw):
    """histories with more rows than any chunk, page or batch size the code uses"""
    def mk(r):
        c = dict(r.choice([dict(index="flat"), dict(index="hnsw", exact=False), dict(index="ivf", sim="euclid", exact=False)])); c.update(kw)
        g = gen(r, ids=IDS, **c); g.prefill(nrows=3); ids = bulk(g, r.choice(sizes), words)
        if c["index"] == "ivf": g.add(op="train_index", n=3)
        if r.random() < .4: g.o_reopen()
        how(g, r, ids); g.add(op="stats"); g.o_snap(); g.o_fullsearch(); return g
    run.trace_check("Trace_Store", segs(run, n * (4 if run.tier == "thorough" else 1), mk, "big"))
def big_delete(g, r, ids):
    keep = r.sample(ids, r.randint(1, 5)); d = [i for i in ids if i not in keep]; r.shuffle(d)
    g.add(op="delete_batch", ids=d)

def ask(g, r, mix, n):
    """reads that want more than a page"""
    for _ in range(n):
        g.mix(mix, 1)
        if "k" in g.ops[-1] and r.random() < .7: g.ops[-1]["k"] = r.choice([50, 64, 101, 300, 2000])

def C01(run):
    def mk(r):
        odd = r.choice(["", "", "names", "content"])
        d, c = dims(r, [2, 3, 4]); g = CoreGen(r, dim=d, comp=c, autodim=r.random() < .4, index="flat" if odd == "content" else r.choice(["flat", "flat", "hnsw"]), odd=odd).seg()
        if r.random() < .7: g.prefill(nrows=r.randint(0, 6))
        if odd == "content":
            g.mix({**WRITES, **READS, "faulty_batch": .3, "faulty_upsert": .3, "faulty_delete": .3}, 45); g.o_snap(); return g
        g.mix({**WRITES, **READS, "search": .7, "faulty_batch": .3, "faulty_upsert": .3, "faulty_delete": .3, "delete_by_filter": .3}, 45)
        g.o_snap(); return g
    run.trace_check("Trace_Store", from_model(run, dict(get=1, list_docs=1, list_docs_info=1, stats=1, list_cols=1, fullsearch=1), cfgs=[dict(index="flat"), dict(index="hnsw")]))
    run.trace_check("Trace_Store", segs(run, run.scale(120, 1600), mk))
    def how(g, r, ids):
        for i in r.sample(ids, 12): g.add(op="upsert", row=g.goodrow(i)) if r.random() < .6 else g.add(op="delete", id=i)
        for i in r.sample(ids, 8): g.add(op="get", id=i)
        g.mix(dict(get_by_doc=2, by_type=2, list_docs=1, list_docs_info=2, stats=1, col_stats=1), 6)
    big(run, how, 6)

def C03(run):
    def mk(r):
        g = gen(r, **{"autodim": r.random() < .3, **idx(r)})
        if r.random() < .8: g.prefill(nrows=r.randint(0, 7))
        for _ in range(12):
            g.mix(dict(good=1, delete=.5, faulty_batch=2, faulty_upsert=1, faulty_delete=3, upsert_batch=2, delete_batch=1, faulty_mv=1, faulty_filter=1), 1)
            g.o_snap(); g.o_fullsearch()
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(140, 1600), mk))
    def how(g, r, ids):
        late = r.choice(ids[-40:]); kind = r.choice(["ins", "del"]); g.add(op="fault", kind=kind, id=late)
        if kind == "del": r.choice([lambda: g.add(op="delete_batch", ids=ids), lambda: g.add(op="clear"), lambda: g.add(op="delete_by_filter", f=dict(op="!=", f="cat", v=[dict(t="s", s="zz")], kids=[])), lambda: g.add(op="clear_docs", docs=DOCS)])()
        else: bulk(g, len(ids))
        g.o_snap(); g.o_fullsearch(); g.add(op="faults_off")
    big(run, how)

READPATHS = dict(search=2, fullsearch=1, hybrid=1, range=1, stream=1, adv_search=1, filter_search=1, facets=1, aggregate=1, acl_search=1,
                 rerank=.5, diverse=.5, negatives=.5, recommend=.5, anomalies=.3, get=.5, get_by_doc=.5, by_type=.3, dump=.3)
DELETES = dict(delete=2, delete_batch=1.5, delete_by_doc=1, delete_by_filter=1, clear=.2, clear_docs=1, delete_col=.7, delete_document=1, delete_default=.1)
def C04(run):
    def mk(r):
        g = gen(r, **idx(r)); g.prefill(nrows=8)
        for _ in range(9):
            g.mix(dict(good=3, good_batch=1), r.randint(1, 3))
            g.mix(DELETES, r.randint(1, 2))
            if r.random() < .15: g.o_reopen()
            if r.random() < .15 and g.cfg["index"] != "flat": g.add(op=r.choice(["train_index", "swap_index"]), n=2)
            g.mix(READPATHS, 4); g.o_fullsearch()
            g.add(op="create_col", name="default", d=g.dim) if r.random() < .2 else None
        g.o_snap(); return g
    def many(r):  # more entities than any default limit
        g = gen(r, **idx(r)); g.ENT = ["e%d" % i for i in range(60)]
        for _ in range(75): g.o_mv_put(0)
        for _ in range(3): g.mix(dict(mv_put=1, mv_del=1), 2); g.mix(dict(mv_get=1, mv_search=3), 3)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(150, 1500), mk) + segs(run, run.scale(6, 60), many))
    def how(g, r, ids):
        r.choice([lambda: big_delete(g, r, ids), lambda: g.add(op="delete_by_filter", f=dict(op="=", f="type", v=[dict(t="s", s="t1")], kids=[])), lambda: g.add(op="clear_docs", docs=DOCS)])()
        g.mix(dict(search=2, hybrid=1, range=1, stream=1, adv_search=1, filter_search=1, facets=1, aggregate=1, acl_search=1, dump=.5), 4)
    big(run, how)

def C05(run):
    def mk(r):
        g = gen(r, index="flat", comp=r.choice([1, 2, 3])); g.prefill(nrows=r.choice([0, 3, 8]))
        for _ in range(8):
            g.mix(SETUP, 3); g.mix(dict(search=4, range=2, brange=1, filter_search=.5), 5)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(160, 1800), mk))
    def how(g, r, ids): ask(g, r, dict(search=4, range=2, brange=.5), 8)
    big(run, how, index="flat")

def C06(run):
    ids24 = [f"n{i}" for i in range(24)]
    def mk(r):
        c = idx(r); c = c if c["index"] != "flat" else dict(index="hnsw", quant=r.choice(["scalar", "binary"]), exact=False)
        big = r.random() < .25
        if big and c["index"] == "ivf": c.update(sim="cosine", exact=False, ncent=4, nprobe=4)
        g = gen(r, **{"autodim": r.random() < .3, "ids": ids24 if big else IDS, **c}); g.prefill(nrows=r.choice([0, 4, 8, 20]))
        for _ in range(8):
            g.mix({**SETUP, "clear": .1, "clear_docs": .2, "delete_batch": .6, "delete_by_filter": .2, "upsert_batch": 1, "faulty_delete": .15}, r.randint(1, 4))
            x = r.random()
            if x < .12: g.add(op="train_index", n=r.choice([2, 3]))
            elif x < .2 and "quant" in c: g.add(op="train_quant")
            elif x < .32: g.o_reopen()
            elif x < .4 and "quant" not in c: g.o_reopen(**r.choice([dict(index="flat", exact=True), dict(index="hnsw", exact=g.cfg["exact"])]))
            elif x < .47: g.add(op="swap_index")
            g.mix(dict(search=3, fullsearch=2), 3)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(140, 1600), mk))
    def how(g, r, ids):
        for i in r.sample(ids, 5): g.add(op="upsert", row=g.goodrow(i))
        for i in r.sample(ids, 5): g.add(op="delete", id=i)
        g.mix(dict(search=3, fullsearch=1), 4); g.add(op="swap_index"); g.o_reopen(); g.add(op="swap_index"); g.mix(dict(search=3, fullsearch=1), 4)
    big(run, how)

def C07(run):
    def mk(r):
        g = gen(r, **idx(r)); g.prefill(nrows=8)
        for _ in range(10):
            g.mix(dict(good=3, create_col=2, delete_col=1.5, upsert=1, delete_default=.15, good_batch=.5), 2)
            if r.random() < .12: g.o_reopen()
            g.mix({**READPATHS, "col_stats": 2, "list_cols": 1, "get_col": 1}, 4)
        g.o_snap(); return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), mk))
    def how(g, r, ids):
        ask(g, r, dict(search=3, range=1, stream=1, adv_search=1), 3); g.mix(dict(delete_col=3, delete_default=.5), r.choice([1, 2])); g.mix(dict(list_cols=1, col_stats=2, get_col=1), 3); ask(g, r, dict(search=3, range=1, facets=1, aggregate=1, dump=.5, acl_search=1), 3)
    big(run, how)

def C08(run):
    def mk(r):
        g = gen(r, index=r.choice(["flat", "hnsw"]), richmeta=True); g.prefill(nrows=8)
        for _ in range(8):
            g.mix(dict(good=2, good_batch=.5), 2); g.mix(dict(adv_search=5, filter_search=1.5, search=.5, delete_by_filter=1, aggregate=.7, dump=.5, facets=.7), 5)
            if r.random() < .4: g.o_snap()
        g.o_snap()
        if r.random() < .2: g.ops = respell(g.ops, r)
        return g
    def wide(r):  # many more rows than are asked for
        g = gen(r, index="flat", richmeta=True, ids=[f"w{i}" for i in range(r.choice([30, 60]))]); g.prefill(nrows=3); bulk(g, len(g.ids))
        for _ in range(12): g.mix(dict(adv_search=4, filter_search=1), 1); g.ops[-1]["k"] = r.choice([1, 1, 2, 3])
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(140, 1600), mk) + segs(run, run.scale(14, 150), wide, "w"))
    def how(g, r, ids):
        ask(g, r, dict(adv_search=3, filter_search=2, search=1, dump=.5), 4); g.mix(dict(delete_by_filter=1), r.choice([1, 2])); ask(g, r, dict(adv_search=3, filter_search=2, aggregate=1, facets=1), 3)
    big(run, how, sizes=[105, 320, 620], richmeta=True)

def C09(run):
    def mk(r):
        g = gen(r, index=r.choice(["flat", "hnsw"]), richmeta=True); g.prefill(nrows=8, ndocs=3)
        for _ in range(8):
            g.mix(dict(good=3, update_doc=2, good_batch=.5, delete=.3, delete_document=.2, create_doc=.6), 2); g.mix(dict(acl_search=1), 5)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), mk))
    def how(g, r, ids): ask(g, r, dict(acl_search=1), 6); g.o_update_doc(); ask(g, r, dict(acl_search=1), 3)
    big(run, how, richmeta=True)

def C11(run):
    def mk(r):
        g = gen(r, index=r.choice(["flat", "hnsw"])); g.prefill(nrows=8)
        for _ in range(9):
            g.mix({**SETUP, "upsert": 1, "clear_docs": .2, "delete_batch": .5, "delete_by_filter": .2, "clear": .05, "faulty_batch": .2}, 3)
            if r.random() < .15: g.o_reopen()
            for _ in range(4):
                g.o_hybrid(); o = g.ops[-1]
                if r.random() < .8: o["q"] = []; o["k"] = r.choice([0, 3, 20])
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), mk))
    def how(g, r, ids):
        for _ in range(5):
            g.o_hybrid(); g.ops[-1].update(q=[], k=r.choice([0, 3, 50, 101, 2000]))
            if r.random() < .3: big_delete(g, r, r.sample(ids, 40))
    big(run, how, sizes=[105, 220, 320], words=True, index="flat")

def C12(run):
    def mk(r):
        g = gen(r, index=r.choice(["flat", "hnsw"])); g.prefill(nrows=8)
        for _ in range(9):
            g.mix(SETUP, 3); g.mix(dict(hybrid=1), 4)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), mk))
    def how(g, r, ids): ask(g, r, dict(hybrid=1), 3)
    big(run, how, sizes=[60, 105], words=True, index="flat")

def C13(run):
    def mk(r):
        g = gen(r, index=r.choice(["flat", "hnsw"]), richmeta=r.random() < .6); g.prefill(nrows=r.choice([0, 5, 8]))
        for _ in range(5):
            g.mix(SETUP, 3); g.mix(dict(dump=2, restore=2, load=3, backup=1.2), 3)
            g.o_snap(); g.o_fullsearch()
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(90, 1200), mk))
    def how(g, r, ids): r.choice([g.o_dump, g.o_restore, g.o_backup])(); r.choice([g.o_dump, g.o_restore])()
    big(run, how, index="flat")

def C14(run):
    def mk(r):
        g = gen(r, index="flat", richmeta=r.random() < .5); g.prefill(nrows=8)
        for _ in range(9):
            g.mix(SETUP, 2); g.mix(dict(aggregate=3, facets=2.5), 5)
        if r.random() < .25: g.ops = respell(g.ops, r)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(140, 1600), mk))
    def how(g, r, ids): ask(g, r, dict(aggregate=3, facets=2), 8)
    big(run, how, sizes=[105, 320, 620], index="flat")

def C17(run):
    ALL = {**WRITES, **READS, **READPATHS, "delete_by_filter": 1, "restore": .5, "load": .7, "brange": .5, "stream_topk": .5, "incremental": .3, "mv_put": 1, "mv_get": 1, "mv_del": .5, "mv_search": 1}
    for k in ("snap", "restore", "stream_merge"): ALL.pop(k, None)
    def mk(r):
        g = gen(r, **idx(r)); g.prefill(nrows=6)
        for _ in range(3):
            g.mix({**SETUP}, 4)
            g.add(op="close")
            g.mix(ALL, 14)
            if r.random() < .5: g.add(op="close"); g.mix(ALL, 3)
            g.add(op="reopen", cfg=g.cfg); g.o_snap(); g.o_fullsearch()
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), mk))

def C19(run):
    def mk(r):
        g = gen(r, **idx(r)); g.prefill(nrows=8)
        for _ in range(7):
            g.mix(SETUP, 3); g.mix(dict(stream=4, stream_topk=2, stream_merge=1, incremental=.7), 4)
            if r.random() < .3: g.o_snap()
        g.o_snap(); return g
    run.trace_check("Trace_Store", segs(run, run.scale(110, 1400), mk))
    def how(g, r, ids):
        g.mix(dict(stream=2, stream_topk=2), 3); g.add(op="incremental", **g.q4(0), rows=[g.goodrow(r.choice(ids + ["x%d" % i])) for i in range(r.choice([90, 230]))]); g.mix(dict(stream=2, stream_topk=2), 2)
    big(run, how, index="flat")

def C20(run):
    def mk(r):
        g = gen(r, **idx(r)); g.prefill(nrows=8)
        for _ in range(8):
            g.mix(SETUP, 2); g.mix(dict(rerank=3, diverse=3, negatives=2, recommend=1, anomalies=1), 4)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), mk))

def C21(run):
    def mk(r):
        g = gen(r, autodim=r.random() < .3, odd="entities" if r.random() < .35 else "", **idx(r)); g.prefill(nrows=r.choice([0, 3]))
        for _ in range(8):
            g.mix(dict(mv_put=3, mv_del=.7, good=.3, delete_by_filter=.1, faulty_mv=.3), 2); g.mix(dict(mv_get=1.5, mv_search=3, search=1.5, fullsearch=.5), 5)
            if r.random() < .1: g.o_reopen()
        g.o_snap(); return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), mk))
