"""Concurrent callers (spec: the Conc_* modules, one per part of the library)."""
from checks_core import segs, gen, idx, SIMS
from checks_chat import ChatGen, SESS, USERS
from checks_graph import gg, N
from checks_index import IdxGen
from checks_router import RouterGen
from checks_memory import MemGen
from checks_geo import GeoGen
from checks_knowledge import KnGen
from checks_hindsight import HsGen
def grab(g, f):
    keep, g.ops = g.ops, []; f(); ops, g.ops = g.ops, keep; return ops
def threads(r, ths, same=True):
    """One group of callers: at random moments, all in step, or (same) all in step and doing the same things."""
    x = r.random()
    if same and x < .2: ths = [ths[0]] * len(ths)
    return dict(op="conc", threads=ths, step=x < .4, seed=r.randrange(10**6))
def conc(g, mixes, n, same=True):
    g.ops.append(threads(g.r, [grab(g, lambda: g.mix(m, n)) for m in mixes], same))
SW = dict(good=5, good_batch=2, delete=3, delete_batch=1, delete_by_doc=.5, create_doc=.5, delete_document=.4, create_col=.3, delete_col=.2, upsert=1, clear=.1, update_doc=.2)
SR = dict(get=2, fullsearch=4, search=3, stats=1, get_by_doc=.7, list_docs=.7, list_cols=.4, col_stats=.5, filter_search=.7, hybrid=.8, acl_search=.7, range=.7, docs_by=.3, get_document=.4)
def group(g, r, mixes, n, keep=lambda o: True):
    g.ops.append(threads(r, [[o for o in grab(g, lambda: g.mix(m, n)) if keep(o)] for m in mixes]))
def mirror(g, r, ops): g.ops.append(dict(op="conc", threads=[ops, list(ops)], step=True, seed=r.randrange(10**6)))  # two callers, step for step the same
def index(r):
    g = IdxGen(r); g.ids = list("abcd")
    if g.kind == "hnsw" and r.random() < .6:   # the same new ids, reached by both at about the same time
        for n in range(6):
            mirror(g, r, [dict(op="i_upsert", id=f"{n}x{i}", vec=g.vec()) for i in range(8)]); g.add(op="i_size"); g.read()
        return g
    if g.kind in ("ivf", "hybrid", "multi"): g.train(0)
    for _ in range(3): g.write()
    def w():
        for _ in range(3): g.write() if r.random() < .6 else g.read()
    for _ in range(6):
        g.ops.append(threads(r, [grab(g, w) for _ in range(r.choice([2, 3]))])); g.add(op="i_size"); g.read(); g.read()
    return g
def router(r):  # a batch of questions is answered one by one: not in groups
    g = RouterGen(r, r.choice(["mem", "store", "sparse", "hybrid"])); g.mix(dict(add=1), 2)
    for _ in range(6):
        group(g, r, [dict(add=3, batch=1, remove=2, route=4, list=1, get=1, stats=1)] * r.choice([2, 3]), 3); g.look()
        if g.kind == "store" and r.random() < .4: g.o_reload()
    return g
def memory(r):
    g = MemGen(r, ids=["m1", "m2", "m3"]); g.mix(dict(save=1), 3)
    for _ in range(6): group(g, r, [{"save": 4, "update": 2, "get": 2, "search": 3, "del": 2}] * r.choice([2, 3]), 3); g.mix(dict(get=1, search=2), 4)
    return g
def geo(r):
    g = GeoGen(r, 4, 5); g.mix(dict(put=1), 3)
    for _ in range(6): group(g, r, [dict(put=4, get=1, size=1, radius=1, knn=2, box=1, poly=.5, clear=.6, **{"del": 2})] * r.choice([2, 3]), 3); g.mix(dict(get=1, size=1, knn=1), 3)
    return g
def knowledge(r):  # writers only: a record is read in several steps
    g = KnGen(r, ids=["d0", "d1"]); g.mix(dict(save=1), 2)
    for _ in range(5):
        w = r.choice([{"save": 4, "update": 3, "del": 1}] * 2 + [dict(ingest=2, **({"insert": 2} if g.emb else {}))])
        group(g, r, [w] * 2, 2, lambda o: o["op"] != "cx_dump"); g.dump(); g.mix(dict(get=1), 2)
    return g
def hindsight(r):  # recall fuses several reads: not in groups
    g = HsGen(r); g.mix(dict(bank=2, retain=2), 4)
    for _ in range(5): group(g, r, [dict(bank=1, delbank=.5, getbank=1, banks=1, retain=4, getobs=.5, addobs=.5)] * 2, 3); g.mix(dict(recall=2, banks=1, getbank=1), 3)
    return g
def C16(run):
    def store(r):
        i = idx(r); sim = i.pop("sim", r.choice(SIMS)); g = gen(r, sim=sim, **i); g.ids = list("abcde")
        g.prefill(nrows=r.randint(0, 6))
        for _ in range(6):
            n = r.choice([2, 3, 3, 4]); mixes = [r.choice([SW, SW, SR, {**SW, **SR}]) for _ in range(n)]
            conc(g, mixes, r.choice([2, 3, 3]) if n < 4 else 2)
            g.o_snap(); g.o_fullsearch()
        if r.random() < .3:
            X = {k: v for k, v in {**SW, **SR}.items() if k != "snap"}     # snap reads with SQL of its own
            ths = [grab(g, lambda: g.mix(X, 3)) for _ in range(2)]
            g.add(op="conc", threads=ths + [[dict(op="close")]], seed=r.randrange(10**6))
            g.mix(X, 3); g.add(op="reopen", cfg=g.cfg); g.o_snap(); g.o_fullsearch()
        return g
    def chat(r):
        g = ChatGen(r, dim=2, sim="cosine").seg(); g.mix(dict(new_session=3, say=4), 6)
        for _ in range(5):
            # one writer per group: the order of messages said at the same time is free
            conc(g, [dict(new_session=1, say=4)] + [dict(history=3, get_session=1, chat_search=1, chat_kw=1, user_search=1)] * r.choice([1, 2, 3]), 3, same=False)
            for s in SESS: g.add(op="history", sid=s, n=-1)
        return g
    def graph(r):
        g = gg(r); g.prefill_g(r.choice([2, 4, 6]), r.choice([2, 6]))
        W = dict(put=3, link=4, drop=1.5, unlink=1, put_many=1, link_many=1, drop_many=.7, unlink_many=.7, g_batch=1); R = dict(g_get=2, g_edges=3, g_nodes=1, g_edgeids=1, g_all=1, g_index=1 if g.ix else 0)
        for _ in range(5):
            mixes = [r.choice([W, W, R, {**W, **R}]) for _ in range(r.choice([2, 3]))]
            ths = [grab(g, lambda: g.mix(m, 3)) for m in mixes]
            if r.random() < .5: ths.append([dict(op="noise", row=dict(id=x, vec=g.vec(), txt=["beta"], doc="", meta=[], col="", acl=[])) for x in "abc"])
            g.ops.append(threads(r, ths)); g.o_g_whole()
        return g
    # the plain build interleaves more finely; the -race build turns a data race of the library into a crash event
    for flags, k in (((), 1), (("-race",), 3)):
        run.trace_check("Conc_Store", segs(run, run.scale(150, 1800) // k, store), flags=flags, optimeout=120)
        run.trace_check("Conc_Chat", segs(run, run.scale(42, 420) // k, chat), flags=flags, optimeout=120)
        run.trace_check("Conc_Graph", segs(run, run.scale(75, 900) // k, graph), flags=flags, optimeout=120)
        for name, mk, n in (("Index", index, 75), ("Router", router, 60), ("Memory", memory, 60), ("Geo", geo, 45), ("Knowledge", knowledge, 42), ("Hindsight", hindsight, 42)):
            run.trace_check("Conc_" + name, segs(run, run.scale(n, 12 * n) // k, mk, name), flags=flags, optimeout=120)
