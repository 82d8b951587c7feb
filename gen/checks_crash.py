"""Killed processes: what was acknowledged stays, what was in flight is whole or absent (spec: the Trace_ modules'
"maybe" and "crash" steps)."""
from checks_core import segs, gen, idx, WRITES, SIMS
from checks_chat import ChatGen, SESS, USERS
from checks_graph import gg, GR, GT, N
from checks_memory import MemGen, MIX as MEM
from checks_knowledge import KnGen, WRITES as KN, READS as KN_READS, weigh
from checks_hindsight import HsGen, BANKS, READS as HS_READS
from checks_router import RouterGen, MIX as ROUTES, TEXTS
KW = {k: v for k, v in WRITES.items()}; KW.update(good=5, good_batch=5, upsert_batch=2, clear=.1, delete_batch=2)
def killed(g, mix, n, dom="core", reopen=None):
    """the operations `mix` produces run in a process that is killed during or after one of them"""
    r = g.r; keep, g.ops = g.ops, []
    g.add(op="reopen", cfg=reopen or g.cfg); mix(n)
    if r.random() < .15: g.add(op="close")
    ops, g.ops = g.ops, keep
    at = r.choice([len(ops), r.randrange(len(ops)), r.randrange(len(ops)), r.randrange(len(ops)), 0])
    g.add(op="in_child", dom=dom, ops=ops, at=at, us=r.choice([0, 30, 80, 150, 250, 400, 700, 1500, 4000]))
def C02(run):
    def store(r):
        i = idx(r); sim = i.pop("sim", r.choice(SIMS)); g = gen(r, sim=sim, **i)
        big = r.random() < .4
        if big: g.ids = [f"r{k}" for k in range(24)]
        cfg = lambda: dict(g.cfg, index=r.choice(["flat", "hnsw", "hnsw"] + (["ivf"] if sim == "euclid" else [])))
        if r.random() < .6: g.prefill(nrows=r.randint(1, 8))
        g.add(op="close")
        for _ in range(3):
            def work(n):
                g.mix(KW, n)
                if big: g.add(op="upsert_batch", rows=[g.goodrow() for _ in range(20)]); g.add(op="delete_batch", ids=g.r.sample(g.ids, 8))
                if g.r.random() < .3: g.o_snap()
            killed(g, work, r.choice([1, 3, 8]), reopen=cfg()); g.cols.add("default")
            g.add(op="reopen", cfg=cfg()); g.o_snap(); g.o_fullsearch()
            g.mix(dict(search=2, fullsearch=1, get=1, stats=1, list_cols=1, list_docs=1, hybrid=1, col_stats=.5), 4)
            if r.random() < .5: g.mix(KW, 3); g.o_fullsearch(); g.o_snap()
            g.add(op="close")
        return g
    def chat(r):
        g = ChatGen(r, dim=2, sim="cosine").seg()
        g.mix(dict(new_session=3, say=3), 6); g.add(op="close")
        for _ in range(3):
            killed(g, lambda n: g.mix(dict(new_session=1, say=6), n), r.choice([2, 6, 12]))
            g.add(op="reopen", cfg=g.cfg)
            for s in SESS: g.add(op="history", sid=s, n=-1); g.add(op="get_session", id=s)
            g.mix(dict(chat_kw=2, user_search=1, chat_search=1, say=1), 4); g.add(op="close")
        return g
    def graph(r):
        g = gg(r); g.prefill_g(r.choice([2, 4, 6]), r.choice([2, 6])); g.add(op="close"); g.ix = False
        for _ in range(3):
            killed(g, lambda n: g.mix(dict(put=3, link=4, drop=1, unlink=1, put_many=2, link_many=2, drop_many=1, unlink_many=1, g_batch=3), n), r.choice([2, 5, 9]), "graph")
            g.add(op="reopen", cfg=g.cfg); g.o_g_whole(); g.mix({**GR, **GT, "g_hybrid": 1}, 4)
            g.mix(dict(put=1, link=1, drop=.5), 2); g.add(op="close")
        return g
    # the layers above the store: the process dies between two operations, and its files are opened as they are
    def dies(g, work, look, rounds, reopen):
        for _ in range(rounds): work(); reopen(g); look()
        return g
    def memory(r):
        g = MemGen(r, where="few", ids=[f"m{i}" for i in range(r.choice([3, 12]))])
        return dies(g, lambda: g.mix({k: v for k, v in MEM.items() if k != "reopen"}, r.choice([1, 3, 8])), lambda: ([g.add(op="mem_get", id=i) for i in g.ids], g.mix(dict(search=1), 3)), 4, lambda g: g.add(op="cx_reopen", cfg=g.cfg(), crash=True))
    def knowledge(r):
        g = KnGen(r); w = {k: v for k, v in weigh(g, KN).items() if k != "reopen"}
        return dies(g, lambda: g.mix(w, r.choice([1, 3, 6])), lambda: (g.dump(), g.mix(dict(search=2, lexical=1, plain=1, byent=1, get=1), 3)), 3, lambda g: g.add(op="cx_reopen", cfg=g.cfg(), crash=True))
    def hindsight(r):
        g = HsGen(r, dim=3); g.o_session(); g.o_setup()
        def look():
            for s in g.sids: g.add(op="hs_hist", sid=s, n=-1)
            g.add(op="hs_banks"); g.mix(dict(recall=4, getobs=1, getbank=1), 4); g.o_setup()
        return dies(g, lambda: g.mix(dict(bank=1, delbank=.5, retain=4, retains=.3, text=1, observe=1, addobs=1, session=.5, say=3, burst=.5), r.choice([2, 5, 9])), look, 3, lambda g: g.add(op="hs_reopen", crash=True))
    def routes(r):
        g = RouterGen(r, "store"); w = dict(add=5, batch=2, remove=2, fault=.5, route=1)
        return dies(g, lambda: g.mix(w, r.choice([1, 3, 6])), lambda: (g.look(), [g.add(op="r_route", q=t) for t in TEXTS]), 4, lambda g: g.add(op="r_reload", reopen=True, crash=True))
    run.trace_check("Trace_Memory", segs(run, run.scale(60, 900), memory, "m"))
    run.trace_check("Trace_Knowledge", segs(run, run.scale(40, 600), knowledge, "k"))
    run.trace_check("Trace_Hindsight", segs(run, run.scale(50, 700), hindsight, "h"))
    run.trace_check("Trace_Router", segs(run, run.scale(60, 900), routes, "r"))
    run.trace_check("Trace_Store", segs(run, run.scale(120, 2000), store))
    run.trace_check("Trace_Chat", segs(run, run.scale(40, 500), chat))
    run.trace_check("Trace_Graph", segs(run, run.scale(60, 900), graph))
