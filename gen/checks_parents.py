"""Parents and their dependents, whichever pooled connection serves the call."""
from checks_core import segs, gen, idx
from checks_chat import ChatGen, SESS, USERS
from checks_graph import gg, GW, GB, GR, GT
def busy(g): g.add(op="busy", n=g.r.choice([0, 1, 1, 2, 3, 5, 12]))
def C10(run):
    def store(r):
        g = gen(r, **idx(r)); g.prefill(nrows=r.randint(2, 8))
        for _ in range(12):
            if r.random() < .7: busy(g)
            g.mix(dict(good=3, good_batch=1, upsert=2, upsert_batch=1, create_doc=2, create_col=1), r.randint(1, 3))
            if r.random() < .6: busy(g)
            g.mix(dict(delete_document=3, delete_col=2, delete_by_doc=.5, clear_docs=.5, delete_default=.1, delete=.3, clear=.1), r.randint(1, 2))
            if r.random() < .1: g.o_reopen()
            g.o_snap(); g.mix(dict(get_by_doc=1, list_docs=1, list_docs_info=1, stats=1, list_cols=1, fullsearch=1, col_stats=1, get_document=1), 2)
        return g
    def graph(r):
        g = gg(r); g.prefill_g(r.choice([3, 5, 7]), r.choice([5, 9]))
        for _ in range(10):
            if r.random() < .7: busy(g)
            g.mix({**GW, **GB}, r.randint(1, 3))
            if r.random() < .7: busy(g)
            g.mix(dict(drop=3, drop_many=1.5, g_batch=1, unlink=.5), r.randint(1, 2))
            g.o_g_whole(); g.mix({**GR, **GT}, 2)
            if r.random() < .1: g.o_reopen()
        return g
    def chat(r):
        g = ChatGen(r, dim=2, sim="cosine").seg()
        for _ in range(5):
            busy(g); g.mix(dict(new_session=1, say=6), 8)
            for s in SESS: g.add(op="history", sid=s, n=-1)
            g.mix(dict(chat_kw=1, user_search=1), 2)
        return g
    run.trace_check("Trace_Store", segs(run, run.scale(130, 1500), store))
    run.trace_check("Trace_Graph", segs(run, run.scale(110, 1300), graph))
    run.trace_check("Trace_Chat", segs(run, run.scale(50, 500), chat))
