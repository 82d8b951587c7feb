"""The property graph (spec: Graph, Trace_Graph)."""
from checks_core import segs
from core_gen import CoreGen, WORDS, dims
N = list("abcdefg"); E = [f"e{i}" for i in range(1, 13)]; NT = ["person", "place", ""]; ET = ["knows", "in", ""]
TYPED = ["json:3", "json:2.5", "json:true", 'json:["a",1]', 'json:{"x":"y"}', "json:null", "json:12345678901"]
# names that differ only in case, spacing, or characters special to SQL, JSON and XML; some longer than a page of them
ODD = (["a", "A", "a ", "it's", 'q"o', "a%", "ä<ö>&"], ["e1", "E1", "e'1", 'e"1', "e%", "e_1", "ex1", "e 1", "é", "e&lt;", "1", "01"], ["person", "Person", "it's", ""], ["knows", "KNOWS", "a%", ""])
class GraphGen(CoreGen):
    ix = False; imports = 0; typed = TYPED; W = [0, 500, 1000, 1000, 2000, 1500, 777, -1000, -500]; N, E, NT, ET = N, E, NT, ET
    def seg(self): self.ops.append(dict(op="seg", dom="graph", cfg=self.cfg, seg=0)); return self
    def props(self): return sorted([[k, self.pick(v)] for k, v in (("k", ["v", "it's", 'q"o', "<&>"] + self.typed), ("z", ["1", "", "a b"] + self.typed)) if self.r.random() < .35])
    def txt(self): t = self.txt0(); return [] if t == [""] else [""] + t if t and self.r.random() < .05 else t
    def txt0(self): return super().txt()[:6] + (self.pick([["<b>&"], [""], ["", ""], ["x\ny"], ["\tx"], ["ä"]]) if self.r.random() < .15 else [])
    def nid(self, bad=.04): return self.pick(["", "nope"]) if self.r.random() < bad else self.pick(self.N)
    def node(self, bad=.06): return dict(id="" if self.r.random() < bad / 2 else self.pick(self.N), vec=[] if self.r.random() < bad else self.vec(), txt=self.txt(), type=self.pick(self.NT), props=self.props())
    def edge(self, bad=.06):
        r = self.r
        return dict(id="" if r.random() < bad / 2 else self.pick(self.E), to=self.nid(bad), type=self.pick(self.ET), w=r.choice(self.W), props=self.props(),
                    vec=self.vec() if r.random() < .2 else [], **{"from": self.nid(bad)})
    def o_put(self): self.add(op="put", n=self.node())
    def o_link(self): self.add(op="link", e=self.edge())
    def o_drop(self): self.add(op="drop", id=self.nid())
    def o_unlink(self): self.add(op="unlink", id=self.pick(self.E))
    def some(self, f, n=4): return [f() for _ in range(self.r.randint(0, n))]
    def o_put_many(self): self.add(op="put_many", ns=self.some(self.node))
    def o_link_many(self): self.add(op="link_many", es=self.some(self.edge))
    def o_drop_many(self): self.add(op="drop_many", ids=self.some(lambda: self.nid(.2), 3))
    def o_unlink_many(self): self.add(op="unlink_many", ids=self.some(lambda: self.pick(self.E), 3))
    def o_g_batch(self):
        self.add(op="g_batch", ns=self.some(self.node), nd=self.some(self.nid, 1) if self.r.random() < .5 else [], es=self.some(self.edge), ed=self.some(lambda: self.pick(self.E), 2))
    def o_g_import(self):
        ns = {}
        for n in self.some(lambda: self.node(0), 5): ns[n["id"]] = n
        es = {}
        for e in (self.some(lambda: self.edge(0), 4) if ns else []):
            e["from"] = self.pick(sorted(ns)); e["to"] = self.pick(sorted(ns)); es[e["id"]] = e
        br = self.r.random() < .2
        self.add(op="g_import", fmt=self.pick(["json", "graphml", "gexf"]), ns=list(ns.values()), es=list(es.values()), broken=br, cut=self.r.choice([10, 40, 70, 95]), ghosts=[])
    def o_g_get(self): self.add(op="g_get", id=self.nid())
    def o_g_edges(self): self.add(op="g_edges", id=self.nid(), dir=self.pick(["in", "out", "both", "", "sideways"] if self.r.random() < .3 else ["in", "out", "both"]))
    def o_g_nodes(self): self.add(op="g_nodes", ids=self.some(self.nid))
    def o_g_edgeids(self): self.add(op="g_edgeids", ids=self.some(lambda: self.pick(self.E)))
    def types(self, ts, p=.35): return self.r.sample(ts, self.r.choice([1, 2])) if self.r.random() < p else []
    def o_g_all(self): self.add(op="g_all", types=self.types(self.NT, .7))
    def o_g_whole(self): self.add(op="g_whole")
    def o_g_export(self): self.add(op="g_export", fmt=self.pick(["json", "graphml", "gexf"]))
    def trav(self):
        r = self.r; return dict(depth=r.choice([0, 1, 1, 2, 2, 3, 5]), dir=self.pick(["in", "out", "both", "", "out", "both"]) if r.random() < .97 else "sideways", ets=self.types(self.ET), nts=self.types(self.NT), lim=r.choice([0, 0, 0, 1, 2, 3]))
    def o_neighbors(self): self.add(op="neighbors", id=self.nid(), **self.trav())
    def o_path(self): self.add(op="path", a=self.nid(.02), b=self.nid(.02))
    def o_connected(self): self.add(op="connected", a=self.nid(.02), b=self.nid(.02), depth=self.r.choice([0, 1, 2, 3]))
    def o_subgraph(self): self.add(op="subgraph", ids=self.some(self.nid, 6))
    def o_similar(self): self.add(op="similar", id=self.nid(), k=self.r.choice([0, 1, 2, 3, 4, 5, 20]), thr=self.r.choice([0, 0, 313, 701, -301]))
    def o_g_index(self): self.add(op="g_index", q=self.vec(zero=0), k=self.r.choice([0, 1, 2, 3, 4, 5, 6, 10, -1]), thr=self.r.choice([313, 701, -1001, -301, -1001]))
    def o_g_near(self): self.add(op="g_near", id=self.nid(), q=self.vec(zero=0), **self.trav())
    def o_g_hybrid(self):
        r = self.r
        self.add(op="g_hybrid", q=[] if r.random() < .15 else self.vec(zero=0), start="" if r.random() < .25 else self.nid(), depth=r.choice([0, 0, 1, 2]), ets=self.types(self.ET), nts=self.types(self.NT),
                 thr=r.choice([0, 0, 313, 701, -301]), ws=r.choice([[0, 0, 0], [500, 300, 200], [1000, 1000, 0], [600, 400, 0], [0, 1000, 0], [500, 500, 1000], [1000, 0, 0]]), k=r.choice([0, 1, 2, 3, 20]))
    def o_g_ihybrid(self):
        r = self.r
        if not self.ix: return self.o_g_hybrid()
        self.add(op="g_ihybrid", q=self.vec(zero=0), k=r.choice([1, 2, 3, 10, 10]), centers=self.some(self.nid, 2), nts=self.types(self.NT, .3), ets=[], depth=0, vthr=r.choice([-1001, -1001, 313, 701]), tthr=r.choice([-5000, 211, 433]), vw=r.choice([500, 1000]), gw=r.choice([0, 500, 1000]))
    def o_g_stats(self): self.add(op="g_stats")
    def o_pagerank(self): self.add(op="pagerank", it=self.r.choice([0, 200]), damp=self.r.choice([0, 85, 50, 20]))
    def o_communities(self): self.add(op="communities")
    def o_predict(self): self.add(op="predict", id=self.nid(), k=self.r.choice([0, 1, 2, 10]))
    def o_g_enable(self): self.add(op="g_enable", d=self.dim); self.ix = True
    def o_reopen(self, **over): super().o_reopen(**over); self.ix = False
    def o_g_faulty(self):
        k = self.r.choice(["nins", "ndel", "eins", "edel"]); self.add(op="g_fault", kind=k, id=self.pick(self.N if k[0] == "n" else self.E))
        self.mix(dict(put_many=1, link_many=1, drop_many=1, unlink_many=1, g_batch=3, put=.3, link=.3, drop=1, unlink=.5, g_import=self.imports), 2)
        self.o_g_whole(); self.add(op="faults_off")
    def prefill_g(self, n=6, m=8):
        for i in range(n): self.add(op="put", n=dict(self.node(0), id=self.N[i]))
        for i in range(m): self.add(op="link", e=dict(self.edge(0), id=self.E[i], **{"from": self.pick(self.N[:n]), "to": self.pick(self.N[:n])})) if n else None
GW = dict(put=4, link=6, drop=1, unlink=1.5)
GB = dict(put_many=2, link_many=2, drop_many=1, unlink_many=1, g_batch=1.5)
GR = dict(g_get=1, g_edges=2, g_nodes=1, g_edgeids=1, g_all=1, g_whole=1)
GT = dict(neighbors=4, path=3, connected=2, subgraph=2)
GS = dict(similar=2, g_index=2, g_near=2, g_hybrid=3, g_ihybrid=2)
GA = dict(g_stats=1, pagerank=1, communities=1, predict=2)
def gg(r, **kw):
    kw.setdefault("sim", r.choice(["cosine", "cosine", "dot", "euclid"])); d, c = dims(r, [2, 3]); g = GraphGen(r, dim=d, comp=c, **kw).seg()
    if r.random() < .2: g.N, g.E, g.NT, g.ET = ODD
    if r.random() < .4: g.o_g_enable()
    return g
def mixed(run, w, per=6, reads=6, rounds=7, n=(300, 2400), reopen=.1, enable=.06, pre=True, after=None, **attrs):
    def mk(r):
        g = gg(r); vars(g).update(attrs)
        if pre and r.random() < .85: g.prefill_g(r.choice([3, 5, 6, 7]), r.choice([2, 5, 8, 10]))
        for _ in range(rounds):
            g.mix(w[0], per)
            if r.random() < reopen: g.o_reopen()
            if r.random() < enable: g.o_g_enable()
            if after: after(g)
            g.mix(w[1], reads)
        g.o_g_whole(); return g
    run.trace_check("Trace_Graph", segs(run, run.scale(*n), mk))
MC = """SPECIFICATION Spec
CONSTANTS MNodes = {%s}
MEdges = {"e1", "e2"}
MEmit = TRUE
VIEW View
INVARIANTS NoDangling Emit Symmetric Reversed CompsPartition
PROPERTY RefusedIsNoOp
CHECK_DEADLOCK FALSE
"""
def from_graph_model(run, extra, walk=4):
    """the programs that reach every state of MC_Graph, each continued through its alphabet"""
    progs, alpha = run.model_programs("MC_Graph", MC % ('"a", "b"' if run.tier == "quick" else '"a", "b"'))
    out = []
    for i, p in enumerate(progs):
        r = run.rng(f"m{i}")
        for ops in ([[r.choice(alpha) for _ in range(walk)] for _ in range(2)] if run.tier == "quick" else [[o] for o in alpha]):
            g = GraphGen(r, dim=2, sim="cosine").seg(); opened = True
            if r.random() < .5: g.o_g_enable()
            def do(o):
                nonlocal opened
                if o["op"] == "seg": return
                if o["op"] == "close": opened = False
                if o["op"] == "reopen":
                    if opened: return
                    opened = True; o = dict(o, cfg=g.cfg); g.ix = False
                g.ops.append(dict(o))
            for o in p: do(o)
            for o in ops:
                do(o)
                if opened: g.o_g_whole(); g.mix(extra, 2)
            out.append(g.ops)
    return out
def cities(run, w, n=(12, 120), sizes=(40, 70, 130, 520)):
    """graphs larger than any page, batch or default limit of the code: long chains, hubs, dense and sparse parts (no index: at this size it may approximate)"""
    def mk(r):
        d, c = dims(r, [2, 3]); g = GraphGen(r, dim=d, comp=c, sim=r.choice(["cosine", "dot", "euclid"])).seg(); g.W = [x for x in g.W if x >= 0]; m = r.choice(sizes)
        g.N = [f"n{i}" for i in range(m)]; g.E = [f"x{i}" for i in range(2 * m)]; ns = [dict(g.node(0), id=x) for x in g.N]; pairs = []
        for i in range(m - 1):
            x = r.random()
            if x < .6: pairs.append((i, i + 1))
            elif x < .7: pairs.append((i + 1, i))
        if r.random() < .7: h = r.randrange(m); pairs += [(h, i) if r.random() < .7 else (i, h) for i in r.sample(range(m), min(m - 1, r.choice([20, 60, 120])))]
        pairs += [(r.randrange(m), r.randrange(m)) for _ in range(r.choice([0, 10, m // 3]))]
        es = [dict(g.edge(0), id=f"x{i}", **{"from": g.N[a], "to": g.N[b]}) for i, (a, b) in enumerate(pairs[:2 * m])]
        k = r.choice([m, m, 50]); 
        for i in range(0, m, k): g.add(op="put_many", ns=ns[i:i + k])
        if r.random() < .5:
            for i in range(0, len(es), k): g.add(op="link_many", es=es[i:i + k])
        else: g.add(op="g_batch", ns=[], nd=[], es=es, ed=[])
        g.o_g_whole(); wide(g, r, w)
        if r.random() < .5: g.add(op=r.choice(["drop_many"]), ids=r.sample(g.N, r.choice([m // 2, m - 3]))) if r.random() < .5 else g.add(op="unlink_many", ids=r.sample(g.E, m))
        else: g.mix(dict(drop=1, unlink=1, link=1, put=1), 6)
        if r.random() < .3: g.o_reopen()
        wide(g, r, w); g.o_g_whole(); return g
    def wide(g, r, w):
        for _ in range(7):
            g.mix(w, 1); o = g.ops[-1]
            if "depth" in o and r.random() < .6 and o["op"] != "g_hybrid": o["depth"] = r.choice([4, 7, 9, 15, 60])
            if "lim" in o and r.random() < .5: o["lim"] = r.choice([0, 10, 50, 101])
            if "k" in o and r.random() < .5: o["k"] = r.choice([11, 50, 101, 600])
            if "ids" in o and o["op"] in ("g_nodes", "subgraph", "g_edgeids"): o["ids"] = r.sample(g.E if o["op"] == "g_edgeids" else g.N, r.choice([30, len(g.N) // 2, len(g.N)]))
    run.trace_check("Trace_Graph", segs(run, n[1] if run.tier == "thorough" else n[0], mk, "city"))
def C24(run):
    run.trace_check("Trace_Graph", from_graph_model(run, {**GR, **GT}))
    mixed(run, ({**GW, **{k: v * .4 for k, v in GB.items()}, "g_faulty": .6, "g_import": .3}, {**GR, "g_export": .2, "g_stats": .3}))
    cities(run, {**GR, "g_whole": 0})
def C25(run):
    mixed(run, (GW, GT), per=4, reads=8)
    cities(run, GT)
def C26(run):
    mixed(run, ({**GB, "g_faulty": .8, "put": .5, "link": .5}, {**GR, "g_index": 1, "neighbors": .7, "similar": .5, "g_hybrid": .7, "g_stats": .4}), per=4, reads=5, enable=.12, after=lambda g: g.o_g_whole())
    cities(run, {**GR, "neighbors": 1, "g_hybrid": .3})
def C27(run):
    mixed(run, ({**GW, **GB, "g_import": .3}, GS), per=4, reads=7, enable=.2)
    cities(run, dict(similar=2, g_near=2, g_hybrid=2), sizes=(40, 70, 130))
def C28(run):
    mixed(run, ({**GW, "put_many": .5, "link_many": .5, "g_import": 3, "g_faulty": .4}, dict(g_export=1, g_whole=.3, neighbors=.2)), per=4, reads=2, rounds=6, n=(220, 1800), imports=4)
    cities(run, dict(g_export=1), n=(8, 60), sizes=(40, 130, 520))
def C29(run):
    mixed(run, (GW, GA), per=3, reads=6, W=[0, 500, 1000, 1000, 2000, 1500, 777])
    cities(run, GA, n=(8, 60), sizes=(20, 40, 70))
