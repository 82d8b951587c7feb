"""Knowledge, graph-augmented retrieval and the tools over them (spec: Words, Knowledge, Trace_Knowledge; memories over tools: Trace_Memory)."""
from checks_core import segs
from checks_memory import MemGen, MIX as MEM_MIX
WORDS = ["alpha", "alphabet", "alp", "beta", "bet", "gamma", "delta", "rays", "x-ray", "it's", "the", "c++", "tag:beta", "Alpha", "Gamma", "Rays", "Delta", "Alpha", "Gamma", "Delta"]
CAPS = ["Alpha", "Gamma", "Rays", "Delta"]
LOW = ["alpha", "beta", "gamma", "delta", "rays", "the", "bet"]
BIG = "日本語" * 5
class KnGen:
    def __init__(self, r, via=("direct",), emb=None, ids=None, colls=None, size=None):
        self.r, self.ops, self.via = r, [], via
        self.ids = ids or [f"d{i}" for i in range(r.choice([2, 3, 5]))] + r.choice([[], ["d0:000", "a b"], ["d_", "D0"], ["d%", "it's"]])
        self.colls = colls or r.choice([[""], ["", "c2"], ["", "graphrag_chunks", "c2", "c3"]])
        self.size = size or r.choice([2, 3, 6])
        self.emb = r.random() < .5 if emb is None else emb
        self.ops.append(dict(op="seg", dom="cx", cfg=self.cfg()))
    def cfg(self): return dict(emb=self.emb, index=self.r.choice(["hnsw", "flat", "flat"]))
    def add(self, **k):
        if k["op"][:3] in ("kn_", "gr_") and k["op"] not in ("gr_insert", "gr_search"): k["via"] = "direct" if "within" in k and self.r.random() < .5 else self.r.choice([v for v in self.via if "within" not in k or v != "mcp"] or ["direct"])
        self.ops.append(k)
    def pick(self, *a): return self.r.choice(a)
    def id(self): return self.r.choice(self.ids) if self.r.random() < .97 else self.pick("", "nope")
    def coll(self): return self.r.choice(self.colls)
    def words(self, lo, hi, of=WORDS): return [self.r.choice(of) for _ in range(self.r.randint(lo, hi))]
    def body(self):
        r = self.r
        if r.random() < .02: return self.pick([], [[], []])
        if r.random() < .05: return [self.words(0, 2) + [BIG] * r.randint(4, 6)]
        return [self.words(0 if r.random() < .1 else 1, r.choice([2, 4, 4, 9]), r.choice([WORDS, WORDS, LOW, CAPS + LOW])) for _ in range(r.choice([1, 1, 2, 3, 4]))] + [["beta"]]
    def meta(self): return [[k, self.pick("x", "y", "d1")] for k in self.r.sample(["k", "tone", "document_id", "lang"], self.pick(0, 1, 1, 2))]
    def chunk(self): return f"chunk:{self.r.choice(self.ids)}:{self.r.randint(0, 3):03d}"
    def chunks(self, n): return list(dict.fromkeys(self.chunk() for _ in range(n)))
    def node(self): return self.pick(self.chunk(), "doc:" + self.r.choice(self.ids), "entity:" + self.pick("alpha", "gamma", "zed", "delta", "alpha_gamma"), self.pick("entity:a:b", "nope"))
    def name(self): return self.pick(["Alpha"], ["Gamma"], ["Delta"], ["Rays"], ["Alpha", "Gamma"], ["x-ray"], ["c++"], ["entity:zed"], ["Zed"], ["beta"])
    def ents(self):
        out = []
        for _ in range(self.pick(0, 0, 1, 1, 2, 3)):
            e = dict(id=self.pick("", "", "", "zed", "entity:zed", "entity:a:b", "gamma"), name=self.name(), type=self.pick("", "", "entity", "person"), chunks=self.chunks(self.pick(0, 1, 2)), meta=[["k", "x"]] if self.r.random() < .2 else [])
            if self.r.random() < .04: e["name"] = []
            out.append(e)
        return out
    def rels(self):
        return [dict({"from": self.name(), "to": self.name()}, type=self.pick("", "knows", "knows", "near"), w=self.pick(0, 1000, 500), meta=[["document_id", "d0"]] if self.r.random() < .15 else []) for _ in range(self.pick(0, 0, 1, 2))]
    def cutoff(self): return {"within": self.pick(-1, 100, 300, 600, 1000, 1500, 2000, 3000, 5000, 8000)} if self.cuts and self.r.random() < .3 else {}
    cuts = False
    def how(self): return dict(title=self.pick("", "T1", "T2", "Alpha", " "), body=self.body(), coll=self.coll(), size=self.pick(0, self.size, self.size, 2, 120), overlap=self.pick(0, 0, 1, 1, 2, -1, 5))
    def dump(self): self.add(op="cx_dump")
    def o_save(self): self.add(op="kn_save", id=self.id(), **self.how(), url=self.pick("", "u1"), author=self.pick("", "me"), meta=self.meta(), ents=self.ents(), rels=self.rels(), **self.cutoff()); self.dump()
    def o_update(self):
        k, h = {}, self.how()
        for f, p in dict(title=.3, body=.4, coll=.15, size=.3, overlap=.2).items():
            if self.r.random() < p: k[f] = h[f]
        if self.r.random() < .3: k["url"] = self.pick("", "u2")
        if self.r.random() < .3: k["author"] = self.pick("", "you")
        if self.r.random() < .3: k["meta"] = self.meta() if self.via == ("direct",) else self.meta() or [["k", "z"]]
        self.add(op="kn_update", id=self.id(), ents=self.ents(), rels=self.rels(), **k, **self.cutoff()); self.dump()
    def o_get(self): self.add(op="kn_get", id=self.id())
    def o_del(self): self.add(op="kn_del", id=self.id(), **self.cutoff()); self.dump()
    def o_ingest(self): self.add(op="gr_ingest", id=self.id(), **self.how(), meta=self.meta(), **self.cutoff()); self.dump()
    def o_insert(self):
        h = self.how(); x = self.pick("", "links", "links")
        if x == "links" and self.r.random() < .15: h["body"][-1:] = [["boom"]]
        self.add(op="gr_insert", id=self.id(), **h, meta=self.meta(), ext=x, **self.cutoff()); self.dump()
    def o_ents(self): self.add(op="gr_ents", doc=self.pick("", self.id()), ents=self.ents()); self.dump()
    def o_rels(self):  # a relation of no document says nothing about documents
        d, rs = self.pick("", self.id()), self.rels()
        self.add(op="gr_rels", doc=d, rels=rs if d else [dict(x, meta=[]) for x in rs]); self.dump()
    def query(self):
        q = self.words(0 if self.r.random() < .02 else 1, self.pick(1, 1, 3), self.pick(WORDS, LOW, CAPS))
        return q + (["NOT"] if self.r.random() < .04 else [])
    def lims(self): return dict(k=self.pick(0, 1, 2, 3, 20), h=self.pick(0, 0, 1, 2, 3), mr=self.pick(0, 0, 1, 2, 20), mc=self.pick(0, 0, 1, 2, 5, 40), mx=self.pick(0, 0, 1, 60, 120, 5000), pd=self.pick(0, 1, 2, 10, 10))
    def how_to(self): return dict(mode=self.pick("", "auto", "graph", "graph", "lexical", " Lexical", "odd"), off=self.r.random() < .15)
    def hints(self): return dict(kw=self.words(0, 1) if self.r.random() < .2 else [], alt=[self.words(1, 2) for _ in range(self.pick(0, 0, 0, 1))])
    def asked(self): return dict(names=[self.name() for _ in range(self.pick(0, 0, 1, 2))])
    def o_search(self): self.add(op="kn_search", q=self.query(), coll=self.coll(), **self.lims(), **self.how_to(), **self.hints(), **self.asked())
    def o_rag(self): self.add(op="gr_search", q=self.query(), coll=self.coll(), **self.lims(), **self.how_to(), lam=self.pick(0, 500, 1000))
    def o_lexical(self): self.add(op="gr_lexical", q=self.query(), coll=self.coll(), **self.lims(), **self.how_to(), **self.hints(), **self.asked(), lam=self.pick(0, 500, 1000))
    def o_text(self): self.add(op="gr_text", q=self.query(), coll=self.coll(), k=self.pick(0, 1, 2, 20, -1), **self.how_to(), **self.hints())
    def o_plain(self): self.add(op="cx_words", q=self.query(), coll=self.coll(), k=self.pick(0, 1, 2, 20))
    def o_byent(self): self.add(op="gr_byent", names=[self.name() for _ in range(self.pick(0, 1, 1, 2, 3))], k=self.pick(0, 1, 2, 20), h=self.pick(0, 1, 2, 3))
    def o_expand(self): self.add(op="gr_expand", ids=[self.node() for _ in range(self.pick(0, 1, 1, 2))], h=self.pick(0, 1, 2, 3), ets=self.r.choice([[], [], ["mentions"], ["next", "has_chunk"], ["knows", "near"]]), nts=self.r.choice([[], [], ["chunk"], ["entity", "person"], ["document"]]), lim=self.pick(0, 0, 0, 1, 3))
    def o_nodes(self): self.add(op="gr_nodes", ids=list(dict.fromkeys(self.node() for _ in range(self.pick(0, 1, 3)))))
    def o_chunks(self): self.add(op="gr_chunks", ids=self.chunks(self.pick(0, 1, 3)) + self.pick([], ["nope"]), **self.how_to())
    def o_context(self): l = self.lims(); self.add(op="gr_context", ids=self.chunks(self.pick(0, 2, 6)), mc=l["mc"], mx=l["mx"], pd=l["pd"], **self.how_to())
    def o_reopen(self): self.add(op="cx_reopen", cfg=self.cfg()); self.dump()
    def o_fail(self): self.add(op="cx_embfail", on=True); self.mix(dict(save=2, update=2, insert=1, search=1, rag=1), self.r.randint(1, 3)); self.add(op="cx_embfail", on=False)
    def o_tools(self): self.add(op="cx_tools")
    def o_bad(self):
        tools = ["knowledge_save", "knowledge_update", "knowledge_get", "knowledge_search", "knowledge_delete", "memory_save", "memory_update", "memory_get", "memory_search", "memory_delete", "ingest_document", "search_text", "search_graphrag_lexical"]
        more = ["upsert_entities", "upsert_relations", "expand_graph", "get_nodes", "get_chunks", "build_context", "search_chunks_by_entities"]
        v = self.r.choice([x for x in self.via if x != "direct"] or ["tool"])
        t, p = self.pick((self.r.choice(tools), "{}"), (self.r.choice(tools), '{"knowledge_id": 5, "memory_id": 5, "query": 5, "document_id": 5}'), (self.r.choice(tools + more), '[]'), (self.r.choice(tools + more), '"x"'), ("no_such_tool", "{}"), ("", "{}"), (self.r.choice(tools + more), '5'),
                         ("knowledge_save", '{"knowledge_id": "d0", "content": ["x"]}'), ("knowledge_save", '{"knowledge_id": "d0"}'), ("knowledge_save", '{"knowledge_id": "d0", "content": " "}'), ("knowledge_save", '{"knowledge_id": "d0", "content": "x", "chunk_size": "big"}'),
                         ("upsert_entities", '{"entities": "x"}'), ("get_nodes", '{"node_ids": {}}'), ("Knowledge_save", '{"knowledge_id": "d0", "content": "x"}'))
        if v == "tool" and self.r.random() < .2: p = self.pick('{"knowledge_id": "d0", "content": "x"', '{', 'x', '{"query": "alpha"} x')
        self.add(op="cx_tool", tool=t, payload=p, via=v); self.dump()
    mix = MemGen.mix
WRITES = dict(save=5, update=4, get=1, ingest=1, ents=1, rels=1, reopen=.3, **{"del": 1.5})
READS = dict(search=3, lexical=3, text=2, plain=1, byent=2, expand=2, nodes=.5, chunks=.5, context=1.5)
def weigh(g, w): return dict(w, insert=1.5, fail=.4, rag=3) if g.emb else w
def C32(run):
    def plain(r): g = KnGen(r); g.mix(weigh(g, dict(WRITES, search=.5)), 22); return g
    def cut(r): g = KnGen(r); g.cuts = True; g.mix(weigh(g, WRITES), 22); return g
    run.trace_check("Trace_Knowledge", segs(run, run.scale(90, 1500), plain) + segs(run, run.scale(60, 1000), cut, "c"))
def C33(run):
    def make(r):
        g = KnGen(r); g.mix(weigh(g, dict(save=6, ingest=1, ents=1, rels=1)), r.randint(3, 8)); g.ops = [o for o in g.ops if o["op"] != "cx_dump"]
        w = weigh(g, dict(READS, save=.5, update=.5, **{"del": .3})); w.pop("insert", 0); g.mix(w, 30); return g
    run.trace_check("Trace_Knowledge", segs(run, run.scale(150, 2500), make))
def C34(run):
    via = ("direct", "tool", "mcp", "tool", "mcp")
    def make(r): g = KnGen(r, via=via); g.mix(dict(WRITES, **READS, bad=3, tools=.3), 30); return g
    def mem(r): g = MemGen(r, via=via); g.mix(MEM_MIX, 30); return g
    run.trace_check("Trace_Knowledge", segs(run, run.scale(80, 1500), make))
    run.trace_check("Trace_Memory", segs(run, run.scale(60, 800), mem, "m"))
