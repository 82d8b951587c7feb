"""Semantic routing (spec: Router, Trace_Router)."""
from checks_core import segs
from core_gen import WORDS, dims
NAMES = ["buy", "refund", "chat", "it's", "a:1", "1:a", "Buy", "buy ", ""]; TEXTS = [f"t{i}" for i in range(9)]
class RouterGen:
    def __init__(self, r, kind):
        self.r, self.ops, self.kind = r, [], kind
        d, c = dims(r, [2, 3, 4]); sim = r.choice(["cosine", "cosine", "dot", "euclid"])
        odd = lambda lo, hi: r.choice([x for x in range(lo, hi) if x % 2 and x % 5])
        thr = dict(cosine=lambda: odd(-900, 999), dot=lambda: odd(-6000, 9000), euclid=lambda: odd(-5000, -1))[sim]()
        cfg = dict(kind=kind, dim=d, sim=sim, thr=thr, sthr=odd(100, 990), hthr=odd(-500, 950), alpha=r.choice([0, 300, 500, 700, 1000]), cache=r.random() < .7, index=r.choice(["", "hnsw"]))
        v = lambda: [r.randint(-c, c) for _ in range(d)]; w = lambda: [r.choice([0, 0, 1, 2, 3]) for _ in range(4)]
        self.ops.append(dict(op="seg", dom="router", cfg=cfg, lex=[dict(t=t, v=v(), w=w()) for t in TEXTS]))
    def add(self, **k): self.ops.append(k)
    def route(self):
        r = self.r; n = r.choice(NAMES[:-1] * 4 + [""])
        return dict(name=n, utts=[r.choice(TEXTS) for _ in range(r.choice([1, 1, 2, 3, 3] + ([0] if r.random() < .15 else [])))])
    def o_add(self):
        a, b = self.route(), self.route()
        if self.r.random() < .7: b["name"] = a["name"]
        self.add(op="r_add", r=a, sp=b)
    def o_batch(self):
        if self.kind == "sparse": return self.o_add()
        n = self.r.choice([0, 1, 2, 3]); self.add(op="r_add_batch", rs=[self.route() for _ in range(n)], sps=[self.route() for _ in range(self.r.choice([0, 1, 2]))])
    def o_nil(self): self.add(op="r_add_nil", batch=self.r.random() < .5)
    def o_remove(self):
        if self.kind in ("mem", "store"): self.add(op="r_remove", name=self.r.choice(NAMES))
    def q(self): return self.r.choice(TEXTS * 3 + [""])
    def o_route(self): self.add(op="r_route", q=self.q())
    def o_routes(self):
        if self.kind != "sparse": self.add(op="r_routes", qs=[self.q() for _ in range(self.r.choice([0, 1, 3]))])
    def o_fadd(self):
        r = self.r; n = r.choice(NAMES[:-1])
        if self.kind in ("mem", "store"): self.add(op="f_add", name=n, fn=r.choice([n, n, "fn", r.choice(NAMES), "do:" + n]), req=r.random() < .4, **{"def": r.random() < .5})
    def o_froute(self):
        if self.kind in ("mem", "store"): self.add(op="f_route", q=self.q())
    def o_list(self): self.add(op="r_list")
    def o_get(self):
        if self.kind in ("mem", "store"): self.add(op="r_get", name=self.r.choice(NAMES))
    def o_stats(self):
        if self.kind in ("mem", "store"): self.add(op="r_stats")
    def o_fault(self):
        r = self.r; self.add(op="r_fault", fault=r.choice(["batch", "all", r.choice(TEXTS)])); self.mix(dict(add=2, batch=1, route=3, routes=1, remove=.5), r.randint(1, 4)); self.add(op="r_fault", fault="")
    def o_reload(self):
        if self.kind == "store": self.add(op="r_reload", reopen=self.r.random() < .5); self.look()
    def o_shut(self):
        if self.kind == "store": self.add(op="r_store"); self.mix(dict(add=2, batch=1, remove=3, route=1, list=1), 4); self.r.random() < .5 and self.add(op="r_reload", reopen=False); self.look(); self.add(op="r_reload", reopen=True); self.look()
    def look(self):
        self.add(op="r_list")
        for t in self.r.sample(TEXTS, 3): self.add(op="r_route", q=t)
    def mix(self, ops, n):
        ks = list(ops)
        for _ in range(n): getattr(self, "o_" + self.r.choices(ks, [ops[k] for k in ks])[0])()
MIX = dict(add=4, batch=1, nil=.2, remove=2, route=6, routes=1, list=1, get=1, stats=.5, fault=.7, reload=1, shut=.3, fadd=2, froute=3)
def C37(run):
    def mk(r):
        g = RouterGen(r, r.choice(["mem", "mem", "store", "store", "sparse", "hybrid", "hybrid"]))
        g.mix(dict(add=1), 3); g.mix(MIX, 30); g.look(); return g
    def enc(r):
        g = RouterGen(r, "mem"); ws = WORDS[:6] + ["the", "a"]
        for _ in range(12):
            doc = lambda: [r.choice(ws) for _ in range(r.choice([1, 2, 3, 5]))] + [r.choice(WORDS[:6])]
            g.add(op="sp_weights", enc=r.choice(["bm25", "tfidf"]), fits=[[doc() for _ in range(r.choice([1, 2, 3, 5]))]], txt=[r.choice(ws + ["unseen"]) for _ in range(r.choice([0, 1, 3, 5]))], k=r.choice([0, 1, 2, 9]))
            # words of the vocabulary are no substrings of each other, so "occurs in" is membership; the description names characters that are special in patterns
            ns = r.sample(["city", "size", "mood"], 2); vals = ["red", "blue", "xl"]
            ps = [dict(n=n, t="string", d=r.choice(["", "(the", "a+b[", "*+"]), req=r.random() < .5, enum=r.sample(vals, 2) if r.random() < .4 else [], **{"def": ""}) for n in ns]
            for p in ps:
                if not p["enum"] and r.random() < .3: p["def"] = "dflt"
            txt = [r.choice(["i", "want", "city", "size", "red", "blue", "paris"]) for _ in range(r.choice([1, 3, 5]))] + r.choice([[], [p["d"] for p in ps if p["d"]][:1]])
            g.add(op="f_extract", ps=ps, txt=txt)
        return g
    run.trace_check("Trace_Router", segs(run, run.scale(400, 6000), mk) + segs(run, run.scale(40, 600), enc))
