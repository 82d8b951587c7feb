"""Memories (spec: Words, Memory, Trace_Memory)."""
from checks_core import segs
WORDS = ["alpha", "alphabet", "alp", "beta", "bet", "gamma", "delta", "rays", "x-ray", "it's", "the", "c++", "tag:beta", "Alpha", "Gamma"]
class MemGen:
    def __init__(self, r, emb=None, via=("direct",), ids=None, where=None):
        self.r, self.ops, self.via = r, [], via
        self.ids = ids or [f"m{i}" for i in range(r.choice([2, 4, 12]))]
        self.where = where or r.choice(["few", "few", "odd"])
        self.emb = r.random() < .5 if emb is None else emb
        self.ops.append(dict(op="seg", dom="cx", cfg=self.cfg()))
    def cfg(self): return dict(emb=self.emb, index=self.r.choice(["hnsw", "hnsw", "flat"]))
    def add(self, **k):
        if k["op"].startswith("mem_"): k["via"] = self.r.choice(self.via)
        self.ops.append(k)
    def id(self): return self.r.choice(self.ids) if self.r.random() < .98 else ""
    def words(self, lo, hi): return [self.r.choice(WORDS) for _ in range(self.r.randint(lo, hi))]
    def place(self, home=None):
        r = self.r
        if self.where == "few":
            if r.random() < .6: return dict(scope="user", user="u1", sid="", ns="")
            return dict(scope=r.choice(["", "user", "session", "global"]), user=r.choice(["u1", "u2"]), sid=r.choice(["s1", "", "u1"]), ns=r.choice(["", "a"]))
        if r.random() < .4: return dict(scope=r.choice(["user", "session", "global"]), user=r.choice(["a", "a:b", "A"]), sid=r.choice(["a", "a:b"]), ns=r.choice(["c", "b:c", "b%3Ac", "C"]))
        return dict(scope=r.choice(["", "user", "session", "global", "user", "session", "User ", "SESSION", " GLOBAL", "team"][:r.choice([4, 6, 10])]),
                    user=r.choice(["u1", "a", "a:b", "a%3Ab", "b", "", " ", "global", "A"]), sid=r.choice(["s1", "a", "a:b", "a:b:c", "b", "", " ", "u1"]),
                    ns=r.choice(["", "a", " a ", "b", "b:c", "c", "a:b", ":", "b%3Ac", " ", "default", "%", "A"]))
    def meta(self):
        r = self.r; ks = r.sample(["k", "tone", "scope", "expires_at", "namespace", "kind", "ttl_seconds"], r.choice([0, 1, 2]))
        return [[k, r.choice(["x", "y", "user", "2001-01-01T00:00:00Z", "json:3", "json:true", 'json:["a"]', "json:null", "json:12345678", "json:0.125", 'json:{"a":1}', "null", ""])] for k in ks]
    def ttl(self): return self.r.choice([0, 0, 0, 1, 1, 3600, 2000000, -1])
    def o_save(self): self.add(op="mem_save", id=self.id(), **self.place(), role=self.r.choice(["", "user", "note"]), txt=self.words(0 if self.r.random() < .03 else 1, 5), meta=self.meta(), imp=self.r.choice([0, 500, 250, 1000]), ttl=self.ttl())
    def o_update(self):
        r, k = self.r, {}
        if r.random() < .6: k["txt"] = self.words(0 if r.random() < .05 else 1, 5)
        if r.random() < .4: k["ttl"] = self.ttl()
        if r.random() < .4: k["imp"] = r.choice([0, 500, 250])
        if r.random() < .4: k["meta"] = self.meta()
        self.add(op="mem_update", id=self.id(), **k)
    def o_get(self): self.add(op="mem_get", id=self.id())
    def o_del(self): self.add(op="mem_del", id=self.id())
    def o_search(self):
        r = self.r; q = self.words(0 if r.random() < .02 else 1, r.choice([1, 1, 3]))
        if r.random() < .05: q.append("NOT")
        self.add(op="mem_search", q=q, **self.place(), k=r.choice([0, 1, 1, 2, 3, 50, -1]), kw=self.words(0, 1) if r.random() < .2 else [], alt=[self.words(1, 2) for _ in range(r.choice([0, 0, 0, 1]))], mode=r.choice(["", "auto", "lexical", "lexical", "graph"]))
    def o_probe(self):  # looks for what was just saved, in its own place and in one easily confused with it
        r = self.r; o, ns, sc = r.choice([("a", "b:c", "user"), ("a:b", "c", "user"), ("a", "b:c", "session"), ("a:b", "c", "session"), ("A", "c", "user"), ("a", "b%3Ac", "user"), ("a", "b%253Ac", "user"), ("a", "%", "session")])
        if r.random() < .4:   # names alike but for a separator, spacing or case
            a, b = r.sample(["a:b", "a_b", "a-b", "a b", "A:B", "a%3Ab", "a%3ab", "a.b", "a/b", "ab", "a::b", "a|b", "á:b"], 2); f = r.choice(["user", "ns", "both"])
            mk = lambda n: dict(scope=sc, user=n if f != "ns" else "u1", sid=n if f != "ns" else "u1", ns=n if f != "user" else "")
            x, y = mk(a), mk(b)
        else: x, y = sorted([dict(scope=sc, user=o, sid=o, ns=ns), dict(scope=r.choice(["user", "session", "global"]), user=r.choice(["a", "a:b", "A"]), sid=r.choice(["a", "a:b"]), ns=r.choice(["c", "b:c", "b%3Ac", "C", "%25"]))], key=lambda _: r.random())
        self.add(op="mem_save", id=self.id(), **x, role="", txt=["alpha"], meta=self.meta(), imp=500, ttl=0)
        for p in (x, y): self.add(op="mem_search", q=["alpha"], **p, k=50, kw=[], alt=[], mode=r.choice(["", "lexical"]))
    def o_reopen(self):
        if self.r.random() < .3: self.emb = not self.emb
        self.add(op="cx_reopen", cfg=self.cfg())
    def o_fail(self): self.add(op="cx_embfail", on=True); self.mix(dict(save=1, update=1, search=1), self.r.randint(1, 2)); self.add(op="cx_embfail", on=False)
    def o_sleep(self): self.add(op="cx_sleep", ms=1100)
    def mix(self, ops, n):
        ks = list(ops)
        for _ in range(n): getattr(self, "o_" + self.r.choices(ks, [ops[k] for k in ks])[0])()
MIX = dict(save=6, update=2, get=2, search=7, reopen=.3, fail=.2, **{"del": 1.5})
def C30(run):
    def make(r):
        g = MemGen(r, where="odd" if r.random() < .8 else "few", ids=[f"m{i}" for i in range(r.choice([3, 30]))]); g.mix(dict(MIX, probe=3), 60); return g
    run.trace_check("Trace_Memory", segs(run, run.scale(200, 3000), make))
def C31(run):
    def many(r):  # one bucket, more memories than a search returns
        g = MemGen(r, where="few", ids=[f"m{i}" for i in range(r.choice([4, 30]))]); g.mix(dict(save=1), 15); g.mix(dict(MIX, search=10), 60); return g
    def ageing(r):
        g = MemGen(r, where="few", ids=[f"m{i}" for i in range(8)]); g.mix(MIX, 20); g.o_sleep(); g.mix(MIX, 20); g.o_sleep(); g.mix(dict(get=1, search=4), 8); return g
    run.trace_check("Trace_Memory", segs(run, run.scale(130, 2000), many) + segs(run, run.scale(80, 600), ageing, "a"))
