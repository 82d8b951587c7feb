"""Agent memory (spec: Words, Hindsight, Trace_Hindsight)."""
from checks_core import segs
WORDS = ["alpha", "alphabet", "beta", "gamma", "delta", "the", "Alpha", "prefers", "likes", "because", "since", "日本語"]
NAN = 999999
class HsGen:
    def __init__(self, r, banks=None, ids=None, dim=None):
        self.r, self.ops, self.n, self.put = r, [], 0, 0
        self.banks = banks or r.choice([["a"], ["a", "b"], ["a", "b", "c"], ["a", "A", "a "]])
        self.ids = ids or [f"m{i}" for i in range(r.choice([2, 4, 8]))] + r.choice([[], ["a/m0"], ["m,1"]])
        self.ents_ = r.choice([["alice", "bob"], ["ann", "anna", "a,b"], ["a", "b", "alice"], ["bob", " bob", "Bob"]])
        self.dim = r.choice([0, 3]) if dim is None else dim
        self.sids, self.said = [], []
        self.ops.append(dict(op="seg", dom="hs", cfg=dict(dim=self.dim, col=r.choice(["", "memories", "own"]))))
    def add(self, **k): self.ops.append(k)
    def pick(self, *a): return self.r.choice(a)
    def bank(self): return self.r.choice(self.banks)
    def words(self, lo, hi): return [self.r.choice(WORDS) for _ in range(self.r.randint(lo, hi))]
    def vec(self): return self.pick([1, 0, 0], [0, 1, 0], [1, 1, 0], [1, 2, 0], [0, 1, 2], [2, 1, 1], [-1, 0, 1], [1, -2, 3], [3, 1, 1])
    def ents(self): return self.r.sample(self.ents_, self.pick(0, 1, 1, 2))
    def at(self): return [] if self.r.random() < .3 else [self.pick(-7000, -2500, -2000, -1999, -1, 0, 1, 300, 999, 1000, 1700)]
    def meta(self):
        ks = self.r.sample(["k", "tone", "bank_id", "memory_type", "created_at", "confidence", "entities", "id"], self.pick(0, 0, 1, 2))
        return [[k, self.pick("x", "y", "b", "world", "1", "alice,bob")] for k in ks]
    def fact(self): return dict(id=self.r.choice(self.ids), type=self.pick("world", "world", "bank", "opinion"), txt=self.words(self.pick(0, 1, 1, 1, 1, 1, 1), 5), v=self.vec(), ents=self.ents(), conf=self.pick(0, 5000, 8500, 10000), meta=self.meta())
    # banks
    def o_bank(self): d = self.pick(0, 1, 2, 3, 4, 5); self.add(op="hs_bank", id=self.pick(self.bank(), self.bank(), "alice", ""), name=self.pick("", "Name", "N2"), desc=self.pick("", "D1", "Name"), back=self.pick("", "B1"), sk=d, li=d and self.pick(1, 3, 5), em=d and self.pick(1, 2, 5))
    def o_delbank(self): self.add(op="hs_delbank", id=self.pick(self.bank(), self.bank(), "alice"))
    def o_getbank(self): self.add(op="hs_getbank", id=self.pick(self.bank(), self.bank(), "alice", "m0"))
    def o_banks(self): self.add(op="hs_banks")
    def o_reopen(self): self.add(op="hs_reopen")
    # memories
    def o_raw(self): self.add(op="hs_raw", id=self.r.choice(self.ids), txt=self.words(1, 3))
    def o_rawget(self): self.add(op="hs_rawget", id=self.r.choice([o["id"] for o in self.ops if o["op"] == "hs_raw"] or ["nope"]))
    def room(self, n=1): self.put += n; return self.put <= 28
    def o_retain(self):
        if not self.room(): return
        f = self.fact()
        if self.r.random() < .04: f["id"] = ""
        if self.r.random() < .03: f["v"] = [1, NAN, 0]
        if self.r.random() < .04 and f["type"] == "opinion": f["type"] = "observation"
        self.add(op="hs_retain", bank=self.bank(), at=self.at(), **f)
    def o_retains(self):
        if not self.room(3): return
        i = self.r.choice(self.ids)
        self.add(op="hs_retains", ms=[dict(self.fact(), id=i, bank=b) for b in self.banks])
    def req(self):
        r = self.r; d = r.random() < .15
        q = self.words(1, self.pick(1, 1, 1, 2)) if r.random() < .8 else []
        q = [w for w in q if w not in ("Alpha",)]
        qv = self.vec() if r.random() < .85 else []
        x = dict(bank=self.bank(), q=q, qv=qv, k=self.pick(0, 1, 2, 3, 5, 20), dflt=d, memory=True, priming=True, temporal=False, ents=[], sk=10)
        x["from"], x["to"] = [], []
        if not d:
            on = r.choice([["memory"], ["priming"], ["temporal"], ["ents"], r.sample(["memory", "priming", "temporal", "ents"], self.pick(0, 2, 2, 3, 4))])
            x.update(memory="memory" in on, priming="priming" in on, temporal="temporal" in on, sk=self.pick(0, 0, 1, 2, 4, 20))
            if "ents" in on: x["ents"] = r.sample(self.ents_ + ["nobody", "an"], self.pick(1, 1, 2))
            if "temporal" in on:
                if r.random() < .7: x["from"] = [self.pick(-7000, -2000, -1999, 0, 1, 999, 1000)]
                if r.random() < .7: x["to"] = [self.pick(-2500, -2000, -1, 0, 1, 999, 1700, 60000)]
        return x
    def o_recall(self): self.add(op="hs_recall", req=self.req())
    def o_reflect(self): self.add(op="hs_reflect", req=self.req(), budget=self.pick(0, 0, 3, 8, 9, 10, 11, 12, 13, 15, 20, 2000))
    def o_rer(self): self.add(op="hs_rer", mode=self.pick("none", "none", "rev", "fail", "empty", "drop"))
    def o_observe(self):
        if not self.room(4): return
        x = self.req(); x["qv"] = self.vec()
        if self.r.random() < .7: x.update(dflt=False, memory=True, priming=False, temporal=False, ents=[], sk=0, k=self.pick(0, 3, 5, 20)); x["from"], x["to"] = [], []
        self.add(op="hs_observe", req=x, types=self.r.choice([[], [], [], ["preference"], ["causal", "risk"], ["generalization"], ["risk"]]), min=self.pick(0, 1700, 2700, 5000, 9500))
    def o_addobs(self):
        if not self.room(): return
        v = self.vec() if self.r.random() < .7 or self.dim == 0 else []
        self.add(op="hs_addobs", bank=self.bank(), id=self.pick(self.r.choice(self.ids), "o1", "o2", ""), txt=self.words(0, 4), v=v, src=self.r.sample(["m0", "m1", "m,1", ""], self.pick(0, 0, 1, 2, 3)), conf=self.pick(0, 5000, 9000), otype=self.pick("", "pattern", "risk"), why=self.pick("", "because of it"), at=self.at())
    def o_getobs(self): self.add(op="hs_getobs", bank=self.bank())
    def o_text(self):
        fs = [self.fact() for _ in range(self.pick(0, 1, 2, 3))]
        if not self.room(len(fs)): return
        for f in fs:
            x = self.r.random()
            if x < .1: f["id"] = ""
            elif x < .2: f["v"] = []
            elif x < .25: f["v"] = [NAN, 1, 1]
            elif x < .35: f["type"] = ""
        self.add(op="hs_text", bank=self.bank() if self.r.random() < .95 else "", n=self.pick(0, 1, 1, 2), facts=fs)
    # conversations
    def o_ext(self): self.add(op="hs_ext", mode=self.pick("ok", "ok", "ok", "failing", "none"))
    def o_auto(self): self.add(op="hs_auto", nil=self.r.random() < .08, on=self.r.random() < .88, win=self.pick(0, 1, 2, 3, 5, 20), every=self.pick(0, 1, 1, 2, 3, 4, 5), roles=self.r.choice([[], [], ["user"], ["user", "tool"], ["User"]]))
    def o_session(self):
        s = self.pick("s1", "s2", "s3"); self.sids = sorted(set(self.sids) | {s}); self.add(op="hs_session", sid=s)
    def msg(self, fresh=False):
        r = self.r; self.n += 1; m = dict(bank=self.bank(), sid=r.choice(self.sids or ["s9"]), id=f"k{self.n}", role=self.pick("user", "user", "assistant", "tool", "User"), txt=self.words(1, 3) + r.choice([[], [], [], [], ["novec"], ["noid"]]))
        if not fresh:
            if r.random() < .04: m["sid"] = "s9"
            elif r.random() < .04 and self.said: m["id"] = r.choice(self.said)
        if m["sid"] != "s9" and m["id"] not in self.said: self.said.append(m["id"])
        return m
    def o_say(self):
        if self.room(.5): self.add(op="hs_msgs", ms=[self.msg()], slow=0, closed=False)
    def o_burst(self):
        n = self.r.randint(2, 7)
        if self.room(n / 2): self.add(op="hs_msgs", ms=[self.msg() for _ in range(n)], slow=self.pick(0, 3, 10), closed=self.r.random() < .15)
        if self.ops[-1].get("closed"): self.o_setup()
    def o_par(self):
        n = self.r.randint(2, 8)
        if self.sids and self.room(n / 2): self.add(op="hs_par", ms=[self.msg(True) for _ in range(n)], slow=self.pick(0, 3))
    def o_setup(self):
        if self.r.random() < .9: self.o_ext()
        if self.r.random() < .9: self.o_auto()
    def o_hist(self): self.add(op="hs_hist", sid=self.r.choice(self.sids or ["s9"]), n=self.pick(-1, -1, 0, 1, 3, 50))
    def mix(self, ops, n):
        ks = list(ops)
        for _ in range(n): getattr(self, "o_" + self.r.choices(ks, [ops[k] for k in ks])[0])()
BANKS = dict(bank=2, delbank=1, getbank=2, banks=1, reopen=.6)
READS = dict(recall=8, reflect=2, getobs=1, rawget=.3, getbank=.3)
def C35(run):
    def many(r):
        g = HsGen(r)
        if r.random() < .3: g.o_raw()
        if r.random() < .6: g.add(op="hs_ext", mode="ok")
        g.mix(dict(bank=1), r.choice([0, 2, 4])); g.mix(dict(retain=1), r.choice([2, 8, 14]))
        g.mix(dict(retain=2, retains=.2, rer=.5, addobs=.7, observe=1.5, ext=.2, text=.8, reopen=.3, bank=.3, delbank=.2, **READS) | dict(getbank=.4, banks=.3), 35); return g
    def keepers(r):
        g = HsGen(r); g.mix(dict(BANKS, retain=1, recall=2, observe=.5), 30); return g
    run.trace_check("Trace_Hindsight", segs(run, run.scale(170, 2500), many) + segs(run, run.scale(50, 500), keepers, "k"))
def C36(run):
    def chat(r):
        g = HsGen(r, dim=3); g.o_session(); g.o_setup()
        g.mix(dict(session=.4, setup=.5, say=8, burst=1, par=1, hist=1.5, recall=2, auto=.3, ext=.2, reopen=.1), 40)
        for s in g.sids: g.add(op="hs_hist", sid=s, n=-1)
        g.mix(dict(recall=1), 3); return g
    run.trace_check("Trace_Hindsight", segs(run, run.scale(200, 3000), chat))
