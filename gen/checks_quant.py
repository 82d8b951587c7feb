"""Vector compression (spec: Quant, Trace_Quant)."""
from checks_core import segs
class QGen:
    def __init__(self, r):
        self.r, self.ops = r, []; self.kind = "none"
        self.ops.append(dict(op="seg", dom="quant", cfg={}))
    def add(self, **k): self.ops.append(k)
    def new(self, kind=None):
        r = self.r; self.kind = kind or self.kind; d, a, b = r.randint(1, 6), 0, 0
        self.lim = 60
        if self.kind == "sq": a = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8]); d = r.randint(1, 9)
        if self.kind == "bq": d = r.choice([1, 3, 8, 9, 12])
        if self.kind == "pq": a = r.choice([x for x in range(1, d + 1) if d % x == 0]); b = r.choice([1, 2, 3, 4, 7, 16]); self.lim = 8
        if self.kind == "pq" and r.random() < .06: b, d, a = r.choice([130, 200, 256]), 2, r.choice([1, 2])
        if r.random() < .05:
            if self.kind == "sq": self.add(op="q_new", kind="sq", dim=d, a=r.choice([0, 9, -1]), b=0)
            if self.kind == "pq": self.add(op="q_new", kind="pq", **r.choice([dict(dim=d, a=0, b=b), dict(dim=d, a=d + 1, b=b), dict(dim=d, a=a, b=r.choice([0, -1, 257])), dict(dim=0, a=a, b=b), dict(dim=d, a=-1, b=b)]))
        self.dim, self.a, self.b = d, a, b; self.seen = []
        self.add(op="q_new", kind=self.kind, dim=d, a=a, b=b)
    def val(self): return self.r.randint(-self.w, self.w) + self.off
    def vec(self, d=None):
        r = self.r; d = self.dim if d is None else d
        if self.seen and r.random() < .2 and d == self.dim: return list(r.choice(self.seen))
        v = [max(-self.lim, min(self.lim, self.val())) for _ in range(d)]; self.seen.append(v) if d == self.dim else 0
        return v
    def spread(self): self.w = self.r.choice([0, 1, 3, self.lim]); self.off = self.r.choice([0, 0, self.r.randint(-self.lim, self.lim)])
    def badlen(self): return self.r.choice([0, self.dim - 1, self.dim + 1])
    def o_train(self):
        r = self.r; self.spread(); n = r.choice([0, 1, 2, 5, 12])
        if self.kind == "pq": n = max(0, self.a * self.b + r.choice([-1, 0, 0, 3, 10]))
        vs = [self.vec() for _ in range(n)]
        if vs and r.random() < .12: vs[r.choice([0, r.randrange(n), n - 1])] = self.vec(self.badlen())
        self.add(op="q_train", vs=vs)
    def o_book(self):
        if self.kind != "pq": return
        self.w, self.off = self.r.choice([1, 3, self.lim]), 0; s = self.dim // self.a
        self.add(op="q_book", book=[[self.vec(s)[:s] for _ in range(self.b)] for _ in range(self.a)])
    def bytes(self):
        r = self.r; n = dict(sq=(self.dim * self.a + 7) // 8, bq=(self.dim + 7) // 8, pq=self.a)[self.kind]
        if r.random() < .1: n = max(0, n + r.choice([-1, 1, 2]))
        top = self.b - 1 if self.kind == "pq" and r.random() < .95 else 255
        return [r.randint(0, top) for _ in range(n)]
    def o_enc(self):
        if self.r.random() < .3: self.spread()
        self.add(op="q_enc", v=self.vec() if self.r.random() < .95 else self.vec(self.badlen()))
    def o_dec(self): self.add(op="q_dec", codes=self.bytes())
    def q(self): return self.vec() if self.r.random() < .95 else self.vec(self.badlen())
    def o_dist(self):
        if self.kind != "sq": self.add(op="q_dist", codes=self.bytes(), codes2=self.bytes(), v=self.q())
    def o_search(self):
        if self.kind != "sq":
            self.add(op="q_search", codes=self.bytes(), v=self.q(), db=[self.bytes() for _ in range(self.r.choice([0, 1, 5, 9]))], k=self.r.choice([-1, 0, 1, 2, 4, 50]))
    def o_save(self): self.add(op="q_save")
    def o_load(self):
        if self.r.random() < .35: self.add(op="q_save")
        self.add(op="q_load", how=self.r.choice(["ok", "ok", "cut", "cut", "pad"] + (["head"] if self.kind == "pq" else [])), n=self.r.randint(0, 40))
    def o_ratio(self): self.add(op="q_ratio")
    def o_new(self): self.new()
    def o_project(self):
        r = self.r; i, o = r.randint(1, 6), r.randint(1, 6); self.w, self.off, lim = 9, 0, self.lim; self.lim = 9
        self.add(op="q_project", **{"in": i, "out": o}, vs=[[self.val() for _ in range(r.choice([i, i, i + 1, i - 1]))] for _ in range(r.choice([0, 1, 4]))], v=[self.val() for _ in range(r.choice([i, i, i + 2, i - 1]))]); self.lim = lim
    def mix(self, ops, n):
        ks = list(ops)
        for _ in range(n): getattr(self, "o_" + self.r.choices(ks, [ops[k] for k in ks])[0])()
MIX = dict(train=1, enc=9, dec=2, dist=2, search=2, save=.6, load=1.2, ratio=.2, new=.15, project=.3, book=.5)
def C39(run):
    def make(r):
        g = QGen(r); g.new(r.choice(["sq", "sq", "bq", "pq", "pq"])); g.spread()
        if r.random() < .2: g.mix(MIX, 3)
        if not (g.kind == "pq" and r.random() < .4): g.o_train()
        else: g.o_book()
        g.mix(MIX, 45); return g
    run.trace_check("Trace_Quant", segs(run, run.scale(500, 8000), make))
