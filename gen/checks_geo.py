"""The geographic index (spec: Geo, Trace_Geo)."""
import math
from checks_core import segs
class GeoGen:
    def __init__(self, r, n, spread):
        self.r, self.ops, self.n, self.spread = r, [], n, spread
        self.ops.append(dict(op="seg", dom="geo", cfg={}))
        self.home = r.choice([(0, 0), (0, 1800), (0, -1800), (900, 0), (-900, 300), (850, 1795), (-885, -1790), (515, -1), (400, 1160), (600, 0), (0, 1798), (r.randint(-900, 900), r.randint(-1800, 1800))])
    def add(self, **k): self.ops.append(k)
    def coord(self):   # in twentieths of a degree
        c = self.coord10()
        if c["lat"] == 999999: return c
        j = lambda x, m: 2 * x + (self.r.choice([0, 0, 0, 1, -1]) if abs(x) < m else 0)
        return dict(lat=j(c["lat"], 900), lng=j(c["lng"], 1800))
    def coord10(self):
        r = self.r; u = r.random()
        if u < .02: return dict(lat=r.choice([901, -905, 0, 999999]), lng=r.choice([1801, 0, -1900]))
        if u < .15: return dict(lat=r.choice([900, -900, 0, 899, -450]), lng=r.choice([1800, -1800, 0, 1799, -1799, 900]))
        if u < .3: return dict(lat=r.randint(-900, 900), lng=r.randint(-1800, 1800))
        s = self.spread; la = self.home[0] + r.randint(-s, s); ln = self.home[1] + r.randint(-s, s)
        if la > 900: la, ln = 1800 - la, ln + 1800
        if la < -900: la, ln = -1800 - la, ln + 1800
        return dict(lat=la, lng=(ln + 1800) % 3600 - 1800)
    def id(self): return self.r.choice([f"p{i}" for i in range(self.n)] * 9 + [""])
    def o_put(self):
        c = self.coord(); self.add(op="geo_put", p=dict(c, id=self.id(), tag=self.r.choice("xyz")))
    def o_del(self): self.add(op="geo_del", id=self.id())
    def o_clear(self): self.add(op="geo_clear")
    def o_get(self): self.add(op="geo_get", id=self.id())
    def o_size(self): self.add(op="geo_size")
    def o_radius(self):
        r = self.r; u = r.random()
        rad = r.choice([-1, 0]) if u < .03 else r.choice([1, 3, 5, 7, 21]) if u < .4 else 2 * r.randint(1, 6 * self.spread) + 1 if u < .85 else 2 * r.randint(1, 1799) + 1 if u < .95 else 4001
        c = self.coord(); near = [o["p"] for o in self.ops if o["op"] == "geo_put" and o["p"]["lat"] != 999999]
        if near and u > .3 and c["lat"] != 999999 and r.random() < .5:    # a radius that barely reaches a point, or barely does not
            p = r.choice(near)
            if r.random() < .5: c["lat"] = max(-1800, min(1800, p["lat"]))
            f = lambda x: math.radians(x / 20)
            h = math.sin(f(c["lat"] - p["lat"]) / 2) ** 2 + math.cos(f(c["lat"])) * math.cos(f(p["lat"])) * math.sin(f(c["lng"] - p["lng"]) / 2) ** 2
            d = math.degrees(2 * math.asin(math.sqrt(max(0, min(1, h))))) * 20
            rad = max(1, int(d) // 2 * 2 + r.choice([1, 1, 1, -1]))
        self.add(op="geo_radius", c=c, r=rad, unit=r.choice(["km", "km", "miles", "meters"]))
    def o_knn(self): self.add(op="geo_knn", c=self.coord(), k=self.r.choice([0, -1, 1, 2, 3, 5, 500]))
    def o_box(self):
        r = self.r; a, b = self.coord(), self.coord()
        if r.random() < .8:
            s = r.choice([1, 3, 10, 40]); b = dict(lat=min(1800, a["lat"] + r.randint(0, s)), lng=min(3600, a["lng"] + r.randint(0, s)))
            if r.random() < .5: a["lat"] = max(-1800, a["lat"] - s); a["lng"] = max(-3600, a["lng"] - s)
        if 999999 in (a["lat"], b["lat"]): return
        self.add(op="geo_box", b=dict(lat0=a["lat"], lat1=b["lat"], lng0=a["lng"], lng1=b["lng"]))
    def o_poly(self):
        r = self.r; h = self.home; s = r.choice([self.spread, self.spread * 2, 300])
        self.add(op="geo_poly", pg=[dict(lat=2 * h[0] + r.randint(-2 * s, 2 * s), lng=2 * h[1] + r.randint(-2 * s, 2 * s)) for _ in range(r.choice([2, 3, 3, 4, 5, 7]))])
    def mix(self, ops, n):
        ks = list(ops)
        for _ in range(n): getattr(self, "o_" + self.r.choices(ks, [ops[k] for k in ks])[0])()
MIX = dict(put=6, clear=.05, get=1, size=.4, radius=4, knn=2, box=2, poly=2, **{"del": 2})
def C38(run):
    def few(r):
        g = GeoGen(r, r.choice([3, 8, 20]), r.choice([2, 5, 20, 100])); g.mix(dict(put=1), 6); g.mix(MIX, 50); return g
    def many(r):   # enough points for the grid to be worth using
        g = GeoGen(r, 150, r.choice([2, 4, 15])); g.mix(dict(put=1), 150); g.mix(MIX, 30); return g
    run.trace_check("Trace_Geo", segs(run, run.scale(240, 4000), few) + segs(run, run.scale(48, 800), many, "m"))
