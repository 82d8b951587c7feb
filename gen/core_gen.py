"""Random programs over the embedding store."""
import vocab
IDS = list("abcdefgh")
DOCS = ["d1", "d2", "d3"]
COLS = ["c1", "c2"]
WORDS = ["alpha", "beta", "gamma", "delta", "omega", "zeta", "kappa"]
# names that differ only in case, spacing, or characters special to SQL and JSON
ODDIDS = ["a", "A", "a ", "it's", 'q"o', "a%", "a_b", "axb", "äö", "a/b:c", "1", "01", "R&D"]
ODDDOCS = ["d1", "D1", "d'1", "d1 "]
ODDCOLS = ["c1", "C1", "c'1%"]
ODDWORDS = ["alpha", "", "it's", "日本語", "a\nb", "x\ty", "Ünï", '"q"', "<b>", "null", "0", "{}", "1e5", "\\n", "%", "😀", "R&D", "&amp;", "a\r\nb", "\u2028", "trailing\\"]
ODDKEYS = ["k", "K", "a.b", "it's", "$x", "", "ключ", 'q"o', "1"]
# codes of components whose exact bits are interesting (see the driver)
SPECIAL = list(range(900001, 900011))
THRS = [0, 0, 0, 313, 701, 907, 107]

def dims(r, usual):
    """a dimension and the largest component: mostly small, sometimes around the sizes vector code unrolls or packs by (products stay within 32 bits)"""
    return (r.choice(usual), 3) if r.random() < .8 else r.choice([(1, 3), (5, 3), (7, 2), (8, 2), (9, 2), (16, 1), (17, 1), (33, 1)])

class CoreGen:
    def __init__(self, rng, dim=3, sim="cosine", index="flat", adapt="strict", autodim=False, ids=IDS, comp=3, meta=True, quant="", exact=True, richmeta=False, odd="", **over):
        self.odd = False; self.r = rng; self.dim = dim; self.ids = ids; self.comp = comp; self.meta = meta
        self.cfg = dict(dim=0 if autodim else dim, sim=sim, index=index, adapt=adapt, exact=exact); self.cfg.update(over); self.rich = richmeta
        if quant: self.cfg["quant"] = quant
        self.DOCS, self.COLS, self.words = DOCS, COLS, WORDS
        if odd == "entities": self.ENT = rng.choice(self.ODDENT)
        if odd == "names": self.ids, self.DOCS, self.COLS = ODDIDS, ODDDOCS, ODDCOLS
        if odd == "content": self.words = ODDWORDS; self.odd = True
        self.ops = []; self.docs = set(); self.cols = {"default"}; self.live = set()
    def seg(self): self.ops.append(dict(op="seg", dom="core", cfg=self.cfg, seg=0)); return self
    def add(self, **kw): self.ops.append(kw); return self
    def pick(self, xs): return self.r.choice(list(xs))
    def vec(self, dim=None, zero=0.04):
        d = self.dim if dim is None else dim
        if self.r.random() < zero or d <= 0: return [0] * d
        if self.odd and self.r.random() < .6: return [self.r.choice([1, 0, -2] + SPECIAL) for _ in range(d)]
        while True:
            v = [self.r.randint(-self.comp, self.comp) for _ in range(d)]
            if any(v): return v
    def thr(self):  # a score can only hit a threshold exactly where both are exact
        return self.pick(THRS + ([1000, 2000, 3000, 4000] if self.cfg["sim"] == "dot" else []))
    def badvec(self):
        return self.r.choice([[], self.vec(self.dim + 1), self.vec(self.dim - 1), [999999] + self.vec(self.dim - 1), self.vec(self.dim - 1) + [self.r.choice([999998, 999997])]])
    def txt(self):
        if self.r.random() < .03: return [self.pick(self.words)] * self.r.choice([30, 120]) + [self.pick(self.words)]
        n = self.r.choice([0, 1, 2, 2, 3, 3, 4])
        t = [self.pick(self.words) for _ in range(n)]
        return [] if t == [""] else t
    def metav(self):
        m = {}
        if not self.meta: return []
        if self.odd: return sorted([k, self.pick(ODDWORDS)] for k in self.r.sample(ODDKEYS, self.r.choice([0, 1, 2, 3])))
        if self.r.random() < .7: m["cat"] = self.pick(["x", "y", "z"])
        if self.r.random() < .6: m["price"] = str(self.r.choice([0, 1, 2, 5, 9, 10, 11, 25, 2.5, -3]))
        if self.r.random() < .5: m["type"] = self.pick(["t1", "t2"])
        if self.r.random() < (.6 if self.rich else .3): m["lang"] = self.pick(["en", "EN", "de", "it's", 'q"o', "100%", "a_b", "axb", ""] + ["a\nb", " en", "en "] * self.rich)
        if self.rich and self.r.random() < .4: m["flag"] = self.pick(["true", "false", "e"])
        if self.rich and self.r.random() < .4: m["num"] = self.pick(["5", "5.0", "07", "1e1", "10", "9", "-3", "x"])
        if self.rich and self.r.random() < .4: m["serial"] = self.pick(["1200000", "3450000", "5", "-3", "16777216", "16777217"])
        return [[k, m[k]] for k in sorted(m)]
    def acl(self):
        return self.r.choice([[], [], [], ["u1"], ["u2"], ["u1", "g1"], ["g2"]] + ([["it's"], ['q"o'], ["u1%"], ["u"], ["U1"], ["a,b"], ["u11"]] if self.rich else []))
    def aid(self): return self.pick(self.ids)
    def adoc(self, none=.4, missing=.06):
        x = self.r.random()
        if x < none or not self.docs:
            return "" if x >= missing * .3 else "nodoc"
        if x > 1 - missing: return "nodoc"
        return self.pick(self.docs)
    def acol(self, missing=.05):
        x = self.r.random()
        if x < .35: return ""
        if x > 1 - missing: return "nocol"
        return self.pick(sorted(self.cols))
    def row(self, id=None, bad=.05):
        return dict(id=id or self.aid(), vec=self.badvec() if self.r.random() < bad else self.vec(), txt=self.txt(),
                    doc=self.adoc(), meta=self.metav(), col=self.acol(), acl=self.acl())
    def goodrow(self, id=None, **kw):
        d = dict(id=id or self.aid(), vec=self.vec(), txt=self.txt(), doc=self.pick([""] + sorted(self.docs)), meta=self.metav(),
                 col=self.pick([""] + sorted(self.cols)), acl=self.acl()); d.update(kw); return d
    def doc(self, id=None):
        return dict(id=id or self.pick(self.DOCS), title=self.pick(["T1", "T2"]), author=self.pick(["ann", "bob"]), ver=self.r.randint(1, 3), acl=self.acl(), url=self.pick(["", "u1", "http://x/?q='1'"]), txt=self.txt(),
                    meta=[[k, self.pick(["x", "y", "1", "json:3", "json:false", 'json:{"a":[1]}'])] for k in sorted(self.r.sample(["k", "lang", "type"], self.r.choice([0, 0, 1, 2])))])
    # --- operations
    def o_upsert(self): self.add(op="upsert", row=self.row())
    def o_upsert_batch(self):
        n = self.r.choice([0, 1, 2, 3, 4, 5]); self.add(op="upsert_batch", rows=[self.row(bad=.04) for _ in range(n)])
    def o_good(self): self.add(op="upsert", row=self.goodrow())
    def o_good_batch(self): self.add(op="upsert_batch", rows=[self.goodrow() for _ in range(self.r.randint(1, 5))])
    def o_delete(self): self.add(op="delete", id=self.aid())
    def o_delete_batch(self):
        ids = [self.aid() for _ in range(self.r.randint(0, 3))]
        if self.r.random() < .2: ids.insert(0, self.pick(["", " ", "nope"]))
        self.add(op="delete_batch", ids=ids)
    def o_delete_by_doc(self): self.add(op="delete_by_doc", doc=self.pick(self.DOCS + ["", "nodoc"]))
    def o_clear(self): self.add(op="clear")
    def o_clear_docs(self): self.add(op="clear_docs", docs=[self.pick(self.DOCS + ["", "nodoc"]) for _ in range(self.r.randint(0, 3))])
    def o_create_col(self):
        n = self.pick(self.COLS + ["default"] + self.COLS); d = self.r.choice([0, self.dim, self.dim, -1])
        self.add(op="create_col", name=n, d=d)
        if d >= 0: self.cols.add(n)
    def o_delete_col(self):
        n = self.pick(self.COLS + ["nocol"]); self.cols.discard(n); self.add(op="delete_col", name=n)
    def o_delete_default(self): self.add(op="delete_col", name="default")
    def o_create_doc(self): d = self.doc(); self.docs.add(d["id"]); self.add(op="create_doc", doc=d)
    def o_update_doc(self): self.add(op="update_doc", doc=self.doc())
    def o_delete_document(self): d = self.pick(self.DOCS); self.docs.discard(d); self.add(op="delete_document", id=d)
    def o_get(self): self.add(op="get", id=self.aid())
    def o_get_by_doc(self): self.add(op="get_by_doc", doc=self.pick(self.DOCS + [""]))
    def o_by_type(self): self.add(op="by_type", type=self.pick(["t1", "t2", "", "t3"]))
    def o_list_docs(self): self.add(op="list_docs")
    def o_list_docs_info(self): self.add(op="list_docs_info")
    def o_stats(self): self.add(op="stats")
    def o_get_col(self): self.add(op="get_col", name=self.pick(self.COLS + ["default", "nocol"]))
    def o_list_cols(self): self.add(op="list_cols")
    def o_col_stats(self): self.add(op="col_stats", name=self.pick(self.COLS + ["default", "nocol"]))
    def o_get_document(self): self.add(op="get_document", id=self.pick(self.DOCS))
    def o_docs_by(self): self.add(op="docs_by", author=self.pick(["", "ann", "bob", "zed"]), lim=self.r.choice([1, 2, 10]))
    def o_snap(self): self.add(op="snap", ids=self.ids)
    def filt(self):
        x = self.r.random()
        if x < .5: return []
        f = []
        if self.r.random() < .5: f.append(["cat", self.pick("xyz")])
        if self.r.random() < .3: f.append(["doc_id", self.pick(self.DOCS)])
        if self.r.random() < .3: f.append(["type", self.pick(["t1", "t2"])])
        return f
    def scope(self): return self.r.choice(["", "", "default"] + self.COLS[:2] + ["nocol"])
    def o_search(self, bad=.03):
        q = self.badvec() if self.r.random() < bad else self.vec()
        self.add(op="search", q=q, k=self.r.choice([0, 1, 2, 3, 5, 20, -1]), col=self.scope(), filt=self.filt(), thr=self.thr())
    def o_fullsearch(self):
        if self.odd: return   # such vectors are compared, not scored
        self.add(op="search", q=self.vec(), k=self.r.choice([20, 20, 4]), col="", filt=[], thr=0)
    def o_reopen(self, **over):
        self.add(op="close"); c = dict(self.cfg); c.update(over); self.cols.add("default")
        self.add(op="reopen", cfg=c)
    def o_faulty_batch(self):
        n = self.r.randint(2, 5); rows = [self.goodrow() for _ in range(n)]
        self.add(op="fault", kind="ins", id=self.pick([x["id"] for x in rows])); self.add(op="upsert_batch", rows=rows)
        self.o_snap(); self.add(op="faults_off")
    def o_faulty_upsert(self):
        r = self.goodrow(); self.add(op="fault", kind="ins", id=r["id"]); self.add(op="upsert", row=r); self.o_snap(); self.add(op="faults_off")
    def o_faulty_delete(self):
        self.add(op="fault", kind="del", id=self.aid())
        k = self.r.choice(["delete", "delete_batch", "delete_by_doc", "clear", "clear_docs", "delete_col", "delete_document"])
        if k == "delete_col": self.add(op="delete_col", name=self.pick(self.COLS + ["default"]))
        elif k == "delete_document": self.add(op="delete_document", id=self.pick(self.DOCS))
        elif k == "delete_batch": self.add(op="delete_batch", ids=self.r.sample(self.ids, self.r.randint(2, 5)))
        else: getattr(self, "o_" + k)()
        self.o_snap(); self.o_fullsearch(); self.add(op="faults_off")
    def mix(self, weights, n):
        names = list(weights); ws = [weights[x] for x in names]
        for _ in range(n): getattr(self, "o_" + self.r.choices(names, ws)[0])()
        return self
    def prefill(self, ncols=2, ndocs=2, nrows=5):
        for c in self.COLS[:ncols]: self.add(op="create_col", name=c, d=self.dim); self.cols.add(c)
        for d in self.DOCS[:ndocs]: self.add(op="create_doc", doc=self.doc(d)); self.docs.add(d)
        for i in self.r.sample(self.ids, min(nrows, len(self.ids))): self.add(op="upsert", row=self.goodrow(i))
        return self

    # --- filters
    def tv(self, f):
        r = self.r
        if f == "price": s = str(r.choice([0, 1, 2, 5, 9, 10, 11, 25, 3, 7, 2.5, -3])); return dict(t=r.choice("sn" if s == "2.5" else "sni"), s=s)
        if f == "num": return r.choice([dict(t="n", s="5"), dict(t="n", s="10"), dict(t="s", s="5.0"), dict(t="s", s="07"), dict(t="s", s="1e1"), dict(t="i", s="9"), dict(t="n", s="-3"), dict(t="s", s="x")])
        if f == "serial": return dict(t=r.choice("sni"), s=r.choice(["1200000", "3450000", "5", "-3", "16777216", "16777217"]))
        if f == "flag": return r.choice([dict(t="b", s="true"), dict(t="b", s="false"), dict(t="s", s="true"), dict(t="s", s="e")])
        if f == "cat": return dict(t="s", s=r.choice("xyz"))
        if f == "type": return dict(t="s", s=r.choice(["t1", "t2", "t3"]))
        return dict(t="s", s=r.choice(["en", "EN", "de", "it's", 'q"o', "100%", "a_b", "axb", ""] + ["a\nb", " en", "en "] * self.rich))
    def leaf(self, ops=None):
        r = self.r; f = r.choice(["cat", "price", "price", "type", "lang", "lang"] + (["flag", "num", "num", "serial"] if self.rich else []))
        op = r.choice(ops or ["=", "=", "!=", ">", ">=", "<", "<=", "BETWEEN", "IN", "LIKE", "REGEX"])
        x = dict(op=op, f=f, v=[self.tv(f)], kids=[])
        if op == "BETWEEN":
            x["v"] = [self.tv(f), self.tv(f)]
        elif op == "IN":
            x["v"] = [self.tv(f) for _ in range(r.choice([0, 1, 2, 2, 3]))]
            if r.random() < .3: x["typed"] = True
        elif op == "LIKE": x["v"] = [dict(t="s", s=r.choice(vocab.PATTERNS))]
        elif op == "REGEX":
            x["v"] = [dict(t=r.choice(["prefix", "suffix", "contains", "full"]), s=r.choice(vocab.SUBS + ["en", "it's", "100%", "a_b"]))]
        return x
    def tree(self, depth=2, ops=None, bad=.02, notin=False):
        r = self.r; x = r.random()
        if r.random() < bad:
            return r.choice([dict(op="AND", f="", v=[], kids=[]), dict(op="OR", f="", v=[], kids=[]), dict(op="BOGUS", f="cat", v=[dict(t="s", s="x")], kids=[]),
                             dict(op="REGEX", f="lang", v=[dict(t="badre", s="")], kids=[]), dict(op="NOT", f="", v=[], kids=[])])
        if depth == 0 or x < .35: return self.leaf(ops)
        if x < .6: return dict(op="AND", f="", v=[], kids=[self.tree(depth - 1, ops, bad, notin) for _ in range(r.choice([1, 2, 2, 3]))])
        if x < .85: return dict(op="OR", f="", v=[], kids=[self.tree(depth - 1, ops, bad, notin) for _ in range(r.choice([1, 2, 2, 3]))])
        return dict(op="NOT", f="", v=[], kids=[self.leaf(["IN"]) if notin else self.tree(depth - 1, ops, bad)])
    BUILD = ["=", "!=", ">", ">=", "<", "<=", "BETWEEN", "IN", "LIKE"]
    def built(self):
        """a filter the fluent builder can express: a conjunction"""
        return self.tree(2, self.BUILD, bad=0, notin=True)
    def optree(self, p=.6): return self.tree() if self.r.random() < p else dict(op="none", f="", v=[], kids=[])
    def render(self, x):
        """The filter as a string for ParseFilterString, or None if it has no such form; returns (string, the same filter as parsed)"""
        r = self.r
        def val(v):
            s = v["s"]
            if v["t"] in "nib": return s
            if s in ("true", "false"): return "'" + s + "'"
            if "'" in s: return '"' + s + '"'
            if s != s.strip() and r.random() < .5: return '"' + s + '"'
            if '"' in s or s == "" or "%" in s or s != s.strip() or "\n" in s or r.random() < .7: return "'" + s + "'"
            return s
        def go(x, top):
            o = x["op"]
            if o in ("AND", "OR"):
                if len(x["kids"]) < 2: return go(x["kids"][0], top) if x["kids"] else None
                ks = [go(k, False) for k in x["kids"]]
                if None in ks: return None
                s = (" " + o + " ").join(ks)
                return s if top else "(" + s + ")"
            if o == "NOT":
                if len(x["kids"]) != 1: return None
                k = go(x["kids"][0], True)
                return None if k is None else "NOT (" + k + ")"
            if o in ("=", "!=", ">", ">=", "<", "<="):
                if o == "=": o = r.choice(["=", ":", ":=", " = "])
                else: o = r.choice([o, " " + o + " "])
                return x["f"] + o + val(x["v"][0])
            if o == "BETWEEN": return f"{x['f']} BETWEEN {val(x['v'][0])} AND {val(x['v'][1])}"
            if o == "IN" and x["v"]: return f"{x['f']} IN (" + r.choice([", ", ","]).join(val(v) for v in x["v"]) + ")"
            return None
        return go(x, True)
    def q4(self, bad=.02):
        q = self.badvec() if self.r.random() < bad else self.vec()
        return dict(q=q, k=self.r.choice([0, 1, 2, 3, 5, 20, -1]), col=self.scope(), filt=self.filt(), thr=self.thr())
    def o_adv_search(self):
        pre = self.optree(.8); d = dict(op="adv_search", **self.q4(), pre=pre, post=self.optree(.4), pre_s="")
        if pre["op"] != "none" and self.r.random() < .5:
            s = self.render(pre)
            if s: d["pre_s"] = s
        self.add(**d)
    def o_filter_search(self):
        mf = []
        for f in self.r.sample(["cat", "price", "type", "lang"] + ["serial"] * self.rich, self.r.choice([0, 1, 1, 2])): mf.append([f, self.tv(f)])
        self.add(op="filter_search", **self.q4(), mf=mf)
    def o_delete_by_filter(self): self.add(op="delete_by_filter", f=self.built() if self.r.random() < .93 else dict(op="none", f="", v=[], kids=[]))
    def o_dump(self): self.add(op="dump", fmt="xml" if self.r.random() < .02 else self.pick(["json", "jsonl", "csv"]), bare=self.r.random() < .2, f=self.built() if self.r.random() < .4 else dict(op="none", f="", v=[], kids=[]))
    def o_restore(self):
        c = dict(self.cfg, index=self.pick(["flat", "hnsw"])); c["dim"] = self.pick([0, self.dim])
        self.add(op="restore", fmt=self.pick(["json", "jsonl"]), f=self.built() if self.r.random() < .3 else dict(op="none", f="", v=[], kids=[]), cfg=c)
    def o_load(self):
        rows = [self.row(bad=.1) for _ in range(self.r.choice([0, 1, 2, 3, 4]))]; fmt = self.pick(["json", "jsonl"])
        for x in rows:
            if x["col"] == "nocol": self.cols.add("nocol")
            if any(c >= 990000 for c in x["vec"]): x["vec"] = self.vec()
        how = self.r.choice(["", "", "", "torn", "garbage"])
        if fmt == "json" and how: rows = []
        self.add(op="load", rows=rows, skip=self.r.random() < .5, bad=how != "", fmt=fmt, how=how, odd=self.r.choice([0, 0, 1, 2]) if fmt == "jsonl" else 0)
    def o_backup(self): self.add(op="backup", cfg=dict(self.cfg), words=self.words[:4])
    def ident(self):
        return [self.r.choice(["u1", "u2", "g1", "g2", "it's", 'q"o', "u1%", "u", "U1", "_", "%", "", "a", "b", "a,b", "u11"]) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
    def o_acl_search(self): self.add(op="acl_search", **self.q4(), acl=self.ident())
    RADII = [1, 113, 303, 509, 701, 907, 1003, 1501, 2003, 3001]
    def radius(self): return self.r.choice(self.RADII + dict(euclid=[1000, 2000, 3000, 5000], dot=[1000, 2000, 3000]).get(self.cfg["sim"], []))  # met exactly only where distances are exact
    def o_range(self): d = self.q4(); d["thr"] = 0; self.add(op="range", **d, r=self.r.choice([0, -7]) if self.r.random() < .1 else self.radius())
    def o_brange(self):
        d = self.q4(); d["thr"] = 0; del d["q"]
        self.add(op="brange", **d, r=self.radius(), qs=[self.vec() for _ in range(self.r.choice([0, 1, 2, 3]))])
    def o_hybrid(self):
        r = self.r; mode = r.choice(["all", "all", "all", "any", "prefix", "none"]); words = []
        d = self.q4(0)
        if r.random() < .35: d["q"] = []
        if mode == "all":
            terms = [self.pick(self.words) for _ in range(r.choice([1, 1, 2, 3]))]
            raw = r.choice([" ".join(terms), " ".join(t.upper() for t in terms), ", ".join(terms) + "?", '"' + '" "'.join(terms) + '"', "'" + " ".join(terms) + "'", " (" + " ".join(terms) + " ", terms[0] + "* (" + " ".join(terms[1:]) if len(terms) < 2 else " ".join(terms), "! ".join(terms) + "!"])
        elif mode == "any": terms = r.sample(self.words, 2); raw = " OR ".join(terms)
        elif mode == "prefix":
            p = r.choice(["al", "be", "o", "k"]); terms = [p]; raw = p + "*"; words = [w for w in self.words if w.startswith(p)]
        else: terms = ["nothinglikethis"]; mode = "all"; raw = "nothinglikethis"
        self.add(op="hybrid", **d, mode=mode, terms=terms, words=words, raw=raw)
    def o_stream(self):
        self.add(op="stream", **self.q4(), batch=self.r.choice([1, 2, 3, 10]), early=self.r.random() < .3, qthr=self.r.choice([313, 701, 907]), cancel=self.r.choice([-1, -1, -1, 0, 1, 2]), slow=self.r.random() < .1)
    def o_stream_topk(self): self.add(op="stream_topk", **self.q4(), batch=self.r.choice([1, 2, 5]), early=False, qthr=0)
    def o_stream_merge(self):
        d = self.q4(0); del d["q"]; self.add(op="stream_merge", **d, qs=[self.vec() for _ in range(self.r.choice([1, 2, 3]))], batch=self.r.choice([1, 2, 5]), early=False, qthr=0, slow=self.r.random() < .1)
    def o_incremental(self):
        rows = [self.goodrow() for _ in range(self.r.choice([0, 1, 2, 4]))]
        if rows and self.r.random() < .3: self.pick(rows).update(self.pick([dict(col="nope"), dict(doc="nope")]))
        self.add(op="incremental", **self.q4(0), rows=rows)
    def o_aggregate(self):
        r = self.r; t = r.choice(["count", "sum", "avg", "min", "max", "group_by"]); group = r.choice([[], [], ["cat"], ["type"], ["cat", "type"]])
        if t == "group_by" and not group: group = ["cat"]
        field = "price" if t in ("sum", "avg", "min", "max") else r.choice(["", "cat"])
        if r.random() < .03: t = r.choice(["bogus", "sum"]); field = ""
        filters = [[f, self.tv(f)] for f in r.sample(["cat", "type", "price"] + ["serial"] * self.rich, r.choice([0, 0, 1, 2]))]
        having = [] if not group or r.random() < .6 else [[h, r.randint(1, 3)] for h in r.choice([["count"], ["agg_value"], ["count", "agg_value"]])]
        self.add(op="aggregate", type=t, field=field, group=group, filters=filters, col=self.scope(), having=having,
                 order=r.choice(["", "count", "agg_value"]) if group else "", limit=r.choice([0, 0, 1, 2]) if group else 0)
    def facet(self, f, depth=1):
        r = self.r; nil = dict(t="nil", s=""); c = dict(type="", vals=[], min=nil, max=nil, pat="", nested=[], oper="")
        c["type"] = r.choice(["equals", "in", "range", "contains", "prefix", "exists", "equals"] + (["nested"] if depth else []))
        if c["type"] == "equals" and r.random() < .9: c["vals"] = [self.tv(f)]
        elif c["type"] == "in": c["vals"] = [self.tv(f) for _ in range(r.choice([0, 1, 2, 3]))]
        elif c["type"] == "range":
            if r.random() < .7: c["min"] = self.tv(f)
            if r.random() < .7: c["max"] = self.tv(f)
        elif c["type"] in ("contains", "prefix"): c["pat"] = r.choice(vocab.SUBS + [""])
        elif c["type"] == "nested":
            c["nested"] = [self.facet(f, 0) for _ in range(r.choice([1, 2]))]; c["oper"] = r.choice(["AND", "OR", "NOT", ""])
        return c
    def o_facets(self):
        fs = [[f, self.facet(f)] for f in self.r.sample(["cat", "price", "type", "lang"], self.r.choice([0, 1, 1, 2]))]
        self.add(op="facets", **self.q4(), fs=fs, want=self.r.random() < .6, lim=self.r.choice([0, 1, 2, 10]))
    def o_rerank(self):
        r = self.r; kind = r.choice(["none", "norm", "keyword", "custom", "hybrid", "rrf", "mmr"])
        par = {"none": [0], "norm": r.choice([[0, 1000], [100, 900]]), "keyword": [r.choice([100, 500, 2000])], "custom": [0], "hybrid": [500, r.choice([300, 1000]), r.choice([700, 1000])], "rrf": [0], "mmr": [r.choice([100, 500, 900])]}[kind]
        thr = r.choice([0, 0, 313, 707]) if kind in ("keyword", "custom", "hybrid") else 0
        self.add(op="rerank", q=self.vec(zero=0), terms=[self.pick(self.words) for _ in range(r.choice([1, 2, 3]))], kind=kind, par=par, k=r.choice([0, 1, 2, 3, 20]), thr=thr)
    def o_diverse(self):
        r = self.r; self.add(op="diverse", **self.q4(), method=r.choice(["mmr", "mmr", "", "distance", "distance", "random", "dpp"]), lam=r.choice([0, 100, 500, 901, 1000]), mind=r.choice([0, 307, 701, 1103]))
    def o_negatives(self):
        r = self.r; d = self.q4(0); del d["q"]; d["thr"] = 0
        self.add(op="negatives", **d, pos=[self.vec() for _ in range(r.choice([1, 1, 2]))], neg=[self.vec() for _ in range(r.choice([0, 1, 2]))], w=r.choice([0, 300, 500, 1000, 2000]))
    def o_recommend(self):
        r = self.r; d = self.q4(0); del d["q"]; d["thr"] = 0
        self.add(op="recommend", **d, pos=[self.aid() for _ in range(r.choice([1, 2]))], neg=[self.aid() for _ in range(r.choice([0, 1]))])
    def o_anomalies(self): self.add(op="anomalies", k=self.r.choice([0, 1, 2, 20]), col=self.scope(), filt=self.filt())
    ENT = ["e1", "e2", "e3"]; ODDENT = (["e1", "E1", "e%"], ["it's", 'q"o', "a_b"], ["x", "x ", "R&D"], ["1", "01", "äö"]); FLD = ["body", "img", "title"]
    def o_mv_put(self, bad=.08):
        r = self.r; fs = sorted(r.sample(self.FLD, r.choice([1, 2, 2, 3])))
        fields = [[f, self.badvec() if r.random() < bad else self.vec()] for f in fs]
        if r.random() < .04: fields = []
        meta = sorted({k: self.pick(v) for k, v in (("cat", "xyz"), ("kind", ["t1", "t2", ""]), ("type", ["t1", ""])) if r.random() < .5}.items())
        self.add(op="mv_put", e=dict(id=self.pick(self.ENT), fields=fields, meta=[list(x) for x in meta], txt=self.txt()))
    def o_mv_del(self): self.add(op="mv_del", id=self.pick(self.ENT))
    def o_mv_get(self): self.add(op="mv_get", id=self.pick(self.ENT))
    def o_mv_search(self):
        r = self.r; qs = [[f, self.vec()] for f in sorted(r.sample(self.FLD, r.choice([1, 1, 2, 3])))]
        self.add(op="mv_search", qs=qs, fields=r.choice([[], [], ["title"], ["body", "img"]]), weights=[[f, r.choice([500, 1000, 2000, 0, -1000])] for f in r.sample(self.FLD, r.choice([0, 1, 2]))],
                 agg=r.choice(["max", "min", "sum", "average", "weighted", ""]), k=r.choice([0, 1, 2, 10]), col=r.choice(["", "", "default", "c1"]), filt=[] if r.random() < .7 else [["cat", self.pick("xyz")]], thr=r.choice([0, 0, 313, 701]))
    def o_faulty_mv(self):
        self.o_mv_put(0); e = self.ops.pop()["e"]
        if not e["fields"]: return
        k = self.r.choice(["ins", "del"]); self.add(op="fault", kind=k, id=e["id"] + "___" + self.pick(self.FLD))
        self.add(op="mv_put", e=e) if self.r.random() < .7 else self.add(op="mv_del", id=e["id"])
        self.o_snap(); self.add(op="faults_off")
    def o_faulty_filter(self):
        self.add(op="fault", kind="del", id=self.aid()); self.add(op="delete_by_filter", f=self.built()); self.o_snap(); self.o_fullsearch(); self.add(op="faults_off")

def respell(ops, r):
    """the same program with metadata fields that are spelled awkwardly"""
    names = dict(zip(["cat", "price", "lang"], r.sample(["a.b", "it's", "x-y", "ключ", 'q"o', "1", "order", "$k", "a[0]", "A B", "Cat"], 3)))
    def go(x, key=""):
        if isinstance(x, dict): return {k: "" if k == "pre_s" else go(v, k) for k, v in x.items()}
        if isinstance(x, list):
            y = [go(v) for v in x]
            return sorted(y) if key == "meta" else y
        return names.get(x, x) if isinstance(x, str) else x
    return go(ops)
