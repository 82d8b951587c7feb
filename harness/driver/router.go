package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	sr "github.com/liliang-cn/cortexdb/v2/pkg/semantic-router"
)

// lexicon embeds texts by table; it can be told to fail.
type lexicon struct {
	dim   int
	dense map[string][]float32
	terms map[string]map[string]float64
	fault string // "", "batch": EmbedBatch fails, "all": everything fails, or the one text that fails
}

var errLex = errors.New("lexicon fault")

func (x *lexicon) Embed(_ context.Context, t string) ([]float32, error) {
	if x.fault == "all" || x.fault == t {
		return nil, errLex
	}
	return append([]float32(nil), x.dense[t]...), nil
}
func (x *lexicon) EmbedBatch(c context.Context, ts []string) ([][]float32, error) {
	if x.fault == "batch" {
		return nil, errLex
	}
	out := make([][]float32, len(ts))
	for i, t := range ts {
		v, err := x.Embed(c, t)
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}
func (x *lexicon) Dimensions() int                          { return x.dim }
func (x *lexicon) EncodeSparse(t string) map[string]float64 { return x.terms[t] }
func (x *lexicon) Vocabulary() []string                     { return nil }
func (x *lexicon) EncodeSparseBatch(ts []string) []map[string]float64 {
	out := make([]map[string]float64, len(ts))
	for i, t := range ts {
		out[i] = x.terms[t]
	}
	return out
}

type routerEnv struct {
	lex    *lexicon
	r      *sr.Router
	sp     *sr.SparseRouter
	h      *sr.HybridRouter
	store  *core.SQLiteStore
	opts   []sr.ConfigOption
	e      *env
	opened M
	fr     *sr.FunctionRouter
}

func (r *routerEnv) Close() error {
	if r.store != nil {
		return r.store.Close()
	}
	return nil
}

func simFn(s string) core.SimilarityFunc {
	switch s {
	case "dot":
		return core.DotProduct
	case "euclid":
		return core.EuclideanDist
	}
	return core.CosineSimilarity
}

func routeHandler(kind, name string) sr.RouteHandler {
	return func(context.Context, string, float64) (string, error) { return kind + name, nil }
}
func handled(m M, h sr.RouteHandler) {
	m["h"], m["hk"] = "", ""
	if h != nil {
		x, _ := h(bg, "", 0)
		m["hk"], m["h"] = x[:1], x[1:]
	}
}
func routeIn(v any) *sr.Route {
	m := obj(v)
	return &sr.Route{Name: str(m["name"]), Utterances: strs(m["utts"]), Handler: routeHandler("d", str(m["name"]))}
}
func sparseIn(v any) *sr.SparseRoute {
	m := obj(v)
	return &sr.SparseRoute{Name: str(m["name"]), Utterances: strs(m["utts"]), Handler: routeHandler("s", str(m["name"]))}
}
func routeOut(m M, x *sr.RouteResult, err error) M {
	m["name"], m["s"], m["matched"], m["h"], m["hk"] = "", 0, false, "", ""
	if err == nil {
		handled(m, x.Handler)
		m["name"], m["s"], m["matched"] = x.RouteName, milli(x.Score), x.Matched
	}
	return m
}
func hybOut(m M, x *sr.HybridRouteResult, err error) M {
	m["name"], m["s"], m["matched"], m["ds"], m["ss"], m["h"], m["hk"] = "", 0, false, 0, 0, "", ""
	if err == nil {
		handled(m, x.Handler)
		m["name"], m["s"], m["matched"], m["ds"], m["ss"] = x.RouteName, milli(x.CombinedScore), x.Matched, milli(x.DenseScore), milli(x.SparseScore)
		if x.Score != x.CombinedScore {
			m["s"] = 777777
		}
	}
	return m
}

func init() {
	R := func(e *env) *routerEnv { return e.extra["router"].(*routerEnv) }
	openStore := func(re *routerEnv, c M) error {
		cfg := core.DefaultConfig()
		cfg.Path, cfg.VectorDim, cfg.SimilarityFn = re.e.pathOf("r"), num(c["dim"]), core.CosineSimilarity
		cfg.HNSW.Enabled = str(c["index"]) == "hnsw"
		if str(c["index"]) == "hnsw" {
			cfg.IndexType = core.IndexTypeHNSW
		}
		s, err := core.NewWithConfig(cfg)
		if err != nil {
			return err
		}
		if err := s.Init(bg); err != nil {
			return err
		}
		re.store = s
		return nil
	}
	domains["router"] = func(e *env, op M) M {
		c := obj(op["cfg"])
		re := &routerEnv{e: e, opened: c}
		re.lex = &lexicon{dim: num(c["dim"]), dense: map[string][]float32{}, terms: map[string]map[string]float64{}}
		for _, x := range arr(op["lex"]) {
			p := obj(x)
			re.lex.dense[str(p["t"])] = vec(p["v"])
			w := map[string]float64{}
			for i, f := range vec(p["w"]) {
				if f != 0 {
					w[string(rune('a'+i))] = float64(f)
				}
			}
			re.lex.terms[str(p["t"])] = w
		}
		re.opts = []sr.ConfigOption{sr.WithThreshold(float64(num(c["thr"])) / 1000), sr.WithSimilarityFunc(simFn(str(c["sim"]))), sr.WithCacheEmbeddings(c["cache"] == true)}
		e.extra["router"] = re
		var err error
		switch str(c["kind"]) {
		case "mem":
			re.r, err = sr.NewRouter(re.lex, re.opts...)
		case "store":
			if err = openStore(re, c); err == nil {
				re.r, err = sr.NewRouterWithStore(re.store, re.lex, re.opts...)
			}
		case "sparse":
			re.sp, err = sr.NewSparseRouter(re.lex, sr.WithSparseThreshold(float64(num(c["sthr"]))/1000))
		case "hybrid":
			re.h, err = sr.NewHybridRouter(re.lex, re.lex, sr.WithHybridAlpha(float64(num(c["alpha"]))/1000), sr.WithHybridThreshold(float64(num(c["hthr"]))/1000),
				sr.WithDenseThreshold(float64(num(c["thr"]))/1000), sr.WithHybridSparseThreshold(float64(num(c["sthr"]))/1000), sr.WithHybridSimilarityFunc(simFn(str(c["sim"]))))
		}
		return res(err)
	}
	reg("r_fault", func(e *env, op M) M { R(e).lex.fault = str(op["fault"]); return M{"ok": true, "err": ""} })
	reg("r_add", func(e *env, op M) M {
		re := R(e)
		switch {
		case re.r != nil:
			return res(re.r.Add(routeIn(op["r"])))
		case re.sp != nil:
			return res(re.sp.Add(sparseIn(op["r"])))
		}
		return res(re.h.Add(routeIn(op["r"]), sparseIn(op["sp"])))
	})
	reg("r_add_batch", func(e *env, op M) M {
		re := R(e)
		rs, ss := []*sr.Route{}, []*sr.SparseRoute{}
		for _, x := range arr(op["rs"]) {
			rs = append(rs, routeIn(x))
		}
		for _, x := range arr(op["sps"]) {
			ss = append(ss, sparseIn(x))
		}
		if re.r != nil {
			return res(re.r.AddBatch(rs))
		}
		return res(re.h.AddBatch(rs, ss))
	})
	reg("r_add_nil", func(e *env, op M) M {
		re := R(e)
		switch {
		case re.r != nil && op["batch"] == true:
			return res(re.r.AddBatch([]*sr.Route{nil}))
		case re.r != nil:
			return res(re.r.Add(nil))
		case re.sp != nil:
			return res(re.sp.Add(nil))
		}
		return res(re.h.AddBatch([]*sr.Route{nil}, nil))
	})
	reg("r_remove", func(e *env, op M) M { return res(R(e).r.Remove(str(op["name"]))) })
	reg("r_route", func(e *env, op M) M {
		re := R(e)
		switch {
		case re.r != nil:
			x, err := re.r.Route(bg, str(op["q"]))
			return routeOut(res(err), x, err)
		case re.sp != nil:
			x, err := re.sp.Route(bg, str(op["q"]))
			return routeOut(res(err), x, err)
		}
		x, err := re.h.Route(bg, str(op["q"]))
		return hybOut(res(err), x, err)
	})
	reg("r_routes", func(e *env, op M) M {
		re := R(e)
		out := []any{}
		var err error
		if re.r != nil {
			var xs []*sr.RouteResult
			xs, err = re.r.RouteBatch(bg, strs(op["qs"]))
			for _, x := range xs {
				out = append(out, routeOut(M{}, x, nil))
			}
		} else {
			var xs []*sr.HybridRouteResult
			xs, err = re.h.RouteBatch(bg, strs(op["qs"]))
			for _, x := range xs {
				out = append(out, hybOut(M{}, x, nil))
			}
		}
		return withRes(res(err), "res", out)
	})
	reg("r_list", func(e *env, op M) M {
		re := R(e)
		var ns []string
		switch {
		case re.r != nil:
			ns = re.r.List()
		case re.sp != nil:
			ns = re.sp.List()
		default:
			ns = re.h.List()
		}
		sort.Strings(ns)
		return M{"ok": true, "err": "", "names": list(ns)}
	})
	reg("r_get", func(e *env, op M) M {
		x := R(e).r.Get(str(op["name"]))
		m := M{"ok": x != nil, "err": "", "utts": []any{}}
		if x != nil {
			us := append([]string(nil), x.Utterances...)
			sort.Strings(us)
			m["utts"] = list(us)
		}
		return m
	})
	reg("r_stats", func(e *env, op M) M {
		st := R(e).r.Stats()
		return M{"ok": true, "err": "", "n": st["route_count"], "u": st["total_utterances"]}
	})
	reg("r_store", func(e *env, op M) M { // close the store below the router
		return res(R(e).store.Close())
	})
	reg("r_reload", func(e *env, op M) M {
		re := R(e)
		if op["reopen"] == true {
			if boolean(op["crash"]) {
				e.crash("r")
			}
			re.store.Close()
			if err := openStore(re, re.opened); err != nil {
				return res(err)
			}
		}
		r, err := sr.NewRouterWithStore(re.store, re.lex, re.opts...)
		if err == nil {
			re.r, re.fr = r, nil
		}
		return res(err)
	})
	reg("f_add", func(e *env, op M) M {
		re, name, fn := R(e), str(op["name"]), str(op["fn"])
		if re.fr == nil {
			re.fr = sr.NewFunctionRouter(re.r)
		}
		b := sr.NewSchemaBuilder(fn, "")
		if boolean(op["req"]) {
			b.AddParameter("zone", "string", "", true)
		}
		if boolean(op["def"]) {
			b.AddParameterWithDefault("size", "string", "", boolean(op["req"]), "medium")
		}
		b.SetHandler(func(_ context.Context, a map[string]interface{}) (interface{}, error) {
			return fmt.Sprintf("%s/%v/%d", fn, a["size"], len(a)), nil
		})
		return res(re.fr.Add(sr.CreateRouteWithFunction(name, []string{"x"}, b.Build())))
	})
	reg("f_route", func(e *env, op M) M {
		re := R(e)
		if re.fr == nil {
			re.fr = sr.NewFunctionRouter(re.r)
		}
		x, err := re.fr.Route(bg, str(op["q"]))
		m := res(err)
		m["fn"], m["missing"], m["ran"], m["out"], m["args"] = "", []any{}, false, "", []any{}
		if err == nil && x != nil {
			m["fn"], m["missing"], m["args"] = x.Name, list(x.Missing), anyMeta(x.Arguments)
			if x.Complete != (len(x.Missing) == 0) {
				m["fn"] = "incomplete?"
			}
			if o, err := x.Execute(bg); err == nil {
				m["ran"], m["out"] = true, fmt.Sprint(o)
			}
		}
		return m
	})
	reg("f_extract", func(e *env, op M) M {
		b := sr.NewSchemaBuilder("fn", "function")
		for _, x := range arr(op["ps"]) {
			p := obj(x)
			switch {
			case len(arr(p["enum"])) > 0:
				b.AddParameterWithEnum(str(p["n"]), str(p["d"]), boolean(p["req"]), arr(p["enum"]))
			case str(p["def"]) != "":
				b.AddParameterWithDefault(str(p["n"]), str(p["t"]), str(p["d"]), boolean(p["req"]), str(p["def"]))
			default:
				b.AddParameter(str(p["n"]), str(p["t"]), str(p["d"]), boolean(p["req"]))
			}
		}
		args, missing, err := sr.NewRegexExtractor().Extract(bg, text(op["txt"]), b.Build())
		m := res(err)
		sort.Strings(missing)
		m["args"], m["missing"] = anyMeta(args), list(missing)
		return m
	})
	reg("sp_weights", func(e *env, op M) M {
		var enc sr.SparseEncoder
		docs := [][]string{}
		for _, x := range arr(op["fits"]) {
			ds := []string{}
			for _, d := range arr(x) {
				ds = append(ds, text(d))
			}
			docs = append(docs, ds)
		}
		var fit func(context.Context, []string) error
		switch str(op["enc"]) {
		case "bm25":
			b := sr.NewBM25Encoder()
			enc, fit = b, b.Fit
		case "tfidf":
			b := sr.NewTFIDFEncoder()
			enc, fit = b, b.Fit
		}
		for _, ds := range docs {
			must(fit(bg, ds))
		}
		ws := []any{}
		w := enc.EncodeSparse(text(op["txt"]))
		ks := []string{}
		for t := range w {
			ks = append(ks, t)
		}
		sort.Strings(ks)
		for _, t := range ks {
			ws = append(ws, M{"t": t, "w": milli(w[t])})
		}
		voc := append([]string(nil), enc.Vocabulary()...)
		sort.Strings(voc)
		top := []any{}
		for _, t := range sr.TopTerms(w, num(op["k"])) {
			top = append(top, t.Term)
		}
		return M{"ok": true, "err": "", "ws": ws, "voc": list(voc), "top": top}
	})
}
