package main

import (
	"bytes"
	"context"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// typed value {t,s}
func tval(v any) any {
	o := obj(v)
	s := str(o["s"])
	switch str(o["t"]) {
	case "n":
		f, err := strconv.ParseFloat(s, 64)
		must(err)
		return f
	case "i":
		n, err := strconv.Atoi(s)
		must(err)
		return n
	case "b":
		return s == "true"
	case "nil":
		return nil
	}
	return s
}
func tvals(v any) []any {
	out := []any{}
	for _, x := range arr(v) {
		out = append(out, tval(x))
	}
	return out
}

func filterIn(v any) *core.FilterExpression {
	o := obj(v)
	op := str(o["op"])
	if o == nil || op == "none" || op == "" {
		return nil
	}
	f := &core.FilterExpression{Operator: core.FilterOperator(op), Field: str(o["f"])}
	for _, k := range arr(o["kids"]) {
		f.Children = append(f.Children, filterIn(k))
	}
	vs := arr(o["v"])
	switch op {
	case "IN", "BETWEEN":
		f.Value = tvals(o["v"])
		if boolean(o["typed"]) { // a slice of a concrete type
			ss := []string{}
			for _, x := range vs {
				ss = append(ss, str(obj(x)["s"]))
			}
			f.Value = ss
		}
	case "REGEX":
		lit := regexp.QuoteMeta(str(obj(vs[0])["s"]))
		switch str(obj(vs[0])["t"]) {
		case "prefix":
			f.Value = "^" + lit
		case "suffix":
			f.Value = lit + "$"
		case "contains":
			f.Value = lit
		case "full":
			f.Value = "^(" + lit + ")$"
		default:
			f.Value = "(["
		}
	default:
		if len(vs) > 0 {
			f.Value = tval(vs[0])
		}
	}
	return f
}

// builderIn builds the same filter through the MetadataFilter builder (NOT only around IN)
func builderIn(v any) *core.MetadataFilter {
	o := obj(v)
	m := core.NewMetadataFilter()
	f := str(o["f"])
	vs := tvals(o["v"])
	kids := arr(o["kids"])
	switch str(o["op"]) {
	case "AND":
		for _, k := range kids {
			m.And(builderIn(k))
		}
	case "OR":
		for _, k := range kids {
			m.Or(builderIn(k))
		}
	case "NOT":
		in := obj(kids[0])
		m.NotIn(str(in["f"]), tvals(in["v"])...)
	case "=":
		m.Equal(f, vs[0])
	case "!=":
		m.NotEqual(f, vs[0])
	case ">":
		m.GreaterThan(f, vs[0])
	case ">=":
		m.GreaterThanOrEqual(f, vs[0])
	case "<":
		m.LessThan(f, vs[0])
	case "<=":
		m.LessThanOrEqual(f, vs[0])
	case "BETWEEN":
		m.Between(f, vs[0], vs[1])
	case "IN":
		if boolean(o["typed"]) {
			ss := []string{}
			for _, x := range arr(o["v"]) {
				ss = append(ss, str(obj(x)["s"]))
			}
			m.StringIn(f, ss...)
		} else {
			m.In(f, vs...)
		}
	case "LIKE":
		m.Like(f, fmt.Sprint(vs[0]))
	}
	return m
}

func facetIn(v any) core.FacetFilter {
	o := obj(v)
	f := core.FacetFilter{Type: core.FacetFilterType(str(o["type"])), Values: tvals(o["vals"]), Min: tval(o["min"]), Max: tval(o["max"]), Pattern: str(o["pat"]), Operator: core.LogicalOperator(str(o["oper"]))}
	if len(f.Values) == 0 {
		f.Values = nil
	}
	for _, n := range arr(o["nested"]) {
		f.Nested = append(f.Nested, facetIn(n))
	}
	return f
}

// hitsScaled reports scores in units of 1/scale
func hitsScaled(rs []core.ScoredEmbedding, scale float64) []any {
	out := hitsOut(rs)
	for i := range rs {
		out[i].(M)["s"] = int(rs[i].Score*scale + 0.5)
	}
	return out
}

func streamOut(ch <-chan core.StreamingResult, after int, cancel func(), slow bool) ([]any, bool) {
	out := []any{}
	dead := time.After(10 * time.Second)
	for {
		if after >= 0 && len(out) >= after {
			cancel()
			after = -1
		}
		select {
		case r, ok := <-ch:
			if !ok {
				return out, true
			}
			m := embOut(&r.Embedding)
			m["s"] = milli(r.Score)
			m["b"] = r.BatchID
			out = append(out, m)
			if slow { // a caller that takes longer than the latency it asked for
				time.Sleep(4 * time.Millisecond)
			}
		case <-dead:
			return out, false
		}
	}
}

func rerankerOf(kind string, par []any) core.Reranker {
	p := func(i int) float64 { return float64(num(par[i])) / 1000 }
	custom := core.NewCustomReranker(func(_ context.Context, _ string, r core.ScoredEmbedding) float64 {
		return float64(len(strings.Fields(r.Content)))
	})
	switch kind {
	case "norm":
		return core.NewScoreNormalizationReranker(p(0), p(1))
	case "keyword":
		return core.NewKeywordMatchReranker(p(0))
	case "rrf":
		return core.NewReciprocalRankFusionReranker(60)
	case "custom":
		return custom
	case "hybrid":
		return core.NewHybridReranker([]core.Reranker{core.NewKeywordMatchReranker(p(0)), custom}, []float64{p(1), p(2)})
	}
	return nil
}

func parseDump(fmtName string, b []byte) []any {
	out := []any{}
	switch fmtName {
	case "json":
		var d struct{ Embeddings []*core.Embedding }
		must(json.Unmarshal(b, &d))
		for _, e := range d.Embeddings {
			out = append(out, embOut(e))
		}
	case "jsonl":
		dec := json.NewDecoder(bytes.NewReader(b))
		for dec.More() {
			var e core.Embedding
			must(dec.Decode(&e))
			out = append(out, embOut(&e))
		}
	case "csv":
		recs, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
		must(err)
		for i, r := range recs {
			if i == 0 {
				continue
			}
			e := core.Embedding{ID: r[0], Content: r[1], DocID: r[2]}
			if r[3] != "" {
				must(json.Unmarshal([]byte(r[3]), &e.Metadata))
			}
			if len(r) > 4 {
				must(json.Unmarshal([]byte(r[4]), &e.Vector))
			}
			out = append(out, embOut(&e))
		}
	}
	return out
}

func snapOf(s *core.SQLiteStore) (rows []any, docs, cols []string) {
	q := func(sql string) []string {
		r, err := s.GetDB().Query(sql)
		must(err)
		defer r.Close()
		out := []string{}
		for r.Next() {
			var id string
			must(r.Scan(&id))
			out = append(out, id)
		}
		return out
	}
	rows = []any{}
	for _, id := range q("SELECT id FROM embeddings ORDER BY id") {
		e, err := s.GetByID(bg, id)
		if err == nil {
			rows = append(rows, embOut(e))
		}
	}
	return rows, q("SELECT id FROM documents"), q("SELECT name FROM collections")
}

func init() {
	S := func(e *env) *core.SQLiteStore { return e.core.s }
	reg("train_quant", func(e *env, op M) M { return res(S(e).TrainQuantizer(bg)) })
	// export the index, then import it again
	reg("swap_index", func(e *env, op M) M {
		p := filepath.Join(e.dir, "idx.bin")
		if err := S(e).ExportIndex(bg, p); err != nil {
			return res(err)
		}
		return res(S(e).ImportIndex(bg, p))
	})
	reg("adv_search", func(e *env, op M) M {
		o := core.AdvancedSearchOptions{SearchOptions: searchOpts(op), PreFilter: filterIn(op["pre"]), PostFilter: filterIn(op["post"])}
		if s := str(op["pre_s"]); s != "" {
			f, err := core.ParseFilterString(s)
			if err != nil {
				return withRes(res(err), "res", []any{})
			}
			o.PreFilter = f
		}
		rs, err := S(e).SearchWithAdvancedFilter(bg, vec(op["q"]), o)
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("filter_search", func(e *env, op M) M {
		mf := map[string]interface{}{}
		for _, p := range arr(op["mf"]) {
			mf[str(arr(p)[0])] = tval(arr(p)[1])
		}
		rs, err := S(e).SearchWithFilter(bg, vec(op["q"]), searchOpts(op), mf)
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("delete_by_filter", func(e *env, op M) M { return res(S(e).DeleteByFilter(bg, builderIn(op["f"]))) })
	dumpOpts := func(op M) core.DumpOptions {
		o := core.DefaultDumpOptions()
		o.Format = core.DumpFormat(str(op["fmt"]))
		o.IncludeVectors = op["bare"] != true
		if str(obj(op["f"])["op"]) != "none" {
			o.Filter = builderIn(op["f"])
		}
		return o
	}
	reg("dump", func(e *env, op M) M {
		p := filepath.Join(e.dir, "dump")
		st, err := S(e).DumpToFile(bg, p, dumpOpts(op))
		m := withRes(res(err), "rows", []any{})
		m["n"] = 0
		if err == nil {
			m["n"] = st.TotalEmbeddings
			b, err := os.ReadFile(p)
			must(err)
			m["rows"] = parseDump(str(op["fmt"]), b)
		}
		return m
	})
	// dump, load into an empty store, and report what that store holds
	reg("restore", func(e *env, op M) M {
		var buf bytes.Buffer
		m := M{"rows": []any{}, "n": 0}
		if _, err := S(e).Dump(bg, &buf, dumpOpts(op)); err != nil {
			for k, v := range res(err) {
				m[k] = v
			}
			return m
		}
		p := filepath.Join(e.dir, fmt.Sprintf("restored%d.db", time.Now().UnixNano()))
		c := coreConfig(p, obj(op["cfg"]))
		t, err := core.NewWithConfig(c)
		must(err)
		must(t.Init(bg))
		defer t.Close()
		lo := core.DefaultLoadOptions()
		lo.Format = core.DumpFormat(str(op["fmt"]))
		st, err := t.Load(bg, &buf, lo)
		for k, v := range res(err) {
			m[k] = v
		}
		if err == nil {
			m["n"] = st.TotalEmbeddings
			m["rows"], _, _ = snapOf(t)
		}
		return m
	})
	// load hand-written rows into this store
	reg("load", func(e *env, op M) M {
		var buf bytes.Buffer
		embs := []*core.Embedding{}
		for _, r := range arr(op["rows"]) {
			embs = append(embs, embIn(r))
		}
		f := str(op["fmt"])
		if f == "json" {
			must(json.NewEncoder(&buf).Encode(M{"metadata": M{}, "embeddings": embs}))
		} else {
			odd := []string{`{"id":5,"vector":[1]}`, `[1,2]`}[:num(op["odd"])]
			for i, x := range embs {
				if i == len(embs)/2 {
					buf.WriteString(strings.Join(odd, "\n") + "\n")
					odd = nil
				}
				must(json.NewEncoder(&buf).Encode(x))
			}
			buf.WriteString(strings.Join(odd, "\n") + "\n")
		}
		data := buf.String()
		switch str(op["how"]) {
		case "torn":
			data = data + `{"ID":"zz","Vec`
			if f == "json" {
				data = buf.String()[:buf.Len()/2]
			}
		case "garbage":
			data = data + "@@@"
			if f == "json" {
				data = "@@@"
			}
		}
		lo := core.LoadOptions{Format: core.DumpFormat(f), SkipExisting: boolean(op["skip"]), Replace: !boolean(op["skip"]), Upsert: true}
		st, err := S(e).Load(bg, strings.NewReader(data), lo)
		m := res(err)
		m["n"], m["failed"], m["skipped"] = 0, 0, 0
		if st != nil {
			m["n"], m["failed"], m["skipped"] = st.TotalEmbeddings, st.FailedCount, st.SkippedCount
		}
		return m
	})
	reg("backup", func(e *env, op M) M {
		p := filepath.Join(e.dir, fmt.Sprintf("backup%d.db", time.Now().UnixNano()))
		err := S(e).Backup(bg, p)
		m := res(err)
		m["rows"], m["docs"], m["cols"], m["kw"] = []any{}, []any{}, []any{}, []any{}
		if err != nil {
			return m
		}
		t, err := core.NewWithConfig(coreConfig(p, obj(op["cfg"])))
		must(err)
		must(t.Init(bg))
		defer t.Close()
		rows, docs, cols := snapOf(t)
		m["rows"], m["docs"], m["cols"] = rows, list(docs), list(cols)
		kw := []any{}
		for _, w := range strs(op["words"]) {
			rs, err := t.HybridSearch(bg, nil, w, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 100}})
			must(err)
			ids := []any{}
			for _, r := range rs {
				ids = append(ids, r.ID)
			}
			kw = append(kw, []any{w, ids})
		}
		m["kw"] = kw
		return m
	})
	reg("acl_search", func(e *env, op M) M {
		rs, err := S(e).SearchWithACL(bg, vec(op["q"]), strs(op["acl"]), searchOpts(op))
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("range", func(e *env, op M) M {
		rs, err := S(e).RangeSearch(bg, vec(op["q"]), float32(num(op["r"]))/1000, searchOpts(op))
		return withRes(res(err), "res", hitsOut(rs))
	})
	vecs := func(v any) [][]float32 {
		out := [][]float32{}
		for _, x := range arr(v) {
			out = append(out, vec(x))
		}
		return out
	}
	reg("brange", func(e *env, op M) M {
		rss, err := S(e).BatchRangeSearch(bg, vecs(op["qs"]), float32(num(op["r"]))/1000, searchOpts(op))
		out := []any{}
		for _, rs := range rss {
			out = append(out, hitsOut(rs))
		}
		return withRes(res(err), "res", out)
	})
	reg("hybrid", func(e *env, op M) M {
		rs, err := S(e).HybridSearch(bg, vec(op["q"]), str(op["raw"]), core.HybridSearchOptions{SearchOptions: searchOpts(op)})
		return withRes(res(err), "res", hitsScaled(rs, 1e8))
	})
	streamOpts := func(op M) core.StreamingOptions {
		latency := 5 * time.Second
		if boolean(op["slow"]) {
			latency = time.Millisecond
		}
		return core.StreamingOptions{SearchOptions: searchOpts(op), BatchSize: num(op["batch"]), MaxLatency: latency,
			EarlyTerminate: boolean(op["early"]), QualityThreshold: float64(num(op["qthr"])) / 1000}
	}
	reg("stream", func(e *env, op M) M {
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		ch, err := S(e).StreamSearch(ctx, vec(op["q"]), streamOpts(op))
		m := res(err)
		m["res"], m["ended"] = []any{}, true
		if err == nil {
			m["res"], m["ended"] = streamOut(ch, num(op["cancel"]), cancel, boolean(op["slow"]))
		}
		return m
	})
	reg("stream_topk", func(e *env, op M) M {
		ch, err := S(e).StreamSearch(bg, vec(op["q"]), streamOpts(op))
		if err != nil {
			return withRes(res(err), "res", []any{})
		}
		rs, err := core.CollectTopKFromStream(bg, ch, num(op["k"]))
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("stream_merge", func(e *env, op M) M {
		chs, err := S(e).ParallelStreamSearch(bg, vecs(op["qs"]), streamOpts(op))
		m := res(err)
		m["res"], m["ended"] = []any{}, true
		if err == nil {
			m["res"], m["ended"] = streamOut(core.MergeStreamResults(bg, chs...), -1, func() {}, boolean(op["slow"]))
		}
		return m
	})
	reg("incremental", func(e *env, op M) M {
		idx := core.NewIncrementalIndex(S(e))
		var first error
		for _, r := range arr(op["rows"]) {
			err := idx.AddAsync(embIn(r))
			for i := 0; i < 2000 && err != nil && strings.Contains(err.Error(), "full"); i++ {
				time.Sleep(time.Millisecond)
				err = idx.AddAsync(embIn(r))
			}
			if err != nil && first == nil {
				first = err
			}
		}
		rs, err := idx.SearchWithUpdates(bg, vec(op["q"]), searchOpts(op))
		idx.Close()
		if err == nil {
			err = first
		}
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("aggregate", func(e *env, op M) M {
		rq := core.AggregationRequest{Type: core.AggregationType(str(op["type"])), Field: str(op["field"]), GroupBy: strs(op["group"]),
			Collection: str(op["col"]), OrderBy: str(op["order"]), Limit: num(op["limit"])}
		if len(arr(op["filters"])) > 0 {
			rq.Filters = map[string]interface{}{}
			for _, p := range arr(op["filters"]) {
				rq.Filters[str(arr(p)[0])] = tval(arr(p)[1])
			}
		}
		if len(arr(op["having"])) > 0 {
			rq.Having = map[string]interface{}{}
			for _, p := range arr(op["having"]) {
				rq.Having[str(arr(p)[0])] = num(arr(p)[1])
			}
		}
		r, err := S(e).Aggregate(bg, rq)
		out := []any{}
		if err == nil {
			for _, x := range r.Results {
				keys := []any{}
				for _, g := range rq.GroupBy {
					switch k := x.GroupKeys[g].(type) {
					case nil:
						keys = append(keys, "~none")
					case float64:
						keys = append(keys, strconv.FormatFloat(k, 'f', -1, 64))
					default:
						keys = append(keys, fmt.Sprint(k))
					}
				}
				v := 2000000001
				switch y := x.Value.(type) {
				case float64:
					v = milli(y)
				case int:
					v = y * 1000
				}
				out = append(out, M{"keys": keys, "v": v, "n": x.Count})
			}
		}
		return withRes(res(err), "res", out)
	})
	reg("facets", func(e *env, op M) M {
		o := core.FacetedSearchOptions{SearchOptions: searchOpts(op), Facets: map[string]core.FacetFilter{}, ReturnFacets: boolean(op["want"]), MaxFacetValues: num(op["lim"])}
		for _, p := range arr(op["fs"]) {
			o.Facets[str(arr(p)[0])] = facetIn(arr(p)[1])
		}
		rs, frs, err := S(e).SearchWithFacets(bg, vec(op["q"]), o)
		out := []any{}
		for _, f := range frs {
			vals := []any{}
			ks := []string{}
			for k := range f.Values {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				vals = append(vals, []any{k, f.Values[k]})
			}
			out = append(out, M{"f": f.Field, "vals": vals, "total": f.Total})
		}
		m := withRes(res(err), "res", hitsOut(rs))
		m["frs"] = out
		return m
	})
	reg("rerank", func(e *env, op M) M {
		kind := str(op["kind"])
		r := rerankerOf(kind, arr(op["par"]))
		if kind == "mmr" {
			r = core.NewDiversityReranker(float64(num(arr(op["par"])[0]))/1000, S(e).GetSimilarityFunc())
		}
		rs, err := S(e).SearchWithReranker(bg, vec(op["q"]), text(op["terms"]), r, core.RerankOptions{TopK: num(op["k"]), Threshold: float64(num(op["thr"])) / 1000})
		if kind == "rrf" {
			return withRes(res(err), "res", hitsScaled(rs, 1e8))
		}
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("diverse", func(e *env, op M) M {
		rs, err := S(e).SearchWithDiversity(bg, vec(op["q"]), core.DiversitySearchOptions{SearchOptions: searchOpts(op), Method: core.DiversityMethod(str(op["method"])),
			Lambda: float32(num(op["lam"])) / 1000, MinDistance: float32(num(op["mind"])) / 1000})
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("negatives", func(e *env, op M) M {
		rs, err := S(e).SearchWithNegatives(bg, core.NegativeSearchOptions{PositiveVectors: vecs(op["pos"]), NegativeVectors: vecs(op["neg"]), NegativeWeight: float32(num(op["w"])) / 1000, SearchOptions: searchOpts(op)})
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("recommend", func(e *env, op M) M {
		rs, err := S(e).RecommendSimilar(bg, strs(op["pos"]), strs(op["neg"]), searchOpts(op))
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("anomalies", func(e *env, op M) M {
		rs, err := S(e).FindAnomalies(bg, searchOpts(op))
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("mv_put", func(e *env, op M) M {
		o := obj(op["e"])
		x := &core.MultiVectorEntity{ID: str(o["id"]), Content: text(o["txt"]), Vectors: map[string][]float32{}, Metadata: map[string]interface{}{}}
		for _, p := range arr(o["fields"]) {
			x.Vectors[str(arr(p)[0])] = vec(arr(p)[1])
		}
		for k, v := range metaIn(o["meta"]) {
			x.Metadata[k] = v
		}
		return res(S(e).UpsertMultiVector(bg, x))
	})
	reg("mv_del", func(e *env, op M) M { return res(S(e).DeleteMultiVectorEntity(bg, str(op["id"]))) })
	reg("mv_get", func(e *env, op M) M {
		x, err := S(e).GetMultiVectorEntity(bg, str(op["id"]))
		m := res(err)
		m["e"] = M{"id": ""}
		if err == nil {
			fs := []any{}
			ks := []string{}
			for k := range x.Vectors {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fs = append(fs, []any{k, ivec(x.Vectors[k])})
			}
			m["e"] = M{"id": x.ID, "txt": words(x.Content), "fields": fs, "meta": anyMeta(x.Metadata)}
		}
		return m
	})
	reg("mv_search", func(e *env, op M) M {
		qs := map[string][]float32{}
		for _, p := range arr(op["qs"]) {
			qs[str(arr(p)[0])] = vec(arr(p)[1])
		}
		o := core.MultiVectorSearchOptions{SearchOptions: searchOpts(op), VectorFields: strs(op["fields"]), Aggregation: core.AggregationMethod(str(op["agg"])), FieldWeights: map[string]float32{}}
		for _, p := range arr(op["weights"]) {
			o.FieldWeights[str(arr(p)[0])] = float32(num(arr(p)[1])) / 1000
		}
		rs, err := S(e).SearchMultiVector(bg, qs, o)
		return withRes(res(err), "res", hitsOut(rs))
	})
}
