package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

type graphEnv struct{ g *graph.GraphStore }

func gnodeIn(v any) *graph.GraphNode {
	n := obj(v)
	return &graph.GraphNode{ID: str(n["id"]), Vector: vec(n["vec"]), Content: text(n["txt"]), NodeType: str(n["type"]), Properties: propsIn(n["props"])}
}
func propsIn(v any) map[string]any {
	if len(arr(v)) == 0 {
		return nil
	}
	return anyMetaIn(v)
}
func gedgeIn(v any) *graph.GraphEdge {
	e := obj(v)
	return &graph.GraphEdge{ID: str(e["id"]), FromNodeID: str(e["from"]), ToNodeID: str(e["to"]), EdgeType: str(e["type"]), Weight: weightIn(num(e["w"])),
		Properties: propsIn(e["props"]), Vector: vec(e["vec"])}
}
func gnodeOut(n *graph.GraphNode) M {
	seen(n.CreatedAt, n.UpdatedAt)
	return M{"id": n.ID, "vec": ivec(n.Vector), "txt": words(n.Content), "type": n.NodeType, "props": anyMeta(n.Properties)}
}

// weightIn reads thousandths; one of them stands for a weight with many more decimals
func weightIn(m int) float64 {
	if m == 777 {
		return 0.777000000123
	}
	return float64(m) / 1000
}

// weight in thousandths; a weight that is not a multiple of a thousandth is shown as 888888
func weightOut(w float64) int {
	m := milli(w)
	if weightIn(m) != w {
		return 888888
	}
	return m
}
func gedgeOut(e *graph.GraphEdge) M {
	seen(e.CreatedAt)
	return M{"id": e.ID, "from": e.FromNodeID, "to": e.ToNodeID, "type": e.EdgeType, "w": weightOut(e.Weight), "props": anyMeta(e.Properties), "vec": ivec(e.Vector)}
}
func gnodesIn(v any) []*graph.GraphNode {
	out := []*graph.GraphNode{}
	for _, x := range arr(v) {
		out = append(out, gnodeIn(x))
	}
	return out
}
func gedgesIn(v any) []*graph.GraphEdge {
	out := []*graph.GraphEdge{}
	for _, x := range arr(v) {
		out = append(out, gedgeIn(x))
	}
	return out
}
func gnodesOut(ns []*graph.GraphNode) []any {
	out := []any{}
	for _, n := range ns {
		out = append(out, gnodeOut(n))
	}
	return out
}
func gedgesOut(es []*graph.GraphEdge) []any {
	out := []any{}
	for _, n := range es {
		out = append(out, gedgeOut(n))
	}
	return out
}
func ghitsOut(rs []*graph.HybridResult) []any {
	out := []any{}
	for _, r := range rs {
		out = append(out, M{"node": gnodeOut(r.Node), "v": milli(r.VectorScore), "g": milli(r.GraphScore), "c": milli(r.CombinedScore), "t": milli(r.TotalScore), "d": r.Distance})
	}
	return out
}
func batchOut(r *graph.BatchResult, err error) M {
	m := res(err)
	m["good"], m["bad"] = 0, 0
	if err == nil && r != nil {
		m["good"], m["bad"] = r.SuccessCount, r.FailedCount
	}
	return m
}

func (e *env) openGraph() error {
	g := graph.NewGraphStore(e.core.s)
	e.extra["graph"] = &graphEnv{g: g}
	return g.InitGraphSchema(bg)
}
func wholeGraph(g *graph.GraphStore, m M) {
	ns, err := g.GetAllNodes(bg, nil)
	must(err)
	es := []*graph.GraphEdge{}
	for _, n := range ns {
		x, err := g.GetEdges(bg, n.ID, "out")
		must(err)
		es = append(es, x...)
	}
	m["ns"], m["es"] = gnodesOut(ns), gedgesOut(es)
}

// tempGraph opens an empty graph in a scratch database
func tempGraph(e *env) (*graph.GraphStore, func()) {
	d, err := os.MkdirTemp(e.dir, "g")
	must(err)
	cfg := core.DefaultConfig()
	cfg.Path = filepath.Join(d, "t.db")
	s, err := core.NewWithConfig(cfg)
	must(err)
	must(s.Init(bg))
	g := graph.NewGraphStore(s)
	must(g.InitGraphSchema(bg))
	return g, func() { s.Close(); os.RemoveAll(d) }
}

func init() {
	domains["graph"] = func(e *env, op M) M {
		if err := e.openCore(obj(op["cfg"])); err != nil {
			return res(err)
		}
		return res(e.openGraph())
	}
	afterOpen = append(afterOpen, func(e *env) error {
		if e.extra["graph"] != nil {
			return e.openGraph()
		}
		return nil
	})
	G := func(e *env) *graph.GraphStore { return e.extra["graph"].(*graphEnv).g }
	reg("g_enable", func(e *env, op M) M { return res(G(e).EnableHNSWIndex(num(op["d"]))) })
	reg("g_fault", func(e *env, op M) M {
		kind, id := str(op["kind"]), str(op["id"])
		tab := map[byte]string{'n': "graph_nodes", 'e': "graph_edges"}[kind[0]]
		ev, ref := "INSERT", "NEW"
		if kind[1:] == "del" {
			ev, ref = "DELETE", "OLD"
		}
		_, err := e.core.s.GetDB().Exec(fmt.Sprintf("CREATE TRIGGER IF NOT EXISTS vf_%s_%x BEFORE %s ON %s WHEN %s.id='%s' BEGIN SELECT RAISE(ABORT,'injected fault'); END", kind, id, ev, tab, ref, strings.ReplaceAll(id, "'", "''")))
		must(err)
		return M{"ok": true, "err": ""}
	})
	reg("put", func(e *env, op M) M { return res(G(e).UpsertNode(bg, gnodeIn(op["n"]))) })
	reg("link", func(e *env, op M) M { return res(G(e).UpsertEdge(bg, gedgeIn(op["e"]))) })
	reg("drop", func(e *env, op M) M { return res(G(e).DeleteNode(bg, str(op["id"]))) })
	reg("unlink", func(e *env, op M) M { return res(G(e).DeleteEdge(bg, str(op["id"]))) })
	reg("put_many", func(e *env, op M) M { return batchOut(G(e).UpsertNodesBatch(bg, gnodesIn(op["ns"]))) })
	reg("link_many", func(e *env, op M) M { return batchOut(G(e).UpsertEdgesBatch(bg, gedgesIn(op["es"]))) })
	reg("drop_many", func(e *env, op M) M { return batchOut(G(e).DeleteNodesBatch(bg, strs(op["ids"]))) })
	reg("unlink_many", func(e *env, op M) M { return batchOut(G(e).DeleteEdgesBatch(bg, strs(op["ids"]))) })
	reg("g_batch", func(e *env, op M) M {
		return batchOut(G(e).ExecuteBatch(bg, &graph.BatchGraphOperation{NodeUpserts: gnodesIn(op["ns"]), NodeDeletes: strs(op["nd"]), EdgeUpserts: gedgesIn(op["es"]), EdgeDeletes: strs(op["ed"])}))
	})
	reg("g_get", func(e *env, op M) M {
		n, err := G(e).GetNode(bg, str(op["id"]))
		m := res(err)
		m["n"] = M{"id": ""}
		if err == nil {
			m["n"] = gnodeOut(n)
		}
		return m
	})
	reg("g_edges", func(e *env, op M) M {
		es, err := G(e).GetEdges(bg, str(op["id"]), str(op["dir"]))
		return withRes(res(err), "es", gedgesOut(es))
	})
	reg("g_nodes", func(e *env, op M) M {
		ns, err := G(e).GetNodesBatch(bg, strs(op["ids"]))
		return withRes(res(err), "ns", gnodesOut(ns))
	})
	reg("g_edgeids", func(e *env, op M) M {
		es, err := G(e).GetEdgesBatch(bg, strs(op["ids"]))
		return withRes(res(err), "es", gedgesOut(es))
	})
	reg("g_all", func(e *env, op M) M {
		var f *graph.GraphFilter
		if ts := strs(op["types"]); len(ts) > 0 {
			f = &graph.GraphFilter{NodeTypes: ts}
		}
		ns, err := G(e).GetAllNodes(bg, f)
		return withRes(res(err), "ns", gnodesOut(ns))
	})
	reg("g_whole", func(e *env, op M) M {
		m := M{"ok": true, "err": ""}
		wholeGraph(G(e), m)
		m["es"] = []any{}
		es := []*graph.GraphEdge{}
		if ids := rawIDs(e, "SELECT id FROM graph_edges"); len(ids) > 0 {
			var err error
			es, err = G(e).GetEdgesBatch(bg, ids)
			must(err)
		}
		m["es"] = gedgesOut(es)
		return m
	})
	reg("g_export", func(e *env, op M) M {
		var b bytes.Buffer
		fm := graph.ExportFormat(str(op["fmt"]))
		err := G(e).Export(bg, &b, fm)
		m := res(err)
		m["ns"], m["es"], m["seen"] = []any{}, []any{}, ""
		if err != nil {
			return m
		}
		if f, err := graph.DetectFormat(bytes.NewReader(b.Bytes())); err == nil {
			m["seen"] = string(f)
		}
		t, done := tempGraph(e)
		defer done()
		if err := t.Import(bg, &b, fm); err != nil {
			m["ok"], m["msg"] = false, trim(err.Error(), 160)
			return m
		}
		wholeGraph(t, m)
		return m
	})
	reg("g_import", func(e *env, op M) M {
		t, done := tempGraph(e)
		defer done()
		for _, n := range gnodesIn(op["ns"]) {
			must(t.UpsertNode(bg, n))
		}
		// ends that are missing from the document are there only to let the export name them
		for _, id := range strs(op["ghosts"]) {
			must(t.UpsertNode(bg, &graph.GraphNode{ID: id, Vector: []float32{1}}))
		}
		for _, x := range gedgesIn(op["es"]) {
			must(t.UpsertEdge(bg, x))
		}
		var b bytes.Buffer
		must(t.Export(bg, &b, graph.ExportFormat(str(op["fmt"]))))
		doc := b.Bytes()
		if boolean(op["broken"]) {
			doc = doc[:len(doc)*num(op["cut"])/100]
		}
		return res(G(e).Import(bg, bytes.NewReader(doc), graph.ExportFormat(str(op["fmt"]))))
	})
	trav := func(op M) graph.TraversalOptions {
		return graph.TraversalOptions{MaxDepth: num(op["depth"]), Direction: str(op["dir"]), EdgeTypes: strs(op["ets"]), NodeTypes: strs(op["nts"]), Limit: num(op["lim"])}
	}
	reg("neighbors", func(e *env, op M) M {
		ns, err := G(e).Neighbors(bg, str(op["id"]), trav(op))
		return withRes(res(err), "ns", gnodesOut(ns))
	})
	reg("path", func(e *env, op M) M {
		p, err := G(e).ShortestPath(bg, str(op["a"]), str(op["b"]))
		m := res(err)
		m["ns"], m["es"], m["d"], m["w"] = []any{}, []any{}, 0, 0
		if err == nil {
			m["ns"], m["es"], m["d"], m["w"] = gnodesOut(p.Nodes), gedgesOut(p.Edges), p.Distance, milli(p.Weight)
		}
		return m
	})
	reg("connected", func(e *env, op M) M {
		r, err := G(e).Connected(bg, str(op["a"]), str(op["b"]), num(op["depth"]))
		return withRes(res(err), "r", r)
	})
	reg("subgraph", func(e *env, op M) M {
		r, err := G(e).Subgraph(bg, strs(op["ids"]))
		m := res(err)
		m["ns"], m["es"] = []any{}, []any{}
		if err == nil {
			m["ns"], m["es"] = gnodesOut(r.Nodes), gedgesOut(r.Edges)
		}
		return m
	})
	reg("similar", func(e *env, op M) M {
		rs, err := G(e).SimilarityInGraph(bg, str(op["id"]), core.SearchOptions{TopK: num(op["k"]), Threshold: float64(num(op["thr"])) / 1000})
		return withRes(res(err), "res", ghitsOut(rs))
	})
	reg("g_index", func(e *env, op M) M {
		rs, err := G(e).HNSWSearch(bg, vec(op["q"]), num(op["k"]), float64(num(op["thr"]))/1000)
		return withRes(res(err), "res", ghitsOut(rs))
	})
	reg("g_near", func(e *env, op M) M {
		rs, err := G(e).GraphVectorSearch(bg, str(op["id"]), vec(op["q"]), trav(op))
		return withRes(res(err), "res", ghitsOut(rs))
	})
	filter := func(op M) *graph.GraphFilter {
		if len(arr(op["nts"])) == 0 && len(arr(op["ets"])) == 0 && num(op["depth"]) == 0 {
			return nil
		}
		return &graph.GraphFilter{NodeTypes: strs(op["nts"]), EdgeTypes: strs(op["ets"]), MaxDepth: num(op["depth"])}
	}
	reg("g_hybrid", func(e *env, op M) M {
		ws := arr(op["ws"])
		q := &graph.HybridQuery{Vector: vec(op["q"]), StartNodeID: str(op["start"]), GraphFilter: filter(op), TopK: num(op["k"]), Threshold: float64(num(op["thr"])) / 1000,
			Weights: graph.HybridWeights{VectorWeight: flt(ws[0]) / 1000, GraphWeight: flt(ws[1]) / 1000, EdgeWeight: flt(ws[2]) / 1000}}
		rs, err := G(e).HybridSearch(bg, q)
		return withRes(res(err), "res", ghitsOut(rs))
	})
	reg("g_ihybrid", func(e *env, op M) M {
		q := &graph.HybridQuery{Vector: vec(op["q"]), CenterNodes: strs(op["centers"]), GraphFilter: filter(op), TopK: num(op["k"]),
			VectorThreshold: float64(num(op["vthr"])) / 1000, TotalThreshold: float64(num(op["tthr"])) / 1000, VectorWeight: float64(num(op["vw"])) / 1000, GraphWeight: float64(num(op["gw"])) / 1000}
		rs, err := G(e).HNSWHybridSearch(bg, q)
		return withRes(res(err), "res", ghitsOut(rs))
	})
	reg("g_stats", func(e *env, op M) M {
		s, err := G(e).GetGraphStatistics(bg)
		m := res(err)
		m["n"], m["e"], m["deg"], m["dens"], m["comps"] = 0, 0, 0, 0, 0
		if err == nil {
			m["n"], m["e"], m["deg"], m["dens"], m["comps"] = s.NodeCount, s.EdgeCount, milli(s.AverageDegree), milli(s.Density), s.ConnectedComponents
		}
		return m
	})
	reg("pagerank", func(e *env, op M) M {
		rs, err := G(e).PageRank(bg, num(op["it"]), float64(num(op["damp"]))/100)
		out := []any{}
		for _, r := range rs {
			out = append(out, M{"id": r.NodeID, "s": milli(r.Score * 100)})
		}
		return withRes(res(err), "res", out)
	})
	reg("communities", func(e *env, op M) M {
		cs, err := G(e).CommunityDetection(bg)
		out := []any{}
		for _, c := range cs {
			out = append(out, M{"ids": list(c.Nodes), "s": milli(c.Score)})
		}
		return withRes(res(err), "cs", out)
	})
	reg("predict", func(e *env, op M) M {
		ps, err := G(e).PredictEdges(bg, str(op["id"]), num(op["k"]))
		out := []any{}
		for _, p := range ps {
			out = append(out, M{"from": p.FromNodeID, "to": p.ToNodeID, "s": milli(p.Score)})
		}
		return withRes(res(err), "res", out)
	})
}
