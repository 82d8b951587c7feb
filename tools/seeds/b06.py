id="b06-export-parallel-edges"; prop="C28"
needs="two edges of the same type between the same two nodes, exported and imported elsewhere"
breaks="parallel edges collapse to one in an exported graph"
edits=[("pkg/graph/graph_export.go","			if !edgeSet[edge.ID] {\n				allEdges = append(allEdges, edge)\n				edgeSet[edge.ID] = true","			if key := edge.FromNodeID + \">\" + edge.ToNodeID + edge.EdgeType; !edgeSet[key] {\n				allEdges = append(allEdges, edge)\n				edgeSet[key] = true")]
imports='"bytes" "github.com/liliang-cn/cortexdb/v2/pkg/graph"'
demo='''
func main() {
	a := graph.NewGraphStore(open("a.db", nil))
	must(a.InitGraphSchema(ctx))
	for _, id := range []string{"x", "y"} {
		must(a.UpsertNode(ctx, &graph.GraphNode{ID: id, Vector: []float32{1, 0, 0}}))
	}
	for _, id := range []string{"e1", "e2"} {
		must(a.UpsertEdge(ctx, &graph.GraphEdge{ID: id, FromNodeID: "x", ToNodeID: "y", EdgeType: "knows", Weight: 1}))
	}
	for _, f := range []graph.ExportFormat{graph.FormatJSON, graph.FormatGraphML, graph.FormatGEXF} {
		var buf bytes.Buffer
		must(a.Export(ctx, &buf, f))
		b := graph.NewGraphStore(open(string(f)+".db", nil))
		must(b.InitGraphSchema(ctx))
		must(b.Import(ctx, &buf, f))
		es, err := b.GetEdges(ctx, "x", "out")
		must(err)
		check(len(es) == 2, "%s: %d edges arrived", f, len(es))
	}
}
'''
