id="b12-subgraph-loop"; prop="C25"
needs="a subgraph around a node that has an edge to itself"
breaks="an edge from a node to itself is missing from the subgraph of that node"
edits=[("pkg/graph/graph_traversal.go","			if nodeSet[edge.ToNodeID] {","			if nodeSet[edge.ToNodeID] && edge.ToNodeID != nodeID {")]
imports='"github.com/liliang-cn/cortexdb/v2/pkg/graph"'
demo='''
func main() {
	g := graph.NewGraphStore(open("a.db", nil))
	must(g.InitGraphSchema(ctx))
	for _, id := range []string{"x", "y"} {
		must(g.UpsertNode(ctx, &graph.GraphNode{ID: id, Vector: []float32{1, 0, 0}}))
	}
	must(g.UpsertEdge(ctx, &graph.GraphEdge{ID: "e1", FromNodeID: "x", ToNodeID: "y"}))
	must(g.UpsertEdge(ctx, &graph.GraphEdge{ID: "e2", FromNodeID: "x", ToNodeID: "x"}))
	r, err := g.Subgraph(ctx, []string{"x", "y"})
	must(err)
	check(len(r.Edges) == 2, "%d edges in the subgraph", len(r.Edges))
}
'''
