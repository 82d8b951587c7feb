id="b10-components-hub"; prop="C29"
needs="a node that more than eight others point to"
breaks="nodes that point to a busy node are counted as components of their own"
edits=[("pkg/graph/graph_algorithms.go","		adj[v] = append(adj[v], u) // Undirected traversal","		if len(adj[v]) < 8 {\n			adj[v] = append(adj[v], u) // Undirected traversal\n		}")]
imports='"github.com/liliang-cn/cortexdb/v2/pkg/graph"'
demo='''
func main() {
	g := graph.NewGraphStore(open("a.db", nil))
	must(g.InitGraphSchema(ctx))
	must(g.UpsertNode(ctx, &graph.GraphNode{ID: "hub", Vector: []float32{1, 0, 0}}))
	for i := 0; i < 15; i++ {
		id := fmt.Sprintf("n%02d", i)
		must(g.UpsertNode(ctx, &graph.GraphNode{ID: id, Vector: []float32{1, 0, 0}}))
		must(g.UpsertEdge(ctx, &graph.GraphEdge{ID: "e" + id, FromNodeID: id, ToNodeID: "hub"}))
	}
	st, err := g.GetGraphStatistics(ctx)
	must(err)
	check(st.ConnectedComponents == 1, "%d components", st.ConnectedComponents)
}
'''
