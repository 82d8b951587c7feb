id="b04-ivf-candidates"; prop="C06"
needs="the cluster index, cosine similarity, and vectors of different length so that the nearest by distance are not the most similar"
breaks="the cluster index proposes too few candidates and a stored item that belongs in the answer is missing"
edits=[("pkg/core/store_search.go",'candidateIDs, _, err := s.ivfIndex.Search(query, opts.TopK*4)','candidateIDs, _, err := s.ivfIndex.Search(query, opts.TopK)')]
demo='''
func main() {
	s := open("a.db", func(c *core.Config) { c.IndexType = core.IndexTypeIVF; c.IVF.Enabled = true; c.IVF.NCentroids = 1; c.IVF.NProbe = 1 })
	for i, v := range [][]float32{{1, 1, 0}, {9, 0, 0}, {8, 0, 1}, {1, 2, 0}} {
		must(s.Upsert(ctx, &core.Embedding{ID: string(rune('a' + i)), Vector: v}))
	}
	must(s.TrainIndex(ctx, 1))
	rs, err := s.Search(ctx, []float32{1, 0, 0}, core.SearchOptions{TopK: 2})
	must(err)
	check(len(rs) == 2 && rs[0].ID == "b" && rs[1].ID == "c", "top 2: %v", rs)
}
'''
