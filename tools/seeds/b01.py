id="b01-threshold-sign"; prop="C05"
needs="a threshold and a stored item pointing away from the query (strongly negative similarity)"
breaks="items with a strongly negative similarity pass the threshold"
edits=[("pkg/core/store_search.go",'			if candidate.Score >= opts.Threshold {','			if math.Abs(candidate.Score) >= opts.Threshold {')]
demo='''
func main() {
	s := open("a.db", nil)
	must(s.Upsert(ctx, &core.Embedding{ID: "a", Vector: []float32{1, 0, 0}}))
	must(s.Upsert(ctx, &core.Embedding{ID: "b", Vector: []float32{-1, 0, 0}}))
	rs, err := s.Search(ctx, []float32{1, 0, 0}, core.SearchOptions{TopK: 5, Threshold: 0.5})
	must(err)
	check(len(rs) == 1 && rs[0].ID == "a", "%d items passed the threshold", len(rs))
}
'''
