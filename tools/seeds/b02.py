id="b02-minmax-collection"; prop="C14"
needs="MIN/MAX aggregation restricted to a collection while another collection holds a more extreme value"
breaks="minimum and maximum ignore the requested collection"
edits=[("pkg/core/aggregations.go",'''		aggFunc, req.Field, req.Field)

	args := []interface{}{}

	// Add collection filter
	if req.Collection != "" {
		query += ` AND collection_id = (SELECT id FROM collections WHERE name = ?)`
''','''		aggFunc, req.Field, req.Field)

	args := []interface{}{}

	// Add collection filter
	if req.Collection != "" {
		query += ` AND (collection_id = (SELECT id FROM collections WHERE name = ?) OR collection_id = 1)`
''')]
demo='''
func main() {
	s := open("a.db", nil)
	_, err := s.CreateCollection(ctx, "c1", 3)
	must(err)
	must(s.Upsert(ctx, &core.Embedding{ID: "a", Vector: []float32{1, 0, 0}, Metadata: map[string]string{"price": "5"}, Collection: "c1"}))
	must(s.Upsert(ctx, &core.Embedding{ID: "b", Vector: []float32{1, 0, 0}, Metadata: map[string]string{"price": "9"}}))
	r, err := s.Aggregate(ctx, core.AggregationRequest{Type: core.AggregationMax, Field: "price", Collection: "c1"})
	must(err)
	check(r.Results[0].Value.(float64) == 5, "max over c1 is %v", r.Results[0].Value)
}
'''
