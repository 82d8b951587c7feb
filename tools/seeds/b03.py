id="b03-fts-long-text"; prop="C11"
needs="an item with a long text is deleted or overwritten and its row number is reused"
breaks="only the beginning of a deleted text is taken out of the text index, so items are found by text they do not contain"
edits=[("pkg/core/store_init.go",'''	CREATE TRIGGER IF NOT EXISTS embeddings_ad AFTER DELETE ON embeddings BEGIN
	  INSERT INTO chunks_fts(chunks_fts, rowid, content) VALUES('delete', old.rowid, old.content);''','''	CREATE TRIGGER IF NOT EXISTS embeddings_ad AFTER DELETE ON embeddings BEGIN
	  INSERT INTO chunks_fts(chunks_fts, rowid, content) VALUES('delete', old.rowid, substr(old.content, 1, 512));''')]
imports='"strings"'
demo='''
func main() {
	s := open("a.db", nil)
	must(s.Upsert(ctx, &core.Embedding{ID: "a", Vector: []float32{1, 0, 0}, Content: strings.Repeat("filler ", 200) + "alpha"}))
	must(s.Delete(ctx, "a"))
	must(s.Upsert(ctx, &core.Embedding{ID: "b", Vector: []float32{1, 0, 0}, Content: "beta"}))
	rs, err := s.HybridSearch(ctx, nil, "alpha", core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 5}})
	must(err)
	check(len(rs) == 0, "found by deleted text: %v", len(rs))
}
'''
