id="b07-chunk-tail"; prop="C32"
needs="a text whose last words, too few to exceed the overlap, do not fit in the chunk before"
breaks="the last words of a long text are in no chunk, so they are lost from what was saved"
edits=[("pkg/cortexdb/graphrag.go","			if end == len(words) {\n				break\n			}","			if len(words)-end < chunkOverlap {\n				break\n			}")]
imports='"strings" "github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"'
demo='''
func main() {
	db, err := cortexdb.Open(cortexdb.DefaultConfig(filepath.Join(os.Args[1], "a.db")))
	must(err)
	for n := 5; n < 40; n++ {
		words := make([]string, n)
		for i := range words {
			words[i] = fmt.Sprintf("word%d", i)
		}
		id := fmt.Sprintf("k%d", n)
		_, err = db.SaveKnowledge(ctx, cortexdb.KnowledgeSaveRequest{KnowledgeID: id, Content: strings.Join(words, " "), ChunkSize: 8, ChunkOverlap: 3})
		must(err)
		r, err := db.SearchKnowledge(ctx, cortexdb.KnowledgeSearchRequest{Query: words[n-1], TopK: 50, RetrievalMode: cortexdb.RetrievalModeLexical})
		must(err)
		found := false
		for _, h := range r.Results {
			found = found || h.KnowledgeID == id
		}
		check(found, "the last of %d words is not found", n)
	}
}
'''
