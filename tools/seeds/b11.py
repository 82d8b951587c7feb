id="b11-namespace-case"; prop="C30"
needs="two namespaces of one user that differ only in case"
breaks="what is kept in one namespace shows up in, and is overwritten from, another"
edits=[("pkg/cortexdb/memory_api.go","	namespace = strings.TrimSpace(namespace)\n	if namespace","	namespace = strings.ToLower(strings.TrimSpace(namespace))\n	if namespace")]
imports='"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"'
demo='''
func main() {
	db, err := cortexdb.Open(cortexdb.DefaultConfig(filepath.Join(os.Args[1], "a.db")))
	must(err)
	for _, ns := range []string{"Work", "work"} {
		_, err = db.SaveMemory(ctx, cortexdb.MemorySaveRequest{MemoryID: "m" + ns, UserID: "u", Scope: "user", Namespace: ns, Content: "the harbour " + ns})
		must(err)
	}
	r, err := db.SearchMemory(ctx, cortexdb.MemorySearchRequest{Query: "harbour", UserID: "u", Scope: "user", Namespace: "Work", TopK: 10})
	must(err)
	check(len(r.Results) == 1 && r.Results[0].Memory.ID == "mWork", "found %d memories", len(r.Results))
}
'''
