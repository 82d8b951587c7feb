id="b08-recall-period-end"; prop="C35"
needs="a memory made at the very moment a recalled period ends"
breaks="the end of a period is inclusive, but a memory made exactly then is not recalled"
edits=[("pkg/hindsight/hindsight.go","mem.CreatedAt.After(*tf.End)","!mem.CreatedAt.Before(*tf.End)")]
imports='"time" "github.com/liliang-cn/cortexdb/v2/pkg/hindsight"'
demo='''
func main() {
	h, err := hindsight.New(hindsight.DefaultConfig(filepath.Join(os.Args[1], "a.db")))
	must(err)
	must(h.CreateBank(ctx, hindsight.NewBank("b", "B")))
	at := time.Date(2024, 5, 1, 12, 0, 0, 0, time.UTC)
	must(h.Retain(ctx, &hindsight.Memory{ID: "m", BankID: "b", Type: hindsight.WorldMemory, Content: "x", Vector: []float32{1, 0, 0}, CreatedAt: at}))
	from := at.Add(-time.Hour)
	rs, err := h.Recall(ctx, &hindsight.RecallRequest{BankID: "b", QueryVector: []float32{1, 0, 0}, TopK: 5, Strategy: &hindsight.RecallStrategy{Temporal: &hindsight.TemporalFilter{Start: &from, End: &at}}})
	must(err)
	check(len(rs) == 1, "%d recalled", len(rs))
}
'''
