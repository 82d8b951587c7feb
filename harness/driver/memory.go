package main

import (
	"math"
	"sort"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

var memSystem = map[string]bool{"kind": true, "scope": true, "namespace": true, "importance": true, "ttl_seconds": true, "expires_at": true}

func memMeta(m map[string]any) []any {
	ks := []string{}
	for k := range m {
		if !memSystem[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	out := []any{}
	for _, k := range ks {
		out = append(out, []any{k, valOut(m[k])})
	}
	return out
}
func memOut(e *env, r cortexdb.MemoryRecord) M {
	exp := []any{}
	if r.ExpiresAt != nil {
		exp = append(exp, int(r.ExpiresAt.Sub(cx(e).start)/time.Millisecond))
	}
	if r.ID != "" {
		seen(r.CreatedAt)
	}
	return M{"id": r.ID, "user": r.UserID, "scope": r.Scope, "ns": r.Namespace, "role": r.Role, "txt": words(r.Content), "meta": memMeta(r.Metadata),
		"imp": int(math.Round(r.Importance * 1000)), "ttl": r.TTLSeconds, "exp": exp}
}


func countVec(text string) []any {
	v := []any{}
	for _, x := range wordVec(text) {
		v = append(v, int(x))
	}
	return v
}
func memMetaIn(v any) map[string]any {
	if v == nil {
		return nil
	}
	m := map[string]any{}
	for _, p := range arr(v) {
		kv := strs(p)
		m[kv[0]] = valIn(kv[1])
	}
	return m
}
func init() {
	timed := func(e *env, m M, t0 int, err error) M {
		for k, v := range res(err) {
			m[k] = v
		}
		m["t0"], m["t1"] = t0, cx(e).ms()
		return m
	}
	reg("mem_save", func(e *env, op M) M {
		t0 := cx(e).ms()
		r, err := call(cx(e), str(op["via"]), "memory_save", cortexdb.MemorySaveRequest{MemoryID: str(op["id"]), UserID: str(op["user"]), SessionID: str(op["sid"]), Scope: str(op["scope"]),
			Namespace: str(op["ns"]), Role: str(op["role"]), Content: text(op["txt"]), Metadata: memMetaIn(op["meta"]), Importance: float64(num(op["imp"])) / 1000, TTLSeconds: num(op["ttl"])}, cx(e).db.SaveMemory)
		return timed(e, M{"res": memOut(e, r.Memory), "v": countVec(text(op["txt"]))}, t0, err)
	})
	reg("mem_update", func(e *env, op M) M {
		t0 := cx(e).ms()
		q := cortexdb.MemoryUpdateRequest{MemoryID: str(op["id"]), TTLSeconds: optInt(op, "ttl"), Content: optStr(op, "txt"), Metadata: memMetaIn(op["meta"])}
		if v, ok := op["imp"]; ok {
			f := float64(num(v)) / 1000
			q.Importance = &f
		}
		r, err := call(cx(e), str(op["via"]), "memory_update", q, cx(e).db.UpdateMemory)
		m := timed(e, M{"res": memOut(e, r.Memory), "v": countVec(text(op["txt"]))}, t0, err)
		// what was given, as sequences of at most one element
		for _, k := range []string{"txt", "imp", "ttl", "meta"} {
			if v, ok := op[k]; ok {
				m["o_"+k] = []any{v}
			} else {
				m["o_"+k] = []any{}
			}
		}
		return m
	})
	reg("mem_get", func(e *env, op M) M {
		r, err := call(cx(e), str(op["via"]), "memory_get", cortexdb.MemoryGetRequest{MemoryID: str(op["id"])}, cx(e).db.GetMemory)
		return timed(e, M{"res": memOut(e, r.Memory)}, 0, err)
	})
	reg("mem_del", func(e *env, op M) M {
		r, err := call(cx(e), str(op["via"]), "memory_delete", cortexdb.MemoryDeleteRequest{MemoryID: str(op["id"])}, cx(e).db.DeleteMemory)
		m := timed(e, M{}, 0, err)
		m["rid"], m["done"] = r.MemoryID, r.Deleted
		return m
	})
	reg("mem_search", func(e *env, op M) M {
		t0 := cx(e).ms()
		q := cortexdb.MemorySearchRequest{Query: text(op["q"]), UserID: str(op["user"]), SessionID: str(op["sid"]), Scope: str(op["scope"]), Namespace: str(op["ns"]), TopK: num(op["k"]),
			Keywords: strs(op["kw"]), RetrievalMode: str(op["mode"])}
		for _, a := range arr(op["alt"]) {
			q.AlternateQueries = append(q.AlternateQueries, text(a))
		}
		r, err := call(cx(e), str(op["via"]), "memory_search", q, cx(e).db.SearchMemory)
		out := []any{}
		down := true
		for i, h := range r.Results {
			m := memOut(e, h.Memory)
			out = append(out, m)
			down = down && h.Score > 0 && (i == 0 || h.Score <= r.Results[i-1].Score)
		}
		return timed(e, M{"res": out, "down": down, "qv": countVec(text(op["q"]))}, t0, err)
	})
}
