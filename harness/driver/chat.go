package main

import "github.com/liliang-cn/cortexdb/v2/pkg/core"

func anyMetaIn(v any) map[string]any {
	m := map[string]any{}
	for k, x := range metaIn(v) {
		m[k] = valIn(x)
	}
	return m
}
func msgOut(m *core.Message) M {
	seen(m.CreatedAt)
	return M{"id": m.ID, "sid": m.SessionID, "role": m.Role, "txt": words(m.Content), "vec": ivec(m.Vector), "meta": anyMeta(m.Metadata)}
}
func msgsOut(ms []*core.Message) []any {
	out := []any{}
	for _, m := range ms {
		out = append(out, msgOut(m))
	}
	return out
}

func init() {
	S := func(e *env) *core.SQLiteStore { return e.core.s }
	reg("new_session", func(e *env, op M) M {
		s := obj(op["s"])
		return res(S(e).CreateSession(bg, &core.Session{ID: str(s["id"]), UserID: str(s["user"]), Metadata: anyMetaIn(s["meta"])}))
	})
	reg("get_session", func(e *env, op M) M {
		s, err := S(e).GetSession(bg, str(op["id"]))
		m := res(err)
		m["user"], m["meta"] = "", []any{}
		if err == nil {
			m["user"], m["meta"] = s.UserID, anyMeta(s.Metadata)
			seen(s.CreatedAt, s.UpdatedAt)
		}
		return m
	})
	reg("say", func(e *env, op M) M {
		x := obj(op["m"])
		return res(S(e).AddMessage(bg, &core.Message{ID: str(x["id"]), SessionID: str(x["sid"]), Role: str(x["role"]), Content: text(x["txt"]), Vector: vec(x["vec"]), Metadata: anyMetaIn(x["meta"])}))
	})
	reg("history", func(e *env, op M) M {
		ms, err := S(e).GetSessionHistory(bg, str(op["sid"]), num(op["n"]))
		return withRes(res(err), "res", msgsOut(ms))
	})
	reg("chat_search", func(e *env, op M) M {
		ms, err := S(e).SearchChatHistory(bg, vec(op["q"]), str(op["sid"]), num(op["k"]))
		return withRes(res(err), "res", msgsOut(ms))
	})
	reg("user_search", func(e *env, op M) M {
		ms, err := S(e).SearchMessagesByUser(bg, str(op["user"]), vec(op["q"]), str(op["excl"]), num(op["k"]))
		return withRes(res(err), "res", msgsOut(ms))
	})
	reg("chat_kw", func(e *env, op M) M {
		ms, err := S(e).KeywordSearchMessages(bg, str(op["raw"]), str(op["user"]), str(op["excl"]), num(op["k"]))
		return withRes(res(err), "res", msgsOut(ms))
	})
}
