package main

import (
	"context"
	"errors"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
)

type hsState struct {
	s     *hindsight.System
	base  time.Time
	cfg   M
	ext   string
	mu    sync.Mutex
	calls []any // what the extractor was called with
	asked []any // what the reranker was called with
	next  []any // facts the extractor is to yield
	slow  time.Duration
	sent  map[string]core.Message
}

func (h *hsState) Close() error { return h.s.Close() }
func hs(e *env) *hsState        { return e.extra["hs"].(*hsState) }
func (h *hsState) at(t time.Time) int {
	d := t.Sub(h.base)
	n := int(d / time.Millisecond)
	if d < 0 && d%time.Millisecond != 0 {
		n--
	}
	return n
}

// the part of a moment below a millisecond
func (h *hsState) ns(t time.Time) int {
	d := t.Sub(h.base) % time.Millisecond
	if d < 0 {
		d += time.Millisecond
	}
	return int(d)
}
func (h *hsState) ms() int { return h.at(time.Now()) }
func (h *hsState) when(ms int) time.Time {
	return h.base.Add(time.Duration(ms)*time.Millisecond + 123457)
}
func (e *env) openHS(cfg M) error {
	s, err := hindsight.New(&hindsight.Config{DBPath: e.pathOf("hs"), VectorDim: num(cfg["dim"]), Collection: str(cfg["col"])})
	if err != nil {
		return err
	}
	h := &hsState{s: s, base: time.Now().Truncate(time.Second), cfg: cfg, ext: "none", sent: map[string]core.Message{}}
	if old, ok := e.extra["hs"].(*hsState); ok {
		h.base, h.sent = old.base, old.sent
	}
	e.extra["hs"] = h
	return nil
}

// idle waits until no goroutine of the package is running
func (h *hsState) idle() {
	buf := make([]byte, 1<<20)
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); time.Sleep(300 * time.Microsecond) {
		n := runtime.Stack(buf, true)
		if !strings.Contains(string(buf[:n]), "pkg/hindsight.") {
			return
		}
	}
}
func (h *hsState) drain() ([]any, []any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	c, a := h.calls, h.asked
	h.calls, h.asked = nil, nil
	if c == nil {
		c = []any{}
	}
	if a == nil {
		a = []any{}
	}
	return c, a
}
func hsFact(f M) hindsight.ExtractedFact {
	return hindsight.ExtractedFact{ID: str(f["id"]), Type: hindsight.MemoryType(str(f["type"])), Content: text(f["txt"]), Vector: vec(f["v"]), Entities: strs(f["ents"]),
		Confidence: float64(num(f["conf"])) / 10000, Metadata: memMetaIn(f["meta"])}
}
func (h *hsState) extract(_ context.Context, bank string, ms []*core.Message) ([]hindsight.ExtractedFact, error) {
	h.mu.Lock()
	slow, given, mode := h.slow, h.next, h.ext
	h.mu.Unlock()
	if slow > 0 {
		time.Sleep(slow)
	}
	ids, said := []any{}, true
	for _, m := range ms {
		ids = append(ids, m.ID)
		h.mu.Lock()
		s := h.sent[m.ID]
		h.mu.Unlock()
		said = said && s.Content == m.Content && s.Role == m.Role && s.SessionID == m.SessionID && m.SessionID == ms[0].SessionID
	}
	facts := given
	if given == nil && len(ms) > 0 { // what the latest message says
		last := ms[len(ms)-1]
		v := []any{}
		for _, x := range wordVec(last.Content) {
			v = append(v, float64(x))
		}
		id := "f:" + last.ID
		if strings.Contains(last.Content, "noid") {
			id = ""
		}
		if strings.Contains(last.Content, "novec") {
			v = []any{}
		}
		facts = []any{M{"id": id, "type": "", "txt": words(last.Content), "v": v, "ents": []any{last.Role}, "conf": 0.0, "meta": []any{[]any{"k", "x"}}}}
	}
	bad := mode == "failing"
	if given == nil {
		h.mu.Lock()
		h.calls = append(h.calls, M{"bank": bank, "ids": ids, "said": said, "facts": facts, "err": bad})
		h.mu.Unlock()
	}
	if bad {
		return nil, errors.New("cannot extract")
	}
	out := []hindsight.ExtractedFact{}
	for _, f := range facts {
		out = append(out, hsFact(f.(M)))
	}
	return out, nil
}
func sortedPairs(m map[string]any) []any {
	out := []any{}
	for k, v := range m {
		s, _ := v.(string)
		out = append(out, []any{k, s})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].([]any)[0].(string) < out[j].([]any)[0].(string) })
	return out
}
func hsConf(c float64) int { return int(math.Round(c * 10000)) }
func (h *hsState) mem(m *hindsight.Memory) M {
	return M{"id": m.ID, "bank": m.BankID, "type": string(m.Type), "txt": words(m.Content), "vec": ivec(m.Vector), "ents": list(m.Entities), "conf": hsConf(m.Confidence),
		"meta": sortedPairs(m.Metadata), "at": h.at(m.CreatedAt), "ns": h.ns(m.CreatedAt), "by": "", "s": 0, "f": 0}
}
func (h *hsState) obs(o *hindsight.Observation) M {
	return M{"id": o.ID, "bank": o.BankID, "txt": words(o.Content), "vec": ivec(o.Vector), "src": list(o.SourceMemoryIDs), "conf": hsConf(o.Confidence), "otype": string(o.ObservationType),
		"why": o.Reasoning, "lo": h.at(o.CreatedAt), "ns": h.ns(o.CreatedAt)}
}
func hsBank(b *hindsight.Bank) M {
	if b == nil {
		return M{"id": "", "name": "", "desc": "", "back": "", "sk": 0, "li": 0, "em": 0, "made": 0}
	}
	m := M{"id": b.ID, "name": b.Name, "desc": b.Description, "back": b.Background, "sk": 0, "li": 0, "em": 0, "made": int(b.CreatedAt)}
	if b.Disposition != nil {
		m["sk"], m["li"], m["em"] = b.Skepticism, b.Literalism, b.Empathy
	}
	return m
}
func (h *hsState) strategy(r M) (string, []float32, *hindsight.RecallStrategy) {
	var st *hindsight.RecallStrategy
	if !boolean(r["dflt"]) {
		st = &hindsight.RecallStrategy{Memory: boolean(r["memory"]), Priming: boolean(r["priming"]), Entity: strs(r["ents"]), TopK: num(r["sk"])}
		if boolean(r["temporal"]) {
			st.Temporal = &hindsight.TemporalFilter{}
			if a := arr(r["from"]); len(a) > 0 {
				t := h.when(num(a[0]))
				st.Temporal.Start = &t
			}
			if a := arr(r["to"]); len(a) > 0 {
				t := h.when(num(a[0]))
				st.Temporal.End = &t
			}
		}
	}
	var qv []float32
	if len(arr(r["qv"])) > 0 {
		qv = vec(r["qv"])
	}
	return text(r["q"]), qv, st
}
func (h *hsState) created(op M) time.Time {
	if a := arr(op["at"]); len(a) > 0 {
		return h.when(num(a[0]))
	}
	return time.Time{}
}
func (h *hsState) message(m M) *core.Message {
	msg := core.Message{ID: str(m["id"]), SessionID: str(m["sid"]), Role: str(m["role"]), Content: text(m["txt"])}
	h.mu.Lock()
	if _, ok := h.sent[msg.ID]; !ok {
		h.sent[msg.ID] = msg
	}
	h.mu.Unlock()
	return &msg
}
func (h *hsState) history(sid string, n int) ([]any, error) {
	ms, err := h.s.Store().GetSessionHistory(bg, sid, n)
	out := []any{}
	for _, m := range ms {
		out = append(out, M{"id": m.ID, "role": m.Role, "txt": words(m.Content)})
	}
	return out, err
}

func init() {
	domains["hs"] = func(e *env, op M) M { return res(e.openHS(obj(op["cfg"]))) }
	timed := func(h *hsState, t0 int, m M, err error) M {
		for k, v := range res(err) {
			m[k] = v
		}
		m["t0"], m["t1"] = t0, h.ms()
		return m
	}
	reg("hs_reopen", func(e *env, op M) M {
		h := hs(e)
		if boolean(op["crash"]) {
			e.crash("hs")
		}
		if err := h.s.Close(); err != nil {
			return res(err)
		}
		return res(e.openHS(h.cfg))
	})
	reg("hs_bank", func(e *env, op M) M {
		b := &hindsight.Bank{ID: str(op["id"]), Name: str(op["name"]), Description: str(op["desc"]), Background: str(op["back"])}
		if num(op["sk"]) != 0 {
			b.Disposition = &hindsight.Disposition{Skepticism: num(op["sk"]), Literalism: num(op["li"]), Empathy: num(op["em"])}
		}
		err := hs(e).s.CreateBank(bg, b)
		m := res(err)
		m["made"] = int(b.CreatedAt)
		return m
	})
	reg("hs_delbank", func(e *env, op M) M { return res(hs(e).s.DeleteBank(str(op["id"]))) })
	reg("hs_getbank", func(e *env, op M) M {
		b, ok := hs(e).s.GetBank(str(op["id"]))
		m := res(nil)
		m["found"], m["res"] = ok, hsBank(b)
		return m
	})
	reg("hs_banks", func(e *env, op M) M {
		out := []any{}
		for _, b := range hs(e).s.ListBanks() {
			out = append(out, hsBank(b))
		}
		return withRes(res(nil), "res", out)
	})
	reg("hs_raw", func(e *env, op M) M {
		return res(hs(e).s.Store().Upsert(bg, &core.Embedding{ID: str(op["id"]), Vector: []float32{1, 2, 3}, Content: text(op["txt"])}))
	})
	reg("hs_rawget", func(e *env, op M) M {
		r, err := hs(e).s.Store().(*core.SQLiteStore).GetByID(bg, str(op["id"]))
		m := res(err)
		m["res"] = []any{}
		if err == nil {
			m["res"] = words(r.Content)
		}
		return m
	})
	memory := func(h *hsState, op M) *hindsight.Memory {
		return &hindsight.Memory{ID: str(op["id"]), BankID: str(op["bank"]), Type: hindsight.MemoryType(str(op["type"])), Content: text(op["txt"]), Vector: vec(op["v"]), Entities: strs(op["ents"]),
			Confidence: float64(num(op["conf"])) / 10000, Metadata: memMetaIn(op["meta"]), CreatedAt: h.created(op)}
	}
	reg("hs_retain", func(e *env, op M) M {
		h := hs(e)
		t0 := h.ms()
		mem := memory(h, op)
		err := h.s.Retain(bg, mem)
		return timed(h, t0, M{"rid": mem.ID}, err)
	})
	reg("hs_retains", func(e *env, op M) M { // at once
		h := hs(e)
		t0 := h.ms()
		var wg sync.WaitGroup
		errs := make([]error, len(arr(op["ms"])))
		for i, x := range arr(op["ms"]) {
			wg.Add(1)
			go func(i int, x M) { defer wg.Done(); errs[i] = h.s.Retain(bg, memory(h, x)) }(i, obj(x))
		}
		wg.Wait()
		return timed(h, t0, M{}, errors.Join(errs...))
	})
	reg("hs_recall", func(e *env, op M) M {
		h, r := hs(e), obj(op["req"])
		q, qv, st := h.strategy(r)
		got, err := h.s.Recall(bg, &hindsight.RecallRequest{BankID: str(r["bank"]), Query: q, QueryVector: qv, Strategy: st, TopK: num(r["k"])})
		out := []any{}
		for _, x := range got {
			m := h.mem(x.Memory)
			m["by"], m["s"], m["f"] = x.Strategy, milli(x.Score), int(math.Round(x.Score*1e7))
			out = append(out, m)
		}
		_, asked := h.drain()
		m := res(err)
		m["res"], m["asked"] = out, asked
		return m
	})
	reg("hs_reflect", func(e *env, op M) M {
		h, r := hs(e), obj(op["req"])
		q, qv, st := h.strategy(r)
		got, err := h.s.Reflect(bg, &hindsight.ContextRequest{BankID: str(r["bank"]), Query: q, QueryVector: qv, Strategy: st, TopK: num(r["k"]), TokenBudget: num(op["budget"])})
		m := res(err)
		out, shows := []any{}, true
		m["utf8"], m["bytes"], m["tokens"] = true, 0, 0
		if err == nil {
			for _, x := range got.Memories {
				out = append(out, h.mem(x))
				shows = shows && strings.Contains(got.Context, x.Content)
			}
			m["utf8"], m["bytes"], m["tokens"] = utf8.ValidString(got.Context), len(got.Context), got.TokenCount
		}
		_, asked := h.drain()
		m["res"], m["shows"], m["asked"] = out, shows, asked
		return m
	})
	reg("hs_observe", func(e *env, op M) M {
		h, r := hs(e), obj(op["req"])
		t0 := h.ms()
		q, qv, st := h.strategy(r)
		types := []hindsight.ObservationType{}
		for _, t := range strs(op["types"]) {
			types = append(types, hindsight.ObservationType(t))
		}
		got, err := h.s.Observe(bg, &hindsight.ReflectRequest{BankID: str(r["bank"]), Query: q, QueryVector: qv, Strategy: st, TopK: num(r["k"]), ObservationTypes: types, MinConfidence: float64(num(op["min"])) / 10000})
		out, obs := []any{}, []any{}
		if err == nil {
			for _, x := range got.SourceMemories {
				out = append(out, h.mem(x))
			}
			for _, o := range got.Observations {
				obs = append(obs, h.obs(o))
			}
		}
		_, asked := h.drain()
		return timed(h, t0, M{"res": out, "obs": obs, "asked": asked}, err)
	})
	reg("hs_addobs", func(e *env, op M) M {
		h := hs(e)
		t0 := h.ms()
		o := &hindsight.Observation{ID: str(op["id"]), BankID: str(op["bank"]), Content: text(op["txt"]), Vector: vec(op["v"]), SourceMemoryIDs: strs(op["src"]), Confidence: float64(num(op["conf"])) / 10000,
			ObservationType: hindsight.ObservationType(str(op["otype"])), Reasoning: str(op["why"]), CreatedAt: h.created(op)}
		err := h.s.AddObservation(bg, o)
		return timed(h, t0, M{"rid": o.ID}, err)
	})
	reg("hs_getobs", func(e *env, op M) M {
		got, err := hs(e).s.GetObservations(bg, str(op["bank"]))
		out := []any{}
		for _, o := range got {
			out = append(out, hs(e).obs(o))
		}
		return withRes(res(err), "res", out)
	})
	reg("hs_text", func(e *env, op M) M {
		h := hs(e)
		t0 := h.ms()
		h.mu.Lock()
		h.next = arr(op["facts"])
		if h.next == nil {
			h.next = []any{}
		}
		h.mu.Unlock()
		ms := []*core.Message{}
		for i := 0; i < num(op["n"]); i++ {
			ms = append(ms, &core.Message{ID: "x", Content: "x"})
		}
		r, err := h.s.RetainFromText(bg, str(op["bank"]), ms)
		h.mu.Lock()
		h.next = nil
		h.mu.Unlock()
		m := M{"retained": 0, "skipped": 0, "errors": 0}
		if err == nil {
			m["retained"], m["skipped"], m["errors"] = r.Retained, r.Skipped, len(r.Errors)
		}
		return timed(h, t0, m, err)
	})
	reg("hs_ext", func(e *env, op M) M {
		h := hs(e)
		h.mu.Lock()
		h.ext = str(op["mode"])
		h.mu.Unlock()
		if h.ext == "none" {
			h.s.SetFactExtractor(nil)
		} else {
			h.s.SetFactExtractor(h.extract)
		}
		return res(nil)
	})
	reg("hs_rer", func(e *env, op M) M {
		h, mode := hs(e), str(op["mode"])
		if mode == "none" {
			h.s.SetReranker(nil)
			return res(nil)
		}
		h.s.SetReranker(func(_ context.Context, q string, cs []*hindsight.RecallResult) ([]*hindsight.RecallResult, error) {
			ids, rev := []any{}, []*hindsight.RecallResult{}
			for i := range cs {
				ids = append(ids, cs[i].ID)
				rev = append(rev, cs[len(cs)-1-i])
			}
			h.mu.Lock()
			h.asked = append(h.asked, M{"q": words(q), "ids": ids})
			h.mu.Unlock()
			switch mode {
			case "rev":
				return rev, nil
			case "fail":
				return rev, errors.New("cannot rerank")
			case "drop":
				return cs[1:], nil
			}
			return nil, nil
		})
		return res(nil)
	})
	reg("hs_auto", func(e *env, op M) M {
		if boolean(op["nil"]) {
			hs(e).s.SetAutoRetain(nil)
		} else {
			hs(e).s.SetAutoRetain(&hindsight.AutoRetainConfig{Enabled: boolean(op["on"]), WindowSize: num(op["win"]), TriggerEvery: num(op["every"]), RoleFilter: strs(op["roles"])})
		}
		return res(nil)
	})
	reg("hs_session", func(e *env, op M) M {
		return res(hs(e).s.CreateSession(bg, &core.Session{ID: str(op["sid"]), UserID: "u"}))
	})
	reg("hs_msgs", func(e *env, op M) M {
		h := hs(e)
		t0 := h.ms()
		h.mu.Lock()
		h.slow = time.Duration(num(op["slow"])) * time.Millisecond
		h.mu.Unlock()
		oks := []any{}
		for _, x := range arr(op["ms"]) {
			oks = append(oks, h.s.AddMessage(bg, str(obj(x)["bank"]), h.message(obj(x))) == nil)
		}
		if boolean(op["closed"]) {
			if err := h.s.Close(); err != nil {
				return res(err)
			}
		} else {
			h.idle()
		}
		calls, _ := h.drain()
		m := timed(h, t0, M{"oks": oks, "calls": calls}, nil)
		if boolean(op["closed"]) {
			if err := e.openHS(h.cfg); err != nil {
				return res(err)
			}
		}
		return m
	})
	reg("hs_par", func(e *env, op M) M {
		h := hs(e)
		t0 := h.ms()
		h.mu.Lock()
		h.slow = time.Duration(num(op["slow"])) * time.Millisecond
		h.mu.Unlock()
		ms := arr(op["ms"])
		oks, sids := make([]any, len(ms)), map[string]bool{}
		var wg sync.WaitGroup
		for i, x := range ms {
			sids[str(obj(x)["sid"])] = true
			wg.Add(1)
			go func(i int, x M) {
				defer wg.Done()
				oks[i] = h.s.AddMessage(bg, str(x["bank"]), h.message(x)) == nil
			}(i, obj(x))
		}
		wg.Wait()
		h.idle()
		calls, _ := h.drain()
		hist := []any{}
		for s := range sids {
			got, err := h.history(s, -1)
			if err != nil {
				return res(err)
			}
			hist = append(hist, M{"sid": s, "res": got})
		}
		return timed(h, t0, M{"oks": oks, "calls": calls, "hist": hist}, nil)
	})
	reg("hs_hist", func(e *env, op M) M {
		got, err := hs(e).history(str(op["sid"]), num(op["n"]))
		return withRes(res(err), "res", got)
	})
}
