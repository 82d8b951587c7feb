// Command verifdriver executes operation programs against the real code and
// records one JSON event per operation.  It is compiled from /repo's working
// tree through a build overlay (see /verif/bin).
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

type M = map[string]any

// env is the state of one segment.
type env struct {
	dir   string
	seg   int
	dead  bool // an operation is stuck or panicked: the rest of the segment is skipped
	core  *coreEnv
	extra map[string]any
	emit  func(M)
}

type handler func(e *env, op M) M

var handlers = map[string]handler{}

func reg(name string, h handler) { handlers[name] = h }

var opTimeout = 30 * time.Second

func main() {
	in := flag.String("in", "", "program (JSON lines)")
	out := flag.String("out", "", "trace (JSON lines)")
	scratch := flag.String("scratch", "", "scratch directory")
	to := flag.Int("optimeout", 30, "seconds before an operation counts as stuck")
	child := flag.String("child", "", "run a child role")
	flag.Parse()
	log.SetOutput(io.Discard)
	opTimeout = time.Duration(*to) * time.Second
	f, err := os.Open(*in)
	must(err)
	defer f.Close()
	o, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	must(err)
	defer o.Close()
	var cur *env
	if *child != "" {
		// a process that will be killed: it works on its parent's segment
		cur = &env{dir: *scratch, extra: map[string]any{}}
		go func() { // never outlive the parent
			for os.Getppid() != 1 {
				time.Sleep(time.Second)
			}
			os.Exit(0)
		}()
		if f := childDomains[*child]; f != nil {
			f(cur)
		}
	}
	emit := func(ev M) {
		b, err := json.Marshal(ev)
		must(err)
		b = append(b, '\n')
		_, err = o.Write(b)
		must(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		line := sc.Bytes()
		if len(strings.TrimSpace(string(line))) == 0 {
			continue
		}
		var op M
		dec := json.NewDecoder(strings.NewReader(string(line)))
		must(dec.Decode(&op))
		name := str(op["op"])
		if name == "seg" {
			if cur != nil {
				closeEnv(cur)
			}
			cur = &env{dir: filepath.Join(*scratch, fmt.Sprintf("s%d", num(op["seg"]))), seg: num(op["seg"]), extra: map[string]any{}}
			must(os.MkdirAll(cur.dir, 0o755))
			cur.emit = emit
		}
		if cur == nil {
			panic("no segment")
		}
		if cur.dead {
			continue
		}
		if *child != "" {
			emit(M{"begin": name})
		}
		lent.begin(lendable[name])
		ev := run(cur, op, name)
		if ev["panic"] == "" && ev["stuck"] != true {
			if what := lent.end(); what != "" {
				ev["panic"] = what
			}
		}
		emit(ev)
		if ev["panic"] != "" || ev["stuck"] == true {
			cur.dead = true
		}
	}
	must(sc.Err())
	if *child != "" {
		emit(M{"begin": "end"})
		select {}
	}
	if cur != nil {
		closeEnv(cur)
	}
	os.Exit(0)
}

// run executes one operation under a watchdog and with panics recorded.
// seen notes the timestamps a caller was shown; every event carries whether those noted during it were plausible: not in the
// future, and not from before the data can have been written
var (
	seenMu  sync.Mutex
	misdate string
	clock0  = time.Now()
)

func seen(ts ...time.Time) {
	for _, t := range ts {
		if t.Before(clock0.Add(-2*time.Hour)) || t.After(time.Now().Add(time.Minute)) {
			seenMu.Lock()
			misdate = t.UTC().Format(time.RFC3339)
			seenMu.Unlock()
		}
	}
}
func run(e *env, op M, name string) M {
	ev := M{}
	for k, v := range op {
		ev[k] = v
	}
	ev["panic"], ev["stuck"] = "", false
	h := handlers[name]
	if h == nil {
		fmt.Fprintln(os.Stderr, "unknown op", name)
		os.Exit(3)
	}
	type outcome struct {
		res M
		pan string
	}
	ch := make(chan outcome, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				ch <- outcome{nil, trim(fmt.Sprint(r), 200) + " @ " + panicSite(st)}
			}
		}()
		ch <- outcome{h(e, op), ""}
	}()
	select {
	case r := <-ch:
		for k, v := range r.res {
			ev[k] = v
		}
		if r.pan != "" {
			ev["panic"] = r.pan
		}
	case <-time.After(opTimeout):
		ev["stuck"] = true
	}
	seenMu.Lock()
	ev["misdated"], misdate = misdate, ""
	seenMu.Unlock()
	return ev
}

func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/pkg/") || strings.Contains(l, "/repo/internal/") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

func closeEnv(e *env) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		if e.core != nil && e.core.s != nil {
			e.core.s.Close()
		}
		for _, c := range e.extra {
			if cl, ok := c.(io.Closer); ok {
				cl.Close()
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
	}
	os.RemoveAll(e.dir)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- argument and result helpers ----

func str(v any) string { s, _ := v.(string); return s }
func num(v any) int {
	switch x := v.(type) {
	case float64:
		return int(x)
	case int:
		return x
	}
	return 0
}
func flt(v any) float64 { f, _ := v.(float64); return f }
func boolean(v any) bool {
	b, _ := v.(bool)
	return b
}
func arr(v any) []any { a, _ := v.([]any); return a }
func obj(v any) M     { m, _ := v.(map[string]any); return m }
func strs(v any) []string {
	out := []string{}
	for _, x := range arr(v) {
		out = append(out, str(x))
	}
	return out
}

// A caller may reuse what it passed in once the call has returned, and finds it as it was: vectors and metadata handed to the
// operations below are compared with what they were and then overwritten.
type loan struct {
	v, was []float32
	m, had map[string]string
}
type loans struct {
	mu sync.Mutex
	on bool
	ls []loan
}

var lent loans
var lendable = map[string]bool{}

func init() {
	for _, n := range strings.Fields("upsert upsert_batch mv_put put put_many g_batch say search adv_search filter_search acl_search range brange hybrid facets rerank diverse negatives mv_search similar g_index g_near g_hybrid g_ihybrid chat_search user_search hs_retain hs_recall") {
		lendable[n] = true
	}
}
func (l *loans) begin(on bool) { l.mu.Lock(); l.on, l.ls = on, nil; l.mu.Unlock() }
func (l *loans) vec(v []float32) {
	l.mu.Lock()
	if l.on && len(v) > 0 {
		l.ls = append(l.ls, loan{v: v, was: append([]float32(nil), v...)})
	}
	l.mu.Unlock()
}
func (l *loans) meta(m map[string]string) {
	l.mu.Lock()
	if l.on && len(m) > 0 {
		had := map[string]string{}
		for k, v := range m {
			had[k] = v
		}
		l.ls = append(l.ls, loan{m: m, had: had})
	}
	l.mu.Unlock()
}
func (l *loans) end() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, x := range l.ls {
		for i := range x.v {
			if math.Float32bits(x.v[i]) != math.Float32bits(x.was[i]) {
				return "the caller's vector was changed"
			}
			x.v[i] = 77
		}
		if len(x.m) != len(x.had) {
			return "the caller's metadata was changed"
		}
		for k, v := range x.had {
			if x.m[k] != v {
				return "the caller's metadata was changed"
			}
			x.m[k] = "overwritten"
		}
	}
	l.on, l.ls = false, nil
	return ""
}

const nonFinite = 999999

// vec decodes a vector of small integers; the code 999999 stands for NaN, 999998 for +Inf.
func vec(v any) []float32 {
	if v == nil {
		return nil
	}
	out := []float32{}
	for _, x := range arr(v) {
		f := flt(x)
		switch f {
		case nonFinite:
			out = append(out, float32(math.NaN()))
		case nonFinite - 1:
			out = append(out, float32(math.Inf(1)))
		case nonFinite - 2:
			out = append(out, float32(math.Inf(-1)))
		case 900001, 900002, 900003, 900004, 900005, 900006, 900007, 900008, 900009, 900010:
			out = append(out, special[int(f)-900001])
		default:
			out = append(out, float32(f))
		}
	}
	lent.vec(out)
	return out
}

// ivec encodes a stored vector; components that are not small integers become 888888.
// special holds finite components whose exact bits matter
var special = []float32{math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Copysign(0, -1)), 0.1, -1.0 / 3, 1e-30, 1.1754942e-38, 16777217, math.Nextafter32(1, 2), -1e20}

func ivec(v []float32) []any {
	out := []any{}
next:
	for _, x := range v {
		f := float64(x)
		for i, y := range special {
			if math.Float32bits(x) == math.Float32bits(y) {
				out = append(out, 900001+i)
				continue next
			}
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			out = append(out, nonFinite)
		} else if f == math.Trunc(f) && math.Abs(f) < 1e6 {
			out = append(out, int(f))
		} else {
			out = append(out, 888888)
		}
	}
	return out
}

// mvec encodes a vector in thousandths.
func mvec(v []float32) []any {
	out := []any{}
	for _, x := range v {
		out = append(out, milli(float64(x)))
	}
	return out
}

// milli rounds to thousandths; anything not finite or huge is 2000000001.
func milli(f float64) int {
	if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) > 1e6 {
		return 2000000001
	}
	return int(math.Round(f * 1000))
}

func toks(s string) []any {
	out := []any{}
	for _, t := range strings.Fields(s) {
		out = append(out, t)
	}
	return out
}

// words undoes text exactly
func words(s string) []any {
	if s == "" {
		return []any{}
	}
	return list(strings.Split(s, " "))
}
func text(v any) string { return strings.Join(strs(v), " ") }

// metaIn reads [[k,v],...]
func metaIn(v any) map[string]string {
	if len(arr(v)) == 0 {
		return nil
	}
	m := map[string]string{}
	for _, p := range arr(v) {
		kv := strs(p)
		m[kv[0]] = kv[1]
	}
	lent.meta(m)
	return m
}
func metaOut(m map[string]string) []any {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []any{}
	for _, k := range ks {
		out = append(out, []any{k, m[k]})
	}
	return out
}
// valIn and valOut: a value written "json:…" is not a string but the value so spelled
func valIn(s string) any {
	rest, ok := strings.CutPrefix(s, "json:")
	if !ok {
		return s
	}
	var v any
	if err := json.Unmarshal([]byte(rest), &v); err != nil {
		panic("harness: " + err.Error())
	}
	return v
}
func valOut(v any) string {
	if s, ok := v.(string); ok {
		return s
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return "json:" + string(b)
}
func anyMeta(m map[string]any) []any {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []any{}
	for _, k := range ks {
		out = append(out, []any{k, valOut(m[k])})
	}
	return out
}
func list(ss []string) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, core.ErrStoreClosed):
		return "closed"
	case errors.Is(err, core.ErrNotFound):
		return "notfound"
	}
	return "other"
}
func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// outcome of a call without result
func res(err error) M {
	m := M{"ok": err == nil, "err": errKind(err)}
	if err != nil {
		m["msg"] = trim(err.Error(), 160)
	}
	return m
}
