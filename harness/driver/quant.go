package main

import (
	"bytes"
	"math"

	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
)

func qres(m M, err error) M {
	for k, v := range res(err) {
		m[k] = v
	}
	return m
}

type quantState struct {
	kind string
	sq   *quantization.ScalarQuantizer
	bq   *quantization.BinaryQuantizer
	pq   *quantization.ProductQuantizer
	data []byte // the last serialised form
}

func bytesIn(v any) []byte {
	out := []byte{}
	for _, x := range arr(v) {
		out = append(out, byte(num(x)))
	}
	return out
}
func bytesOut(b []byte) []any {
	out := []any{}
	for _, x := range b {
		out = append(out, int(x))
	}
	return out
}
func thou(f float32) int {
	if math.IsNaN(float64(f)) || math.Abs(float64(f)) > 1e6 {
		return 1000000000
	}
	return int(math.Round(float64(f) * 1000))
}
func thous(v []float32) []any {
	out := []any{}
	for _, x := range v {
		out = append(out, thou(x))
	}
	return out
}
func vecsIn(v any) [][]float32 {
	out := [][]float32{}
	for _, x := range arr(v) {
		out = append(out, vec(x))
	}
	return out
}
func codesIn(v any) [][]byte {
	out := [][]byte{}
	for _, x := range arr(v) {
		out = append(out, bytesIn(x))
	}
	return out
}
func (q *quantState) book() []any { // every centroid, in thousandths, for a trained product quantizer
	out := []any{}
	if q.kind != "pq" || q.pq == nil || !q.pq.Trained {
		return out
	}
	for _, cb := range q.pq.Codebooks {
		m := []any{}
		for _, c := range cb {
			m = append(m, thous(c))
		}
		out = append(out, m)
	}
	return out
}
func newQuant(kind string, dim, a, b int) (*quantState, error) {
	q := &quantState{kind: kind}
	var err error
	switch kind {
	case "sq":
		q.sq, err = quantization.NewScalarQuantizer(dim, a)
	case "bq":
		q.bq = quantization.NewBinaryQuantizer(dim)
	case "pq":
		q.pq, err = quantization.NewProductQuantizer(dim, a, b)
	}
	return q, err
}
func (q *quantState) save() error {
	var buf bytes.Buffer
	var err error
	switch q.kind {
	case "sq":
		err = q.sq.Save(&buf)
	case "bq":
		err = q.bq.Save(&buf)
	case "pq":
		buf.Write(q.pq.SerializeCodebooks())
	}
	if err == nil {
		q.data = buf.Bytes()
	}
	return err
}
func (q *quantState) load(b []byte) error {
	switch q.kind {
	case "sq":
		return q.sq.Load(bytes.NewReader(b))
	case "bq":
		return q.bq.Load(bytes.NewReader(b))
	}
	return q.pq.DeserializeCodebooks(b)
}
func init() {
	domains["quant"] = func(e *env, op M) M { e.extra["quant"] = &quantState{}; return res(nil) }
	g := func(e *env) *quantState { return e.extra["quant"].(*quantState) }
	reg("q_new", func(e *env, op M) M {
		q, err := newQuant(str(op["kind"]), num(op["dim"]), num(op["a"]), num(op["b"]))
		if err == nil {
			q.data = g(e).data
			e.extra["quant"] = q
		}
		return res(err)
	})
	reg("q_train", func(e *env, op M) M {
		q, vs := g(e), vecsIn(op["vs"])
		var err error
		switch q.kind {
		case "sq":
			err = q.sq.Train(vs)
		case "bq":
			err = q.bq.Train(vs)
		case "pq":
			err = q.pq.Train(vs)
		}
		return qres(M{"book": q.book()}, err)
	})
	reg("q_book", func(e *env, op M) M { // a product quantizer whose centroids are given
		q := g(e)
		cb := [][][]float32{}
		for _, m := range arr(op["book"]) {
			cb = append(cb, vecsIn(m))
		}
		t := &quantization.ProductQuantizer{M: len(cb), K: len(cb[0]), D: len(cb) * len(cb[0][0]), SubDim: len(cb[0][0]), Codebooks: cb, Trained: true}
		err := q.pq.DeserializeCodebooks(t.SerializeCodebooks())
		return qres(M{"seen": q.book()}, err)
	})
	reg("q_enc", func(e *env, op M) M {
		q, v := g(e), vec(op["v"])
		var c []byte
		var err error
		switch q.kind {
		case "sq":
			c, err = q.sq.Encode(v)
		case "bq":
			c, err = q.bq.Encode(v)
		case "pq":
			c, err = q.pq.Encode(v)
		}
		d := []float32{}
		if err == nil {
			d, err = q.dec(c)
		}
		return qres(M{"codes": bytesOut(c), "back": thous(d)}, err)
	})
	reg("q_dec", func(e *env, op M) M {
		d, err := g(e).dec(bytesIn(op["codes"]))
		return qres(M{"back": thous(d)}, err)
	})
	reg("q_dist", func(e *env, op M) M {
		q := g(e)
		if q.kind == "bq" {
			return qres(M{"d": q.bq.HammingDistance(bytesIn(op["codes"]), bytesIn(op["codes2"]))}, nil)
		}
		d, err := q.pq.ComputeDistance(bytesIn(op["codes"]), vec(op["v"]))
		return qres(M{"d": thou(d)}, err)
	})
	reg("q_search", func(e *env, op M) M {
		q, db, k := g(e), codesIn(op["db"]), num(op["k"])
		is, ds := []int{}, []any{}
		if q.kind == "bq" {
			i, d := q.bq.SearchBinary(bytesIn(op["codes"]), db, k)
			is = i
			for _, x := range d {
				ds = append(ds, x)
			}
		} else {
			i, d := q.pq.SearchPQ(vec(op["v"]), db, k)
			is = i
			ds = thous(d)
		}
		out := []any{}
		for j := range is {
			out = append(out, M{"i": is[j], "d": ds[j]})
		}
		return qres(M{"res": out, "n": len(ds)}, nil)
	})
	reg("q_save", func(e *env, op M) M { err := g(e).save(); return qres(M{"n": len(g(e).data)}, err) })
	reg("q_load", func(e *env, op M) M { // the last saved form, cut short or padded, into this quantizer
		q := g(e)
		b := append([]byte{}, q.data...)
		switch how := str(op["how"]); {
		case how == "cut" && len(b) > 0:
			b = b[:len(b)-1-num(op["n"])%len(b)]
		case how == "pad":
			b = append(b, 0, 0, 0, 0)
		case how == "head" && len(b) >= 16:
			b[num(op["n"])%16] ^= 5
		}
		err := q.load(b)
		return qres(M{"book": q.book()}, err)
	})
	reg("q_ratio", func(e *env, op M) M {
		q := g(e)
		switch q.kind {
		case "sq":
			return qres(M{"n": thou(q.sq.CompressionRatio())}, nil)
		case "bq":
			return qres(M{"n": thou(q.bq.CompressionRatio())}, nil)
		}
		return qres(M{"n": thou(q.pq.CompressionRatio())}, nil)
	})
	reg("q_project", func(e *env, op M) M { // random projections, then bits: only sizes and repeatability can be judged
		o := quantization.NewOptimizedBinaryQuantizer(num(op["in"]), num(op["out"]))
		vs := [][]float32{}
		for _, v := range vecsIn(op["vs"]) {
			vs = append(vs, o.Project(v))
		}
		if err := o.Train(vs); err != nil {
			return qres(M{"n": 0, "same": false, "opp": false}, err)
		}
		a, b := o.Project(vec(op["v"])), o.Project(vec(op["v"]))
		same := len(a) == len(b)
		for i := range a {
			same = same && a[i] == b[i]
		}
		n := vec(op["v"])
		for i := range n {
			n[i] = -n[i]
		}
		opp := true
		for i, x := range o.Project(n) {
			opp = opp && math.Abs(float64(x+a[i])) < 1e-4
		}
		return qres(M{"n": len(a), "same": same, "opp": opp}, nil)
	})
}
func (q *quantState) dec(c []byte) ([]float32, error) {
	switch q.kind {
	case "sq":
		return q.sq.Decode(c)
	case "bq":
		return q.bq.Decode(c)
	}
	return q.pq.Decode(c)
}
