package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/liliang-cn/cortexdb/v2/pkg/index"
)

// idx is the index under test with its operations made uniform.
type idx struct {
	cfg    M
	flat   *index.FlatIndex
	hnsw   *index.HNSW
	ivf    *index.IVFIndex
	lsh    *index.LSHIndex
	hybrid *index.HybridIndex
	multi  *index.MultiIndex
	mivf   *index.IVFAdapter
	snap   []byte
}

func distOf(sim string) func(a, b []float32) float32 {
	switch sim {
	case "cosine":
		return index.CosineDistance
	case "dot":
		return index.DotProductDistance
	}
	return index.EuclideanDistance
}

func newIdx(c M) *idx {
	x := &idx{cfg: c}
	d := num(c["dim"])
	switch str(c["kind"]) {
	case "flat":
		if boolean(c["unit"]) {
			x.flat = index.NewFlatIndexCosine(d)
		} else {
			x.flat = index.NewFlatIndex(d, distOf(str(c["sim"])))
		}
	case "hnsw":
		x.hnsw = index.NewHNSW(num(c["m"]), num(c["efc"]), distOf(str(c["sim"])))
	case "ivf":
		x.ivf = index.NewIVFIndex(d, num(c["nc"]))
		x.ivf.SetNProbe(num(c["nprobe"]))
	case "lsh":
		x.lsh = index.NewLSHIndex(index.LSHConfig{NumTables: num(c["tables"]), NumHashFuncs: num(c["funcs"]), Dimension: d, Seed: int64(num(c["seed"]))})
		x.lsh.SetDistanceFunc(distOf(str(c["sim"])))
	case "hybrid":
		x.hybrid = index.NewHybridIndex(d, num(c["m"]), num(c["nc"]))
	case "multi":
		sec := index.IndexTypeIVF
		if str(c["primary"]) == "ivf" {
			sec = index.IndexTypeHNSW
		}
		x.multi = index.NewMultiIndex(index.MultiIndexConfig{PrimaryIndex: index.IndexType(str(c["primary"])), SecondaryIndices: []index.IndexType{sec},
			CombineStrategy: index.CombineStrategy(str(c["how"])), RerankTopK: num(c["rerank"]), Parallel: boolean(c["parallel"])})
		x.multi.AddIndex(index.IndexTypeHNSW, index.NewHNSWAdapter(d, num(c["m"]), index.EuclideanDistance))
		x.mivf = index.NewIVFAdapter(d, num(c["nc"]))
		x.mivf.SetNProbe(num(c["nprobe"]))
		x.multi.AddIndex(index.IndexTypeIVF, x.mivf)
	}
	return x
}

// score renders a distance as a similarity in thousandths
func (x *idx) score(d float32) int {
	if str(x.cfg["sim"]) == "cosine" {
		return milli(1 - float64(d))
	}
	return milli(-float64(d))
}

func (x *idx) rows(ids []string, ds []float32) []any {
	out := []any{}
	for i, id := range ids {
		out = append(out, M{"id": id, "s": x.score(ds[i])})
	}
	return out
}

func scramble(vs ...[]float32) {
	for _, v := range vs {
		for i := range v {
			v[i] = 77
		}
	}
}

func same(a []float32, b any) {
	for i, y := range vec(b) {
		if a[i] != y {
			panic("the query was modified")
		}
	}
}

func (x *idx) saver() interface {
	Save(io.Writer) error
	Load(io.Reader) error
	Size() int
} {
	if x.hnsw != nil {
		return x.hnsw
	}
	return x.ivf
}

func init() {
	domains["index"] = func(e *env, op M) M {
		e.extra["idx"] = newIdx(obj(op["cfg"]))
		return M{"ok": true, "err": ""}
	}
	ix := func(e *env) *idx { return e.extra["idx"].(*idx) }
	reg("i_insert", func(e *env, op M) M {
		x, id, v := ix(e), str(op["id"]), vec(op["vec"])
		defer scramble(v)
		switch {
		case x.flat != nil:
			return res(x.flat.Insert(id, v))
		case x.hnsw != nil:
			return res(x.hnsw.Insert(id, v))
		case x.ivf != nil:
			return res(x.ivf.Add(id, v))
		case x.lsh != nil:
			return res(x.lsh.Insert(id, v))
		case x.hybrid != nil:
			return res(x.hybrid.Insert(id, v))
		}
		return res(x.multi.Insert(id, v))
	})
	reg("i_upsert", func(e *env, op M) M {
		v := vec(op["vec"])
		defer scramble(v)
		return res(ix(e).hnsw.Upsert(str(op["id"]), v))
	})
	reg("i_batch", func(e *env, op M) M {
		x := ix(e)
		ids, vs := []string{}, [][]float32{}
		for _, r := range arr(op["rows"]) {
			ids = append(ids, str(obj(r)["id"]))
			vs = append(vs, vec(obj(r)["vec"]))
		}
		defer scramble(vs...)
		if x.flat != nil {
			return res(x.flat.BatchInsert(ids, vs))
		}
		rows := []struct {
			ID     string
			Vector []float32
		}{}
		for i := range ids {
			rows = append(rows, struct {
				ID     string
				Vector []float32
			}{ids[i], vs[i]})
		}
		if w := num(op["workers"]); w > 0 {
			return res(x.hnsw.InsertBatchParallel(rows, w))
		}
		return res(x.hnsw.InsertBatch(rows))
	})
	reg("i_delete", func(e *env, op M) M {
		x, id := ix(e), str(op["id"])
		b := func(ok bool) M {
			if ok {
				return res(nil)
			}
			return res(errors.New("absent"))
		}
		switch {
		case x.flat != nil:
			return b(x.flat.Delete(id))
		case x.hnsw != nil:
			return res(x.hnsw.Delete(id))
		case x.ivf != nil:
			return res(x.ivf.Delete(id))
		case x.lsh != nil:
			return b(x.lsh.Delete(id))
		case x.hybrid != nil:
			return res(x.hybrid.Delete(id))
		}
		return res(x.multi.Delete(id))
	})
	reg("i_clear", func(e *env, op M) M {
		x := ix(e)
		switch {
		case x.flat != nil:
			x.flat.Clear()
		case x.ivf != nil:
			x.ivf.Clear()
		default:
			x.lsh.Clear()
		}
		return res(nil)
	})
	reg("i_train", func(e *env, op M) M {
		x := ix(e)
		vs := [][]float32{}
		for _, v := range arr(op["vecs"]) {
			vs = append(vs, vec(v))
		}
		defer scramble(vs...)
		switch {
		case x.ivf != nil:
			return res(x.ivf.Train(vs))
		case x.hybrid != nil:
			return res(x.hybrid.Train(vs))
		}
		return res(x.mivf.Train(vs))
	})
	reg("i_search", func(e *env, op M) M {
		x, q, k, ef := ix(e), vec(op["q"]), num(op["k"]), num(op["ef"])
		defer same(q, op["q"])
		var ids []string
		var ds []float32
		var err error
		switch {
		case x.flat != nil:
			ids, ds = x.flat.Search(q, k)
		case x.hnsw != nil && ef < 0:
			ids, ds = x.hnsw.SearchVectorIndex(q, k)
		case x.hnsw != nil:
			ids, ds = x.hnsw.Search(q, k, ef)
		case x.ivf != nil:
			ids, ds, err = x.ivf.Search(q, k)
		case x.lsh != nil:
			var rs []index.LSHSearchResult
			if ef > 0 {
				rs, err = x.lsh.SearchWithMultiProbe(q, k, ef)
			} else {
				rs, err = x.lsh.Search(q, k)
			}
			for _, r := range rs {
				ids, ds = append(ids, r.ID), append(ds, r.Distance)
			}
		case x.hybrid != nil:
			ids, ds = x.hybrid.Search(q, k)
		default:
			ids, ds = x.multi.Search(q, k)
		}
		m := res(err)
		m["res"] = x.rows(ids, ds)
		return m
	})
	reg("i_range", func(e *env, op M) M {
		x, q := ix(e), vec(op["q"])
		defer same(q, op["q"])
		// t is the least similarity in thousandths
		r := -flt(op["t"]) / 1000
		if str(x.cfg["sim"]) == "cosine" {
			r = 1 - flt(op["t"])/1000
		}
		ids, ds := x.flat.RangeSearch(q, float32(r))
		m := res(nil)
		m["res"] = x.rows(ids, ds)
		return m
	})
	reg("i_get", func(e *env, op M) M {
		v, ok := ix(e).flat.GetVector(str(op["id"]))
		m := M{"ok": ok, "err": "", "vec": ivec(v)}
		scramble(v)
		return m
	})
	reg("i_size", func(e *env, op M) M {
		x := ix(e)
		m := res(nil)
		switch {
		case x.flat != nil:
			m["n"] = x.flat.Size()
		case x.hnsw != nil:
			m["n"] = x.hnsw.Size()
		case x.ivf != nil:
			m["n"] = x.ivf.Size()
		case x.lsh != nil:
			m["n"] = x.lsh.Size()
		case x.hybrid != nil:
			m["n"] = x.hybrid.Size()
		default:
			m["n"] = x.multi.Size()
		}
		return m
	})
	reg("i_save", func(e *env, op M) M {
		x := ix(e)
		var b bytes.Buffer
		err := x.saver().Save(&b)
		x.snap = b.Bytes()
		return res(err)
	})
	// i_load reads the snapshot (how "full"), or a prefix of it ("cut", at parts in a thousand), into a
	// fresh index or into this one
	reg("i_load", func(e *env, op M) M {
		x := ix(e)
		data := x.snap
		if str(op["how"]) == "cut" {
			data = data[:len(data)*num(op["at"])/1000]
		}
		y := x
		if boolean(op["fresh"]) {
			y = newIdx(x.cfg)
			y.snap = x.snap
		}
		err := y.saver().Load(bytes.NewReader(data))
		m := res(err)
		m["left"] = 0
		if y != x {
			if err == nil {
				e.extra["idx"] = y
			} else {
				m["left"] = y.saver().Size()
			}
		}
		return m
	})
	// i_flip damages one byte; whatever Load makes of it, it returns
	reg("i_flip", func(e *env, op M) M {
		x := ix(e)
		data := append([]byte(nil), x.snap...)
		if len(data) > 0 {
			data[len(data)*num(op["at"])/1000] ^= byte(num(op["mask"]))
		}
		y := newIdx(x.cfg)
		err := y.saver().Load(bytes.NewReader(data))
		return M{"ok": true, "err": "", "msg": fmt.Sprint(err), "n": y.saver().Size()}
	})
}
