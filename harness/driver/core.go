package main

import (
	"context"
	"database/sql"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

type coreEnv struct {
	s    *core.SQLiteStore
	path string
	busy []*sql.Conn
}

// release gives back the connections held by "busy"
func (c *coreEnv) release() {
	for _, x := range c.busy {
		x.Close()
	}
	c.busy = nil
}

var bg = context.Background()

func coreConfig(path string, c M) core.Config {
	cfg := core.DefaultConfig()
	cfg.Path = path
	cfg.VectorDim = num(c["dim"])
	switch str(c["sim"]) {
	case "dot":
		cfg.SimilarityFn = core.DotProduct
	case "euclid":
		cfg.SimilarityFn = core.EuclideanDist
	default:
		cfg.SimilarityFn = core.CosineSimilarity
	}
	switch str(c["index"]) {
	case "hnsw":
		cfg.IndexType = core.IndexTypeHNSW
		cfg.HNSW.Enabled = true
		if m := num(c["m"]); m > 0 {
			cfg.HNSW.M = m
		}
		if ef := num(c["ef"]); ef > 0 {
			cfg.HNSW.EfSearch = ef
		}
	case "ivf":
		cfg.IndexType = core.IndexTypeIVF
		cfg.IVF.Enabled = true
		cfg.IVF.NCentroids = 3
		cfg.IVF.NProbe = 3
		if n := num(c["ncent"]); n > 0 {
			cfg.IVF.NCentroids, cfg.IVF.NProbe = n, n
		}
		if n := num(c["nprobe"]); n > 0 {
			cfg.IVF.NProbe = n
		}
	default:
		cfg.IndexType = core.IndexTypeFlat
	}
	switch str(c["quant"]) {
	case "scalar":
		cfg.Quantization.Enabled, cfg.Quantization.Type, cfg.Quantization.NBits = true, "scalar", 8
	case "binary":
		cfg.Quantization.Enabled, cfg.Quantization.Type = true, "binary"
	}
	switch str(c["adapt"]) {
	case "smart":
		cfg.AutoDimAdapt = core.SmartAdapt
	case "truncate":
		cfg.AutoDimAdapt = core.AutoTruncate
	case "pad":
		cfg.AutoDimAdapt = core.AutoPad
	case "warn":
		cfg.AutoDimAdapt = core.WarnOnly
	default:
		cfg.AutoDimAdapt = core.StrictMode
	}
	if ms := num(c["autosave"]); ms > 0 {
		cfg.AutoSave.Enabled, cfg.AutoSave.Interval = true, time.Duration(ms)*time.Millisecond
	}
	return cfg
}

func embIn(v any) *core.Embedding {
	r := obj(v)
	return &core.Embedding{ID: str(r["id"]), Vector: vec(r["vec"]), Content: text(r["txt"]), DocID: str(r["doc"]),
		Metadata: metaIn(r["meta"]), Collection: str(r["col"]), ACL: aclIn(r["acl"])}
}
func aclIn(v any) []string {
	if len(arr(v)) == 0 {
		return nil
	}
	return strs(v)
}
func embOut(e *core.Embedding) M {
	return M{"id": e.ID, "vec": ivec(e.Vector), "txt": words(e.Content), "doc": e.DocID, "meta": metaOut(e.Metadata), "col": e.Collection, "acl": list(e.ACL)}
}
func embsOut(es []*core.Embedding) []any {
	out := []any{}
	for _, e := range es {
		out = append(out, embOut(e))
	}
	return out
}
func hitsOut(rs []core.ScoredEmbedding) []any {
	out := []any{}
	for i := range rs {
		m := embOut(&rs[i].Embedding)
		m["s"] = milli(rs[i].Score)
		out = append(out, m)
	}
	return out
}
func searchOpts(op M) core.SearchOptions {
	return core.SearchOptions{Collection: str(op["col"]), TopK: num(op["k"]), Filter: metaIn(op["filt"]), Threshold: float64(num(op["thr"])) / 1000}
}
func withRes(m M, key string, v any) M { m[key] = v; return m }

func (e *env) openCore(c M) error {
	path := filepath.Join(e.dir, "v.db")
	s, err := core.NewWithConfig(coreConfig(path, c))
	if err != nil {
		return err
	}
	if err := s.Init(bg); err != nil {
		return err
	}
	e.core = &coreEnv{s: s, path: path}
	return nil
}

func docOut(d *core.Document) M {
	seen(d.CreatedAt, d.UpdatedAt)
	return M{"id": d.ID, "title": d.Title, "author": d.Author, "ver": d.Version, "acl": list(d.ACL), "url": d.SourceURL, "txt": words(d.Content), "meta": anyMeta(d.Metadata)}
}
func docIn(v any) *core.Document {
	d := obj(v)
	return &core.Document{ID: str(d["id"]), Title: str(d["title"]), Author: str(d["author"]), Version: num(d["ver"]), ACL: aclIn(d["acl"]), SourceURL: str(d["url"]), Content: text(d["txt"]), Metadata: anyMetaIn(d["meta"])}
}

func init() {
	S := func(e *env) *core.SQLiteStore { return e.core.s }
	reg("seg", func(e *env, op M) M {
		if d := str(op["dom"]); d != "core" {
			return openDomain(e, d, op)
		}
		return res(e.openCore(obj(op["cfg"])))
	})
	reg("close", func(e *env, op M) M { e.core.release(); return res(S(e).Close()) })
	// busy takes n connections out of the pool, so that the following calls run on others
	reg("busy", func(e *env, op M) M {
		e.core.release()
		for i := 0; i < num(op["n"]); i++ {
			c, err := S(e).GetDB().Conn(bg)
			must(err)
			e.core.busy = append(e.core.busy, c)
		}
		return M{"ok": true, "err": ""}
	})
	reg("reopen", func(e *env, op M) M {
		// the previous handle has been closed by an earlier "close"
		if err := e.openCore(obj(op["cfg"])); err != nil {
			return res(err)
		}
		for _, f := range afterOpen {
			if err := f(e); err != nil {
				return res(err)
			}
		}
		return res(nil)
	})
	// the caller's memory is its own again once a write returns: the driver overwrites it
	reg("upsert", func(e *env, op M) M {
		emb := embIn(op["row"])
		return res(S(e).Upsert(bg, emb))
	})
	reg("upsert_batch", func(e *env, op M) M {
		es := []*core.Embedding{}
		for _, r := range arr(op["rows"]) {
			es = append(es, embIn(r))
		}
		return res(S(e).UpsertBatch(bg, es))
	})
	reg("delete", func(e *env, op M) M { return res(S(e).Delete(bg, str(op["id"]))) })
	reg("delete_batch", func(e *env, op M) M { return res(S(e).DeleteBatch(bg, strs(op["ids"]))) })
	reg("delete_by_doc", func(e *env, op M) M { return res(S(e).DeleteByDocID(bg, str(op["doc"]))) })
	reg("clear", func(e *env, op M) M { return res(S(e).Clear(bg)) })
	reg("clear_docs", func(e *env, op M) M { return res(S(e).ClearByDocID(bg, strs(op["docs"]))) })
	reg("create_col", func(e *env, op M) M {
		_, err := S(e).CreateCollection(bg, str(op["name"]), num(op["d"]))
		return res(err)
	})
	reg("delete_col", func(e *env, op M) M { return res(S(e).DeleteCollection(bg, str(op["name"]))) })
	reg("create_doc", func(e *env, op M) M { return res(S(e).CreateDocument(bg, docIn(op["doc"]))) })
	reg("update_doc", func(e *env, op M) M { return res(S(e).UpdateDocument(bg, docIn(op["doc"]))) })
	reg("delete_document", func(e *env, op M) M { return res(S(e).DeleteDocument(bg, str(op["id"]))) })
	reg("fault", func(e *env, op M) M {
		kind, id := str(op["kind"]), str(op["id"])
		ev, ref := "INSERT", "NEW"
		if kind == "del" {
			ev, ref = "DELETE", "OLD"
		}
		_, err := S(e).GetDB().Exec(fmt.Sprintf("CREATE TRIGGER IF NOT EXISTS vf_%s_%x BEFORE %s ON embeddings WHEN %s.id='%s' BEGIN SELECT RAISE(ABORT,'injected fault'); END", kind, id, ev, ref, strings.ReplaceAll(id, "'", "''")))
		must(err)
		return M{"ok": true, "err": ""}
	})
	reg("faults_off", func(e *env, op M) M {
		rows, err := S(e).GetDB().Query("SELECT name FROM sqlite_master WHERE type='trigger' AND name LIKE 'vf\\_%' ESCAPE '\\'")
		must(err)
		var ns []string
		for rows.Next() {
			var n string
			must(rows.Scan(&n))
			ns = append(ns, n)
		}
		rows.Close()
		for _, n := range ns {
			_, err := S(e).GetDB().Exec("DROP TRIGGER " + n)
			must(err)
		}
		return M{"ok": true, "err": ""}
	})
	// reads
	reg("get", func(e *env, op M) M {
		r, err := S(e).GetByID(bg, str(op["id"]))
		m := res(err)
		if err == nil {
			m["row"] = embOut(r)
		} else {
			m["row"] = M{"id": ""}
		}
		return m
	})
	reg("get_by_doc", func(e *env, op M) M {
		rs, err := S(e).GetByDocID(bg, str(op["doc"]))
		return withRes(res(err), "rows", embsOut(rs))
	})
	reg("by_type", func(e *env, op M) M {
		rs, err := S(e).GetDocumentsByType(bg, str(op["type"]))
		return withRes(res(err), "rows", embsOut(rs))
	})
	reg("list_docs", func(e *env, op M) M {
		ds, err := S(e).ListDocuments(bg)
		return withRes(res(err), "docs", list(ds))
	})
	reg("list_docs_info", func(e *env, op M) M {
		ds, err := S(e).ListDocumentsWithInfo(bg)
		out := []any{}
		for _, d := range ds {
			out = append(out, M{"doc": d.DocID, "n": d.EmbeddingCount})
		}
		return withRes(res(err), "docs", out)
	})
	reg("stats", func(e *env, op M) M {
		st, err := S(e).Stats(bg)
		m := res(err)
		m["n"], m["d"] = int(st.Count), st.Dimensions
		return m
	})
	reg("get_col", func(e *env, op M) M {
		c, err := S(e).GetCollection(bg, str(op["name"]))
		m := res(err)
		m["rname"], m["d"] = "", 0
		if err == nil {
			m["rname"], m["d"] = c.Name, c.Dimensions
			seen(c.CreatedAt, c.UpdatedAt)
		}
		return m
	})
	reg("list_cols", func(e *env, op M) M {
		cs, err := S(e).ListCollections(bg)
		out := []any{}
		for _, c := range cs {
			seen(c.CreatedAt, c.UpdatedAt)
			out = append(out, M{"name": c.Name, "dim": c.Dimensions})
		}
		return withRes(res(err), "cols", out)
	})
	reg("col_stats", func(e *env, op M) M {
		c, err := S(e).GetCollectionStats(bg, str(op["name"]))
		m := res(err)
		m["n"], m["d"], m["size"], m["last"] = 0, 0, 0, false
		if err == nil {
			m["n"], m["d"] = int(c.Count), c.Dimensions
			seen(c.CreatedAt)
			if m["size"], m["last"] = int(c.Size), !c.LastInsertedAt.IsZero(); m["last"] == true {
				seen(c.LastInsertedAt)
			}
		}
		return m
	})
	reg("get_document", func(e *env, op M) M {
		d, err := S(e).GetDocument(bg, str(op["id"]))
		m := res(err)
		m["doc"] = M{"id": ""}
		if err == nil {
			m["doc"] = docOut(d)
		}
		return m
	})
	reg("docs_by", func(e *env, op M) M {
		ds, err := S(e).ListDocumentsWithFilter(bg, str(op["author"]), num(op["lim"]))
		out := []any{}
		for _, d := range ds {
			out = append(out, docOut(d))
		}
		return withRes(res(err), "docs", out)
	})
	// snap reads every id that may exist through the API, plus a raw listing of ids so nothing hides
	reg("snap", func(e *env, op M) M {
		ids := map[string]bool{}
		for _, id := range rawIDs(e, "SELECT id FROM embeddings") {
			ids[id] = true
		}
		for _, id := range strs(op["ids"]) {
			ids[id] = true
		}
		ks := []string{}
		for id := range ids {
			ks = append(ks, id)
		}
		sort.Strings(ks)
		rows := []any{}
		for _, id := range ks {
			if r, err := S(e).GetByID(bg, id); err == nil {
				rows = append(rows, embOut(r))
			}
		}
		return M{"ok": true, "err": "", "rows": rows, "docs": list(rawIDs(e, "SELECT id FROM documents"))}
	})
	reg("search", func(e *env, op M) M {
		rs, err := S(e).Search(bg, vec(op["q"]), searchOpts(op))
		return withRes(res(err), "res", hitsOut(rs))
	})
	reg("train_index", func(e *env, op M) M { return res(S(e).TrainIndex(bg, num(op["n"]))) })
}

func rawIDs(e *env, q string) []string {
	rows, err := e.core.s.GetDB().Query(q)
	must(err)
	defer rows.Close()
	out := []string{}
	for rows.Next() {
		var id string
		must(rows.Scan(&id))
		out = append(out, id)
	}
	return out
}
