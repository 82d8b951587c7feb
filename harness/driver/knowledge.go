package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"math"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/modelcontextprotocol/go-sdk/mcp"
)

// linkExtractor finds the capitalised words and links each to the next; it fails on "boom"
type linkExtractor struct{}

func (linkExtractor) Extract(_ context.Context, text string) (*cortexdb.GraphExtraction, error) {
	x := &cortexdb.GraphExtraction{}
	last := ""
	for _, w := range strings.Fields(text) {
		if w == "boom" {
			return nil, errors.New("cannot extract")
		}
		if w[0] >= 'A' && w[0] <= 'Z' && w != "NOT" {
			x.Entities = append(x.Entities, cortexdb.GraphEntity{Name: w})
			if last != "" {
				x.Relationships = append(x.Relationships, cortexdb.GraphRelationship{From: last, To: w, Type: "next_to"})
			}
			last = w
		}
	}
	return x, nil
}

// a body is a list of paragraphs, each a list of words
func bodyIn(v any) string {
	ps := []string{}
	for _, p := range arr(v) {
		ps = append(ps, text(p))
	}
	return strings.Join(ps, "\n")
}
func bodyOut(s string) []any {
	out := []any{}
	if s == "" {
		return out
	}
	for _, p := range strings.Split(s, "\n") {
		out = append(out, toks(p))
	}
	return out
}
func names(ss []string) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, toks(s))
	}
	return out
}
func plain(ss []string) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}
func pairs(m map[string]string) []any {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []any{}
	for _, k := range ks {
		out = append(out, []any{k, m[k]})
	}
	return out
}
func wordLists(v any) []string {
	out := []string{}
	for _, w := range arr(v) {
		out = append(out, text(w))
	}
	return out
}
func entsIn(v any) (out []cortexdb.ToolEntityInput) {
	for _, x := range arr(v) {
		o := obj(x)
		out = append(out, cortexdb.ToolEntityInput{ID: str(o["id"]), Name: text(o["name"]), Type: str(o["type"]), ChunkIDs: strs(o["chunks"]), Metadata: metaIn(o["meta"])})
	}
	return
}
func relsIn(v any) (out []cortexdb.ToolRelationInput) {
	for _, x := range arr(v) {
		o := obj(x)
		out = append(out, cortexdb.ToolRelationInput{From: text(o["from"]), To: text(o["to"]), Type: str(o["type"]), Weight: float64(num(o["w"])) / 1000, Metadata: metaIn(o["meta"])})
	}
	return
}
func recOut(r cortexdb.KnowledgeRecord) M {
	if r.ID != "" {
		seen(r.CreatedAt, r.UpdatedAt)
	}
	return M{"id": r.ID, "title": r.Title, "body": bodyOut(r.Content), "url": r.SourceURL, "author": r.Author, "coll": r.Collection, "meta": pairs(r.Metadata),
		"chunks": plain(r.ChunkIDs), "ents": names(r.Entities)}
}
func nodesOut(ns []*graph.GraphNode) []any {
	out := []any{}
	for _, n := range ns {
		out = append(out, M{"id": n.ID, "type": n.NodeType, "txt": toks(n.Content)})
	}
	return out
}
func edgesOut(es []*graph.GraphEdge) []any {
	out := []any{}
	for _, x := range es {
		d := ""
		if x.Properties != nil {
			d, _ = x.Properties["document_id"].(string)
		}
		out = append(out, M{"from": x.FromNodeID, "to": x.ToNodeID, "type": x.EdgeType, "w": int(math.Round(x.Weight * 1000)), "doc": d})
	}
	return out
}
func ragOut(cs []cortexdb.GraphRAGChunkResult) []any {
	out := []any{}
	for _, c := range cs {
		out = append(out, M{"id": c.ID, "doc": c.DocumentID, "txt": toks(c.Content), "ents": names(c.Entities), "s": int(math.Round(c.Score * 1e6))})
	}
	return out
}
func toolChunksOut(cs []cortexdb.ToolChunk) []any {
	out := []any{}
	for _, c := range cs {
		out = append(out, M{"id": c.ID, "doc": c.DocumentID, "txt": toks(c.Content), "ents": names(c.Entities)})
	}
	return out
}

// linesOut splits a context into [prefix, words] lines
func linesOut(s string) []any {
	out := []any{}
	if s == "" {
		return out
	}
	for _, l := range strings.Split(s, "\n") {
		p, rest := "?", l
		if i := strings.Index(l, "] "); strings.HasPrefix(l, "[") && i > 0 {
			p, rest = l[1:i], l[i+2:]
		}
		out = append(out, []any{p, toks(rest)})
	}
	return out
}
func opts(m M, op M, ks ...string) {
	for _, k := range ks {
		if v, ok := op[k]; ok {
			m["o_"+k] = []any{v}
		} else {
			m["o_"+k] = []any{}
		}
	}
}

// lowStore is what cx_dump needs of the vector store
type lowStore interface {
	GetDB() *sql.DB
	GetDocument(context.Context, string) (*core.Document, error)
	GetByID(context.Context, string) (*core.Embedding, error)
}

func column(s lowStore, q string) ([]string, error) {
	rows, err := s.GetDB().QueryContext(bg, q)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	out := []string{}
	for rows.Next() {
		var x string
		if err := rows.Scan(&x); err != nil {
			return nil, err
		}
		out = append(out, x)
	}
	return out, rows.Err()
}

// limited runs f with a context that ends after op.within microseconds, if given (-1: ended already)
func limited(op M, f func(context.Context) error) (bool, error) {
	v, ok := op["within"]
	if !ok {
		return false, f(bg)
	}
	if n := num(v); n < 0 {
		c, cancel := context.WithCancel(bg)
		cancel()
		return true, f(c)
	}
	c, cancel := context.WithTimeout(bg, time.Duration(num(v))*time.Microsecond)
	defer cancel()
	return true, f(c)
}
func init() {
	tools := func(e *env) *cortexdb.GraphRAGToolbox { return cx(e).db.GraphRAGTools() }
	via := func(op M) string { return str(op["via"]) }
	reg("kn_save", func(e *env, op M) M {
		q := cortexdb.KnowledgeSaveRequest{KnowledgeID: str(op["id"]), Title: str(op["title"]), Content: bodyIn(op["body"]), SourceURL: str(op["url"]), Author: str(op["author"]), Collection: str(op["coll"]),
			ChunkSize: num(op["size"]), ChunkOverlap: num(op["overlap"]), Metadata: metaIn(op["meta"]), Entities: entsIn(op["ents"]), Relations: relsIn(op["rels"])}
		var r cortexdb.KnowledgeSaveResponse
		cut, err := limited(op, func(c context.Context) (err error) {
			r, err = callIn(c, cx(e), via(op), "knowledge_save", q, cx(e).db.SaveKnowledge)
			return
		})
		return qres(M{"res": recOut(r.Knowledge), "node": r.DocumentNodeID, "eids": plain(r.EntityNodeIDs), "rids": plain(r.RelationEdgeIDs), "cut": cut}, err)
	})
	reg("kn_update", func(e *env, op M) M {
		q := cortexdb.KnowledgeUpdateRequest{KnowledgeID: str(op["id"]), ChunkSize: optInt(op, "size"), ChunkOverlap: optInt(op, "overlap"), Entities: entsIn(op["ents"]), Relations: relsIn(op["rels"])}
		for k, p := range map[string]**string{"title": &q.Title, "url": &q.SourceURL, "author": &q.Author, "coll": &q.Collection} {
			if v, ok := op[k]; ok {
				s := str(v)
				*p = &s
			}
		}
		if v, ok := op["body"]; ok {
			s := bodyIn(v)
			q.Content = &s
		}
		if v, ok := op["meta"]; ok {
			if q.Metadata = metaIn(v); q.Metadata == nil {
				q.Metadata = map[string]string{}
			}
		}
		var r cortexdb.KnowledgeSaveResponse
		cut, err := limited(op, func(c context.Context) (err error) {
			r, err = callIn(c, cx(e), via(op), "knowledge_update", q, cx(e).db.UpdateKnowledge)
			return
		})
		m := qres(M{"res": recOut(r.Knowledge), "cut": cut}, err)
		opts(m, op, "title", "body", "url", "author", "coll", "size", "overlap", "meta")
		return m
	})
	reg("kn_get", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "knowledge_get", cortexdb.KnowledgeGetRequest{KnowledgeID: str(op["id"])}, cx(e).db.GetKnowledge)
		return qres(M{"res": recOut(r.Knowledge)}, err)
	})
	reg("kn_del", func(e *env, op M) M {
		var r cortexdb.KnowledgeDeleteResponse
		cut, err := limited(op, func(c context.Context) (err error) {
			r, err = callIn(c, cx(e), via(op), "knowledge_delete", cortexdb.KnowledgeDeleteRequest{KnowledgeID: str(op["id"])}, cx(e).db.DeleteKnowledge)
			return
		})
		return qres(M{"rid": r.KnowledgeID, "done": r.Deleted, "cut": cut}, err)
	})
	reg("kn_search", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "knowledge_search", cortexdb.KnowledgeSearchRequest{Query: text(op["q"]), Collection: str(op["coll"]), TopK: num(op["k"]), MaxHops: num(op["h"]), MaxRelatedChunks: num(op["mr"]),
			MaxContextChunks: num(op["mc"]), MaxContextChars: num(op["mx"]), PerDocumentLimit: num(op["pd"]), EntityNames: wordLists(op["names"]), Keywords: strs(op["kw"]), AlternateQueries: wordLists(op["alt"]),
			RetrievalMode: str(op["mode"]), DisableGraph: boolean(op["off"])}, cx(e).db.SearchKnowledge)
		hits := []any{}
		down := true
		for i, h := range r.Results {
			sn := strings.TrimSuffix(h.Snippet, "...")
			ws := toks(sn)
			if sn != h.Snippet && len(ws) > 0 {
				ws = ws[:len(ws)-1] // the last word may have been cut
			}
			hits = append(hits, M{"s": int(math.Round(h.Score * 1e6)), "id": h.KnowledgeID, "title": h.Title, "url": h.SourceURL, "author": h.Author, "meta": pairs(h.Metadata), "chunks": plain(h.ChunkIDs), "ents": names(h.Entities), "snip": ws, "valid": utf8.ValidString(h.Snippet) && !strings.ContainsRune(h.Snippet, utf8.RuneError)})
			down = down && (i == 0 || h.Score <= r.Results[i-1].Score)
		}
		return qres(M{"res": ragOut(r.Chunks), "ents": names(r.Entities), "lines": linesOut(r.Context), "clen": len(r.Context), "hits": hits, "down": down}, err)
	})
	reg("gr_ingest", func(e *env, op M) M {
		var r cortexdb.ToolIngestDocumentResponse
		cut, err := limited(op, func(c context.Context) (err error) {
			r, err = callIn(c, cx(e), via(op), "ingest_document", cortexdb.ToolIngestDocumentRequest{DocumentID: str(op["id"]), Title: str(op["title"]), Content: bodyIn(op["body"]), Collection: str(op["coll"]),
				ChunkSize: num(op["size"]), ChunkOverlap: num(op["overlap"]), Metadata: metaIn(op["meta"])}, tools(e).IngestDocument)
			return
		})
		return qres(M{"node": r.DocumentNodeID, "cids": plain(r.ChunkNodeIDs), "rcoll": r.Collection, "cut": cut}, err)
	})
	reg("gr_insert", func(e *env, op M) M {
		r := &cortexdb.GraphRAGIngestResult{}
		cut, err := limited(op, func(c context.Context) (err error) {
			o := cortexdb.GraphRAGIngestOptions{Collection: str(op["coll"]), ChunkSize: num(op["size"]), ChunkOverlap: num(op["overlap"])}
			if str(op["ext"]) == "links" {
				o.Extractor = linkExtractor{}
			}
			x, err := cx(e).db.InsertGraphDocument(c, cortexdb.GraphRAGDocument{ID: str(op["id"]), Title: str(op["title"]), Content: bodyIn(op["body"]), Metadata: metaIn(op["meta"])}, o)
			if err == nil {
				r = x
			}
			return err
		})
		return qres(M{"node": r.DocumentNodeID, "cids": plain(r.ChunkNodeIDs), "eids": plain(r.EntityNodeIDs), "cut": cut}, err)
	})
	reg("gr_ents", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "upsert_entities", cortexdb.ToolUpsertEntitiesRequest{DocumentID: str(op["doc"]), Entities: entsIn(op["ents"])}, tools(e).UpsertEntities)
		return qres(M{"eids": plain(r.EntityNodeIDs), "count": r.MentionEdgeCount}, err)
	})
	reg("gr_rels", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "upsert_relations", cortexdb.ToolUpsertRelationsRequest{DocumentID: str(op["doc"]), Relations: relsIn(op["rels"])}, tools(e).UpsertRelations)
		return qres(M{"rids": plain(r.EdgeIDs)}, err)
	})
	reg("gr_search", func(e *env, op M) M {
		r := &cortexdb.GraphRAGQueryResult{}
		x, err := cx(e).db.SearchGraphRAG(bg, text(op["q"]), cortexdb.GraphRAGQueryOptions{Collection: str(op["coll"]), TopK: num(op["k"]), MaxHops: num(op["h"]), MaxRelatedChunks: num(op["mr"]),
			MaxContextChunks: num(op["mc"]), MaxContextChars: num(op["mx"]), PerDocumentLimit: num(op["pd"]), RetrievalMode: str(op["mode"]), DisableGraph: boolean(op["off"]), DiversityLambda: float64(num(op["lam"])) / 1000})
		if err == nil {
			r = x
		}
		return qres(M{"res": ragOut(r.Chunks), "ents": names(r.Entities), "lines": linesOut(r.Context), "clen": len(r.Context)}, err)
	})
	reg("gr_lexical", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "search_graphrag_lexical", cortexdb.ToolSearchGraphRAGLexicalRequest{Query: text(op["q"]), Collection: str(op["coll"]), TopK: num(op["k"]), MaxHops: num(op["h"]), MaxRelatedChunks: num(op["mr"]),
			MaxContextChunks: num(op["mc"]), MaxContextChars: num(op["mx"]), PerDocumentLimit: num(op["pd"]), DiversityLambda: float64(num(op["lam"])) / 1000, EntityNames: wordLists(op["names"]), Keywords: strs(op["kw"]),
			AlternateQueries: wordLists(op["alt"]), RetrievalMode: str(op["mode"]), DisableGraph: boolean(op["off"])}, tools(e).SearchGraphRAGLexical)
		return qres(M{"res": ragOut(r.Chunks), "ents": names(r.Entities), "lines": linesOut(r.Context), "clen": len(r.Context)}, err)
	})
	reg("gr_text", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "search_text", cortexdb.ToolSearchTextRequest{Query: text(op["q"]), Collection: str(op["coll"]), TopK: num(op["k"]), Keywords: strs(op["kw"]), AlternateQueries: wordLists(op["alt"]),
			RetrievalMode: str(op["mode"]), DisableGraph: boolean(op["off"])}, tools(e).SearchText)
		return qres(M{"res": toolChunksOut(r.Chunks)}, err)
	})
	reg("cx_words", func(e *env, op M) M {
		r, err := cx(e).db.SearchTextOnly(bg, text(op["q"]), cortexdb.TextSearchOptions{Collection: str(op["coll"]), TopK: num(op["k"])})
		ids := []any{}
		for _, x := range r {
			ids = append(ids, x.ID)
		}
		return qres(M{"ids": ids}, err)
	})
	reg("gr_byent", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "search_chunks_by_entities", cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: wordLists(op["names"]), TopK: num(op["k"]), MaxHops: num(op["h"])}, tools(e).SearchChunksByEntities)
		return qres(M{"res": toolChunksOut(r.Chunks)}, err)
	})
	reg("gr_expand", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "expand_graph", cortexdb.ToolExpandGraphRequest{NodeIDs: strs(op["ids"]), MaxHops: num(op["h"]), EdgeTypes: strs(op["ets"]), NodeTypes: strs(op["nts"]), Limit: num(op["lim"])}, tools(e).ExpandGraph)
		return qres(M{"nodes": nodesOut(r.Nodes), "edges": edgesOut(r.Edges)}, err)
	})
	reg("gr_nodes", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "get_nodes", cortexdb.ToolGetNodesRequest{NodeIDs: strs(op["ids"])}, tools(e).GetNodes)
		return qres(M{"nodes": nodesOut(r.Nodes)}, err)
	})
	reg("gr_chunks", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "get_chunks", cortexdb.ToolGetChunksRequest{ChunkIDs: strs(op["ids"]), RetrievalMode: str(op["mode"]), DisableGraph: boolean(op["off"])}, tools(e).GetChunks)
		return qres(M{"res": toolChunksOut(r.Chunks)}, err)
	})
	reg("gr_context", func(e *env, op M) M {
		r, err := call(cx(e), via(op), "build_context", cortexdb.ToolBuildContextRequest{ChunkIDs: strs(op["ids"]), MaxContextChunks: num(op["mc"]), MaxContextChars: num(op["mx"]), PerDocumentLimit: num(op["pd"]),
			RetrievalMode: str(op["mode"]), DisableGraph: boolean(op["off"])}, tools(e).BuildContext)
		return qres(M{"res": ragOut(r.Chunks), "lines": linesOut(r.Context), "clen": len(r.Context)}, err)
	})
	// everything there is, read below the knowledge interface
	reg("cx_dump", func(e *env, op M) M {
		m := M{"docs": []any{}, "chunks": []any{}, "nodes": []any{}, "edges": []any{}}
		store, g := cx(e).db.Vector(), cx(e).db.Graph()
		s := store.(lowStore)
		err := func() error {
			ids, err := column(s, "SELECT id FROM documents ORDER BY id")
			if err != nil {
				return err
			}
			ds := []any{}
			for _, id := range ids {
				d, err := s.GetDocument(bg, id)
				if err != nil {
					return err
				}
				mp := map[string]string{}
				for k, v := range d.Metadata {
					mp[k], _ = v.(string)
				}
				ds = append(ds, M{"id": d.ID, "title": d.Title, "body": bodyOut(d.Content), "url": d.SourceURL, "author": d.Author, "meta": pairs(mp), "ver": d.Version})
			}
			m["docs"] = ds
			if ids, err = column(s, "SELECT id FROM embeddings ORDER BY id"); err != nil {
				return err
			}
			cs := []any{}
			for _, id := range ids {
				c, err := s.GetByID(bg, id)
				if err != nil {
					return err
				}
				cs = append(cs, M{"id": c.ID, "doc": c.DocID, "coll": c.Collection, "txt": toks(c.Content)})
			}
			m["chunks"] = cs
			if err := g.InitGraphSchema(bg); err != nil {
				return err
			}
			ns, err := g.GetAllNodes(bg, nil)
			if err != nil {
				return err
			}
			m["nodes"] = nodesOut(ns)
			es := []*graph.GraphEdge{}
			for _, n := range ns {
				x, err := g.GetEdges(bg, n.ID, "out")
				if err != nil {
					return err
				}
				es = append(es, x...)
			}
			m["edges"] = edgesOut(es)
			return nil
		}()
		return qres(m, err)
	})
	// a payload no tool should accept
	reg("cx_tool", func(e *env, op M) M {
		var err error
		if via(op) == "mcp" {
			_, err = cx(e).mcpCall(bg, str(op["tool"]), json.RawMessage(str(op["payload"])))
		} else {
			_, err = tools(e).Call(bg, str(op["tool"]), json.RawMessage(str(op["payload"])))
		}
		return qres(M{"refused": err != nil}, err)
	})
	// the tools advertised here and over MCP
	reg("cx_tools", func(e *env, op M) M {
		a := []string{}
		for _, d := range tools(e).Definitions() {
			a = append(a, d.Name)
		}
		b := []string{}
		err := cx(e).connect()
		if err == nil {
			r, err2 := cx(e).sess.ListTools(bg, &mcp.ListToolsParams{})
			err = err2
			if err == nil {
				for _, t := range r.Tools {
					b = append(b, t.Name)
				}
			}
		}
		sort.Strings(a)
		sort.Strings(b)
		return qres(M{"names": plain(a), "same": strings.Join(a, ",") == strings.Join(b, ",")}, err)
	})
}
