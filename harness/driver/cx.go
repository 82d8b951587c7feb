package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/modelcontextprotocol/go-sdk/mcp"
)

// wordEmbedder turns a text into the counts of its words in three classes, or fails when told to
type wordEmbedder struct{ fail bool }

func wordVec(text string) []float32 {
	v := []float32{0, 0, 0}
	for _, w := range strings.Fields(strings.ToLower(text)) {
		v[int(w[0])%3]++
	}
	return v
}
func (w *wordEmbedder) Embed(_ context.Context, text string) ([]float32, error) {
	if w.fail {
		return nil, errors.New("no embedding")
	}
	return wordVec(text), nil
}
func (w *wordEmbedder) EmbedBatch(c context.Context, texts []string) ([][]float32, error) {
	out := [][]float32{}
	for _, t := range texts {
		v, err := w.Embed(c, t)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}
func (w *wordEmbedder) Dim() int { return 3 }

type cxState struct {
	db    *cortexdb.DB
	emb   *wordEmbedder
	start time.Time
	sess  *mcp.ClientSession
}

func (c *cxState) Close() error {
	if c.sess != nil {
		_ = c.sess.Close()
		c.sess = nil
	}
	return c.db.Close()
}
func (e *env) openCX(op M) error {
	c := &cxState{start: time.Now()}
	if old, ok := e.extra["cx"].(*cxState); ok {
		c.start = old.start
	}
	cfg := cortexdb.DefaultConfig(e.pathOf("cx"))
	o := obj(op["cfg"])
	switch str(o["index"]) {
	case "flat":
		cfg.IndexType = core.IndexTypeFlat
	case "ivf":
		cfg.IndexType = core.IndexTypeIVF
	}
	opts := []cortexdb.Option{}
	if boolean(o["emb"]) {
		c.emb = &wordEmbedder{}
		cfg.Dimensions = 3
		opts = append(opts, cortexdb.WithEmbedder(c.emb))
	}
	db, err := cortexdb.Open(cfg, opts...)
	if err != nil {
		return err
	}
	c.db = db
	e.extra["cx"] = c
	return nil
}
func cx(e *env) *cxState { return e.extra["cx"].(*cxState) }
func (c *cxState) ms() int { return int(time.Since(c.start) / time.Millisecond) }

// mcpCall sends the payload to the same tool through an MCP client connected to the server
func (c *cxState) connect() error {
	if c.sess != nil {
		return nil
	}
	a, b := mcp.NewInMemoryTransports()
	srv := c.db.NewMCPServer(cortexdb.MCPServerOptions{})
	if _, err := srv.Connect(bg, a, nil); err != nil {
		return err
	}
	cl := mcp.NewClient(&mcp.Implementation{Name: "driver", Version: "1"}, nil)
	s, err := cl.Connect(bg, b, nil)
	if err != nil {
		return err
	}
	c.sess = s
	return nil
}
func (c *cxState) mcpCall(ctx context.Context, name string, in json.RawMessage) (json.RawMessage, error) {
	if err := c.connect(); err != nil {
		return nil, err
	}
	r, err := c.sess.CallTool(ctx, &mcp.CallToolParams{Name: name, Arguments: in})
	if err != nil {
		return nil, err
	}
	if r.IsError {
		msg := "tool error"
		if len(r.Content) > 0 {
			if t, ok := r.Content[0].(*mcp.TextContent); ok {
				msg = t.Text
			}
		}
		return nil, errors.New(msg)
	}
	return json.Marshal(r.StructuredContent)
}

// call runs one request either directly, as a tool, or over MCP; the answer always comes back as Out
func call[In, Out any](c *cxState, via, tool string, req In, direct func(context.Context, In) (*Out, error)) (Out, error) {
	return callIn(bg, c, via, tool, req, direct)
}
func callIn[In, Out any](ctx context.Context, c *cxState, via, tool string, req In, direct func(context.Context, In) (*Out, error)) (Out, error) {
	var zero Out
	if via == "" || via == "direct" {
		r, err := direct(ctx, req)
		if err != nil {
			return zero, err
		}
		return *r, nil
	}
	in, err := json.Marshal(req)
	if err != nil {
		return zero, err
	}
	var out json.RawMessage
	if via == "mcp" {
		if out, err = c.mcpCall(ctx, tool, in); err != nil {
			return zero, err
		}
	} else {
		r, err := c.db.GraphRAGTools().Call(ctx, tool, in)
		if err != nil {
			return zero, err
		}
		if out, err = json.Marshal(r); err != nil {
			return zero, err
		}
	}
	var o Out
	if err := json.Unmarshal(out, &o); err != nil {
		return zero, fmt.Errorf("undecodable result: %w", err)
	}
	return o, nil
}
func optStr(op M, k string) *string {
	v, ok := op[k]
	if !ok {
		return nil
	}
	s := text(v)
	return &s
}
func optInt(op M, k string) *int {
	v, ok := op[k]
	if !ok {
		return nil
	}
	n := num(v)
	return &n
}
func init() {
	domains["cx"] = func(e *env, op M) M { return res(e.openCX(op)) }
	reg("cx_reopen", func(e *env, op M) M {
		if boolean(op["crash"]) {
			e.crash("cx")
		}
		if err := cx(e).Close(); err != nil {
			return res(err)
		}
		return res(e.openCX(op))
	})
	reg("cx_embfail", func(e *env, op M) M {
		if cx(e).emb != nil {
			cx(e).emb.fail = boolean(op["on"])
		}
		return res(nil)
	})
	reg("cx_sleep", func(e *env, op M) M { time.Sleep(time.Duration(num(op["ms"])) * time.Millisecond); return res(nil) })
}
