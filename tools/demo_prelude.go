package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
//IMPORTS
)

var ctx = context.Background()
var _ = filepath.Join
var _ core.Config

func must(err error) {
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(3)
	}
}
func check(ok bool, what string, args ...any) {
	if !ok {
		fmt.Printf("BROKEN: "+what+"\n", args...)
		os.Exit(1)
	}
}

// open opens a store in the scratch directory (the first argument)
func open(name string, edit func(c *core.Config)) *core.SQLiteStore {
	c := core.DefaultConfig()
	c.Path = filepath.Join(os.Args[1], name)
	c.VectorDim = 3
	c.IndexType = core.IndexTypeFlat
	c.HNSW.Enabled = false
	if edit != nil {
		edit(&c)
	}
	s, err := core.NewWithConfig(c)
	must(err)
	must(s.Init(ctx))
	return s
}

