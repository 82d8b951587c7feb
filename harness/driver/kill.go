package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// childDomains prepare the environment of a process that is going to be killed.
var childDomains = map[string]func(e *env){
	"graph": func(e *env) { e.extra["graph"] = &graphEnv{} },
}

// killable are the operations that write, and whose only result is success or failure
var killable = map[string]bool{"upsert": true, "upsert_batch": true, "delete": true, "delete_batch": true, "delete_by_doc": true, "clear": true, "clear_docs": true,
	"create_col": true, "delete_col": true, "create_doc": true, "update_doc": true, "delete_document": true, "new_session": true, "say": true,
	"put": true, "link": true, "drop": true, "unlink": true, "put_many": true, "link_many": true, "drop_many": true, "unlink_many": true, "g_batch": true}

// in_child runs operations in a process of its own on this segment's database (closed here) and kills it
// some microseconds after operation number "at" began.
func init() {
	n := 0
	reg("in_child", func(e *env, op M) M {
		n++
		prog := filepath.Join(e.dir, fmt.Sprintf("child%d.prog", n))
		trace := filepath.Join(e.dir, fmt.Sprintf("child%d.trace", n))
		var b strings.Builder
		for _, o := range arr(op["ops"]) {
			j, err := json.Marshal(o)
			must(err)
			b.Write(j)
			b.WriteByte('\n')
		}
		must(os.WriteFile(prog, []byte(b.String()), 0o644))
		self, err := os.Executable()
		must(err)
		dom := str(op["dom"])
		if dom == "" {
			dom = "core"
		}
		cmd := exec.Command(self, "-child", dom, "-in", prog, "-out", trace, "-scratch", e.dir, "-optimeout", "20")
		var stderr strings.Builder
		cmd.Stderr = &stderr
		must(cmd.Start())
		dead := make(chan struct{})
		go func() { cmd.Wait(); close(dead) }()
		begun := 0
		deadline := time.Now().Add(25 * time.Second)
		stuck := false
	wait:
		for {
			select {
			case <-dead:
				break wait
			default:
			}
			data, _ := os.ReadFile(trace)
			begun = strings.Count(string(data), `{"begin":`)
			if begun > num(op["at"]) {
				busyWait(time.Duration(num(op["us"])) * time.Microsecond)
				break
			}
			if time.Now().After(deadline) {
				stuck = true
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
		alive := true
		select {
		case <-dead:
			alive = false
		default:
		}
		cmd.Process.Kill()
		<-dead
		data, _ := os.ReadFile(trace)
		pending := ""
		i := -1
		for _, line := range strings.Split(string(data), "\n") {
			var ev M
			if json.Unmarshal([]byte(line), &ev) != nil {
				continue // the last line may be torn
			}
			if name, ok := ev["begin"]; ok {
				pending = str(name)
				i++
				continue
			}
			pending = ""
			e.emit(ev)
		}
		if killable[pending] {
			o := M{"ok": true, "good": 0, "bad": 0, "err": "", "panic": "", "stuck": false}
			for k, v := range obj(arr(op["ops"])[i]) {
				o[k] = v
			}
			e.emit(M{"op": "maybe", "e": o, "panic": "", "stuck": false, "ok": true})
		}
		m := M{"op": "crash", "ok": true, "err": "", "ops": []any{}, "stuck": stuck}
		if !alive {
			m["panic"] = trim("the process died by itself: "+stderr.String(), 300)
		}
		return m
	})
}

func busyWait(d time.Duration) {
	t := time.Now()
	for time.Since(t) < d {
	}
}

// pathOf names the file the database `name` is in at the moment
func (e *env) pathOf(name string) string {
	if n, ok := e.extra["path:"+name].(int); ok {
		return filepath.Join(e.dir, fmt.Sprintf("%s.%d.db", name, n))
	}
	return filepath.Join(e.dir, name+".db")
}

// crash leaves the database as a process killed at this moment would: the files as they are on disk, whatever
// closing the open handle would still write is lost
func (e *env) crash(name string) {
	old := e.pathOf(name)
	n, _ := e.extra["path:"+name].(int)
	e.extra["path:"+name] = n + 1
	for _, suffix := range []string{"", "-wal", "-journal"} {
		b, err := os.ReadFile(old + suffix)
		if os.IsNotExist(err) {
			continue
		}
		must(err)
		must(os.WriteFile(e.pathOf(name)+suffix, b, 0o644))
	}
}
