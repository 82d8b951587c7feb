package main

import (
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// conc runs several threads of operations at once; their events carry the interval of a logical clock during
// which each one ran, and are recorded as one group.
func init() {
	grp := 0
	reg("conc", func(e *env, op M) M {
		grp++
		var clock, arrived atomic.Int64
		var mu sync.Mutex
		evs := []M{}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for ti, th := range arr(op["threads"]) {
			wg.Add(1)
			go func(ti int, ops []any) {
				defer wg.Done()
				r := rand.New(rand.NewSource(int64(num(op["seed"])*31 + ti)))
				<-start
				for k, o := range ops {
					if op["step"] == true { // the callers take their steps together
						arrived.Add(1)
						for t := time.Now(); arrived.Load() < int64((k+1)*len(arr(op["threads"]))) && time.Since(t) < 20*time.Millisecond; {
						}
					} else {
						switch r.Intn(4) {
						case 0:
							runtime.Gosched()
						case 1:
							busyWait(time.Duration(r.Intn(150)) * time.Microsecond)
						}
					}
					t0 := clock.Add(1)
					ev := run(e, obj(o), str(obj(o)["op"]))
					ev["c0"], ev["c1"], ev["th"] = t0, clock.Add(1), ti
					mu.Lock()
					evs = append(evs, ev)
					mu.Unlock()
					if ev["panic"] != "" || ev["stuck"] == true {
						return
					}
				}
			}(ti, arr(th))
		}
		close(start)
		wg.Wait()
		sort.Slice(evs, func(i, j int) bool { return evs[i]["c0"].(int64) < evs[j]["c0"].(int64) })
		dead := false
		for _, ev := range evs {
			ev["grp"], ev["gn"] = grp, len(evs)
			dead = dead || ev["panic"] != "" || ev["stuck"] == true
			e.emit(ev)
		}
		e.dead = e.dead || dead
		return M{"op": "conc_end", "threads": []any{}, "ok": true, "err": ""}
	})
	reg("noise", func(e *env, op M) M { return res(e.core.s.Upsert(bg, embIn(op["row"]))) })
}
