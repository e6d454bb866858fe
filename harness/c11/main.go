// Driver for C11 and C12: runs client programs on the (instrumented copy of the) spin locks under the
// controlled scheduler, or freely, and records call/return histories.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	gosync "sync"
	"sync/atomic"

	"gxi/sync"
	"gxverif/drv"
	"gxverif/sched"
)

var explore = flag.String("explore", "", "file of exploration jobs (ndjson); histories go to -eout")
var eout = flag.String("eout", "", "output of exploration")

// lock gives the four operations by name.
type lock struct {
	ops map[string]func()
}

func mk(kind string) lock {
	if kind == "spin" {
		l := &sync.SpinLock{}
		return lock{map[string]func(){"L": l.Lock, "U": l.Unlock}}
	}
	l := &sync.RWSpinLock{}
	return lock{map[string]func(){"L": l.Lock, "U": l.Unlock, "RL": l.RLock, "RU": l.RUnlock}}
}

type job struct {
	Kind    string     `json:"kind"`
	Progs   [][]string `json:"progs"`
	Preempt int        `json:"preempt"`
	Max     int        `json:"max"`
}

// bodies are the controlled goroutines; log collects the events.
func bodies(j job, log *[]drv.Ev) []func() {
	l := mk(j.Kind)
	var bs []func()
	for i, p := range j.Progs {
		t, p := i+1, p
		bs = append(bs, func() {
			for _, f := range p {
				op := l.ops[f]
				sched.Boundary()
				*log = append(*log, drv.Ev{"op": "call", "t": t, "f": f, "p": 0})
				func() {
					defer func() {
						if r := recover(); r != nil {
							if sched.IsAbort(r) {
								panic(r)
							}
							*log = append(*log, drv.Ev{"op": "panic", "t": t, "f": f, "n": 0, "p": 0})
						}
					}()
					op()
					*log = append(*log, drv.Ev{"op": "ret", "t": t, "f": f, "p": 0})
				}()
				sched.Boundary()
			}
		})
	}
	return bs
}

func one(j job, path []int) []drv.Ev {
	log := []drv.Ev{}
	r, _ := sched.Run(bodies(j, &log), path, j.Preempt)
	if r.Stuck {
		log = append(log, r.Last())
	}
	return log
}

func doExplore() {
	in, err := os.Open(*explore)
	if err != nil {
		drv.Fail("%v", err)
	}
	out, err := os.Create(*eout)
	if err != nil {
		drv.Fail("%v", err)
	}
	w := bufio.NewWriter(out)
	seen := map[[32]byte]bool{}
	rd := bufio.NewScanner(in)
	rd.Buffer(nil, 1<<20)
	total, complete, jobs := 0, 0, 0
	for rd.Scan() {
		var j job
		if err := json.Unmarshal(rd.Bytes(), &j); err != nil {
			drv.Fail("%v", err)
		}
		var log []drv.Ev
		n, c := sched.Explore(func() []func() { log = []drv.Ev{}; return bodies(j, &log) }, j.Preempt, j.Max, func(r sched.Result) {
			if r.Stuck {
				log = append(log, r.Last())
			}
			b, _ := json.Marshal(log)
			h := sha256.Sum256(b)
			if !seen[h] {
				seen[h] = true
				o, _ := json.Marshal(map[string]interface{}{"trace": log, "script": [][]interface{}{{"replay", j.Kind, j.Progs, r.Path, j.Preempt}}})
				w.Write(o)
				w.WriteByte('\n')
			}
		})
		total += n
		jobs++
		if c {
			complete++
		}
	}
	w.Flush()
	out.Close()
	fmt.Printf("{\"executions\":%d,\"jobs\":%d,\"complete\":%d,\"histories\":%d}\n", total, jobs, complete, len(seen))
}

func strs(x interface{}) (r []string) {
	for _, v := range x.([]interface{}) {
		r = append(r, v.(string))
	}
	return
}

func main() {
	for i, a := range os.Args {
		if a == "-explore" && i > 0 {
			flag.Parse()
			doExplore()
			return
		}
	}
	sched.Tick = drv.Tick
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s {
			switch st.Name() {
			case "replay":
				j := job{Kind: st.Str(1), Preempt: st.Int(4)}
				for _, p := range st[2].([]interface{}) {
					j.Progs = append(j.Progs, strs(p))
				}
				for _, e := range one(j, st.Ints(3)) {
					t.Emit(e)
				}
			case "solo": // goroutine 2 waits in f while goroutine 1 holds by g; release after at operations (0: never)
				solo(t, st.Str(1), st.Str(2), st.Str(3), st.Int(4))
			case "crowd": // many readers inside together
				crowd(t, st.Int(1))
			case "free":
				free(t, st)
			default:
				drv.Fail("op %v", st)
			}
		}
	})
}

var rel = map[string]string{"L": "U", "RL": "RU"}

func solo(t *drv.T, kind, g, f string, at int) {
	l := mk(kind)
	do := func(th int, f string) {
		t.Emit(drv.Ev{"op": "call", "t": th, "f": f, "p": 0})
		n, pan, gave := sched.Solo(l.ops[f], 0, nil, 1<<27)
		emit(t, th, f, n, pan, gave)
	}
	do(1, g)
	t.Emit(drv.Ev{"op": "call", "t": 2, "f": f, "p": 0})
	var hook func()
	if at > 0 {
		hook = func() {
			t.Emit(drv.Ev{"op": "call", "t": 1, "f": rel[g], "p": 0})
			pan := drv.Try(l.ops[rel[g]])
			emit(t, 1, rel[g], 0, pan, false)
		}
	}
	n, pan, gave := sched.Solo(l.ops[f], at, hook, 1<<27)
	emit(t, 2, f, n, pan, gave)
	if gave {
		return
	}
	if at == 0 { // still held by 1, who can release it
		do(1, rel[g])
	} else {
		do(2, rel[f])
	}
	for _, f := range []string{"L", "RL"} { // and the lock works again
		if l.ops[f] != nil {
			do(3, f)
			do(3, rel[f])
		}
	}
	do(3, rel[f])
}

func crowd(t *drv.T, k int) {
	l := mk("rw")
	many := func(f string) {
		done := 0
		sched.Solo(func() {
			for ; done < k; done++ {
				l.ops[f]()
			}
		}, 0, nil, 1<<27)
		t.Emit(drv.Ev{"op": "many", "t": 1, "f": f, "k": k, "done": done, "p": 0})
	}
	do := func(th int, f string) {
		t.Emit(drv.Ev{"op": "call", "t": th, "f": f, "p": 0})
		n, pan, gave := sched.Solo(l.ops[f], 0, nil, 1<<27)
		emit(t, th, f, n, pan, gave)
	}
	many("RL")
	do(2, "L") // gives up
	do(2, "U") // refused
	do(3, "RL")
	do(3, "RU")
	many("RU")
	do(2, "RU") // refused
	do(2, "L")
	do(2, "U")
	many("RL")
	many("RU")
}

func emit(t *drv.T, th int, f string, n int, pan, gave bool) {
	switch {
	case gave:
		t.Emit(drv.Ev{"op": "HANG", "t": th, "f": f, "p": 2})
	case pan:
		t.Emit(drv.Ev{"op": "panic", "t": th, "f": f, "n": n, "p": 0})
	default:
		t.Emit(drv.Ev{"op": "ret", "t": th, "f": f, "p": 0})
	}
}

// free runs well-formed programs on real goroutines; the log order is that of a global counter taken
// just before each call and just after each return.
func free(t *drv.T, st drv.Step) {
	l := mk(st.Str(1))
	var progs [][]string
	for _, p := range st[2].([]interface{}) {
		progs = append(progs, strs(p))
	}
	total := 0
	for _, p := range progs {
		total += 2 * len(p)
	}
	log := make([]drv.Ev, total+8)
	var pos int64 = -1
	put := func(e drv.Ev) { log[atomic.AddInt64(&pos, 1)] = e }
	var wg gosync.WaitGroup
	start := make(chan bool)
	for i, p := range progs {
		wg.Add(1)
		go func(th int, p []string) {
			defer wg.Done()
			<-start
			for _, f := range p {
				e := drv.Ev{"op": "call", "t": th, "f": f, "p": 0}
				r := drv.Ev{"op": "ret", "t": th, "f": f, "p": 0}
				put(e)
				if drv.Try(l.ops[f]) {
					put(drv.Ev{"op": "panic", "t": th, "f": f, "n": 1 << 26, "p": 0})
					return
				}
				put(r)
				runtime.Gosched()
			}
		}(i+1, p)
	}
	close(start)
	wg.Wait()
	for _, e := range log[:pos+1] {
		t.Emit(e)
	}
}
