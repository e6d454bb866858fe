// Package drv is the common part of the drivers: it replays scripts on the real code and records
// one trace (JSON array of events) per script.
package drv

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Ev is one recorded event.
type Ev map[string]interface{}

// T records the trace of one script.
type T struct {
	evs     []Ev
	stream  *os.File
	n       int
	limit   int
	runaway bool
	Dead    bool // an unexpected panic happened: the script stops
}

var progress int64

// Patience is how long a step may take (steps take microseconds).
var Patience = 25 * time.Second

// Memory is what a driver may use before it counts as running away.
var Memory uint64 = 6 << 30

// Tick tells the watchdog that the driver is alive.
func Tick() { atomic.AddInt64(&progress, 1) }

// Emit appends an event.
func (t *T) Emit(e Ev) {
	Tick()
	if t.stream != nil {
		b, err := json.Marshal(e)
		if err != nil {
			Fail("marshal: %v", err)
		}
		t.stream.Write(append(b, '\n'))
		if t.n++; t.n > t.limit {
			t.stream.Write([]byte("{\"op\":\"RUNAWAY\",\"p\":2}\n"))
			os.Exit(0)
		}
		return
	}
	t.evs = append(t.evs, e)
	if len(t.evs) > t.limit && !t.runaway {
		// far more results than the script asked for: the structure yields elements for ever
		t.runaway, t.Dead = true, true
		t.evs = append(t.evs, Ev{"op": "RUNAWAY", "p": 2})
	}
}

// Op runs f, which fills in the event; an (unexpected) panic is recorded as p=1 and ends the script.
func (t *T) Op(name string, f func(e Ev)) {
	if t.Dead {
		return
	}
	if t.OpP(name, f) {
		t.Dead = true
	}
}

// OpP is Op for operations whose panic is an ordinary outcome (the script goes on).
func (t *T) OpP(name string, f func(e Ev)) (panicked bool) {
	if t.Dead {
		return
	}
	e := Ev{"op": name, "p": 0}
	panicked = Try(func() { f(e) })
	if panicked {
		e["p"] = 1
	}
	t.Emit(e)
	return
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			if os.Getenv("DRV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "panic:", r)
			}
		}
	}()
	f()
	return
}

// Fail is a harness error.
func Fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "DRIVER ERROR: "+format+"\n", a...)
	os.Exit(3)
}

func watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		p := atomic.LoadInt64(&progress)
		if p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > Patience {
			fmt.Fprintln(os.Stderr, "HANG: no progress")
			os.Exit(97)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > Memory {
			fmt.Fprintln(os.Stderr, "RUNAWAY memory")
			os.Exit(98)
		}
	}
}

// Script is one script: a list of steps, each a list [name, args...].
type Script []Step

// Step is one step.
type Step []interface{}

// Name of the step.
func (s Step) Name() string { return s[0].(string) }

// Int is the i-th argument (from 1) as an int.
func (s Step) Int(i int) int {
	switch v := s[i].(type) {
	case float64:
		return int(v)
	case bool:
		if v {
			return 1
		}
		return 0
	}
	Fail("bad int arg %v", s)
	return 0
}

// Str is the i-th argument as a string.
func (s Step) Str(i int) string { return s[i].(string) }

// Bool is the i-th argument as a bool.
func (s Step) Bool(i int) bool { return s[i].(bool) }

// Ints is the i-th argument as a list of ints.
func (s Step) Ints(i int) []int {
	l := s[i].([]interface{})
	r := make([]int, len(l))
	for k, v := range l {
		r[k] = int(v.(float64))
	}
	return r
}

// Main replays all scripts.
func Main(run func(t *T, s Script)) {
	scripts := flag.String("scripts", "", "scripts (ndjson)")
	out := flag.String("out", "", "traces (ndjson)")
	from := flag.Int("from", 0, "first script")
	stream := flag.Bool("stream", false, "write events one per line (single script)")
	par := flag.Int("par", 0, "run the scripts in this many goroutines at the same time")
	rounds := flag.Int("rounds", 1, "with -par: how often")
	atleast := flag.Float64("atleast", 0, "with -par: for how many seconds at least")
	flag.Parse()
	go watchdog()
	in, err := os.Open(*scripts)
	if err != nil {
		Fail("%v", err)
	}
	of, err := os.Create(*out)
	if err != nil {
		Fail("%v", err)
	}
	w := bufio.NewWriterSize(of, 1<<20)
	rd := bufio.NewReaderSize(in, 1<<20)
	if *par > 0 {
		together(run, rd, w, *par, *rounds, *atleast)
		w.Flush()
		of.Close()
		os.Exit(0)
	}
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			break
		}
		if i < *from {
			continue
		}
		var s Script
		if err := json.Unmarshal(line, &s); err != nil {
			Fail("script %d: %v", i, err)
		}
		if *stream {
			run(&T{stream: of, limit: limit(s)}, s)
			continue
		}
		t := &T{evs: []Ev{}, limit: limit(s)}
		Tick()
		running = true
		pending = w
		run(t, s)
		running = false
		b, err := json.Marshal(t.evs)
		if err != nil {
			Fail("marshal: %v", err)
		}
		w.Write(b)
		w.WriteByte('\n')
		// a crash must leave the finished traces on disk
		if w.Buffered() > 1<<16 || FlushEach {
			w.Flush()
		}
		if t.runaway {
			w.Flush()
			os.Exit(96)
		}
	}
	w.Flush()
	of.Close()
	os.Exit(0)
}

// together runs every script rounds times, par of them at any time, each with objects of its own, and goes
// on for that many seconds unless the traces differ a lot by themselves. What comes out is each script's number and its distinct traces.
func together(run func(t *T, s Script), rd *bufio.Reader, w *bufio.Writer, par, rounds int, seconds float64) {
	scripts := []Script{}
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			break
		}
		var s Script
		if err := json.Unmarshal(line, &s); err != nil {
			Fail("script %d: %v", len(scripts), err)
		}
		scripts = append(scripts, s)
	}
	got := make([]map[string]bool, len(scripts))
	for i := range got {
		got[i] = map[string]bool{}
	}
	var lock sync.Mutex
	var wg sync.WaitGroup
	var next, distinct int64
	start := time.Now()
	for g := 0; g < par; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				n := int(atomic.AddInt64(&next, 1) - 1)
				if n >= rounds*len(scripts) && (time.Since(start).Seconds() >= seconds || int(atomic.LoadInt64(&distinct)) > len(scripts)+100) {
					return
				}
				// (neighbours in one round are not neighbours in the next)
				i := (n%len(scripts)*(2*(n/len(scripts))+1) + n/len(scripts)) % len(scripts)
				s := scripts[i]
				t := &T{evs: []Ev{}, limit: limit(s)}
				run(t, s)
				b, err := json.Marshal(t.evs)
				if err != nil {
					Fail("marshal: %v", err)
				}
				lock.Lock()
				if !got[i][string(b)] {
					got[i][string(b)] = true
					distinct++
				}
				lock.Unlock()
			}
		}()
	}
	wg.Wait()
	for i, m := range got {
		for k := range m {
			fmt.Fprintf(w, "{\"i\":%d,\"t\":%s}\n", i, k)
		}
	}
}

// limit is how many events a script may produce.
func limit(s Script) int { return 100000 + 20*len(s) }

var running bool
var pending *bufio.Writer

// FlushEach makes every finished trace reach the file at once.
var FlushEach = true

// B2I turns a bool into 0/1.
func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Value table: small ids are the interesting ints, others stand for themselves.
var special = map[int]int{1: 0, 2: -1, 3: 1, 4: -1 << 63, 5: 1<<63 - 1, 6: 1 << 32, 7: -(1 << 31), 8: 1<<31 - 1}
var inverse = map[int]int{}

func init() {
	for k, v := range special {
		inverse[v] = k
	}
}

// Val is the int for a value id (ids 1..8 are special ints, others v+1000).
func Val(id int) int {
	if v, ok := special[id]; ok {
		return v
	}
	return id + 1000
}

// Id is the inverse of Val; -999 if the int is not the value of any id in use.
func Id(v int) int {
	if k, ok := inverse[v]; ok {
		return k
	}
	if v-1000 > 8 && v-1000 < 1000000 {
		return v - 1000
	}
	return -999
}

// Ranked values: RVal is strictly increasing in the rank (0..1000) and covers the extreme ints.
func RVal(r int) int {
	switch r {
	case 0:
		return -1 << 63
	case 1:
		return -1<<63 + 1
	case 2:
		return -(1 << 32)
	case 3:
		return -(1 << 31)
	case 997:
		return 1<<31 - 1
	case 998:
		return 1 << 32
	case 999:
		return 1<<63 - 2
	case 1000:
		return 1<<63 - 1
	}
	if r < 0 || r > 1000 {
		Fail("rank %d", r)
	}
	return r - 500
}

var ranks = map[int]int{}

func init() {
	for r := 0; r <= 1000; r++ {
		ranks[RVal(r)] = r
	}
}

// Rank is the inverse of RVal; -999 if unknown.
func Rank(v int) int {
	if r, ok := ranks[v]; ok {
		return r
	}
	return -999
}

// Ranks maps Rank.
func Ranks(b []int) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = Rank(v)
	}
	return r
}

// RVals maps RVal.
func RVals(b []int) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = RVal(v)
	}
	return r
}

// Runs abbreviates a long list of numbers: [first, step, count] with steps of 1 or -1.
func Runs(b []int) [][3]int {
	r := [][3]int{}
	for _, v := range b {
		if k := len(r) - 1; k >= 0 {
			u := &r[k]
			d := v - u[0] - (u[2]-1)*u[1]
			if u[2] == 1 && (d == 1 || d == -1) {
				u[1] = d
			}
			if u[1] != 0 && d == u[1] {
				u[2]++
				continue
			}
		}
		r = append(r, [3]int{v, 0, 1})
	}
	return r
}
