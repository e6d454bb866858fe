// Driver for C25: the 32- and 64-bit random generators (gxi/math/rand: an instrumented copy, or the package
// as it is) and strings.Rand. Numbers are little-endian byte lists.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	gosync "sync"

	xstrings "github.com/vipally/gx/strings"
	"gxi/math/rand"
	"gxverif/drv"
	"gxverif/sched"
)

var explore = flag.String("explore", "", "file of exploration jobs (ndjson)")
var eout = flag.String("eout", "", "output of exploration")

// op: [f, a, b] with decimal strings
type op struct {
	f    string
	a, b uint64
}

type job struct {
	W       int          `json:"w"`
	Seed    string       `json:"seed"`
	Progs   [][][]string `json:"progs"`
	Preempt int          `json:"preempt"`
	Max     int          `json:"max"`
}

func num(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		drv.Fail("%v", err)
	}
	return v
}

func digs(v uint64) []int {
	r := []int{}
	for ; v > 0; v >>= 8 {
		r = append(r, int(v&255))
	}
	return r
}

type gen struct {
	w   int
	r32 *rand.Rand32T
	r64 *rand.Rand64T
}

func mk(w int, seed uint64) gen {
	if w == 32 {
		return gen{w: w, r32: rand.NewRand32S(uint32(seed))}
	}
	return gen{w: w, r64: rand.NewRand64S(seed)}
}

func (g gen) do(o op) uint64 {
	if g.w == 32 {
		r, a, b := g.r32, uint32(o.a), uint32(o.b)
		switch o.f {
		case "rand":
			return uint64(r.Rand())
		case "range":
			return uint64(r.RandRange(a, b))
		case "max":
			return uint64(r.RandMax(a))
		case "seed":
			return uint64(r.Seed())
		case "srand":
			return uint64(r.Srand(a))
		}
	} else {
		r := g.r64
		switch o.f {
		case "rand":
			return r.Rand()
		case "range":
			return r.RandRange(o.a, o.b)
		case "max":
			return r.RandMax(o.a)
		case "seed":
			return r.Seed()
		case "srand":
			return r.Srand(o.a)
		}
	}
	drv.Fail("op %v", o)
	return 0
}

// the package-level functions
func global(w int, o op) uint64 {
	switch {
	case w == 32 && o.f == "rand":
		return uint64(rand.Rand32())
	case w == 32 && o.f == "range":
		return uint64(rand.RandRange32(uint32(o.a), uint32(o.b)))
	case w == 32 && o.f == "max":
		return uint64(rand.RandMax32(uint32(o.a)))
	case w == 64 && o.f == "rand":
		return rand.Rand64()
	case w == 64 && o.f == "range":
		return rand.RandRange64(o.a, o.b)
	case w == 64 && o.f == "max":
		return rand.RandMax64(o.a)
	}
	drv.Fail("global op %v", o)
	return 0
}

func parse(s []string) op {
	o := op{f: s[0]}
	if len(s) > 1 {
		o.a = num(s[1])
	}
	if len(s) > 2 {
		o.b = num(s[2])
	}
	return o
}

// bodies runs the programs on one shared generator; the history is a single event.
func bodies(j job, ops *[]drv.Ev) []func() {
	g := mk(j.W, num(j.Seed))
	clock := 0
	var bs []func()
	for _, p := range j.Progs {
		p := p
		bs = append(bs, func() {
			for _, s := range p {
				sched.Boundary()
				o := parse(s)
				clock++
				e := drv.Ev{"f": o.f, "a": digs(o.a), "b": digs(o.b), "call": clock}
				r := g.do(o)
				clock++
				e["r"], e["ret"] = digs(r), clock
				*ops = append(*ops, e)
				sched.Boundary()
			}
		})
	}
	return bs
}

func hist(j job, ops []drv.Ev, r sched.Result) []drv.Ev {
	if r.Stuck {
		return []drv.Ev{r.Last()}
	}
	sort.Slice(ops, func(a, b int) bool { return ops[a]["call"].(int) < ops[b]["call"].(int) })
	return []drv.Ev{{"op": "hist", "s": digs(num(j.Seed)), "w": j.W, "ops": ops, "p": 0}}
}

func doExplore() {
	in, err := os.Open(*explore)
	if err != nil {
		drv.Fail("%v", err)
	}
	out, err := os.Create(*eout)
	if err != nil {
		drv.Fail("%v", err)
	}
	w := bufio.NewWriter(out)
	seen := map[[32]byte]bool{}
	rd := bufio.NewScanner(in)
	rd.Buffer(nil, 1<<20)
	total, complete, jobs := 0, 0, 0
	for rd.Scan() {
		var j job
		if err := json.Unmarshal(rd.Bytes(), &j); err != nil {
			drv.Fail("%v", err)
		}
		var ops []drv.Ev
		n, c := sched.Explore(func() []func() { ops = []drv.Ev{}; return bodies(j, &ops) }, j.Preempt, j.Max, func(r sched.Result) {
			tr := hist(j, ops, r)
			b, _ := json.Marshal(tr)
			h := sha256.Sum256(b)
			if !seen[h] {
				seen[h] = true
				o, _ := json.Marshal(map[string]interface{}{"trace": tr, "script": [][]interface{}{{"replay", j, r.Path}}})
				w.Write(o)
				w.WriteByte('\n')
			}
		})
		total += n
		jobs++
		if c {
			complete++
		}
	}
	w.Flush()
	out.Close()
	fmt.Printf("{\"executions\":%d,\"jobs\":%d,\"complete\":%d,\"histories\":%d}\n", total, jobs, complete, len(seen))
}

// step is one step of the recurrence; only used to put the draws of a free-running history in order.
func step(w int, s uint64) uint64 {
	if w == 32 {
		return uint64(uint32(s)*7368787 + 2750159)
	}
	return s*4294955897 + 4094975977
}

func main() {
	for i, a := range os.Args {
		if a == "-explore" && i > 0 {
			flag.Parse()
			doExplore()
			return
		}
	}
	drv.Main(func(t *drv.T, s drv.Script) {
		gens := map[string]gen{}
		for _, st := range s {
			switch st.Name() {
			case "replay":
				var j job
				b, _ := json.Marshal(st[1])
				if err := json.Unmarshal(b, &j); err != nil {
					drv.Fail("%v", err)
				}
				ops := []drv.Ev{}
				r, _ := sched.Run(bodies(j, &ops), st.Ints(2), j.Preempt)
				for _, e := range hist(j, ops, r) {
					t.Emit(e)
				}
			case "new":
				t.Op("new", func(e drv.Ev) {
					g := mk(st.Int(2), num(st.Str(3)))
					gens[st.Str(1)] = g
					e["g"], e["w"], e["s"], e["r"] = st.Str(1), st.Int(2), digs(num(st.Str(3))), digs(g.do(op{f: "seed"}))
				})
			case "auto":
				t.Op("auto", func(e drv.Ev) {
					g := gen{w: st.Int(2)}
					if g.w == 32 {
						g.r32 = rand.NewRand32()
					} else {
						g.r64 = rand.NewRand64()
					}
					gens[st.Str(1)] = g
					e["g"], e["w"], e["r"] = st.Str(1), g.w, digs(g.do(op{f: "seed"}))
				})
			case "gauto": // a draw of the package-level generator tells its state
				t.Op("auto", func(e drv.Ev) {
					e["g"], e["w"], e["r"] = st.Str(1), st.Int(2), digs(global(st.Int(2), op{f: "rand"}))
				})
			case "do", "gdo":
				t.Op("do", func(e drv.Ev) {
					q := []string{}
					for _, v := range st[3:] {
						q = append(q, v.(string))
					}
					o := parse(q)
					e["g"], e["w"], e["f"], e["a"], e["b"] = st.Str(1), st.Int(2), o.f, digs(o.a), digs(o.b)
					if st.Name() == "do" {
						e["r"] = digs(gens[st.Str(1)].do(o))
					} else {
						e["r"] = digs(global(st.Int(2), o))
					}
				})
			case "mass":
				t.Op("mass", func(e drv.Ev) {
					w, seed, gs, per := st.Int(1), num(st.Str(2)), st.Int(3), st.Int(4)
					g := mk(w, seed)
					all := make([][]uint64, gs)
					var wg gosync.WaitGroup
					for i := range all {
						wg.Add(1)
						go func(i int) {
							defer wg.Done()
							for k := 0; k < per; k++ {
								all[i] = append(all[i], g.do(op{f: "rand"}))
							}
						}(i)
					}
					wg.Wait()
					pos := map[uint64]int{}
					for i, v := 1, step(w, seed); i <= gs*per; i, v = i+1, step(w, v) {
						pos[v] = i
					}
					vs := []uint64{}
					for _, a := range all {
						vs = append(vs, a...)
					}
					sort.Slice(vs, func(i, j int) bool {
						if pos[vs[i]] != pos[vs[j]] {
							return pos[vs[i]] < pos[vs[j]]
						}
						return vs[i] < vs[j]
					})
					rs := [][]int{}
					for _, v := range vs {
						rs = append(rs, digs(v))
					}
					e["w"], e["s"], e["n"], e["rs"] = w, digs(seed), gs*per, rs
				})
			case "text":
				t.Op("text", func(e drv.Ev) {
					r := xstrings.Rand(xstrings.Rule(num(st.Str(1))), st.Int(2))
					b := []int{}
					for _, c := range []byte(r) {
						b = append(b, int(c))
					}
					e["n"], e["r"] = st.Int(2), b
				})
			default:
				drv.Fail("op %v", st)
			}
		}
	})
}
