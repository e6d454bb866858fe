// Driver for C17: null-hash objects, created concurrently under the controlled scheduler (instrumented
// copy of the package), in bulk, and by free-running goroutines.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	stdhash "hash"
	"os"
	"sort"
	gosync "sync"

	"gxi/hash"
	"gxverif/drv"
	"gxverif/sched"
)

var explore = flag.String("explore", "", "file of exploration jobs (ndjson)")
var eout = flag.String("eout", "", "output of exploration")

type job struct {
	Progs   [][]string `json:"progs"`
	Preempt int        `json:"preempt"`
	Max     int        `json:"max"`
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func create(how int) stdhash.Hash {
	switch how % 3 {
	case 0:
		return hash.NewNoneHash()
	case 1:
		return hash.NONE.New()
	}
	return hash.New(hash.NONE)
}

// labels makes histories comparable across executions: identities are renumbered by first appearance.
type labels map[string]int

func (l labels) of(b []byte) []int {
	if len(b) < 4 {
		return ints(b)
	}
	p, d := b[:len(b)-4], string(b[len(b)-4:])
	if l[d] == 0 {
		l[d] = len(l) + 1
	}
	return append(ints(p), 0, 0, 0, l[d])
}

func bodies(j job, log *[]drv.Ev) []func() {
	lab := labels{}
	made := 0
	var bs []func()
	for i, p := range j.Progs {
		i, p := i, p
		bs = append(bs, func() {
			var mine []stdhash.Hash
			var ks []int
			for n, f := range p {
				sched.Boundary()
				switch f {
				case "new":
					h := create(i + n)
					d := h.Sum(nil)
					made++
					mine, ks = append(mine, h), append(ks, made)
					*log = append(*log, drv.Ev{"op": "made", "k": made, "d": lab.of(d), "p": 0})
				case "sum":
					b := []byte{9, 8, 7}[:n%4]
					q := n % len(mine)
					r := mine[q].Sum(b)
					*log = append(*log, drv.Ev{"op": "sum", "k": ks[q], "b": ints(b), "r": lab.of(r), "p": 0})
				case "write":
					r, err := mine[n%len(mine)].Write(make([]byte, n))
					*log = append(*log, drv.Ev{"op": "write", "n": n, "r": r, "err": err != nil, "p": 0})
				case "reset":
					mine[n%len(mine)].Reset()
					*log = append(*log, drv.Ev{"op": "reset", "p": 0})
				}
				sched.Boundary()
			}
		})
	}
	return bs
}

func doExplore() {
	in, err := os.Open(*explore)
	if err != nil {
		drv.Fail("%v", err)
	}
	out, err := os.Create(*eout)
	if err != nil {
		drv.Fail("%v", err)
	}
	w := bufio.NewWriter(out)
	seen := map[[32]byte]bool{}
	rd := bufio.NewScanner(in)
	rd.Buffer(nil, 1<<20)
	total, complete, jobs := 0, 0, 0
	for rd.Scan() {
		var j job
		if err := json.Unmarshal(rd.Bytes(), &j); err != nil {
			drv.Fail("%v", err)
		}
		var log []drv.Ev
		n, c := sched.Explore(func() []func() { log = []drv.Ev{}; return bodies(j, &log) }, j.Preempt, j.Max, func(r sched.Result) {
			if r.Stuck {
				log = append(log, r.Last())
			}
			b, _ := json.Marshal(log)
			h := sha256.Sum256(b)
			if !seen[h] {
				seen[h] = true
				o, _ := json.Marshal(map[string]interface{}{"trace": log, "script": [][]interface{}{{"replay", j.Progs, r.Path, j.Preempt}}})
				w.Write(o)
				w.WriteByte('\n')
			}
		})
		total += n
		jobs++
		if c {
			complete++
		}
	}
	w.Flush()
	out.Close()
	fmt.Printf("{\"executions\":%d,\"jobs\":%d,\"complete\":%d,\"histories\":%d}\n", total, jobs, complete, len(seen))
}

func main() {
	for i, a := range os.Args {
		if a == "-explore" && i > 0 {
			flag.Parse()
			doExplore()
			return
		}
	}
	drv.Main(func(t *drv.T, s drv.Script) {
		var objs []stdhash.Hash
		var mass [][]byte
		for n, st := range s {
			op := st.Name()
			if op == "replay" {
				j := job{Preempt: st.Int(3)}
				for _, p := range st[1].([]interface{}) {
					var q []string
					for _, v := range p.([]interface{}) {
						q = append(q, v.(string))
					}
					j.Progs = append(j.Progs, q)
				}
				log := []drv.Ev{}
				if r, _ := sched.Run(bodies(j, &log), st.Ints(2), j.Preempt); r.Stuck {
					log = append(log, r.Last())
				}
				for _, e := range log {
					t.Emit(e)
				}
				continue
			}
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "made":
					h := create(n)
					objs = append(objs, h)
					e["k"], e["d"] = len(objs), ints(h.Sum(nil))
				case "sum":
					k := st.Int(1)%len(objs) + 1
					b := make([]byte, st.Int(2), st.Int(2)+st.Int(3))
					for i := range b {
						b[i] = byte(200 + i)
					}
					e["k"], e["b"], e["r"] = k, ints(b), ints(objs[k-1].Sum(b))
				case "write":
					k := st.Int(1) % len(objs)
					r, err := objs[k].Write(make([]byte, st.Int(2)))
					e["n"], e["r"], e["err"] = st.Int(2), r, err != nil
				case "reset":
					objs[st.Int(1)%len(objs)].Reset()
				case "huge": // as many, too many to record: how many different digests begin with each byte
					total, g := st.Int(1), st.Int(2)
					ids, odd := make([]uint32, total), make([]int, g)
					var wg gosync.WaitGroup
					for q := 0; q < g; q++ {
						wg.Add(1)
						go func(q int) {
							defer wg.Done()
							for i := q; i < total; i += g {
								if i%65536 == q {
									drv.Tick()
								}
								d := create(i).Sum(nil)
								if len(d) != 4 {
									odd[q]++
									continue
								}
								ids[i] = uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])
							}
						}(q)
					}
					wg.Wait()
					pages := map[uint32]*[1024]uint64{}
					counts := make([]int, 256)
					for _, id := range ids {
						p := pages[id>>16]
						if p == nil {
							p = &[1024]uint64{}
							pages[id>>16] = p
						}
						if w, bit := id>>6&1023, uint64(1)<<(id&63); p[w]&bit == 0 {
							p[w] |= bit
							counts[id>>24]++
						}
					}
					sum := 0
					for _, k := range odd {
						sum += k
					}
					e["n"], e["odd"], e["counts"] = total, sum, counts
				case "many": // n objects made by g goroutines
					total, g := st.Int(1), st.Int(2)
					ds := make([][]byte, total)
					var wg gosync.WaitGroup
					for q := 0; q < g; q++ {
						wg.Add(1)
						go func(q int) {
							defer wg.Done()
							for i := q; i < total; i += g {
								ds[i] = create(i).Sum(nil)
							}
						}(q)
					}
					wg.Wait()
					sort.Slice(ds, func(i, j int) bool { return bytes.Compare(ds[i], ds[j]) < 0 })
					e["n"] = total
					mass = ds
				default:
					drv.Fail("op %v", st)
				}
			})
			for i := 0; i < len(mass); i += 500 {
				out := [][]int{}
				for _, d := range mass[i:min(i+500, len(mass))] {
					out = append(out, ints(d))
				}
				t.Emit(drv.Ev{"op": "chunk", "ds": out, "p": 0})
			}
			if mass != nil {
				t.Emit(drv.Ev{"op": "endmany", "p": 0})
			}
			mass = nil
		}
	})
}
