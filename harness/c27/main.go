// Driver for C27: registered values (gxi/regable: an instrumented copy, or the package as it is). Registries are
// process-wide, so every history starts with the number of registries made before it.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"gxi/regable"
	"gxverif/drv"
	"gxverif/sched"
)

var explore = flag.String("explore", "", "file of exploration jobs (ndjson)")
var eout = flag.String("eout", "", "output of exploration")

var regers []*regable.Uint32Reger // of this process
var base int

func u32(s string) uint32 {
	v, err := strconv.ParseUint(s, 10, 32)
	if err != nil {
		drv.Fail("%v", err)
	}
	return uint32(v)
}
func dec(v uint32) string { return strconv.FormatUint(uint64(v), 10) }

func mkid(r, n int) regable.Uint32Id { return regable.Uint32Id(uint32(r)<<24 | uint32(n)) }

func split(i regable.Uint32Id) []int {
	r, n := i.Ids()
	if uint32(i) != r<<24|n || uint32(i)>>24 != r {
		return []int{-1, -1}
	}
	return []int{int(r), int(n)}
}

type access interface {
	Valid() bool
	Get() (uint32, error)
	GetNoErr() uint32
	Set(uint32) (uint32, error)
	Name() (string, error)
	String() string
}

// use performs f on an id or an object.
func use(a access, f string, s drv.Step, e drv.Ev) {
	e["f"] = f
	switch f {
	case "valid":
		e["ok"] = a.Valid()
	case "get":
		v, err := a.Get()
		e["ok"], e["v"] = err == nil, dec(v)
	case "must":
		e["v"] = "0"
		e["ok"] = !drv.Try(func() { e["v"] = dec(a.GetNoErr()) })
	case "set":
		v, err := a.Set(u32(s.Str(len(s) - 1)))
		e["ok"], e["v"], e["to"] = err == nil, dec(v), s.Str(len(s)-1)
	case "name":
		v, err := a.Name()
		e["ok"], e["v"] = err == nil, v
	case "str":
		e["v"] = a.String()
	default:
		drv.Fail("op %v", s)
	}
}

type hist struct {
	base int // of this history
	mine []*regable.Uint32Reger
	objs []regable.Uint32Obj
}

func (h *hist) id(s drv.Step, e drv.Ev) regable.Uint32Id {
	r, n := s.Int(2), s.Int(3)
	if r >= 0 && r < 100 { // relative to this history
		r += h.base
	} else if r >= 100 {
		r -= 100
	}
	e["r"], e["n"] = r, n
	return mkid(r, n)
}

func (h *hist) reg(r *regable.Uint32Reger, how, name string, v uint32, e drv.Ev) (fail bool) {
	var id regable.Uint32Id
	var o regable.Uint32Obj
	var err error
	isObj := false
	p := drv.Try(func() {
		switch how {
		case "reg":
			id, err = r.Reg(name, v)
		case "must":
			id = r.MustReg(name, v)
		case "rego":
			o, err = r.RegO(name, v)
			isObj = true
		case "musto":
			o = r.MustRegO(name, v)
			isObj = true
		default:
			drv.Fail("reg %s", how)
		}
	})
	e["isobj"] = isObj
	fail = p || err != nil
	if !fail && isObj {
		id = o.Id()
		h.objs = append(h.objs, o)
	}
	if fail {
		e["id"] = []int{0, 0}
	} else {
		e["id"] = split(id)
	}
	return
}

func run(t *drv.T, s drv.Script) {
	h := &hist{base: base}
	for _, st := range s {
		switch st.Name() {
		case "replay":
			var j job
			b, _ := json.Marshal(st[1])
			if err := json.Unmarshal(b, &j); err != nil {
				drv.Fail("%v", err)
			}
			setup(j)
			ops := []drv.Ev{}
			r, _ := sched.Run(bodies(j, &ops), st.Ints(2), j.Preempt)
			for _, e := range history(j, ops, r) {
				t.Emit(e)
			}
		case "start":
			t.Op("start", func(e drv.Ev) { e["n"] = h.base })
		case "new":
			t.Op("new", func(e drv.Ev) {
				var r *regable.Uint32Reger
				var err error
				e["name"], e["max"] = st.Str(1), 1024
				e["fail"] = drv.Try(func() {
					if len(st) > 2 {
						r = regable.MustNewUint32Reger(st.Str(1))
					} else {
						r, err = regable.NewUint32Reger(st.Str(1))
					}
				}) || err != nil
				if e["fail"] == false {
					h.mine = append(h.mine, r)
					base++
				}
			})
		case "max":
			t.Op("max", func(e drv.Ev) {
				v, err := h.mine[st.Int(1)-1].MaxReg(u32(st.Str(2)))
				e["r"], e["m"], e["fail"], e["v"] = h.base+st.Int(1), st.Int(3), err != nil, dec(v)
			})
		case "reg":
			t.Op("reg", func(e drv.Ev) {
				e["r"], e["name"], e["v"] = h.base+st.Int(2), st.Str(3), st.Str(4)
				e["fail"] = h.reg(h.mine[st.Int(2)-1], st.Str(1), st.Str(3), u32(st.Str(4)), e)
			})
		case "mass": // many registrations one after the other
			t.Op("mass", func(e drv.Ev) {
				k := st.Int(2)
				good, bad := []int{}, 0
				for i := 0; i < k; i++ {
					x := drv.Ev{}
					if h.reg(h.mine[st.Int(1)-1], "reg", fmt.Sprint("m", i), uint32(i), x) {
						bad++
					} else if q := x["id"].([]int); q[0] == h.base+st.Int(1) && bad == 0 {
						good = append(good, q[1])
					} else {
						good = append(good, -1)
					}
				}
				e["r"], e["k"], e["ids"], e["bad"] = h.base+st.Int(1), k, good, bad
			})
		case "id":
			t.Op("id", func(e drv.Ev) { use(h.id(st, e), st.Str(1), st, e) })
		case "ids":
			t.Op("ids", func(e drv.Ev) { x := h.id(st, e); e["ids"] = split(x) })
		case "obj": // object taken from an id
			t.Op("obj", func(e drv.Ev) {
				o := h.id(st, e).Oject()
				h.objs = append(h.objs, o)
				e["back"] = split(o.Id())
			})
		case "use": // k-th object
			t.Op("use", func(e drv.Ev) {
				if st.Int(2) > len(h.objs) {
					e["k"], e["f"] = 0, "skip"
					return
				}
				e["k"] = st.Int(2)
				use(h.objs[st.Int(2)-1], st.Str(1), st, e)
			})
		case "grid": // every id around those in use
			t.Op("grid", func(e drv.Ev) {
				rows := []interface{}{}
				for r := h.base; r <= h.base+len(h.mine)+1 && r < 256; r++ {
					for _, n := range []int{0, 1, 2, 3, 4, 5, 1023, 1024, 1025, 1<<24 - 1} {
						i := mkid(r, n)
						v, err := i.Get()
						m, err2 := i.Name()
						rows = append(rows, []interface{}{r, n, i.Valid(), err == nil, dec(v), err2 == nil, m, i.String(), split(i.Oject().Id())})
					}
				}
				e["rows"] = rows
			})
		case "text":
			t.Op("text", func(e drv.Ev) { e["r"], e["v"] = h.base+st.Int(1), h.mine[st.Int(1)-1].String() })
		case "show":
			t.Op("show", func(e drv.Ev) {
				a := regable.ShowAllUint32Regers()
				e["all"] = a
				e["head"] = strings.SplitN(a, "\n", 2)[0]
				w := regable.ShowAllRegs()
				e["whole"] = w
			})
		case "finish":
			t.Op("finish", func(e drv.Ev) { regable.FinishReg() })
		default:
			drv.Fail("step %v", st)
		}
	}
}

// ---------------------------------------------------------------- concurrent use of registered values
type job struct {
	Progs   [][]drv.Step `json:"progs"`
	Preempt int          `json:"preempt"`
	Max     int          `json:"max"`
}

var shared *regable.Uint32Reger
var sid [2]regable.Uint32Id
var sobj [2]regable.Uint32Obj

func setup(j job) {
	if shared == nil {
		base++
		shared = regable.MustNewUint32Reger("shared")
		for i := range sid {
			sid[i] = shared.MustReg(fmt.Sprint("v", i), 0)
			sobj[i] = sid[i].Oject()
		}
	}
	for i := range sid {
		sid[i].Set(uint32(i))
	}
}

func bodies(j job, ops *[]drv.Ev) []func() {
	clock := 0
	var bs []func()
	for _, p := range j.Progs {
		p := p
		bs = append(bs, func() {
			for _, s := range p {
				sched.Boundary()
				clock++
				e := drv.Ev{"call": clock, "x": s.Int(1)}
				switch s.Str(0) {
				case "text":
					e["f"], e["v"] = "text", shared.String()
				case "val":
					use(sid[s.Int(1)], s.Str(2), s, e)
				case "obj":
					use(sobj[s.Int(1)], s.Str(2), s, e)
				}
				clock++
				e["ret"] = clock
				*ops = append(*ops, e)
				sched.Boundary()
			}
		})
	}
	return bs
}

func history(j job, ops []drv.Ev, r sched.Result) []drv.Ev {
	if r.Stuck {
		return []drv.Ev{r.Last()}
	}
	sort.Slice(ops, func(a, b int) bool { return ops[a]["call"].(int) < ops[b]["call"].(int) })
	id, _ := sid[0].Ids()
	return []drv.Ev{{"op": "hist", "r": int(id), "ops": ops, "p": 0}}
}

func doExplore() {
	in, err := os.Open(*explore)
	if err != nil {
		drv.Fail("%v", err)
	}
	out, err := os.Create(*eout)
	if err != nil {
		drv.Fail("%v", err)
	}
	w := bufio.NewWriter(out)
	rd := bufio.NewScanner(in)
	rd.Buffer(nil, 1<<20)
	total, complete, jobs, hs := 0, 0, 0, 0
	for rd.Scan() {
		var j job
		if err := json.Unmarshal(rd.Bytes(), &j); err != nil {
			drv.Fail("%v", err)
		}
		var ops []drv.Ev
		seen := map[string]bool{}
		n, c := sched.Explore(func() []func() { ops = []drv.Ev{}; setup(j); return bodies(j, &ops) }, j.Preempt, j.Max, func(r sched.Result) {
			h := history(j, ops, r)
			k, _ := json.Marshal(h)
			if seen[string(k)] {
				return
			}
			seen[string(k)] = true
			hs++
			o, _ := json.Marshal(map[string]interface{}{"trace": h, "script": []drv.Step{{"replay", j, r.Path}}})
			w.Write(o)
			w.WriteByte('\n')
		})
		total += n
		jobs++
		if c {
			complete++
		}
	}
	w.Flush()
	out.Close()
	fmt.Printf("{\"executions\":%d,\"jobs\":%d,\"complete\":%d,\"histories\":%d}\n", total, jobs, complete, hs)
}

func main() {
	for i, a := range os.Args {
		if a == "-explore" && i > 0 {
			flag.Parse()
			doExplore()
			return
		}
	}
	drv.Main(run)
}
