// Driver for C26: the error registry (gxi/errors: an instrumented copy, or the package as it is). The registry is
// one per process, so every history starts with the number of ids handed out before it.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	gosync "sync"

	"gxi/errors"
	"gxverif/drv"
	"gxverif/sched"
)

var explore = flag.String("explore", "", "file of exploration jobs (ndjson)")
var eout = flag.String("eout", "", "output of exploration")

type job struct {
	Progs   [][][]interface{} `json:"progs"`
	Preempt int               `json:"preempt"`
	Max     int               `json:"max"`
	Fresh   bool              `json:"fresh"` // every execution in a process of its own
}

// result of an execution in a process of its own
type one struct {
	Trace []drv.Ev `json:"trace"`
	Path  []int    `json:"path"`
	Opts  []int    `json:"opts"`
}

func doOne(arg string) {
	var j job
	var path []int
	if err := json.Unmarshal([]byte(arg), &[]interface{}{&j, &path}); err != nil {
		drv.Fail("%v", err)
	}
	ops, base := []drv.Ev{}, handed
	r, opts := sched.Run(bodies(j, &ops), path, j.Preempt)
	o, _ := json.Marshal(one{hist(base, ops, r), r.Path, opts})
	os.Stdout.Write(o)
}

func fresh(j job, visit func(one)) (n int, complete bool) {
	path := []int{}
	for n < j.Max {
		a, _ := json.Marshal([]interface{}{j, path})
		b, err := exec.Command(os.Args[0], "-one", string(a)).Output()
		if err != nil {
			drv.Fail("execution of its own: %v", err)
		}
		var r one
		if err := json.Unmarshal(b, &r); err != nil {
			drv.Fail("%v", err)
		}
		n++
		visit(r)
		path = append([]int{}, r.Path...)
		i := len(path) - 1
		for i >= 0 && path[i]+1 >= r.Opts[i] {
			i--
		}
		if i < 0 {
			return n, true
		}
		path = path[:i+1]
		path[i]++
	}
	return n, false
}

var handed int // ids handed out so far

func id[T ~uint32](_ T, v int) T { return T(v) }

type txt string

func (t txt) Error() string { return string(t) }

func arg(x interface{}) interface{} {
	if f, ok := x.(float64); ok {
		return int(f)
	}
	return x
}

// do performs one operation; ids given as numbers below 1000 count back from the last id (0: the last).
func do(s []interface{}, base, start int, e drv.Ev) {
	f := s[0].(string)
	e["f"] = f
	n := 0
	if f == "get" || f == "str" || f == "new" || f == "newf" {
		n = int(s[1].(float64))
		if n < 500 {
			n = 1002 + base - n
		} else if n < 1000 { // 500 + k: the k-th one after the base
			n = 1002 + base + n - 500
		}
		e["id"] = n
	}
	x := id(errors.ERRID_UNKNOWN, n)
	switch f {
	case "reg":
		r, err := errors.Reg(s[1].(string))
		e["name"], e["id"], e["err"] = s[1], int(r), err != nil
		if err == nil {
			handed++
		}
	case "get":
		r, err := x.Get()
		e["name"], e["err"] = r, err != nil
	case "str":
		e["text"] = x.String()
	case "new":
		r := errors.New(x)
		e["text"], e["eid"] = r.Error(), int(r.Id())
	case "newf":
		as := []interface{}{}
		for _, v := range s[4:] {
			as = append(as, arg(v))
		}
		var list []int
		if len(as) > 0 && as[0] == interface{}("[]") {
			list = []int{1, 2}
			as[0] = list
		}
		r := errors.Newf(x, s[3].(string), as...)
		for i := range list { // what the caller does with its arguments afterwards does not matter
			list[i] = 99
		}
		for i := range as {
			as[i] = "changed"
		}
		e["text"], e["eid"], e["msg"] = r.Error(), int(r.Id()), s[2]
	case "plain":
		as := []interface{}{}
		for _, v := range s[3:] {
			as = append(as, arg(v))
		}
		e["text"], e["msg"] = errors.NewError(s[2].(string), as...).Error(), s[1]
	case "std":
		r := errors.StdErr(txt(s[1].(string)))
		e["text"], e["eid"], e["msg"] = r.Error(), int(r.Id()), s[1]
	case "show":
		// the count, how many lines follow, the two fixed ones and those from the base on
		l := strings.Split(errors.ShowAll(), "\n")
		first, tail := []string{}, []string{}
		for i, x := range l[1:] {
			if i < 2 {
				first = append(first, x)
			} else if i >= 2+start {
				tail = append(tail, x)
			}
		}
		e["head"], e["all"], e["first"], e["from"], e["tail"] = l[0], len(l)-1, first, start, tail
	default:
		drv.Fail("op %v", s)
	}
}

func bodies(j job, ops *[]drv.Ev) []func() {
	clock, base := 0, handed
	var bs []func()
	for _, p := range j.Progs {
		p := p
		bs = append(bs, func() {
			for _, s := range p {
				sched.Boundary()
				clock++
				e := drv.Ev{"call": clock}
				do(s, base, base, e)
				clock++
				e["ret"] = clock
				*ops = append(*ops, e)
				sched.Boundary()
			}
		})
	}
	return bs
}

func hist(base int, ops []drv.Ev, r sched.Result) []drv.Ev {
	if r.Stuck {
		return []drv.Ev{r.Last()}
	}
	sort.Slice(ops, func(a, b int) bool { return ops[a]["call"].(int) < ops[b]["call"].(int) })
	return []drv.Ev{{"op": "hist", "n": base, "ops": ops, "p": 0}}
}

func doExplore() {
	in, err := os.Open(*explore)
	if err != nil {
		drv.Fail("%v", err)
	}
	out, err := os.Create(*eout)
	if err != nil {
		drv.Fail("%v", err)
	}
	w := bufio.NewWriter(out)
	rd := bufio.NewScanner(in)
	rd.Buffer(nil, 1<<20)
	total, complete, jobs := 0, 0, 0
	for rd.Scan() {
		var j job
		if err := json.Unmarshal(rd.Bytes(), &j); err != nil {
			drv.Fail("%v", err)
		}
		var ops []drv.Ev
		base, n, c := 0, 0, false
		emit := func(tr []drv.Ev, path []int) {
			o, _ := json.Marshal(map[string]interface{}{"trace": tr, "script": [][]interface{}{{"replay", j, path}}})
			w.Write(o)
			w.WriteByte('\n')
		}
		if j.Fresh {
			n, c = fresh(j, func(r one) { emit(r.Trace, r.Path) })
		} else {
			n, c = sched.Explore(func() []func() { ops, base = []drv.Ev{}, handed; return bodies(j, &ops) }, j.Preempt, j.Max, func(r sched.Result) {
				emit(hist(base, ops, r), r.Path)
			})
		}
		total += n
		jobs++
		if c {
			complete++
		}
	}
	w.Flush()
	out.Close()
	fmt.Printf("{\"executions\":%d,\"jobs\":%d,\"complete\":%d,\"histories\":%d}\n", total, jobs, complete, total)
}

func main() {
	for i, a := range os.Args {
		if a == "-one" && i == 1 {
			doOne(os.Args[2])
			return
		}
		if a == "-explore" && i > 0 {
			flag.Parse()
			doExplore()
			return
		}
	}
	drv.Main(func(t *drv.T, s drv.Script) {
		start := handed
		for _, st := range s {
			switch st.Name() {
			case "replay":
				var j job
				b, _ := json.Marshal(st[1])
				if err := json.Unmarshal(b, &j); err != nil {
					drv.Fail("%v", err)
				}
				ops, base := []drv.Ev{}, handed
				r, _ := sched.Run(bodies(j, &ops), st.Ints(2), j.Preempt)
				for _, e := range hist(base, ops, r) {
					t.Emit(e)
				}
			case "start":
				t.Op("start", func(e drv.Ev) {
					e["n"], e["unknown"], e["standard"] = handed, int(errors.ERRID_UNKNOWN), int(errors.ERRID_STD)
				})
			case "mass":
				t.Op("mass", func(e drv.Ev) {
					k, g := st.Int(1), st.Int(2)
					ids := make([]int, k)
					var wg gosync.WaitGroup
					for q := 0; q < g; q++ {
						wg.Add(1)
						go func(q int) {
							defer wg.Done()
							for i := q; i < k; i += g {
								r, err := errors.Reg(fmt.Sprintf("m%d", i))
								ids[i] = int(r)
								if err != nil {
									ids[i] = -int(r)
								}
							}
						}(q)
					}
					wg.Wait()
					good, bad, wrong := []int{}, 0, 0
					for i, v := range ids {
						if v > 0 {
							good = append(good, v)
							// the name given is the name found
							if n, err := id(errors.ERRID_UNKNOWN, v).Get(); err != nil || n != fmt.Sprintf("m%d", i) {
								wrong++
							}
						} else {
							bad++
							if v != -1000 {
								wrong++
							}
						}
					}
					sort.Ints(good)
					handed += len(good)
					e["k"], e["ids"], e["bad"], e["wrong"] = k, good, bad, wrong
				})
			default:
				t.Op("do", func(e drv.Ev) { do(st, handed, start, e) })
			}
		}
	})
}
