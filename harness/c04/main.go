// Driver for C04: replays scripts on stl.IntHeap.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var h *stl.IntHeap
		decoy := stl.NewIntHeap(4, 3, true) // another heap in use at the same time
		noise := 0
		step := func(st drv.Step) (fail bool) {
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "new":
					c, n, m := st.Int(1), st.Int(2), st.Bool(3)
					e["n"], e["m"] = n, m
					if c == -99 { // zero value: max on top, no limit
						h = &stl.IntHeap{}
					} else {
						h = stl.NewIntHeap(c, n, m)
					}
				case "init":
					c, n, m := st.Int(1), st.Int(2), st.Bool(3)
					e["n"], e["m"] = n, m
					h.Init(c, n, m)
				case "push":
					e["a"] = st.Int(1)
					h.Push(drv.RVal(st.Int(1)))
				case "pushn":
					e["vs"] = st.Ints(1)
					for _, v := range st.Ints(1) {
						h.Push(drv.RVal(v))
					}
				case "popn":
					k := st.Int(1)
					vs := []int{}
					for i := 0; i < k; i++ {
						v, ok := h.Pop()
						if !ok {
							break
						}
						vs = append(vs, drv.Rank(v))
					}
					e["k"], e["vs"] = k, vs
				case "pop":
					v, ok := h.Pop()
					e["v"], e["ok"] = drv.Rank(v), ok
					fail = !ok
				default:
					drv.Fail("op %v", st)
				}
				if noise++; noise%4 == 3 {
					decoy.Pop()
				} else {
					decoy.Push(noise * 7919 % 13)
				}
				v, ok := h.Top()
				e["to"], e["tv"] = ok, drv.Rank(v)
				e["size"], e["empty"], e["buf"] = h.Size(), h.Empty(), drv.Ranks(h.Buffer())
			})
			return
		}
		for _, st := range s {
			step(st)
		}
		for n := 0; !t.Dead && n < 1<<20; n++ {
			if step(drv.Step{"pop"}) {
				break
			}
		}
	})
}
