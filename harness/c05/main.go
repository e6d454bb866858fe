// Driver for C05: the heap slice algorithms, one call per step.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

// where the elements of b came from in a (1-based, 0: nowhere)
func moved(e drv.Ev, a, b []int) {
	if len(a) < 2500 {
		return
	}
	at := map[int][]int{}
	for i, v := range a {
		at[v] = append(at[v], i+1)
	}
	perm := make([]int, len(b))
	for i, v := range b {
		if w := at[v]; len(w) > 0 {
			perm[i], at[v] = w[0], w[1:]
		}
	}
	e["perm"] = perm
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s { // [op, maxTop, slice, v]
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				m := st.Bool(1)
				a := st.Ints(2)
				b := drv.RVals(a)
				h := stl.NewIntHeap(0, 0, m)
				e["m"], e["a"] = m, a
				switch op {
				case "make":
					h.MakeHeap(b)
					e["r"], e["chk"] = drv.Ranks(b), h.CheckHeap(b)
					moved(e, a, drv.Ranks(b))
				case "check":
					e["ok"] = h.CheckHeap(b)
					e["r"] = drv.Ranks(b)
				case "push":
					v := st.Int(3)
					r := h.PushHeap(b, drv.RVal(v))
					e["v"], e["r"], e["chk"] = v, drv.Ranks(r), h.CheckHeap(r)
					moved(e, append(a[:len(a):len(a)], v), drv.Ranks(r))
				case "pop":
					r, v, ok := h.PopHeap(b)
					e["v"], e["ok"], e["r"], e["chk"] = drv.Rank(v), ok, drv.Ranks(r), h.CheckHeap(r)
					moved(e, a, append(drv.Ranks(r), drv.Rank(v)))
				case "sort":
					r := h.SortHeap(b)
					e["r"], e["b"] = drv.Ranks(r), drv.Ranks(b)
					moved(e, a, drv.Ranks(r))
				case "rev":
					h.Reverse(b)
					e["r"] = drv.Ranks(b)
				default:
					drv.Fail("op %v", st)
				}
			})
		}
	})
}
