// Driver for C01: replays scripts on stl.IntDeque.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var q *stl.IntDeque
		next := 0
		decoy := &stl.IntDeque{} // another object in use at the same time: must not interfere
		noise := 0
		obs := func(e drv.Ev) {
			e["size"], e["empty"], e["cap"] = q.Size(), q.Empty(), q.Cap()
			v, ok := q.Front()
			e["fo"], e["fv"] = ok, drv.Id(v)
			v, ok = q.Back()
			e["bo"], e["bv"] = ok, drv.Id(v)
		}
		for _, st := range s {
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "new":
					if n := st.Int(1); n == -99 {
						q = &stl.IntDeque{} // zero value
					} else {
						q = stl.NewGOGPDequeNamePrefixDeque(n)
					}
				case "init":
					q.Init(st.Int(1))
				case "pf", "pb":
					next++
					id := next
					if len(st) > 1 {
						id = st.Int(1)
					}
					e["a"] = id
					if op == "pf" {
						e["ok"] = q.PushFront(drv.Val(id))
					} else {
						e["ok"] = q.PushBack(drv.Val(id))
					}
				case "pfn", "pbn":
					k := st.Int(1)
					e["a"], e["k"] = next+1, k
					all := true
					for i := 0; i < k; i++ {
						next++
						if op == "pfn" {
							all = q.PushFront(drv.Val(next)) && all
						} else {
							all = q.PushBack(drv.Val(next)) && all
						}
					}
					e["ok"] = all
				case "xfn", "xbn":
					k := st.Int(1)
					vs := []int{}
					for i := 0; i < k; i++ {
						v, ok := 0, false
						if op == "xfn" {
							v, ok = q.PopFront()
						} else {
							v, ok = q.PopBack()
						}
						if !ok {
							break
						}
						vs = append(vs, drv.Id(v))
					}
					e["k"], e["vs"] = k, vs
				case "xf":
					v, ok := q.PopFront()
					e["v"], e["ok"] = drv.Id(v), ok
				case "xb":
					v, ok := q.PopBack()
					e["v"], e["ok"] = drv.Id(v), ok
				case "front":
					v, ok := q.Front()
					e["v"], e["ok"] = drv.Id(v), ok
				case "back":
					v, ok := q.Back()
					e["v"], e["ok"] = drv.Id(v), ok
				case "sh":
					e["ok"] = q.Shrink()
				case "cl":
					q.Clear()
				default:
					drv.Fail("op %v", st)
				}
				if noise++; noise%5 == 4 {
					decoy.PopFront()
					decoy.Shrink()
				} else {
					decoy.PushBack(-5)
				}
				obs(e)
			})
		}
		// drain, so that every element still inside is seen once
		front := len(s)%2 == 0
		for n := 0; q != nil && !t.Dead && n < 1<<20; n++ {
			done := false
			op := "xb"
			if front {
				op = "xf"
			}
			t.Op(op, func(e drv.Ev) {
				var v int
				var ok bool
				if front {
					v, ok = q.PopFront()
				} else {
					v, ok = q.PopBack()
				}
				e["v"], e["ok"] = drv.Id(v), ok
				obs(e)
				done = !ok
			})
			if done {
				break
			}
		}
	})
}
