// Driver for C02: replays scripts on stl.IntQueue.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var q *stl.IntQueue
		next := 0
		decoy := &stl.IntQueue{} // another object in use at the same time: must not interfere
		noise := 0
		obs := func(e drv.Ev) {
			e["size"], e["empty"], e["cap"] = q.Size(), q.Empty(), q.Cap()
			v, ok := q.Front()
			e["fo"], e["fv"] = ok, drv.Id(v)
			v, ok = q.Back()
			e["bo"], e["bv"] = ok, drv.Id(v)
		}
		for _, st := range s {
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "new":
					if n := st.Int(1); n == -99 {
						q = &stl.IntQueue{} // zero value
					} else {
						q = stl.NewGOGPQueueNamePrefixQueue(n)
					}
				case "init":
					q.Init(st.Int(1))
				case "pb":
					next++
					id := next
					if len(st) > 1 {
						id = st.Int(1)
					}
					e["a"] = id
					e["ok"] = q.Push(drv.Val(id))
				case "pbn":
					k := st.Int(1)
					e["a"], e["k"] = next+1, k
					all := true
					for i := 0; i < k; i++ {
						next++
						all = q.Push(drv.Val(next)) && all
					}
					e["ok"] = all
				case "xfn":
					k := st.Int(1)
					vs := []int{}
					for i := 0; i < k; i++ {
						v, ok := q.Pop()
						if !ok {
							break
						}
						vs = append(vs, drv.Id(v))
					}
					e["k"], e["vs"] = k, vs
				case "xf":
					v, ok := q.Pop()
					e["v"], e["ok"] = drv.Id(v), ok
				case "front":
					v, ok := q.Front()
					e["v"], e["ok"] = drv.Id(v), ok
				case "back":
					v, ok := q.Back()
					e["v"], e["ok"] = drv.Id(v), ok
				case "sh":
					e["ok"] = q.Shrink()
				case "cl":
					q.Clear()
				default:
					drv.Fail("op %v", st)
				}
				if noise++; noise%5 == 4 {
					decoy.Pop()
					decoy.Shrink()
				} else {
					decoy.Push(-5)
				}
				obs(e)
			})
		}
		// drain, so that every element still inside is seen once
		for n := 0; q != nil && !t.Dead && n < 1<<20; n++ {
			done := false
			t.Op("xf", func(e drv.Ev) {
				v, ok := q.Pop()
				e["v"], e["ok"] = drv.Id(v), ok
				obs(e)
				done = !ok
			})
			if done {
				break
			}
		}
	})
}
