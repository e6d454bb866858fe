// Driver for C03: replays scripts on stl.IntStack.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var q *stl.IntStack
		next := 0
		decoy := &stl.IntStack{} // another object in use at the same time: must not interfere
		noise := 0
		step := func(st drv.Step) (fail bool) {
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "new":
					if n := st.Int(1); n == -99 {
						q = &stl.IntStack{}
					} else {
						q = stl.NewGOGPStackNamePrefixStack(n)
					}
				case "init":
					q.Init(st.Int(1))
				case "push":
					next++
					e["a"] = next
					e["ok"] = q.Push(drv.Val(next))
				case "pushn":
					k := st.Int(1)
					e["a"], e["k"] = next+1, k
					all := true
					for i := 0; i < k; i++ {
						next++
						all = q.Push(drv.Val(next)) && all
					}
					e["ok"] = all
				case "popn":
					k := st.Int(1)
					vs := []int{}
					for i := 0; i < k; i++ {
						v, ok := q.Pop()
						if !ok {
							break
						}
						vs = append(vs, drv.Id(v))
					}
					e["k"], e["vs"] = k, vs
				case "pop":
					v, ok := q.Pop()
					e["v"], e["ok"] = drv.Id(v), ok
					fail = !ok
				case "top":
					v, ok := q.Top()
					e["v"], e["ok"] = drv.Id(v), ok
				case "cl":
					q.Clear()
				default:
					drv.Fail("op %v", st)
				}
				if noise++; noise%5 == 4 {
					decoy.Pop()
				} else {
					decoy.Push(-5)
				}
				v, ok := q.Top()
				e["size"], e["empty"], e["to"], e["tv"] = q.Size(), q.Empty(), ok, drv.Id(v)
			})
			return
		}
		for _, st := range s {
			step(st)
		}
		for n := 0; !t.Dead && n < 1<<20; n++ {
			if step(drv.Step{"pop"}) {
				break
			}
		}
	})
}
