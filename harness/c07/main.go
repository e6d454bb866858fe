// Driver for C07 (and the singly linked part of C08): replays scripts on stl.IntSList.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

type node = stl.IntSListNode

const far = 1 << 16

// a list of n nodes holding 0..n-1, looked at after each of a few calls
func big(e drv.Ev, n int) {
	l, o := stl.NewIntSList(), stl.NewIntSList()
	at := make([]*node, n)
	for i := range at {
		at[i] = l.PushFront(i)
	}
	type look struct {
		F   [][3]int `json:"f"`
		V   [][3]int `json:"v"`
		Len int      `json:"len"`
		T   int      `json:"t"`
		Ok  []bool   `json:"ok"`
	}
	looks := []look{}
	see := func() {
		f, v := []int{}, []int{}
		for p := l.Front(); p != nil && len(f) < 3*n; p = p.Next() {
			f = append(f, p.Get())
		}
		for w := l.Visitor(); len(v) < 3*n && w.Next(); {
			v = append(v, w.Get().Get())
		}
		_, size := l.Front().Tail()
		looks = append(looks, look{drv.Runs(f), drv.Runs(v), l.Len(), size,
			[]bool{l.IsValidNode(at[0]), l.IsValidNode(at[n-1]), l.IsValidNode(at[n/2]), l.HasCycle(l.Front()), l.Empty()}})
		drv.Tick()
	}
	see()
	l.Reverse()
	see()
	l.Remove(at[n/2])
	see()
	l.MoveFront(at[n-1])
	see()
	l.MoveAfter(at[0], at[n-2])
	see()
	for i := 0; i < n; i++ {
		o.PushFront(n + i)
	}
	l.PushFrontList(o)
	see()
	l.PopFront()
	l.InsertAfter(at[n/2], at[1])
	see()
	e["n"], e["looks"] = n, looks
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		ls := [2]*stl.IntSList{stl.NewIntSList(), &stl.IntSList{}}
		decoy := stl.NewIntSList()
		var nodes []*node
		ids := map[*node]int{}
		id := func(n *node) int {
			if n == nil {
				return 0
			}
			if k, ok := ids[n]; ok {
				return k
			}
			return -999
		}
		adopt := func(n *node) int {
			if n == nil {
				return 0
			}
			if _, ok := ids[n]; ok {
				return -998
			}
			nodes = append(nodes, n)
			ids[n] = len(nodes)
			return len(nodes)
		}
		get := func(k int) *node {
			if k == 0 {
				return nil
			}
			return nodes[k-1]
		}
		fwd := func(l *stl.IntSList) []int {
			r := []int{}
			for n, k := l.Front(), 0; n != nil && k < far; n, k = n.Next(), k+1 {
				r = append(r, id(n))
			}
			return r
		}
		vis := func(l *stl.IntSList) []int {
			r := []int{}
			v := l.Visitor()
			for k := 0; k < far && v.Next(); k++ {
				r = append(r, id(v.Get()))
			}
			return r
		}
		noise := 0
		obs := func(e drv.Ev) {
			var f, vf, va, val [2][]int
			var em, cyc [2]bool
			var ln [2]int
			for i, l := range ls {
				f[i], vf[i] = fwd(l), vis(l)
				if len(f[i]) >= far { // cyclic: the calls below would not end
					e["f"], e["vf"] = f[i][:1], 0
					panic("cyclic list")
				}
				em[i], ln[i], cyc[i] = l.Empty(), l.Len(), l.HasCycle(l.Front())
				va[i], val[i] = []int{}, []int{}
				for k, n := range nodes {
					if l.IsValidNode(n) {
						va[i] = append(va[i], k+1)
					}
				}
				for _, k := range f[i] {
					if k > 0 {
						val[i] = append(val[i], drv.Id(get(k).Get()))
					}
				}
			}
			e["f"], e["vf"], e["em"], e["len"], e["ok_"], e["val"], e["cyc"] = f, vf, em, ln, va, val, cyc
			if noise++; noise%3 == 2 {
				decoy.PopFront()
			} else {
				decoy.PushFront(-5)
			}
		}
		det := func(n *node) bool { return n == nil || n.Next() == nil }
		step := func(st drv.Step) {
			op := st.Name()
			if op == "big" {
				t.Op(op, func(e drv.Ev) { big(e, st.Int(1)) })
				return
			}
			t.Op(op, func(e drv.Ev) {
				var l, o *stl.IntSList
				if op != "newNode" && op != "set" && op != "cycle" {
					l, o = ls[st.Int(1)-1], ls[2-st.Int(1)]
					e["i"] = st.Int(1)
				}
				var n, m *node
				mark := func(k int) { e["m"] = st.Int(k); m = get(st.Int(k)) }
				arg := func(k int) { e["n"] = st.Int(k); n = get(st.Int(k)) }
				switch op {
				case "newNode":
					n = &node{}
					n.Set(drv.Val(st.Int(1)))
					e["v"], e["r"] = st.Int(1), adopt(n)
				case "pushFront":
					e["v"], e["r"] = st.Int(2), adopt(l.PushFront(drv.Val(st.Int(2))))
				case "pushMany": // n values, each pushed at the front
					n, rs := st.Int(2), []int{}
					for i := 0; i < n; i++ {
						rs = append(rs, adopt(l.PushFront(drv.Val(st.Int(3)))))
					}
					e["k"], e["v"], e["r"] = n, st.Int(3), rs
				case "insFront":
					arg(2)
					e["r"] = id(l.InsertFront(n))
				case "pushAfter":
					mark(3)
					e["v"], e["r"] = st.Int(2), adopt(l.PushAfter(drv.Val(st.Int(2)), m))
				case "insAfter":
					arg(2)
					mark(3)
					e["r"] = id(l.InsertAfter(n, m))
				case "remove":
					arg(2)
					r := l.Remove(n)
					e["r"], e["det"] = id(r), det(r)
				case "removeFront":
					r := l.RemoveFront()
					e["r"], e["det"] = id(r), det(r)
				case "popFront":
					v, ok := l.PopFront()
					e["v"], e["ok"] = drv.Id(v), ok
				case "pushFrontList":
					l.PushFrontList(o)
				case "moveFront":
					arg(2)
					e["r"] = id(l.MoveFront(n))
				case "moveAfter":
					arg(2)
					mark(3)
					e["r"] = id(l.MoveAfter(n, m))
				case "reverse":
					l.Reverse()
				case "clear":
					l.Clear()
				case "sort":
					l.Sort()
				case "set":
					arg(1)
					e["v"], e["old"] = st.Int(2), drv.Id(n.Set(drv.Val(st.Int(2))))
				case "reach":
					arg(2)
					mark(3)
					e["ok"] = l.Reachable(n, m)
				case "tail":
					arg(2)
					t, size := n.Tail()
					e["t"], e["size"] = id(t), size
				case "cycle":
					k, m := st.Int(1), st.Int(2)
					c := stl.NewIntSList()
					for i := 0; i < k; i++ {
						c.PushFront(i)
					}
					if k > 0 { // inserting the last node once more behind a new front one closes a ring of k nodes
						last := c.Front()
						for last.Next() != nil {
							last = last.Next()
						}
						c.InsertAfter(last, c.PushFront(9))
					}
					for i := 0; i < m; i++ {
						c.PushFront(i)
					}
					oks := []bool{}
					p := c.Front()
					every := 1 + (2*k+m)/40
					for i := 0; i < 2*k+m+2; i++ { // from every node of the chain (or nil at its end); some of a long one
						if i%every == 0 {
							oks = append(oks, c.HasCycle(p))
						}
						p = p.Next()
					}
					e["k"], e["m"], e["oks"] = k, m, oks
				default:
					drv.Fail("op %v", st)
				}
				obs(e)
			})
		}
		finale := false
		for _, st := range s {
			if st.Name() == "finale" {
				finale = true
			} else {
				step(st)
			}
		}
		if t.Dead || !finale {
			return
		}
		for i := range ls {
			in := append([]int{0}, fwd(ls[i])...)
			if len(in) > 6 {
				in = in[:6]
			}
			for _, a := range in {
				step(drv.Step{"tail", float64(i + 1), float64(a)})
				for k := 0; k <= len(nodes) && k < 6; k++ {
					step(drv.Step{"reach", float64(i + 1), float64(a), float64(k)})
				}
			}
		}
	})
}
