// Driver for C06 (and the doubly linked part of C08): replays scripts on stl.IntList.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

type node = stl.IntListNode

const far = 1 << 16 // walks are cut off here

// a list of n nodes holding 0..n-1, looked at after each of a few calls
func big(e drv.Ev, n int) {
	l, o := stl.NewIntList(), stl.NewIntList()
	at := make([]*node, n)
	for i := range at {
		at[i] = l.PushFront(i)
	}
	type look struct {
		F  [][3]int `json:"f"`
		B  [][3]int `json:"b"`
		V  [][3]int `json:"v"`
		W  [][3]int `json:"w"`
		Ok []bool   `json:"ok"`
	}
	looks := []look{}
	see := func() {
		f, b, v, w := []int{}, []int{}, []int{}, []int{}
		for p := l.Front(); len(f) < 3*n; {
			f = append(f, p.Get())
			if p = p.Next(); p == l.Front() {
				break
			}
		}
		for p := l.Back(); len(b) < 3*n; {
			b = append(b, p.Get())
			if p = p.Prev(); p == l.Back() {
				break
			}
		}
		for x := l.Visitor(); len(v) < 3*n && x.Next(); {
			v = append(v, x.Get().Get())
		}
		for x := l.Visitor(); len(w) < 3*n && x.Prev(); {
			w = append(w, x.Get().Get())
		}
		looks = append(looks, look{drv.Runs(f), drv.Runs(b), drv.Runs(v), drv.Runs(w),
			[]bool{l.IsValidNode(at[0]), l.IsValidNode(at[n-1]), l.IsValidNode(at[n/2]), l.Empty()}})
		drv.Tick()
	}
	see()
	l.Reverse()
	see()
	l.Remove(at[n/2])
	see()
	l.MoveFront(at[n-1])
	see()
	l.MoveAfter(at[0], at[n-2])
	see()
	for i := 0; i < n; i++ {
		o.PushFront(n + i)
	}
	l.InsertFrontList(o)
	see()
	l.PopFront()
	l.InsertAfter(at[n/2], at[1])
	see()
	l.RotateForward()
	see()
	l.RotateBackward()
	l.MoveBack(at[n-1])
	see()
	l.PopBack()
	l.MoveBefore(at[n/2], at[1])
	see()
	e["n"], e["looks"] = n, looks
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		ls := [2]*stl.IntList{stl.NewIntList(), &stl.IntList{}}
		decoy := stl.NewIntList()
		var nodes []*node
		ids := map[*node]int{}
		id := func(n *node) int {
			if n == nil {
				return 0
			}
			if k, ok := ids[n]; ok {
				return k
			}
			return -999
		}
		adopt := func(n *node) int { // a node created by the list
			if n == nil {
				return 0
			}
			if _, ok := ids[n]; ok {
				return -998 // not a new node
			}
			nodes = append(nodes, n)
			ids[n] = len(nodes)
			return len(nodes)
		}
		get := func(k int) *node {
			if k == 0 {
				return nil
			}
			return nodes[k-1]
		}
		fwd := func(l *stl.IntList) []int {
			r := []int{}
			for n, k := l.Front(), 0; n != nil && k < far; k++ {
				r = append(r, id(n))
				if n = n.Next(); n == l.Front() {
					break
				}
			}
			return r
		}
		bwd := func(l *stl.IntList) []int {
			r := []int{}
			for n, k := l.Back(), 0; n != nil && k < far; k++ {
				r = append(r, id(n))
				if n = n.Prev(); n == l.Back() {
					break
				}
			}
			return r
		}
		vis := func(l *stl.IntList, next bool) []int {
			r := []int{}
			v := l.Visitor()
			for k := 0; k < far; k++ {
				if next && !v.Next() || !next && !v.Prev() {
					break
				}
				r = append(r, id(v.Get()))
			}
			return r
		}
		noise := 0
		obs := func(e drv.Ev) {
			var f, b, vf, vb, va, val [2][]int
			var em [2]bool
			for i, l := range ls {
				f[i], b[i], vf[i], vb[i] = fwd(l), bwd(l), vis(l, true), vis(l, false)
				em[i] = l.Empty()
				va[i], val[i] = []int{}, []int{}
				for k, n := range nodes {
					if l.IsValidNode(n) {
						va[i] = append(va[i], k+1)
					}
				}
				for _, k := range f[i] {
					if k > 0 {
						val[i] = append(val[i], drv.Id(get(k).Get()))
					}
				}
			}
			e["f"], e["b"], e["vf"], e["vb"], e["em"], e["ok_"], e["val"] = f, b, vf, vb, em, va, val
			if noise++; noise%3 == 2 {
				decoy.PopBack()
			} else {
				decoy.PushFront(-5)
			}
		}
		det := func(n *node) bool { return n == nil || n.Next() == nil && n.Prev() == nil }
		step := func(st drv.Step) {
			op := st.Name()
			if op == "big" {
				t.Op(op, func(e drv.Ev) { big(e, st.Int(1)) })
				return
			}
			t.Op(op, func(e drv.Ev) {
				var l, o *stl.IntList
				if op != "newNode" && op != "set" {
					l, o = ls[st.Int(1)-1], ls[2-st.Int(1)]
					e["i"] = st.Int(1)
				}
				var n, m *node
				mark := func(k int) { e["m"] = st.Int(k); m = get(st.Int(k)) }
				arg := func(k int) { e["n"] = st.Int(k); n = get(st.Int(k)) }
				switch op {
				case "newNode":
					n = &node{}
					n.Set(drv.Val(st.Int(1)))
					e["v"], e["r"] = st.Int(1), adopt(n)
				case "pushFront":
					e["v"], e["r"] = st.Int(2), adopt(l.PushFront(drv.Val(st.Int(2))))
				case "pushBack":
					e["v"], e["r"] = st.Int(2), adopt(l.PushBack(drv.Val(st.Int(2))))
				case "pushMany": // n values, each pushed at the front or the back
					n, rs := st.Int(2), []int{}
					for i := 0; i < n; i++ {
						if st.Str(4) == "F" {
							rs = append(rs, adopt(l.PushFront(drv.Val(st.Int(3)))))
						} else {
							rs = append(rs, adopt(l.PushBack(drv.Val(st.Int(3)))))
						}
					}
					e["k"], e["v"], e["w"], e["r"] = n, st.Int(3), st.Str(4), rs
				case "insFront":
					arg(2)
					e["r"] = id(l.InsertFront(n))
				case "insBack":
					arg(2)
					e["r"] = id(l.InsertBack(n))
				case "pushBefore":
					mark(3)
					e["v"], e["r"] = st.Int(2), adopt(l.PushBefore(drv.Val(st.Int(2)), m))
				case "pushAfter":
					mark(3)
					e["v"], e["r"] = st.Int(2), adopt(l.PushAfter(drv.Val(st.Int(2)), m))
				case "insBefore":
					arg(2)
					mark(3)
					e["r"] = id(l.InsertBefore(n, m))
				case "insAfter":
					arg(2)
					mark(3)
					e["r"] = id(l.InsertAfter(n, m))
				case "remove":
					arg(2)
					r := l.Remove(n)
					e["r"], e["det"] = id(r), det(r)
				case "removeFront":
					r := l.RemoveFront()
					e["r"], e["det"] = id(r), det(r)
				case "removeBack":
					r := l.RemoveBack()
					e["r"], e["det"] = id(r), det(r)
				case "popFront":
					v, ok := l.PopFront()
					e["v"], e["ok"] = drv.Id(v), ok
				case "popBack":
					v, ok := l.PopBack()
					e["v"], e["ok"] = drv.Id(v), ok
				case "insFrontList":
					e["ok"] = l.InsertFrontList(o)
				case "insBackList":
					e["ok"] = l.InsertBackList(o)
				case "moveFront":
					arg(2)
					e["r"] = id(l.MoveFront(n))
				case "moveBack":
					arg(2)
					e["r"] = id(l.MoveBack(n))
				case "moveBefore":
					arg(2)
					mark(3)
					e["r"] = id(l.MoveBefore(n, m))
				case "moveAfter":
					arg(2)
					mark(3)
					e["r"] = id(l.MoveAfter(n, m))
				case "rotF":
					l.RotateForward()
				case "rotB":
					l.RotateBackward()
				case "reverse":
					l.Reverse()
				case "clear":
					l.Clear()
				case "sort":
					l.Sort()
				case "set":
					arg(1)
					e["v"], e["old"] = st.Int(2), drv.Id(n.Set(drv.Val(st.Int(2))))
				case "reach":
					arg(2)
					mark(3)
					e["ok"] = l.Reachable(n, m)
				case "visit":
					dirs := []string{}
					r := []int{}
					v, ended := l.Visitor(), false
					for _, c := range st.Str(2) {
						dirs = append(dirs, string(c))
						switch {
						case c == 'R':
							v.Reset()
							ended = false
							r = append(r, -1)
						case ended:
							r = append(r, -2)
						default:
							if c == 'N' && v.Next() || c == 'P' && v.Prev() {
								r = append(r, id(v.Get()))
							} else {
								r = append(r, 0)
								ended = true
							}
						}
					}
					e["dirs"], e["r"] = dirs, r
				default:
					drv.Fail("op %v", st)
				}
				obs(e)
			})
		}
		finale := false
		for _, st := range s {
			if st.Name() == "finale" {
				finale = true
			} else {
				step(st)
			}
		}
		if t.Dead || !finale {
			return
		}
		// finale: reachability between nodes, mixed visitor walks
		for i := range ls {
			in := fwd(ls[i])
			if len(in) > 5 {
				in = in[:5]
			}
			for _, a := range in {
				for k := 0; k <= len(nodes) && k < 6; k++ {
					step(drv.Step{"reach", float64(i + 1), float64(a), float64(k)})
				}
			}
			step(drv.Step{"reach", float64(i + 1), float64(0), float64(0)})
			for k, w := range []string{"NNPPNNNRPNPPPPRNP", "PPNPPPNNNNNRNNNNNN", "NPRPNRNNNPRPPPPN", "PRNNPNNPNNPNN"} {
				if (len(s)+k)%2 == 0 {
					step(drv.Step{"visit", float64(i + 1), w})
				}
			}
		}
	})
}
