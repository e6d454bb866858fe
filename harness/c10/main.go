// Driver for C10: replays edits and visitor walks on stl.IntTreeNode and fs.FileHashTreeNode trees.
package main

import (
	"flag"

	"github.com/vipally/gx/fs"
	"github.com/vipally/gx/stl"
	"gxverif/drv"
	"gxverif/drv/hv"
)

var kind = flag.String("kind", "int", "int or hash")

type tree[N, V any] interface {
	*N
	Children() []*N
	NumChildren() int
	GetChild(int) (*N, bool)
	AddChild(V, int) *N
	AddChildNode(*N, int) *N
	RemoveChild(int) (*N, bool)
	SortChildren()
	All() []V
}

type visitor[V any] interface {
	Next() bool
	Prev() bool
	Get() V
}

// what the two kinds differ in
type world[N, V any] struct {
	root  func() *N
	visit func(*N) visitor[V]
	val   func(int) V
	rank  func(V) int
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		if *kind == "hash" {
			run[fs.FileHashTreeNode, fs.FileHash](t, s, world[fs.FileHashTreeNode, fs.FileHash]{
				func() *fs.FileHashTreeNode { return (&fs.FileHashTreeNode{}).AddChild(hv.Val(500), 0) },
				func(n *fs.FileHashTreeNode) visitor[fs.FileHash] { return n.Visitor() }, hv.Val, hv.Rank})
			return
		}
		run[stl.IntTreeNode, int](t, s, world[stl.IntTreeNode, int]{func() *stl.IntTreeNode { return &stl.IntTreeNode{} },
			func(n *stl.IntTreeNode) visitor[int] { return n.Visitor() }, drv.RVal, drv.Rank})
	})
}

func run[node, V any, P tree[node, V]](t *drv.T, s drv.Script, w world[node, V]) {
	{
		ranks := func(vs []V) []int {
			r := make([]int, len(vs))
			for i, v := range vs {
				r[i] = w.rank(v)
			}
			return r
		}
		root := w.root()
		nodes := []*node{root}
		ids := map[*node]int{root: 1}
		decoy := w.root()
		id := func(n *node) int {
			if n == nil {
				return 0
			}
			if k, ok := ids[n]; ok {
				return k
			}
			return -999
		}
		adopt := func(n *node) int {
			if n == nil {
				return 0
			}
			if _, ok := ids[n]; ok {
				return -998
			}
			nodes = append(nodes, n)
			ids[n] = len(nodes)
			return len(nodes)
		}
		idsOf := func(ns []*node) []int {
			r := make([]int, len(ns))
			for i, n := range ns {
				r[i] = id(n)
			}
			return r
		}
		count := 0
		obs := func(e drv.Ev) {
			kids := make([][]int, len(nodes))
			gets := make([][]int, len(nodes))
			num := make([]int, len(nodes))
			for k, n := range nodes {
				kids[k], num[k] = idsOf(P(n).Children()), P(n).NumChildren()
				g := []int{}
				for i := -1; i <= num[k]; i++ {
					if c, ok := P(n).GetChild(i); ok {
						g = append(g, id(c))
					} else {
						g = append(g, 0)
					}
				}
				gets[k] = g
			}
			count++
			of := 1
			if count%2 == 0 {
				of = count/2%len(nodes) + 1
			}
			e["kids"], e["gets"], e["num"], e["of"], e["all"] = kids, gets, num, of, ranks(P(nodes[of-1]).All())
			if count%3 == 0 {
				P(decoy).AddChild(w.val(496), 0)
			} else if count%7 == 0 {
				P(decoy).RemoveChild(0)
			}
		}
		for _, st := range s {
			op := st.Name()
			if op == "big" {
				t.Op(op, func(e drv.Ev) { big[node, V, P](e, st.Int(1), w) })
				continue
			}
			if op == "visit" {
				t.Op(op, func(e drv.Ev) {
					v := w.visit(nodes[st.Int(1)-1])
					other := w.visit(decoy)
					dirs, r := []string{}, []int{}
					// a second walk over the same nodes, in the other order, between the steps of the first
					n2 := st.Int(1)
					if len(st.Str(2))%3 == 0 {
						n2 = 1
					}
					v2 := w.visit(nodes[n2-1])
					dirs2, r2 := []string{}, []int{}
					second := func(c rune) {
						d, ok := "P", false
						if c == 'N' && len(r2)%5 != 4 || c != 'N' && len(r2)%5 == 4 {
							d, ok = "N", v2.Next()
						} else {
							ok = v2.Prev()
						}
						dirs2 = append(dirs2, d)
						if ok {
							r2 = append(r2, w.rank(v2.Get()))
						} else {
							r2 = append(r2, -1)
						}
					}
					for _, c := range st.Str(2) {
						var ok bool
						if c == 'N' {
							ok = v.Next()
							other.Next()
						} else {
							ok = v.Prev()
						}
						dirs = append(dirs, string(c))
						if ok {
							r = append(r, w.rank(v.Get()))
						} else {
							r = append(r, -1)
						}
						second(c)
					}
					e["n2"], e["dirs2"], e["r2"] = n2, dirs2, r2
					e["n"], e["dirs"], e["r"] = st.Int(1), dirs, r
				})
				continue
			}
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "build":
					par, vs := st.Ints(1), st.Ints(2)
					for k := 1; k < len(par); k++ {
						adopt(P(nodes[par[k]-1]).AddChild(w.val(vs[k]), -1))
					}
					e["par"], e["vs"] = par, vs
				case "add":
					e["n"], e["v"], e["i"] = st.Int(1), st.Int(2), st.Int(3)
					e["r"] = adopt(P(nodes[st.Int(1)-1]).AddChild(w.val(st.Int(2)), st.Int(3)))
				case "attach":
					e["n"], e["c"], e["i"] = st.Int(1), st.Int(2), st.Int(3)
					e["r"] = id(P(nodes[st.Int(1)-1]).AddChildNode(nodes[st.Int(2)-1], st.Int(3)))
				case "remove":
					e["n"], e["i"] = st.Int(1), st.Int(2)
					c, ok := P(nodes[st.Int(1)-1]).RemoveChild(st.Int(2))
					e["r"], e["ok"] = id(c), ok
				case "sort":
					e["n"] = st.Int(1)
					P(nodes[st.Int(1)-1]).SortChildren()
				default:
					drv.Fail("op %v", st)
				}
				obs(e)
			})
		}
	}
}

// a root with n children of ranks 0, 1 .. 1000, 0, 1 .. and one grandchild below the middle and the last of them
func big[node, V any, P tree[node, V]](e drv.Ev, n int, w world[node, V]) {
	root := P(w.root())
	for i := 0; i < n; i++ {
		c := root.AddChild(w.val(i%1001), -1)
		if i == n/2 || i == n-1 {
			P(c).AddChild(w.val(499), 0)
		}
	}
	type look struct {
		N   [][3]int `json:"n"`
		P   [][3]int `json:"p"`
		All [][3]int `json:"all"`
		Num int      `json:"num"`
		Get []int    `json:"get"`
	}
	looks := []look{}
	see := func() {
		f, b, a := []int{}, []int{}, []int{}
		v := w.visit((*node)(root))
		for len(f) < 3*n && v.Next() {
			f = append(f, w.rank(v.Get()))
		}
		v = w.visit((*node)(root))
		for len(b) < 3*n && v.Prev() {
			b = append(b, w.rank(v.Get()))
		}
		for _, x := range root.All() {
			a = append(a, w.rank(x))
		}
		g := []int{}
		for _, i := range []int{0, n / 2, n - 1, n, -1, n / 3} {
			k := -1
			if c, ok := root.GetChild(i); ok {
				v := w.visit(c)
				v.Next()
				k = w.rank(v.Get())
			}
			g = append(g, k)
		}
		looks = append(looks, look{drv.Runs(f), drv.Runs(b), drv.Runs(a), root.NumChildren(), g})
		drv.Tick()
	}
	see()
	root.RemoveChild(n - 2)
	see()
	root.AddChild(w.val(7), n/2)
	see()
	root.RemoveChild(0)
	root.AddChild(w.val(9), n-1)
	see()
	v := w.visit((*node)(root))
	v.Next()
	e["n"], e["root"], e["looks"] = n, w.rank(v.Get()), looks
}
