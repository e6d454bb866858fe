// Driver for C09: replays scripts on stl.IntSortSlice, stl.IntTreeNodeSortSlice and fs.FileHashSortSlice.
package main

import (
	"flag"
	"sync"

	"github.com/vipally/gx/fs"
	"github.com/vipally/gx/stl"
	"gxverif/drv"
	"gxverif/drv/hv"
)

var kind = flag.String("kind", "int", "int, node or hash")

// slice is what both kinds offer, with values given as ranks.
type slice interface {
	Init(c int)
	Sort()
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
	buffer() []int
	push(r int) int
	insert(r, i int) int
	remove(i int) (int, bool)
	pop() (int, bool)
	get(i int) (int, bool)
	must(i int) int
}

type ints struct{ *stl.IntSortSlice }

func (s ints) buffer() []int       { return drv.Ranks(s.Buffer()) }
func (s ints) push(r int) int      { return s.Push(drv.RVal(r)) }
func (s ints) insert(r, i int) int { return s.Insert(drv.RVal(r), i) }
func (s ints) remove(i int) (int, bool) {
	v, ok := s.Remove(i)
	return drv.Rank(v), ok
}
func (s ints) pop() (int, bool) {
	v, ok := s.Pop()
	return drv.Rank(v), ok
}
func (s ints) get(i int) (int, bool) {
	v, ok := s.Get(i)
	return drv.Rank(v), ok
}
func (s ints) must(i int) int { return drv.Rank(s.MustGet(i)) }

type nodes struct{ *stl.IntTreeNodeSortSlice }

// a slice may hold the same node more than once: half of the time the last node made for a rank is used again
var again = map[int]*stl.IntTreeNode{}
var turn int
var lock sync.Mutex

func mk(r int) *stl.IntTreeNode {
	lock.Lock()
	defer lock.Unlock()
	if turn++; turn/2%2 == 0 && again[r] != nil {
		return again[r]
	}
	again[r] = (&stl.IntTreeNode{}).AddChild(drv.RVal(r), -1)
	return again[r]
}
func val(n *stl.IntTreeNode) int {
	if n == nil {
		return -998
	}
	return drv.Rank(n.All()[0])
}
func (s nodes) buffer() []int {
	r := []int{}
	for _, n := range s.Buffer() {
		r = append(r, val(n))
	}
	return r
}
func (s nodes) push(r int) int      { return s.Push(mk(r)) }
func (s nodes) insert(r, i int) int { return s.Insert(mk(r), i) }
func (s nodes) remove(i int) (int, bool) {
	v, ok := s.Remove(i)
	return val(v), ok
}
func (s nodes) pop() (int, bool) {
	v, ok := s.Pop()
	return val(v), ok
}
func (s nodes) get(i int) (int, bool) {
	v, ok := s.Get(i)
	return val(v), ok
}
func (s nodes) must(i int) int { return val(s.MustGet(i)) }

type hashes struct{ *fs.FileHashSortSlice }

var againh = map[int]*fs.FileHashTreeNode{}

func mkh(r int) *fs.FileHashTreeNode {
	lock.Lock()
	defer lock.Unlock()
	if turn++; turn/2%2 == 0 && againh[r] != nil {
		return againh[r]
	}
	againh[r] = (&fs.FileHashTreeNode{}).AddChild(hv.Val(r), -1)
	return againh[r]
}
func hval(n *fs.FileHashTreeNode) int {
	if n == nil {
		return -998
	}
	return hv.Rank(n.All()[0])
}
func (s hashes) buffer() []int {
	r := []int{}
	for _, n := range s.Buffer() {
		r = append(r, hval(n))
	}
	return r
}
func (s hashes) push(r int) int      { return s.Push(mkh(r)) }
func (s hashes) insert(r, i int) int { return s.Insert(mkh(r), i) }
func (s hashes) remove(i int) (int, bool) {
	v, ok := s.Remove(i)
	return hval(v), ok
}
func (s hashes) pop() (int, bool) {
	v, ok := s.Pop()
	return hval(v), ok
}
func (s hashes) get(i int) (int, bool) {
	v, ok := s.Get(i)
	return hval(v), ok
}
func (s hashes) must(i int) int { return hval(s.MustGet(i)) }

func make_(c int) slice {
	if *kind == "int" {
		if c == -99 {
			return ints{&stl.IntSortSlice{}}
		}
		return ints{stl.NewIntSortSlice(c)}
	}
	if *kind == "hash" {
		if c == -99 {
			return hashes{&fs.FileHashSortSlice{}}
		}
		return hashes{fs.NewFileHashSortSlice(c)}
	}
	if c == -99 {
		return nodes{&stl.IntTreeNodeSortSlice{}}
	}
	return nodes{stl.NewIntTreeNodeSortSlice(c)}
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var q slice
		decoy := make_(-99)
		n := 0
		for _, st := range s {
			op := st.Name()
			f := func(e drv.Ev) {
				defer func() {
					if n++; n%4 == 3 {
						decoy.remove(0)
					} else {
						decoy.insert(7, 0)
					}
					e["d"], e["len"] = q.buffer(), q.Len()
				}()
				switch op {
				case "new":
					q = make_(st.Int(1))
				case "init":
					c := st.Int(1)
					if c < 0 {
						c = 0
					}
					q.Init(c)
				case "push":
					e["v"] = st.Int(1)
					e["n"] = q.push(st.Int(1))
				case "pushn":
					e["vs"] = st.Ints(1)
					for _, v := range st.Ints(1) {
						e["n"] = q.push(v)
					}
				case "ins":
					e["v"], e["i"] = st.Int(1), st.Int(2)
					e["n"] = q.insert(st.Int(1), st.Int(2))
				case "rem":
					e["i"] = st.Int(1)
					e["v"], e["ok"] = q.remove(st.Int(1))
				case "pop":
					e["v"], e["ok"] = q.pop()
				case "get":
					e["i"] = st.Int(1)
					e["v"], e["ok"] = q.get(st.Int(1))
				case "must":
					e["i"], e["v"] = st.Int(1), 0
					e["v"] = q.must(st.Int(1))
				case "swap":
					e["i"], e["j"] = st.Int(1), st.Int(2)
					q.Swap(st.Int(1), st.Int(2))
				case "less":
					e["i"], e["j"] = st.Int(1), st.Int(2)
					e["r"] = q.Less(st.Int(1), st.Int(2))
				case "sort":
					q.Sort()
				default:
					drv.Fail("op %v", st)
				}
			}
			if op == "must" {
				t.OpP(op, f)
			} else {
				t.Op(op, f)
			}
		}
	})
}
