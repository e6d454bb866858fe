// Driver for C08: sorting of stl.IntList and stl.IntSList, comparators.
package main

import (
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

const far = 1 << 20

// node is what both kinds of node offer.
type node interface {
	Get() int
	Set(v int) int
}

type list interface {
	fill(vs []int) []node
	push(v int) node
	pop() (int, bool)
	rev()
	sort()
	empty() bool
	fwd() []node
	bwd() []node
	vis() []node
}

type dl struct{ l *stl.IntList }

func (d *dl) fill(vs []int) (r []node) {
	d.l = stl.NewIntList()
	for _, v := range vs {
		r = append(r, d.l.PushBack(v))
	}
	return
}
func (d *dl) push(v int) node  { return d.l.PushFront(v) }
func (d *dl) pop() (int, bool) { return d.l.PopFront() }
func (d *dl) rev()             { d.l.Reverse() }
func (d *dl) sort()            { d.l.Sort() }
func (d *dl) empty() bool      { return d.l.Empty() }
func (d *dl) fwd() (r []node) {
	if n := d.l.Front(); n != nil {
		for k := 0; k < far; k++ {
			r = append(r, n)
			if n = n.Next(); n == nil || n == d.l.Front() {
				break
			}
		}
	}
	return
}
func (d *dl) bwd() (r []node) {
	if n := d.l.Back(); n != nil {
		for k := 0; k < far; k++ {
			r = append(r, n)
			if n = n.Prev(); n == nil || n == d.l.Back() {
				break
			}
		}
	}
	return
}
func (d *dl) vis() (r []node) {
	for v, k := d.l.Visitor(), 0; v.Next() && k < far; k++ {
		r = append(r, v.Get())
	}
	return
}

type sl struct{ l *stl.IntSList }

func (d *sl) fill(vs []int) []node {
	d.l = stl.NewIntSList()
	r := make([]node, len(vs))
	for i := len(vs) - 1; i >= 0; i-- {
		r[i] = d.l.PushFront(vs[i])
	}
	return r
}
func (d *sl) push(v int) node  { return d.l.PushFront(v) }
func (d *sl) pop() (int, bool) { return d.l.PopFront() }
func (d *sl) rev()             { d.l.Reverse() }
func (d *sl) sort()            { d.l.Sort() }
func (d *sl) empty() bool      { return d.l.Empty() }
func (d *sl) fwd() (r []node) {
	for n, k := d.l.Front(), 0; n != nil && k < far; n, k = n.Next(), k+1 {
		r = append(r, n)
	}
	return
}
func (d *sl) bwd() (r []node) { return nil }
func (d *sl) vis() (r []node) {
	v := d.l.Visitor()
	for k := 0; k < far && v.Next(); k++ {
		r = append(r, v.Get())
	}
	return
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var l list
		var kind string
		var nodes []node
		ids := map[node]int{}
		decoy := stl.NewIntList()
		sdecoy := stl.NewIntSList()
		var before []int
		id := func(r []node) []int {
			o := make([]int, len(r))
			for i, n := range r {
				if k, ok := ids[n]; ok {
					o[i] = k
				} else {
					o[i] = -999
				}
			}
			return o
		}
		adopt := func(n node) { nodes = append(nodes, n); ids[n] = len(nodes) }
		obs := func(e drv.Ev) {
			f := l.fwd()
			if len(f) >= far {
				panic("cyclic")
			}
			vals := make([]int, len(f))
			for i, n := range f {
				vals[i] = drv.Rank(n.Get())
			}
			before = id(f)
			e["k"], e["f"], e["b"], e["vf"], e["em"], e["val"] = kind, before, id(l.bwd()), id(l.vis()), l.empty(), vals
		}
		for _, st := range s {
			op := st.Name()
			switch op {
			case "fill":
				if kind = st.Str(1); kind == "d" {
					l = &dl{}
				} else {
					l = &sl{}
				}
				t.Op(op, func(e drv.Ev) {
					e["vs"] = st[2]
					nodes, ids = nil, map[node]int{}
					for _, n := range l.fill(drv.RVals(st.Ints(2))) {
						adopt(n)
					}
					obs(e)
				})
			case "sort":
				t.Op(op, func(e drv.Ev) {
					pos := map[int]int{}
					for i, n := range before {
						pos[n] = i + 1
					}
					for i := 0; i < 5; i++ {
						decoy.PushBack(-i)
						sdecoy.PushFront(-i)
					}
					l.sort()
					decoy.Sort()
					sdecoy.Sort()
					obs(e)
					perm := make([]int, len(before))
					for i, n := range before {
						perm[i] = pos[n]
					}
					e["perm"] = perm
				})
			case "push":
				t.Op(op, func(e drv.Ev) {
					e["v"] = st.Int(1)
					adopt(l.push(drv.RVal(st.Int(1))))
					obs(e)
				})
			case "pop":
				t.Op(op, func(e drv.Ev) {
					v, ok := l.pop()
					e["v"], e["ok"] = drv.Rank(v), ok
					obs(e)
				})
			case "rev":
				t.Op(op, func(e drv.Ev) { l.rev(); obs(e) })
			case "set": // the node at a position of the list gets another value
				t.Op(op, func(e drv.Ev) {
					n := before[st.Int(1)%len(before)]
					e["n"], e["v"] = n, st.Int(2)
					nodes[n-1].Set(drv.RVal(st.Int(2)))
					obs(e)
				})
			case "cmp":
				t.OpP(op, func(e drv.Ev) {
					how, name, x, y := st.Str(1), st.Str(2), st.Int(3), st.Int(4)
					e["how"], e["name"], e["x"], e["y"], e["r"], e["s"] = how, name, x, y, false, ""
					var c stl.CmpInt
					switch how {
					case "name":
						c = c.CreateByName(name)
					case "bool":
						c = c.CreateByBool(name == "Greater")
					case "method":
						if name == "Greater" {
							c = c.Greater()
						} else {
							c = c.Lesser()
						}
					case "zero":
					default:
						drv.Fail("op %v", st)
					}
					e["r"], e["s"] = c.F(drv.RVal(x), drv.RVal(y)), c.String()
				})
			default:
				drv.Fail("op %v", st)
			}
		}
	})
}
