// Driver for C36: comparators of integers, tree nodes and file digests.
package main

import (
	"flag"
	"fmt"
	"sync/atomic"

	"github.com/vipally/gx/fs"
	"github.com/vipally/gx/stl"
	"gxverif/drv"
)

type cmp interface {
	byName(string, bool) cmp
	byBool(bool) cmp
	lesser() cmp
	greater() cmp
	f(x, y drv.Ev) bool
	fmt.Stringer
}

type ci struct{ c stl.CmpInt }
type cn struct{ c stl.CmpIntTreeNode }
type cf struct{ c fs.CmpFileHash }

func (c ci) byName(n string, f bool) cmp {
	if f {
		return ci{stl.CreateCmpInt(n)}
	}
	return ci{c.c.CreateByName(n)}
}
func (c ci) byBool(b bool) cmp  { return ci{c.c.CreateByBool(b)} }
func (c ci) lesser() cmp        { return ci{c.c.Lesser()} }
func (c ci) greater() cmp       { return ci{c.c.Greater()} }
func (c ci) f(x, y drv.Ev) bool { return c.c.F(drv.RVal(x["v"].(int)), drv.RVal(y["v"].(int))) }
func (c ci) String() string     { return c.c.String() }

func (c cn) byName(n string, f bool) cmp {
	if f {
		return cn{stl.CreateCmpIntTreeNode(n)}
	}
	return cn{c.c.CreateByName(n)}
}
func (c cn) byBool(b bool) cmp  { return cn{c.c.CreateByBool(b)} }
func (c cn) lesser() cmp        { return cn{c.c.Lesser()} }
func (c cn) greater() cmp       { return cn{c.c.Greater()} }
func (c cn) f(x, y drv.Ev) bool { return c.c.F(node(x), node(y)) }
func (c cn) String() string     { return c.c.String() }

func (c cf) byName(n string, f bool) cmp {
	if f {
		return cf{fs.CreateCmpFileHash(n)}
	}
	return cf{c.c.CreateByName(n)}
}
func (c cf) byBool(b bool) cmp  { return cf{c.c.CreateByBool(b)} }
func (c cf) lesser() cmp        { return cf{c.c.Lesser()} }
func (c cf) greater() cmp       { return cf{c.c.Greater()} }
func (c cf) f(x, y drv.Ev) bool { return c.c.F(fnode(x), fnode(y)) }
func (c cf) String() string     { return c.c.String() }

var turns int64 // varies what the order must not depend on

func node(x drv.Ev) *stl.IntTreeNode {
	turn := int(atomic.AddInt64(&turns, 1))
	n := (&stl.IntTreeNode{}).AddChild(drv.RVal(x["v"].(int)), -1)
	for i := 0; i < turn%3; i++ {
		n.AddChild(drv.RVal((turn*37+i*11)%1000), -1)
	}
	return n
}

var sizes = []uint64{0, 1, 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}

func file(x drv.Ev) fs.FileHash {
	turn := int(atomic.AddInt64(&turns, 1))
	b := []byte{}
	for _, c := range x["h"].([]int) {
		b = append(b, byte(c))
	}
	return fs.FileHash{Path: []string{"a", "", "z", "b"}[turn/2%4], Hash: string(b), Size: fs.FileSize(sizes[x["s"].(int)]), IsDir: turn/3%2 == 0}
}

func fnode(x drv.Ev) *fs.FileHashTreeNode {
	turn := int(atomic.LoadInt64(&turns))
	n := (&fs.FileHashTreeNode{}).AddChild(file(x), -1)
	for i := 0; i < turn%3; i++ {
		n.AddChild(file(x), -1)
	}
	return n
}

func main() {
	kind := flag.String("kind", "int", "")
	drv.Main(func(t *drv.T, s drv.Script) {
		var zero cmp
		switch *kind {
		case "int":
			zero = ci{}
		case "node":
			zero = cn{}
		case "file":
			zero = cf{}
		default:
			drv.Fail("kind %s", *kind)
		}
		cs := []cmp{zero} // made: 1.. ; 0 is the zero value
		val := func(st drv.Step, i int) drv.Ev {
			if *kind == "file" {
				return drv.Ev{"k": *kind, "s": st.Int(i), "h": append([]int{}, st.Ints(i+1)...)}
			}
			return drv.Ev{"k": *kind, "v": st.Int(i)}
		}
		for _, st := range s {
			switch op := st.Name(); op {
			case "name": // from a comparator (or the package function), name
				t.OpP(op, func(e drv.Ev) {
					e["name"] = st.Str(2)
					i := st.Int(1)
					c := cs[(i+1)%len(cs)].byName(st.Str(2), i < 0)
					cs = append(cs, c)
				})
			case "bool":
				t.Op(op, func(e drv.Ev) {
					e["big"] = st.Bool(2)
					cs = append(cs, cs[st.Int(1)%len(cs)].byBool(st.Bool(2)))
				})
			case "of":
				t.Op(op, func(e drv.Ev) {
					w := st.Str(2)
					e["what"] = w
					c := cs[(st.Int(1)+1)%len(cs)]
					if st.Int(1) < 0 { // the constants
						switch *kind {
						case "int":
							c = map[string]cmp{"Lesser": ci{stl.CmpIntLesser}, "Greater": ci{stl.CmpIntGreater}}[w]
						case "node":
							c = map[string]cmp{"Lesser": cn{stl.CmpIntTreeNodeLesser}, "Greater": cn{stl.CmpIntTreeNodeGreater}}[w]
						case "file":
							c = map[string]cmp{"Lesser": cf{fs.CmpFileHashLesser}, "Greater": cf{fs.CmpFileHashGreater}}[w]
						}
					} else if w == "Greater" {
						c = c.greater()
					} else {
						c = c.lesser()
					}
					cs = append(cs, c)
				})
			case "code":
				t.Op(op, func(e drv.Ev) {
					n := st.Int(1)
					e["c"] = n
					switch *kind {
					case "int":
						cs = append(cs, ci{stl.CmpInt(n)})
					case "node":
						cs = append(cs, cn{stl.CmpIntTreeNode(n)})
					case "file":
						cs = append(cs, cf{fs.CmpFileHash(n)})
					}
				})
			case "hold":
				t.Op(op, func(e drv.Ev) {
					c := (st.Int(1)-1)%(len(cs)-1) + 1
					j := 3
					if *kind == "file" {
						j = 4
					}
					x, y := val(st, 2), val(st, j)
					e["c"], e["x"], e["y"] = c, x, y
					e["r"] = cs[c].f(x, y)
				})
			case "less": // the Less methods
				t.Op(op, func(e drv.Ev) {
					j := 3
					if *kind == "file" {
						j = 4
					}
					x, y := val(st, 2), val(st, j)
					e["x"], e["y"] = x, y
					switch {
					case *kind == "node":
						e["r"] = node(x).Less(node(y))
					case *kind == "file" && st.Int(1) == 0:
						e["r"] = file(x).Less(file(y))
					case *kind == "file":
						e["r"] = fnode(x).Less(fnode(y))
					default:
						drv.Fail("op %v", st)
					}
				})
			case "text":
				t.Op(op, func(e drv.Ev) {
					c := (st.Int(1)-1)%(len(cs)-1) + 1
					e["c"], e["r"] = c, cs[c].String()
				})
			default:
				drv.Fail("op %v", st)
			}
		}
	})
}
