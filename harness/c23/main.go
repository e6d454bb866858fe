// Driver for C23: the three kinds of factory. Factory numbers: 1, 2 of the chosen kind; with -kind mixed
// 1 is the package-level one, 2 and 3 are by name, 4 by number.
package main

import (
	"errors"
	"flag"
	"fmt"

	"github.com/vipally/gx/factory"
	"gxverif/drv"
)

var kind = flag.String("kind", "s", "s, i, g (package level) or mixed")

var calls int
var hook func()

type maker struct{ id int }

func (m *maker) Create(arg ...interface{}) interface{} {
	calls++
	return made(m.id, arg)
}

func made(id int, arg []interface{}) interface{} {
	a := []int{}
	for _, x := range arg {
		a = append(a, code(x))
	}
	return []interface{}{id, a}
}

// other shapes of creator: a plain value and a function (which cannot be compared)
type vmaker struct{ id int }

func (m vmaker) Create(arg ...interface{}) interface{} { calls++; return made(m.id, arg) }

type fmaker func(arg ...interface{}) interface{}

func (f fmaker) Create(arg ...interface{}) interface{} { return f(arg...) }

func newMaker(id int) factory.Creater {
	switch id {
	case 3:
		return vmaker{id}
	case 5: // uses the registry while it creates
		return fmaker(func(arg ...interface{}) interface{} {
			calls++
			if h := hook; h != nil {
				hook = nil
				h()
			}
			return made(id, arg)
		})
	case 4:
		return fmaker(func(arg ...interface{}) interface{} { calls++; return made(id, arg) })
	}
	return &maker{id}
}

// arguments of all shapes, by code
var someErr = errors.New("x")

func value(c int) interface{} {
	switch c {
	case 0:
		return nil
	case 1:
		return (*int)(nil)
	case 2:
		return ""
	case 3:
		return 0
	case 4:
		return false
	case 5:
		return []interface{}{7, 8}
	case 6:
		return []interface{}{}
	case 8:
		return someErr
	case 9:
		return []interface{}(nil)
	}
	return c
}

func code(x interface{}) int {
	switch v := x.(type) {
	case nil:
		return 0
	case *int:
		return 1
	case string:
		return 2
	case bool:
		return 4
	case []interface{}:
		switch {
		case len(v) == 2:
			return 5
		case v == nil:
			return 9
		case len(v) == 0:
			return 6
		}
	case error:
		return 8
	case int:
		if v == 0 {
			return 3
		}
		return v
	}
	return -999
}

type fac interface {
	add(t int, c factory.Creater) error
	rem(t int) error
	create(t int, a ...interface{}) interface{}
}
type fs struct{ f *factory.FactoryS }
type fi struct{ f *factory.FactoryI }
type fg struct{ run int } // the package-level registry lives on: every script uses names of its own

// types beyond the first six: as many as wanted
func name(t int) string {
	if t < 6 {
		return names[t]
	}
	return fmt.Sprint("type", t)
}

func num(t int) int {
	if t < 6 {
		return nums[t]
	}
	return t * 65536
}

var names = []string{"", "a", "A", "b", "a ", "日本"}
var nums = []int{0, 1, -1, 1 << 62, 2, -1 << 63}

func (x fs) add(t int, c factory.Creater) error         { return x.f.AddCreater(name(t), c) }
func (x fs) rem(t int) error                            { return x.f.RemoveCreater(name(t)) }
func (x fs) create(t int, a ...interface{}) interface{} { return x.f.Create(name(t), a...) }
func (x fi) add(t int, c factory.Creater) error         { return x.f.AddCreater(num(t), c) }
func (x fi) rem(t int) error                            { return x.f.RemoveCreater(num(t)) }
func (x fi) create(t int, a ...interface{}) interface{} { return x.f.Create(num(t), a...) }
func (x fg) name(t int) string                          { return fmt.Sprintf("%s/%d", name(t), x.run) }
func (x fg) add(t int, c factory.Creater) error         { return factory.AddCreater(x.name(t), c) }
func (x fg) rem(t int) error                            { return factory.RemoveCreater(x.name(t)) }
func (x fg) create(t int, a ...interface{}) interface{} { return factory.Create(x.name(t), a...) }

func main() {
	run := 0
	drv.Main(func(t *drv.T, s drv.Script) {
		run += 2
		fs_ := map[int]fac{}
		for i := 1; i <= 4; i++ {
			switch {
			case *kind == "i" || *kind == "mixed" && i == 4:
				fs_[i] = fi{factory.NewFactoryI()}
			case *kind == "s" || *kind == "mixed" && i > 1:
				fs_[i] = fs{factory.NewFactoryS()}
			default:
				fs_[i] = fg{run + i - 1}
			}
		}
		mk := map[int]factory.Creater{}
		var do func(st drv.Step, e drv.Ev)
		do = func(st drv.Step, e drv.Ev) {
			f, ty := st.Int(1), st.Int(2)
			e["f"], e["t"] = f, ty
			switch op := st.Name(); op {
			case "add":
				c := st.Int(3)
				var err error
				if c == 0 {
					err = fs_[f].add(ty, nil)
				} else {
					if mk[c] == nil {
						mk[c] = newMaker(c)
					}
					err = fs_[f].add(ty, mk[c])
				}
				e["c"], e["err"] = c, err != nil
			case "rem":
				e["err"] = fs_[f].rem(ty) != nil
			case "create":
				args := []interface{}{}
				for _, x := range st.Ints(3) {
					args = append(args, value(x))
				}
				e["in"] = []drv.Ev{}
				if hook = nil; len(st) > 4 { // what its creator does on the way, if it does anything
					hook = func() {
						in := drv.Step(st[4].([]interface{}))
						ie := drv.Ev{"op": in.Name()}
						n := calls
						do(in, ie)
						calls = n
						e["in"] = []drv.Ev{ie}
					}
				}
				calls = 0
				r := fs_[f].create(ty, args...)
				if r == nil {
					r = []int{}
				}
				e["args"], e["r"], e["calls"], e["has"] = st.Ints(3), r, calls, len(st) > 4
			default:
				drv.Fail("op %v", st)
			}
		}
		for _, st := range s {
			op := st.Name()
			t.Op(op, func(e drv.Ev) { do(st, e) })
		}
	})
}
