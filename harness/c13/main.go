// Driver for C13: ranged unsigned integers of 32 and 64 bits. Numbers are little-endian base-8192 digits.
package main

import (
	"flag"

	"github.com/vipally/gx/math"
	"gxverif/drv"
)

func dig(v uint64) []int {
	r := []int{}
	for ; v > 0; v >>= 13 {
		r = append(r, int(v&8191))
	}
	return r
}

func num(st drv.Step, i int) uint64 {
	var v uint64
	d := st.Ints(i)
	for k := len(d) - 1; k >= 0; k-- {
		v = v<<13 | uint64(d[k])
	}
	return v
}

// ranged hides the width of the two types.
type ranged interface {
	init(v, a, b uint64) error
	do(op string, x uint64) (uint64, error)
	obs() (v, a, b uint64, same bool)
	in(x uint64) (bool, bool)
	reset(right bool) bool
}

type r32 struct{ r *math.RangeUint32 }
type r64 struct{ r *math.RangeUInt64 }

func (o *r32) init(v, a, b uint64) error { return o.r.Init(uint32(v), uint32(a), uint32(b)) }
func (o *r64) init(v, a, b uint64) error { return o.r.Init(v, a, b) }
func (o *r32) do(op string, x uint64) (uint64, error) {
	var r uint32
	var err error
	y := uint32(x)
	switch op {
	case "set":
		r, err = o.r.Set(y)
	case "add":
		r, err = o.r.Add(y)
	case "sub":
		r, err = o.r.Sub(y)
	case "mul":
		r, err = o.r.Mul(y)
	case "div":
		r, err = o.r.Div(y)
	case "mod":
		r, err = o.r.Mod(y)
	case "inc":
		r, err = o.r.Inc()
	case "dec":
		r, err = o.r.Dec(1)
	}
	return uint64(r), err
}
func (o *r64) do(op string, y uint64) (r uint64, err error) {
	switch op {
	case "set":
		r, err = o.r.Set(y)
	case "add":
		r, err = o.r.Add(y)
	case "sub":
		r, err = o.r.Sub(y)
	case "mul":
		r, err = o.r.Mul(y)
	case "div":
		r, err = o.r.Div(y)
	case "mod":
		r, err = o.r.Mod(y)
	case "inc":
		r, err = o.r.Inc()
	case "dec":
		r, err = o.r.Dec(1)
	}
	return
}
func (o *r32) obs() (uint64, uint64, uint64, bool) {
	v, a, b := o.r.Get()
	return uint64(v), uint64(a), uint64(b), v == o.r.Val() && a == o.r.Min() && b == o.r.Max()
}
func (o *r64) obs() (uint64, uint64, uint64, bool) {
	v, a, b := o.r.Get()
	return v, a, b, v == o.r.Val() && a == o.r.Min() && b == o.r.Max()
}
func (o *r32) in(x uint64) (bool, bool) { return o.r.InRange(uint32(x)), o.r.InCurrentRange(uint32(x)) }
func (o *r64) in(x uint64) (bool, bool) { return o.r.InRange(x), o.r.InCurrentRange(x) }
func (o *r32) reset(right bool) bool {
	if right {
		return o.r.ResetR()
	}
	return o.r.Reset()
}
func (o *r64) reset(right bool) bool {
	if right {
		return o.r.ResetR()
	}
	return o.r.Reset()
}

var bits = flag.String("bits", "32", "32 or 64")

func main() {

	drv.Main(func(t *drv.T, s drv.Script) {
		var o ranged
		for _, st := range s {
			op := st.Name()
			if o == nil && op != "new" {
				break
			}
			t.Op(op, func(e drv.Ev) {
				e["err"] = false
				switch op {
				case "new", "init":
					v, a, b := num(st, 1), num(st, 2), num(st, 3)
					e["v"], e["a"], e["b"] = dig(v), dig(a), dig(b)
					var err error
					switch {
					case op == "init":
						err = o.init(v, a, b)
					case *bits == "32":
						var r *math.RangeUint32
						if r, err = math.NewRangeUint32(uint32(v), uint32(a), uint32(b)); r != nil {
							o = &r32{r}
						}
					default:
						var r *math.RangeUInt64
						if r, err = math.NewRangeUInt64(v, a, b); r != nil {
							o = &r64{r}
						}
					}
					e["err"] = err != nil
				case "reset", "resetr":
					o.reset(op == "resetr")
				case "in":
					x := num(st, 1)
					e["x"] = dig(x)
					e["r"], e["rc"] = o.in(x)
				case "inc", "dec":
					r, err := o.do(op, 0)
					e["r"], e["err"] = dig(r), err != nil
				default:
					x := num(st, 1)
					r, err := o.do(op, x)
					e["x"], e["r"], e["err"] = dig(x), dig(r), err != nil
				}
				e["live"] = o != nil
				if o != nil {
					v, a, b, same := o.obs()
					e["val"], e["lo"], e["hi"], e["same"] = dig(v), dig(a), dig(b), same
				}
			})
		}
	})
}
