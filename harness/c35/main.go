// Driver for C35: reflect, math.Equal, math/cplx.
package main

import (
	html "html/template"
	"reflect"
	text "text/template"

	gxmath "github.com/vipally/gx/math"
	"github.com/vipally/gx/math/cplx"
	gxreflect "github.com/vipally/gx/reflect"
	"gxverif/drv"
)

type I int
type J int
type Str string
type F float64
type St struct{ A int }

var (
	x  = 7
	px = &x
)

func twinA() []interface{} { // types of the same name in different scopes
	type Twin struct{ A int }
	type Num int
	return []interface{}{Twin{1}, Num(1), []Twin{{1}}, &Twin{2}}
}

func twinB() []interface{} {
	type Twin struct{ A int }
	type Num int
	return []interface{}{Twin{1}, Num(1), []Twin{{1}}, &Twin{2}}
}

func init() {
	samples = append(samples, twinA()...)
	samples = append(samples, twinB()...)
	samples = append(samples, html.New("x"), text.New("x")) // packages of the same name
}

// in the order of TypeKit!Samples
var samples = []interface{}{
	int(1), int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1.5), float64(1.5), "s",
	byte(2), rune(2), true, uintptr(1), complex64(1), complex128(1), I(1), J(1), Str("q"), F(1.5),
	struct{ A int }{3}, St{4}, [2]int{1, 2}, [3]int{1, 2, 3}, []int{1}, []byte{1}, map[string]int{"a": 1}, px, &px, func() {}, make(chan int), make(chan<- int), &St{5}, int(9),
}

func at(i int) interface{} {
	if i == 0 {
		return nil
	}
	return samples[i-1]
}

func same(v reflect.Value, s interface{}) bool {
	switch v.Kind() {
	case reflect.Func:
		return v.Pointer() == reflect.ValueOf(s).Pointer()
	}
	return reflect.DeepEqual(v.Interface(), s)
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		type cell struct {
			v reflect.Value
			i int
		}
		var cells []cell
		dump := func(e drv.Ev) {
			r := []string{}
			for _, c := range cells {
				w := "other"
				if c.v.Elem().IsZero() {
					w = "zero"
				} else if same(c.v.Elem(), at(c.i)) {
					w = "set"
				}
				r = append(r, w)
			}
			e["cells"] = r
		}
		for _, st := range s {
			st := st
			t.Op(st.Name(), func(e drv.Ev) {
				switch st.Name() {
				case "new":
					i := st.Int(1)
					p := gxreflect.New(at(i))
					v := reflect.ValueOf(p)
					e["i"], e["ptr"] = i, v.Kind() == reflect.Ptr && !v.IsNil() && v.Type().Elem() == reflect.TypeOf(at(i))
					e["kept"] = same(reflect.ValueOf(at(i)), at(i))
					cells = append(cells, cell{v, i})
					dump(e)
				case "put":
					c := cells[st.Int(1)-1]
					c.v.Elem().Set(reflect.ValueOf(at(c.i)))
					e["n"] = st.Int(1)
					dump(e)
				case "same":
					e["i"], e["j"], e["r"] = st.Int(1), st.Int(2), gxreflect.IsSameType(at(st.Int(1)), at(st.Int(2)))
				case "kind":
					e["i"], e["r"] = st.Int(1), int(gxreflect.Kind(at(st.Int(1))))
				case "cmp":
					e["i"], e["r"] = st.Int(1), gxreflect.IsCmpableInnterType(at(st.Int(1)))
				case "equal":
					i, j := st.Int(1), st.Int(2)
					e["i"], e["j"], e["r"] = i, j, gxmath.Equal(float64(i)/(1<<30), float64(j)/(1<<30))
				case "cplx":
					i, j := st.Int(1), st.Int(2)
					a, b := cplx.Cplx128(complex(float64(i), float64(j))), cplx.Cplx64(complex(float32(i), float32(j)))
					e["i"], e["j"] = i, j
					e["re"], e["im"], e["re32"], e["im32"] = int(a.Real()), int(a.Imag()), int(b.Real()), int(b.Imag())
				}
			})
		}
	})
}
