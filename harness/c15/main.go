// Driver for C15: bit/byte/word extraction, comma grouping, bool conversions.
package main

import (
	"strconv"

	"github.com/vipally/gx/math"
	"gxverif/drv"
)

func dig(v uint64) []int {
	r := []int{}
	for ; v > 0; v >>= 13 {
		r = append(r, int(v&8191))
	}
	return r
}

func le(v uint32) []int {
	return []int{int(v & 255), int(v >> 8 & 255), int(v >> 16 & 255), int(v >> 24)}
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s {
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "bit", "byte", "word":
					f := map[string]func(uint32, uint32) (uint32, error){"bit": math.GetBit, "byte": math.GetByte, "word": math.GetWord}[op]
					v, i := uint32(st.Int(1)), uint32(st.Int(2))
					r, err := f(v, i)
					e["v"], e["i"], e["r"], e["err"] = le(v), dig(uint64(i)), le(r), err != nil
				case "comma":
					n, err := strconv.ParseUint(st.Str(1), 10, 64)
					if err != nil {
						drv.Fail("%v", err)
					}
					cs := []int{}
					for _, c := range []byte(math.Uint64(n).CommaString()) {
						cs = append(cs, int(c))
					}
					e["n"], e["s"] = dig(n), cs
				case "btoi":
					b := st.Bool(1)
					e["b"], e["i"], e["i2"] = b, math.BToI(math.Bool(b)), math.Bool(b).I()
				case "itob":
					n, err := strconv.ParseInt(st.Str(1), 10, 64)
					if err != nil {
						drv.Fail("%v", err)
					}
					a := uint64(n)
					if n < 0 {
						a = -a
					}
					e["abs"], e["b"] = dig(a), math.ItoB(int(n))
				default:
					drv.Fail("op %v", st)
				}
			})
		}
	})
}
