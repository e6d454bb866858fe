// Driver for C34: durations.
package main

import (
	"math"
	"math/big"
	"strconv"
	"time"

	gxtime "github.com/vipally/gx/time"
	"gxverif/drv"
)

// nat is a natural number in base 1000, least digit first.
func nat(x *big.Int) []int {
	r := []int{}
	y, q, k := new(big.Int).Set(x), new(big.Int), big.NewInt(1000)
	for y.Sign() > 0 {
		y.QuoRem(y, k, q)
		r = append(r, int(q.Int64()))
	}
	return r
}

func abs(v int64) []int { return nat(new(big.Int).Abs(big.NewInt(v))) }

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func float(unit string, f float64) []interface{} {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return []interface{}{unit, f < 0, []int{7}, 900}
	}
	fr, e := math.Frexp(math.Abs(f))
	m := int64(fr * (1 << 53))
	e -= 53
	if m == 0 {
		e = 0
	}
	return []interface{}{unit, math.Signbit(f), nat(big.NewInt(m)), e}
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s {
			st := st
			t.Op(st.Name(), func(e drv.Ev) {
				switch st.Name() {
				case "one":
					v, err := strconv.ParseInt(st.Str(1), 10, 64)
					if err != nil {
						drv.Fail("%v", err)
					}
					d := gxtime.Duration(v)
					e["neg"], e["a"], e["text"] = v < 0, abs(v), ints([]byte(d.String()))
					sd := d.Std()
					e["std"], e["stdneg"] = abs(int64(sd)), int64(sd) < 0
					e["floats"] = [][]interface{}{float("Second", d.Seconds()), float("Minute", d.Minutes()), float("Hour", d.Hours()), float("Day", d.Days()), float("Week", d.Weeks())}
				case "unit":
					m := map[string]gxtime.Duration{"Nanosecond": gxtime.Nanosecond, "Microsecond": gxtime.Microsecond, "Millisecond": gxtime.Millisecond, "Second": gxtime.Second,
						"Minute": gxtime.Minute, "Hour": gxtime.Hour, "Day": gxtime.Day, "Week": gxtime.Week}
					e["name"], e["a"] = st.Str(1), abs(int64(m[st.Str(1)]))
				case "read":
					b := make([]byte, 0)
					for _, x := range st.Ints(1) {
						b = append(b, byte(x))
					}
					d, err := gxtime.ParseDuration(string(b))
					e["text"], e["ok"], e["neg"], e["a"] = ints(b), err == nil, d < 0, abs(int64(d))
				case "since": // microseconds ago (negative: in the future); in microseconds
					at := time.Now().Add(-time.Duration(st.Int(1)) * time.Microsecond)
					lo := time.Since(at)
					d := gxtime.Since(at)
					hi := time.Since(at)
					b := time.Now()
					n := gxtime.RuntimeNow()
					a := time.Now()
					ms := func(x time.Duration) int { return int(math.Floor(float64(x) / 1000)) }
					e["lo"], e["got"], e["hi"] = ms(lo), ms(d.Std()), ms(hi)
					if n.Before(b) || n.After(a) {
						e["got"] = int(-2000000000)
					}
				}
			})
		}
	})
}
