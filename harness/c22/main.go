// Driver for C22: string/bytes views. Writes go only through views of memory allocated here.
package main

import (
	"runtime"
	stdunsafe "unsafe"

	gxu "github.com/vipally/gx/unsafe"
	"gxverif/drv"
)

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

type view struct {
	isB bool
	b   []byte
	s   string
}

var lits = []string{"a", "hello", "another literal string, somewhat longer than the others", "\x00\x01\x02", "日本", "zz"}

var keep [][]byte

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var arenas [][]byte // full capacity of each allocation
		var vs []view
		for _, st := range s {
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "alloc": // n, spare, h
					n, sp, h := st.Int(1), st.Int(2), st.Int(3)
					a := make([]byte, n+sp)
					for j := range a {
						a[j] = byte(h*20 + j + 1)
					}
					arenas = append(arenas, a)
					vs = append(vs, view{isB: true, b: a[:n]})
					e["x"], e["n"] = ints(a), n
				case "tos":
					e["i"] = st.Int(1)
					vs = append(vs, view{s: string(gxu.BytesString(vs[st.Int(1)-1].b))})
				case "tob":
					e["i"] = st.Int(1)
					vs = append(vs, view{isB: true, b: gxu.StringBytes(vs[st.Int(1)-1].s)})
				case "slice":
					i, p, q := st.Int(1), st.Int(2), st.Int(3)
					e["i"], e["a"], e["b"] = i, p, q
					v := vs[i-1]
					if v.isB {
						vs = append(vs, view{isB: true, b: v.b[p:q]})
					} else {
						vs = append(vs, view{s: v.s[p:q]})
					}
				case "write":
					i, p, x := st.Int(1), st.Int(2), st.Int(3)
					vs[i-1].b[p] = byte(x)
					e["i"], e["a"], e["x"] = i, p, x
				case "grow":
					i, x := st.Int(1), st.Int(2)
					v := vs[i-1].b
					inPlace := len(v) < cap(v)
					w := append(v, byte(x))
					vs = append(vs, view{isB: true, b: w})
					e["i"], e["x"], e["c"], e["t"] = i, x, cap(w), []int{}
					if !inPlace {
						arenas = append(arenas, w[:cap(w)])
						e["t"] = ints(w[len(w):cap(w)])
					}
				case "lit":
					l := lits[st.Int(1)%len(lits)]
					e["x"] = ints([]byte(l))
					b := gxu.StringBytes(l)
					e["c"], e["len"], e["cap"] = ints(b), len(b), cap(b)
					e["w"], e["w2"], e["w3"] = gxu.String(l).Writeable(), gxu.Writeable(gxu.StringPointer(l)), b.Writeable()
					return
				case "big": // total, offset, length: a short piece of a large allocation
					n, p, k := st.Int(1), st.Int(2), st.Int(3)
					a := make([]byte, n)
					for j := range a {
						a[j] = byte(j * 7)
					}
					base := uintptr(stdunsafe.Pointer(&a[0]))
					v := a[p : p+k]
					x := string(v)
					s := string(gxu.BytesString(v))
					b := gxu.StringBytes(s)
					e["n"], e["a"], e["b"] = n, p, k
					e["soff"], e["slen"], e["eq"] = int(uintptr(stdunsafe.Pointer(gxu.StringPointer(s)))-base), len(s), s == x && string(b) == x
					e["boff"], e["blen"], e["bcap"] = int(uintptr(stdunsafe.Pointer(gxu.BytesPointer(b)))-base), len(b), cap(b)
					v[0] ^= 255
					e["seen"] = s[0] == v[0] && b[0] == v[0] && v[0] == a[p]
					b[k-1] ^= 255
					e["back"] = s[k-1] == b[k-1] && v[k-1] == b[k-1] && b[k-1] == a[p+k-1]
					e["w"] = gxu.String(s).Writeable() && gxu.Bytes(b).Writeable()
					runtime.KeepAlive(a)
					return
				case "fresh": // fresh allocations of one size, some kept
					w := true
					for k := 0; k < st.Int(2); k++ {
						b := make([]byte, st.Int(1))
						for j := range b {
							b[j] = byte('0' + (k+j)%10)
						}
						if k%3 == 0 {
							keep = append(keep, b)
						}
						w = w && gxu.Bytes(b).Writeable() && gxu.Writeable(gxu.BytesPointer(b)) && (len(b) < 2 || gxu.String(string(b)).Writeable()) // one-byte strings live in a static table
					}
					if st.Int(2)%7 == 0 {
						runtime.GC()
						keep = nil
					}
					e["w"] = w
					return
				default:
					drv.Fail("op %v", st)
				}
				obs := []drv.Ev{}
				for _, v := range vs {
					o := drv.Ev{"w": false, "a": 0, "off": 0, "cap": 0}
					var p, p2 stdunsafe.Pointer
					if v.isB {
						p, p2 = stdunsafe.Pointer(gxu.BytesPointer(v.b)), stdunsafe.Pointer(gxu.Bytes(v.b).Pointer())
						o["c"], o["len"], o["cap"], o["w"] = ints(v.b), len(v.b), cap(v.b), gxu.Bytes(v.b).Writeable()
					} else {
						p, p2 = stdunsafe.Pointer(gxu.StringPointer(v.s)), stdunsafe.Pointer(gxu.String(v.s).Pointer())
						o["c"], o["len"], o["w"] = ints([]byte(v.s)), len(v.s), gxu.String(v.s).Writeable()
					}
					o["same"] = p == p2 && gxu.Writeable(gxu.Pointer(p)) == o["w"]
					for k, a := range arenas {
						if len(a) == 0 {
							continue
						}
						if d := int(uintptr(p)) - int(uintptr(stdunsafe.Pointer(&a[0]))); d >= 0 && d < len(a) {
							o["a"], o["off"] = k+1, d
						}
					}
					obs = append(obs, o)
				}
				e["obs"] = obs
				m := [][]int{}
				for _, a := range arenas {
					m = append(m, ints(a))
				}
				e["mem"] = m
			})
		}
		runtime.KeepAlive(arenas)
	})
}
