// Driver for C19: loads INI texts through differently chunked readers (and files) and records every answer.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"testing/iotest"
	"unicode/utf8"

	"io"

	"github.com/vipally/gx/encoding/ini"
	"gxverif/drv"
)

func codes(s string) []int {
	r := []int{}
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 { // a byte that is not UTF-8
			c = odd + rune(s[0])
		}
		r = append(r, int(c))
		s = s[n:]
	}
	return r
}

const odd = 0x110000

// files counts the open descriptors of files named name.
func files(name string) (n int) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if x, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && strings.HasSuffix(x, "/"+name) {
			n++
		}
	}
	return
}

func main() {
	var counts int64
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s {
			op := st.Name()
			count := int(atomic.AddInt64(&counts, 1))
			t.Op(op, func(e drv.Ev) {
				if op == "none" {
					_, err := ini.New("no such directory/no such file")
					e["err"] = err != nil
					return
				}
				var b strings.Builder
				for _, c := range st.Ints(1) {
					if c >= odd {
						b.WriteByte(byte(c - odd))
					} else {
						b.WriteRune(rune(c))
					}
				}
				text := b.String()
				e["open"] = 0
				var f *ini.IniFile
				how := count % 5
				if len(st) > 2 {
					how = st.Int(2)
				}
				if how == 4 {
					name := fmt.Sprintf("c19.%d.ini", count)
					if err := os.WriteFile(name, []byte(text), 0600); err != nil {
						drv.Fail("%v", err)
					}
					g, err := ini.New(name)
					if err != nil {
						panic(err)
					}
					e["open"] = files(name)
					os.Remove(name)
					f = g
				} else {
					var r io.Reader = strings.NewReader(text)
					switch how {
					case 1:
						r = iotest.OneByteReader(r)
					case 2:
						r = iotest.DataErrReader(r)
					case 3:
						r = iotest.HalfReader(r)
					}
					f = ini.Load(r)
				}
				secs := f.Sections()
				se, gs := [][]int{}, [][][]int{}
				keys := []interface{}{}
				for _, x := range secs {
					se = append(se, codes(x))
				}
				defs := []string{"", "zz", " a "}
				n := 0
				for _, x := range append(append([]string{}, secs...), "", "a", "b", "zz") {
					kl := [][]int{}
					kk := f.Keys(x)
					for _, k := range kk {
						kl = append(kl, codes(k))
					}
					keys = append(keys, []interface{}{codes(x), kl})
					for _, k := range append(append([]string{}, kk...), "", "a", "b", "zz") {
						d := defs[n%3]
						n++
						gs = append(gs, [][]int{codes(x), codes(k), codes(d), codes(f.GetString(x, k, d))})
					}
				}
				e["text"], e["secs"], e["keys"], e["gets"] = codes(text), se, keys, gs
			})
		}
	})
}
