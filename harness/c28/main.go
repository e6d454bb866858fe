// Driver for C28: paths, sizes and positions (fs). Texts are recorded as byte lists.
package main

import (
	"os"
	"runtime"
	"strconv"
	"strings"

	"github.com/vipally/gx/fs"
	"gxverif/drv"
)

func bs(s string) []int {
	r := make([]int, len(s))
	for i := range r {
		r[i] = int(s[i])
	}
	return r
}

func list(l []string) [][]int {
	r := [][]int{}
	for _, s := range l {
		r = append(r, bs(s))
	}
	return r
}

func str(l []int) string {
	b := make([]byte, len(l))
	for i, v := range l {
		b[i] = byte(v)
	}
	return string(b)
}

func digits(v uint64) []int {
	r := []int{}
	for {
		r = append(r, int(v&1023))
		v >>= 10
		if v == 0 {
			return r
		}
	}
}

// positions: each asks on one line for its own position; the expectation comes from the runtime on the same line
type pos struct {
	file, fn string
	line     int
}

func here(skip int) pos {
	pc, f, l, _ := runtime.Caller(skip + 1)
	return pos{f, runtime.FuncForPC(pc).Name(), l}
}

type got struct {
	w           pos
	file, rfile string
	line, rline int
	fn          string
	fline       int
}

//go:noinline
func far() (g got) {
	pc, f, l, _ := runtime.Caller(0)
	g.file, g.line = fs.FileLine()
	g.rfile, g.rline = fs.RelateFileLine()
	g.fn = fs.Func()
	g.w = pos{f, runtime.FuncForPC(pc).Name(), l + 1}
	return
}

func near() (g got) {
	pc, f, l, _ := runtime.Caller(0)
	g.file, g.line = fs.FileLine()
	g.rfile, g.rline = fs.RelateFileLine()
	g.fn = fs.Func()
	g.w = pos{f, runtime.FuncForPC(pc).Name(), l + 1}
	return
}

type obj struct{}

func (o *obj) method(n int) (g got) {
	if n > 0 {
		return o.method(n - 1)
	}
	pc, f, l, _ := runtime.Caller(0)
	g.file, g.line = fs.FileLine()
	g.rfile, g.rline = fs.RelateFileLine()
	g.fn = fs.Func()
	g.w = pos{f, runtime.FuncForPC(pc).Name(), l + 1}
	return
}

// small enough to be inlined where it is called
func tiny() (string, int)   { return fs.FileLine() }
func tinyfn() string        { return fs.Func() }
func tinyrl() (string, int) { return fs.RelateFileLine() }

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		top, _ := os.Getwd()
		for _, st := range s {
			switch st.Name() {
			case "start":
				t.Op("start", func(e drv.Ev) {
					e["work"], e["real"] = bs(fs.WorkPath()), bs(top)
					e["gopath"], e["first"] = bs(fs.GoPath()), bs(strings.Split(os.Getenv("GOPATH"), ":")[0])
				})
			case "one":
				t.Op("one", func(e drv.Ev) {
					a := str(st.Ints(1))
					p := fs.FilePath(a)
					e["a"], e["s"], e["s2"], e["sys"], e["fmt"] = bs(a), bs(p.String()), bs(p.S()), bs(p.StringSys()), bs(fs.FormatPath(a))
					q := fs.FilePath("/other")
					q.Set(a)
					e["set"] = bs(q.String())
					d, f := p.Split()
					e["dir"], e["file"] = bs(d), bs(f)
					d, f = fs.Split(a)
					e["rdir"], e["rfile"], e["name"] = bs(d), bs(f), bs(fs.FileName(a))
					e["ext"], e["base"], e["parent"], e["all"] = bs(p.Ext()), bs(p.Base()), bs(p.Dir()), list(p.SplitAll())
					e["vol"], e["list"] = bs(p.VolumeName()), list(p.SplitList())
					abs, err := p.Abs()
					e["abs"], e["abserr"] = bs(abs), err != nil
					e["work"], e["go"], e["gopath"] = bs(p.RelateWorkPath().String()), bs(p.RelateGoPath().String()), bs(fs.GoPath())
					if string(p.RelateWorkPath()) != fs.RelateWorkPath(a) || string(p.RelateGoPath()) != fs.RelateGoPath(a) {
						e["work"] = bs("functions differ from methods")
					}
				})
			case "two":
				t.Op("two", func(e drv.Ev) {
					a, b := str(st.Ints(1)), str(st.Ints(2))
					p := fs.FilePath(a)
					e["a"], e["b"] = bs(a), bs(b)
					e["join"], e["joins"], e["raw"], e["raw3"] = bs(p.Join(b)), bs(p.Joins(b, a)), bs(fs.Joins(a, b)), bs(fs.Joins(a, b, a))
					e["prefix"] = p.HasPrefix(b)
					e["rel"], e["rel2"] = bs(p.Relate(b).String()), bs(fs.RelatePath(a, b))
				})
			case "none":
				t.Op("none", func(e drv.Ev) { e["s"] = bs(fs.Joins()) })
			case "match":
				t.Op("match", func(e drv.Ev) {
					a, pat := str(st.Ints(1)), str(st.Ints(2))
					ok, err := fs.FilePath(a).Match(pat)
					e["a"], e["pat"], e["ok"], e["err"] = bs(a), bs(pat), ok, err != nil
				})
			case "chdir":
				t.Op("chdir", func(e drv.Ev) {
					a := st.Str(1)
					if strings.HasPrefix(a, "@") { // absolute
						a = top + a[1:]
					}
					fi, err := os.Stat(a)
					e["exists"] = err == nil && fi.IsDir()
					err = fs.Chdir(a)
					e["a"], e["err"] = bs(a), err != nil
					w, _ := os.Getwd()
					e["real"], e["work"] = bs(w), bs(fs.WorkPath())
				})
			case "mkdir":
				os.MkdirAll(st.Str(1), 0755)
			case "back":
				os.Chdir(top)
				fs.Chdir(top)
			case "line":
				t.Op("line", func(e drv.Ev) {
					var g got
					switch st.Str(1) {
					case "far":
						g = far()
					case "near":
						g = near()
					case "method":
						g = new(obj).method(st.Int(2))
					case "closure":
						func() {
							pc, f, l, _ := runtime.Caller(0)
							g.file, g.line = fs.FileLine()
							g.rfile, g.rline = fs.RelateFileLine()
							g.fn = fs.Func()
							g.w = pos{f, runtime.FuncForPC(pc).Name(), l + 1}
						}()
					case "tiny":
						g = far()
						f1, l1 := tiny()
						f2, l2 := tinyrl()
						_, f, l, _ := runtime.Caller(0)
						_ = l
						g.w.file, g.w.fn = f, "main.tinyfn"
						g.file, g.rfile, g.fn = f1, f2, tinyfn()
						g.w.line = l1
						g.line, g.rline = l1, l2-1 // tiny, tinyfn, tinyrl stand on consecutive lines
						e["fnline"] = l1 + 1
					}
					k := strings.LastIndex(g.fn, " : ")
					n := 0
					if k >= 0 {
						n, _ = strconv.Atoi(g.fn[k+3:])
					}
					want := g.w.line + 2
					if st.Str(1) == "tiny" {
						want = g.w.line + 1
					}
					if k < 0 || n != want {
						g.fn = "wrong line in " + g.fn
					} else {
						g.fn = g.fn[:k]
					}
					e["file"], e["line"], e["rfile"], e["rline"], e["fn"] = bs(g.file), g.line, bs(g.rfile), g.rline, g.fn
					e["wfile"], e["wline"], e["wfn"], e["gopath"] = bs(g.w.file), g.w.line, g.w.fn, bs(fs.GoPath())
				})
			case "size":
				t.Op("size", func(e drv.Ev) {
					v, _ := strconv.ParseUint(st.Str(1), 10, 64)
					var z fs.FileSize
					z.Set(v)
					e["d"], e["n"] = digits(v), digits(z.N())
					x := z.String()
					k := len(x)
					for k > 0 && (x[k-1] < '0' || x[k-1] > '9') {
						k--
					}
					e["unit"] = x[k:]
					q := strings.Split(x[:k], ".")
					if len(q) != 2 || len(q[1]) != 3 || (len(q[0]) > 1 && q[0][0] == '0') {
						e["val"] = -1
					} else if n, err := strconv.Atoi(q[0] + q[1]); err == nil {
						e["val"] = n
					} else {
						e["val"] = -2
					}
				})
			default:
				drv.Fail("step %v", st)
			}
		}
		if now, _ := os.Getwd(); now != top || fs.WorkPath() != top {
			os.Chdir(top)
			fs.Chdir(top)
		}
	})
}
