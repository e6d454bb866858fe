#!/usr/bin/env python3
"""Writes main.go (the same probe loop in functions of several kinds)."""
BODY = '''	for {
		switch op, k := x.next(self()); op {
		case "ret", "":
			return
		case "A":
			x.enter(here()); fA(x)
		case "B":
			x.enter(here()); x.mB()
		case "C":
			x.enter(here()); fC(x)
		case "G":
			x.enter(here()); fG(x, 1.5)
		case "bt":
			x.one(op, 0, here(), debug.Bt())
		case "btf":
			x.one(op, 0, here(), debug.BtFunc())
		case "btl":
			x.one(op, 0, here(), debug.BtFileLine())
		case "caller":
			x.one(op, k, here(), debug.Caller(k))
		case "callerf":
			x.one(op, k, here(), debug.CallerFunc(k))
		case "callerl":
			x.one(op, k, here(), debug.CallerFileLine(k))
		case "bts":
			x.many(op, 0, here(), split(debug.Bts()))
		case "list":
			x.many(op, k, here(), debug.CallStackList(k+2))
		case "assert":
			x.assert(k, here(), func() bool { return debug.Assert(k == 1) })
		case "leaf":
			switch k { // small functions that the compiler inlines here
			case 0:
				x.leaf("bt", 0, here(), 1, leafBt())
			case 1:
				x.leaf("bts", 0, here(), 2, leafBts())
			case 2:
				x.leaf("caller", 0, here(), 3, leafCaller0())
			case 3:
				x.leaf("caller", 1, here(), 4, leafCaller1())
			case 4:
				x.leaf("btf", 0, here(), 5, leafFunc())
			case 5:
				x.leaf("btl", 0, here(), 6, leafLine())
			case 6:
				x.leaf("bts", 0, here(), 7, midBts())
			case 7:
				x.leaf("caller", 0, here(), 8, midCaller0())
			}
		}
	}
'''
HEAD = '''// Code generated by gen.py; DO NOT EDIT.

// Driver for C24: an interpreter whose functions (plain, method, closure, generic, inlined) call each other and
// the back-trace helpers. Expected names and lines come from the runtime's own symbol tables.
package main

import (
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/vipally/gx/debug"
	"gxverif/drv"
)

type X struct {
	t      *drv.T
	s      drv.Script
	i      int
	called bool
	line   int
}

var reFunc = regexp.MustCompile(`Func\\{(.*?)\\} *(?:File|$)|Func\\{(.*)\\}`)
var reLine = regexp.MustCompile(`File(?:Line)?\\{(.*) : (\\d+)\\}`)
var reNum = regexp.MustCompile(`^#(\\d+) `)

func frame(s string) drv.Ev {
	e := drv.Ev{"fn": "", "file": "", "line": 0, "num": -1}
	if m := reFunc.FindStringSubmatch(s); m != nil {
		e["fn"] = m[1] + m[2]
	}
	if m := reLine.FindStringSubmatch(s); m != nil {
		e["file"] = m[1]
		e["line"], _ = strconv.Atoi(m[2])
	}
	if m := reNum.FindStringSubmatch(s); m != nil {
		e["num"], _ = strconv.Atoi(m[1])
	}
	return e
}

// here is the line of its caller, self the function name and file of its caller, according to the runtime.
func here() int {
	_, _, l, _ := runtime.Caller(1)
	return l
}

func self() [2]string {
	var pc [1]uintptr
	runtime.Callers(2, pc[:])
	f, _ := runtime.CallersFrames(pc[:]).Next()
	return [2]string{f.Function, f.File}
}

func split(s string) []string {
	s = strings.TrimSuffix(s, "\\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\\n")
}

func frames(l []string) []drv.Ev {
	r := []drv.Ev{}
	for _, s := range l {
		r = append(r, frame(s))
	}
	return r
}

func (x *X) note(me [2]string) {
	if x.called {
		x.called = false
		x.t.Emit(drv.Ev{"op": "call", "fn": me[0], "file": me[1], "ln": x.line, "p": 0})
	}
}

// next is called first thing in every function: it records the call that led there.
func (x *X) next(me [2]string) (string, int) {
	x.note(me)
	if x.i >= len(x.s) {
		return "", 0
	}
	st := x.s[x.i]
	x.i++
	if st.Name() == "ret" {
		x.t.Emit(drv.Ev{"op": "ret", "p": 0})
	}
	k := 0
	if len(st) > 1 {
		k = st.Int(1)
	}
	return st.Name(), k
}

func (x *X) enter(l int) { x.called, x.line = true, l }

func (x *X) one(op string, k, l int, s string) {
	x.t.Emit(drv.Ev{"op": op, "k": k, "ln": l, "has": s != "", "f": frame(s), "p": 0})
}

func (x *X) many(op string, k, l int, ss []string) {
	x.t.Emit(drv.Ev{"op": op, "k": k, "ln": l, "fs": frames(ss), "p": 0})
}

func (x *X) assert(k, l int, f func() bool) {
	r, msg := false, ""
	p := 0
	func() {
		defer func() {
			if v := recover(); v != nil {
				p = 1
				msg, _ = v.(string)
			}
		}()
		r = f()
	}()
	fs := []drv.Ev{}
	for _, s := range split(msg) {
		if strings.Contains(s, "Func{") {
			fs = append(fs, frame(s))
		}
	}
	x.t.Emit(drv.Ev{"op": "assert", "c": k == 1, "ln": l, "r": r, "pan": p == 1, "fs": fs, "p": 0})
}

var leafNames = []string{"", "leafBt", "leafBts", "leafCaller0", "leafCaller1", "leafFunc", "leafLine", "leafBts", "leafCaller0", "midBts", "midCaller0"}

// leaf records a probe made inside an inlined function (or two, through a mid function).
func (x *X) leaf(op string, k, l, n int, s string) {
	me := self()[1]
	if n >= 7 {
		x.t.Emit(drv.Ev{"op": "call", "fn": "main." + leafNames[n+2], "file": me, "ln": l, "p": 0})
		l = leafStd() + n
	}
	x.t.Emit(drv.Ev{"op": "call", "fn": "main." + leafNames[n], "file": me, "ln": l, "p": 0})
	at := leafStd() + map[int]int{7: 2, 8: 3}[n]
	if n < 7 {
		at = leafStd() + n
	}
	if op == "bts" {
		x.many(op, k, at, split(s))
	} else {
		x.one(op, k, at, s)
	}
	x.t.Emit(drv.Ev{"op": "ret", "p": 0})
	if n >= 7 {
		x.t.Emit(drv.Ev{"op": "ret", "p": 0})
	}
}

// one per line: leaf n stands n lines below leafStd
func leafStd() int        { return here() }
func leafBt() string      { return debug.Bt() }
func leafBts() string     { return debug.Bts() }
func leafCaller0() string { return debug.Caller(0) }
func leafCaller1() string { return debug.Caller(1) }
func leafFunc() string    { return debug.BtFunc() }
func leafLine() string    { return debug.BtFileLine() }
func midBts() string      { return leafBts() }
func midCaller0() string  { return leafCaller0() }

'''
TAIL = '''
func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		x := &X{t: t, s: s}
		done := make(chan bool)
		go func() {
			defer close(done)
			var pcs [100]uintptr
			fr := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs[:])])
			base := []drv.Ev{}
			for {
				f, more := fr.Next()
				base = append(base, drv.Ev{"fn": f.Function, "file": f.File, "line": f.Line})
				if !more {
					break
				}
			}
			t.Emit(drv.Ev{"op": "base", "fs": base, "p": 0})
			if s[0].Name() == "G" {
				x.i = 1
				x.enter(here()); fG(x, "str")
				return
			}
			x.enter(here()); fA(x)
		}()
		<-done
	})
}
'''
with open("main.go", "w") as f:
    f.write(HEAD)
    f.write("func fA(x *X) {\n" + BODY + "}\n\n")
    f.write("func (x *X) mB() {\n" + BODY + "}\n\n")
    f.write("func fC(x *X) {\n\tx.note(self())\n\tf := func() {\n" + BODY.replace("\n", "\n\t").rstrip("\t") + "\t}\n\tx.enter(here()); f()\n\tx.t.Emit(drv.Ev{\"op\": \"ret\", \"p\": 0})\n}\n\n")
    f.write("func fG[T any](x *X, v T) {\n" + BODY + "}\n")
    f.write(TAIL)
