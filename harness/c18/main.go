// Driver for C18: runs Copys/CopysBuffer against a scripted source and scripted destinations, which log
// every call.
package main

import (
	"bytes"
	"errors"
	"hash/crc32"
	"io"
	"strconv"
	"strings"

	gxio "github.com/vipally/gx/io"
	"gxverif/drv"
)

var errRead, errWrite = errors.New("read fault"), errors.New("write fault")

func content(a, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		j := a + i
		b[i] = byte(j*7 + j/256*13)
	}
	return b
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

type resp struct {
	n int
	e string
}

type env struct {
	t     *drv.T
	reads []resp
	pos   int
	calls int
	limit int
}

func (v *env) runaway() {
	if v.calls++; v.calls > v.limit {
		panic("endless copy")
	}
}

// source answers reads as scripted (an answer larger than the buffer is split).
type source struct{ *env }

func (s source) Read(p []byte) (int, error) {
	s.runaway()
	if len(s.reads) == 0 {
		s.t.Emit(drv.Ev{"op": "read", "n": 0, "e": "eof", "p": 0})
		return 0, io.EOF
	}
	r := s.reads[0]
	n, e := r.n, r.e
	if n > len(p) {
		n, e = len(p), "open"
		s.reads[0].n -= n
	} else {
		s.reads = s.reads[1:]
	}
	copy(p, content(s.pos, n))
	s.pos += n
	s.t.Emit(drv.Ev{"op": "read", "n": n, "e": e, "p": 0})
	switch e {
	case "eof":
		return n, io.EOF
	case "rerr":
		return n, errRead
	}
	return n, nil
}

// pusher writes its answers itself.
type pusher struct{ source }

func (s pusher) WriteTo(w io.Writer) (total int64, err error) {
	for len(s.reads) > 0 {
		r := s.reads[0]
		s.env.reads = s.reads[1:]
		x := content(s.pos, r.n)
		s.env.pos += r.n
		s.t.Emit(drv.Ev{"op": "read", "n": r.n, "e": r.e, "p": 0})
		if r.n > 0 {
			n, e := w.Write(x)
			total += int64(n)
			if e != nil {
				return total, e
			}
			if n < len(x) {
				return total, io.ErrShortWrite
			}
		}
		if r.e == "rerr" {
			return total, errRead
		}
		if r.e == "eof" {
			return total, nil
		}
	}
	s.t.Emit(drv.Ev{"op": "read", "n": 0, "e": "eof", "p": 0})
	return
}

type dst struct {
	*env
	d, at, got int
	kind       string
}

func (w *dst) Write(p []byte) (k int, err error) {
	w.runaway()
	k = len(p)
	f := "none"
	if w.kind != "none" && w.got+len(p) >= w.at && (w.kind == "errfull" || w.got+len(p) > w.at) && len(p) > 0 {
		switch w.kind {
		case "short":
			k = w.at - w.got
		case "err":
			k = w.at - w.got
			err, f = errWrite, "err"
		case "errfull":
			err, f = errWrite, "err"
		}
		w.kind = "none"
	}
	w.got += k
	w.t.Emit(drv.Ev{"op": "write", "d": w.d, "x": ints(p), "k": k, "f": f, "p": 0})
	return
}

// gush is a source of many bytes, most of them zero, and a destination that keeps only a checksum of them.
type gush struct {
	left, pos int64
	sum       uint32
	fail      bool
}

var table = crc32.MakeTable(crc32.Castagnoli)

func (g *gush) Read(p []byte) (int, error) {
	if g.left == 0 {
		if g.fail {
			return 0, errRead
		}
		return 0, io.EOF
	}
	if int64(len(p)) > g.left {
		p = p[:g.left]
	}
	copy(p, strconv.FormatInt(g.pos, 10)+";")
	g.left -= int64(len(p))
	g.Write(p)
	return len(p), nil
}

func (g *gush) Write(p []byte) (int, error) {
	g.pos += int64(len(p))
	g.sum = crc32.Update(g.sum, table, p)
	drv.Tick()
	return len(p), nil
}

func limbs(n int64) []int { return []int{int(n >> 20), int(n & (1<<20 - 1))} }

func huge(e drv.Ev, hi, lo int, fail bool) {
	src := &gush{left: int64(hi)<<20 + int64(lo), fail: fail}
	a, b := &gush{}, &gush{}
	w, err := gxio.CopysBuffer(src, make([]byte, 1<<20), a, b)
	e["w"], e["e"] = limbs(w), "none"
	if err == errRead {
		e["e"] = "rerr"
	} else if err != nil {
		e["e"] = "other"
	}
	e["n"], e["fail"] = []int{hi, lo}, fail
	e["got"], e["same"] = [][]int{limbs(src.pos), limbs(a.pos), limbs(b.pos)}, []bool{a.sum == src.sum, b.sum == src.sum}
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s { // ["huge", hi, lo, fail] or ["copy", kind, buf, ndst, reads, fault]
			if st.Name() == "huge" {
				t.Op("huge", func(e drv.Ev) { huge(e, st.Int(1), st.Int(2), st.Bool(3)) })
				continue
			}
			kind, bl, nd := st.Str(1), st.Int(2), st.Int(3)
			v := &env{t: t}
			total := 0
			for _, r := range st[4].([]interface{}) {
				q := r.([]interface{})
				v.reads = append(v.reads, resp{int(q[0].(float64)), q[1].(string)})
				total += int(q[0].(float64))
			}
			v.limit = 100 + 2*(total+len(v.reads))*(nd+2)
			fl := st[5].([]interface{})
			var dsts []io.Writer
			for d := 1; d <= nd; d++ {
				w := &dst{env: v, d: d, kind: "none"}
				if int(fl[0].(float64)) == d {
					w.at, w.kind = int(fl[1].(float64)), fl[2].(string)
				}
				dsts = append(dsts, w)
			}
			t.Emit(drv.Ev{"op": "start", "n": nd, "p": 0})
			var src io.Reader = source{v}
			switch kind {
			case "pusher":
				src = pusher{source{v}}
			case "bytes", "buffer", "strings": // standard sources that write themselves
				t.Emit(drv.Ev{"op": "read", "n": total, "e": "eof", "p": 0})
				c := content(0, total)
				src = map[string]io.Reader{"bytes": bytes.NewReader(c), "buffer": bytes.NewBuffer(c), "strings": strings.NewReader(string(c))}[kind]
			}
			t.Op("ret", func(e drv.Ev) {
				var n int64
				var err error
				switch {
				case bl < 0:
					n, err = gxio.Copys(src, dsts...)
				case bl == 999999: // explicit nil buffer
					n, err = gxio.CopysBuffer(src, nil, dsts...)
				default:
					n, err = gxio.CopysBuffer(src, make([]byte, bl), dsts...)
				}
				e["w"] = n
				switch {
				case err == nil:
					e["e"] = "none"
				case err == errRead:
					e["e"] = "rerr"
				case err == errWrite:
					e["e"] = "err"
				case err == io.ErrShortWrite:
					e["e"] = "short"
				default:
					e["e"] = "other"
				}
			})
		}
	})
}
