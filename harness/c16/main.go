// Driver for C16: replays histories on the hash objects of the repository; standard digests of the
// written data come from the standard library.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	stdhash "hash"
	"hash/crc32"
	"hash/crc64"
	"math/rand"

	"github.com/vipally/gx/hash"
	"gxverif/drv"
)

var methods = map[string]hash.HashMethod{"MD5": hash.MD5, "SHA1": hash.SHA1, "SHA256": hash.SHA256, "SHA512": hash.SHA512,
	"CRC32": hash.CRC32, "CRC64": hash.CRC64, "FINGERPRINT": hash.FINGERPRINT}

var stream = make([]byte, 1<<22)

func init() {
	rand.New(rand.NewSource(77)).Read(stream)
	for i := 1 << 21; i < 1<<21+5000; i++ {
		stream[i] = 0
	}
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func ref(m string, d []byte) drv.Ev {
	be := func(h stdhash.Hash) []int { h.Write(d); return ints(h.Sum(nil)) }
	switch m {
	case "MD5":
		return drv.Ev{"d": be(md5.New())}
	case "SHA1":
		return drv.Ev{"d": be(sha1.New())}
	case "SHA256":
		return drv.Ev{"d": be(sha256.New())}
	case "SHA512":
		return drv.Ev{"d": be(sha512.New())}
	case "CRC32":
		return drv.Ev{"d": be(crc32.NewIEEE())}
	case "CRC64":
		return drv.Ev{"d": be(crc64.New(crc64.MakeTable(crc64.ISO)))}
	case "FINGERPRINT":
		return drv.Ev{"md5": be(md5.New()), "sha1": be(sha1.New()), "crc64": be(crc64.New(crc64.MakeTable(crc64.ISO)))}
	}
	drv.Fail("method %s", m)
	return nil
}

type obj struct {
	m    string
	h    stdhash.Hash
	data []byte
	pcs  [][2]int
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		objs := map[int]*obj{}
		var kept, copied []byte
		for n, st := range s {
			op := st.Name()
			o := &obj{}
			if len(st) > 1 && op != "bad" && op != "sh" && op != "new" {
				o = objs[st.Int(1)]
			}
			f := func(e drv.Ev) {
				switch op {
				case "new":
					m := st.Str(2)
					o = &obj{m: m, pcs: [][2]int{}}
					switch {
					case m == "FINGERPRINT" && n%3 == 1:
						o.h = hash.NewFingerprint()
					case n%2 == 1:
						o.h = hash.New(methods[m])
					default:
						o.h = methods[m].New()
					}
					objs[st.Int(1)] = o
					e["o"], e["m"] = st.Int(1), m
				case "bad":
					e["m"] = st.Int(1)
					if n%2 == 0 {
						hash.New(hash.HashMethod(st.Int(1)))
					} else {
						hash.HashMethod(st.Int(1)).StringHash("x")
					}
				case "write":
					a, k := st.Int(2), st.Int(3)
					in := append([]byte{}, stream[a:a+k]...)
					r, err := o.h.Write(in)
					e["o"], e["a"], e["n"], e["r"], e["err"] = st.Int(1), a, k, r, err != nil
					if k > 0 {
						o.data = append(o.data, stream[a:a+k]...)
						o.pcs = append(o.pcs, [2]int{a, k})
					}
					if !bytes.Equal(in, stream[a:a+k]) {
						e["err"] = true // the caller's data was touched
					}
					for i := range in {
						in[i] = 0xEE // the caller may reuse his buffer
					}
				case "reset":
					e["o"] = st.Int(1)
					o.h.Reset()
					o.data, o.pcs = nil, [][2]int{}
				case "setlen":
					b6 := st.Ints(2)
					var v int64
					for _, x := range b6 {
						v = v<<8 | int64(x)
					}
					o.h.(*hash.Fingerprint).Resetsize(v)
					e["o"], e["b6"] = st.Int(1), b6
				case "sum":
					k, spare := st.Int(2), st.Int(3)
					b := make([]byte, k, k+spare)
					copy(b, stream[100:])
					if k == 0 && spare == 0 {
						b = nil
					}
					r := o.h.Sum(b)
					e["o"], e["b"], e["r"], e["data"], e["ref"] = st.Int(1), ints(stream[100:100+k]), ints(r), o.pcs, ref(o.m, o.data)
					e["keepOK"] = bytes.Equal(kept, copied) && bytes.Equal(b, stream[100:100+k])
					kept, copied = r, append([]byte{}, r...)
				case "text":
					f := o.h.(*hash.Fingerprint)
					e["o"], e["r"], e["data"], e["ref"] = st.Int(1), f.String(), o.pcs, ref(o.m, o.data)
				case "sh":
					m, a, k := st.Str(1), st.Int(2), st.Int(3)
					d := stream[a : a+k]
					e["m"], e["n"], e["ref"] = m, k, ref(m, d)
					e["h"], e["hl"] = methods[m].StringHash(string(d)), methods[m].StringHashL(string(d))
				default:
					drv.Fail("op %v", st)
				}
			}
			if op == "bad" {
				t.OpP(op, f)
			} else {
				t.Op(op, f)
			}
		}
	})
}
