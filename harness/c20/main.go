// Driver for C20: encrypting sessions. The inverse block permutation comes from crypto/aes.
package main

import (
	stdaes "crypto/aes"
	"math/rand"

	gxaes "github.com/vipally/gx/crypto/aes"
	"gxverif/drv"
)

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

type sess struct {
	key  []byte
	enc  *gxaes.AESEncrypter
	dec  *gxaes.AESDecrypter
	wire [][]byte
}

func bytesOf(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0: // looks like padding
		for i := range b {
			b[i] = byte(r.Intn(18))
		}
	case 1:
		v := byte(r.Intn(256))
		for i := range b {
			b[i] = v
		}
	default:
		r.Read(b)
	}
	return b
}

func inverse(key, out []byte) [][]int {
	c, err := stdaes.NewCipher(key)
	if err != nil {
		drv.Fail("%v", err)
	}
	inv := [][]int{}
	for i := 0; i+16 <= len(out); i += 16 {
		b := make([]byte, 16)
		c.Decrypt(b, out[i:i+16])
		inv = append(inv, ints(b))
	}
	return inv
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		ss := map[int]*sess{}
		var outs [][]byte // results (byte slices) in order of return
		var strs []string
		var isStr []bool
		keep := func(b []byte) { outs, strs, isStr = append(outs, b), append(strs, ""), append(isStr, false) }
		keepS := func(x string) { outs, strs, isStr = append(outs, nil), append(strs, x), append(isStr, true) }
		for n, st := range s {
			op := st.Name()
			t.Op(op, func(e drv.Ev) {
				switch op {
				case "open": // s, key length, key seed
					r := rand.New(rand.NewSource(int64(st.Int(3))))
					key := make([]byte, st.Int(2))
					r.Read(key)
					e["s"], e["key"] = st.Int(1), ints(key)
					saved := append([]byte{}, key...)
					enc, err := gxaes.NewAESEncrypter(key)
					dec, err2 := gxaes.NewAESDecrypter(key)
					if (err == nil) != (err2 == nil) || err == nil && (enc == nil || dec == nil) {
						panic("encrypter and decrypter disagree")
					}
					e["err"] = err != nil
					if err == nil {
						ss[st.Int(1)] = &sess{key: saved, enc: enc, dec: dec}
					}
					for i := range key { // the caller reuses its key buffer
						key[i] = 0xcc
					}
				case "enc", "encs": // s, length, spare, seed
					e["op"] = "enc"
					q := ss[st.Int(1)]
					k, spare := st.Int(2), st.Int(3)
					r := rand.New(rand.NewSource(int64(st.Int(4))))
					buf := bytesOf(r, k+spare)
					before := append([]byte{}, buf...)
					var out []byte
					if op == "enc" {
						out = q.enc.Encrypt(buf[:k])
					} else {
						out = q.enc.EncryptString(string(buf[:k]))
					}
					e["s"], e["m"], e["out"], e["in"], e["in2"] = st.Int(1), ints(before[:k]), ints(out), ints(before), ints(buf)
					e["inv"] = inverse(q.key, out)
					q.wire = append(q.wire, append([]byte{}, out...))
					keep(out)
					for i := range buf { // the caller reuses its buffer
						buf[i] = 0xdd
					}
				case "dec", "decs": // s, spare
					e["op"] = "dec"
					q := ss[st.Int(1)]
					c := q.wire[0]
					q.wire = q.wire[1:]
					buf := make([]byte, len(c)+st.Int(2))
					copy(buf, c)
					before := append([]byte{}, buf...)
					e["s"] = st.Int(1)
					if op == "dec" {
						out := q.dec.Decrypt(buf[:len(c)])
						e["out"] = ints(out)
						keep(out)
					} else {
						out := q.dec.DecryptToString(buf[:len(c)])
						e["out"] = ints([]byte(out))
						keepS(out)
					}
					e["in"], e["in2"] = ints(before), ints(buf)
					for i := range buf {
						buf[i] = 0xee
					}
				case "fill": // k-th result (from 0), if it is a byte slice
					k := st.Int(1) % len(outs)
					for isStr[k] {
						k = (k + 1) % len(outs)
					}
					for i := range outs[k] {
						outs[k][i] = byte(n)
					}
					e["k"], e["v"] = k+1, int(byte(n))
				case "final":
					all := [][]int{}
					for i := range outs {
						if isStr[i] {
							all = append(all, ints([]byte(strs[i])))
						} else {
							all = append(all, ints(outs[i]))
						}
					}
					e["outs"] = all
				default:
					drv.Fail("op %v", st)
				}
			})
		}
	})
}
