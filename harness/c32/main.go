// Driver for C32: crypto/ecb and the codings of crypto/rsa.
package main

import (
	"crypto/des"
	"crypto/sha512"
	"encoding/base64"

	"github.com/vipally/gx/crypto/ecb"
	gxrsa "github.com/vipally/gx/crypto/rsa"
	"gxverif/drv"
)

const fixed = "ac643718-9730-e711-59210"

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func floats(b []byte) []interface{} {
	r := make([]interface{}, len(b))
	for i, x := range b {
		r[i] = float64(x)
	}
	return r
}

func raw(d []int) []byte {
	r := make([]byte, len(d))
	for i, x := range d {
		r[i] = byte(x)
	}
	return r
}

func arena(d []int, spare int) []byte {
	r := append(raw(d), make([]byte, spare)...)
	for i := len(d); i < len(r); i++ {
		r[i] = byte(170 + i%7)
	}
	return r
}

// facts records what the standard DES does along the chain of one call.
func facts(src []byte, key []byte, enc bool) (out []byte, fs []drv.Ev) {
	fs = []drv.Ev{}
	k := make([]byte, 24)
	copy(k, key)
	order := []int{0, 8, 16}
	if !enc {
		order = []int{16, 8, 0}
	}
	for i := 0; i+8 <= len(src); i += 8 {
		b, dir := append([]byte{}, src[i:i+8]...), enc
		for _, o := range order {
			c, err := des.NewCipher(k[o : o+8])
			if err != nil {
				drv.Fail("%v", err)
			}
			y := make([]byte, 8)
			if dir {
				c.Encrypt(y, b)
			} else {
				c.Decrypt(y, b)
			}
			fs = append(fs, drv.Ev{"e": dir, "k": ints(k[o : o+8]), "x": ints(b), "y": ints(y)})
			b, dir = y, !dir
		}
		out = append(out, b...)
	}
	return
}

func pad(m []byte) []byte {
	r := append([]byte{}, m...)
	for {
		r = append(r, 0)
		if len(r)%8 == 0 {
			return r
		}
	}
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s {
			st := st
			name := st.Name()
			if name == "back" || name == "decback" { // decryption of what the data would encrypt to: data, key, ...
				key := []byte(fixed)
				if name == "back" {
					key = raw(st.Ints(2))
				}
				bin, _ := facts(pad(raw(st.Ints(1))), key, true)
				if name = "dec"; st.Name() == "decback" {
					name, bin = "decode", []byte(base64.StdEncoding.EncodeToString(bin))
				}
				st = append(drv.Step{name, floats(bin)}, st[2:]...)
			}
			t.Op(name, func(e drv.Ev) {
				m := raw(st.Ints(1))
				e["m"] = ints(m)
				switch name {
				case "enc", "dec": // data, key, spare, key spare
					da, ka := arena(st.Ints(1), st.Int(3)), arena(st.Ints(2), st.Int(4))
					e["in"], e["kin"], e["key"] = ints(da), ints(ka), st.Ints(2)
					f := ecb.TripleDesEncrypt
					if name == "dec" {
						f = ecb.TripleDesDecrypt
					}
					out, err := f(da[:len(m)], ka[:len(st.Ints(2))])
					e["ok"], e["out"] = err == nil, ints(out)
					scribble(out)
					e["in2"], e["kin2"] = ints(da), ints(ka)
					if name == "enc" {
						_, e["facts"] = facts(pad(m), raw(st.Ints(2)), true)
					} else if len(m)%8 == 0 {
						_, e["facts"] = facts(m, raw(st.Ints(2)), false)
					} else {
						e["facts"] = []drv.Ev{}
					}
				case "encode": // data, as string?
					var text string
					if st.Int(2) == 1 {
						text = gxrsa.EncodeString(string(m))
					} else {
						text = gxrsa.Encode(m)
					}
					e["text"] = ints([]byte(text))
					var bin []byte
					bin, e["facts"] = facts(pad(m), []byte(fixed), true)
					e["bin"] = ints(bin)
				case "decode": // text, as string?
					var out []byte
					if st.Int(2) == 1 {
						out = []byte(gxrsa.DecodeString(string(m)))
					} else {
						out = gxrsa.Decode(string(m))
					}
					e["text"], e["out"] = ints(m), ints(out)
					bin, err := base64.StdEncoding.DecodeString(string(m))
					if err != nil || len(bin)%8 != 0 {
						bin = nil
					}
					_, e["facts"] = facts(bin, []byte(fixed), false)
				case "hash":
					var fed []byte
					for i := 0; i < 5; i++ {
						fed = append(append(append(fed, fixed...), m...), fixed...)
					}
					d := sha512.Sum512(fed)
					e["fed"], e["dig"] = ints(fed), ints(d[:])
					e["out"], e["text"] = ints(gxrsa.Hash(m)), ints([]byte(gxrsa.HashString(string(m))))
				case "hex":
					e["text"] = ints([]byte(gxrsa.BytesToHexString(m)))
				case "unhex":
					out := gxrsa.HexStringToBytes(string(m))
					e["text"], e["out"], e["none"] = ints(m), ints(out), out == nil
				}
			})
		}
	})
}
