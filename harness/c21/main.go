// Driver for C21: the padding functions of crypto and crypto/aes.
package main

import (
	gxcrypto "github.com/vipally/gx/crypto"
	gxaes "github.com/vipally/gx/crypto/aes"
	"gxverif/drv"
)

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		for _, st := range s { // kind, data, block size, spare
			kind := st.Str(0)
			t.Op("pad", func(e drv.Ev) {
				d, bs, spare := st.Ints(1), st.Int(2), st.Int(3)
				arena := make([]byte, len(d)+spare)
				for i := range arena {
					if i < len(d) {
						arena[i] = byte(d[i])
					} else {
						arena[i] = byte(170 + i%7)
					}
				}
				before := append([]byte{}, arena...)
				data := arena[:len(d)]
				var pad func([]byte, int) []byte
				var unpad func([]byte) []byte
				switch kind {
				case "zero":
					pad, unpad = gxcrypto.ZeroPadding, gxcrypto.ZeroUnPadding
				case "pkcs5":
					pad, unpad = gxcrypto.PKCS5Padding, gxcrypto.PKCS5UnPadding
				case "pkcs7":
					pad, unpad = gxaes.PKCS7Padding, gxaes.PKCS7Unpadding
				case "pkcs7s":
					pad, unpad = func(b []byte, n int) []byte { return gxaes.PKCS7PaddingString(string(b), n) }, gxaes.PKCS7Unpadding
				}
				out := pad(data, bs)
				e["out"] = ints(out)
				other := append([]byte{}, 1, 2, 3)
				pad(arena[:len(d)/2], bs) // the caller pads another part of its buffer
				pad(other, bs)
				e["out2"] = ints(out)
				e["in2"] = ints(arena)
				e["back"] = ints(unpad(append([]byte{}, out...)))
				e["kind"], e["m"], e["bs"], e["in"] = kind, d, bs, ints(before)
				if kind == "pkcs7s" {
					e["kind"] = "pkcs7"
				}
			})
		}
	})
}
