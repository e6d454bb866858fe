// Driver for C33: crypto/rsa.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"sync"

	gxrsa "github.com/vipally/gx/crypto/rsa"
	"gxverif/drv"
)

type pair struct {
	priv, pub []byte
	err       error
	key       *rsa.PrivateKey
	match     bool
}

var pool = map[string]*pair{}
var poolLock sync.Mutex

func get(bits int, slot string) *pair {
	poolLock.Lock()
	defer poolLock.Unlock()
	id := fmt.Sprint(bits, slot)
	if p := pool[id]; p != nil && slot != "new" {
		return p
	}
	p := &pair{}
	p.priv, p.pub, p.err = gxrsa.GenRsaKeys(bits)
	if p.err == nil {
		if b, _ := pem.Decode(p.priv); b != nil {
			p.key, _ = x509.ParsePKCS1PrivateKey(b.Bytes)
		}
		if b, _ := pem.Decode(p.pub); b != nil && p.key != nil {
			if k, err := x509.ParsePKIXPublicKey(b.Bytes); err == nil {
				q, ok := k.(*rsa.PublicKey)
				p.match = ok && q.Equal(&p.key.PublicKey) && p.key.Validate() == nil
			}
		}
	}
	pool[id] = p
	return p
}

func ec() (priv, pub []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		drv.Fail("%v", err)
	}
	a, _ := x509.MarshalECPrivateKey(k)
	b, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	return pem.EncodeToMemory(&pem.Block{Type: "private key", Bytes: a}), pem.EncodeToMemory(&pem.Block{Type: "public key", Bytes: b})
}

var ecPriv, ecPub = ec()

func text(p *pair, form string, client bool) []byte {
	own := p.priv
	if client {
		own = p.pub
	}
	switch form {
	case "pub":
		return p.pub
	case "priv":
		return p.priv
	case "pub-pre":
		return append([]byte("some text\n"), p.pub...)
	case "priv-pre":
		return append([]byte("some text\n"), p.priv...)
	case "pub-post":
		return append(append([]byte{}, p.pub...), "\nmore text"...)
	case "priv-post":
		return append(append([]byte{}, p.priv...), "\nmore text"...)
	case "junk":
		return []byte("-----BEGIN public key-----\nnothing\n")
	case "empty":
		return nil
	case "cut": // the block is well formed, its contents are cut
		b, _ := pem.Decode(own)
		return pem.EncodeToMemory(&pem.Block{Type: b.Type, Bytes: b.Bytes[:len(b.Bytes)/2]})
	case "flip":
		b, _ := pem.Decode(own)
		b.Bytes[0] ^= 0x40
		return pem.EncodeToMemory(b)
	case "der-pub", "der-priv": // the key without the text around it
		own = map[string][]byte{"der-pub": p.pub, "der-priv": p.priv}[form]
		b, _ := pem.Decode(own)
		return b.Bytes
	case "extra": // something after the key inside the block
		b, _ := pem.Decode(own)
		return pem.EncodeToMemory(&pem.Block{Type: b.Type, Bytes: append(append([]byte{}, b.Bytes...), 5, 0)})
	case "ecpub":
		return ecPub
	case "ecpriv":
		return ecPriv
	}
	drv.Fail("form %s", form)
	return nil
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func arena(b []byte, spare int) []byte {
	r := append(append([]byte{}, b...), make([]byte, spare)...)
	for i := len(b); i < len(r); i++ {
		r[i] = byte(170 + i%7)
	}
	return r
}

func raw(d []int) []byte {
	r := make([]byte, len(d))
	for i, x := range d {
		r[i] = byte(x)
	}
	return r
}

func alter(b []byte, alt string, at int) []byte {
	r := append([]byte{}, b...)
	switch alt {
	case "flip":
		r[at%len(r)] ^= 1 << uint(at%8)
	case "cut":
		r = r[:len(r)-1]
	case "more":
		r = append(r, 7)
	}
	return r
}

func hash(h string) (crypto.Hash, func([]byte) []byte) {
	switch h {
	case "md5":
		return crypto.MD5, func(b []byte) []byte { x := md5.Sum(b); return x[:] }
	case "sha1":
		return crypto.SHA1, func(b []byte) []byte { x := sha1.Sum(b); return x[:] }
	case "sha256":
		return crypto.SHA256, func(b []byte) []byte { x := sha256.Sum256(b); return x[:] }
	case "sha384":
		return crypto.SHA384, func(b []byte) []byte { x := sha512.Sum384(b); return x[:] }
	}
	return crypto.SHA512, func(b []byte) []byte { x := sha512.Sum512(b); return x[:] }
}

type cli struct {
	c *gxrsa.RsaClient
	p *pair
}
type srv struct {
	s *gxrsa.RsaServer
	p *pair
}

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var pairs []*pair
		var clients []cli
		var servers []srv
		var cts, sigs [][]byte
		at := 0
		for _, st := range s {
			st := st
			name := st.Name()
			at += 13
			t.Op(name, func(e drv.Ev) {
				switch name {
				case "start":
				case "pair": // bits, slot
					p := get(st.Int(1), st.Str(2))
					pairs = append(pairs, p)
					e["ok"], e["bits"], e["parsed"], e["match"], e["size"] = p.err == nil, st.Int(1), p.key != nil, p.match, 0
					if p.key != nil {
						e["size"] = p.key.N.BitLen()
					}
				case "client", "server": // pair, form
					p := pairs[st.Int(1)-1]
					e["i"], e["form"] = st.Int(1), st.Str(2)
					tx := text(p, st.Str(2), name == "client")
					if name == "client" {
						c, err := gxrsa.NewClient(append([]byte{}, tx...))
						e["ok"] = err == nil && c != nil
						e["must"] = !drv.Try(func() { gxrsa.MustNewClient(tx) })
						if err == nil {
							clients = append(clients, cli{c, p})
						}
					} else {
						c, err := gxrsa.NewServer(append([]byte{}, tx...))
						e["ok"] = err == nil && c != nil
						e["must"] = !drv.Try(func() { gxrsa.MustNewServer(tx) })
						if err == nil {
							servers = append(servers, srv{c, p})
						}
					}
				case "enc": // client, message
					c, m := clients[st.Int(1)-1], raw(st.Ints(2))
					a := arena(m, 16)
					e["c"], e["m"], e["in"] = st.Int(1), ints(m), ints(a)
					ct, err := c.c.Encrypt(a[:len(m)])
					e["ok"], e["in2"], e["len"] = err == nil, ints(a), len(ct)
					e["std"], e["fresh"] = []int{}, true
					if err == nil {
						if x, err := rsa.DecryptPKCS1v15(rand.Reader, c.p.key, ct); err == nil {
							e["std"] = ints(x)
						} else {
							e["std"] = []int{-1}
						}
						for _, o := range cts {
							if bytes.Equal(o, ct) {
								e["fresh"] = false
							}
						}
						cts = append(cts, ct)
					}
				case "dec": // server, ciphertext, alteration
					v, ct := servers[st.Int(1)-1], alter(cts[st.Int(2)-1], st.Str(3), at)
					a := arena(ct, 16)
					e["v"], e["x"], e["alt"], e["in"] = st.Int(1), st.Int(2), st.Str(3), ints(a)
					out, err := v.s.Decrypt(a[:len(ct)])
					e["ok"], e["out"], e["in2"] = err == nil, ints(out), ints(a)
				case "sign": // server, message, hash
					v, m := servers[st.Int(1)-1], raw(st.Ints(2))
					a := arena(m, 16)
					e["v"], e["m"], e["h"], e["in"] = st.Int(1), ints(m), st.Str(3), ints(a)
					h, dig := hash(st.Str(3))
					var sig []byte
					var err error
					if st.Str(3) == "default" {
						sig, err = v.s.SignDefault(a[:len(m)])
					} else {
						sig, err = v.s.Sign(a[:len(m)], h)
					}
					e["ok"], e["in2"] = err == nil, ints(a)
					e["std"] = rsa.VerifyPKCS1v15(&v.p.key.PublicKey, h, dig(m), sig) == nil
					sigs = append(sigs, sig)
				case "verify": // client, signature, message, hash, alteration
					c, m := clients[st.Int(1)-1], raw(st.Ints(3))
					sig := alter(sigs[st.Int(2)-1], st.Str(5), at)
					a := append(arena(m, 16), arena(sig, 16)...)
					e["c"], e["x"], e["m"], e["h"], e["alt"], e["in"] = st.Int(1), st.Int(2), ints(m), st.Str(4), st.Str(5), ints(a)
					h, _ := hash(st.Str(4))
					sg := a[len(m)+16 : len(m)+16+len(sig)]
					var err error
					if st.Str(4) == "default" {
						err = c.c.VerifyDefault(a[:len(m)], sg)
					} else {
						err = c.c.Verify(a[:len(m)], sg, h)
					}
					e["ok"], e["in2"] = err == nil, ints(a)
				}
			})
		}
	})
}
