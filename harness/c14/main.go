// Driver for C14. Besides single calls, "scan" steps call the real functions on huge ranges; a sieve and
// integer comparisons only *select* the values worth showing to TLC (every disagreement and a few others),
// TLC decides about them.
package main

import (
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vipally/gx/math/prime"
	"gxverif/drv"
)

var small []uint32 // primes up to 65537

func init() {
	c := make([]bool, 65538)
	for i := 2; i < len(c); i++ {
		if !c[i] {
			small = append(small, uint32(i))
			for j := i * i; j < len(c); j += i {
				c[j] = true
			}
		}
	}
}

// sieve marks the composites of [lo, lo+len(c)).
func sieve(lo uint64, c []bool) {
	for i := range c {
		c[i] = lo+uint64(i) < 2
	}
	for _, p := range small {
		p := uint64(p)
		if p*p >= lo+uint64(len(c)) {
			break
		}
		j := p * p
		if j < lo {
			j = (lo + p - 1) / p * p
		}
		for ; j < lo+uint64(len(c)); j += p {
			c[j-lo] = true
		}
	}
}

type picks struct {
	sync.Mutex
	bad, ok []uint32
}

func (p *picks) add(v uint32, bad bool) {
	p.Lock()
	if bad && len(p.bad) < 50 {
		p.bad = append(p.bad, v)
	} else if !bad && len(p.ok) < 200 {
		p.ok = append(p.ok, v)
	}
	p.Unlock()
}

// parallel does f(0) ... f(n-1), spread over the range, and what time allows of it.
func parallel(n int, seconds int, f func(i int)) (done int) {
	until := time.Now().Add(time.Duration(seconds) * time.Second)
	step := n*5/8 | 1
	for gcd(step, n) != 1 {
		step++
	}
	var wg sync.WaitGroup
	next, count := int64(-1), int64(0)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || time.Now().After(until) {
					return
				}
				f(i * step % n)
				atomic.AddInt64(&count, 1)
				drv.Tick()
			}
		}()
	}
	wg.Wait()
	return int(count)
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func nearest(n, r uint64) bool { return n <= r*r+r && (r == 0 || n > r*r-r) }

func main() {
	drv.Main(func(t *drv.T, s drv.Script) {
		var pk *picks
		one := func(op string, v uint32) {
			t.Op(op, func(e drv.Ev) {
				e["m"], e["b"] = v/2, v%2
				if op == "prime" {
					e["r"] = prime.IsPrime(v)
				} else {
					e["r"] = prime.SqrtUint32(v)
				}
			})
		}
		for _, st := range s {
			op := st.Name()
			switch op {
			case "prime", "sqrt":
				one(op, uint32(st.Int(1)))
			case "range":
				t.Op(op, func(e drv.Ev) {
					a, z := st.Int(1), st.Int(2)
					ps := []int{}
					for i := a; i <= z; i++ {
						if prime.IsPrime(uint32(i)) {
							ps = append(ps, i)
						}
					}
					e["a"], e["z"], e["ps"] = a, z, ps
				})
			case "scan":
				pk = &picks{}
				f := "prime"
				t.Op(op, func(e drv.Ev) {
					kind := st.Str(1)
					e["kind"] = kind
					const blk = 1 << 18
					all, done := 0, 0
					defer func() { e["all"], e["done"] = all, done }()
					switch kind {
					case "primes": // [lo, hi) in blocks
						lo, hi := uint64(st.Int(2)), uint64(st.Int(3))
						all, done = int((hi-lo+blk-1)/blk), 0
						done = parallel(all, st.Int(4), func(i int) {
							a := lo + uint64(i)*blk
							c := make([]bool, min(blk, hi-a))
							sieve(a, c)
							keep := rand.New(rand.NewSource(int64(a))).Intn(len(c))
							for k := range c {
								if k&4095 == 0 {
									drv.Tick()
								}
								v := uint32(a) + uint32(k)
								if prime.IsPrime(v) == c[k] {
									pk.add(v, true)
								} else if k == keep {
									pk.add(v, false)
								}
							}
						})
					case "products": // p*q of table primes, p's index = st[2] modulo st[3]
						all = len(small)
						done = parallel(all, st.Int(4), func(i int) {
							if i%st.Int(3) != st.Int(2) && i+40 < len(small) {
								return
							}
							p := uint64(small[i])
							for j := i; j < len(small); j++ {
								n := p * uint64(small[j])
								if n >= 1<<32 {
									break
								}
								if prime.IsPrime(uint32(n)) {
									pk.add(uint32(n), true)
								} else if j == i+1 && i%61 == 0 {
									pk.add(uint32(n), false)
								}
							}
						})
					case "sqrts":
						f = "sqrt"
						lo, hi := uint64(st.Int(2)), uint64(st.Int(3))
						all, done = int((hi-lo+blk-1)/blk), 0
						done = parallel(all, st.Int(4), func(i int) {
							a := lo + uint64(i)*blk
							for v := a; v < min(a+blk, hi); v++ {
								if !nearest(v, uint64(prime.SqrtUint32(uint32(v)))) {
									pk.add(uint32(v), true)
								} else if v == a+7 && i%97 == 0 {
									pk.add(uint32(v), false)
								}
							}
						})
					}
				})
				sort.Slice(pk.bad, func(i, j int) bool { return pk.bad[i] < pk.bad[j] })
				for _, v := range append(pk.bad, pk.ok...) {
					one(f, v)
				}
			default:
				drv.Fail("op %v", st)
			}
		}
	})
}
