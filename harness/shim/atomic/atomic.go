// Package atomic stands in for sync/atomic in instrumented copies: every operation is a scheduling point.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"gxverif/sched"
)

func key[P any](p *P, kind uintptr) uintptr { return uintptr(unsafe.Pointer(p))*8 + kind + 1 }

func done(changed bool) {
	if changed {
		sched.Changed()
	}
}

func load[T any](p *T) T            { sched.Yield(key(p, 1)); return *p }
func store[T comparable](p *T, v T) { sched.Yield(0); c := *p != v; *p = v; done(c) }
func swap[T comparable](p *T, v T) T {
	sched.Yield(key(p, 2))
	o := *p
	*p = v
	done(o != v)
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	sched.Yield(key(p, 3))
	if *p != o {
		return false
	}
	*p = n
	done(o != n)
	return true
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T num](p *T, d T) T {
	sched.Yield(0)
	*p += d
	done(d != 0)
	return *p
}
func and[T num](p *T, m T) T { sched.Yield(0); o := *p; *p &= m; done(o != *p); return o }
func or[T num](p *T, m T) T  { sched.Yield(0); o := *p; *p |= m; done(o != *p); return o }

func LoadInt32(p *int32) int32                                          { return load(p) }
func LoadInt64(p *int64) int64                                          { return load(p) }
func LoadUint32(p *uint32) uint32                                       { return load(p) }
func LoadUint64(p *uint64) uint64                                       { return load(p) }
func LoadUintptr(p *uintptr) uintptr                                    { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                      { return load(p) }
func StoreInt32(p *int32, v int32)                                      { store(p, v) }
func StoreInt64(p *int64, v int64)                                      { store(p, v) }
func StoreUint32(p *uint32, v uint32)                                   { store(p, v) }
func StoreUint64(p *uint64, v uint64)                                   { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr)                                { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                                 { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                                 { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32                             { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64                             { return swap(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr                         { return swap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer    { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool                     { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool                     { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool                  { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool                  { return cas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool               { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }
func AddInt32(p *int32, d int32) int32                                  { return add(p, d) }
func AddInt64(p *int64, d int64) int64                                  { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32                              { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64                              { return add(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr                          { return add(p, d) }
func AndInt32(p *int32, m int32) int32                                  { return and(p, m) }
func AndUint32(p *uint32, m uint32) uint32                              { return and(p, m) }
func AndInt64(p *int64, m int64) int64                                  { return and(p, m) }
func AndUint64(p *uint64, m uint64) uint64                              { return and(p, m) }
func OrInt32(p *int32, m int32) int32                                   { return or(p, m) }
func OrUint32(p *uint32, m uint32) uint32                               { return or(p, m) }
func OrInt64(p *int64, m int64) int64                                   { return or(p, m) }
func OrUint64(p *uint64, m uint64) uint64                               { return or(p, m) }

type cell[T num] struct{ v T }

func (c *cell[T]) Load() T                    { return load(&c.v) }
func (c *cell[T]) Store(v T)                  { store(&c.v, v) }
func (c *cell[T]) Swap(v T) T                 { return swap(&c.v, v) }
func (c *cell[T]) CompareAndSwap(o, n T) bool { return cas(&c.v, o, n) }
func (c *cell[T]) Add(d T) T                  { return add(&c.v, d) }
func (c *cell[T]) And(m T) T                  { return and(&c.v, m) }
func (c *cell[T]) Or(m T) T                   { return or(&c.v, m) }

type Int32 struct{ cell[int32] }
type Int64 struct{ cell[int64] }
type Uint32 struct{ cell[uint32] }
type Uint64 struct{ cell[uint64] }
type Uintptr struct{ cell[uintptr] }

// Bool stands in for atomic.Bool.
type Bool struct{ v bool }

func (c *Bool) Load() bool                    { return load(&c.v) }
func (c *Bool) Store(v bool)                  { store(&c.v, v) }
func (c *Bool) Swap(v bool) bool              { return swap(&c.v, v) }
func (c *Bool) CompareAndSwap(o, n bool) bool { return cas(&c.v, o, n) }

// Pointer stands in for atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (c *Pointer[T]) Load() *T                    { return load(&c.v) }
func (c *Pointer[T]) Store(v *T)                  { store(&c.v, v) }
func (c *Pointer[T]) Swap(v *T) *T                { return swap(&c.v, v) }
func (c *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&c.v, o, n) }

// Value is uncontrolled but safe.
type Value struct{ v real.Value }

func (c *Value) Load() interface{}   { sched.Yield(key(c, 1)); return c.v.Load() }
func (c *Value) Store(v interface{}) { sched.Yield(0); c.v.Store(v); sched.Changed() }
