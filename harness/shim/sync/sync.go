// Package sync stands in for sync in instrumented copies: blocking is known to the scheduler.
package sync

import (
	real "sync"

	"gxverif/sched"
)

type Locker = real.Locker

// Mutex stands in for sync.Mutex.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sched.Yield(0)
	for m.held {
		sched.Block()
	}
	m.held = true
	sched.Changed()
}
func (m *Mutex) TryLock() bool {
	sched.Yield(0)
	if m.held {
		return false
	}
	m.held = true
	sched.Changed()
	return true
}
func (m *Mutex) Unlock() {
	sched.Yield(0)
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	sched.Changed()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	w       bool
	waiting int
	r       int
}

func (m *RWMutex) Lock() {
	sched.Yield(0)
	m.waiting++
	for m.w || m.r > 0 {
		sched.Block()
	}
	m.waiting--
	m.w = true
	sched.Changed()
}
func (m *RWMutex) TryLock() bool {
	sched.Yield(0)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	sched.Changed()
	return true
}
func (m *RWMutex) Unlock() {
	sched.Yield(0)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	sched.Changed()
}
func (m *RWMutex) RLock() {
	sched.Yield(0)
	for m.w || m.waiting > 0 {
		sched.Block()
	}
	m.r++
	sched.Changed()
}
func (m *RWMutex) TryRLock() bool {
	sched.Yield(0)
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	sched.Changed()
	return true
}
func (m *RWMutex) RUnlock() {
	sched.Yield(0)
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	sched.Changed()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool never reuses anything.
type Pool struct{ New func() interface{} }

func (p *Pool) Get() interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(interface{}) {}

// Map is a locked map.
type Map struct {
	m Mutex
	d real.Map
}

func (m *Map) Load(k interface{}) (interface{}, bool) { sched.Yield(0); return m.d.Load(k) }
func (m *Map) Store(k, v interface{})                 { sched.Yield(0); m.d.Store(k, v); sched.Changed() }
func (m *Map) Delete(k interface{})                   { sched.Yield(0); m.d.Delete(k); sched.Changed() }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	sched.Yield(0)
	defer sched.Changed()
	return m.d.LoadOrStore(k, v)
}
