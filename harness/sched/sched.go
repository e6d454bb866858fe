// Package sched runs a few goroutines under full control: exactly one runs at a time, and at every
// shared-memory operation of the instrumented code (see instr and shim) the scheduler decides who
// goes on.  Explore enumerates the schedules depth-first with a bound on preemptions.
package sched

import (
	"fmt"
	"time"
)

const (
	running = iota // enabled
	blocked        // spinning: repeats reads of memory that has not changed
	done
)

// T is one controlled goroutine.
type T struct {
	id     int
	wake   chan struct{}
	state  int
	at     uint64          // memory version when it blocked
	seen   map[uintptr]int // non-modifying operations since memory last changed
	seenAt uint64
}

type abort struct{}

// S is one controlled execution.
type S struct {
	ts        []*T
	cur       *T
	version   uint64
	path      []int // choice taken at each decision
	opts      []int // number of choices there
	pos       int
	budget    int // preemptions left
	steps     int
	grace     int // non-modifying steps granted after everybody blocked
	aborting  bool
	stuck     bool
	panicked  string
	over      chan struct{}
	maxSteps  int
	grVersion uint64
}

var s *S

// Solo mode: a single goroutine runs freely, its operations are counted.
var solo struct {
	on    bool
	n     int
	at    int
	hook  func()
	limit int
	in    bool
}

const spinReps = 3

// Yield is called before a shared operation; key identifies the operation for spin detection
// (0: not a read that could be part of a spin loop).
func Yield(key uintptr) {
	if solo.on {
		if solo.in {
			return
		}
		solo.n++
		if solo.n&0xfffff == 0 && Tick != nil {
			Tick()
		}
		if solo.n == solo.at && solo.hook != nil {
			solo.in = true
			solo.hook()
			solo.in = false
		}
		if solo.n > solo.limit {
			panic(abort{})
		}
		return
	}
	if s == nil {
		return
	}
	s.yield(key)
}

// Tick is called now and then during long solo runs.
var Tick func()

// Changed tells that shared memory was modified.
func Changed() {
	if s != nil {
		s.version++
	}
}

// Y is Yield for conditions.
func Y(key uintptr) bool { Yield(key); return true }

// After is for statements that write plain shared memory.
func After() { Changed() }

// V yields between evaluating a value and storing it.
func V[X any](x X) X { Yield(0); return x }

// Boundary: the current goroutine starts or ends an operation of the test program.
func Boundary() {
	if s != nil && s.cur != nil {
		s.cur.seen = map[uintptr]int{}
	}
}

func (s *S) yield(key uintptr) {
	if s.aborting {
		panic(abort{})
	}
	t := s.cur
	s.steps++
	if key != 0 {
		if t.seenAt != s.version {
			t.seen, t.seenAt = map[uintptr]int{}, s.version
		}
		t.seen[key]++
		if t.seen[key] >= spinReps {
			if s.grace > 0 {
				s.grace--
			} else {
				t.state, t.at = blocked, s.version
			}
		}
	}
	s.next(t, true)
}

// Block is called by shim locks that cannot proceed until memory changes.
func Block() {
	if s == nil {
		if solo.on {
			Yield(0)
			return
		}
		panic("sched: real block outside the scheduler")
	}
	if s.aborting {
		panic(abort{})
	}
	t := s.cur
	t.state, t.at = blocked, s.version
	s.steps++
	s.next(t, true)
}

// Controlled tells whether the scheduler is in charge.
func Controlled() bool { return s != nil || solo.on }

// next picks who runs; t is the goroutine that stops here (waits if it is not chosen).
func (s *S) next(t *T, wait bool) {
	for {
		var en []*T
		if t.state == running {
			en = append(en, t)
		}
		alive := 0
		for _, x := range s.ts {
			if x.state == blocked && x.at != s.version {
				x.state = running
				x.seen = map[uintptr]int{}
				if x == t {
					en = append([]*T{t}, en...)
					alive++
					continue
				}
			}
			if x.state != done {
				alive++
			}
			if x != t && x.state == running {
				en = append(en, x)
			}
		}
		if alive == 0 {
			close(s.over)
			return
		}
		if len(en) == 0 {
			if s.grace == 0 && !s.stuck { // nobody can move: let everybody repeat for a while before giving up
				s.stuck = true
				s.grace = 60
				for _, x := range s.ts {
					if x.state == blocked {
						x.state = running
					}
				}
				s.grVersion = s.version
				continue
			}
			s.abort(t)
			return
		}
		if s.stuck && s.version != s.grVersion {
			s.stuck, s.grace = false, 0
		}
		k := 0
		if s.steps > s.maxSteps { // fair from here on
			k = s.steps % len(en)
			if s.steps > s.maxSteps+5000 {
				s.abort(t)
				return
			}
		} else if s.stuck {
			k = s.steps % len(en)
		} else if len(en) > 1 {
			n := len(en)
			if t.state == running && s.budget == 0 {
				n = 1
			}
			if n > 1 {
				if s.pos < len(s.path) {
					k = s.path[s.pos]
					if s.pos < len(s.opts) && s.opts[s.pos] != n {
						panic("sched: nondeterministic execution")
					}
				} else {
					s.path = append(s.path, 0)
				}
				if s.pos >= len(s.opts) {
					s.opts = append(s.opts, n)
				}
				s.pos++
				if k >= n {
					k = n - 1
				}
				if k > 0 && t.state == running {
					s.budget--
				}
			}
		}
		to := en[k]
		if to == t {
			return
		}
		s.cur = to
		to.wake <- struct{}{}
		if wait {
			<-t.wake
			if s.aborting {
				panic(abort{})
			}
		}
		return
	}
}

func (s *S) abort(t *T) {
	s.aborting = true
	s.stuck = true
	if t.state != done {
		panic(abort{})
	}
	s.leave(t)
}

// leave: t ended while aborting; pass on to the next one.
func (s *S) leave(t *T) {
	for _, x := range s.ts {
		if x.state != done {
			s.cur = x
			x.wake <- struct{}{}
			return
		}
	}
	close(s.over)
}

// Last is the event that ends the history of a stuck or panicking execution.
func (r Result) Last() map[string]interface{} {
	if r.Panic != "" {
		return map[string]interface{}{"op": "PANIC", "p": 1, "why": r.Panic}
	}
	return map[string]interface{}{"op": "stuck", "p": 0}
}

// Result of one execution.
type Result struct {
	Path  []int
	Stuck bool // some goroutine could never go on
	Panic string
}

// Run executes the bodies once, following path and then always the first choice.
func Run(bodies []func(), path []int, preempt int) (Result, []int) {
	s = &S{path: append([]int{}, path...), budget: preempt, over: make(chan struct{}), maxSteps: 3000}
	for i := range bodies {
		s.ts = append(s.ts, &T{id: i, wake: make(chan struct{}), seen: map[uintptr]int{}})
	}
	for i, b := range bodies {
		t, b := s.ts[i], b
		go func() {
			<-t.wake
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(abort); !ok && !s.aborting { // a panic of the code under test ends the execution
							s.panicked, s.aborting = fmt.Sprintf("%.200v", r), true
						}
					}
				}()
				if s.aborting {
					return
				}
				b()
			}()
			t.state = done
			if s.aborting {
				s.leave(t)
			} else {
				s.next(t, false)
			}
		}()
	}
	// the start is a decision, too
	boot := &T{state: done}
	s.next(boot, false)
	select {
	case <-s.over:
	case <-time.After(60 * time.Second):
		panic("sched: execution hangs (real blocking in the code under test?)")
	}
	r := Result{Path: s.path[:s.pos], Stuck: s.aborting, Panic: s.panicked}
	opts := s.opts[:s.pos]
	s = nil
	return r, opts
}

// Explore enumerates schedules depth-first; visit is called after each execution.
func Explore(mk func() []func(), preempt, max int, visit func(Result)) (n int, complete bool) {
	var path []int
	for n < max {
		r, opts := Run(mk(), path, preempt)
		n++
		visit(r)
		path = append([]int{}, r.Path...)
		i := len(path) - 1
		for i >= 0 && path[i]+1 >= opts[i] {
			i--
		}
		if i < 0 {
			return n, true
		}
		path = path[:i+1]
		path[i]++
	}
	return n, false
}

// IsAbort tells whether a recovered value is the scheduler's own.
func IsAbort(r interface{}) bool { _, ok := r.(abort); return ok }

// Solo runs f alone, counting its shared operations; hook runs before operation number at; after
// limit operations f is given up.
func Solo(f func(), at int, hook func(), limit int) (ops int, panicked, gaveUp bool) {
	solo.on, solo.n, solo.at, solo.hook, solo.limit = true, 0, at, hook, limit
	defer func() { solo.on = false }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if IsAbort(r) {
					gaveUp = true
				} else {
					panicked = true
				}
			}
		}()
		f()
	}()
	return solo.n, panicked, gaveUp
}
