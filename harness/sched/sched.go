// Package sched runs a few goroutines one at a time, deciding at every
// synchronization operation (they reach it through the shim packages) which one
// goes on. A schedule is data: the same program and schedule give the same execution.
package sched

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Switch moves control to another thread right before the At-th yield point.
type Switch struct {
	At int `json:"at"`
	To int `json:"to"`
}

// Schedule says who starts and where control is taken away. Otherwise a thread runs
// until it blocks or ends, and then the next one that can run (cyclically) goes on.
type Schedule struct {
	Start int      `json:"start"`
	Pre   []Switch `json:"pre,omitempty"`
}

func (s Schedule) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "start T%d", s.Start)
	for _, p := range s.Pre {
		fmt.Fprintf(&b, "; at step %d switch to T%d", p.At, p.To)
	}
	return b.String()
}

// Outcome of one execution.
type Outcome struct {
	Steps    int
	Deadlock string // not empty: some threads can never go on
	Panic    string // not empty: a thread panicked
	Limit    bool   // too many steps: undecided
	Stuck    bool   // a thread waits for something the scheduler does not see: undecided
	Took     int    // how many of the wanted switches happened
}

type thread struct {
	id          int
	g           uintptr
	wake        chan struct{}
	cond        func() bool // not nil: blocked until it holds
	done        bool
	unwinding   bool
	consecutive int
}

type run struct {
	threads  []*thread
	sch      Schedule
	next     int
	out      Outcome
	abort    bool
	finished chan struct{}
}

type abortSig struct{}

const (
	maxSteps       = 20000
	maxConsecutive = 2000
)

var active atomic.Pointer[run]

func self() (*run, *thread) {
	r := active.Load()
	if r == nil {
		return nil, nil
	}
	g := getg()
	for _, t := range r.threads {
		if t.g == g {
			return r, t
		}
	}
	return nil, nil
}

// Controlled tells whether the caller is scheduled here.
func Controlled() bool {
	_, t := self()
	return t != nil
}

// Stall, if set, is called at the yield points of goroutines that are not scheduled here.
// In a synctest bubble it can sleep: interleavings are then chosen by the fake clock.
var Stall atomic.Pointer[func(g uintptr)]

// Nap, if set, is how goroutines that are not scheduled here wait.
var Nap atomic.Pointer[func(g uintptr, d time.Duration)]

// Given up: goroutines that wait for something need not go on.
var Abandoned atomic.Bool

// G tells goroutines apart.
func G() uintptr { return getg() }

// Yield is a point where control may go to another thread.
func Yield() {
	if active.Load() == nil {
		if f := Stall.Load(); f != nil {
			(*f)(getg())
		}
		return
	}
	r, t := self()
	if t == nil || t.unwinding {
		return
	}
	r.out.Steps++
	if r.out.Steps > maxSteps {
		r.out.Limit = true
		r.kill(t)
	}
	t.consecutive++
	for r.next < len(r.sch.Pre) && r.sch.Pre[r.next].At <= r.out.Steps {
		p := r.sch.Pre[r.next]
		r.next++
		if p.At < r.out.Steps {
			continue
		}
		if u := r.pick(t, p.To); u != nil {
			r.out.Took++
			r.switchTo(t, u)
		}
		return
	}
	if t.consecutive > maxConsecutive {
		if u := r.pick(t, t.id+1); u != nil {
			r.switchTo(t, u)
		}
	}
}

// Block waits until cond holds. It returns false if the caller is not scheduled here
// (and must wait by itself).
func Block(cond func() bool) bool {
	r, t := self()
	if t == nil {
		return false
	}
	if t.unwinding {
		return true
	}
	for !cond() {
		t.cond = cond
		u := r.pick(t, t.id+1)
		if u == nil {
			r.deadlock()
			r.kill(t)
		}
		r.switchTo(t, u)
		t.cond = nil
	}
	return true
}

func (r *run) deadlock() {
	if r.out.Deadlock != "" || r.abort {
		return
	}
	for _, t := range r.threads {
		if !t.done {
			r.out.Deadlock += fmt.Sprintf("T%d ", t.id)
		}
	}
	r.out.Deadlock += "wait for ever"
}

// pick chooses a thread other than t that can run, the wanted one if possible.
func (r *run) pick(t *thread, want int) *thread {
	n := len(r.threads)
	for i := 0; i < n; i++ {
		u := r.threads[(want+i)%n]
		if u == t || u.done {
			continue
		}
		if r.abort || u.cond == nil || u.cond() {
			return u
		}
	}
	return nil
}

func (r *run) kill(t *thread) {
	r.abort = true
	t.unwinding = true
	panic(abortSig{})
}

func (r *run) switchTo(t, u *thread) {
	t.consecutive = 0
	u.wake <- struct{}{}
	<-t.wake
	if r.abort && !t.unwinding {
		t.unwinding = true
		panic(abortSig{})
	}
}

func (r *run) body(t *thread, f func()) {
	t.g = getg()
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(abortSig); !ok {
				if r.out.Panic == "" && !r.abort {
					r.out.Panic = fmt.Sprintf("T%d: %v\n%s", t.id, x, stack())
				}
				r.abort = true
			}
		}
		t.done = true
		t.unwinding = true
		u := r.pick(t, t.id+1)
		if u == nil {
			left := false
			for _, x := range r.threads {
				left = left || !x.done
			}
			if !left {
				t.g = 0
				close(r.finished)
				return
			}
			r.deadlock()
			r.abort = true
			u = r.pick(t, t.id+1)
		}
		t.g = 0
		u.wake <- struct{}{}
	}()
	<-t.wake
	if r.abort {
		return
	}
	f()
}

func stack() string {
	l := strings.Split(string(debug.Stack()), "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// Run executes the threads under the schedule. stuckAfter bounds the wait for threads
// blocked outside the scheduler's sight.
func Run(sch Schedule, stuckAfter time.Duration, fs ...func()) Outcome {
	r := &run{sch: sch, finished: make(chan struct{})}
	for i := range fs {
		r.threads = append(r.threads, &thread{id: i, wake: make(chan struct{}, 1)})
	}
	active.Store(r)
	for i, f := range fs {
		go r.body(r.threads[i], f)
	}
	r.threads[sch.Start%len(fs)].wake <- struct{}{}
	timer := time.NewTimer(stuckAfter)
	select {
	case <-r.finished:
		timer.Stop()
	case <-timer.C:
		r.out.Stuck = true
	}
	active.Store(nil)
	if r.out.Stuck {
		return Outcome{Stuck: true}
	}
	return r.out
}
