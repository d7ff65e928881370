// Package vt checks concurrency and time together: generated programs of a few threads
// run in a synctest bubble over the stand-ins for sync and sync/atomic, and the case says
// at which synchronization operations which thread is held up for how long. Since time is
// virtual, the stalls decide the interleaving, and they also move lifetimes and ages past
// their ends in the middle of operations.
package vt

import (
	"fmt"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"verifharness/lin"
	"verifharness/pbt"
	"verifharness/sched"
)

// Op is one generated operation: a kind, small integer arguments, and a wait before it.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	W int    `json:"w,omitempty"`
}

func (o Op) String() string { return fmt.Sprintf("%s(%d,%d,%d)", o.K, o.A, o.B, o.C) }

// StallAt holds thread T up at its N-th yield point. Thread -1 stands for all goroutines
// that are not threads of the program (the sweeper).
type StallAt struct {
	T int `json:"t"`
	N int `json:"n"`
	D int `json:"d"`
}

// Prog is a program with its interleaving.
type Prog struct {
	Conf    int       `json:"conf,omitempty"`
	Phase   int       `json:"phase,omitempty"`
	Setup   []Op      `json:"setup,omitempty"`
	Threads [][]Op    `json:"threads"`
	Stalls  []StallAt `json:"stalls,omitempty"`
}

var holds = []time.Duration{16, 160, 1600, 16 * time.Microsecond, 160 * time.Microsecond, 1500 * time.Microsecond, 4 * time.Millisecond, 60 * time.Millisecond}

// waits before an operation
var waits = []time.Duration{0, 0, 0, 32, 320, 3200, 32 * time.Microsecond, time.Millisecond, 3 * time.Millisecond, 50 * time.Millisecond}

func at[T any](l []T, i int) T { return l[((i%len(l))+len(l))%len(l)] }

func pick(t *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }

func genProg(t *rapid.T, confs, maxSetup, maxThreads, maxOps, maxYield int, setup, op *rapid.Generator[Op]) Prog {
	p := Prog{Conf: pick(t, "conf", confs), Phase: pick(t, "phase", 6)}
	p.Setup = rapid.SliceOfN(setup, 0, maxSetup).Draw(t, "setup")
	n := 2 + pick(t, "threads", maxThreads-1)
	for i := 0; i < n; i++ {
		p.Threads = append(p.Threads, rapid.SliceOfN(op, 1, maxOps).Draw(t, "thread"))
	}
	p.Stalls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) StallAt {
		return StallAt{T: pick(t, "t", n+1) - 1, N: pick(t, "n", maxYield), D: pick(t, "d", len(holds))}
	}), 0, 7).Draw(t, "stalls")
	return p
}

// nap sleeps for about d. Each thread wakes at instants of its own, so that the order in
// which threads go on is never left to chance.
func nap(who int, d time.Duration) {
	now := time.Now().UnixNano()
	to := now + int64(d)
	to += (int64(who) - to%16 + 16) % 16
	if to > now {
		time.Sleep(time.Duration(to - now))
	}
}

// calm: nobody is held up.
var calm atomic.Int32

// run executes the threads and waits for them. Returns what went wrong.
func run(p Prog, thread func(i int, op Op)) error {
	n := len(p.Threads)
	var (
		mu    sync.Mutex
		err   error
		ids   [16]atomic.Uintptr
		count = make([]int, n+1)
		plan  = make([]map[int]time.Duration, n+1)
	)
	for _, s := range p.Stalls {
		i := s.T
		if i < 0 || i >= n {
			i = n
		}
		if plan[i] == nil {
			plan[i] = map[int]time.Duration{}
		}
		plan[i][s.N] += at(holds, s.D)
	}
	main := sched.G()
	whoIs := func(g uintptr) int {
		for i := 0; i < n; i++ {
			if ids[i].Load() == g {
				return i
			}
		}
		return n
	}
	stall := func(g uintptr) {
		if g == main || calm.Load() > 0 {
			return
		}
		who := whoIs(g)
		if who == n {
			mu.Lock()
		}
		d := plan[who][count[who]]
		count[who]++
		if who == n {
			mu.Unlock()
		}
		if d > 0 {
			nap(who, d)
		}
	}
	wait := func(g uintptr, d time.Duration) { nap(whoIs(g), d) }
	sched.Stall.Store(&stall)
	sched.Nap.Store(&wait)
	defer sched.Stall.Store(nil)
	defer sched.Nap.Store(nil)
	done := make(chan struct{}, n)
	nap(15, 1)
	for i, ops := range p.Threads {
		go func() {
			ids[i].Store(sched.G())
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					err = fmt.Errorf("unexpected panic in T%d: %v\n%s", i, x, debug.Stack())
					mu.Unlock()
				}
				ids[i].Store(0)
				done <- struct{}{}
			}()
			for _, op := range ops {
				nap(i, at(waits, op.W))
				thread(i, op)
			}
		}()
	}
	end := time.NewTimer(20 * time.Second)
	defer end.Stop()
	for i := 0; i < n; i++ {
		select {
		case <-done:
		case <-end.C:
			sched.Abandoned.Store(true)
			time.Sleep(time.Millisecond)
			sched.Abandoned.Store(false)
			return fmt.Errorf("a thread does not come to an end: deadlock")
		}
	}
	mu.Lock()
	defer mu.Unlock()
	return err
}

// oplog collects operations of several threads.
type oplog[S comparable] struct {
	mu  sync.Mutex
	ops []lin.Op[S]
	t0  time.Time
}

func (l *oplog[S]) now() int64 { return int64(time.Since(l.t0)) }

func (l *oplog[S]) add(o lin.Op[S]) {
	l.mu.Lock()
	l.ops = append(l.ops, o)
	l.mu.Unlock()
}

func bubble(t *testing.T, f func(t *testing.T)) {
	pbt.StartWatchdog()
	synctest.Test(t, f)
}
