// Package conc checks the concurrent containers: small generated programs of two to four
// threads, executed under many schedules. Built over the scheduler's stand-ins for sync
// and sync/atomic it controls every interleaving; built plainly it runs the same programs
// on real goroutines.
package conc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"verifharness/lin"
	"verifharness/pbt"
	"verifharness/sched"
)

// Op is one generated operation: a kind and small integer arguments.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	V []Op   `json:"v,omitempty"`
}

func (o Op) String() string { return fmt.Sprintf("%s(%d,%d,%d)", o.K, o.A, o.B, o.C) }

// Prog is a program: a history that brings the container into some state, then threads.
type Prog struct {
	Conf    int    `json:"conf,omitempty"`
	Setup   []Op   `json:"setup"`
	Threads [][]Op `json:"threads"`
}

type runner func(fs ...func()) sched.Outcome

var clock atomic.Int64

func now() int64 { return clock.Add(1) }

// freeRun executes the threads as plain goroutines, started together.
func freeRun(fs ...func()) sched.Outcome {
	var out sched.Outcome
	var mu sync.Mutex
	var ready atomic.Int32
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					out.Panic = fmt.Sprintf("T%d: %v\n%s", i, x, debug.Stack())
					mu.Unlock()
				}
			}()
			ready.Add(1)
			for n := 0; int(ready.Load()) < len(fs); n++ {
				if n > 1000 {
					runtime.Gosched()
				}
			}
			f()
		}()
	}
	wg.Wait()
	return out
}

// budget of one program.
type budget struct {
	single int // executions with one switch (all of them, if not more)
	multi  int // executions with 2 to 5 switches
	free   int // executions on real goroutines
}

var stuckAfter = 10 * time.Second // in a bubble: an hour of its own time

// explore executes a program under many schedules. exec builds a fresh container, runs
// the threads with the given runner, and judges.
func explore(p any, n int, rec *pbt.Rec, b budget, exec func(run runner) error) error {
	raw, _ := json.Marshal(p)
	h := fnv.New64a()
	h.Write(raw)
	rnd := rand.New(rand.NewPCG(h.Sum64(), 7))
	undecided := 0
	if !schedBuild {
		for i := 0; i < b.free; i++ {
			rec.Count("executions", 1)
			if err := exec(freeRun); err != nil {
				return fmt.Errorf("on real goroutines: %w", err)
			}
		}
		return nil
	}
	var last sched.Outcome
	once := func(s sched.Schedule) error {
		rec.Count("executions", 1)
		err := exec(func(fs ...func()) sched.Outcome {
			last = sched.Run(s, stuckAfter, fs...)
			return last
		})
		if last.Limit || last.Stuck {
			undecided++
			return nil
		}
		if err != nil {
			return fmt.Errorf("schedule (%v): %w", s, err)
		}
		return nil
	}
	steps := make([]int, n)
	total := 0
	for s := 0; s < n; s++ {
		if err := once(sched.Schedule{Start: s}); err != nil {
			return err
		}
		if last.Stuck {
			rec.Inconclusive = true
			rec.Label("waits outside the scheduler")
			return nil
		}
		steps[s] = last.Steps
		rec.Count("yield points in the unpreempted executions", last.Steps)
		total += last.Steps
	}
	rec.LabelIf(total > 60, "more than 60 yield points over the starts")
	if k := total * (n - 1); k <= b.single {
		for s := 0; s < n; s++ {
			for at := 1; at <= steps[s]; at++ {
				for to := 0; to < n; to++ {
					// (the running thread itself as the target picks the next one: a duplicate)
					if n > 2 || to != s {
						if err := once(sched.Schedule{Start: s, Pre: []sched.Switch{{At: at, To: to}}}); err != nil {
							return err
						}
					}
				}
			}
		}
	} else {
		for i := 0; i < b.single; i++ {
			s := rnd.IntN(n)
			if err := once(sched.Schedule{Start: s, Pre: []sched.Switch{{At: 1 + rnd.IntN(max(1, steps[s])), To: rnd.IntN(n)}}}); err != nil {
				return err
			}
		}
	}
	for i := 0; i < b.multi; i++ {
		s := rnd.IntN(n)
		k := 2 + rnd.IntN(2)
		if rnd.IntN(4) == 0 {
			k += rnd.IntN(5)
		}
		span := max(2, steps[s]+steps[s]/4)
		at := map[int]bool{}
		if rnd.IntN(3) == 0 { // close together
			base := 1 + rnd.IntN(span)
			for len(at) < k {
				at[base+rnd.IntN(3*k)] = true
			}
		} else {
			for tries := 0; len(at) < k && tries < 50; tries++ {
				at[1+rnd.IntN(span)] = true
			}
		}
		var pre []sched.Switch
		for a := 1; a <= span+3*k+1; a++ {
			if at[a] {
				pre = append(pre, sched.Switch{At: a, To: rnd.IntN(n)})
			}
		}
		if err := once(sched.Schedule{Start: s, Pre: pre}); err != nil {
			return err
		}
	}
	if undecided > 0 {
		rec.Label("some schedules undecided")
	}
	return nil
}

// verdict turns what the scheduler saw into an error.
func verdict(o sched.Outcome) error {
	if o.Panic != "" {
		return fmt.Errorf("unexpected panic in %s", o.Panic)
	}
	if o.Deadlock != "" {
		return fmt.Errorf("operations that never return: %s", o.Deadlock)
	}
	return nil
}

// log collects the operations of all threads.
type oplog[S comparable] struct {
	per [][]lin.Op[S]
}

func newLog[S comparable](n int) *oplog[S] { return &oplog[S]{per: make([][]lin.Op[S], n+1)} }

func (l *oplog[S]) add(o lin.Op[S]) { l.per[o.Thread] = append(l.per[o.Thread], o) }

func (l *oplog[S]) all() (out []lin.Op[S]) {
	for _, p := range l.per {
		out = append(out, p...)
	}
	return
}

// bubble runs f in a synctest bubble: its clock only moves when everybody sleeps.
func bubble(t *testing.T, f func(t *testing.T)) {
	pbt.StartWatchdog()
	if !schedBuild {
		f(t) // real goroutines, real clock
		return
	}
	stuckAfter = time.Hour
	synctest.Test(t, f)
}

func pick(t *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }

// genThreads draws 2 to maxT threads of 1 to maxOps operations.
func genThreads(t *rapid.T, maxT, maxOps int, one *rapid.Generator[Op]) [][]Op {
	n := rapid.SampledFrom([]int{2, 2, 2, 3, 3, 4}).Draw(t, "threads")
	n = min(n, maxT)
	out := make([][]Op, n)
	for i := range out {
		m := maxOps
		if n > 2 {
			m = max(1, maxOps-1)
		}
		out[i] = rapid.SliceOfN(one, 1, m).Draw(t, "ops")
	}
	return out
}
