package vt

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"pgregory.net/rapid"

	"verifharness/lin"
	"verifharness/pbt"
)

// rcache hides the differences between the three variants.
type rcache struct {
	get, refresh func(f func(old int) (int, error)) (int, error)
	clear        func(f func()) error
}

func newRC(variant int, maxAge, errAge time.Duration) rcache {
	bg := context.Background()
	type fn = func(int) (int, error)
	switch variant {
	case 0:
		d := refreshcache0.NewRefreshData[int](maxAge, refreshcache0.WithErrAge[int](errAge))
		wrap := func(f fn) refreshcache0.RefreshFunc[int] {
			return func(ctx context.Context) (int, error) {
				old, _ := ctx.Value(refreshcache0.OldValKey).(int)
				return f(old)
			}
		}
		return rcache{func(f fn) (int, error) { return d.Get(bg, wrap(f)) },
			func(f fn) (int, error) { return d.Refresh(bg, wrap(f)) },
			func(f func()) error {
				if f == nil {
					return d.Clear(bg, nil)
				}
				return d.Clear(bg, func(context.Context) error { f(); return nil })
			}}
	case 1:
		d := refreshcache1.NewRefreshData[int, int](maxAge, refreshcache1.WithErrAge[int, int](errAge))
		wrap := func(f fn) refreshcache1.RefreshFunc[int, int] {
			return func(ctx context.Context, _ int) (int, error) {
				old, _ := ctx.Value(refreshcache1.OldValKey).(int)
				return f(old)
			}
		}
		return rcache{func(f fn) (int, error) { return d.Get(bg, wrap(f), 0) },
			func(f fn) (int, error) { return d.Refresh(bg, wrap(f), 0) },
			func(f func()) error {
				if f == nil {
					return d.Clear(bg, nil, 0)
				}
				return d.Clear(bg, func(context.Context, int) error { f(); return nil }, 0)
			}}
	default:
		d := refreshcache.NewRefreshData[int, int](maxAge, refreshcache.WithErrAge[int, int](errAge))
		wrap := func(f fn) refreshcache.RefreshFunc[int, int] {
			return func(ctx context.Context, _ ...int) (int, error) {
				old, _ := ctx.Value(refreshcache.OldValKey).(int)
				return f(old)
			}
		}
		return rcache{func(f fn) (int, error) { return d.Get(bg, wrap(f)) },
			func(f fn) (int, error) { return d.Refresh(bg, wrap(f)) },
			func(f func()) error {
				if f == nil {
					return d.Clear(bg, nil)
				}
				return d.Clear(bg, func(context.Context, ...int) error { f(); return nil })
			}}
	}
}

// rcState: the last good value, when it came (between from and to), whether nothing has
// invalidated it since; likewise the last error.
type rcState struct {
	val       int32
	good      bool
	from, to  int64
	err       int32
	loose     bool // whether the error must still be repeated is not specified
	efrom, et int64
}

type numErr int

func (e numErr) Error() string { return fmt.Sprint("error ", int(e)) }

type boom int

var rcAges = []struct{ max, err time.Duration }{
	{2 * time.Millisecond, 0}, {50 * time.Millisecond, 0}, {2 * time.Millisecond, 2 * time.Millisecond}, {50 * time.Millisecond, 3 * time.Millisecond},
	{-1, 2 * time.Millisecond}, {time.Microsecond, 0}, {time.Hour, time.Hour}, {0, 50 * time.Millisecond},
}

// how long a refresh function takes
var takes = []time.Duration{0, 0, 0, 20, 2 * time.Microsecond, 500 * time.Microsecond, 3 * time.Millisecond, 55 * time.Millisecond}

func runRefresh(p Prog, r *pbt.Rec) error {
	variant, ages := p.Conf%3, at(rcAges, p.Conf/3)
	n := len(p.Threads)
	nap(15, 1)
	c := newRC(variant, ages.max, ages.err)
	log := &oplog[rcState]{t0: time.Now()}
	var running, overlap, aged, shared, waited atomic.Int32
	counters := make([]int, n+1)
	errs := make([]error, n+1)
	do := func(th int, op Op) {
		counters[th]++
		id := th*100 + counters[th]
		calls, old := 0, 0
		var start, end int64
		f := func(o int) (int, error) {
			calls++
			old = o
			start = log.now()
			if running.Add(1) > 1 {
				overlap.Store(1)
			}
			defer func() { running.Add(-1); end = log.now() }()
			nap(th, at(takes, op.C))
			switch {
			case op.B < 4:
				return id, nil
			case op.B < 6:
				return 0, numErr(id)
			}
			panic(boom(id))
		}
		if running.Load() > 0 {
			waited.Add(1)
		}
		call := log.now()
		var v int
		var err error
		panicked := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					if b, ok := x.(boom); ok && int(b) == id {
						panicked = true
						return
					}
					panic(x)
				}
			}()
			switch op.K {
			case "get":
				v, err = c.get(f)
			case "refresh":
				v, err = c.refresh(f)
			case "clear":
				if op.B%2 == 0 {
					err = c.clear(nil)
				} else {
					err = c.clear(func() { nap(th, at(takes, op.C)) })
				}
			}
		}()
		ret := log.now()
		if calls > 1 {
			errs[th] = fmt.Errorf("%s called the refresh function %d times", op.K, calls)
		}
		var ne numErr
		errors.As(err, &ne)
		desc := fmt.Sprintf("%s = %d,%v (saw old value %d, panicked: %v)", op.K, v, err, old, panicked)
		if calls > 0 {
			desc += fmt.Sprintf(" function ran [%d,%d]", start, end)
		} else if op.K == "get" {
			shared.Add(1)
		}
		log.add(lin.Op[rcState]{Thread: th, Call: call, Ret: ret, Desc: desc, Step: func(s rcState) []rcState {
			if op.K == "clear" {
				s.good = false
				s.loose = true
				return []rcState{s}
			}
			if calls == 0 {
				if op.K == "refresh" {
					return nil
				}
				// served from the stored value or error: was it young enough at some instant of the call?
				if s.good && err == nil && int32(v) == s.val && (ages.max < 0 || call-s.to < int64(ages.max)) {
					return []rcState{s}
				}
				stale := !s.good || ages.max >= 0 && ret-s.from >= int64(ages.max)
				if s.err != 0 && stale && err != nil && int32(ne) == s.err && call-s.et < int64(ages.err) {
					return []rcState{s}
				}
				return nil
			}
			if op.K == "get" {
				// refreshed: was there an instant until then at which nothing could be served?
				if s.good && (ages.max < 0 || start-s.from < int64(ages.max)) {
					return nil
				}
				if s.err != 0 && !s.loose && start-s.efrom < int64(ages.err) {
					return nil
				}
				if s.good || s.err != 0 {
					aged.Add(1)
				}
			}
			if int32(old) != s.val {
				return nil
			}
			switch {
			case panicked:
				if op.B < 6 {
					return nil
				}
				s.good = false
				s.loose = true
			case op.B >= 6:
				return nil
			case op.B >= 4:
				if int(ne) != id {
					return nil
				}
				s.good, s.loose = false, false
				s.err, s.efrom, s.et = int32(id), end, ret
			default:
				if err != nil || v != id {
					return nil
				}
				s = rcState{val: int32(id), good: true, from: end, to: ret}
			}
			return []rcState{s}
		}})
	}
	for _, op := range p.Setup {
		time.Sleep(at(waits, op.W))
		do(n, op)
	}
	if err := run(p, do); err != nil {
		return err
	}
	if overlap.Load() != 0 {
		return fmt.Errorf("two refreshes of one cache ran at the same time")
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for i := 0; i < 2; i++ {
		do(n, Op{K: "get"})
	}
	// the whole history must have a sequential explanation
	why := lin.Check(rcState{}, log.ops, nil)
	r.NonTrivial = waited.Load() > 0
	r.LabelIf(waited.Load() > 0, "call during a refresh")
	r.LabelIf(shared.Load() > 0, "value or error shared")
	r.LabelIf(aged.Load() > 0, "something grew too old")
	r.Label(fmt.Sprintf("variant %d", variant))
	if why != "" {
		return fmt.Errorf("variant %d, max age %v, error age %v: %s", variant, ages.max, ages.err, why)
	}
	return nil
}

func rcOp(kinds []string) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), B: pick(t, "result", 7), C: pick(t, "takes", len(takes)), W: pick(t, "wait", len(waits))}
	})
}

func TestC12(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C12", pbt.Prop[Prog]{
			Name: "refreshcache-timed", Quick: 100000,
			Rule: "programs of 2 to 4 threads of 1 to 4 Get/Refresh/Clear calls with waits, whose refresh functions take up to 55 ms, succeed, fail or panic, and which are held up at generated synchronization operations, for the three variants and 8 combinations of ages from a microsecond up, on a fake clock; no two refreshes overlap and the results have a sequential explanation in which ages are respected; non-trivial: a call was made during a refresh",
			Gen: func(t *rapid.T) Prog {
				return genProg(t, 3*len(rcAges), 3, 4, 4, 30, rcOp([]string{"get", "get", "refresh", "clear"}), rcOp([]string{"get", "get", "get", "get", "refresh", "clear"}))
			},
			Run: runRefresh,
		})
	})
}
