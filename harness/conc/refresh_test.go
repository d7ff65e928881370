package conc

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"pgregory.net/rapid"

	"verifharness/lin"
	"verifharness/pbt"
)

// rcache hides the differences between the three variants.
type rcache struct {
	get, refresh func(f func(old int) (int, error)) (int, error)
	clear        func() error
}

func newRC(variant int, maxAge, errAge time.Duration) rcache {
	bg := context.Background()
	switch variant {
	case 0:
		var opts []refreshcache0.RefreshDataOption[int]
		if errAge != 0 {
			opts = append(opts, refreshcache0.WithErrAge[int](errAge))
		}
		d := refreshcache0.NewRefreshData[int](maxAge, opts...)
		wrap := func(f func(int) (int, error)) refreshcache0.RefreshFunc[int] {
			return func(ctx context.Context) (int, error) {
				old, _ := ctx.Value(refreshcache0.OldValKey).(int)
				return f(old)
			}
		}
		return rcache{func(f func(int) (int, error)) (int, error) { return d.Get(bg, wrap(f)) },
			func(f func(int) (int, error)) (int, error) { return d.Refresh(bg, wrap(f)) },
			func() error { return d.Clear(bg, nil) }}
	case 1:
		var opts []refreshcache1.RefreshDataOption[int, int]
		if errAge != 0 {
			opts = append(opts, refreshcache1.WithErrAge[int, int](errAge))
		}
		d := refreshcache1.NewRefreshData[int, int](maxAge, opts...)
		wrap := func(f func(int) (int, error)) refreshcache1.RefreshFunc[int, int] {
			return func(ctx context.Context, _ int) (int, error) {
				old, _ := ctx.Value(refreshcache1.OldValKey).(int)
				return f(old)
			}
		}
		return rcache{func(f func(int) (int, error)) (int, error) { return d.Get(bg, wrap(f), 0) },
			func(f func(int) (int, error)) (int, error) { return d.Refresh(bg, wrap(f), 0) },
			func() error { return d.Clear(bg, nil, 0) }}
	default:
		var opts []refreshcache.RefreshDataOption[int, int]
		if errAge != 0 {
			opts = append(opts, refreshcache.WithErrAge[int, int](errAge))
		}
		d := refreshcache.NewRefreshData[int, int](maxAge, opts...)
		wrap := func(f func(int) (int, error)) refreshcache.RefreshFunc[int, int] {
			return func(ctx context.Context, _ ...int) (int, error) {
				old, _ := ctx.Value(refreshcache.OldValKey).(int)
				return f(old)
			}
		}
		return rcache{func(f func(int) (int, error)) (int, error) { return d.Get(bg, wrap(f)) },
			func(f func(int) (int, error)) (int, error) { return d.Refresh(bg, wrap(f)) },
			func() error { return d.Clear(bg, nil) }}
	}
}

// rcState: the last good value, whether Get may serve it, and the error Get must repeat.
type rcState struct {
	val   int32
	fresh bool
	err   int32
}

type numErr int

func (e numErr) Error() string { return fmt.Sprint("error ", int(e)) }

type boom int

var rcAges = []struct{ max, err time.Duration }{
	{time.Hour, 0}, {-1, 0}, {time.Hour, time.Hour}, {-1, time.Hour}, {0, 0}, {0, time.Hour}, {time.Second, 0}, {time.Second, time.Minute},
}

func rcExec(p Prog) func(run runner) error {
	variant, ages := p.Conf%3, rcAges[p.Conf/3%len(rcAges)]
	if !schedBuild && ages.max == time.Second {
		ages.max = time.Hour // the clock runs: nothing may age
	}
	return func(run runner) error {
		n := len(p.Threads)
		c := newRC(variant, ages.max, ages.err)
		log := newLog[rcState](n)
		var activeFns, overlap atomic.Int32
		counters := make([]int, n+1)
		errs := make([]error, n+1)
		do := func(th int, op Op) {
			counters[th]++
			id := th*100 + counters[th]
			calls, old := 0, 0
			f := func(o int) (int, error) {
				calls++
				old = o
				if activeFns.Add(1) > 1 {
					overlap.Store(1)
				}
				yield()
				defer activeFns.Add(-1)
				switch {
				case op.B < 3:
					return id, nil
				case op.B == 3:
					return 7, nil // the same value again
				case op.B == 4:
					return 0, numErr(id)
				case op.B == 5:
					return 9, numErr(id) // a value next to the error
				}
				panic(boom(id))
			}
			yield()
			call := now()
			var v int
			var err error
			panicked := false
			func() {
				defer func() {
					if x := recover(); x != nil {
						if b, ok := x.(boom); ok && int(b) == id {
							panicked = true
							return
						}
						panic(x)
					}
				}()
				switch op.K {
				case "get":
					v, err = c.get(f)
				case "refresh":
					v, err = c.refresh(f)
				case "clear":
					err = c.clear()
				case "wait":
					time.Sleep(2 * time.Second)
				}
			}()
			ret := now()
			if calls > 1 {
				errs[th] = fmt.Errorf("%s called the refresh function %d times", op.K, calls)
			}
			var ne numErr
			errors.As(err, &ne)
			desc := fmt.Sprintf("%s = %d,%v (function called: %v, saw old value %d, panicked: %v)", op.K, v, err, calls > 0, old, panicked)
			log.add(lin.Op[rcState]{Thread: th, Call: call, Ret: ret, Desc: desc, Step: func(s rcState) []rcState {
				switch op.K {
				case "clear":
					s.fresh = false
					return one(s)
				case "wait":
					if ages.max == time.Second {
						s.fresh = false
					}
					return one(s)
				}
				if calls == 0 {
					if op.K == "refresh" {
						return nil
					}
					if s.fresh {
						if err != nil || int32(v) != s.val {
							return nil
						}
						return one(s)
					}
					if s.err != 0 && err != nil && int32(ne) == s.err {
						return one(s)
					}
					return nil
				}
				if op.K == "get" && (s.fresh || s.err != 0) {
					return nil
				}
				if int32(old) != s.val {
					return nil
				}
				switch {
				case panicked:
					if op.B < 6 {
						return nil
					}
					s.fresh = false
				case op.B == 4 || op.B == 5:
					if int(ne) != id {
						return nil
					}
					s.fresh = false
					if ages.err > 0 {
						s.err = int32(id)
					}
				default:
					want := id
					if op.B == 3 {
						want = 7
					}
					if err != nil || v != want {
						return nil
					}
					s = rcState{val: int32(want), fresh: ages.max != 0}
				}
				return one(s)
			}})
		}
		for _, op := range p.Setup {
			do(n, op)
		}
		var fs []func()
		for i, ops := range p.Threads {
			fs = append(fs, func() {
				for _, op := range ops {
					do(i, op)
				}
			})
		}
		out := run(fs...)
		if out.Limit || out.Stuck {
			return nil
		}
		if err := verdict(out); err != nil {
			return err
		}
		if overlap.Load() != 0 {
			return fmt.Errorf("two refreshes of one cache ran at the same time")
		}
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		do(n, Op{K: "get"})
		do(n, Op{K: "get"})
		if why := lin.Check(rcState{}, log.all(), nil); why != "" {
			return fmt.Errorf("variant %d, max age %v, error age %v: %s", variant, ages.max, ages.err, why)
		}
		return nil
	}
}

func rcOp(kinds []string) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), B: pick(t, "result", 7)}
	})
}

func TestC12(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C12", pbt.Prop[Prog]{
			Name: "refreshcache-linearizable", Quick: scale(6000),
			Rule: "programs of 2 to 4 threads of 1 to 3 Get/Refresh/Clear calls whose refresh functions succeed, fail or panic, after a setup of up to 4 calls, for the three variants and 8 combinations of ages; executed under every schedule with at most one preemption (or a sample) and random ones with several; no two refreshes overlap and the results have a sequential explanation; non-trivial: a Get competes with a Refresh, Clear or another Get",
			Gen: func(t *rapid.T) Prog {
				setup := []string{"get", "refresh", "clear", "wait"}
				if !schedBuild {
					setup = setup[:3]
				}
				return Prog{Conf: pick(t, "conf", 3*len(rcAges)), Setup: rapid.SliceOfN(rcOp(setup), 0, 4).Draw(t, "setup"),
					Threads: genThreads(t, 4, 3, rcOp([]string{"get", "get", "get", "refresh", "refresh", "clear"}))}
			},
			Run: func(p Prog, r *pbt.Rec) error {
				gets := 0
				for _, t := range p.Threads {
					for _, o := range t {
						if o.K == "get" {
							gets++
							break
						}
					}
				}
				r.NonTrivial = gets > 0
				r.Label(fmt.Sprintf("variant %d", p.Conf%3))
				return explore(p, len(p.Threads), r, rwBudget(), rcExec(p))
			},
		})
	})
}
