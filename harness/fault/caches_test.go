package fault

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/synccache"

	"verifharness/pbt"
)

// A cache whose deleted-callback fails. Entries live for hours or have already expired.
type scEntry struct {
	v    int
	dead bool
}

type scWorld struct {
	c        *synccache.SyncCache[int, int]
	ref      map[int]scEntry
	b        *bomb
	next     int
	reported map[int]int
}

func newSC(mode int) world {
	w := &scWorld{ref: map[int]scEntry{}, reported: map[int]int{}}
	w.c = synccache.NewSyncCache[int, int](0, synccache.WithDeletedCallback[int, int](func(v int) {
		w.reported[v]++
		w.b.hit()
	}))
	w.c.Close() // no sweeps, which could not be answered for
	return w
}

func (w *scWorld) step(op Op, b *bomb) error {
	w.b = b
	k := op.A % 5
	cur, has := w.ref[k]
	live := has && !cur.dead
	before := len(w.reported)
	gone := func(what string) error { // the entry of k is gone, reported once
		delete(w.ref, k)
		if w.reported[cur.v] != 1 || len(w.reported) != before+1 {
			return fmt.Errorf("%s: callback for %d called %d times (%d other calls)", what, cur.v, w.reported[cur.v], len(w.reported)-before-1)
		}
		return nil
	}
	same := func(what string, v, want int, ok, wantOK bool) error {
		if ok != wantOK || ok && v != want {
			return fmt.Errorf("%s gives (%d,%v), want (%d,%v)", what, v, ok, want, wantOK)
		}
		return nil
	}
	val := func(e *synccache.Entry[int]) int {
		if e == nil {
			return -1
		}
		return e.Value()
	}
	var err error
	var e *synccache.Entry[int]
	var ok bool
	switch op.K {
	case "store", "expired":
		w.next++
		d := time.Hour
		if op.K == "expired" {
			d = -time.Hour
		}
		w.c.Store(k, w.next, d)
		w.ref[k] = scEntry{w.next, op.K == "expired"}
	case "load":
		if err = b.run("Load", func() { e, ok = w.c.Load(k) }); err != nil {
			return err
		}
		if has && !live {
			err = gone("Load")
		}
		if err == nil && !b.fired {
			err = same("Load", val(e), cur.v, ok, live)
		}
	case "los":
		w.next++
		if err = b.run("LoadOrStore", func() { e, ok = w.c.LoadOrStore(k, w.next, time.Hour) }); err != nil {
			return err
		}
		if has && !live {
			err = gone("LoadOrStore")
		}
		if err != nil {
			return err
		}
		if b.fired { // whether the new value got in is open
			if x, ok := w.c.Load(k); ok {
				if x.Value() != w.next {
					return fmt.Errorf("LoadOrStore failed and left %d", x.Value())
				}
				w.ref[k] = scEntry{w.next, false}
			}
			return nil
		}
		if !live {
			w.ref[k] = scEntry{w.next, false}
			return same("LoadOrStore", val(e), w.next, true, !ok)
		}
		return same("LoadOrStore", val(e), cur.v, ok, true)
	case "delete":
		if err = b.run("Delete", func() { w.c.Delete(k) }); err == nil && has {
			err = gone("Delete")
		}
	case "lad":
		if err = b.run("LoadAndDelete", func() { e, ok = w.c.LoadAndDelete(k) }); err != nil {
			return err
		}
		if has {
			err = gone("LoadAndDelete")
		}
		if err == nil && !b.fired {
			err = same("LoadAndDelete", val(e), cur.v, ok, live)
		}
	case "cvad":
		v := cur.v
		if op.B%3 == 0 {
			v = -5
		}
		if err = b.run("CompareValueAndDelete", func() { ok = w.c.CompareValueAndDelete(k, v) }); err != nil {
			return err
		}
		if has && (!live || v == cur.v) {
			err = gone("CompareValueAndDelete")
		}
		if err == nil && !b.fired && ok != (live && v == cur.v) {
			err = fmt.Errorf("CompareValueAndDelete=%v", ok)
		}
	case "cad":
		w.b = &bomb{}
		e, ok = w.c.Load(k)
		w.b = b
		if !ok {
			if has { // that was a removal of its own
				err = gone("Load")
			}
			return err
		}
		if err = b.run("CompareAndDelete", func() { ok = w.c.CompareAndDelete(k, e) }); err == nil {
			err = gone("CompareAndDelete")
		}
	case "clear", "range":
		var seen = map[int]bool{}
		var bad error
		if op.K == "clear" {
			err = b.run("Clear", w.c.Clear)
		} else {
			err = b.run("Range", func() {
				w.c.Range(func(k int, e *synccache.Entry[int]) bool {
					if x, ok := w.ref[k]; !ok || x.dead || x.v != e.Value() || seen[k] {
						bad = fmt.Errorf("Range visits (%d,%d), want %v", k, e.Value(), x)
					}
					seen[k] = true
					if op.B%2 == 0 {
						b.hit()
					}
					return true
				})
			})
		}
		if err != nil || bad != nil {
			return errors.Join(err, bad)
		}
		for k, x := range w.ref {
			n := w.reported[x.v]
			switch {
			case n > 1:
				return fmt.Errorf("%s: %d was reported %d times", op.K, x.v, n)
			case n == 1 && op.K == "range" && !x.dead:
				return fmt.Errorf("Range reported the live value %d", x.v)
			case n == 1:
				delete(w.ref, k)
			case !b.fired && (op.K == "clear" || x.dead):
				return fmt.Errorf("%s did not report %d", op.K, x.v)
			case !b.fired && !seen[k]:
				return fmt.Errorf("Range did not visit %d", k)
			case b.fired && (op.K == "clear" || x.dead):
				// cut short: it may be there still, or be gone
				w.b = &bomb{}
				if y, ok := w.c.Load(k); ok != !x.dead && op.K == "range" || ok && y.Value() != x.v {
					return fmt.Errorf("%s failed and left %v for %d, which held %v", op.K, y, k, x)
				} else if !ok {
					delete(w.ref, k)
				}
			}
		}
	}
	return err
}

func (w *scWorld) verify() error {
	w.b = &bomb{}
	n := 0
	var err error
	w.c.Range(func(k int, e *synccache.Entry[int]) bool {
		if x, ok := w.ref[k]; !ok || x.dead || x.v != e.Value() {
			err = fmt.Errorf("holds (%d,%d), want %v", k, e.Value(), x)
		}
		n++
		return true
	})
	if err != nil {
		return err
	}
	for k, x := range w.ref {
		if x.dead { // Range, which may remove it, or this Load
			if _, ok := w.c.Load(k); ok {
				return fmt.Errorf("the expired entry of %d is returned", k)
			}
			delete(w.ref, k)
			if w.reported[x.v] != 1 {
				return fmt.Errorf("the expired entry of %d was reported %d times", k, w.reported[x.v])
			}
		}
	}
	if n != len(w.ref) {
		return fmt.Errorf("%d entries, want %v", n, w.ref)
	}
	for k := 0; k < 5; k++ {
		e, ok := w.c.Load(k)
		if x, has := w.ref[k]; ok != has || ok && e.Value() != x.v {
			return fmt.Errorf("Load(%d): %v, want %v", k, ok, x)
		}
	}
	w.next++
	w.c.Store(1000+w.next, w.next, time.Hour)
	if e, ok := w.c.LoadAndDelete(1000 + w.next); !ok || e.Value() != w.next {
		return fmt.Errorf("a new key cannot be stored and deleted any more")
	}
	return nil
}

func syncFaults() pbt.Checker {
	ks := []string{"load", "los", "delete", "lad", "cvad", "cad", "clear", "range", "range"}
	return prop("synccache-faults", 6000, "the deleted-callback (in every removing operation) and Range; an entry whose report failed is gone and was reported once, everything else is as it was",
		append([]string{"store", "store", "store", "expired", "expired", "expired"}, ks...), only(ks...), newSC)
}

// A refresh cache whose refresh and clear functions fail.
type rcWorld struct {
	get, refresh func(f func(ctx context.Context) (int, error)) (int, error)
	clear        func(f func(ctx context.Context) error) error
	raw          func() (int, error)
	old          any

	val    int
	fresh  bool
	unsure bool // a clear function failed: the value may or may not be cleared
	next   int
	b      *bomb
}

func newRC(mode int) world {
	w := &rcWorld{}
	ctx := context.Background()
	switch mode {
	case 0:
		d := refreshcache0.NewRefreshData[int](-1)
		w.get = func(f func(context.Context) (int, error)) (int, error) { return d.Get(ctx, f) }
		w.refresh = func(f func(context.Context) (int, error)) (int, error) { return d.Refresh(ctx, f) }
		w.clear = func(f func(context.Context) error) error { return d.Clear(ctx, f) }
		w.raw, w.old = d.Raw, refreshcache0.OldValKey
	case 1:
		d := refreshcache1.NewRefreshData[int, int](time.Hour)
		wf := func(f func(context.Context) (int, error)) refreshcache1.RefreshFunc[int, int] {
			return func(ctx context.Context, _ int) (int, error) { return f(ctx) }
		}
		w.get = func(f func(context.Context) (int, error)) (int, error) { return d.Get(ctx, wf(f), 1) }
		w.refresh = func(f func(context.Context) (int, error)) (int, error) { return d.Refresh(ctx, wf(f), 1) }
		w.clear = func(f func(context.Context) error) error {
			return d.Clear(ctx, func(ctx context.Context, _ int) error { return f(ctx) }, 1)
		}
		w.raw, w.old = d.Raw, refreshcache1.OldValKey
	case 2:
		d := refreshcache.NewRefreshData[int, int](-1)
		wf := func(f func(context.Context) (int, error)) refreshcache.RefreshFunc[int, int] {
			return func(ctx context.Context, _ ...int) (int, error) { return f(ctx) }
		}
		w.get = func(f func(context.Context) (int, error)) (int, error) { return d.Get(ctx, wf(f)) }
		w.refresh = func(f func(context.Context) (int, error)) (int, error) { return d.Refresh(ctx, wf(f)) }
		w.clear = func(f func(context.Context) error) error {
			return d.Clear(ctx, func(ctx context.Context, _ ...int) error { return f(ctx) })
		}
		w.raw, w.old = d.Raw, refreshcache.OldValKey
	case 3:
		var fn func(context.Context) (int, error)
		c := refreshcache0.NewRefreshCache[int](func(ctx context.Context) (int, error) { return fn(ctx) }, time.Hour)
		w.get = func(f func(context.Context) (int, error)) (int, error) { fn = f; return c.Get(ctx) }
		w.refresh = func(f func(context.Context) (int, error)) (int, error) { fn = f; return c.Refresh(ctx) }
		w.clear = func(f func(context.Context) error) error { c.SetClearFunc(f); return c.Clear(ctx) }
		w.raw, w.old = c.Raw, refreshcache0.OldValKey
	case 4:
		var fn func(context.Context) (int, error)
		c := refreshcache1.NewRefreshCache[int, int](func(ctx context.Context, _ int) (int, error) { return fn(ctx) }, -1)
		w.get = func(f func(context.Context) (int, error)) (int, error) { fn = f; return c.Get(ctx, 1) }
		w.refresh = func(f func(context.Context) (int, error)) (int, error) { fn = f; return c.Refresh(ctx, 1) }
		w.clear = func(f func(context.Context) error) error {
			c.SetClearFunc(func(ctx context.Context, _ int) error { return f(ctx) })
			return c.Clear(ctx, 1)
		}
		w.raw, w.old = c.Raw, refreshcache1.OldValKey
	default:
		var fn func(context.Context) (int, error)
		c := refreshcache.NewRefreshCache[int, int](func(ctx context.Context, _ ...int) (int, error) { return fn(ctx) }, time.Hour)
		w.get = func(f func(context.Context) (int, error)) (int, error) { fn = f; return c.Get(ctx, 1, 2) }
		w.refresh = func(f func(context.Context) (int, error)) (int, error) { fn = f; return c.Refresh(ctx, 1, 2) }
		w.clear = func(f func(context.Context) error) error {
			c.SetClearFunc(func(ctx context.Context, _ ...int) error { return f(ctx) })
			return c.Clear(ctx)
		}
		w.raw, w.old = c.Raw, refreshcache.OldValKey
	}
	return w
}

var errRefresh = errors.New("refresh failed")

func (w *rcWorld) step(op Op, b *bomb) error {
	w.b = b
	if b.at > 0 {
		b.at = 1
	}
	calls := 0
	var bad error
	sees := func(ctx context.Context) {
		calls++
		if ctx.Value(w.old) != any(w.val) {
			bad = fmt.Errorf("the function sees the old value %v, want %d", ctx.Value(w.old), w.val)
		}
	}
	fails := op.B%4 == 0
	f := func(ctx context.Context) (int, error) {
		sees(ctx)
		b.hit()
		if fails {
			return -7, errRefresh
		}
		return w.next, nil
	}
	switch op.K {
	case "get", "refresh":
		w.next++
		var v int
		var err error
		do := w.get
		if op.K == "refresh" {
			do = w.refresh
		}
		if e := b.run(op.K, func() { v, err = do(f) }); e != nil || bad != nil {
			return errors.Join(e, bad)
		}
		must := op.K == "refresh" || !w.fresh && !w.unsure
		switch {
		case calls > 1 || must && calls == 0 || calls == 1 && !must && !w.unsure:
			return fmt.Errorf("the function was called %d times (value fresh: %v)", calls, w.fresh)
		case calls == 0:
			if v != w.val || err != nil {
				return fmt.Errorf("%d,%v, want the value %d", v, err, w.val)
			}
			w.fresh, w.unsure = true, false
		case b.fired:
			w.fresh, w.unsure = false, false
		case fails:
			w.fresh, w.unsure = false, false
			if !errors.Is(err, errRefresh) {
				return fmt.Errorf("%d,%v instead of the function's error", v, err)
			}
		default:
			w.val, w.fresh, w.unsure = w.next, true, false
			if v != w.next || err != nil {
				return fmt.Errorf("%d,%v, want %d", v, err, w.next)
			}
		}
	case "clear":
		var err error
		if e := b.run("Clear", func() {
			err = w.clear(func(ctx context.Context) error {
				sees(ctx)
				b.hit()
				if fails {
					return errRefresh
				}
				return nil
			})
		}); e != nil || bad != nil {
			return errors.Join(e, bad)
		}
		if calls != 1 {
			return fmt.Errorf("the clear function was called %d times", calls)
		}
		if b.fired || fails {
			w.unsure = w.fresh || w.unsure
			w.fresh = false
		} else {
			w.fresh, w.unsure = false, false
		}
		if !b.fired && fails != errors.Is(err, errRefresh) {
			return fmt.Errorf("Clear returned %v", err)
		}
	}
	return nil
}

func (w *rcWorld) verify() error {
	// a refresh needs the lock
	if err := w.step(Op{K: "refresh", B: 1}, &bomb{}); err != nil {
		return err
	}
	if v, err := w.raw(); v != w.val || err != nil {
		return fmt.Errorf("Raw()=%d,%v, want %d", v, err, w.val)
	}
	return w.step(Op{K: "get", B: 1}, &bomb{})
}

func refreshFaults() pbt.Checker {
	ks := []string{"get", "get", "refresh", "clear"}
	return prop("refreshcache-faults", 4000, "the refresh and clear functions of the three variants; the old value is kept, the next Get refreshes, no lock stays held", ks, only(ks...), newRC)
}
