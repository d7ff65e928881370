package clock

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// rcCase is a history on two caches of the same configuration.
type rcCase struct {
	Variant int    `json:"variant"` // 0: no arguments, 1: one, 2: any number
	Wrapped bool   `json:"wrapped"` // through RefreshCache instead of RefreshData
	Type    string `json:"type"`
	Max     int64  `json:"max"`
	Err     int64  `json:"err"`
	HasErr  bool   `json:"haserr"` // WithErrAge was given
	Ops     []Op   `json:"ops"`
}

type (
	rfn[T any] func(ctx context.Context, args []string) (T, error)
	cfn        func(ctx context.Context, args []string) error
)

// rapi hides the differences between the variants.
type rapi[T any] struct {
	get, refresh      func(ctx context.Context, f rfn[T], args []string) (T, error)
	clear             func(ctx context.Context, f cfn, args []string) error
	raw               func() (T, error)
	last, lastErr     func() int64
	lastT, lastErrT   func() time.Time
	maxAge, maxErrAge func() int64
	oldKey            any
	nargs             func(int) int
}

func newRapi[T any](c rcCase) rapi[T] {
	switch c.Variant {
	case 0:
		return newRapi0[T](c)
	case 1:
		return newRapi1[T](c)
	}
	return newRapiN[T](c)
}

func newRapi0[T any](c rcCase) rapi[T] {
	type (
		F = refreshcache0.RefreshFunc[T]
		C = refreshcache0.ClearFunc[T]
	)
	var opts []refreshcache0.RefreshDataOption[T]
	if c.HasErr {
		opts = append(opts, refreshcache0.WithErrAge[T](time.Duration(c.Err)))
	}
	wf := func(f rfn[T]) F { return func(ctx context.Context) (T, error) { return f(ctx, nil) } }
	wc := func(f cfn) C {
		if f == nil {
			return nil
		}
		return func(ctx context.Context) error { return f(ctx, nil) }
	}
	var d *refreshcache0.RefreshData[T]
	a := rapi[T]{oldKey: refreshcache0.OldValKey, nargs: func(int) int { return 0 }}
	if c.Wrapped {
		r := refreshcache0.NewRefreshCache[T](wf(neverCall[T]), time.Duration(c.Max), opts...)
		d = r.Data()
		a.get = func(ctx context.Context, f rfn[T], _ []string) (T, error) {
			r.SetRefreshFunc(wf(f))
			r.SetRefreshFunc(r.GetRefreshFunc()) // what was set is what is there
			return r.Get(ctx)
		}
		a.refresh = func(ctx context.Context, f rfn[T], _ []string) (T, error) {
			r.SetRefreshFunc(wf(f))
			r.SetRefreshFunc(r.GetRefreshFunc()) // what was set is what is there
			return r.Refresh(ctx)
		}
		first := true
		a.clear = func(ctx context.Context, f cfn, _ []string) error {
			if f != nil || !first {
				r.SetClearFunc(wc(f))
				r.SetClearFunc(r.GetClearFunc())
				first = false
			}
			return r.Clear(ctx)
		}
	} else {
		d = refreshcache0.NewRefreshData[T](time.Duration(c.Max), opts...)
		a.get = func(ctx context.Context, f rfn[T], _ []string) (T, error) { return d.Get(ctx, wf(f)) }
		a.refresh = func(ctx context.Context, f rfn[T], _ []string) (T, error) { return d.Refresh(ctx, wf(f)) }
		a.clear = func(ctx context.Context, f cfn, _ []string) error { return d.Clear(ctx, wc(f)) }
	}
	a.raw, a.last, a.lastErr, a.lastT, a.lastErrT, a.maxAge, a.maxErrAge = d.Raw, d.Last, d.LastErr, d.LastTime, d.LastErrTime, d.MaxAge, d.MaxErrAge
	return a
}

func newRapi1[T any](c rcCase) rapi[T] {
	type (
		F = refreshcache1.RefreshFunc[T, string]
		C = refreshcache1.ClearFunc[T, string]
	)
	var opts []refreshcache1.RefreshDataOption[T, string]
	if c.HasErr {
		opts = append(opts, refreshcache1.WithErrAge[T, string](time.Duration(c.Err)))
	}
	wf := func(f rfn[T]) F {
		return func(ctx context.Context, s string) (T, error) { return f(ctx, []string{s}) }
	}
	wc := func(f cfn) C {
		if f == nil {
			return nil
		}
		return func(ctx context.Context, s string) error { return f(ctx, []string{s}) }
	}
	var d *refreshcache1.RefreshData[T, string]
	a := rapi[T]{oldKey: refreshcache1.OldValKey, nargs: func(int) int { return 1 }}
	if c.Wrapped {
		r := refreshcache1.NewRefreshCache[T, string](wf(neverCall[T]), time.Duration(c.Max), opts...)
		d = r.Data()
		a.get = func(ctx context.Context, f rfn[T], s []string) (T, error) {
			r.SetRefreshFunc(wf(f))
			r.SetRefreshFunc(r.GetRefreshFunc()) // what was set is what is there
			return r.Get(ctx, s[0])
		}
		a.refresh = func(ctx context.Context, f rfn[T], s []string) (T, error) {
			r.SetRefreshFunc(wf(f))
			r.SetRefreshFunc(r.GetRefreshFunc()) // what was set is what is there
			return r.Refresh(ctx, s[0])
		}
		first := true
		a.clear = func(ctx context.Context, f cfn, s []string) error {
			if f != nil || !first {
				r.SetClearFunc(wc(f))
				r.SetClearFunc(r.GetClearFunc())
				first = false
			}
			return r.Clear(ctx, s[0])
		}
	} else {
		d = refreshcache1.NewRefreshData[T, string](time.Duration(c.Max), opts...)
		a.get = func(ctx context.Context, f rfn[T], s []string) (T, error) { return d.Get(ctx, wf(f), s[0]) }
		a.refresh = func(ctx context.Context, f rfn[T], s []string) (T, error) { return d.Refresh(ctx, wf(f), s[0]) }
		a.clear = func(ctx context.Context, f cfn, s []string) error { return d.Clear(ctx, wc(f), s[0]) }
	}
	a.raw, a.last, a.lastErr, a.lastT, a.lastErrT, a.maxAge, a.maxErrAge = d.Raw, d.Last, d.LastErr, d.LastTime, d.LastErrTime, d.MaxAge, d.MaxErrAge
	return a
}

func newRapiN[T any](c rcCase) rapi[T] {
	type (
		F = refreshcache.RefreshFunc[T, string]
		C = refreshcache.ClearFunc[T, string]
	)
	var opts []refreshcache.RefreshDataOption[T, string]
	if c.HasErr {
		opts = append(opts, refreshcache.WithErrAge[T, string](time.Duration(c.Err)))
	}
	wf := func(f rfn[T]) F {
		return func(ctx context.Context, s ...string) (T, error) { return f(ctx, s) }
	}
	wc := func(f cfn) C {
		if f == nil {
			return nil
		}
		return func(ctx context.Context, s ...string) error { return f(ctx, s) }
	}
	var d *refreshcache.RefreshData[T, string]
	a := rapi[T]{oldKey: refreshcache.OldValKey, nargs: func(n int) int { return n % 4 }}
	if c.Wrapped {
		r := refreshcache.NewRefreshCache[T, string](wf(neverCall[T]), time.Duration(c.Max), opts...)
		d = r.Data()
		a.get = func(ctx context.Context, f rfn[T], s []string) (T, error) {
			r.SetRefreshFunc(wf(f))
			r.SetRefreshFunc(r.GetRefreshFunc()) // what was set is what is there
			return r.Get(ctx, s...)
		}
		a.refresh = func(ctx context.Context, f rfn[T], s []string) (T, error) {
			r.SetRefreshFunc(wf(f))
			r.SetRefreshFunc(r.GetRefreshFunc()) // what was set is what is there
			return r.Refresh(ctx, s...)
		}
		first := true
		a.clear = func(ctx context.Context, f cfn, s []string) error {
			if f != nil || !first {
				r.SetClearFunc(wc(f))
				r.SetClearFunc(r.GetClearFunc())
				first = false
			}
			return r.Clear(ctx, s...)
		}
	} else {
		d = refreshcache.NewRefreshData[T, string](time.Duration(c.Max), opts...)
		a.get = func(ctx context.Context, f rfn[T], s []string) (T, error) { return d.Get(ctx, wf(f), s...) }
		a.refresh = func(ctx context.Context, f rfn[T], s []string) (T, error) { return d.Refresh(ctx, wf(f), s...) }
		a.clear = func(ctx context.Context, f cfn, s []string) error { return d.Clear(ctx, wc(f), s...) }
	}
	a.raw, a.last, a.lastErr, a.lastT, a.lastErrT, a.maxAge, a.maxErrAge = d.Raw, d.Last, d.LastErr, d.LastTime, d.LastErrTime, d.MaxAge, d.MaxErrAge
	return a
}

func neverCall[T any](context.Context, []string) (t T, err error) {
	panic("a function that was replaced was called")
}

// span2 is an instant known to lie between two others (the same, unless a function slept).
type span2 struct{ from, to time.Time }

func (s span2) holds(nanos int64) bool { return nanos >= s.from.UnixNano() && nanos <= s.to.UnixNano() }

// rcModel is what one cache should know.
type rcModel[T any] struct {
	val      T
	ever     bool // there was a success
	fresh    bool // there was a success and no Clear or failure since
	cleared  bool // the last thing that happened to the state is Clear
	panicked bool // likewise a panic
	at       span2
	err      error // of the last failure, if no success since
	errAt    span2
}

type rcWorld[T any] struct {
	c      rcCase
	m      [2]rcModel[T]
	a      [2]rapi[T]
	mk     func(int) T
	n      int
	cancel int
	st     struct{ hit, miss, expired, cachedErr, errRetry, fail, panics int }
}

type (
	ctxKey  struct{}
	rcError struct{ n int }
	rcBoom  struct{ n int }
)

func (e *rcError) Error() string { return fmt.Sprint("error ", e.n) }

func same[T any](a, b T) bool { return reflect.DeepEqual(a, b) }

// younger: is something that happened at s less than age old now? (yes, maybe)
func younger(s span2, age int64) (sure, maybe bool) {
	now := time.Now().UnixNano()
	return now-s.from.UnixNano() < age, now-s.to.UnixNano() < age
}

// served: may Get return the stored value without a call?
func (w *rcWorld[T]) served(m *rcModel[T]) (sure, maybe bool) {
	if !m.fresh {
		return false, false
	}
	if w.c.Max < 0 {
		return true, true
	}
	return younger(m.at, w.c.Max)
}

func (w *rcWorld[T]) errAge() int64 {
	if w.c.HasErr {
		return w.c.Err
	}
	return 0
}

// repeated: may Get return the stored error without a call?
func (w *rcWorld[T]) repeated(m *rcModel[T]) (sure, maybe bool) {
	if m.err == nil {
		return false, false
	}
	sure, maybe = younger(m.errAt, w.errAge())
	if m.cleared || m.panicked {
		sure = false // not specified
	}
	return sure, maybe
}

type call[T any] struct {
	n          int
	start, end time.Time
	val        T
	err        error
	boom       *rcBoom
	bad        error
}

func (w *rcWorld[T]) ctx(op Op) (context.Context, int) {
	w.n++
	ctx := context.WithValue(context.Background(), ctxKey{}, w.n)
	if op.C%5 == 0 {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
		w.cancel++
	}
	return ctx, w.n
}

func (w *rcWorld[T]) args(ci int, op Op) []string {
	var s []string
	for i := w.a[ci].nargs(op.B + op.C); i > 0; i-- {
		s = append(s, fmt.Sprint("arg", w.n, "-", i))
	}
	return s
}

// seen checks what a refresh or clear function was given.
func (w *rcWorld[T]) seen(ci int, want, ctx context.Context, id int, wantArgs, args []string) error {
	m := &w.m[ci]
	if got := ctx.Value(ctxKey{}); got != id {
		return fmt.Errorf("the context given to the function carries %v, want the caller's %d", got, id)
	}
	if (ctx.Err() == nil) != (want.Err() == nil) || ctx.Done() != want.Done() {
		return errors.New("the context given to the function is not cancelled with the caller's")
	}
	if len(args) != len(wantArgs) || len(args) > 0 && !reflect.DeepEqual(args, wantArgs) {
		return fmt.Errorf("the function got arguments %q, want %q", args, wantArgs)
	}
	old := ctx.Value(w.a[ci].oldKey)
	if !m.ever && old == nil {
		return nil
	}
	if !reflect.DeepEqual(old, any(m.val)) {
		return fmt.Errorf("the function sees the old value %#v, want the last good one %#v", old, m.val)
	}
	return nil
}

func (w *rcWorld[T]) fn(ci int, op Op, cl *call[T], want context.Context, id int, wantArgs []string) rfn[T] {
	return func(ctx context.Context, args []string) (T, error) {
		cl.n++
		if cl.n > 1 {
			cl.bad = errors.New("one call of Get or Refresh calls the function twice")
		}
		if err := w.seen(ci, want, ctx, id, wantArgs, args); err != nil && cl.bad == nil {
			cl.bad = err
		}
		cl.start = time.Now()
		if op.C%4 == 1 {
			time.Sleep(span(op.C / 4 * 3))
		}
		cl.end = time.Now()
		cl.val = w.mk(id)
		switch outcome(op) {
		case "err":
			cl.err = &rcError{id}
		case "wrapped":
			cl.err = fmt.Errorf("%d: %w", id, context.Canceled)
		case "panic":
			cl.boom = &rcBoom{id}
			panic(cl.boom)
		case "zero":
			var z T
			cl.val = z
		case "old":
			if v, ok := ctx.Value(w.a[ci].oldKey).(T); ok {
				cl.val = v
			}
		}
		return cl.val, cl.err
	}
}

// outcome of the refresh function: part of the case, by op.K's suffix.
func outcome(op Op) string {
	for i := 0; i < len(op.K); i++ {
		if op.K[i] == ':' {
			return op.K[i+1:]
		}
	}
	return "ok"
}

func opName(op Op) string {
	for i := 0; i < len(op.K); i++ {
		if op.K[i] == ':' {
			return op.K[:i]
		}
	}
	return op.K
}

func (w *rcWorld[T]) absorb(m *rcModel[T], cl *call[T]) {
	m.cleared, m.panicked = false, false
	at := span2{cl.start, cl.end}
	switch {
	case cl.boom != nil:
		m.fresh = false
		m.panicked = true
	case cl.err != nil:
		m.fresh = false
		m.err, m.errAt = cl.err, at
	default:
		m.val, m.ever, m.fresh, m.at, m.err = cl.val, true, true, at, nil
	}
}

func (w *rcWorld[T]) step(op Op) error {
	ci := op.A & 1
	m, a := &w.m[ci], &w.a[ci]
	switch opName(op) {
	case "get", "refresh":
		name, f := "Get", a.get
		if opName(op) == "refresh" {
			name, f = "Refresh", a.refresh
		}
		ctx, id := w.ctx(op)
		args := w.args(ci, op)
		var cl call[T]
		sure, maybe := w.served(m)
		esure, emaybe := w.repeated(m)
		if name == "Refresh" {
			sure, maybe, esure, emaybe = false, false, false, false
		}
		var got T
		var err error
		boom := func() (x any) {
			defer func() { x = recover() }()
			got, err = f(ctx, w.fn(ci, op, &cl, ctx, id, args), args)
			return nil
		}()
		if cl.bad != nil {
			return cl.bad
		}
		if cl.n == 0 {
			if boom != nil {
				return fmt.Errorf("%s panicked: %v", name, boom)
			}
			switch {
			case err != nil:
				if !emaybe {
					return fmt.Errorf("%s returned error %v without calling the function", name, err)
				}
				if err != m.err {
					return fmt.Errorf("%s returned error %v, want the error of the last refresh, %v", name, err, m.err)
				}
				w.st.cachedErr++
			case !maybe:
				return fmt.Errorf("%s returned %#v without calling the function%s", name, got, w.why(m))
			case !same(got, m.val):
				return fmt.Errorf("%s returned %#v, want the stored value %#v", name, got, m.val)
			default:
				w.st.hit++
			}
			return nil
		}
		if sure {
			return fmt.Errorf("%s called the function although the stored value %#v is fresh%s", name, m.val, w.why(m))
		}
		if esure {
			return fmt.Errorf("%s called the function although the last refresh failed less than %v ago%s", name, time.Duration(w.errAge()), w.why(m))
		}
		w.st.miss++
		if m.ever && m.fresh && name == "Get" {
			w.st.expired++
		}
		if m.err != nil && name == "Get" {
			w.st.errRetry++
		}
		switch {
		case cl.boom != nil:
			w.st.panics++
			if boom == nil && err == nil {
				return fmt.Errorf("%s returned %#v and no error although the function panicked", name, got)
			}
			if boom != nil && boom != any(cl.boom) {
				return fmt.Errorf("%s panicked with %v, the function panicked with %v", name, boom, cl.boom)
			}
		case boom != nil:
			return fmt.Errorf("%s panicked: %v", name, boom)
		case err != cl.err:
			return fmt.Errorf("%s returned error %v, the function returned %v", name, err, cl.err)
		case !same(got, cl.val):
			return fmt.Errorf("%s returned %#v, the function returned %#v", name, got, cl.val)
		}
		if cl.err != nil {
			w.st.fail++
		}
		w.absorb(m, &cl)
	case "clear":
		ctx, id := w.ctx(op)
		args := w.args(ci, op)
		n := 0
		var bad, ret error
		var f cfn
		if op.B%4 > 0 {
			f = func(ctx2 context.Context, args2 []string) error {
				n++
				bad = w.seen(ci, ctx, ctx2, id, args, args2)
				return ret
			}
			if op.B%4 == 1 {
				ret = &rcError{id}
			}
		}
		err := a.clear(ctx, f, args)
		if bad != nil {
			return bad
		}
		if f != nil && n != 1 {
			return fmt.Errorf("Clear called the clear function %d times", n)
		}
		if err != ret {
			return fmt.Errorf("Clear returned %v, the clear function returned %v", err, ret)
		}
		m.fresh, m.cleared = false, true
	case "raw":
		got, err := a.raw()
		sure, _ := w.served(m)
		switch {
		case m.err == nil && err != nil:
			return fmt.Errorf("Raw reports error %v; the last refresh succeeded or there was none%s", err, w.why(m))
		case m.err == nil:
			if !same(got, m.val) {
				return fmt.Errorf("Raw returned %#v, want the stored value %#v", got, m.val)
			}
		case m.err != nil && err != nil && err != m.err:
			return fmt.Errorf("Raw reports error %v, want the last one, %v", err, m.err)
		case m.err != nil && err == nil && !m.cleared && !m.panicked:
			return fmt.Errorf("Raw reports no error, the last refresh failed with %v", m.err)
		}
		var zero T
		if err != nil && !same(got, m.val) && !same(got, zero) {
			return fmt.Errorf("Raw returned %#v with the error; the last good value is %#v", got, m.val)
		}
		if sure && (err != nil || !same(got, m.val)) {
			return fmt.Errorf("Raw returned %#v, %v; want the fresh value %#v", got, err, m.val)
		}
	case "last":
		switch last := a.last(); {
		case m.fresh && !m.at.holds(last):
			return fmt.Errorf("Last()=%d, the last refresh succeeded at %d", last, m.at.to.UnixNano())
		case m.fresh && !a.lastT().Equal(time.Unix(0, last)):
			return fmt.Errorf("LastTime()=%v, Last()=%d", a.lastT(), last)
		case (!m.ever || m.cleared) && last != 0:
			return fmt.Errorf("Last()=%d of a cache that was never filled or cleared", last)
		}
		switch last := a.lastErr(); {
		case m.err == nil && last != 0:
			return fmt.Errorf("LastErr()=%d; the last refresh succeeded or there was none", last)
		case m.err != nil && !m.cleared && !m.panicked && !m.errAt.holds(last):
			return fmt.Errorf("LastErr()=%d, the last refresh failed at %d", last, m.errAt.to.UnixNano())
		case m.err != nil && !m.cleared && !m.panicked && !a.lastErrT().Equal(time.Unix(0, last)):
			return fmt.Errorf("LastErrTime()=%v, LastErr()=%d", a.lastErrT(), last)
		}
		if a.maxAge() != w.c.Max || a.maxErrAge() != w.errAge() {
			return fmt.Errorf("MaxAge()=%d and MaxErrAge()=%d, want %d and %d", a.maxAge(), a.maxErrAge(), w.c.Max, w.errAge())
		}
	case "wait":
		time.Sleep(span(op.C))
	case "edge": // to just before, at, or just after the end of an age
		var end time.Time
		if m.err != nil && w.errAge() > 0 {
			end = m.errAt.to.Add(time.Duration(w.errAge()))
		} else if m.fresh && w.c.Max > 0 {
			end = m.at.to.Add(time.Duration(w.c.Max))
		} else {
			return nil
		}
		if d := time.Until(end) + time.Duration(op.B%3-1); d > 0 && d < 100*time.Hour {
			time.Sleep(d)
		}
	default:
		panic("unknown op " + op.K)
	}
	return nil
}

func (w *rcWorld[T]) why(m *rcModel[T]) string {
	s := fmt.Sprintf(" (max age %v, error age %v", time.Duration(w.c.Max), time.Duration(w.errAge()))
	if m.fresh {
		s += fmt.Sprintf("; refreshed %v ago", time.Since(m.at.to))
	} else if m.ever {
		s += "; cleared or failed since the last refresh"
	} else {
		s += "; never refreshed"
	}
	if m.err != nil {
		s += fmt.Sprintf("; failed %v ago", time.Since(m.errAt.to))
	}
	return s + ")"
}

func runRC[T any](c rcCase, mk func(int) T, r *pbt.Rec) error {
	w := &rcWorld[T]{c: c, mk: mk}
	for i := range w.a {
		w.a[i] = newRapi[T](c)
	}
	for i, op := range c.Ops {
		if err := w.step(op); err != nil {
			return fmt.Errorf("op %d %v: %w", i, op, err)
		}
	}
	r.NonTrivial = w.st.hit > 0 && w.st.miss > 1 || w.st.cachedErr > 0
	r.LabelIf(w.st.hit > 0, "served from the cache")
	r.LabelIf(w.st.expired > 0, "refreshed because too old")
	r.LabelIf(w.st.cachedErr > 0, "error repeated from the cache")
	r.LabelIf(w.st.errRetry > 0, "refreshed after an error")
	r.LabelIf(w.st.panics > 0, "refresh panicked")
	// both caches still work
	for i := range w.a {
		for _, k := range []string{"raw", "last", "refresh:ok", "raw", "last", "get:ok", "clear", "get:ok", "last"} {
			if err := w.step(Op{K: k, A: i, B: 2, C: 2}); err != nil {
				return fmt.Errorf("at the end, %s on cache %d: %w", k, i, err)
			}
		}
	}
	r.LabelIf(w.cancel > 0, "cancelled context")
	return nil
}

func runRCType(c rcCase, r *pbt.Rec) error {
	switch c.Type {
	case "string":
		return runRC(c, func(i int) string { return fmt.Sprint(i) }, r)
	case "any":
		return runRC(c, func(i int) any {
			if i%5 == 0 {
				return nil
			}
			return i
		}, r)
	case "slice":
		return runRC(c, func(i int) []int {
			if i%5 == 0 {
				return nil
			}
			return []int{i, i + 1}
		}, r)
	case "ptr":
		return runRC(c, func(i int) *int { return &i }, r)
	case "struct":
		return runRC(c, func(i int) struct {
			A int32
			B string
			C float64
		} {
			return struct {
				A int32
				B string
				C float64
			}{int32(i), fmt.Sprint(i), 0.5}
		}, r)
	case "bool":
		return runRC(c, func(i int) bool { return i%2 > 0 }, r)
	}
	return runRC(c, func(i int) int { return i }, r)
}

var (
	rcTypes = []string{"int", "int", "int", "string", "any", "slice", "ptr", "struct", "bool"}
	rcMax   = []int64{-1, 0, 1, int64(ms), int64(time.Second), int64(time.Second), int64(5 * time.Second), int64(time.Hour), math.MaxInt64, math.MinInt64, math.MaxInt64 / 2}
	rcErr   = []int64{0, -1, 1, int64(ms), int64(time.Second), int64(time.Second), int64(5 * time.Second), int64(time.Hour), math.MaxInt64}
)

func genRC(errAges bool, kinds []string) func(t *rapid.T) rcCase {
	return func(t *rapid.T) rcCase {
		c := rcCase{Variant: pick(t, "variant", 3), Wrapped: rapid.Bool().Draw(t, "wrapped"), Type: rapid.SampledFrom(rcTypes).Draw(t, "type"),
			Max: rapid.SampledFrom(rcMax).Draw(t, "max")}
		if errAges {
			if c.HasErr = pick(t, "haserr", 4) > 0; c.HasErr {
				c.Err = rapid.SampledFrom(rcErr).Draw(t, "err")
			}
		} else {
			c.HasErr = rapid.Bool().Draw(t, "haserr")
		}
		c.Ops = genOps(t, 1, 30, kinds)
		return c
	}
}

const rcRule = "histories of up to 30 calls on two caches of each variant (with RefreshData or RefreshCache, 7 value types, maximum ages from negative to 292 years) with waits and waits to within 1 ns of an age's end, under a fake clock, refresh functions that may take time; oracle: a model of stored value, time and error; "

func RefreshCacheAge() pbt.Checker {
	return pbt.Prop[rcCase]{
		Name: "refreshcache-age", Quick: 100000, Rule: rcRule + "failures only without an error age; non-trivial: a Get served from the cache and two refreshes",
		Gen: genRC(false, []string{"get", "get", "get", "get", "get:zero", "get:old", "get:err", "refresh", "refresh", "refresh:zero", "refresh:err", "clear", "clear", "raw", "last", "wait", "wait", "edge", "edge"}),
		Run: runRCType,
	}
}

func RefreshCacheErrors() pbt.Checker {
	return pbt.Prop[rcCase]{
		Name: "refreshcache-errors", Quick: 100000, Rule: rcRule + "succeeding, failing and panicking refreshes, error ages from negative to 292 years; non-trivial: a Get served from the cache and two refreshes, or an error repeated from the cache",
		Gen: genRC(true, []string{"get", "get", "get", "get:err", "get:err", "get:wrapped", "get:panic", "get:zero", "refresh", "refresh:err", "refresh:wrapped", "refresh:panic", "clear", "raw", "raw", "last", "wait", "wait", "edge", "edge"}),
		Run: runRCType,
	}
}

func TestC10(t *testing.T) {
	bubble(t, func(t *testing.T) { pbt.Main(t, "C10", RefreshCacheAge()) })
}

func TestC11(t *testing.T) {
	bubble(t, func(t *testing.T) { pbt.Main(t, "C11", RefreshCacheErrors()) })
}
