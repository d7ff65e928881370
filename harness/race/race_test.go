// Package race runs generated concurrent programs on the concurrent containers in a
// build with the race detector (which includes Go's pointer checks). The oracle is the
// detector, plus the contents of what is read. Nothing here synchronises the threads
// with each other once they have started, so every ordering comes from the containers.
package race

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Op is one generated operation.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
}

// Prog is a program; Kind selects the type parameters or the variant.
type Prog struct {
	Kind    string `json:"kind"`
	Conf    int    `json:"conf,omitempty"`
	Setup   []Op   `json:"setup"`
	Threads [][]Op `json:"threads"`
}

// payload is written before it is stored and read after it is found, without any
// synchronisation of its own.
type payload struct {
	a, b int
	s    []int
}

var errTorn = errors.New("a value read from the container is not as it was written")

//go:noinline
func writePayload(n int) *payload {
	p := &payload{}
	p.a = n
	p.s = []int{n, n}
	p.b = n
	return p
}

//go:noinline
func readPayload(p *payload) error {
	if p == nil {
		return nil
	}
	if p.a != p.b || len(p.s) != 2 || p.s[0] != p.a || p.s[1] != p.a {
		return errTorn
	}
	return nil
}

// changePayload is for an owner.
//
//go:noinline
func changePayload(p *payload, n int) {
	p.a, p.b = n, n
	p.s = []int{n, n}
}

// runThreads starts the threads together and returns the first error of each.
func runThreads(n int, f func(th int) error) error {
	errs := make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = fmt.Errorf("unexpected panic: %v\n%s", x, debug.Stack())
				}
			}()
			<-start
			errs[i] = f(i)
		}()
	}
	close(start)
	wg.Wait()
	return errors.Join(errs...)
}

// ---- rwmap ----

type big struct {
	a, b, c, d int
	p          *payload
}

type mapKind[K comparable, V any] struct {
	keys       []K
	mk         func(n int) V
	read       func(V) error
	comparable bool
}

func runMap[K comparable, V any](p Prog, k mapKind[K, V]) error {
	m := &rwmap.RWMap[K, V]{}
	n := len(p.Threads)
	counters := make([]int, n+1)
	do := func(th int, op Op, last map[int]V) error {
		counters[th]++
		id := th*1000 + counters[th]
		ki := op.A % len(k.keys)
		key := k.keys[ki]
		chk := func(v V, ok bool) error {
			if !ok {
				return nil
			}
			last[ki] = v
			return k.read(v)
		}
		old, has := last[ki]
		switch op.K {
		case "load":
			return chk(m.Load(key))
		case "store":
			m.Store(key, k.mk(id))
		case "los":
			v, _ := m.LoadOrStore(key, k.mk(id))
			return chk(v, true)
		case "lad":
			return chk(m.LoadAndDelete(key))
		case "del":
			m.Delete(key)
		case "swap":
			return chk(m.Swap(key, k.mk(id)))
		case "cas":
			if k.comparable && has {
				m.CompareAndSwap(key, old, k.mk(id))
			}
		case "cad":
			if k.comparable && has {
				m.CompareAndDelete(key, old)
			}
		case "clear":
			m.Clear()
		case "len":
			if m.Len() < math.MinInt32 {
				return errTorn
			}
		case "slow":
			m.SlowLen()
		case "range":
			var err error
			m.Range(func(kk K, v V) bool {
				err = k.read(v)
				if op.B%3 == 0 {
					m.Delete(kk)
				}
				return err == nil && op.B%5 > 0
			})
			return err
		}
		return nil
	}
	last := map[int]V{}
	for _, op := range p.Setup {
		if err := do(n, op, last); err != nil {
			return err
		}
	}
	if err := runThreads(n, func(th int) error {
		last := map[int]V{}
		for i, op := range p.Threads[th] {
			if err := do(th, op, last); err != nil {
				return fmt.Errorf("T%d op %d %s: %w", th, i, op.K, err)
			}
		}
		return nil
	}); err != nil {
		return err
	}
	var err error
	m.Range(func(_ K, v V) bool { err = k.read(v); return err == nil })
	return err
}

func plain[V any](V) error { return nil }

var ints = []int{0, 1, 2, 3}

var mapKinds = []string{"ptr", "ptr", "big", "any", "iface", "int", "string", "bool", "empty", "array", "slice", "func", "map", "bigkey", "chan", "handoff", "handoff"}

func runMapKind(p Prog) error {
	switch p.Kind {
	case "ptr":
		return runMap(p, mapKind[int, *payload]{ints, writePayload, readPayload, true})
	case "big":
		return runMap(p, mapKind[string, big]{[]string{"", "a", "b"}, func(n int) big { return big{n, n, n, n, writePayload(n)} }, func(v big) error {
			if v.a != v.b || v.b != v.c || v.c != v.d || v.d != v.p.a {
				return errTorn
			}
			return readPayload(v.p)
		}, true})
	case "any":
		return runMap(p, mapKind[any, any]{[]any{0, "0", nil, 1.5, [2]int{}}, func(n int) any {
			switch n % 3 {
			case 0:
				return [3]int{n, n, n}
			case 1:
				return nil
			}
			return writePayload(n)
		}, func(v any) error {
			switch v := v.(type) {
			case *payload:
				return readPayload(v)
			case [3]int:
				if v[0] != v[1] || v[1] != v[2] {
					return errTorn
				}
			}
			return nil
		}, true})
	case "iface":
		return runMap(p, mapKind[int8, error]{[]int8{0, 1, -1}, func(n int) error { return &perr{writePayload(n)} }, func(e error) error {
			var pe *perr
			if errors.As(e, &pe) {
				return readPayload(pe.p)
			}
			return nil
		}, true})
	case "string":
		return runMap(p, mapKind[int, string]{ints, func(n int) string { return fmt.Sprint(n, "/", n) }, func(s string) error {
			var a, b int
			if _, err := fmt.Sscanf(s, "%d/%d", &a, &b); err != nil || a != b {
				return errTorn
			}
			return nil
		}, true})
	case "bool":
		return runMap(p, mapKind[bool, bool]{[]bool{false, true}, func(n int) bool { return n%2 > 0 }, plain, true})
	case "empty":
		return runMap(p, mapKind[struct{ a, b int8 }, struct{}]{[]struct{ a, b int8 }{{}, {1, 2}}, func(int) (v struct{}) { return }, plain, true})
	case "array":
		return runMap(p, mapKind[int, [9]int16]{ints, func(n int) (v [9]int16) {
			for i := range v {
				v[i] = int16(n)
			}
			return
		}, func(v [9]int16) error {
			for _, x := range v {
				if x != v[0] {
					return errTorn
				}
			}
			return nil
		}, true})
	case "slice":
		return runMap(p, mapKind[int, []int]{ints, func(n int) []int { return []int{n, n} }, func(v []int) error {
			if len(v) != 2 || v[0] != v[1] {
				return errTorn
			}
			return nil
		}, false})
	case "func":
		return runMap(p, mapKind[int, func() int]{ints, func(n int) func() int { q := writePayload(n); return func() int { return q.a } }, func(f func() int) error { f(); return nil }, false})
	case "map":
		return runMap(p, mapKind[int, map[int]int]{ints, func(n int) map[int]int { return map[int]int{1: n, 2: n} }, func(m map[int]int) error {
			if m[1] != m[2] {
				return errTorn
			}
			return nil
		}, false})
	case "bigkey":
		type key struct {
			s string
			n [5]int
			a any
		}
		return runMap(p, mapKind[key, *payload]{[]key{{}, {s: "x"}, {n: [5]int{1}}, {a: 1}}, writePayload, readPayload, true})
	case "chan":
		return runMap(p, mapKind[int, chan int]{ints, func(n int) chan int { return make(chan int) }, plain, true})
	case "handoff":
		return runHandoff(p)
	}
	return runMap(p, mapKind[int, int]{ints, func(n int) int { return n }, plain, true})
}

type perr struct{ p *payload }

func (e *perr) Error() string { return "error" }

// runHandoff: whoever takes a value out owns it and writes to it; nobody else looks.
func runHandoff(p Prog) error {
	m := &rwmap.RWMap[int, *payload]{}
	n := len(p.Threads)
	counters := make([]int, n+1)
	do := func(th int, op Op) {
		counters[th]++
		id := th*1000 + counters[th]
		key := op.A % 4
		var got *payload
		switch op.K {
		case "load", "store", "los", "cas":
			m.LoadOrStore(key, writePayload(id))
		case "swap", "slow":
			got, _ = m.Swap(key, writePayload(id))
		case "lad", "del", "cad", "range":
			got, _ = m.LoadAndDelete(key)
		case "clear":
			if op.B%4 == 0 {
				m.Clear()
			}
		case "len":
			m.Len()
		}
		if got != nil {
			changePayload(got, -id)
			if op.B%2 == 0 {
				m.Store(key, got) // what it replaces is nobody's any more
			}
		}
	}
	for _, op := range p.Setup {
		do(n, op)
	}
	if err := runThreads(n, func(th int) error {
		for _, op := range p.Threads[th] {
			do(th, op)
		}
		return nil
	}); err != nil {
		return err
	}
	var err error
	m.Range(func(_ int, v *payload) bool { err = readPayload(v); return err == nil })
	return err
}

// ---- synccache ----

var scTTL = []time.Duration{0, -time.Second, time.Second, 4999 * time.Millisecond, 5 * time.Second, time.Hour, math.MaxInt64}

func runCache[V any](p Prog, mk func(int) V, read func(V) error, comparable bool) error {
	var opts []synccache.SyncCacheConfig[int, V]
	var cbErr chan error
	if p.Conf%3 > 0 {
		cbErr = make(chan error, 1)
		opts = append(opts, synccache.WithDeletedCallback[int, V](func(v V) {
			if err := read(v); err != nil {
				select {
				case cbErr <- err:
				default:
				}
			}
		}))
	}
	c := synccache.NewSyncCache[int, V](time.Second, opts...)
	defer c.Close()
	n := len(p.Threads)
	counters := make([]int, n+1)
	type mem struct {
		last map[int]*synccache.Entry[V]
	}
	do := func(th int, op Op, m *mem) error {
		counters[th]++
		id := th*1000 + counters[th]
		key := op.A % 4
		ttl := scTTL[op.B%len(scTTL)]
		chk := func(e *synccache.Entry[V], ok bool) error {
			if !ok {
				return nil
			}
			m.last[key] = e
			return read(e.Value())
		}
		h := m.last[key]
		switch op.K {
		case "store":
			c.Store(key, mk(id), ttl)
		case "load":
			return chk(c.Load(key))
		case "los":
			e, _ := c.LoadOrStore(key, mk(id), ttl)
			return chk(e, true)
		case "lad":
			return chk(c.LoadAndDelete(key))
		case "del":
			c.Delete(key)
		case "cad":
			if h != nil {
				c.CompareAndDelete(key, h)
			}
		case "cvad":
			if h != nil && comparable {
				c.CompareValueAndDelete(key, h.Value())
			}
		case "clear":
			c.Clear()
		case "range":
			var err error
			c.Range(func(_ int, e *synccache.Entry[V]) bool { err = read(e.Value()); return err == nil && op.B%5 > 0 })
			return err
		case "set":
			if h != nil {
				h.SetExpiration(time.Now().Add(ttl / 2))
			}
		case "add":
			if h != nil {
				h.AddExpiration(time.Second)
			}
		case "exp":
			if h != nil {
				h.IsExpired()
			}
		case "start":
			c.Start()
		case "close":
			c.Close()
		case "sleep":
			time.Sleep([]time.Duration{time.Millisecond, time.Second, 5 * time.Second}[op.B%3])
		}
		return nil
	}
	m := &mem{map[int]*synccache.Entry[V]{}}
	for _, op := range p.Setup {
		if err := do(n, op, m); err != nil {
			return err
		}
	}
	setup := m.last
	err := runThreads(n, func(th int) error {
		m := &mem{map[int]*synccache.Entry[V]{}}
		for k, e := range setup {
			m.last[k] = e // all threads hold the same handles
		}
		for i, op := range p.Threads[th] {
			if err := do(th, op, m); err != nil {
				return fmt.Errorf("T%d op %d %s: %w", th, i, op.K, err)
			}
		}
		return nil
	})
	synctest.Wait()
	if err == nil && cbErr != nil {
		select {
		case err = <-cbErr:
		default:
		}
	}
	return err
}

var cacheKinds = []string{"ptr", "ptr", "big", "int", "string", "slice"}

func runCacheKind(p Prog) error {
	switch p.Kind {
	case "big":
		return runCache(p, func(n int) big { return big{n, n, n, n, writePayload(n)} }, func(v big) error {
			if v.a != v.d || v.a != v.p.a {
				return errTorn
			}
			return readPayload(v.p)
		}, true)
	case "int":
		return runCache(p, func(n int) int { return n }, plain, true)
	case "string":
		return runCache(p, func(n int) string { return fmt.Sprint(n) }, plain, true)
	case "slice":
		return runCache(p, func(n int) []int { return []int{n, n} }, func(v []int) error {
			if len(v) != 2 || v[0] != v[1] {
				return errTorn
			}
			return nil
		}, false)
	}
	return runCache(p, writePayload, readPayload, true)
}

// ---- refresh caches ----

type rfn[T any] func(ctx context.Context) (T, error)

type rapi[T any] struct {
	get, refresh func(f rfn[T]) (T, error)
	clear        func(f func(ctx context.Context) error) error
	raw          func() (T, error)
	misc         func(n int)
	oldKey       any
}

var rcAges = []struct{ max, err time.Duration }{{time.Hour, 0}, {-1, time.Hour}, {0, 0}, {0, time.Hour}, {time.Second, time.Second}, {time.Millisecond, 0}, {math.MaxInt64, math.MaxInt64}}

func newRapi[T any](conf int) rapi[T] {
	bg := context.Background()
	age := rcAges[conf/6%len(rcAges)]
	wrapped := conf/3%2 > 0
	switch conf % 3 {
	case 0:
		type D = refreshcache0.RefreshData[T]
		wf := func(f rfn[T]) refreshcache0.RefreshFunc[T] {
			return func(ctx context.Context) (T, error) { return f(ctx) }
		}
		wc := func(f func(context.Context) error) refreshcache0.ClearFunc[T] {
			return func(ctx context.Context) error { return f(ctx) }
		}
		var d *D
		a := rapi[T]{oldKey: refreshcache0.OldValKey}
		var set func(int)
		if wrapped {
			r := refreshcache0.NewRefreshCache[T](nil, age.max, refreshcache0.WithErrAge[T](age.err))
			d = r.Data()
			a.get = func(f rfn[T]) (T, error) { r.SetRefreshFunc(wf(f)); return r.Get(bg) }
			a.refresh = func(f rfn[T]) (T, error) { r.SetRefreshFunc(wf(f)); return r.Refresh(bg) }
			a.clear = func(f func(context.Context) error) error { r.SetClearFunc(wc(f)); return r.Clear(bg) }
			set = func(int) { r.GetClearFunc(); r.GetRefreshFunc() }
		} else {
			d = refreshcache0.NewRefreshData[T](age.max, refreshcache0.WithErrAge[T](age.err))
			a.get = func(f rfn[T]) (T, error) { return d.Get(bg, wf(f)) }
			a.refresh = func(f rfn[T]) (T, error) { return d.Refresh(bg, wf(f)) }
			a.clear = func(f func(context.Context) error) error { return d.Clear(bg, wc(f)) }
			set = func(int) { _ = d.Clear(bg, nil) }
		}
		a.raw = d.Raw
		a.misc = func(n int) {
			[]func(){func() { d.Last() }, func() { d.LastErr() }, func() { d.LastTime() }, func() { d.LastErrTime() }, func() { d.MaxAge(); d.MaxErrAge() }, func() { set(n) }}[n%6]()
		}
		return a
	case 1:
		wf := func(f rfn[T]) refreshcache1.RefreshFunc[T, int] {
			return func(ctx context.Context, _ int) (T, error) { return f(ctx) }
		}
		wc := func(f func(context.Context) error) refreshcache1.ClearFunc[T, int] {
			return func(ctx context.Context, _ int) error { return f(ctx) }
		}
		var d *refreshcache1.RefreshData[T, int]
		a := rapi[T]{oldKey: refreshcache1.OldValKey}
		var set func(int)
		if wrapped {
			r := refreshcache1.NewRefreshCache[T, int](nil, age.max, refreshcache1.WithErrAge[T, int](age.err))
			d = r.Data()
			a.get = func(f rfn[T]) (T, error) { r.SetRefreshFunc(wf(f)); return r.Get(bg, 0) }
			a.refresh = func(f rfn[T]) (T, error) { r.SetRefreshFunc(wf(f)); return r.Refresh(bg, 0) }
			a.clear = func(f func(context.Context) error) error { r.SetClearFunc(wc(f)); return r.Clear(bg, 0) }
			set = func(int) { r.GetClearFunc(); r.GetRefreshFunc() }
		} else {
			d = refreshcache1.NewRefreshData[T, int](age.max, refreshcache1.WithErrAge[T, int](age.err))
			a.get = func(f rfn[T]) (T, error) { return d.Get(bg, wf(f), 0) }
			a.refresh = func(f rfn[T]) (T, error) { return d.Refresh(bg, wf(f), 0) }
			a.clear = func(f func(context.Context) error) error { return d.Clear(bg, wc(f), 0) }
			set = func(int) { _ = d.Clear(bg, nil, 0) }
		}
		a.raw = d.Raw
		a.misc = func(n int) {
			[]func(){func() { d.Last() }, func() { d.LastErr() }, func() { d.LastTime() }, func() { d.LastErrTime() }, func() { d.MaxAge(); d.MaxErrAge() }, func() { set(n) }}[n%6]()
		}
		return a
	}
	wf := func(f rfn[T]) refreshcache.RefreshFunc[T, int] {
		return func(ctx context.Context, _ ...int) (T, error) { return f(ctx) }
	}
	wc := func(f func(context.Context) error) refreshcache.ClearFunc[T, int] {
		return func(ctx context.Context, _ ...int) error { return f(ctx) }
	}
	var d *refreshcache.RefreshData[T, int]
	a := rapi[T]{oldKey: refreshcache.OldValKey}
	var set func(int)
	if wrapped {
		r := refreshcache.NewRefreshCache[T, int](nil, age.max, refreshcache.WithErrAge[T, int](age.err))
		d = r.Data()
		a.get = func(f rfn[T]) (T, error) { r.SetRefreshFunc(wf(f)); return r.Get(bg, 1, 2) }
		a.refresh = func(f rfn[T]) (T, error) { r.SetRefreshFunc(wf(f)); return r.Refresh(bg) }
		a.clear = func(f func(context.Context) error) error { r.SetClearFunc(wc(f)); return r.Clear(bg, 1) }
		set = func(int) { r.GetClearFunc(); r.GetRefreshFunc() }
	} else {
		d = refreshcache.NewRefreshData[T, int](age.max, refreshcache.WithErrAge[T, int](age.err))
		a.get = func(f rfn[T]) (T, error) { return d.Get(bg, wf(f), 1, 2) }
		a.refresh = func(f rfn[T]) (T, error) { return d.Refresh(bg, wf(f)) }
		a.clear = func(f func(context.Context) error) error { return d.Clear(bg, wc(f)) }
		set = func(int) { _ = d.Clear(bg, nil) }
	}
	a.raw = d.Raw
	a.misc = func(n int) {
		[]func(){func() { d.Last() }, func() { d.LastErr() }, func() { d.LastTime() }, func() { d.LastErrTime() }, func() { d.MaxAge(); d.MaxErrAge() }, func() { set(n) }}[n%6]()
	}
	return a
}

type boom struct{}

func runRefresh[T any](p Prog, mk func(int) T, read func(T) error) error {
	a := newRapi[T](p.Conf)
	n := len(p.Threads)
	counters := make([]int, n+1)
	readErr := func(err error) error {
		var pe *perr
		if errors.As(err, &pe) {
			return readPayload(pe.p)
		}
		return nil
	}
	do := func(th int, op Op) (bad error) {
		counters[th]++
		id := th*1000 + counters[th]
		old := func(ctx context.Context) {
			if v, ok := ctx.Value(a.oldKey).(T); ok {
				if err := read(v); err != nil {
					bad = err
				}
			}
		}
		f := func(ctx context.Context) (T, error) {
			old(ctx)
			if op.A%2 > 0 {
				runtime.Gosched()
			}
			switch op.B % 7 {
			case 1, 2:
				var z T
				return z, &perr{writePayload(id)}
			case 3:
				panic(boom{})
			}
			return mk(id), nil
		}
		chk := func(v T, err error) {
			if err == nil {
				err = read(v)
			} else {
				err = readErr(err)
			}
			if err != nil {
				bad = err
			}
		}
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(boom); !ok {
					panic(x)
				}
			}
		}()
		switch op.K {
		case "get":
			chk(a.get(f))
		case "refresh":
			chk(a.refresh(f))
		case "clear":
			_ = a.clear(func(ctx context.Context) error { old(ctx); return nil })
		case "raw":
			v, err := a.raw()
			_ = read(v)
			_ = readErr(err)
		case "misc":
			a.misc(op.B)
		case "sleep":
			time.Sleep([]time.Duration{time.Nanosecond, time.Millisecond, time.Second}[op.B%3])
		}
		return bad
	}
	for _, op := range p.Setup {
		if err := do(n, op); err != nil {
			return err
		}
	}
	return runThreads(n, func(th int) error {
		for i, op := range p.Threads[th] {
			if err := do(th, op); err != nil {
				return fmt.Errorf("T%d op %d %s: %w", th, i, op.K, err)
			}
		}
		return nil
	})
}

var refreshKinds = []string{"ptr", "ptr", "big", "string", "any"}

func runRefreshKind(p Prog) error {
	switch p.Kind {
	case "big":
		return runRefresh(p, func(n int) big { return big{n, n, n, n, writePayload(n)} }, func(v big) error {
			if v.a != v.d || v.p != nil && v.a != v.p.a {
				return errTorn
			}
			return readPayload(v.p)
		})
	case "string":
		return runRefresh(p, func(n int) string { return fmt.Sprint(n) }, plain)
	case "any":
		return runRefresh(p, func(n int) any {
			if n%2 == 0 {
				return nil
			}
			return writePayload(n)
		}, func(v any) error {
			if p, ok := v.(*payload); ok {
				return readPayload(p)
			}
			return nil
		})
	}
	return runRefresh(p, writePayload, readPayload)
}

// ---- generation ----

func pick(t *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }

func genProg(kinds, ops []string, confs int) func(t *rapid.T) Prog {
	one := rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom(ops).Draw(t, "k"), A: pick(t, "a", 4), B: pick(t, "b", 42)}
	})
	return func(t *rapid.T) Prog {
		p := Prog{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Conf: pick(t, "conf", confs)}
		p.Setup = rapid.SliceOfN(one, 0, 8).Draw(t, "setup")
		n := rapid.SampledFrom([]int{2, 2, 3, 4}).Draw(t, "n")
		// threads that use only a few of the operations meet in more particular ways
		use := one
		if few := rapid.SliceOfN(rapid.SampledFrom(ops), 0, 3).Draw(t, "few"); len(few) > 0 {
			use = rapid.Custom(func(t *rapid.T) Op {
				return Op{K: rapid.SampledFrom(few).Draw(t, "k"), A: pick(t, "a", 4), B: pick(t, "b", 42)}
			})
		}
		for i := 0; i < n; i++ {
			p.Threads = append(p.Threads, rapid.SliceOfN(use, 1, rapid.SampledFrom([]int{2, 6, 14}).Draw(t, "len")).Draw(t, "ops"))
		}
		return p
	}
}

func prop(name, rule string, quick int, gen func(*rapid.T) Prog, run func(Prog) error) pbt.Checker {
	return pbt.Prop[Prog]{Name: name, Quick: quick, Rule: rule + "; oracle: the race detector and pointer checks, contents of the values read; non-trivial: two threads with at least two operations", Gen: gen, Confirm: -1,
		Run: func(p Prog, r *pbt.Rec) error {
			long := 0
			for _, th := range p.Threads {
				if len(th) > 1 {
					long++
				}
			}
			r.NonTrivial = long > 1
			r.Label(p.Kind)
			reps := 2
			if pbt.Replaying() {
				reps = 200
			}
			for i := 0; i < reps; i++ {
				r.Count("executions", 1)
				if err := run(p); err != nil {
					return err
				}
			}
			return nil
		}}
}

func MapRace() pbt.Checker {
	return prop("rwmap-race", "programs of 2 to 4 threads with up to 14 operations on an RWMap of 15 key/value types (words to structs of five words, functions, maps, channels), values with payloads written before and read after, or handed over from owner to owner", 20000,
		genProg(mapKinds, []string{"load", "load", "store", "store", "los", "lad", "del", "swap", "cas", "cad", "clear", "len", "slow", "range"}, 1), runMapKind)
}

func CacheRace() pbt.Checker {
	return prop("synccache-race", "the same on a SyncCache with and without callback, entries expiring and moved, background sweeps, Start and Close (fake clock)", 15000,
		genProg(cacheKinds, []string{"store", "store", "load", "load", "los", "lad", "del", "cad", "cvad", "clear", "range", "set", "add", "exp", "start", "close", "sleep", "sleep"}, 3), runCacheKind)
}

func RefreshRace() pbt.Checker {
	return prop("refreshcache-race", "the same on the three refresh caches (data and wrapper, 7 pairs of ages), refreshes that succeed, fail and panic, function changes, Clear and the reading methods", 20000,
		genProg(refreshKinds, []string{"get", "get", "get", "refresh", "refresh", "clear", "clear", "raw", "raw", "misc", "misc", "misc", "sleep"}, 42), runRefreshKind)
}

func TestC05(t *testing.T) {
	pbt.StartWatchdog()
	synctest.Test(t, func(t *testing.T) { pbt.Main(t, "C05", MapRace(), CacheRace(), RefreshRace()) })
}
