package vt

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// swVal is one stored value.
type swVal struct {
	cache, key int
	until      int64 // latest end of the lifetime
	early      int64 // earliest end
	stored     int64 // when the Store had returned
	reported   []int64
	replaced   bool // another value was stored under the same key
	deleted    bool
}

// swInterval is a call of Start or Close.
type swInterval struct {
	start     bool
	call, ret int64
}

type swCache struct {
	c   *synccache.SyncCache[int, int]
	log []swInterval // the first is the construction
}

type swWorld struct {
	mu     sync.Mutex
	caches []*swCache
	vals   []*swVal
	t0     time.Time
	err    error
	cb     int
}

func (w *swWorld) now() int64 { return int64(time.Since(w.t0)) }

func (w *swWorld) add() *swCache {
	sc := &swCache{}
	w.mu.Lock()
	ci := len(w.caches)
	w.caches = append(w.caches, sc)
	w.mu.Unlock()
	call := w.now()
	c := synccache.NewSyncCache[int, int](time.Hour, synccache.WithDeletedCallback[int, int](func(v int) { w.report(ci, v) }))
	w.mu.Lock()
	sc.c = c
	sc.log = append(sc.log, swInterval{true, call, w.now()})
	w.mu.Unlock()
	return sc
}

func (w *swWorld) report(ci, v int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if v < 0 || v >= len(w.vals) || w.vals[v].cache != ci {
		if w.err == nil {
			w.err = fmt.Errorf("cache %d reported %d, which it never held", ci, v)
		}
		return
	}
	w.vals[v].reported = append(w.vals[v].reported, w.now())
}

func (w *swWorld) store(ci, k int, ttl time.Duration) {
	w.mu.Lock()
	c := w.caches[ci]
	if c.c == nil {
		w.mu.Unlock()
		return
	}
	e := &swVal{cache: ci, key: k}
	for _, o := range w.vals {
		if o.cache == ci && o.key == k {
			o.replaced, e.replaced = true, true
		}
	}
	v := len(w.vals)
	w.vals = append(w.vals, e)
	e.early = w.now() + int64(ttl)
	e.until = 1 << 60
	w.mu.Unlock()
	c.c.Store(k, v, ttl)
	w.mu.Lock()
	e.stored = w.now()
	e.until = e.stored + int64(ttl)
	w.mu.Unlock()
}

func (w *swWorld) do(_ int, op Op) {
	w.mu.Lock()
	ci := op.A % len(w.caches)
	c := w.caches[ci]
	w.mu.Unlock()
	if c.c == nil {
		return
	}
	mark := func(start bool, f func()) {
		call := w.now()
		f()
		w.mu.Lock()
		c.log = append(c.log, swInterval{start, call, w.now()})
		w.mu.Unlock()
	}
	switch op.K {
	case "start":
		mark(true, c.c.Start)
	case "close":
		mark(false, c.c.Close)
	case "new":
		w.mu.Lock()
		n := len(w.caches)
		w.mu.Unlock()
		if n < 5 {
			w.add()
			w.store(n, op.B, at(ttls, op.C))
		}
	case "store":
		w.store(ci, op.B, at(ttls, op.C))
	case "load":
		e, ok := c.c.Load(op.B)
		if ok && e.Value() < 0 {
			panic("impossible")
		}
	case "range":
		c.c.Range(func(int, *synccache.Entry[int]) bool { return true })
	}
}

// started: is the cache certainly started (or certainly closed) once everything is done?
func (c *swCache) started() (yes, no bool) {
	yes, no = true, true
	var lastStart, lastClose swInterval
	for _, i := range c.log {
		l := &lastClose
		if i.start {
			l = &lastStart
		}
		if i.call >= l.call {
			*l = i
		}
	}
	for _, i := range c.log {
		if !i.start && i.ret >= lastStart.call {
			yes = false
		}
		if i.start && i.ret >= lastClose.call {
			no = false
		}
	}
	if lastClose.ret == 0 {
		no = false
	}
	return yes, no
}

func runSweep(p Prog, r *pbt.Rec) error {
	align(p.Phase)
	w := &swWorld{t0: time.Now()}
	for i := 0; i <= p.Conf%3; i++ {
		w.add()
	}
	defer func() {
		for _, c := range w.caches {
			c.c.Close()
		}
	}()
	for _, op := range p.Setup {
		time.Sleep(at(waits, op.W))
		w.do(0, op)
	}
	if at(phases, p.Phase) != -time.Hour {
		align(p.Phase)
	}
	if err := run(p, w.do); err != nil {
		return err
	}
	end := w.now() + int64(time.Second) // a sweep may be in the middle of its work
	// what expires after this is swept, or not, depending on the last Start or Close
	for i, c := range w.caches {
		w.store(i, 100, 2*time.Second)
		w.store(i, 101, time.Hour)
		_ = c
	}
	time.Sleep(16 * time.Second)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.err != nil {
		return w.err
	}
	hist := func() (s string) {
		for i, c := range w.caches {
			s += fmt.Sprintf("\n  cache %d: ", i)
			for _, l := range c.log {
				s += fmt.Sprintf("%s[%d,%d] ", map[bool]string{true: "Start", false: "Close"}[l.start], l.call, l.ret)
			}
		}
		return
	}
	closed, running := 0, 0
	for v, e := range w.vals {
		c := w.caches[e.cache]
		yes, no := c.started()
		if yes {
			running++
		}
		if no {
			closed++
		}
		if len(e.reported) > 1 {
			return fmt.Errorf("value %d of cache %d was reported %d times%s", v, e.cache, len(e.reported), hist())
		}
		if len(e.reported) == 1 {
			if t := e.reported[0]; t < e.early {
				return fmt.Errorf("value %d of cache %d was removed at %d, before its lifetime ended at %d%s", v, e.cache, t, e.early, hist())
			} else if no && t > end {
				return fmt.Errorf("value %d of cache %d was swept at %d, after the cache had been closed%s", v, e.cache, t, hist())
			}
			continue
		}
		if yes && !e.replaced && e.until+ms < w.now()-int64(11*time.Second) {
			return fmt.Errorf("value %d of cache %d expired at %d, the cache is started, and at %d it was not swept%s", v, e.cache, e.until, w.now(), hist())
		}
	}
	for i, c := range w.caches {
		w.mu.Unlock()
		e, ok := c.c.Load(101)
		w.mu.Lock()
		if !ok || w.vals[e.Value()].cache != i || w.vals[e.Value()].key != 101 {
			return fmt.Errorf("the value stored in cache %d for an hour is gone%s", i, hist())
		}
	}
	r.NonTrivial = at(phases, p.Phase) != -time.Hour
	r.LabelIf(closed > 0, "closed at the end")
	r.LabelIf(running > 0, "started at the end")
	r.LabelIf(r.NonTrivial, "together with a sweep")
	return nil
}

func TestC08(t *testing.T) {
	bubble(t, func(t *testing.T) {
		op := rapid.Custom(func(t *rapid.T) Op {
			return Op{K: rapid.SampledFrom([]string{"start", "start", "close", "close", "new", "store", "store", "load", "range"}).Draw(t, "k"), A: pick(t, "cache", 3), B: pick(t, "key", 3),
				C: pick(t, "ttl", len(ttls)), W: pick(t, "wait", len(waits))}
		})
		pbt.Main(t, "C08", pbt.Prop[Prog]{
			Name: "synccache-sweep-concurrent", Quick: 200000,
			Rule: "programs of 2 or 3 threads of 1 to 4 operations (Start, Close, new caches, stores, lookups) on up to 5 caches, most of them at the instant of a background sweep, threads and sweeper held up at generated synchronization operations, on a fake clock; afterwards: caches whose last Start came after every Close are swept, those whose last Close came after every Start are not, live entries stay; non-trivial: together with a sweep",
			Gen:  func(t *rapid.T) Prog { return genProg(t, 3, 4, 3, 4, 45, op, op) },
			Run:  runSweep,
		})
	})
}
