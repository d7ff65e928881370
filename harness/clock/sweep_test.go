package clock

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// sweepCase is a history over several caches; ops use A to choose cache and key.
type sweepCase struct {
	Caches int  `json:"caches"`
	Trim   int  `json:"trim,omitempty"`   // which trim times the constructor gets
	Silent int  `json:"silent,omitempty"` // bits: which caches have no callback
	Ops    []Op `json:"ops"`
}

type swEntry struct {
	cache, key, val int
	until           time.Time // live before, expired one millisecond later
	since           time.Time // when until was last changed
	state           int       // 0 in the cache, 1 removed, 2 replaced
	reported        bool
	maybe           bool // in a cache without a callback: may have been swept by now
	ghost           bool // in a cache without a callback: must have been swept by now
	handle          *synccache.Entry[int]
}

// swCache hides the key type.
type swCache struct {
	store func(k, v int, ttl time.Duration)
	load  func(k int) (*synccache.Entry[int], bool)
	del   func(k int)
	rng   func() map[int]*synccache.Entry[int]
	start func()
	close func()

	started bool
	from    time.Time
	cur     map[int]*swEntry
	silent  bool // no callback: whether an entry was swept shows when its lifetime is extended
}

func newSW[K comparable](conv func(int) K, back func(K) int, interval time.Duration, cb func(int)) *swCache {
	var conf []synccache.SyncCacheConfig[K, int]
	if cb != nil {
		conf = append(conf, synccache.WithDeletedCallback[K, int](cb))
	}
	c := synccache.NewSyncCache[K, int](interval, conf...)
	return &swCache{
		store: func(k, v int, ttl time.Duration) { c.Store(conv(k), v, ttl) },
		load:  func(k int) (*synccache.Entry[int], bool) { return c.Load(conv(k)) },
		del:   func(k int) { c.Delete(conv(k)) },
		rng: func() map[int]*synccache.Entry[int] {
			m := map[int]*synccache.Entry[int]{}
			c.Range(func(k K, e *synccache.Entry[int]) bool { m[back(k)] = e; return true })
			return m
		},
		start: c.Start, close: c.Close,
		silent:  cb == nil,
		started: true, from: time.Now(), cur: map[int]*swEntry{},
	}
}

const sweepLimit = 10 * time.Second

type swWorld struct {
	caches   []*swCache
	all      []*swEntry // by value
	touching bool
	bad      error
	swept    int
	closedEx int
	trim     int
	silent   int
	revived  int
	ghosts   int
}

func (w *swWorld) note(format string, a ...any) {
	if w.bad == nil {
		w.bad = fmt.Errorf(format, a...)
	}
}

// report is the callback of every cache; it may run in the sweeping goroutine, but never
// while the history itself runs.
func (w *swWorld) report(ci, v int) {
	if v < 0 || v >= len(w.all) {
		w.note("the callback got %d, which was never stored", v)
		return
	}
	e := w.all[v]
	switch {
	case e.cache != ci:
		w.note("cache %d reported value %d of cache %d", ci, v, e.cache)
	case e.reported:
		w.note("value %d was reported twice", v)
	}
	e.reported = true
	if w.touching {
		return
	}
	w.swept++
	c := w.caches[ci]
	if !c.started {
		w.note("cache %d is closed, but value %d was removed while nobody touched it", ci, v)
	}
	if time.Now().Before(e.until) {
		w.note("a sweep removed value %d, which lives for another %v", v, time.Until(e.until))
	}
	if e.state != 0 {
		w.note("a sweep reported value %d, which is not in the cache any more", v)
	}
	e.state = 1
	if c.cur[e.key] == e {
		delete(c.cur, e.key)
	}
}

// judge: what is overdue?
func (w *swWorld) judge() error {
	now := time.Now()
	for _, e := range w.all {
		c := w.caches[e.cache]
		if e.state != 0 || e.reported || !c.started {
			continue
		}
		due := e.until.Add(ms)
		for _, t := range []time.Time{e.since, c.from} {
			if t.After(due) {
				due = t
			}
		}
		if due = due.Add(sweepLimit); now.After(due) && c.silent {
			e.state, e.ghost = 1, true
			if c.cur[e.key] == e {
				delete(c.cur, e.key)
			}
		} else if now.After(due) {
			return fmt.Errorf("value %d (cache %d) expired %v ago, the cache has been started for %v, and it was not swept", e.val, e.cache, now.Sub(e.until), now.Sub(c.from))
		}
	}
	return w.bad
}

func (w *swWorld) step(op Op) error {
	ci := op.A % len(w.caches)
	c := w.caches[ci]
	k := op.B % 4
	e := c.cur[k]
	now := time.Now()
	switch op.K {
	case "store", "many":
		n := 1
		if op.K == "many" {
			n = 5 + op.B*3
			if op.B == 19 {
				n = 300 + 50*op.C
			}
		}
		for i := 0; i < n; i++ {
			k := k
			if op.K == "many" {
				k = 4 + i
			}
			ttl := span(op.C)
			if op.K == "many" && i%2 > 0 {
				ttl = span(op.C / 2)
			}
			v := len(w.all)
			ne := &swEntry{cache: ci, key: k, val: v, until: now.Add(ttl), since: now}
			w.all = append(w.all, ne)
			if old := c.cur[k]; old != nil {
				old.state = 2
			}
			c.cur[k] = ne
			c.store(k, v, ttl)
			if c.silent && ttl >= ms {
				got, ok := c.load(k)
				if !ok {
					return fmt.Errorf("Load(%d) of cache %d found nothing; want %d, which was just stored for %v", k, ci, v, ttl)
				}
				ne.handle = got
			}
		}
	case "load":
		got, ok := c.load(k)
		switch {
		case e == nil && ok:
			return fmt.Errorf("Load(%d) of cache %d found %d; want nothing", k, ci, got.Value())
		case e != nil && now.Before(e.until):
			if !ok || got.Value() != e.val {
				return fmt.Errorf("Load(%d) of cache %d found %v; want %d, which lives for another %v", k, ci, ok, e.val, time.Until(e.until))
			}
			e.handle = got
		case e != nil && !now.Before(e.until.Add(ms)):
			if ok {
				return fmt.Errorf("Load(%d) of cache %d returned %d, which expired %v ago", k, ci, got.Value(), now.Sub(e.until))
			}
			e.state = 1
			delete(c.cur, k)
		case e != nil && !ok: // inside the resolution
			e.state = 1
			delete(c.cur, k)
		}
	case "del":
		c.del(k)
		if e != nil {
			e.state = 1
			delete(c.cur, k)
		}
	case "move":
		if e == nil || e.maybe {
			return nil
		}
		if e.handle == nil && now.Before(e.until) {
			got, ok := c.load(k)
			if !ok {
				return fmt.Errorf("Load(%d) of cache %d found nothing; want %d, which lives for another %v", k, ci, e.val, time.Until(e.until))
			}
			e.handle = got
		}
		if e.handle == nil {
			return nil
		}
		if !now.Before(e.until) {
			w.revived++
		}
		e.until = now.Add(span(op.C))
		if op.B%5 == 0 {
			e.until = now.Add(-time.Second)
		}
		e.since = now
		e.handle.SetExpiration(e.until)
	case "start":
		c.start()
		if !c.started {
			c.started, c.from = true, now
		}
	case "close":
		c.close()
		c.started = false
	case "new":
		if len(w.caches) < 5 {
			w.add()
		}
	case "wait":
		time.Sleep(span(op.C))
	case "settle":
		time.Sleep(sweepLimit + 2*ms)
	default:
		panic("unknown op " + op.K)
	}
	for _, e := range w.all {
		if c := w.caches[e.cache]; c.silent && c.started && !time.Now().Before(e.until) {
			e.maybe = true
		}
	}
	for _, e := range w.all {
		if e.state == 0 && !w.caches[e.cache].started && !time.Now().Before(e.until) {
			w.closedEx++
			break
		}
	}
	return nil
}

// trims: whatever the constructor is told, the cache is started and swept.
var trims = []time.Duration{time.Second, 0, -time.Second, time.Hour, time.Millisecond}

func (w *swWorld) add() {
	i := len(w.caches)
	cb := func(v int) { w.report(i, v) }
	if w.silent>>i&1 == 1 {
		cb = nil
	}
	iv := trims[(i+w.trim)%len(trims)]
	if i%2 == 0 {
		w.caches = append(w.caches, newSW(func(k int) int { return k }, func(k int) int { return k }, iv, cb))
	} else {
		w.caches = append(w.caches, newSW(func(k int) string { return fmt.Sprint(k) }, func(s string) (k int) { fmt.Sscan(s, &k); return }, iv, cb))
	}
}

func runSweep(c sweepCase, r *pbt.Rec) error {
	w := &swWorld{trim: c.Trim, silent: c.Silent}
	for i := 0; i < c.Caches; i++ {
		w.add()
	}
	defer func() {
		for _, c := range w.caches {
			c.close()
		}
	}()
	ops := append(append([]Op{}, c.Ops...), Op{K: "settle"})
	for i, op := range ops {
		synctest.Wait()
		quiet := op.K == "wait" || op.K == "settle"
		w.touching = !quiet
		err := w.step(op)
		synctest.Wait()
		w.touching = false
		if err == nil {
			err = w.judge()
		}
		if err != nil {
			return fmt.Errorf("op %d %v: %w", i, op, err)
		}
	}
	w.touching = true
	// what was swept does not come back when its lifetime is extended afterwards
	for _, e := range w.all {
		if !e.ghost || e.handle == nil {
			continue
		}
		w.ghosts++
		e.handle.SetExpiration(time.Now().Add(time.Hour))
		if got, ok := w.caches[e.cache].load(e.key); ok && got.Value() == e.val {
			return fmt.Errorf("at the end: value %d (cache %d, without a callback) expired more than %v ago while the cache was started, and it is still there: it is found again once its expiration is moved", e.val, e.cache, sweepLimit)
		}
		e.handle.SetExpiration(time.Now().Add(-time.Hour))
	}
	// what is left is what should be left
	for ci, c := range w.caches {
		got := c.rng()
		for k, e := range c.cur {
			if time.Now().Before(e.until) {
				if got[k] == nil || got[k].Value() != e.val {
					return fmt.Errorf("at the end: value %d of cache %d lives for another %v, but it is gone", e.val, ci, time.Until(e.until))
				}
			}
			delete(got, k)
		}
		for k, e := range got {
			return fmt.Errorf("at the end: cache %d holds %d under key %d; want nothing", ci, e.Value(), k)
		}
	}
	if w.bad != nil {
		return fmt.Errorf("at the end: %w", w.bad)
	}
	r.NonTrivial = w.swept+w.ghosts > 0
	r.LabelIf(w.ghosts > 0, "entries swept from a cache without a callback")
	r.LabelIf(w.swept > 0, "entries swept")
	r.LabelIf(w.closedEx > 0, "expired entries in a closed cache")
	r.LabelIf(w.revived > 0, "expired entry revived")
	r.Count("entries swept", w.swept)
	return nil
}

func SyncCacheSweep() pbt.Checker {
	return pbt.Prop[sweepCase]{
		Name: "synccache-sweep", Quick: 60000,
		Rule: "histories of up to 30 steps (store with lifetimes from zero to an hour, move an expiration, Load, Delete, Start, Close, new caches, waits) on one to five caches of up to some hundred (at times 1300) entries, most with callbacks, under a fake clock; after each step: nothing overdue by more than ten seconds, nothing live, closed or absent reported by a sweep; without a callback, an overdue entry must not come back when its expiration is moved; non-trivial: a sweep removed an entry",
		Gen: func(t *rapid.T) sweepCase {
			return sweepCase{Caches: 1 + pick(t, "caches", 3), Trim: pick(t, "trim", 5), Silent: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 31}).Draw(t, "silent"), Ops: genOps(t, 2, 30, []string{"store", "store", "store", "store", "many", "load", "load", "del", "move", "move", "move", "start", "close", "close", "new", "wait", "wait", "wait", "settle"})}
		},
		Run: runSweep,
	}
}

func TestC08(t *testing.T) {
	bubble(t, func(t *testing.T) { pbt.Main(t, "C08", SyncCacheSweep(), SyncCacheLarge(false, true, "sweep")) })
}
