package clock

import (
	"fmt"
	"math"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// scCase is a history on one cache.
type scCase struct {
	Kind string `json:"kind"`
	Cb   bool   `json:"cb"`
	Re   bool   `json:"re,omitempty"` // the callback uses the cache itself
	Ops  []Op   `json:"ops"`
}

// mentry is an entry as the model sees it. It is live before until and expired from
// until+1ms on (the documented resolution); the checks never look in between.
type mentry[V any] struct {
	id     int
	key    int
	val    int // index into the value pool
	until  time.Time
	handle *synccache.Entry[V]
	state  int // 0 in the cache, 1 removed, 2 replaced while live, 3 replaced when expired
}

type scWorld[K comparable, V any] struct {
	c       *synccache.SyncCache[K, V]
	keys    []K
	vals    []V
	cur     map[int]*mentry[V] // by key index: the entry in the cache, live or expired
	all     []*mentry[V]
	log     []V         // what the callback got
	mk      func(int) V // set: every stored value is a new one
	handles []*mentry[V]
	cb      bool // callback configured
	fates   bool // judge the callback
	results bool // judge the results
	re      bool // the callback uses the cache (the last key is its own)
	inside  bool
	op      string // the operation running
	bad     error  // found inside the callback
	st      struct{ expired, lookups, deletions, cadExpired int }
}

const ms = time.Millisecond

func (w *scWorld[K, V]) live(e *mentry[V]) bool { return time.Now().Before(e.until) }

// settle moves on to where every entry is either surely live or surely expired.
func (w *scWorld[K, V]) settle() {
	for again := true; again; {
		again = false
		now := time.Now()
		for _, e := range w.all {
			if !now.Before(e.until) && now.Before(e.until.Add(ms)) {
				time.Sleep(e.until.Add(ms).Sub(now))
				again = true
				break
			}
		}
	}
	synctest.Wait()
}

func (w *scWorld[K, V]) eq(a, b V) bool { return any(a) == any(b) }

// put: the model of a new entry under key k.
func (w *scWorld[K, V]) put(k, v int, ttl time.Duration) *mentry[V] {
	e := &mentry[V]{id: len(w.all), key: k, val: v, until: time.Now().Add(ttl)}
	w.all = append(w.all, e)
	w.cur[k] = e
	return e
}

func (w *scWorld[K, V]) ttl(b int) time.Duration {
	switch b {
	case 17:
		return -span(b / 3)
	case 18:
		return math.MaxInt64
	case 19:
		return -time.Hour
	case 20:
		return math.MinInt64
	}
	return span(b)
}

// gone: the model of a removal.
func (w *scWorld[K, V]) gone(k int) {
	if e := w.cur[k]; e != nil {
		e.state = 1
		delete(w.cur, k)
	}
}

func (w *scWorld[K, V]) fail(format string, a ...any) error {
	if !w.results {
		return nil
	}
	return fmt.Errorf(format, a...)
}

// check compares an entry a lookup returned with the model's live entry (nil: none).
func (w *scWorld[K, V]) check(what string, got *synccache.Entry[V], ok bool, want *mentry[V]) error {
	if want == nil {
		if ok {
			return w.fail("%s returned an entry with value %v; the key has no live entry", what, got.Value())
		}
		return nil
	}
	if !ok || got == nil {
		return w.fail("%s found nothing; value %v lives for another %v", what, w.vals[want.val], time.Until(want.until))
	}
	if !w.eq(got.Value(), w.vals[want.val]) {
		return w.fail("%s returned %v, want %v", what, got.Value(), w.vals[want.val])
	}
	if got.IsExpired() {
		return w.fail("%s returned an entry that calls itself expired", what)
	}
	if want.handle == nil && !(w.re && want.key == len(w.keys)-1) {
		want.handle = got
		w.handles = append(w.handles, want)
	}
	return nil
}

// report is the deleted-callback.
func (w *scWorld[K, V]) report(v V) {
	w.log = append(w.log, v)
	if !w.re || w.inside {
		return
	}
	w.inside = true
	defer func() { w.inside = false }()
	if w.mk != nil {
		for _, e := range w.all {
			if e.key < len(w.keys)-1 && w.eq(w.vals[e.val], v) {
				if got, ok := w.c.Load(w.keys[e.key]); ok && w.eq(got.Value(), v) && w.bad == nil {
					w.bad = fmt.Errorf("the callback got %v while that entry could still be loaded", v)
				}
			}
		}
	}
	mine := len(w.keys) - 1
	got, ok := w.c.Load(w.keys[mine])
	if e := w.cur[mine]; w.bad == nil && w.op != "clear" && (ok != (e != nil) || ok && !w.eq(got.Value(), w.vals[e.val])) {
		w.bad = fmt.Errorf("inside the callback: Load of its own entry found %v, want %v", ok, e != nil)
	}
	switch {
	case w.op == "clear": // whether it meets entries stored meanwhile is not determined
	case ok:
		w.c.Delete(w.keys[mine])
		w.gone(mine)
	default:
		vi := 0
		if w.mk != nil {
			vi = len(w.vals)
			w.vals = append(w.vals, w.mk(vi))
		}
		w.put(mine, vi, 1000*time.Hour)
		w.c.Store(w.keys[mine], w.vals[vi], 1000*time.Hour)
	}
}

func (w *scWorld[K, V]) step(op Op) error {
	w.settle()
	w.op = op.K
	defer func() { w.op = "" }()
	k := op.A % len(w.keys)
	if w.re {
		k = op.A % (len(w.keys) - 1)
	}
	key := w.keys[k]
	e := w.cur[k]
	vi := op.B % len(w.vals)
	if w.mk != nil {
		switch op.K {
		case "store", "los":
			vi = len(w.vals)
			w.vals = append(w.vals, w.mk(vi))
		case "cvad":
			if e != nil && op.C%3 > 0 {
				vi = e.val
			}
		}
	}
	v := w.vals[vi]
	var lv *mentry[V] // the live entry
	if e != nil && w.live(e) {
		lv = e
	}
	expired := e != nil && lv == nil
	if expired {
		w.st.expired++
	}
	// any lookup that meets an expired entry removes it
	touch := func() {
		w.st.lookups++
		if expired {
			w.gone(k)
		}
	}
	switch op.K {
	case "store":
		ttl := w.ttl(op.C)
		w.c.Store(key, v, ttl)
		if e != nil {
			e.state = 2
			if expired {
				e.state = 3
			}
		}
		w.put(k, vi, ttl)
	case "fill": // all keys from the fifth on
		for i := 5; i < len(w.keys)-1; i++ {
			ttl := w.ttl(op.C)
			if i%3 == 0 {
				ttl = w.ttl(op.B)
			}
			vi := i % len(w.vals)
			if w.mk != nil {
				vi = len(w.vals)
				w.vals = append(w.vals, w.mk(vi))
			}
			w.c.Store(w.keys[i], w.vals[vi], ttl)
			if e := w.cur[i]; e != nil {
				e.state = 2
				if !w.live(e) {
					e.state = 3
				}
			}
			w.put(i, vi, ttl)
		}
	case "load":
		got, ok := w.c.Load(key)
		touch()
		return w.check("Load", got, ok, lv)
	case "los":
		ttl := w.ttl(op.C)
		got, loaded := w.c.LoadOrStore(key, v, ttl)
		touch()
		if lv != nil {
			if !loaded {
				return w.fail("LoadOrStore stored although %v lives for another %v", w.vals[lv.val], time.Until(lv.until))
			}
			return w.check("LoadOrStore", got, true, lv)
		}
		if loaded {
			return w.fail("LoadOrStore loaded %v; the key has no live entry", got.Value())
		}
		n := w.put(k, vi, ttl)
		n.handle = got
		w.handles = append(w.handles, n)
		if got == nil || !w.eq(got.Value(), v) {
			return w.fail("LoadOrStore did not return the entry it stored")
		}
	case "lad":
		got, ok := w.c.LoadAndDelete(key)
		touch()
		err := w.check("LoadAndDelete", got, ok, lv)
		w.gone(k)
		return err
	case "del":
		w.c.Delete(key)
		w.gone(k)
	case "cad":
		if len(w.handles) == 0 {
			return nil
		}
		h := w.handles[op.B%len(w.handles)]
		if op.C%3 > 0 && e != nil && e.handle != nil {
			h = e // mostly the current one
		}
		got := w.c.CompareAndDelete(key, h.handle)
		if h == e {
			if lv != nil {
				w.gone(k)
				if !got {
					return w.fail("CompareAndDelete of the live entry failed")
				}
				return nil
			}
			// expired: it may or may not have been there still, but now it is not
			w.st.cadExpired++
			w.gone(k)
			return nil
		}
		if got {
			return w.fail("CompareAndDelete deleted although the entry given is not in the cache under this key")
		}
	case "cvad":
		got := w.c.CompareValueAndDelete(key, v)
		touch()
		want := lv != nil && w.eq(w.vals[lv.val], v)
		if want {
			w.gone(k)
		}
		if got != want {
			return w.fail("CompareValueAndDelete(%v)=%v, want %v", v, got, want)
		}
	case "clear":
		w.c.Clear()
		for k := range w.keys {
			w.gone(k)
		}
	case "range":
		seen := map[K]*synccache.Entry[V]{}
		var err error
		w.c.Range(func(k K, e *synccache.Entry[V]) bool {
			if seen[k] != nil {
				err = w.fail("Range visits %v twice", k)
			}
			seen[k] = e
			return true
		})
		if err != nil {
			return err
		}
		for i, k := range w.keys {
			var lv *mentry[V]
			if e := w.cur[i]; e != nil {
				if w.live(e) {
					lv = e
				} else {
					w.gone(i)
				}
			}
			if err := w.check(fmt.Sprintf("Range (key %v)", k), seen[k], seen[k] != nil, lv); err != nil {
				return err
			}
			delete(seen, k)
		}
		if len(seen) > 0 {
			return w.fail("Range visits keys that were never stored: %v", seen)
		}
	case "rangemut":
		index := map[K]int{}
		for i, k := range w.keys {
			index[k] = i
		}
		type plan struct {
			act, val int
			ttl      time.Duration
		}
		plans := make([]plan, len(w.keys))
		for i := range plans {
			plans[i] = plan{(op.B + i) % 4, (op.B + i) % len(w.vals), w.ttl(op.C)}
			if w.mk != nil && plans[i].act == 2 {
				plans[i].val = len(w.vals)
				w.vals = append(w.vals, w.mk(plans[i].val))
			}
			if w.re && i == len(plans)-1 {
				plans[i].act = 0
			}
		}
		want := map[int]*mentry[V]{}
		for i := range w.keys {
			if e := w.cur[i]; e != nil && w.live(e) {
				want[i] = e
			}
		}
		visited := map[int]bool{}
		var err error
		w.c.Range(func(key K, got *synccache.Entry[V]) bool {
			i, known := index[key]
			if !known || visited[i] {
				err = w.fail("Range visits %v, which was never stored or was visited before", key)
				return false
			}
			visited[i] = true
			if w.re && i == len(plans)-1 {
				return true
			}
			if e := w.check(fmt.Sprintf("Range (key %v)", key), got, true, want[i]); e != nil {
				err = e
				return false
			}
			switch p := plans[i]; p.act {
			case 1, 3:
				w.gone(i)
				if p.act == 1 {
					w.c.Delete(key)
				} else if e, ok := w.c.LoadAndDelete(key); !ok || e != got {
					err = w.fail("LoadAndDelete of the entry Range just visited found another or none")
				}
			case 2:
				if e := w.cur[i]; e != nil {
					e.state = 2
				}
				w.put(i, p.val, p.ttl)
				w.c.Store(key, w.vals[p.val], p.ttl)
			}
			return true
		})
		if err != nil {
			return err
		}
		for i := range w.keys {
			if w.re && i == len(plans)-1 {
				continue
			}
			if want[i] != nil && !visited[i] {
				return w.fail("Range does not visit %v, which lives for another %v", w.keys[i], time.Until(want[i].until))
			}
			if e := w.cur[i]; e != nil && want[i] == nil {
				w.gone(i) // expired and met
			}
		}
	case "stop":
		n, stop := 0, 1+op.B%3
		w.c.Range(func(K, *synccache.Entry[V]) bool { n++; return n < stop })
		want := 0
		for i := range w.keys {
			if e := w.cur[i]; e != nil && w.live(e) {
				want++
			}
		}
		if n != min(want, stop) {
			return w.fail("Range told to stop at %d visited %d of %d live entries", stop, n, want)
		}
	case "extend", "shorten", "set":
		if len(w.handles) == 0 {
			return nil
		}
		h := w.handles[op.B%len(w.handles)]
		if op.A%2 > 0 && e != nil && e.handle != nil {
			h = e
		}
		was := w.live(h)
		d := span(op.C).Truncate(ms)
		if op.K != "set" {
			switch op.C { // beyond 2^31 and 2^32 milliseconds, and as long as a duration can be
			case 17:
				d = 25 * 24 * time.Hour
			case 18:
				d = 70 * 24 * time.Hour
			case 19:
				d = time.Duration(math.MaxInt64).Truncate(ms)
			}
		}
		switch op.K {
		case "extend":
			h.handle.AddExpiration(d)
			h.until = h.until.Add(d)
		case "shorten":
			h.handle.AddExpiration(-d)
			h.until = h.until.Add(-d)
		case "set":
			t := time.Now().Add(d)
			switch {
			case op.C == 15:
				t = time.Time{}
			case op.C == 10:
				t = time.Unix(0, 0)
			case op.C%5 == 0:
				t = time.Now().Add(-d)
			case op.C == 18:
				t = time.Unix(1<<40, 0)
			}
			h.handle.SetExpiration(t)
			h.until = t
		}
		w.settle()
		now := w.live(h)
		if got := h.handle.IsExpired(); got == now {
			return w.fail("IsExpired()=%v after the expiration was moved to %v from now", got, time.Until(h.until))
		}
		if !was && now && h.state == 0 {
			// an expired entry revived: whether it was still there only the cache knows
			got, ok := w.c.Load(w.keys[h.key])
			if ok && got == h.handle {
				return nil
			}
			w.gone(h.key)
			if ok {
				return w.fail("Load returned another entry than the one revived")
			}
		}
	case "wait":
		time.Sleep(span(op.C))
		synctest.Wait()
	default:
		panic("unknown op " + op.K)
	}
	return nil
}

// judge compares the reports to the callback so far with the model. How often a value
// was reported lies between the number of its entries that are removed and that number
// plus those that the sweep may have removed: expired ones not touched since. (With
// unique values both are 0 or 1: the report names the entry.)
func (w *scWorld[K, V]) judge(final bool) error {
	got := map[any]int{}
	for _, v := range w.log {
		got[any(v)]++
	}
	lo, hi := map[any]int{}, map[any]int{}
	for _, e := range w.all {
		v := any(w.vals[e.val])
		switch {
		case e.state == 1:
			lo[v]++
			hi[v]++
		case e.state == 3 || e.state == 0 && !w.live(e):
			hi[v]++
		}
		if final && e.state == 0 {
			panic("harness: entry left")
		}
	}
	for _, e := range w.all {
		v := any(w.vals[e.val])
		if got[v] < lo[v] {
			return fmt.Errorf("%d entries with value %v were removed, %d were reported to the callback", lo[v], v, got[v])
		}
	}
	for v, n := range got {
		if n > hi[v] {
			return fmt.Errorf("the callback got %v %d times, but at most %d entries with that value were removed", v, n, hi[v])
		}
	}
	return nil
}

func runSC[K comparable, V any](c scCase, keys []K, vals []V, mk func(int) V, results, fates bool, r *pbt.Rec) error {
	w := &scWorld[K, V]{keys: keys, vals: vals, cur: map[int]*mentry[V]{}, results: results, fates: fates, cb: c.Cb || fates}
	if fates && c.Cb {
		w.mk = mk // in half of the cases
	}
	w.re = c.Re && fates
	if w.cb {
		w.c = synccache.NewSyncCache[K, V](time.Second, synccache.WithDeletedCallback[K, V](w.report))
	} else {
		w.c = synccache.NewSyncCache[K, V](time.Second)
	}
	defer w.c.Close()
	ops := c.Ops
	if fates {
		ops = append(append([]Op{}, ops...), Op{K: "clear"})
	}
	for i, op := range ops {
		if op.K == "stop" && fates {
			continue // which expired entries it met is not determined
		}
		if err := w.step(op); err != nil {
			return fmt.Errorf("op %d %v: %w", i, op, err)
		}
		if fates {
			if w.bad != nil {
				return fmt.Errorf("op %d %v: %w", i, op, w.bad)
			}
			if err := w.judge(false); err != nil {
				return fmt.Errorf("after op %d %v: %w", i, op, err)
			}
		}
	}
	if fates {
		// nothing is reported later
		time.Sleep(11 * time.Second)
		synctest.Wait()
		if err := w.judge(true); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	if results {
		w.settle()
		for i := range keys {
			if err := w.step(Op{K: "load", A: i}); err != nil {
				return fmt.Errorf("at the end, key %v: %w", keys[i], err)
			}
		}
	}
	r.NonTrivial = len(w.all) > 1 && w.st.lookups > 1 && w.st.expired > 0
	r.LabelIf(w.st.expired > 0, "met expired entries")
	r.LabelIf(len(w.handles) > 0, "used handles")
	r.LabelIf(w.re && len(w.log) > 0, "the callback used the cache")
	return nil
}

type pt struct{ X, Y int8 }

func runSCKind(c scCase, results, fates bool, r *pbt.Rec) error {
	switch c.Kind {
	case "string/any":
		return runSC(c, []string{"", "a", "b", "\x00"}, []any{nil, 0, "", "0", int8(0), 1.5, pt{1, 2}}, func(i int) any { return []any{i, fmt.Sprint(i), int16(i), &i}[i%4] }, results, fates, r)
	case "pt/string":
		return runSC(c, []pt{{}, {1, 0}, {0, 1}}, []string{"", "a", "b", "aa"}, func(i int) string { return fmt.Sprint(i) }, results, fates, r)
	case "int/struct":
		return runSC(c, []int{0, 1, -1}, []pt{{}, {1, 2}, {2, 1}}, func(i int) pt { return pt{int8(i), int8(i % 3)} }, results, fates, r)
	}
	if c.Kind == "many" {
		var keys []int
		for i := 0; i < 300; i++ {
			keys = append(keys, i*i)
		}
		return runSC(c, keys, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, func(i int) int { return i }, results, fates, r)
	}
	return runSC(c, []int{0, 1, 2, 3, -7}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, func(i int) int { return i }, results, fates, r)
}

var scKinds = []string{"int/int", "int/int", "string/any", "pt/string", "int/struct"}
var scManyKinds = append([]string{"many"}, slices.Repeat(scKinds, 5)...)

func genSC(kinds []string) func(t *rapid.T) scCase {
	return func(t *rapid.T) scCase {
		kind := rapid.SampledFrom(scManyKinds).Draw(t, "kind")
		if kind == "many" {
			return scCase{Kind: kind, Cb: rapid.Bool().Draw(t, "cb"), Re: rapid.Bool().Draw(t, "re"),
				Ops: append(genOps(t, 1, 1, []string{"fill"}), genOps(t, 1, 12, append([]string{"fill", "wait"}, kinds...))...)}
		}
		return scCase{Kind: kind, Cb: rapid.Bool().Draw(t, "cb"), Re: rapid.Bool().Draw(t, "re"),
			Ops: genOps(t, rapid.SampledFrom([]int{1, 5, 15}).Draw(t, "min"), 40, kinds)}
	}
}

const scRule = "histories of up to 40 operations on a SyncCache of 4 key/value types (at times of 300 keys) with lifetimes from negative to endless and waits from 0.7 ms to an hour, expirations moved through entry handles (live and stale), background sweeps running; "

func SyncCacheLifetime() pbt.Checker {
	return pbt.Prop[scCase]{
		Name: "synccache-lifetime", Quick: 60000, Rule: scRule + "a Range callback that deletes or replaces what it visits; oracle: a map of entries with deadlines; non-trivial: at least 2 entries and 2 lookups, one of them meeting an expired entry",
		Gen: genSC([]string{"store", "store", "store", "load", "load", "los", "los", "lad", "del", "cad", "cvad", "clear", "range", "rangemut", "stop", "extend", "shorten", "set", "set", "wait", "wait", "wait"}),
		Run: func(c scCase, r *pbt.Rec) error { return runSCKind(c, true, false, r) },
	}
}

func SyncCacheCallback() pbt.Checker {
	return pbt.Prop[scCase]{
		Name: "synccache-callback", Quick: 60000, Rule: scRule + "the callback itself uses the cache in half of the cases; after every operation the reports to the deleted-callback are matched with the entries removed; non-trivial: at least 2 entries and 2 lookups, one of them meeting an expired entry",
		Gen: genSC([]string{"store", "store", "store", "load", "load", "los", "los", "lad", "lad", "del", "del", "cad", "cad", "cvad", "cvad", "clear", "range", "rangemut", "extend", "shorten", "set", "wait", "wait", "wait"}),
		Run: func(c scCase, r *pbt.Rec) error { return runSCKind(c, false, true, r) },
	}
}

func TestC06(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C06", SyncCacheLifetime(), SyncCacheLarge(true, false, "range", "range", "load", "lad", "clear"))
	})
}

func TestC07(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C07", SyncCacheCallback(), SyncCacheLarge(false, true, "range", "load", "lad", "clear", "clear", "sweep").Scaled(2))
	})
}
