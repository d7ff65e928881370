package vt

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/lin"
	"verifharness/pbt"
)

const scKeys = 2

// scEnt is one entry: its value (they are all different, so a value names its entry) and
// when its lifetime ends: between from and to.
type scEnt struct {
	val      int32
	from, to int64
}

type scState [scKeys]scEnt

type scWorld struct {
	c        *synccache.SyncCache[int, int]
	log      *oplog[scState]
	n        int
	handles  [][scKeys]*synccache.Entry[int]
	counter  []int
	mu       sync.Mutex
	reported map[int]int
	stored   map[int]int // value -> key, of those that got into the cache
	err      error
	callback bool
	judging  bool
	crossed  int
	moved    map[int][]life
}

func (w *scWorld) fail(format string, a ...any) {
	w.mu.Lock()
	if w.err == nil {
		w.err = fmt.Errorf(format, a...)
	}
	w.mu.Unlock()
}

var ttls = []time.Duration{time.Hour, time.Hour, 2 * time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond, 50 * time.Millisecond, 0, -5 * time.Millisecond, 4 * time.Second}

const ms = int64(time.Millisecond)

// life is one lifetime an entry had: its end, and when it was in force.
type life struct{ until, set, reset int64 }

// lives: can the entry count as live, as gone, during a call? A call may take a while to
// look at the lifetime and to act on it, so every lifetime in force during the call counts.
func (w *scWorld) lives(e scEnt, call, ret int64) (live, gone bool) {
	if e.val == 0 {
		return false, true
	}
	live, gone = call <= e.to+ms, ret >= e.from
	for _, l := range w.moved[int(e.val)] {
		live = live || l.set <= ret && call <= l.until+ms
		gone = gone || l.reset >= call && ret >= l.until
	}
	return live, gone
}

// move gives a live entry another lifetime, at one instant: a dead one may be about to be
// removed, and moving that is not judged.
func (w *scWorld) move(h *synccache.Entry[int], until int64) bool {
	calm.Add(1)
	defer calm.Add(-1)
	w.mu.Lock()
	defer w.mu.Unlock()
	v, now := h.Value(), w.log.now()
	l := w.moved[v]
	if len(l) == 0 || now >= l[len(l)-1].until {
		return false
	}
	l[len(l)-1].reset = now
	w.moved[v] = append(l, life{until, now, 1 << 60})
	h.SetExpiration(w.log.t0.Add(time.Duration(until)))
	return true
}

// removed is the state without key k's entry, nil if its report contradicts that.
func (w *scWorld) removed(s scState, k int) []scState {
	if v := int(s[k].val); v != 0 && w.judging && w.reported[v] != 1 {
		return nil
	}
	s[k] = scEnt{}
	return []scState{s}
}

// look: the outcomes of a call that looks key k up and finds got (0: nothing). del: what it finds it deletes.
func (w *scWorld) look(s scState, k, got int, call, ret int64, del bool) []scState {
	live, gone := w.lives(s[k], call, ret)
	if got != 0 {
		if !live || int(s[k].val) != got {
			return nil
		}
		if del {
			return w.removed(s, k)
		}
		return []scState{s}
	}
	if !gone {
		return nil
	}
	out := w.removed(s, k)
	if s[k].val != 0 && !del {
		out = append(out, s) // another call may have replaced it before it could be removed
	}
	return out
}

func (w *scWorld) do(th int, op Op) {
	k := op.A % scKeys
	ttl := at(ttls, op.C)
	c := w.log.now()
	add := func(ret int64, desc string, step func(s scState) []scState) {
		w.log.add(lin.Op[scState]{Thread: th, Call: c, Ret: ret, Desc: desc, Step: step})
	}
	newVal := func() int {
		w.counter[th]++
		return 1 + th*100 + w.counter[th]
	}
	put := func(v int) {
		w.mu.Lock()
		w.stored[v] = k
		w.moved[v] = []life{{c + int64(ttl), c, 1 << 60}}
		w.mu.Unlock()
	}
	switch op.K {
	case "store":
		v := newVal()
		w.c.Store(k, v, ttl)
		ret := w.log.now()
		put(v)
		add(ret, fmt.Sprintf("Store(%d,%d,%v)", k, v, ttl), func(s scState) []scState {
			// a live value merely replaced is not reported
			if _, gone := w.lives(s[k], c, ret); w.judging && !gone && w.reported[int(s[k].val)] != 0 {
				return nil
			}
			s[k] = scEnt{int32(v), c + int64(ttl), ret + int64(ttl)}
			return []scState{s}
		})
	case "los":
		v := newVal()
		e, loaded := w.c.LoadOrStore(k, v, ttl)
		ret := w.log.now()
		if e == nil {
			w.fail("LoadOrStore(%d) returned no entry", k)
			return
		}
		got := e.Value()
		w.handles[th][k] = e
		if !loaded {
			put(v)
		}
		add(ret, fmt.Sprintf("LoadOrStore(%d,%d,%v) = %d,%v", k, v, ttl, got, loaded), func(s scState) []scState {
			if loaded {
				return w.look(s, k, got, c, ret, false)
			}
			if got != v {
				return nil
			}
			t := w.look(s, k, 0, c, ret, true)
			for i := range t {
				t[i][k] = scEnt{int32(v), c + int64(ttl), ret + int64(ttl)}
			}
			return t
		})
	case "load":
		e, ok := w.c.Load(k)
		ret := w.log.now()
		got := 0
		if ok {
			got = e.Value()
			w.handles[th][k] = e
		}
		add(ret, fmt.Sprintf("Load(%d) = %d,%v", k, got, ok), func(s scState) []scState { return w.look(s, k, got, c, ret, false) })
	case "lad":
		e, ok := w.c.LoadAndDelete(k)
		ret := w.log.now()
		got := 0
		if ok {
			got = e.Value()
		}
		add(ret, fmt.Sprintf("LoadAndDelete(%d) = %d,%v", k, got, ok), func(s scState) []scState { return w.look(s, k, got, c, ret, true) })
	case "del":
		w.c.Delete(k)
		ret := w.log.now()
		add(ret, fmt.Sprintf("Delete(%d)", k), func(s scState) []scState { return w.removed(s, k) })
	case "cad":
		h := w.handles[th][k]
		if h == nil {
			return
		}
		ok := w.c.CompareAndDelete(k, h)
		ret := w.log.now()
		v := h.Value()
		add(ret, fmt.Sprintf("CompareAndDelete(%d, entry of %d) = %v", k, v, ok), func(s scState) []scState {
			if int(s[k].val) != v {
				if ok {
					return nil
				}
				return []scState{s}
			}
			if !ok { // then it has expired, and something else removed it
				return w.look(s, k, 0, c, ret, false)
			}
			return w.removed(s, k)
		})
	case "cvad":
		v := 1 + w.n*100 + 1 + op.B%3 // one of the setup's
		if op.B >= 2 && w.handles[th][k] != nil {
			v = w.handles[th][k].Value()
		}
		ok := w.c.CompareValueAndDelete(k, v)
		ret := w.log.now()
		add(ret, fmt.Sprintf("CompareValueAndDelete(%d,%d) = %v", k, v, ok), func(s scState) []scState {
			if ok {
				return w.look(s, k, v, c, ret, true)
			}
			var out []scState
			if live, _ := w.lives(s[k], c, ret); live && int(s[k].val) != v {
				out = append(out, s)
			}
			return append(out, w.look(s, k, 0, c, ret, false)...)
		})
	case "setexp":
		h := w.handles[th][k]
		if h == nil {
			return
		}
		v := h.Value()
		until := c + int64(ttl)
		if !w.move(h, until) {
			return
		}
		ret := w.log.now()
		add(ret, fmt.Sprintf("SetExpiration(entry of %d, %d)", v, until), func(s scState) []scState {
			var out []scState
			for i := range s {
				if int(s[i].val) != v {
					continue
				}
				t := s
				t[i] = scEnt{int32(v), until, until}
				out = append(out, t)
				if _, gone := w.lives(s[i], c, ret); gone { // it may have been found expired before
					out = append(out, w.removed(s, i)...)
				}
				return out
			}
			return []scState{s}
		})
	case "range":
		var seen [scKeys]bool
		w.c.Range(func(k int, e *synccache.Entry[int]) bool {
			now, v := w.log.now(), e.Value()
			if k < 0 || k >= scKeys || seen[k] {
				w.fail("Range visits key %d, which was never stored or was visited before", k)
				return false
			}
			seen[k] = true
			w.log.add(lin.Op[scState]{Thread: th, Call: c, Ret: now, Desc: fmt.Sprintf("(part of a Range) visits %d = %d", k, v), Step: func(s scState) []scState {
				return w.look(s, k, v, c, now, false)
			}})
			return true
		})
		ret := w.log.now()
		for k, ok := range seen {
			if !ok {
				add(ret, fmt.Sprintf("Range does not visit %d", k), func(s scState) []scState { return w.look(s, k, 0, c, ret, false) })
			}
		}
	default:
		panic("unknown op " + op.K)
	}
}

// phase is how long after a sweep the threads start. tick is when sweeps happen.
var (
	tick   time.Time
	phases = []time.Duration{-time.Hour, -time.Hour, 0, -3 * time.Millisecond, -20 * time.Microsecond, -300}
)

// align finds out when sweeps happen, and sleeps until the wanted distance to the next one.
func align(phase int) {
	defer nap(15, 1)
	d := at(phases, phase)
	if d == -time.Hour {
		return
	}
	if tick.IsZero() {
		c := synccache.NewSyncCache[int, int](time.Hour, synccache.WithDeletedCallback[int, int](func(int) { tick = time.Now() }))
		c.Store(1, 1, 0)
		for i := 0; i < 20 && tick.IsZero(); i++ {
			time.Sleep(time.Second)
		}
		c.Close()
		if tick.IsZero() {
			tick = time.Now()
		}
	}
	const period = 5 * time.Second
	next := tick.Add(d)
	if gap := time.Until(next); gap < 0 {
		next = next.Add((-gap + period - 1) / period * period)
	}
	time.Sleep(time.Until(next))
}

func runCache(p Prog, r *pbt.Rec, fates bool) error {
	align(p.Phase)
	n := len(p.Threads)
	w := &scWorld{log: &oplog[scState]{t0: time.Now()}, n: n, handles: make([][scKeys]*synccache.Entry[int], n+1), counter: make([]int, n+1),
		reported: map[int]int{}, stored: map[int]int{}, moved: map[int][]life{}}
	w.callback = fates || p.Conf == 1
	if w.callback {
		w.c = synccache.NewSyncCache[int, int](time.Hour, synccache.WithDeletedCallback[int, int](func(v int) {
			w.mu.Lock()
			w.reported[v]++
			w.mu.Unlock()
		}))
	} else {
		w.c = synccache.NewSyncCache[int, int](time.Hour)
	}
	defer w.c.Close()
	for _, op := range p.Setup {
		time.Sleep(at(waits, op.W))
		w.do(n, op)
	}
	for i := range p.Threads {
		w.handles[i] = w.handles[n]
	}
	before := w.log.now()
	if err := run(p, w.do); err != nil {
		return err
	}
	for k := 0; k < scKeys; k++ {
		w.do(n, Op{K: "load", A: k})
	}
	ops := w.log.ops
	if len(ops) > 64 {
		return nil
	}
	for _, o := range ops {
		if o.Call >= before && o.Ret-o.Call > ms {
			w.crossed++
		}
	}
	r.NonTrivial = conflict(p)
	r.LabelIf(w.crossed > 0, "an operation longer than the resolution")
	r.LabelIf(at(phases, p.Phase) != -time.Hour, "together with a sweep")
	why := lin.Check(scState{}, ops, nil)
	if !fates {
		if w.err != nil {
			return w.err
		}
		if why != "" {
			return fmt.Errorf("%s", why)
		}
		return nil
	}
	if why != "" || w.err != nil {
		return nil // not even without the reports is there an explanation: not judged here
	}
	w.mu.Lock()
	hist := fmt.Sprintf("reported: %v\n", w.reported)
	w.mu.Unlock()
	for _, o := range ops {
		hist += fmt.Sprintf("  T%d [%d,%d] %s\n", o.Thread, o.Call, o.Ret, o.Desc)
	}
	// everything left is reported after a Clear; in between nothing but a sweep can be at work
	w.c.Clear()
	time.Sleep(time.Second) // a sweep may have been held up between removal and report
	w.mu.Lock()
	defer w.mu.Unlock()
	for v, c := range w.reported {
		if _, ok := w.stored[v]; !ok {
			return fmt.Errorf("%d was reported although it was never in the cache\n%s", v, hist)
		}
		if c > 1 {
			return fmt.Errorf("%d was reported %d times\n%s", v, c, hist)
		}
	}
	w.judging = true
	if bad := lin.Check(scState{}, ops, func(s scState) bool {
		for _, e := range s {
			if e.val != 0 && w.reported[int(e.val)] != 1 {
				return false
			}
		}
		return true
	}); bad != "" {
		return fmt.Errorf("reported at the end, after a Clear: %v; with these reports %s", w.reported, bad)
	}
	return nil
}

// conflict: two threads use one key and one of them changes it.
func conflict(p Prog) bool {
	var users, writers [scKeys]int
	for _, t := range p.Threads {
		var u, w [scKeys]bool
		for _, o := range t {
			k := o.A % scKeys
			u[k] = true
			w[k] = w[k] || o.K != "load" && o.K != "range"
		}
		for k := range u {
			if u[k] {
				users[k]++
			}
			if w[k] {
				writers[k]++
			}
		}
	}
	for k := range users {
		if users[k] > 1 && writers[k] > 0 {
			return true
		}
	}
	return false
}

func scOp(kinds []string) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "key"), B: pick(t, "b", 6), C: pick(t, "c", len(ttls)), W: pick(t, "wait", len(waits))}
	})
}

func scProp(name, rule string, quick int, fates bool, kinds []string) pbt.Checker {
	return pbt.Prop[Prog]{
		Name: name, Quick: quick, Rule: rule,
		Gen: func(t *rapid.T) Prog {
			return genProg(t, 2, 4, 3, 4, 45, scOp([]string{"store", "store", "los", "del", "load"}), scOp(kinds))
		},
		Run: func(p Prog, r *pbt.Rec) error { return runCache(p, r, fates) },
	}
}

const scRule = "programs of 2 or 3 threads of 1 to 4 operations on 2 keys with waits, after a setup of up to 4 operations, lifetimes from negative to an hour that end between and inside the operations, expirations moved, held up at generated synchronization operations, some of them together with the background sweep, on a fake clock; "

func TestC09(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C09", scProp("synccache-timed", scRule+"the results must have a sequential explanation in which expired entries are absent; non-trivial: two threads work on one key and one of them changes it", 200000, false,
			[]string{"store", "store", "load", "load", "los", "los", "los", "lad", "del", "cad", "cvad", "setexp", "range"}))
	})
}

func TestC07(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C07", scProp("synccache-callback-timed", scRule+"every removed entry must have been reported exactly once, in a sequential explanation of the results; non-trivial: two threads work on one key and one of them changes it", 150000, true,
			[]string{"store", "load", "los", "los", "lad", "lad", "del", "cad", "cvad", "setexp", "range"}))
	})
}
