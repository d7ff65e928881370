package conc

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/lin"
	"verifharness/pbt"
)

const scKeys = 2

// scState: for each key the live value, or 0. All stored values are different, so a
// value names its entry. The clock stands still during a program: values are either
// stored with a long lifetime or stored already expired (they count as absent).
type scState [scKeys]int16

type scRun struct {
	c        *synccache.SyncCache[int, int]
	log      *oplog[scState]
	n        int
	handles  [][scKeys]*synccache.Entry[int]
	counter  []int
	mu       sync.Mutex
	reported map[int]int
	key      map[int]int  // value -> key
	dead     map[int]bool // value stored already expired
	err      []error
	callback bool
	judging  bool
}

func (w *scRun) newVal(th, k int, dead bool) int {
	w.counter[th]++
	v := 1 + th*100 + w.counter[th]
	w.mu.Lock()
	w.key[v] = k
	if dead {
		w.dead[v] = true
	}
	w.mu.Unlock()
	return v
}

func (w *scRun) report(v int) {
	w.mu.Lock()
	w.reported[v]++
	w.mu.Unlock()
	yield()
}

const (
	long = time.Hour
	gone = -5 * time.Millisecond
)

func (w *scRun) do(th int, op Op) {
	k := op.A % scKeys
	add := func(call int64, desc string, step func(s scState) []scState) {
		w.log.add(lin.Op[scState]{Thread: th, Call: call, Ret: now(), Desc: desc, Step: step})
	}
	ttl, dead := long, op.C == 1
	if dead {
		ttl = gone
	}
	yield()
	c := now()
	switch op.K {
	case "store":
		v := w.newVal(th, k, dead)
		w.c.Store(k, v, ttl)
		add(c, fmt.Sprintf("Store(%d,%d,%v)", k, v, ttl), func(s scState) []scState {
			if old := int(s[k]); w.fates() && old != 0 && w.reported[old] != 0 {
				return nil // a live value merely replaced is not reported
			}
			s[k] = 0
			if !dead {
				s[k] = int16(v)
			}
			return one(s)
		})
	case "load":
		e, ok := w.c.Load(k)
		got := 0
		if ok {
			got = e.Value()
			w.handles[th][k] = e
			if w.isDead(got) {
				w.err[th] = fmt.Errorf("Load(%d) returned %d, which had expired", k, got)
			}
		}
		add(c, fmt.Sprintf("Load(%d) = %d,%v", k, got, ok), func(s scState) []scState {
			if int(s[k]) != got {
				return nil
			}
			return one(s)
		})
	case "los":
		v := w.newVal(th, k, dead)
		e, loaded := w.c.LoadOrStore(k, v, ttl)
		got := 0
		if e != nil {
			got = e.Value()
		}
		if !dead || loaded {
			w.handles[th][k] = e
		}
		if loaded && w.isDead(got) {
			w.err[th] = fmt.Errorf("LoadOrStore(%d) loaded %d, which had expired", k, got)
		}
		add(c, fmt.Sprintf("LoadOrStore(%d,%d,%v) = %d,%v", k, v, ttl, got, loaded), func(s scState) []scState {
			if loaded {
				if got == 0 || int(s[k]) != got {
					return nil
				}
				return one(s)
			}
			if got != v || s[k] != 0 {
				return nil
			}
			if !dead {
				s[k] = int16(v)
			}
			return one(s)
		})
		if loaded {
			w.mu.Lock()
			delete(w.key, v) // never stored
			w.mu.Unlock()
		}
	case "lad":
		e, ok := w.c.LoadAndDelete(k)
		got := 0
		if ok {
			got = e.Value()
		}
		if ok && w.isDead(got) {
			w.err[th] = fmt.Errorf("LoadAndDelete(%d) returned %d, which had expired", k, got)
		}
		add(c, fmt.Sprintf("LoadAndDelete(%d) = %d,%v", k, got, ok), func(s scState) []scState {
			if int(s[k]) != got {
				return nil
			}
			return w.remove(s, k)
		})
	case "del":
		w.c.Delete(k)
		add(c, fmt.Sprintf("Delete(%d)", k), func(s scState) []scState { return w.remove(s, k) })
	case "cad":
		h := w.handles[th][k]
		if h == nil {
			return
		}
		ok := w.c.CompareAndDelete(k, h)
		v := h.Value()
		add(c, fmt.Sprintf("CompareAndDelete(%d, entry of %d) = %v", k, v, ok), func(s scState) []scState {
			if (int(s[k]) == v) != ok {
				return nil
			}
			if ok {
				return w.remove(s, k)
			}
			return one(s)
		})
	case "cvad":
		v := 1 + op.B%4
		if op.B >= 2 && w.handles[th][k] != nil {
			v = w.handles[th][k].Value()
		} else {
			v = 1 + w.n*100 + 1 + op.B%3 // one of the setup's
		}
		ok := w.c.CompareValueAndDelete(k, v)
		add(c, fmt.Sprintf("CompareValueAndDelete(%d,%d) = %v", k, v, ok), func(s scState) []scState {
			if (int(s[k]) == v) != ok {
				return nil
			}
			if ok {
				return w.remove(s, k)
			}
			return one(s)
		})
	case "clear":
		w.c.Clear()
		if !w.callback {
			add(c, "Clear()", func(scState) []scState { return one(scState{}) })
			return
		}
		// with a callback entries are removed one by one: each key for itself, and a key
		// whose entry is replaced meanwhile may keep the new one
		for k := 0; k < scKeys; k++ {
			add(c, fmt.Sprintf("(Clear of %d)", k), func(s scState) []scState {
				return append(w.remove(s, k), s)
			})
		}
	case "range":
		var seen [scKeys]bool
		w.c.Range(func(k int, e *synccache.Entry[int]) bool {
			at, v := now(), e.Value()
			if w.isDead(v) {
				w.err[th] = fmt.Errorf("Range visits %d=%d, which had expired", k, v)
			}
			if k < 0 || k >= scKeys || seen[k] {
				w.err[th] = fmt.Errorf("Range visits key %d, which was never stored or was visited before", k)
				return false
			}
			seen[k] = true
			w.log.add(lin.Op[scState]{Thread: th, Call: c, Ret: at, Desc: fmt.Sprintf("(part of a Range) visits %d = %d", k, v), Step: func(s scState) []scState {
				if int(s[k]) != v {
					return nil
				}
				return one(s)
			}})
			yield()
			return true
		})
		for k, ok := range seen {
			if !ok {
				add(c, fmt.Sprintf("Range does not visit %d", k), func(s scState) []scState {
					if s[k] != 0 {
						return nil
					}
					return one(s)
				})
			}
		}
	case "sweep":
		sweep(w.c)
	default:
		panic("unknown op " + op.K)
	}
}

func (w *scRun) isDead(v int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.dead[v]
}

// fates: whether this check judges the reports to the callback.
func (w *scRun) fates() bool { return w.reported != nil && w.judging }

func (w *scRun) remove(s scState, k int) []scState {
	old := int(s[k])
	s[k] = 0
	if w.fates() && old != 0 && w.reported[old] != 1 {
		return nil
	}
	return one(s)
}

func scExec(p Prog, fates bool) func(run runner) error {
	return func(run runner) error {
		n := len(p.Threads)
		w := &scRun{log: newLog[scState](n), n: n, handles: make([][scKeys]*synccache.Entry[int], n+1), counter: make([]int, n+1), err: make([]error, n+1),
			reported: map[int]int{}, key: map[int]int{}, dead: map[int]bool{}}
		w.callback = fates || p.Conf == 1
		if w.callback {
			w.c = synccache.NewSyncCache[int, int](time.Hour, synccache.WithDeletedCallback[int, int](w.report))
		} else {
			w.c = synccache.NewSyncCache[int, int](time.Hour)
		}
		defer w.c.Close()
		for _, op := range p.Setup {
			w.do(n, op)
		}
		for i := range p.Threads {
			w.handles[i] = w.handles[n]
		}
		var fs []func()
		for i, ops := range p.Threads {
			fs = append(fs, func() {
				for _, op := range ops {
					w.do(i, op)
				}
			})
		}
		out := run(fs...)
		if out.Limit || out.Stuck {
			return nil
		}
		if err := verdict(out); err != nil {
			return err
		}
		for k := 0; k < scKeys; k++ {
			w.do(n, Op{K: "load", A: k})
		}
		ops := w.log.all()
		if len(ops) > 64 {
			return nil
		}
		why := lin.Check(scState{}, ops, nil)
		if !fates {
			for _, e := range w.err {
				if e != nil {
					return e
				}
			}
			if why != "" {
				return fmt.Errorf("%s", why)
			}
			return nil
		}
		// reports to the callback
		hist := func() (s string) {
			for _, o := range ops {
				s += fmt.Sprintf("  T%d [%d,%d] %s\n", o.Thread, o.Call, o.Ret, o.Desc)
			}
			return
		}
		for v, c := range w.reported {
			if _, ok := w.key[v]; !ok {
				return fmt.Errorf("%d was reported although it was never in the cache\n%s", v, hist())
			}
			if c > 1 {
				return fmt.Errorf("%d was reported %d times\n%s", v, c, hist())
			}
		}
		for k := 0; k < scKeys; k++ {
			if e, ok := w.c.Load(k); ok && w.reported[e.Value()] != 0 {
				return fmt.Errorf("%d=%d is in the cache although its removal was reported\n%s", k, e.Value(), hist())
			}
		}
		if why != "" {
			return nil // not even without the reports is there an explanation: not judged here
		}
		w.judging = true
		if bad := lin.Check(scState{}, ops, nil); bad != "" {
			return fmt.Errorf("reported: %v; with these reports %s", w.reported, bad)
		}
		w.judging = false
		// everything left is reported by a final Clear, once
		w.c.Clear()
		stores := map[int]int{}
		for i, t := range append(append([][]Op{}, p.Threads...), p.Setup) {
			_ = i
			for _, op := range t {
				if op.K == "store" {
					stores[op.A%scKeys]++
				}
			}
		}
		missing := map[int]int{}
		for v, k := range w.key {
			switch w.reported[v] {
			case 0:
				missing[k]++
			case 1:
			default:
				return fmt.Errorf("%d was reported %d times\n%s", v, w.reported[v], hist())
			}
		}
		for k, m := range missing {
			// only a Store can replace an entry, each at most one
			if m > stores[k] {
				return fmt.Errorf("%d entries of key %d were removed without a report, and only %d Stores can have replaced one\n%s", m, k, stores[k], hist())
			}
		}
		return nil
	}
}

func scOp(kinds []string) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "key"), B: pick(t, "b", 6), C: pick(t, "c", 3)}
	})
}

func scProp(name, rule string, quick int, fates bool, kinds []string) pbt.Checker {
	if !canSweep {
		var ks []string
		for _, k := range kinds {
			if k != "sweep" {
				ks = append(ks, k)
			}
		}
		kinds = ks
	}
	return pbt.Prop[Prog]{
		Name: name, Quick: quick, Rule: rule,
		Gen: func(t *rapid.T) Prog {
			return Prog{Conf: pick(t, "conf", 2), Setup: rapid.SliceOfN(scOp([]string{"store", "store", "store", "del", "load", "range"}), 0, 4).Draw(t, "setup"),
				Threads: genThreads(t, 3, 3, scOp(kinds))}
		},
		Run: func(p Prog, r *pbt.Rec) error {
			r.NonTrivial = conflict(p)
			dead := false
			for _, t := range append(append([][]Op{}, p.Threads...), p.Setup) {
				for _, o := range t {
					dead = dead || (o.K == "store" || o.K == "los") && o.C == 1
				}
			}
			r.LabelIf(dead, "with expired entries")
			return explore(p, len(p.Threads), r, rwBudget(), scExec(p, fates))
		},
	}
}

const scProgRule = "programs of 2 or 3 threads of 1 to 3 operations on 2 keys after a setup of up to 4 operations, live and already expired entries, sweeps included, clock standing still; each program is executed under every schedule with at most one preemption (or a sample) and under random schedules with several; "

// An entry's lifetime in half hours (odd, so it is never just about to end): the clock
// stands still, so only the operations move it.
func extendExec(p Prog) func(run runner) error {
	return func(run runner) error {
		base := time.Now()
		e := synccache.NewEntry(1, time.Duration(p.Conf*2+1)*30*time.Minute)
		log := newLog[int16](len(p.Threads))
		do := func(th int, op Op) {
			yield()
			c := now()
			var step func(s int16) []int16
			var desc string
			d := int16(op.A) - 2
			switch op.K {
			case "add":
				e.AddExpiration(time.Duration(d) * time.Hour)
				desc = fmt.Sprintf("AddExpiration(%dh)", d)
				step = func(s int16) []int16 { return one(s + 2*d) }
			case "set":
				e.SetExpiration(base.Add(time.Duration(2*d+1) * 30 * time.Minute))
				desc = fmt.Sprintf("SetExpiration(%d.5h from now)", d)
				step = func(int16) []int16 { return one(2*d + 1) }
			default:
				x := e.IsExpired()
				desc = fmt.Sprintf("IsExpired() = %v", x)
				step = func(s int16) []int16 {
					if x != (s < 0) {
						return nil
					}
					return one(s)
				}
			}
			log.add(lin.Op[int16]{Thread: th, Call: c, Ret: now(), Desc: desc, Step: step})
		}
		var fs []func()
		for i, ops := range p.Threads {
			fs = append(fs, func() {
				for _, op := range ops {
					do(i, op)
				}
			})
		}
		if err := verdict(run(fs...)); err != nil {
			return err
		}
		// where the lifetime ends now: found by moving it hour by hour
		end, c := int16(-1), now()
		for ; e.IsExpired() && end > -200; end -= 2 {
			e.AddExpiration(time.Hour)
		}
		if end == -1 {
			for ; !e.IsExpired() && end < 200; end += 2 {
				e.AddExpiration(-time.Hour)
			}
		} else {
			end += 2
		}
		log.add(lin.Op[int16]{Thread: len(p.Threads), Call: c, Ret: now(), Desc: fmt.Sprintf("the lifetime ends %d half hours from now", end), Step: func(s int16) []int16 {
			if s != end {
				return nil
			}
			return one(s)
		}})
		if bad := lin.Check(int16(p.Conf*2+1), log.all(), nil); bad != "" {
			return fmt.Errorf("an entry with a lifetime of %d.5h: %s", p.Conf, bad)
		}
		return nil
	}
}

func extendProp() pbt.Checker {
	op := rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom([]string{"add", "add", "add", "set", "q"}).Draw(t, "k"), A: pick(t, "d", 5)}
	})
	return pbt.Prop[Prog]{
		Name: "synccache-extend-concurrent", Quick: scale(600),
		Rule: "programs of 2 or 3 threads of 1 to 3 AddExpiration, SetExpiration and IsExpired calls on one entry, clock standing still, executed as above; results and the lifetime found afterwards must have a sequential explanation; non-trivial: two threads move the expiration",
		Gen: func(t *rapid.T) Prog {
			return Prog{Conf: pick(t, "conf", 3), Threads: genThreads(t, 3, 3, op)}
		},
		Run: func(p Prog, r *pbt.Rec) error {
			movers := 0
			for _, th := range p.Threads {
				for _, o := range th {
					if o.K != "q" {
						movers++
						break
					}
				}
			}
			r.NonTrivial = movers > 1
			return explore(p, len(p.Threads), r, rwBudget(), extendExec(p))
		},
	}
}

func TestC09(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C09", scProp("synccache-linearizable", scProgRule+"the results must have a sequential explanation in which expired entries are absent; non-trivial: two threads work on one key and one of them changes it", scale(6000), false,
			[]string{"store", "store", "load", "load", "los", "los", "los", "lad", "del", "cad", "cvad", "range", "sweep", "sweep"}), extendProp())
	})
}

func TestC07(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C07", scProp("synccache-callback-concurrent", scProgRule+"every removed entry must have been reported exactly once, in a sequential explanation of the results; non-trivial: two threads work on one key and one of them changes it", scale(6000), true,
			[]string{"store", "load", "los", "los", "lad", "lad", "del", "cad", "cvad", "range", "clear", "sweep", "sweep"}))
	})
}
