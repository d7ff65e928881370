package conc

import (
	"fmt"
	"sync/atomic"
	"testing"

	"github.com/zijiren233/gencontainer/rwmap"
	"pgregory.net/rapid"

	"verifharness/lin"
	"verifharness/pbt"
)

const rwKeys = 3

// rwState: for each key the value, or 0 if absent.
type rwState [rwKeys]int16

type rwRun struct {
	m       rwmap.RWMap[int, int]
	log     *oplog[rwState]
	seen    [][rwKeys]int // per thread: the last value it saw under each key
	err     []error       // per thread: a rule broken that needs no order
	record  bool          // Range reports take part in the history
	counter []int
	bulk    int         // further keys, stored during the setup and only ever removed by Clear
	cleared bool        // the program has a Clear that may meet them
	did     atomic.Bool // a Clear met them
}

func (w *rwRun) fill() {
	for k := 0; k < w.bulk; k++ {
		w.m.Store(rwKeys+k, 10000+k)
	}
}

// rest checks the further keys when nothing runs.
func (w *rwRun) rest() error {
	for k := 0; k < w.bulk; k++ {
		v, ok := w.m.Load(rwKeys + k)
		if ok == w.did.Load() || ok && v != 10000+k {
			return fmt.Errorf("at rest: further key %d of %d, not used by the threads, holds %d,%v (cleared: %v)", k, w.bulk, v, ok, w.did.Load())
		}
	}
	return nil
}

// aftermath uses the map from one goroutine once nothing else runs: whatever the threads did, it
// must still be an ordinary map, also after its entries have moved on to the next read map.
func (w *rwRun) aftermath() error {
	const extra = 1 << 20 // never used before
	expect := func(what string, want func(k int) int) error {
		for k := 0; k < rwKeys; k++ {
			v, ok := w.m.Load(k)
			if x := want(k); ok != (x != 0) || ok && v != x {
				return fmt.Errorf("used by one goroutine after the threads have ended, Load(%d)=%d,%v %s, want %d (0: absent)", k, v, ok, what, x)
			}
		}
		return nil
	}
	promote := func(x int) error {
		w.m.Store(extra+x, 1)
		if _, ok := w.m.Load(extra + x + 100); ok {
			return fmt.Errorf("used by one goroutine after the threads have ended, Load finds a key that was never stored")
		}
		w.m.Range(func(int, int) bool { return false })
		return nil
	}
	absent := func(int) int { return 0 }
	stored := func(by int) func(k int) int { return func(k int) int { return by + k } }
	for k := 0; k < rwKeys; k++ {
		w.m.Store(k, 500+k)
	}
	if err := expect("right after every key was stored", stored(500)); err != nil {
		return err
	}
	if err := promote(0); err != nil {
		return err
	}
	if err := expect("after every key and a new one was stored", stored(500)); err != nil {
		return err
	}
	for k := 0; k < rwKeys; k++ {
		if v, ok := w.m.LoadAndDelete(k); !ok || v != 500+k {
			return fmt.Errorf("used by one goroutine after the threads have ended, LoadAndDelete(%d)=%d,%v, want %d", k, v, ok, 500+k)
		}
	}
	if err := promote(1); err != nil {
		return err
	}
	if err := expect("after every key was deleted and a new one stored", absent); err != nil {
		return err
	}
	for k := 0; k < rwKeys; k++ {
		if v, loaded := w.m.LoadOrStore(k, 600+k); loaded || v != 600+k {
			return fmt.Errorf("used by one goroutine after the threads have ended, LoadOrStore(%d,%d)=%d,%v with every key deleted", k, 600+k, v, loaded)
		}
	}
	if err := promote(2); err != nil {
		return err
	}
	return expect("after every key was stored again", stored(600))
}

func hasClear(ops []Op) bool {
	for _, o := range ops {
		if o.K == "clear" || hasClear(o.V) {
			return true
		}
	}
	return false
}

// rwVal: small values are shared, the others are unique to the operation.
func (w *rwRun) val(th, b int) int {
	if b < 3 {
		return b + 1
	}
	w.counter[th]++
	return 100 + th*1000 + w.counter[th]
}

func one[S any](s S) []S { return []S{s} }

func (w *rwRun) do(th int, op Op, depth int) {
	k := op.A % rwKeys
	add := func(call, ret int64, desc string, step func(s rwState) []rwState) {
		w.log.add(lin.Op[rwState]{Thread: th, Call: call, Ret: ret, Desc: desc, Step: step})
	}
	set := func(s rwState, v int) []rwState { s[k] = int16(v); return one(s) }
	yield()
	c := now()
	switch op.K {
	case "load":
		v, ok := w.m.Load(k)
		r := now()
		if !ok {
			v = 0
		}
		w.seen[th][k] = v
		add(c, r, fmt.Sprintf("Load(%d) = %d,%v", k, v, ok), func(s rwState) []rwState {
			if int(s[k]) != v {
				return nil
			}
			return one(s)
		})
	case "store":
		v := w.val(th, op.B)
		w.m.Store(k, v)
		add(c, now(), fmt.Sprintf("Store(%d,%d)", k, v), func(s rwState) []rwState { return set(s, v) })
	case "los":
		v := w.val(th, op.B)
		got, loaded := w.m.LoadOrStore(k, v)
		r := now()
		w.seen[th][k] = got
		add(c, r, fmt.Sprintf("LoadOrStore(%d,%d) = %d,%v", k, v, got, loaded), func(s rwState) []rwState {
			if loaded {
				if s[k] == 0 || int(s[k]) != got {
					return nil
				}
				return one(s)
			}
			if s[k] != 0 || got != v {
				return nil
			}
			return set(s, v)
		})
	case "lad":
		got, loaded := w.m.LoadAndDelete(k)
		r := now()
		if !loaded {
			got = 0
		}
		add(c, r, fmt.Sprintf("LoadAndDelete(%d) = %d,%v", k, got, loaded), func(s rwState) []rwState {
			if int(s[k]) != got {
				return nil
			}
			return set(s, 0)
		})
	case "del":
		w.m.Delete(k)
		add(c, now(), fmt.Sprintf("Delete(%d)", k), func(s rwState) []rwState { return set(s, 0) })
	case "swap":
		v := w.val(th, op.B)
		got, loaded := w.m.Swap(k, v)
		r := now()
		if !loaded {
			got = 0
		}
		add(c, r, fmt.Sprintf("Swap(%d,%d) = %d,%v", k, v, got, loaded), func(s rwState) []rwState {
			if int(s[k]) != got {
				return nil
			}
			return set(s, v)
		})
	case "cas", "cad":
		old := op.C%3 + 1
		if op.C >= 3 && w.seen[th][k] != 0 {
			old = w.seen[th][k]
		}
		if op.K == "cas" {
			v := w.val(th, op.B)
			ok := w.m.CompareAndSwap(k, old, v)
			add(c, now(), fmt.Sprintf("CompareAndSwap(%d,%d,%d) = %v", k, old, v, ok), func(s rwState) []rwState {
				if (int(s[k]) == old) != ok {
					return nil
				}
				if ok {
					return set(s, v)
				}
				return one(s)
			})
		} else {
			ok := w.m.CompareAndDelete(k, old)
			add(c, now(), fmt.Sprintf("CompareAndDelete(%d,%d) = %v", k, old, ok), func(s rwState) []rwState {
				if (int(s[k]) == old) != ok {
					return nil
				}
				if ok {
					return set(s, 0)
				}
				return one(s)
			})
		}
	case "clear":
		w.m.Clear()
		w.did.Store(true)
		add(c, now(), "Clear()", func(rwState) []rwState { return one(rwState{}) })
	case "range":
		type visit struct {
			k, v int
			at   int64
		}
		var visits []visit
		var bulk map[int]bool
		stop := len(op.V) > 0 && op.B == 1
		n := 0
		w.m.Range(func(k, v int) bool {
			if k >= rwKeys && k < rwKeys+w.bulk {
				if bulk[k] || v != 10000+k-rwKeys {
					w.err[th] = fmt.Errorf("Range visits further key %d with %d, again: %v", k-rwKeys, v, bulk[k])
				}
				if bulk == nil {
					bulk = map[int]bool{}
				}
				bulk[k] = true
				if depth == 0 && n < len(op.V) && k%3 == 0 {
					w.do(th, op.V[n], 1)
					n++
				}
				return true
			}
			for _, x := range visits {
				if x.k == k {
					w.err[th] = fmt.Errorf("Range visits key %d twice", k)
				}
			}
			if k < 0 || k >= rwKeys {
				w.err[th] = fmt.Errorf("Range visits key %d, which was never stored", k)
				return false
			}
			visits = append(visits, visit{k, v, now()})
			if depth == 0 && n < len(op.V) {
				w.do(th, op.V[n], 1)
				n++
			} else {
				yield()
			}
			return !stop
		})
		r := now()
		if !w.record {
			return
		}
		if !(stop && len(visits) > 0) && !w.cleared && len(bulk) != w.bulk {
			w.err[th] = fmt.Errorf("Range visits %d of %d further keys, all of which are present during the whole call", len(bulk), w.bulk)
		}
		seen := map[int]bool{}
		for _, x := range visits {
			seen[x.k] = true
			add(c, x.at, fmt.Sprintf("(part of a Range from %d on) visits %d = %d", c, x.k, x.v), func(s rwState) []rwState {
				if int(s[x.k]) != x.v {
					return nil
				}
				return one(s)
			})
		}
		if stop && len(visits) > 0 {
			return
		}
		for k := 0; k < rwKeys; k++ {
			if !seen[k] {
				add(c, r, fmt.Sprintf("Range does not visit %d", k), func(s rwState) []rwState {
					if s[k] != 0 {
						return nil
					}
					return one(s)
				})
			}
		}
	case "slowlen":
		w.m.SlowLen()
	default:
		panic("unknown op " + op.K)
	}
}

type rwMode int

const (
	rwLin rwMode = iota
	rwLen
	rwRange
)

func rwExec(p Prog, mode rwMode) func(run runner) error {
	return func(run runner) error {
		n := len(p.Threads)
		w := &rwRun{log: newLog[rwState](n), seen: make([][rwKeys]int, n+1), err: make([]error, n+1), counter: make([]int, n+1), record: mode == rwRange, bulk: p.Conf / 2}
		if p.Conf%2 == 0 {
			w.fill()
		}
		w.cleared = true // not judged yet: the setup may end with the further keys still to come
		for _, op := range p.Setup {
			w.do(n, op, 0)
		}
		if p.Conf%2 == 1 {
			w.fill()
			w.did.Store(false)
		}
		w.cleared = p.Conf%2 == 0 && hasClear(p.Setup)
		for _, ops := range p.Threads {
			w.cleared = w.cleared || hasClear(ops)
		}
		var fs []func()
		for i, ops := range p.Threads {
			fs = append(fs, func() {
				for _, op := range ops {
					w.do(i, op, 0)
				}
			})
		}
		out := run(fs...)
		if out.Limit || out.Stuck {
			return nil
		}
		if err := verdict(out); err != nil {
			return err
		}
		if mode == rwLen {
			want := 0
			for k := 0; k < rwKeys; k++ {
				if _, ok := w.m.Load(k); ok {
					want++
				}
			}
			if !w.did.Load() {
				want += w.bulk
			}
			if got := w.m.Len(); got != int64(want) {
				return fmt.Errorf("at rest Len()=%d with %d entries; history:\n%s", got, want, describe(w.log.all()))
			}
			if got := w.m.SlowLen(); got != int64(want) {
				return fmt.Errorf("at rest SlowLen()=%d with %d entries", got, want)
			}
			// and it does not drift afterwards
			for i := 0; i < 2; i++ {
				for k := 0; k < rwKeys+w.bulk; k++ {
					w.m.Delete(k)
				}
				if got := w.m.Len(); got != 0 {
					return fmt.Errorf("Len()=%d after deleting every key; history:\n%s", got, describe(w.log.all()))
				}
				for k := 0; k < rwKeys; k++ {
					w.m.LoadOrStore(k, 1)
				}
				w.m.Range(func(int, int) bool { return false })
				if got, slow := w.m.Len(), w.m.SlowLen(); got != rwKeys || slow != rwKeys {
					return fmt.Errorf("Len()=%d, SlowLen()=%d after deleting every key and storing %d; history:\n%s", got, slow, rwKeys, describe(w.log.all()))
				}
			}
			return nil
		}
		if err := w.rest(); err != nil {
			return fmt.Errorf("%w; history:\n%s", err, describe(w.log.all()))
		}
		for _, e := range w.err {
			if e != nil && mode == rwRange {
				return e
			}
		}
		for k := 0; k < rwKeys; k++ {
			w.do(n, Op{K: "load", A: k}, 0)
		}
		if mode == rwRange {
			w.do(n, Op{K: "range"}, 0)
		}
		ops := w.log.all()
		if len(ops) > 64 {
			return w.aftermath()
		}
		if why := lin.Check(rwState{}, ops, nil); why != "" {
			return fmt.Errorf("%s", why)
		}
		if err := w.aftermath(); err != nil {
			return fmt.Errorf("%w; history:\n%s", err, describe(ops))
		}
		return nil
	}
}

func describe(ops []lin.Op[rwState]) (s string) {
	for _, o := range ops {
		s += fmt.Sprintf("  T%d [%d,%d] %s\n", o.Thread, o.Call, o.Ret, o.Desc)
	}
	return
}

func rwOp(kinds []string, nested bool) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "key"), B: pick(t, "val", 6), C: pick(t, "old", 6)}
		if op.K == "range" && nested {
			op.V = rapid.SliceOfN(rwOp([]string{"store", "del", "lad", "clear", "los", "load", "swap"}, false), 0, 2).Draw(t, "inner")
		}
		return op
	})
}

var rwSetupKinds = []string{"store", "store", "store", "del", "lad", "range", "range", "load", "load", "clear", "los", "cad"}

func genRW(kinds []string, nested bool) func(t *rapid.T) Prog {
	return func(t *rapid.T) Prog {
		return Prog{Conf: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 3, 16, 16, 41, 41, 601}).Draw(t, "bulk"), Setup: rapid.SliceOfN(rwOp(rwSetupKinds, false), 0, 8).Draw(t, "setup"), Threads: genThreads(t, 4, 3, rwOp(kinds, nested))}
	}
}

// conflict: two threads work on the same key, one of them changing it.
func conflict(p Prog) bool {
	change := func(o Op) bool { return o.K != "load" && o.K != "range" && o.K != "slowlen" }
	var flat func(ops []Op) []Op
	flat = func(ops []Op) (out []Op) {
		for _, o := range ops {
			out = append(out, o)
			out = append(out, flat(o.V)...)
		}
		return
	}
	for i := range p.Threads {
		for j := range p.Threads {
			if i == j {
				continue
			}
			for _, a := range flat(p.Threads[i]) {
				for _, b := range flat(p.Threads[j]) {
					if change(a) && (a.K == "clear" || b.K == "clear" || b.K == "range" || a.A == b.A) {
						return true
					}
				}
			}
		}
	}
	return false
}

func rwProp(name, rule string, quick int, mode rwMode, gen func(t *rapid.T) Prog, b budget) pbt.Checker {
	return pbt.Prop[Prog]{
		Name: name, Quick: quick, Rule: rule + "; each program is executed under every schedule with at most one preemption (or a sample of them) and under random schedules with several; non-trivial: two threads work on one key and one of them changes it",
		Gen: gen,
		Run: func(p Prog, r *pbt.Rec) error {
			r.NonTrivial = conflict(p)
			r.Label(fmt.Sprintf("%d threads", len(p.Threads)))
			return explore(p, len(p.Threads), r, b, rwExec(p, mode))
		},
	}
}

const rwProgRule = "programs of 2 to 4 threads of 1 to 3 operations on 3 keys after a setup history of up to 8 operations (to reach every read/dirty/expunged state), a quarter of them with up to 20 further keys in the map"

func quickOr(a, b int) int {
	if pbt.Thorough() {
		return b
	}
	return a
}

func rwBudget() budget {
	return budget{single: quickOr(300, 600), multi: quickOr(120, 600), free: quickOr(60, 200)}
}

func scale(n int) int {
	if !schedBuild {
		return n / 2
	}
	return n
}

func TestC01(t *testing.T) {
	pbt.Main(t, "C01", rwProp("rwmap-linearizable", rwProgRule+"; the results must have a sequential explanation (exhaustive search)", scale(6000), rwLin,
		genRW([]string{"load", "load", "store", "store", "los", "los", "lad", "lad", "del", "swap", "cas", "cas", "cad", "cad", "clear", "clear", "range"}, false), rwBudget()))
}

func TestC03(t *testing.T) {
	pbt.Main(t, "C03", rwProp("rwmap-len-at-rest", rwProgRule+"; afterwards Len must equal the number of entries", scale(6000), rwLen,
		genRW([]string{"store", "store", "los", "lad", "del", "swap", "cas", "cad", "clear", "clear", "range", "load"}, true), rwBudget()))
}

func TestC04(t *testing.T) {
	pbt.Main(t, "C04", rwProp("rwmap-range-concurrent", rwProgRule+", with Ranges whose callbacks may call other methods; every visited or skipped key must have had that value (no value) at some moment of the call, in one sequential explanation of everything", scale(6000), rwRange,
		genRW([]string{"range", "range", "range", "range", "store", "store", "los", "lad", "del", "clear", "swap", "cad", "load"}, true), rwBudget()))
}
