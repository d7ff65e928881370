package seq

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/zijiren233/gencontainer/rwmap"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type rwCase struct {
	Kind  string `json:"kind"` // key and value type
	NoLen bool   `json:"nolen,omitempty"`
	Ops   []Op   `json:"ops"`
}

// rwType is one instantiation of the map: a pool of keys and of values.
type rwType struct {
	name string
	run  func(c rwCase, r *pbt.Rec) error
}

type rwStats struct{ del, promoted, clears, unhashable, mutRange int }

// eqGo is Go's == on the static type V, as an ordinary map user would write it.
func eqGo(a, b any) (eq, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	return a == b, false
}

// same tells whether two values are the same value (bit-wise for floats).
func same(a, b any) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	if x, ok := a.(*int); ok {
		y, ok := b.(*int)
		return ok && x == y
	}
	return reflect.DeepEqual(a, b)
}

type rwWorld[K comparable, V any] struct {
	m     rwmap.RWMap[K, V]
	model map[K]int // index into vals
	keys  []K
	vals  []V
	st    rwStats
	hash  []bool // keys[i] can be hashed
	depth int
	notes []func()
}

func isNaNKey[K comparable](k K) bool { return k != k }

func mkRW[K comparable, V any](name string, keys []K, vals []V) rwType {
	return rwType{name, func(c rwCase, r *pbt.Rec) error {
		w := &rwWorld[K, V]{model: map[K]int{}, keys: keys, vals: vals}
		for _, k := range keys {
			w.hash = append(w.hash, !panics(func() { _ = w.model[k] }))
		}
		for i, op := range c.Ops {
			if err := w.step(op); err != nil {
				return fmt.Errorf("op %d %v: %w", i, op, err)
			}
			if n := w.m.Len(); !c.NoLen && n != int64(len(w.model)) {
				return fmt.Errorf("after op %d %v: Len()=%d with %d entries", i, op, n, len(w.model))
			}
		}
		if err := w.full(); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
		if n := w.m.SlowLen(); n != int64(len(w.model)) {
			return fmt.Errorf("at the end: SlowLen()=%d with %d entries", n, len(w.model))
		}
		for i := range keys {
			if w.hash[i] {
				if err := w.step(Op{K: "load", A: i}); err != nil {
					return fmt.Errorf("at the end: %w", err)
				}
			}
		}
		r.NonTrivial = w.st.del > 0 && len(c.Ops) > 4
		r.LabelIf(w.st.clears > 0, "clear")
		r.LabelIf(w.st.unhashable > 0, "unhashable key")
		r.LabelIf(w.st.mutRange > 0, "range modifying the map")
		r.Label("type " + name)
		return nil
	}}
}

// full compares a complete Range with the model.
func (w *rwWorld[K, V]) full() error {
	seen := map[K]bool{}
	var nan []any
	var err error
	n := 0
	w.m.Range(func(k K, v V) bool {
		n++
		if isNaNKey(k) {
			nan = append(nan, v)
			return true
		}
		if seen[k] {
			err = fmt.Errorf("Range visits key %v twice", k)
			return false
		}
		seen[k] = true
		i, ok := w.model[k]
		if !ok {
			err = fmt.Errorf("Range visits absent key %v", k)
			return false
		}
		if !same(v, w.vals[i]) {
			err = fmt.Errorf("Range gives %v for key %v, want %v", v, k, w.vals[i])
			return false
		}
		return true
	})
	if err != nil {
		return err
	}
	if n != len(w.model) {
		return fmt.Errorf("Range visited %d entries, want %d", n, len(w.model))
	}
	// entries under NaN keys: compare as multisets of values
	for k, i := range w.model {
		if !isNaNKey(k) {
			continue
		}
		found := -1
		for j, v := range nan {
			if same(v, w.vals[i]) {
				found = j
			}
		}
		if found < 0 {
			return fmt.Errorf("Range missed an entry stored under NaN")
		}
		nan = append(nan[:found], nan[found+1:]...)
	}
	return nil
}

var rwSub = []string{"load", "store", "los", "lad", "del", "swap", "cas", "cad", "clear", "nested"}

func (w *rwWorld[K, V]) step(op Op) (err error) {
	ki := op.A % len(w.keys)
	k := w.keys[ki]
	vi, oi := op.B%len(w.vals), op.C%len(w.vals)
	v, o := w.vals[vi], w.vals[oi]
	if !w.hash[ki] {
		// an ordinary map panics; nothing may change
		var do func()
		switch op.K {
		case "load":
			do = func() { w.m.Load(k) }
		case "store":
			do = func() { w.m.Store(k, v) }
		case "los":
			do = func() { w.m.LoadOrStore(k, v) }
		case "lad":
			do = func() { w.m.LoadAndDelete(k) }
		case "del":
			do = func() { w.m.Delete(k) }
		case "swap":
			do = func() { w.m.Swap(k, v) }
		}
		if do != nil {
			w.st.unhashable++
			if !panics(do) && (op.K == "store" || op.K == "los" || op.K == "swap") {
				return fmt.Errorf("no panic for a key that cannot be hashed")
			}
			return nil
		}
		if op.K == "cas" || op.K == "cad" {
			return nil
		}
	}
	mi, present := 0, false
	if w.hash[ki] {
		mi, present = w.model[k]
	}
	var zero V
	wantOld := any(zero)
	if present {
		wantOld = w.vals[mi]
	}
	check := func(got V, ok, wantOK bool, want any) error {
		if ok != wantOK {
			return fmt.Errorf("reported %v, want %v", ok, wantOK)
		}
		if !same(got, want) {
			return fmt.Errorf("returned %v, want %v", got, want)
		}
		return nil
	}
	switch op.K {
	case "load":
		got, ok := w.m.Load(k)
		return check(got, ok, present, wantOld)
	case "store":
		w.m.Store(k, v)
		w.model[k] = vi
	case "los":
		got, loaded := w.m.LoadOrStore(k, v)
		if present {
			return check(got, loaded, true, wantOld)
		}
		w.model[k] = vi
		return check(got, loaded, false, v)
	case "lad":
		got, ok := w.m.LoadAndDelete(k)
		delete(w.model, k)
		if present {
			w.st.del++
		}
		return check(got, ok, present, wantOld)
	case "del":
		w.m.Delete(k)
		delete(w.model, k)
		if present {
			w.st.del++
		}
	case "swap":
		got, ok := w.m.Swap(k, v)
		w.model[k] = vi
		return check(got, ok, present, wantOld)
	case "cas", "cad":
		want := false
		if present {
			eq, pan := eqGo(w.vals[mi], o)
			if pan {
				return nil // comparing such values is an error also in plain Go
			}
			want = eq
		} else if _, pan := eqGo(o, o); pan {
			return nil
		}
		if op.K == "cas" {
			if got := w.m.CompareAndSwap(k, o, v); got != want {
				return fmt.Errorf("CompareAndSwap=%v, want %v", got, want)
			}
			if want {
				w.model[k] = vi
			}
		} else {
			if got := w.m.CompareAndDelete(k, o); got != want {
				return fmt.Errorf("CompareAndDelete=%v, want %v", got, want)
			}
			if want {
				delete(w.model, k)
				w.st.del++
			}
		}
	case "clear":
		if len(w.model) > 0 {
			w.st.del++
		}
		w.m.Clear()
		clear(w.model)
		w.st.clears++
	case "range":
		return w.full()
	case "slowlen":
		if n := w.m.SlowLen(); n != int64(len(w.model)) {
			return fmt.Errorf("SlowLen()=%d with %d entries", n, len(w.model))
		}
	case "rangeStop":
		n, stop := 0, op.B%5+1
		w.m.Range(func(K, V) bool { n++; return n < stop })
		want := stop
		if len(w.model) < want {
			want = len(w.model)
		}
		if n != want {
			return fmt.Errorf("Range told to stop at %d visited %d of %d", stop, n, len(w.model))
		}
	case "rangeMut", "nested":
		if w.depth >= 2 {
			return nil
		}
		return w.rangeMut(op)
	default:
		panic("unknown op " + op.K)
	}
	return nil
}

// rangeMut ranges with a callback that itself works on the map.
func (w *rwWorld[K, V]) rangeMut(op Op) error {
	w.depth++
	defer func() { w.depth-- }()
	always := map[K]bool{}       // present at every moment of the call so far
	held := map[K]map[int]bool{} // values the key had during the call
	note := func() {
		for k := range always {
			if _, ok := w.model[k]; !ok {
				delete(always, k)
			}
		}
		for k, i := range w.model {
			if isNaNKey(k) {
				continue
			}
			if held[k] == nil {
				held[k] = map[int]bool{}
			}
			held[k][i] = true
		}
	}
	for k := range w.model {
		if !isNaNKey(k) {
			always[k] = true
		}
	}
	note()
	w.notes = append(w.notes, note)
	defer func() { w.notes = w.notes[:len(w.notes)-1] }()
	seen := map[K]bool{}
	n := 0
	var err error
	w.m.Range(func(k K, v V) bool {
		if !isNaNKey(k) {
			if seen[k] {
				err = fmt.Errorf("Range visits key %v twice", k)
				return false
			}
			seen[k] = true
			ok := false
			for i := range held[k] {
				ok = ok || same(v, w.vals[i])
			}
			if !ok {
				err = fmt.Errorf("Range gives %v for key %v, which it never held during the call", v, k)
				return false
			}
		}
		for n < len(op.V) {
			x := op.V[n]
			n++
			sub := Op{K: rwSub[x%len(rwSub)], A: x / 16, B: x / 7, C: x / 5}
			if sub.K == "nested" && n < len(op.V) {
				sub.V = op.V[n:]
			}
			w.st.mutRange++
			if e := w.step(sub); e != nil {
				err = fmt.Errorf("inside the Range callback, %v: %w", sub, e)
				return false
			}
			for _, f := range w.notes { // of every Range in progress
				f()
			}
			if x%3 != 0 {
				break
			}
		}
		return true
	})
	if err != nil {
		return err
	}
	for k := range always {
		if !seen[k] {
			return fmt.Errorf("Range missed key %v, present during the whole call", k)
		}
	}
	return nil
}

type rwKey struct {
	A int8
	B string
}

var (
	pA, pB  = new(int), new(int)
	errA    = errors.New("a")
	rwTypes = []rwType{
		mkRW("int/int", []int{0, 1, 2, 3, 4, 5, -1, 1 << 20}, []int{0, 1, 2, 3, -7}),
		mkRW("string/string", []string{"", "a", "b", "aa", "\x00"}, []string{"", "x", "y", "xx"}),
		mkRW("struct/any", []rwKey{{}, {1, ""}, {1, "x"}, {2, "x"}}, []any{nil, 0, "", 1, int8(1), "1", 1.5, math.NaN(), pA, (*int)(nil), [2]int{1, 2}, errA}),
		mkRW("any/struct", []any{nil, 0, int8(0), "", "a", 1.5, pA, [2]int{1, 2}, []int{1}, map[int]int{}, rwKey{1, "x"}, struct{}{}}, []rwKey{{}, {1, ""}, {1, "x"}, {2, "x"}}),
		mkRW("float64/float64", []float64{0, 1, math.Inf(-1), math.Inf(1)}, []float64{0, math.Copysign(0, -1), 1, math.NaN(), math.Inf(-1)}),
		mkRW("[2]string/struct{}", [][2]string{{}, {"a"}, {"a", "b"}}, []struct{}{{}}),
		mkRW("*int/*int", []*int{nil, pA, pB}, []*int{nil, pA, pB}),
		mkRW("uint8/[]byte", []uint8{0, 1, 2, 255}, [][]byte{nil, {}, {1}, {1, 2}}),
		mkRW("bool/[64]byte", []bool{false, true}, [][64]byte{{}, {63: 1}, {1}}),
		mkRW("int64/error", []int64{0, 1, math.MaxInt64, math.MinInt64, 7}, []error{nil, errA, errors.New("b")}),
		mkRW("int/uint16", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19}, []uint16{0, 1, 2, 65535}),
	}
)

var rwKinds = []string{"load", "store", "los", "lad", "del", "swap", "cas", "cad", "clear", "range", "slowlen", "rangeStop", "rangeMut"}

func genRW(types []string, noLen bool, wt map[string]int, max int) func(t *rapid.T) rwCase {
	kinds := weighted(wt, rwKinds...)
	return func(t *rapid.T) rwCase {
		c := rwCase{NoLen: noLen, Kind: rapid.SampledFrom(types).Draw(t, "type")}
		nk := rapid.SampledFrom([]int{2, 3, 5, 20}).Draw(t, "keys")
		c.Ops = genOps(t, 1, max, func(t *rapid.T) Op {
			op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: pick(t, "key", nk), B: pick(t, "val", 12), C: pick(t, "old", 12)}
			if op.K == "rangeMut" {
				op.V = rapid.SliceOfN(rapid.IntRange(0, 999), 0, 8).Draw(t, "inner")
			}
			return op
		})
		return c
	}
}

func runRW(c rwCase, r *pbt.Rec) error {
	for _, ty := range rwTypes {
		if ty.name == c.Kind {
			return ty.run(c, r)
		}
	}
	return fmt.Errorf("harness: no type %q", c.Kind)
}

func rwNames() (out []string) {
	for _, ty := range rwTypes {
		out = append(out, ty.name)
	}
	return
}

func rwmapSequential() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[rwCase]{
		Name: "rwmap-history", Quick: 80000,
		Rule: "up to 60 operations over 11 key/value type pairs (incl. interfaces, zero-size and large values, unhashable keys), oracle: a plain Go map; non-trivial: more than 4 operations with at least one effective deletion",
		Gen:  genRW(rwNames(), false, map[string]int{"load": 4, "store": 5, "los": 3, "lad": 3, "del": 2, "swap": 2, "cas": 3, "cad": 3}, 60),
		Run:  runRW,
	}}
}

func rwmapLen() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[rwCase]{
		Name: "rwmap-len", Quick: 40000,
		Rule: "histories as for rwmap-history with many Clears, re-entrant Ranges and unhashable keys, Len compared after every operation; non-trivial: more than 4 operations with at least one effective deletion",
		Gen:  genRW([]string{"any/struct", "int/int", "float64/float64"}, false, map[string]int{"load": 2, "store": 5, "los": 4, "lad": 3, "del": 2, "swap": 3, "clear": 3, "cad": 3, "rangeMut": 2}, 60),
		Run:  runRW,
	}}
}

func rwmapRange() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[rwCase]{
		Name: "rwmap-range-reentrant", Quick: 40000,
		Rule: "histories in which Range callbacks call every method of the map, incl. Clear and nested Ranges; visited keys and values checked against the map's states during the call; non-trivial: at least one operation inside a callback",
		Gen:  genRW([]string{"int/int", "int/uint16", "any/struct"}, true, map[string]int{"store": 8, "del": 2, "lad": 2, "rangeMut": 6}, 40),
		Run: func(c rwCase, r *pbt.Rec) error {
			err := runRW(c, r)
			r.NonTrivial = false
			for _, op := range c.Ops {
				if op.K == "rangeMut" && len(op.V) > 0 {
					r.NonTrivial = true
				}
			}
			return err
		},
	}}
}

func rwmapBasic() pbt.Checker {
	return pbt.Prop[rwCase]{
		Name: "rwmap-single", Quick: 10000,
		Rule: "histories of one goroutine (up to 80 operations), oracle: a plain Go map; non-trivial: more than 4 operations with at least one effective deletion",
		Gen:  genRW([]string{"int/int", "string/string"}, true, map[string]int{"load": 4, "store": 5, "los": 3, "lad": 3, "del": 2, "swap": 2, "cas": 3, "cad": 3}, 80),
		Run:  runRW,
	}
}

func TestC01(t *testing.T) { pbt.Main(t, "C01", rwmapBasic()) }
func TestC02(t *testing.T) { pbt.Main(t, "C02", append(rwmapSequential(), rwmapLarge())...) }
func TestC03(t *testing.T) { pbt.Main(t, "C03", append(rwmapLen(), rwmapLarge().Scaled(0.5))...) }
func TestC04(t *testing.T) { pbt.Main(t, "C04", append(rwmapRange(), rwmapLargeRange())...) }
