package fault

import (
	"fmt"

	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"

	"verifharness/pbt"
)

// rwmap with values and keys that may be of types which cannot be compared or hashed.
type rwWorld struct {
	m   rwmap.RWMap[any, any]
	ref map[any]any
}

type badKey struct{ f []int }

func rwKey(a int) any { return a % 6 }

func rwVal(b int) any {
	switch {
	case b < 6:
		return b
	case b < 8:
		return []int{b}
	}
	return func() {}
}

func sameAny(a, b any) bool { return fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b) }

func (w *rwWorld) get(k any) (any, bool) { v, ok := w.ref[k]; return v, ok }

func (w *rwWorld) step(op Op, b *bomb) error {
	k, v := rwKey(op.A), rwVal(op.B)
	cur, has := w.get(k)
	chk := func(what string, v any, ok bool) error {
		if ok != has || has && !sameAny(v, cur) {
			return fmt.Errorf("%s gives (%v,%v), want (%v,%v)", what, v, ok, cur, has)
		}
		return nil
	}
	switch op.K {
	case "store":
		w.m.Store(k, v)
		w.ref[k] = v
	case "load":
		x, ok := w.m.Load(k)
		return chk("Load", x, ok)
	case "los":
		x, ok := w.m.LoadOrStore(k, v)
		if has {
			return chk("LoadOrStore", x, ok)
		}
		w.ref[k] = v
		if ok || !sameAny(x, v) {
			return fmt.Errorf("LoadOrStore gives (%v,%v) although the key was absent", x, ok)
		}
	case "swap":
		x, ok := w.m.Swap(k, v)
		w.ref[k] = v
		return chk("Swap", x, ok)
	case "lad":
		x, ok := w.m.LoadAndDelete(k)
		delete(w.ref, k)
		return chk("LoadAndDelete", x, ok)
	case "delete":
		w.m.Delete(k)
		delete(w.ref, k)
	case "clear":
		w.m.Clear()
		clear(w.ref)
	case "cas", "cad":
		// comparing two values of the same incomparable type panics, and changes nothing
		eq, bad := false, false
		if has && op.C%2 == 1 {
			v = cur
		}
		if has {
			bad = throws(func() { eq = cur == v })
		}
		done := false
		p := throws(func() {
			if op.K == "cas" {
				done = w.m.CompareAndSwap(k, v, op.B+100)
			} else {
				done = w.m.CompareAndDelete(k, v)
			}
		})
		switch {
		case p && !bad:
			return fmt.Errorf("%s panicked", op.K)
		case !p && done != eq:
			return fmt.Errorf("%s=%v, want %v", op.K, done, eq)
		case p:
			b.fired = true
		case eq && op.K == "cas":
			w.ref[k] = op.B + 100
		case eq:
			delete(w.ref, k)
		}
	case "badkey":
		// a key that cannot be hashed: panics (as a map does) or finds nothing
		k := badKey{[]int{1}}
		var kk any = k
		b.fired = throws(func() {
			switch op.B % 7 {
			case 0:
				w.m.Store(kk, 1)
			case 1:
				w.m.LoadOrStore(kk, 1)
			case 2:
				w.m.Swap(kk, 1)
			case 3:
				w.m.LoadAndDelete(kk)
			case 4:
				w.m.CompareAndSwap(kk, 1, 2)
			case 5:
				w.m.CompareAndDelete(kk, 1)
			case 6:
				w.m.Load(kk)
			}
		})
		if !b.fired && op.B%7 < 3 {
			return fmt.Errorf("a key that cannot be hashed was stored")
		}
	case "range":
		seen := map[any]bool{}
		var bad error
		err := b.run("Range", func() {
			w.m.Range(func(k, v any) bool {
				if cur, ok := w.ref[k]; !ok || seen[k] || !sameAny(cur, v) {
					bad = fmt.Errorf("Range visits (%v,%v) (again: %v), want %v", k, v, seen[k], cur)
				}
				seen[k] = true
				switch op.A % 4 {
				case 1:
					w.m.Store(k, op.B)
					w.ref[k] = op.B
				case 2:
					w.m.Delete(k)
					delete(w.ref, k)
				}
				b.hit()
				return true
			})
		})
		if err != nil {
			return err
		}
		return bad
	}
	return nil
}

func (w *rwWorld) verify() error {
	n := 0
	var err error
	w.m.Range(func(k, v any) bool {
		if cur, ok := w.ref[k]; !ok || !sameAny(cur, v) {
			err = fmt.Errorf("holds (%v,%v), want %v", k, v, cur)
		}
		n++
		return true
	})
	if err != nil {
		return err
	}
	if n != len(w.ref) || w.m.Len() != int64(n) {
		return fmt.Errorf("holds %d entries, Len %d, want %d", n, w.m.Len(), len(w.ref))
	}
	for _, k := range []any{0, 1, 2, 3, 4, 5, "missing"} {
		v, ok := w.m.Load(k)
		if cur, has := w.ref[k]; ok != has || has && !sameAny(cur, v) {
			return fmt.Errorf("Load(%v)=(%v,%v), want (%v,%v)", k, v, ok, cur, has)
		}
	}
	// a new key needs the lock
	w.m.Store("fresh", 1)
	if v, ok := w.m.LoadAndDelete("fresh"); !ok || v != 1 {
		return fmt.Errorf("a new key cannot be stored and deleted any more")
	}
	return nil
}

func rwmapFaults() pbt.Checker {
	return prop("rwmap-faults", 6000, "Range, CompareAndSwap/CompareAndDelete of values that cannot be compared, keys that cannot be hashed; afterwards the map agrees with an ordinary map and no operation blocks",
		[]string{"store", "store", "store", "load", "load", "los", "swap", "lad", "delete", "clear", "cas", "cas", "cas", "cad", "cad", "badkey", "range", "range", "range"}, only("range"),
		func(int) world { return &rwWorld{ref: map[any]any{}} })
}

type lhWorld struct {
	m   *lhashmap.Lhashmap[int, int]
	ord []int // keys, most recent first
	ref map[int]int
}

func (w *lhWorld) touch(k int) {
	w.drop(k)
	w.ord = append([]int{k}, w.ord...)
}

func (w *lhWorld) drop(k int) {
	for i, x := range w.ord {
		if x == k {
			w.ord = append(append([]int{}, w.ord[:i]...), w.ord[i+1:]...)
			return
		}
	}
}

func (w *lhWorld) step(op Op, b *bomb) error {
	k := op.A
	switch op.K {
	case "store":
		w.m.Store(k, op.B)
		w.ref[k] = op.B
		w.touch(k)
	case "load":
		v, ok := w.m.Load(k)
		if cur, has := w.ref[k]; ok != has || v != cur {
			return fmt.Errorf("Load(%d)=(%d,%v), want (%d,%v)", k, v, ok, cur, has)
		} else if has {
			w.touch(k)
		}
	case "remove":
		w.m.Remove(k)
		delete(w.ref, k)
		w.drop(k)
	case "clear":
		w.m.Clear()
		w.ref, w.ord = map[int]int{}, nil
	case "range":
		return b.run("Range", func() { w.m.Range(func(k, v int) bool { b.hit(); return true }) })
	}
	return nil
}

func (w *lhWorld) verify() error {
	i := 0
	var err error
	w.m.Range(func(k, v int) bool {
		if i >= len(w.ord) || w.ord[i] != k || w.ref[k] != v {
			err = fmt.Errorf("entry %d is (%d,%d), want keys %v of %v", i, k, v, w.ord, w.ref)
			return false
		}
		i++
		return true
	})
	if err == nil && (i != len(w.ord) || w.m.Len() != i) {
		err = fmt.Errorf("%d entries visited, Len %d, want %d", i, w.m.Len(), len(w.ord))
	}
	return err
}

func lhashFaults() pbt.Checker {
	return prop("lhashmap-faults", 3000, "Range; afterwards entries and order are as they were", []string{"store", "store", "load", "remove", "clear", "range", "range"}, only("range"),
		func(mode int) world { return &lhWorld{m: lhashmap.New[int, int](), ref: map[int]int{}} })
}

type setWorld struct {
	s   set.Set[int]
	ref map[int]bool
}

func (w *setWorld) step(op Op, b *bomb) error {
	switch op.K {
	case "insert":
		if w.s.Insert(op.A) == w.ref[op.A] {
			return fmt.Errorf("Insert(%d)", op.A)
		}
		w.ref[op.A] = true
	case "remove":
		if w.s.Remove(op.A) != w.ref[op.A] {
			return fmt.Errorf("Remove(%d)", op.A)
		}
		delete(w.ref, op.A)
	case "range":
		return b.run("Range", func() { w.s.Range(func(int) bool { b.hit(); return true }) })
	}
	return nil
}

func (w *setWorld) verify() error {
	if w.s.Len() != len(w.ref) {
		return fmt.Errorf("Len %d, want %d", w.s.Len(), len(w.ref))
	}
	for k := range w.ref {
		if !w.s.Contain(k) {
			return fmt.Errorf("%d is lost", k)
		}
	}
	return nil
}

func setFaults() pbt.Checker {
	return prop("set-faults", 1500, "Range; afterwards the set is as it was", []string{"insert", "insert", "remove", "range", "range"}, only("range"),
		func(int) world { return &setWorld{set.New[int](), map[int]bool{}} })
}

type gmWorld struct {
	m   genmap.GenMap[int, int]
	ref map[int]int
}

func (w *gmWorld) step(op Op, b *bomb) error {
	k := op.A
	switch op.K {
	case "store":
		w.m.Store(k, op.B)
		w.ref[k] = op.B
	case "delete":
		w.m.Delete(k)
		delete(w.ref, k)
	case "losf":
		cur, has := w.ref[k]
		var v int
		var ok bool
		if err := b.run("LoadOrStoreFunc", func() {
			v, ok = w.m.LoadOrStoreFunc(k, func() int { b.hit(); return op.B })
		}); err != nil || b.fired {
			return err // and the key stays absent
		}
		if !has {
			w.ref[k], cur = op.B, op.B
		}
		if v != cur || ok != has {
			return fmt.Errorf("LoadOrStoreFunc(%d)=(%d,%v), want (%d,%v)", k, v, ok, cur, has)
		}
	case "range":
		return b.run("Range", func() { w.m.Range(func(int, int) bool { b.hit(); return true }) })
	case "equal":
		o := genmap.From(w.m.Clone().Map())
		return b.run("EqualFunc", func() { w.m.EqualFunc(o, func(a, c int) bool { b.hit(); return a == c }) })
	case "delfunc":
		hit := map[int]bool{}
		err := b.run("DeleteFunc", func() {
			w.m.DeleteFunc(func(k, v int) bool {
				b.hit()
				hit[k] = v%2 == 0
				return hit[k]
			})
		})
		if err != nil {
			return err
		}
		for k := range w.ref {
			if _, ok := w.m[k]; hit[k] && !ok {
				delete(w.ref, k) // if it is still there, only because of the failure
			} else if hit[k] && !b.fired {
				return fmt.Errorf("DeleteFunc left %d", k)
			}
		}
	}
	return nil
}

func (w *gmWorld) verify() error {
	if w.m.Len() != len(w.ref) {
		return fmt.Errorf("Len %d, want %d", w.m.Len(), len(w.ref))
	}
	for k, v := range w.ref {
		if x, ok := w.m.Load(k); !ok || x != v {
			return fmt.Errorf("Load(%d)=(%d,%v), want %d", k, x, ok, v)
		}
	}
	return nil
}

func genmapFaults() pbt.Checker {
	return prop("genmap-faults", 3000, "LoadOrStoreFunc, Range, EqualFunc, DeleteFunc; afterwards only entries the function had condemned are gone, and nothing was stored", []string{"store", "store", "delete", "losf", "losf", "range", "equal", "delfunc"}, only("losf", "range", "equal", "delfunc"),
		func(int) world { return &gmWorld{genmap.New[int, int](), map[int]int{}} })
}
