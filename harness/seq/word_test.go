package seq

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// placed puts a container behind something of another size, twice.
type placed[P, C any] struct {
	P P
	A C
	Q int8
	B [2]C
}

type placeCase struct {
	Pad  int  `json:"pad"`
	Elem int  `json:"elem"`
	Heap bool `json:"heap"`
	Ops  []Op `json:"ops"`
}

func usePlaced[P any, V comparable](c placeCase, mk func(int) V) error {
	p := new(placed[P, rwmap.RWMap[int32, V]])
	s := new(placed[P, synccache.SyncCache[int16, V]])
	e := new(placed[P, synccache.Entry[V]])
	models := make([]map[int]V, 3)
	for i := range models {
		models[i] = map[int]V{}
	}
	boxed := []placed[bool, *synccache.Entry[V]]{{A: synccache.NewEntry(mk(1), time.Hour)}}
	for i, op := range c.Ops {
		w := op.A % 3
		m, sc, en := &p.A, &s.A, &e.A
		if w > 0 {
			m, sc, en = &p.B[w-1], &s.B[w-1], &e.B[w-1]
		}
		k := op.B % 5
		v := mk(op.C)
		model := models[w]
		switch op.K {
		case "store":
			m.Store(int32(k), v)
			sc.Store(int16(k), v, time.Hour)
			model[k] = v
		case "los":
			m.LoadOrStore(int32(k), v)
			sc.LoadOrStore(int16(k), v, time.Hour)
			if _, ok := model[k]; !ok {
				model[k] = v
			}
		case "del":
			m.Delete(int32(k))
			sc.Delete(int16(k))
			delete(model, k)
		case "cad":
			m.CompareAndDelete(int32(k), v)
			sc.CompareValueAndDelete(int16(k), v)
			if x, ok := model[k]; ok && x == v {
				delete(model, k)
			}
		case "clear":
			m.Clear()
			sc.Clear()
			clear(model)
		case "exp":
			en.SetExpiration(time.Now().Add(time.Hour))
			en.AddExpiration(time.Minute)
			if en.IsExpired() {
				return fmt.Errorf("op %d: an entry that lasts an hour is expired", i)
			}
			en.AddExpiration(-2 * time.Hour)
			if !en.IsExpired() {
				return fmt.Errorf("op %d: an entry that ended an hour ago is not expired", i)
			}
			b := boxed[0].A
			b.AddExpiration(time.Second)
			if b.IsExpired() || b.Value() != mk(1) {
				return fmt.Errorf("op %d: entry expired too early or with another value", i)
			}
			for _, x := range []*synccache.Entry[V]{synccache.NewEntry(v, time.Hour), synccache.NewEntry(v, -time.Hour)} {
				live := !x.IsExpired()
				x.SetExpiration(time.Now().Add(time.Hour))
				if x.IsExpired() || x.Value() != v {
					return fmt.Errorf("op %d: NewEntry: wrong value or expiration (live %v)", i, live)
				}
			}
		}
		if n := m.Len(); n != int64(len(model)) {
			return fmt.Errorf("op %d %v: Len()=%d, want %d", i, op, n, len(model))
		}
		for k := 0; k < 5; k++ {
			want, ok := model[k]
			if got, found := m.Load(int32(k)); found != ok || got != want {
				return fmt.Errorf("op %d %v: map has %v,%v under %d; want %v,%v", i, op, got, found, k, want, ok)
			}
			got, found := sc.Load(int16(k))
			if found != ok || found && got.Value() != want {
				return fmt.Errorf("op %d %v: cache has an entry: %v, under %d; want %v", i, op, found, k, ok)
			}
		}
	}
	return nil
}

func placePad[V comparable](c placeCase, mk func(int) V) error {
	switch c.Pad % 8 {
	case 0:
		return usePlaced[struct{}](c, mk)
	case 1:
		return usePlaced[bool](c, mk)
	case 2:
		return usePlaced[int16](c, mk)
	case 3:
		return usePlaced[int32](c, mk)
	case 4:
		return usePlaced[[3]byte](c, mk)
	case 5:
		return usePlaced[int64](c, mk)
	case 6:
		return usePlaced[[3]int32](c, mk)
	}
	return usePlaced[[5]int32](c, mk)
}

// useRefresh runs each refresh cache with value type V, allocated next to odd things.
func useRefresh[V comparable](c placeCase, mk func(int) V) error {
	bg := context.Background()
	n := 0
	var keep []*placed[int32, *int]
	f := func() (V, error) { n++; return mk(n), nil }
	d0 := refreshcache0.NewRefreshData[V](time.Hour, refreshcache0.WithErrAge[V](time.Hour))
	keep = append(keep, new(placed[int32, *int]))
	d1 := refreshcache1.NewRefreshData[V, int](time.Hour, refreshcache1.WithErrAge[V, int](time.Hour))
	keep = append(keep, new(placed[int32, *int]))
	dn := refreshcache.NewRefreshData[V, int](time.Hour, refreshcache.WithErrAge[V, int](time.Hour))
	_ = keep
	r0 := refreshcache0.NewRefreshCache[V](func(context.Context) (V, error) { return f() }, time.Hour)
	r1 := refreshcache1.NewRefreshCache[V, int](func(context.Context, int) (V, error) { return f() }, time.Hour)
	rn := refreshcache.NewRefreshCache[V, int](func(context.Context, ...int) (V, error) { return f() }, time.Hour)
	for i, op := range c.Ops {
		before := n
		var v, again V
		var last, lastErr int64
		var err error
		switch op.A % 6 {
		case 0:
			v, err = d0.Refresh(bg, func(context.Context) (V, error) { return f() })
			again, _ = d0.Get(bg, func(context.Context) (V, error) { return f() })
			last, lastErr = d0.Last(), d0.LastErr()
			_ = d0.Clear(bg, nil)
		case 1:
			v, err = d1.Refresh(bg, func(context.Context, int) (V, error) { return f() }, 0)
			again, _ = d1.Get(bg, func(context.Context, int) (V, error) { return f() }, 0)
			last, lastErr = d1.Last(), d1.LastErr()
			_ = d1.Clear(bg, nil, 0)
		case 2:
			v, err = dn.Refresh(bg, func(context.Context, ...int) (V, error) { return f() })
			again, _ = dn.Get(bg, func(context.Context, ...int) (V, error) { return f() })
			last, lastErr = dn.Last(), dn.LastErr()
			_ = dn.Clear(bg, nil)
		case 3:
			v, err = r0.Refresh(bg)
			again, _ = r0.Get(bg)
			last, lastErr = r0.Last(), r0.LastErr()
			_ = r0.Clear(bg)
		case 4:
			v, err = r1.Refresh(bg, 0)
			again, _ = r1.Get(bg, 0)
			last, lastErr = r1.Last(), r1.LastErr()
			_ = r1.Clear(bg, 0)
		case 5:
			v, err = rn.Refresh(bg)
			again, _ = rn.Get(bg)
			last, lastErr = rn.Last(), rn.LastErr()
			_ = rn.Clear(bg)
		}
		if err != nil || n != before+1 || v != mk(n) || again != v || lastErr != 0 {
			return fmt.Errorf("op %d: refresh gave %v (%v), then %v, after %d calls, error time %d", i, v, err, again, n-before, lastErr)
		}
		if d := time.Since(time.Unix(0, last)); d < 0 || d > time.Hour {
			return fmt.Errorf("op %d: the time of the refresh is off by %v", i, d)
		}
	}
	return nil
}

func runPlaced(c placeCase, r *pbt.Rec) error {
	r.NonTrivial = len(c.Ops) > 3
	type pair struct {
		a int32
		b bool
	}
	type odd struct{ a, b, c int8 }
	both := func(a, b error) error {
		if a != nil {
			return a
		}
		return b
	}
	switch c.Elem % 9 {
	case 0:
		return both(placePad(c, func(i int) bool { return i%2 > 0 }), useRefresh(c, func(i int) bool { return i%2 > 0 }))
	case 1:
		return both(placePad(c, func(i int) int32 { return int32(i) }), useRefresh(c, func(i int) int32 { return int32(i) }))
	case 2:
		return both(placePad(c, func(i int) int64 { return int64(i) << 33 }), useRefresh(c, func(i int) int64 { return int64(i) << 33 }))
	case 3:
		return both(placePad(c, func(i int) string { return fmt.Sprint(i) }), useRefresh(c, func(i int) string { return fmt.Sprint(i) }))
	case 4:
		return both(placePad(c, func(i int) pair { return pair{int32(i), true} }), useRefresh(c, func(i int) pair { return pair{int32(i), true} }))
	case 5:
		return both(placePad(c, func(i int) odd { return odd{int8(i), 1, 2} }), useRefresh(c, func(i int) odd { return odd{int8(i), 1, 2} }))
	case 6:
		return both(placePad(c, func(i int) [3]int32 { return [3]int32{int32(i)} }), useRefresh(c, func(i int) [3]int32 { return [3]int32{int32(i)} }))
	case 7:
		return both(placePad(c, func(i int) struct{} { return struct{}{} }), useRefresh(c, func(i int) struct{} { return struct{}{} }))
	}
	return both(placePad(c, func(i int) any { return i }), useRefresh(c, func(i int) any { return i }))
}

func placement() pbt.Checker {
	return pbt.Prop[placeCase]{
		Name: "placement", Quick: 20000, Rule: "RWMap, SyncCache, Entry embedded behind fields of 8 sizes, and the refresh caches, with 9 value types, against plain maps; non-trivial: more than three operations",
		Gen: func(t *rapid.T) placeCase {
			return placeCase{Pad: pick(t, "pad", 8), Elem: pick(t, "elem", 9), Ops: genOps(t, 1, 20, func(t *rapid.T) Op {
				return Op{K: rapid.SampledFrom([]string{"store", "store", "los", "del", "cad", "clear", "exp", "exp"}).Draw(t, "k"), A: pick(t, "a", 6), B: pick(t, "b", 5), C: pick(t, "c", 4)}
			})}
		},
		Run: runPlaced,
	}
}

func TestC29(t *testing.T) {
	var all []pbt.Checker
	add := func(f float64, cs ...pbt.Checker) {
		for _, c := range cs {
			all = append(all, c.Scaled(f))
		}
	}
	add(1, placement())
	add(1, hashringProcess())
	add(0.25, rwmapBasic())
	for _, cs := range [][]pbt.Checker{rwmapSequential(), rwmapLen(), rwmapRange(), dllistSequence(), dllistHandles(), dllistSortSplice(), lhashmapProps(), heapProps(),
		pqueueProps(), ringProps(), setProps(), genmapProps(), vecHistory(), vecSort(), vecIndependence(), treeLinks(), treeTraversal(), {hashringMapping(), hashringMovement(), hashringSpread()}} {
		add(0.15, cs...)
	}
	add(0.2, rwmapLarge(), rwmapLargeRange(), dllistLarge(), dllistLargeHandles(), dllistLargeSort(), lhashmapLarge(), heapLarge(), pqueueLarge(), ringLarge(),
		setLarge(), genmapLarge(), vecTyped(), vecLarge(), vecLargeSort(), vecLargeIndependence(), treeLarge(), treeLargeRelations(), hashringLarge())
	pbt.Main(t, "C29", all...)
}
