package seq

import (
	stdring "container/ring"
	"fmt"
	"math"
	"sort"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"

	"verifharness/pbt"
)

// Handles of large lists that were removed, cleared or sorted away.
func dllistLargeHandles() pbt.Checker {
	return large("dllist-large-handles", 600, 1200, "all handles of lists that lose them by Remove, Clear or Sort are then used with every operation; nothing may change, removed and cleared ones have no neighbours", func(c largeCase, g *lcg, r *pbt.Rec) error {
		l, o := dllist.New[int](), dllist.New[int]()
		var es, stale []*dllist.Element[int]
		for i := 0; i < c.N; i++ {
			es = append(es, l.PushBack(i))
			if g.n(3) == 0 {
				o.PushFront(i)
			}
		}
		if o.Len() == 0 {
			o.PushBack(-5)
		}
		live := append([]*dllist.Element[int](nil), es...)
		lone := true
		switch c.Mix {
		case 0: // all cleared
			l.Clear()
			stale, live = es, nil
		case 1: // some removed, then all of the rest cleared, then new ones
			for _, i := range []int{0, c.N / 2, c.N - 1} {
				if i >= 0 && i < c.N {
					l.Remove(es[i])
				}
			}
			l.Clear()
			stale, live = es, nil
			for i := 0; i < 1+c.Steps%50; i++ {
				live = append(live, l.PushFront(1000+i))
			}
		case 2: // many removed one by one
			live = nil
			for i, e := range es {
				if g.n(4) > 0 {
					if i%2 == 0 {
						l.Remove(e)
					} else {
						e.Remove()
					}
					stale = append(stale, e)
				} else {
					live = append(live, e)
				}
			}
		case 3: // sorted: whether the handles survive is open, but they stay harmless
			l.Sort(func(a, b int) bool { return a%17 > b%17 })
			stale, live, lone = es, nil, false
			for i := range stale {
				stale[i] = es[i]
			}
		}
		want, other := l.Slice(), o.Slice()
		if c.Mix == 3 {
			inside := map[*dllist.Element[int]]bool{}
			for e := l.Front(); e != nil; e = e.Next() {
				inside[e] = true
			}
			out := stale[:0]
			for _, e := range stale {
				if !inside[e] {
					out = append(out, e)
				}
			}
			stale = out
		}
		for i, e := range live {
			if e.Value != live[i].Value || !c14Has(l, e) && i%20 == 0 {
				return fmt.Errorf("live handle %d of %d is not in its list", i, len(live))
			}
		}
		var mark *dllist.Element[int]
		if l.Len() > 0 {
			mark = l.Get(l.Len() / 2)
		}
		use := func(e *dllist.Element[int], k int) {
			switch k {
			case 0:
				l.Remove(e)
				e.Remove()
				o.Remove(e)
			case 1:
				l.MoveToFront(e)
				l.MoveToBack(e)
			case 2:
				if mark != nil {
					l.MoveAfter(e, mark)
					l.MoveBefore(mark, e)
					l.MoveAfter(mark, e)
				}
			case 3:
				l.InsertAfter(-1, e)
				l.InsertBefore(-1, e)
				o.InsertAfter(-1, e)
			case 4:
				if mark != nil {
					l.Swap(e, mark)
					l.Swap(mark, e)
				}
				l.Swap(e, e)
			case 5:
				l.PushBackListTo(o, e)
				o.PushFrontListTo(l, e)
			case 6:
				e.InsertAfter(-2)
				e.InsertBefore(-2)
			}
		}
		for i, e := range stale {
			if lone && (e.Next() != nil || e.Prev() != nil) {
				return fmt.Errorf("handle %d of %d, removed or cleared, has a neighbour", i, len(stale))
			}
			use(e, (i+int(c.Seed%7))%7)
			if lone && (e.Next() != nil || e.Prev() != nil) {
				return fmt.Errorf("handle %d of %d has a neighbour after use %d", i, len(stale), (i+int(c.Seed%7))%7)
			}
			if l.Len() != len(want) || o.Len() != len(other) {
				return fmt.Errorf("using stale handle %d of %d (use %d): lengths %d and %d, want %d and %d", i, len(stale), (i+int(c.Seed%7))%7, l.Len(), o.Len(), len(want), len(other))
			}
		}
		if !sameInts(l.Slice(), want) || !sameInts(o.Slice(), other) {
			return fmt.Errorf("using %d stale handles changed a list", len(stale))
		}
		back := l.Back()
		for i := len(want) - 1; i >= 0; i-- {
			if back == nil || back.Value != want[i] {
				return fmt.Errorf("using %d stale handles: backwards, element %d differs", len(stale), i)
			}
			back = back.Prev()
		}
		r.NonTrivial = len(stale) > 60
		return nil
	})
}

func c14Has(l *dllist.Dllist[int], x *dllist.Element[int]) bool {
	for e := l.Front(); e != nil; e = e.Next() {
		if e == x {
			return true
		}
	}
	return false
}

func ringLarge() pbt.Checker {
	return large("ring-large", 500, 2000, "rings and container/ring in lock step: Link, Unlink and Move with large counts", func(c largeCase, g *lcg, r *pbt.Rec) error {
		n := c.N + 1
		a, b := ring.New[int](n), stdring.New(n)
		var as []*ring.Ring[int]
		var bs []*stdring.Ring
		id := map[*ring.Ring[int]]int{}
		bid := map[*stdring.Ring]int{}
		for i := 0; i < n; i++ {
			a.Value, b.Value = i, i
			id[a], bid[b] = i, i
			as, bs = append(as, a), append(bs, b)
			a, b = a.Next(), b.Next()
		}
		for s := 0; s < c.Steps/20+5; s++ {
			i, j := g.n(n), g.n(n)
			k := g.n(3*n) - n
			var x *ring.Ring[int]
			var y *stdring.Ring
			op := g.n(3)
			switch op {
			case 0:
				x, y = as[i].Link(as[j]), bs[i].Link(bs[j])
			case 1:
				x, y = as[i].Unlink(k), bs[i].Unlink(k)
			case 2:
				x, y = as[i].Move(k), bs[i].Move(k)
			}
			if (x == nil) != (y == nil) || x != nil && id[x] != bid[y] {
				return fmt.Errorf("step %d op %d(%d,%d,%d) of %d elements returned another element", s, op, i, j, k, n)
			}
			if as[i].Len() != bs[i].Len() {
				return fmt.Errorf("step %d op %d(%d,%d,%d): Len()=%d, want %d", s, op, i, j, k, as[i].Len(), bs[i].Len())
			}
		}
		for i := range as {
			if id[as[i].Next()] != bid[bs[i].Next()] || id[as[i].Prev()] != bid[bs[i].Prev()] {
				return fmt.Errorf("neighbours of element %d of %d differ", i, n)
			}
		}
		var got, want []int
		as[0].Do(func(v int) { got = append(got, v) })
		bs[0].Do(func(v any) { want = append(want, v.(int)) })
		if !sameInts(got, want) {
			return fmt.Errorf("Do visits %d of %d elements or another order", len(got), len(want))
		}
		return nil
	})
}

// Ranges over large maps that are changed by the callback.
func rwmapLargeRange() pbt.Checker {
	return large("rwmap-large-range", 300, 3000, "ranges over large maps whose callback stores, deletes, clears, loads (missing and present keys) and ranges again; each key present all along is visited once, with its value", func(c largeCase, g *lcg, r *pbt.Rec) error {
		var m rwmap.RWMap[int, int]
		model := map[int]int{}
		for i := 0; i < c.N; i++ {
			m.Store(i, i)
			model[i] = i
			if i%97 == 5 {
				m.Load(-1)
			}
		}
		rounds := 1 + g.n(4)
		for round := 0; round < rounds; round++ {
			always := map[int]bool{}
			held := map[int]map[int]bool{}
			hold := func(k, v int) {
				if held[k] == nil {
					held[k] = map[int]bool{}
				}
				held[k][v] = true
			}
			for k, v := range model {
				always[k] = true
				hold(k, v)
			}
			seen := map[int]bool{}
			var err error
			steps := 0
			m.Range(func(k, v int) bool {
				if seen[k] || !held[k][v] {
					err = fmt.Errorf("round %d: Range gave (%d,%d), again=%v", round, k, v, seen[k])
					return false
				}
				seen[k] = true
				for q := 0; q < 1+c.Steps%3; q++ {
					steps++
					x := g.n(2*c.N + 2)
					switch op := g.n(12); {
					case op < 4:
						m.Store(x, steps)
						model[x] = steps
						hold(x, steps)
					case op < 6:
						m.Delete(x)
						delete(model, x)
						delete(always, x)
					case op < 8:
						w, had := model[x]
						if got, ok := m.LoadAndDelete(x); ok != had || got != w {
							err = fmt.Errorf("round %d: LoadAndDelete(%d)=(%d,%v) in the callback, want (%d,%v)", round, x, got, ok, w, had)
							return false
						}
						delete(model, x)
						delete(always, x)
					case op < 10:
						w, had := model[x]
						if got, ok := m.Load(x); ok != had || got != w {
							err = fmt.Errorf("round %d: Load(%d)=(%d,%v) in the callback, want (%d,%v)", round, x, got, ok, w, had)
							return false
						}
					case op == 10 && c.Mix == 1 && g.n(400) == 0:
						m.Clear()
						model = map[int]int{}
						always = map[int]bool{}
					case op == 11 && g.n(300) == 0:
						n := 0
						m.Range(func(int, int) bool { n++; return true })
						if n != len(model) {
							err = fmt.Errorf("round %d: a Range inside the callback visited %d of %d", round, n, len(model))
							return false
						}
					}
				}
				return true
			})
			if err != nil {
				return err
			}
			for k := range always {
				if !seen[k] {
					return fmt.Errorf("round %d: Range missed key %d of %d, present all along", round, k, len(always))
				}
			}
			if int(m.Len()) != len(model) {
				return fmt.Errorf("round %d: Len()=%d, want %d", round, m.Len(), len(model))
			}
		}
		return nil
	})
}

func largeSorted[T any](c largeCase, g *lcg, mk func(x int) T, less, eq, same func(a, b T) bool, conf ...vec.VecConf[T]) error {
	span := []int{4, 60, 1 << 20, 1 << 20}[c.Mix]
	v := vec.New(conf...)
	var m []T
	for i := 0; i < c.N; i++ {
		x := g.n(span)
		switch {
		case c.Mix == 3 && c.Seed%3 == 0:
			x = i / 3
		case c.Mix == 3 && c.Seed%3 == 1:
			x = c.N - i/3
		case c.Mix == 3:
			x = i/7*3 + g.n(5)
		}
		m = append(m, mk(x))
	}
	v.Push(m...)
	sort.SliceStable(m, func(i, j int) bool { return less(m[i], m[j]) })
	stable := c.Steps%2 == 0
	if stable {
		v.SortStable()
	} else {
		v.Sort()
	}
	got := v.Slice()
	if len(got) != len(m) {
		return fmt.Errorf("%d elements after sorting %d", len(got), len(m))
	}
	for i := range m {
		if less(got[i], m[i]) || less(m[i], got[i]) || stable && !same(got[i], m[i]) {
			return fmt.Errorf("sorting %d elements (stable %v): element %d is %v, want %v", len(m), stable, i, got[i], m[i])
		}
	}
	if !v.IsSorted() {
		return fmt.Errorf("IsSorted()=false after sorting %d elements", len(m))
	}
	for s := 0; s < 40; s++ {
		x := mk(g.n(span))
		if s%2 == 0 && len(m) > 0 {
			x = m[g.n(len(m))]
		}
		pos := sort.Search(len(m), func(i int) bool { return !less(m[i], x) })
		hit := pos < len(m) && eq(m[pos], x)
		if i, ok := v.BinarySearch(x); eq(x, x) && (i != pos || ok != hit) {
			return fmt.Errorf("BinarySearch(%v)=(%d,%v) in %d sorted elements, want (%d,%v)", x, i, ok, len(m), pos, hit)
		}
	}
	if len(m) > 1 && less(m[0], m[len(m)-1]) {
		// the last one becomes the least: out of order in one place, at the end
		big, _ := v.Last()
		v.Set(v.Len()-1, m[0])
		if k := v.Len() - 2; less(m[0], got[k]) && v.IsSorted() {
			return fmt.Errorf("IsSorted()=true for %d elements, the last of which is the least", len(m))
		}
		v.Set(v.Len()-1, big)
		// move one element: no longer sorted
		i := sort.Search(len(m), func(i int) bool { return less(m[0], m[i]) })
		j := g.n(i)
		at := i + g.n(len(m)-i)
		v.Swap(j, at)
		if at > j+0 && less(got[at], got[j]) && v.IsSorted() {
			return fmt.Errorf("IsSorted()=true for %d elements after swapping %d and %d", len(m), j, at)
		}
		lo, hi := v.Min(), v.Max()
		if less(lo, m[0]) || less(m[0], lo) || less(hi, m[len(m)-1]) || less(m[len(m)-1], hi) {
			return fmt.Errorf("Min/Max of %d elements are %v and %v, want %v and %v", len(m), lo, hi, m[0], m[len(m)-1])
		}
	}
	return nil
}

func vecLargeSort() pbt.Checker {
	return large("vec-large-sort", 800, 6000, "sorted (Sort, SortStable) with few, many and no ties, presorted, backwards and almost sorted, searched; ints, floats with NaN, natural strings, records with a supplied order", func(c largeCase, g *lcg, r *pbt.Rec) error {
		switch c.Steps % 9 / 2 {
		case 0:
			return largeSorted(c, g, func(x int) int { return x - 1000 }, lessOf[int], eqOf[int], eqOf[int])
		case 1:
			return largeSorted(c, g, func(x int) float64 {
				if x%50 == 3 {
					return math.NaN()
				}
				return float64(x) / 8
			}, lessOf[float64], eqOf[float64], sameF64)
		case 2:
			return largeSorted(c, g, func(x int) string { return fmt.Sprintf("n%d", x) }, natLess, eqOf[string], eqOf[string])
		}
		n := 0
		l, e := func(a, b rec) bool { return a.k < b.k }, func(a, b rec) bool { return a.k == b.k }
		return largeSorted(c, g, func(x int) rec { n++; return rec{x, n} }, l, e, eqOf[rec], vec.WithCmpLess(l), vec.WithCmpEqual(e))
	})
}

func vecLargeIndependence() pbt.Checker {
	return large("vec-large-independence", 500, 5000, "large vectors cloned, split and cut, then both sides overwritten, extended and sorted; own contents pushed and inserted", func(c largeCase, g *lcg, r *pbt.Rec) error {
		v := vec.New[int]()
		var m []int
		for i := 0; i < c.N; i++ {
			m = append(m, g.n(1000))
		}
		if c.Mix%2 == 0 {
			v.Grow(c.N + g.n(c.N+1))
		}
		v.Push(m...)
		if c.Mix == 3 {
			v.Clip()
		}
		type pair struct {
			what string
			v    *vec.Vec[int]
			s    []int
			want []int
		}
		cp := func(x []int) []int { return append([]int(nil), x...) }
		all := []*pair{{what: "the vector", v: v, want: m}}
		now := func(p *pair) []int {
			if p.v != nil {
				return p.v.Slice()
			}
			return p.s
		}
		for s := 0; s < 12; s++ {
			x := all[0]
			i, j := g.n(len(x.want)+1), g.n(len(x.want)+1)
			if i > j {
				i, j = j, i
			}
			switch g.n(10) {
			case 0:
				all = append(all, &pair{what: "a clone", v: x.v.Clone(), want: cp(x.want)})
			case 1:
				if i < len(x.want)/2 {
					i = len(x.want) - i
				}
				all = append(all, &pair{what: "a split-off part", v: x.v.SplitOff(i), want: cp(x.want[i:])})
				x.want = cp(x.want[:i])
			case 2:
				if j-i > len(x.want)/2 {
					j = i + 1
				}
				all = append(all, &pair{what: "a cut", s: x.v.Cut(i, j), want: cp(x.want[i:j])})
				x.want = append(cp(x.want[:i]), x.want[j:]...)
			case 3:
				all = append(all, &pair{what: "a cloned slice", s: x.v.CloneToSlice(), want: cp(x.want)})
			case 4, 5: // write all over one of them
				p := all[g.n(len(all))]
				for k := range p.want {
					p.want[k] = s*10 + k%7
					if p.v != nil {
						p.v.Set(k, s*10+k%7)
					} else {
						p.s[k] = s*10 + k%7
					}
				}
			case 6: // extend one of them
				p := all[g.n(len(all))]
				for k := 0; k < 30; k++ {
					if p.v != nil {
						p.v.Push(-k)
					} else {
						p.s = append(p.s, -k)
					}
					p.want = append(p.want, -k)
				}
			case 7:
				p := all[g.n(len(all))]
				if p.v != nil {
					p.v.Sort()
					sort.Ints(p.want)
				}
			case 8:
				if len(x.want) < 20000 {
					x.v.Push(x.v.Slice()...)
					x.want = append(cp(x.want), x.want...)
				}
			case 9:
				at := g.n(len(x.want) + 1)
				if len(x.want) < 20000 {
					x.v.Insert(at, x.v.Slice()[i:j]...)
					x.want = append(append(cp(x.want[:at]), x.want[i:j]...), x.want[at:]...)
				}
			}
			for _, p := range all {
				if !sameInts(now(p), p.want) {
					return fmt.Errorf("step %d: %s of %d elements changed or is wrong", s, p.what, len(p.want))
				}
			}
		}
		return nil
	})
}

// Relations in large and deep trees, subtrees moved around.
func treeLargeRelations() pbt.Checker {
	return large("tree-large-relations", 400, 1500, "deep, one-sided, complete and random trees whose subtrees are moved; links of all nodes, relations, Layer and MaxDepth of sampled ones", func(c largeCase, g *lcg, r *pbt.Rec) error {
		if c.N == 0 {
			return nil
		}
		w := &treeWorld{id: map[*tNode]int{}}
		for i := 0; i < c.N; i++ {
			w.add(tree.NewNode(i))
		}
		set := func(a, b int, left bool) error {
			slot := &w.l[a]
			if !left {
				slot = &w.r[a]
			}
			old := *slot
			var ret *tNode
			if left {
				ret = w.ns[a].SetLeft(w.ns[b])
			} else {
				ret = w.ns[a].SetRight(w.ns[b])
			}
			if old == b {
				return nil
			}
			if w.num(ret) != old {
				return fmt.Errorf("setting child %d of node %d returned %d, want %d", b, a, w.num(ret), old)
			}
			w.detach(b)
			if old >= 0 {
				w.p[old] = -1
			}
			*slot = b
			w.p[b] = a
			return nil
		}
		for i := 1; i < c.N; i++ {
			p, left := (i-1)/2, i%2 == 1
			switch c.Mix {
			case 1:
				p, left = i-1, c.Seed%2 == 0
			case 2:
				p, left = i-1, g.n(2) == 0
			case 3:
				for {
					p, left = g.n(i), g.n(2) == 0
					if left && w.l[p] < 0 || !left && w.r[p] < 0 {
						break
					}
				}
			}
			if err := set(p, i, left); err != nil {
				return err
			}
		}
		depth := func() []int { // height of every node
			h := make([]int, len(w.ns))
			deg := make([]int, len(w.ns))
			var q []int
			for i := range w.ns {
				for _, k := range []int{w.l[i], w.r[i]} {
					if k >= 0 {
						deg[i]++
					}
				}
				if deg[i] == 0 {
					q = append(q, i)
				}
			}
			for len(q) > 0 {
				x := q[len(q)-1]
				q = q[:len(q)-1]
				if p := w.p[x]; p >= 0 {
					h[p] = max(h[p], h[x]+1)
					if deg[p]--; deg[p] == 0 {
						q = append(q, p)
					}
				}
			}
			return h
		}
		check := func() error {
			if err := w.links(); err != nil {
				return err
			}
			h := depth()
			for s := 0; s < 12; s++ {
				i := g.n(c.N)
				if s == 0 {
					i = c.N - 1
				}
				n := w.ns[i]
				layer := 0
				anc := map[int]bool{}
				for q := w.p[i]; q >= 0; q = w.p[q] {
					layer++
					anc[q] = true
				}
				if n.Layer() != layer {
					return fmt.Errorf("Layer of node %d is %d, want %d", i, n.Layer(), layer)
				}
				if n.MaxDepth() != h[i] {
					return fmt.Errorf("MaxDepth of node %d is %d, want %d", i, n.MaxDepth(), h[i])
				}
				for t := 0; t < 12; t++ {
					j := g.n(c.N)
					if t < 4 && layer > 0 { // a true ancestor, near or far
						j = i
						for up := []int{1, layer, 1 + layer/2, 1 + g.n(layer)}[t]; up > 0; up-- {
							j = w.p[j]
						}
					}
					if j == i {
						continue
					}
					if w.ns[j].IsAncestorRelation(n) != anc[j] || w.ns[j].IsDescendantRelation(n) != anc[j] {
						return fmt.Errorf("ancestor relation of nodes %d and %d (%d layers deep): want %v", j, i, layer, anc[j])
					}
					if !anc[j] && !w.anc(i, j) && (n.IsAncestorRelation(w.ns[j]) || n.IsDescendantRelation(w.ns[j])) {
						return fmt.Errorf("unrelated nodes %d and %d are called related", i, j)
					}
				}
			}
			return nil
		}
		if err := check(); err != nil {
			return fmt.Errorf("at the start: %w", err)
		}
		for s := 0; s < 3+c.Steps%20; s++ {
			a, b := g.n(c.N), g.n(c.N)
			if a == b || w.anc(b, a) {
				continue
			}
			if err := set(a, b, g.n(2) == 0); err != nil {
				return fmt.Errorf("move %d: %w", s, err)
			}
			if s%5 == 4 {
				if err := check(); err != nil {
					return fmt.Errorf("after move %d: %w", s, err)
				}
			}
		}
		return check()
	})
}
