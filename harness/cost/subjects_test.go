package cost

import (
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
)

type fm = map[string]func()

var subjects = map[string]func(n int, g *lcg) subject{
	"dllist": func(n int, g *lcg) subject {
		l := dllist.New[int]()
		var hs []*dllist.Element[int]
		for i := 0; i < n; i++ {
			hs = append(hs, l.PushBack(g.n(1<<30)))
		}
		keep := func(e *dllist.Element[int]) { hs = append(hs, e) }
		h := func() *dllist.Element[int] {
			if len(hs) == 0 {
				keep(l.PushBack(0))
			}
			return hs[g.n(len(hs))]
		}
		take := func() *dllist.Element[int] {
			h()
			i := g.n(len(hs))
			e := hs[i]
			hs[i] = hs[len(hs)-1]
			hs = hs[:len(hs)-1]
			return e
		}
		regain := func() {
			hs = hs[:0]
			for e := l.Front(); e != nil; e = e.Next() {
				keep(e)
			}
		}
		return subject{size: l.Len, ops: fm{
			"PushBack":             func() { keep(l.PushBack(1)) },
			"PushFront":            func() { keep(l.PushFront(1)) },
			"InsertBefore":         func() { keep(l.InsertBefore(1, h())) },
			"InsertAfter":          func() { keep(l.InsertAfter(1, h())) },
			"Element.InsertBefore": func() { keep(h().InsertBefore(1)) },
			"Element.InsertAfter":  func() { keep(h().InsertAfter(1)) },
			"MoveToFront":          func() { l.MoveToFront(h()) },
			"MoveToBack":           func() { l.MoveToBack(h()) },
			"MoveBefore":           func() { l.MoveBefore(h(), h()) },
			"MoveAfter":            func() { l.MoveAfter(h(), h()) },
			"Swap":                 func() { l.Swap(h(), h()) },
			"Remove":               func() { l.Remove(take()) },
			"Element.Remove":       func() { take().Remove() },
			"Len":                  func() { l.Len() },
			"Front, Back":          func() { l.Front(); l.Back() },
			"Next, Prev":           func() { h().Next(); h().Prev() },
			"Get at the front":     func() { l.Get(g.n(3)) },
			"Range, stopped":       func() { l.Range(func(*dllist.Element[int]) bool { return false }) },
			"splice of one":        func() { o := dllist.New[int](); o.PushBack(1); l.PushBackList(o); keep(l.Back()) },
			"splice at a mark":     func() { o := dllist.New[int](); o.PushBack(1); m := h(); l.PushBackListTo(o, m); keep(m.Next()) },
		}, whole: fm{
			"Slice":           func() { l.Slice() },
			"Sort":            func() { l.Sort(func(a, b int) bool { return a < b }); regain() },
			"Range":           func() { l.Range(func(*dllist.Element[int]) bool { return true }) },
			"PushBackList":    func() { o := dllist.New[int](); o.PushBackList(l) },
			"PushFrontListTo": func() { o := dllist.New[int](); o.PushFrontListTo(l, o.PushBack(1)) },
			"Clear":           func() { l.Clear(); hs = hs[:0] },
		}}
	},
	"lhashmap": func(n int, g *lcg) subject {
		m := lhashmap.New[int, int]()
		next := 0
		for ; next < n; next++ {
			m.Store(next, next)
		}
		return subject{size: m.Len, ops: fm{
			"Store new":      func() { m.Store(next, 1); next++ },
			"Store":          func() { m.Store(g.n(next), 1) },
			"Load":           func() { m.Load(g.n(next)) },
			"Load missing":   func() { m.Load(-1) },
			"Remove":         func() { m.Remove(g.n(next)) },
			"Len":            func() { m.Len() },
			"Range, stopped": func() { m.Range(func(int, int) bool { return false }) },
		}, whole: fm{
			"Range": func() { m.Range(func(int, int) bool { return true }) },
			"Clear": func() { m.Clear() },
		}}
	},
	"set": func(n int, g *lcg) subject {
		m := set.New[int]()
		o := set.New[int]()
		next := 0
		for ; next < n; next++ {
			m.Push(next)
			if next%3 > 0 {
				o.Push(next)
			}
		}
		return subject{size: m.Len, ops: fm{
			"Push new":         func() { m.Push(next); next++ },
			"Push":             func() { m.Push(g.n(next)) },
			"Insert":           func() { m.Insert(g.n(next)) },
			"Contain":          func() { m.Contain(g.n(next)) },
			"Remove":           func() { m.Remove(g.n(next)) },
			"ContainAndRemove": func() { m.ContainAndRemove(g.n(next)) },
			"Len, IsEmpty":     func() { m.Len(); m.IsEmpty() },
		}, whole: fm{
			"Slice":               func() { m.Slice() },
			"Clone":               func() { m.Clone() },
			"Equal":               func() { m.Equal(m.Clone()) },
			"IsSubSet":            func() { m.IsSubSet(o); o.IsSubSet(m) },
			"IsSupperSet":         func() { m.IsSupperSet(o); o.IsSupperSet(m) },
			"Difference":          func() { m.Difference(o); o.Difference(m) },
			"SymmetricDifference": func() { m.SymmetricDifference(o) },
			"Intersection":        func() { m.Intersection(o) },
			"Union":               func() { m.Union(o) },
			"CopyFrom":            func() { set.New[int]().CopyFrom(m) },
			"Clear":               func() { m.Clear() },
		}}
	},
	"genmap": func(n int, g *lcg) subject {
		m := genmap.New[int, int]()
		next := 0
		for ; next < n; next++ {
			m.Store(next, next)
		}
		return subject{size: m.Len, ops: fm{
			"Store new":       func() { m.Store(next, 1); next++ },
			"Store":           func() { m.Store(g.n(next), 1) },
			"Load":            func() { m.Load(g.n(next)) },
			"Delete":          func() { m.Delete(g.n(next)) },
			"LoadOrStore":     func() { m.LoadOrStore(g.n(next), 1) },
			"LoadOrStoreFunc": func() { m.LoadOrStoreFunc(g.n(next), func() int { return 1 }) },
			"LoadAndDelete":   func() { m.LoadAndDelete(g.n(next)) },
			"LoadAndStore":    func() { m.LoadAndStore(g.n(next), 1) },
			"Len, Map":        func() { m.Len(); m.Map() },
		}, whole: fm{
			"Keys, Values": func() { m.Keys(); m.Values() },
			"Clone":        func() { m.Clone() },
			"EqualFunc":    func() { m.EqualFunc(m, func(a, b int) bool { return a == b }) },
			"Range":        func() { m.Range(func(int, int) bool { return true }) },
			"DeleteFunc":   func() { m.DeleteFunc(func(k, v int) bool { return k%3 == 0 }) },
			"CopyFrom":     func() { genmap.New[int, int]().CopyFrom(m) },
			"CopyTo":       func() { m.CopyTo(genmap.New[int, int]()) },
			"Clear":        func() { m.Clear() },
		}}
	},
	"rwmap": func(n int, g *lcg) subject {
		var m rwmap.RWMap[int, int]
		next := 0
		for ; next < n; next++ {
			m.Store(next, 1)
		}
		mixed := 0
		return subject{size: func() int { return int(m.Len()) }, ops: fm{
			"Store new":        func() { m.Store(next, 1); next++ },
			"Store":            func() { m.Store(g.n(next), 1) },
			"Load":             func() { m.Load(g.n(next)) },
			"Load missing":     func() { m.Load(-1) },
			"Delete":           func() { m.Delete(g.n(next)) },
			"LoadOrStore":      func() { m.LoadOrStore(g.n(next), 1) },
			"LoadOrStore new":  func() { m.LoadOrStore(next, 1); next++ },
			"LoadAndDelete":    func() { m.LoadAndDelete(g.n(next)) },
			"Swap":             func() { m.Swap(g.n(next), 1) },
			"CompareAndSwap":   func() { m.CompareAndSwap(g.n(next), 1, 1) },
			"CompareAndDelete": func() { m.CompareAndDelete(g.n(next), 1) },
			"Len":              func() { m.Len() },
			"new, looked up": func() {
				if mixed++; mixed%2 == 0 {
					m.Load(next - 1)
				} else {
					m.Store(next, 1)
					next++
				}
			},
			"new, deleted": func() {
				if mixed++; mixed%2 == 0 {
					m.Delete(next - 1)
				} else {
					m.Store(next, 1)
					next++
				}
			},
			"new, missed": func() {
				if mixed++; mixed%2 == 0 {
					m.Load(-1)
				} else {
					m.Store(next, 1)
					next++
				}
			},
		}, whole: fm{
			"Range":   func() { m.Range(func(int, int) bool { return true }) },
			"SlowLen": func() { m.SlowLen() },
			"Clear":   func() { m.Clear() },
		}}
	},
	"synccache": func(n int, g *lcg) subject {
		m := synccache.NewSyncCache[int, int](time.Second, synccache.WithDeletedCallback[int](func(int) {}))
		next := 0
		life := func() time.Duration { return []time.Duration{-1, time.Hour, time.Hour}[g.n(3)] }
		for ; next < n; next++ {
			m.Store(next, 1, life())
		}
		m.Close() // it would be swept meanwhile
		return subject{size: func() int { return next }, end: m.Clear, ops: fm{
			"Store new":             func() { m.Store(next, 1, time.Hour); next++ },
			"Store":                 func() { m.Store(g.n(next), 1, life()) },
			"Load":                  func() { m.Load(g.n(next)) },
			"Load missing":          func() { m.Load(-1) },
			"Delete":                func() { m.Delete(g.n(next)) },
			"LoadOrStore":           func() { m.LoadOrStore(g.n(next), 1, life()) },
			"LoadAndDelete":         func() { m.LoadAndDelete(g.n(next)) },
			"CompareValueAndDelete": func() { m.CompareValueAndDelete(g.n(next), 1) },
			"CompareAndDelete": func() {
				k := g.n(next)
				if e, ok := m.Load(k); ok {
					m.CompareAndDelete(k, e)
				}
			},
		}, whole: fm{
			"Range": func() { m.Range(func(int, *synccache.Entry[int]) bool { return true }) },
			"Clear": func() { m.Clear() },
		}}
	},
	"heap": func(n int, g *lcg) subject {
		var h heap.MinHeap[int]
		for i := 0; i < n; i++ {
			h = append(h, g.n(1<<30))
		}
		heap.Init[int](&h)
		some := func() {
			if len(h) == 0 {
				heap.Push[int](&h, 1)
			}
		}
		return subject{size: h.Len, ops: fm{
			"Push":     func() { heap.Push[int](&h, g.n(1<<30)) },
			"Push min": func() { heap.Push[int](&h, -len(h)) },
			"Pop":      func() { some(); heap.Pop[int](&h) },
			"Remove":   func() { some(); heap.Remove[int](&h, g.n(len(h))) },
			"Fix":      func() { some(); i := g.n(len(h)); h[i] = g.n(1 << 30); heap.Fix[int](&h, i) },
		}, whole: fm{"Init": func() {
			for i := range h {
				h[i] = len(h) - i
			}
			heap.Init[int](&h)
		}}}
	},
	"pqueue": func(n int, g *lcg) subject {
		q := pqueue.NewMaxPriorityQueue[int]()
		for i := 0; i < n; i++ {
			q.Push(g.n(1<<30), i)
		}
		return subject{size: q.Len, ops: fm{
			"Push":     func() { q.Push(g.n(1<<30), 1) },
			"Push max": func() { q.Push(1<<30+q.Len(), 1) },
			"Pop": func() {
				if q.Len() == 0 {
					q.Push(1, 1)
				}
				q.Pop()
			},
			"Len": func() { q.Len() },
		}}
	},
	"ring": func(n int, g *lcg) subject {
		r := ring.New[int](n)
		at := r
		return subject{size: func() int { return n }, ops: fm{
			"Next":       func() { at = at.Next() },
			"Prev":       func() { at = at.Prev() },
			"Move a bit": func() { at = at.Move(g.n(7) - 3) },
			"Link one":   func() { at.Link(ring.New[int](1)) },
			"Unlink one": func() { at.Unlink(1) },
		}, whole: fm{
			"Len":  func() { at.Len() },
			"Do":   func() { at.Do(func(int) {}) },
			"Move": func() { at = at.Move(n) },
		}}
	},
	"vec": func(n int, g *lcg) subject {
		v := vec.New[int]()
		for i := 0; i < n; i++ {
			v.Push(g.n(1 << 30))
		}
		at := func() int { return g.n(v.Len()) }
		return subject{size: v.Len, ops: fm{
			"Push":           func() { v.Push(1) },
			"Pop":            func() { v.Pop() },
			"Get":            func() { v.Get(at()) },
			"Set":            func() { v.Set(at(), g.n(1<<30)) },
			"First, Last":    func() { v.First(); v.Last() },
			"Len, IsEmpty":   func() { v.Len(); v.IsEmpty() },
			"Swap":           func() { v.Push(1); v.Swap(at(), at()) },
			"Less, Equal":    func() { v.Push(1); v.Less(at(), at()); v.Equal(at(), at()) },
			"Remove last":    func() { v.Remove(v.Len() - 1) },
			"Insert last":    func() { v.Insert(v.Len(), 1) },
			"Delete last":    func() { v.Push(1, 2, 3); v.Delete(v.Len()-2, v.Len()) },
			"Cut last":       func() { v.Push(1, 2, 3); v.Cut(v.Len()-2, v.Len()) },
			"SplitOff last":  func() { v.Push(1); v.SplitOff(v.Len() - 1) },
			"Range, stopped": func() { v.Range(func(int, int) bool { return false }) },
			"Grow a bit":     func() { v.Grow(1); v.Push(1) },
		}, whole: fm{
			"Sort":         func() { v.Sort() },
			"SortStable":   func() { v.SortStable() },
			"IsSorted":     func() { v.IsSorted() },
			"Reverse":      func() { v.Reverse() },
			"Clone":        func() { v.Clone() },
			"CloneToSlice": func() { v.CloneToSlice() },
			"Compact":      func() { v.Compact() },
			"Compare":      func() { v.Compare(*v.Clone()) },
			"EqualVec":     func() { v.EqualVec(*v.Clone()) },
			"Search":       func() { v.Search(-1); v.Contains(-1) },
			"SearchAll":    func() { v.SearchAll(1); v.SearchAllFunc(func(int) bool { return true }) },
			"Max, Min":     func() { v.Push(1); v.Max(); v.Min() },
			"Insert":       func() { v.Insert(0, v.CloneToSlice()...) },
			"Clip, Grow":   func() { v.Clip(); v.Grow(v.Len()) },
			"Clear":        func() { v.Clear() },
		}}
	},
	"tree": func(n int, g *lcg) subject {
		vals := make([]int, n)
		root := tree.BuildTree(vals)
		ns := root.TraversalBFS()
		nd := func() *tree.Node[int] { return ns[g.n(len(ns))] }
		// a vine: as deep as it is long
		vine := tree.NewNode(0)
		end := vine
		for i := 0; i < min(n, 20000); i++ {
			x := tree.NewNode(i)
			if g.n(2) == 0 {
				end.SetLeft(x)
			} else {
				end.SetRight(x)
			}
			end = x
		}
		return subject{size: func() int { return n }, ops: fm{
			"relatives": func() {
				x := nd()
				x.Sibling()
				x.Uncle()
				x.Grandparent()
				x.IsLeaf()
				x.IsRoot()
			},
			"Has":   func() { x := nd(); x.HasSibling(); x.HasUncle(); x.HasGrandparent(); x.HasBothChild() },
			"Layer": func() { nd().Layer() },
			"SetLeft, SetRight": func() {
				x := tree.NewNode(1)
				x.SetLeft(tree.NewNode(2))
				x.SetRight(tree.NewNode(3))
			},
			"reattach": func() {
				if x := nd(); x.Left != nil && x.Right != nil {
					l, r := x.Left, x.Right
					x.SetLeft(nil)
					x.SetRight(l)
					x.SetLeft(r)
				}
			},
			"move of the vine": func() {
				if x := nd(); x.Left == nil {
					x.SetLeft(vine)
				}
				if vine.Parent != nil {
					vine.Parent.SetLeft(nil)
				}
			},
			"child relation": func() { x := nd(); x.IsChildRelation(nd()); x.IsSiblingRelation(nd()) },
		}, whole: fm{
			"BuildTree":          func() { tree.BuildTree(vals) },
			"TraversalBFS":       func() { root.TraversalBFS() },
			"TraversalDFS":       func() { root.TraversalDFS() },
			"DrawTree":           func() { root.DrawTree() },
			"MaxDepth":           func() { root.MaxDepth() },
			"deep, TraversalBFS": func() { vine.TraversalBFS() },
			"deep, TraversalDFS": func() { vine.TraversalDFS() },
			"deep, DrawTree":     func() { vine.DrawTree() },
			"deep, MaxDepth":     func() { vine.MaxDepth() },
			"deep, Layer":        func() { end.Layer() },
		}}
	},
	"hashring": func(n int, g *lcg) subject {
		r := hashring.New[string](10)
		var nodes []string
		for i := 0; i < n/10; i++ {
			nodes = append(nodes, fmt.Sprint("node", g.n(1<<30)))
		}
		r.AddNodes(nodes...)
		keys := make([]string, 64)
		for i := range keys {
			keys[i] = fmt.Sprint(g.n(1 << 30))
		}
		return subject{size: func() int { return n }, ops: fm{
			"GetNode": func() { r.GetNode(keys[g.n(len(keys))]) },
		}, whole: fm{
			"AddNodes":    func() { r.AddNodes("x", "y", "z") },
			"RemoveNodes": func() { r.RemoveNodes(nodes[:len(nodes)/2]...) },
			"ResetNodes":  func() { r.ResetNodes(nodes...) },
		}}
	},
}
