package cost

import (
	"fmt"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/vec"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// cell is an element whose place in the order may still be open: the adversary of
// M. D. McIlroy ("A killer adversary for quicksort") settles it while it is compared.
type cell struct{ v int }

type order struct {
	n      int // comparisons
	gas    int // cells with this value are open (0: none)
	next   int
	pinned *cell
}

func (o *order) less(a, b *cell) bool { o.n++; return o.cmp(a, b) < 0 }

func (o *order) equal(a, b *cell) bool {
	o.n++
	return a == b || o.cmp(a, b) == 0
}

func (o *order) cmp(a, b *cell) int {
	if a == b {
		return 0
	}
	if o.gas > 0 {
		if a.v == o.gas && b.v == o.gas {
			x := a
			if b == o.pinned {
				x = b
			}
			x.v = o.next
			o.next++
		}
		if a.v == o.gas {
			o.pinned = a
		} else if b.v == o.gas {
			o.pinned = b
		}
	}
	return a.v - b.v
}

var shapes = []string{"random", "ascending", "descending", "equal", "few", "organ", "saw", "almost", "adversary"}

func fill(n int, shape string, g *lcg) ([]*cell, *order) {
	o := &order{}
	if shape == "adversary" {
		o.gas = n + 1
	}
	s := make([]*cell, n)
	for i := range s {
		v := 0
		switch shape {
		case "random":
			v = g.n(1 << 30)
		case "ascending":
			v = i
		case "descending":
			v = n - i
		case "few":
			v = g.n(4)
		case "organ":
			v = min(i, n-i)
		case "saw":
			v = i % 97
		case "almost":
			v = i
			if g.n(50) == 0 {
				v = g.n(n)
			}
		case "adversary":
			v = o.gas
		}
		s[i] = &cell{v}
	}
	return s, o
}

type cmpCase struct {
	N     int    `json:"n"`
	Shape string `json:"shape"`
	Op    string `json:"op"`
	Seed  uint32 `json:"seed"`
}

func cmpProp(name string, quick int, rule string, ops []string, run func(c cmpCase, g *lcg) error) pbt.Checker {
	return pbt.Prop[cmpCase]{
		Name: name, Quick: quick,
		Rule: "up to 20000 elements in 9 shapes (random, sorted, reversed, equal, few values, organ pipe, saw, almost sorted, quicksort-killing adversary), comparisons counted: " + rule + "; non-trivial: more than 100 elements",
		Gen: func(t *rapid.T) cmpCase {
			hi := rapid.SampledFrom([]int{200, 2000, 20000}).Draw(t, "hi")
			return cmpCase{N: rapid.IntRange(0, hi).Draw(t, "n"), Shape: rapid.SampledFrom(shapes).Draw(t, "shape"), Op: rapid.SampledFrom(ops).Draw(t, "op"), Seed: rapid.Uint32().Draw(t, "seed")}
		},
		Run: func(c cmpCase, r *pbt.Rec) error {
			r.NonTrivial = c.N > 100
			r.Label(c.Op)
			r.Label(c.Shape)
			return run(c, &lcg{uint64(c.Seed)*2 + 1})
		},
	}
}

func atMost(c cmpCase, what string, got, bound int) error {
	if got > bound {
		return fmt.Errorf("%s of %d elements (%s) makes %d comparisons, more than %d", what, c.N, c.Shape, got, bound)
	}
	return nil
}

func sortBound(n int) int { return 100 + 40*n + 10*n*log(n) }

// sorted checks the order that the comparisons have settled on.
func sorted(c cmpCase, s []*cell, o *order) error {
	o.gas = 0
	if len(s) != c.N {
		return fmt.Errorf("%d elements of %d", len(s), c.N)
	}
	for i := 1; i < len(s); i++ {
		if o.cmp(s[i], s[i-1]) < 0 {
			return fmt.Errorf("%s: element %d is less than the one before", c.Op, i)
		}
	}
	return nil
}

func vecSortCost() pbt.Checker {
	ops := []string{"Sort", "SortFunc", "SortStable", "SortStableFunc"}
	return cmpProp("cost-vec-sort", 150, "the sorts of vec make O(n log n) comparisons (bound: 40n + 10n log n) and allocate O(n)", ops, func(c cmpCase, g *lcg) error {
		s, o := fill(c.N, c.Shape, g)
		v := vec.New(vec.WithCmpLess(o.less), vec.WithCmpEqual(o.equal)).Push(s...)
		a := allocated()
		switch c.Op {
		case "Sort":
			v.Sort()
		case "SortFunc":
			v.SortFunc(o.less, o.equal)
		case "SortStable":
			v.SortStable()
		default:
			v.SortStableFunc(o.less, o.equal)
		}
		if a = allocated() - a; a > uint64(1<<17+1000*c.N) {
			return fmt.Errorf("%s of %d elements (%s) allocates %d bytes", c.Op, c.N, c.Shape, a)
		}
		if err := atMost(c, c.Op, o.n, sortBound(c.N)); err != nil {
			return err
		}
		return sorted(c, v.Slice(), o)
	})
}

func listSortCost() pbt.Checker {
	return cmpProp("cost-list-sort", 150, "dllist.Sort makes O(n log n) comparisons (bound: 40n + 10n log n) and allocates O(n)", []string{"Sort"}, func(c cmpCase, g *lcg) error {
		s, o := fill(c.N, c.Shape, g)
		l := dllist.New[*cell]()
		for _, x := range s {
			l.PushBack(x)
		}
		a := allocated()
		l.Sort(o.less)
		if a = allocated() - a; a > uint64(1<<17+1000*c.N) {
			return fmt.Errorf("Sort of %d elements (%s) allocates %d bytes", c.N, c.Shape, a)
		}
		if err := atMost(c, "Sort", o.n, sortBound(c.N)); err != nil {
			return err
		}
		return sorted(c, l.Slice(), o)
	})
}

func searchCost() pbt.Checker {
	ops := []string{"BinarySearch", "BinarySearchFunc", "Search", "SearchFunc", "SearchAll", "SearchAllFunc", "Contains", "ContainsFunc", "Min", "Max", "IsSorted", "EqualVec", "EqualSlice", "Compare", "Compact", "ConpareAndRemove", "Range"}
	return cmpProp("cost-vec-search", 300, "binary searches make O(log n) comparisons, the other searches and the functions that look at all elements O(n)", ops, func(c cmpCase, g *lcg) error {
		s, o := fill(c.N, c.Shape, g)
		o.gas = 0
		binary := c.Op == "BinarySearch" || c.Op == "BinarySearchFunc"
		v := vec.New(vec.WithCmpLess(o.less), vec.WithCmpEqual(o.equal)).Push(s...)
		if binary {
			v.Sort()
		}
		x := &cell{g.n(c.N + 1)}
		if c.N > 0 && g.n(2) == 0 {
			x = s[g.n(c.N)]
		}
		match := func(y *cell) bool { o.n++; return x.v == y.v }
		o.n = 0
		bound := 64 + 6*c.N
		switch c.Op {
		case "BinarySearch":
			v.BinarySearch(x)
		case "BinarySearchFunc":
			v.BinarySearchFunc(x, func(a, b *cell) int { o.n++; return a.v - b.v })
		case "Search":
			v.Search(x)
		case "SearchFunc":
			v.SearchFunc(match)
		case "SearchAll":
			v.SearchAll(x)
		case "SearchAllFunc":
			v.SearchAllFunc(match)
		case "Contains":
			v.Contains(x)
		case "ContainsFunc":
			v.ContainsFunc(match)
		case "Min":
			if c.N > 0 {
				v.Min()
			}
		case "Max":
			if c.N > 0 {
				v.Max()
			}
		case "IsSorted":
			v.IsSorted()
		case "EqualVec":
			v.EqualVec(*v.Clone())
		case "EqualSlice":
			v.EqualSlice(v.CloneToSlice())
		case "Compare":
			v.Compare(*v.Clone())
		case "Compact":
			v.Compact()
		case "ConpareAndRemove":
			if c.N > 0 {
				v.ConpareAndRemove(g.n(c.N), x)
			}
			bound = 64
		case "Range":
			v.Range(func(int, *cell) bool { o.n++; return true })
		}
		if binary {
			bound = 32 + 6*log(c.N)
		}
		return atMost(c, c.Op, o.n, bound)
	})
}

// tally is a heap that counts its calls.
type tally struct {
	d     []*cell
	o     *order
	swaps int
}

func (h *tally) Len() int           { return len(h.d) }
func (h *tally) Less(i, j int) bool { return h.o.less(h.d[i], h.d[j]) }
func (h *tally) Swap(i, j int)      { h.swaps++; h.d[i], h.d[j] = h.d[j], h.d[i] }
func (h *tally) Push(x *cell)       { h.d = append(h.d, x) }
func (h *tally) Pop() *cell {
	x := h.d[len(h.d)-1]
	h.d = h.d[:len(h.d)-1]
	return x
}

func heapCost() pbt.Checker {
	ops := []string{"Push", "Pop", "Remove", "Fix", "mixed"}
	return cmpProp("cost-heap", 150, "heap.Init makes O(n) calls of Less and Swap, Push, Pop, Remove and Fix O(log n) each (bounds: 6n, 6 log n + 16)", ops, func(c cmpCase, g *lcg) error {
		s, o := fill(c.N, c.Shape, g)
		o.gas = 0
		h := &tally{d: s, o: o}
		heap.Init[*cell](h)
		if err := atMost(c, "Init", o.n+h.swaps, 64+6*c.N); err != nil {
			return err
		}
		for i := 0; i < c.N; i++ {
			op := c.Op
			if op == "mixed" {
				op = ops[g.n(4)]
			}
			n := len(h.d)
			if n == 0 {
				op = "Push"
			}
			o.n, h.swaps = 0, 0
			switch op {
			case "Push":
				heap.Push[*cell](h, &cell{[]int{-i, i, g.n(1 << 30)}[g.n(3)]})
			case "Pop":
				heap.Pop[*cell](h)
			case "Remove":
				heap.Remove[*cell](h, g.n(n))
			case "Fix":
				at := g.n(n)
				h.d[at].v = []int{-i, 1<<30 + i, g.n(1 << 30)}[g.n(3)]
				heap.Fix[*cell](h, at)
			}
			if got := o.n + h.swaps; got > 16+6*log(n+1) {
				return fmt.Errorf("%s on a heap of %d elements makes %d comparisons and swaps", op, n, got)
			}
		}
		return nil
	})
}
