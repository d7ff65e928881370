package fault

import (
	"fmt"
	"sort"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/vec"

	"verifharness/pbt"
)

type item struct{ k, tag int }

func sameItems(a, b []item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameBag compares as multisets.
func sameBag(a, b []item) bool {
	a, b = append([]item{}, a...), append([]item{}, b...)
	for _, s := range [][]item{a, b} {
		sort.Slice(s, func(i, j int) bool { return s[i].k < s[j].k || s[i].k == s[j].k && s[i].tag < s[j].tag })
	}
	return sameItems(a, b)
}

type listWorld struct {
	l    *dllist.Dllist[item]
	ref  []item
	next int
}

func (w *listWorld) step(op Op, b *bomb) error {
	w.next++
	x := item{op.B, w.next}
	switch op.K {
	case "back":
		w.l.PushBack(x)
		w.ref = append(w.ref, x)
	case "front":
		w.l.PushFront(x)
		w.ref = append([]item{x}, w.ref...)
	case "remove":
		if len(w.ref) > 0 {
			i := op.A % len(w.ref)
			w.l.Remove(w.l.Get(i))
			w.ref = append(append([]item{}, w.ref[:i]...), w.ref[i+1:]...)
		}
	case "range":
		return b.run("Range", func() { w.l.Range(func(*dllist.Element[item]) bool { b.hit(); return true }) })
	case "erange":
		if e := w.l.Get(op.A % (len(w.ref) + 1)); e != nil {
			return b.run("Element.Range", func() { e.Range(func(*dllist.Element[item]) bool { b.hit(); return true }) })
		}
	case "sort":
		if err := b.run("Sort", func() {
			w.l.Sort(func(p, q item) bool { b.hit(); return p.k < q.k })
		}); err != nil {
			return err
		}
		if !b.fired {
			sort.SliceStable(w.ref, func(i, j int) bool { return w.ref[i].k < w.ref[j].k })
			return nil
		}
		s := w.l.Slice()
		if !sameBag(s, w.ref) {
			return fmt.Errorf("Sort failed and left %v of %v", s, w.ref)
		}
		w.ref = s // in whatever order
	}
	return nil
}

func (w *listWorld) verify() error {
	if s := w.l.Slice(); !sameItems(s, w.ref) || w.l.Len() != len(w.ref) {
		return fmt.Errorf("holds %v (Len %d), want %v", s, w.l.Len(), w.ref)
	}
	i := len(w.ref)
	for e := w.l.Back(); e != nil; e = e.Prev() {
		if i--; i < 0 || e.Value != w.ref[i] {
			return fmt.Errorf("backwards, element %d differs", i)
		}
	}
	if i != 0 {
		return fmt.Errorf("backwards, %d elements are missing", i)
	}
	for i := range w.ref {
		if e := w.l.Get(i); e == nil || e.Value != w.ref[i] {
			return fmt.Errorf("Get(%d)=%v, want %v", i, e, w.ref[i])
		}
	}
	return nil
}

func listFaults() pbt.Checker {
	ks := []string{"range", "erange", "sort", "sort", "sort"}
	return prop("dllist-faults", 3000, "Range, Element.Range and the comparison of Sort; afterwards the list is as it was (after Sort: the same elements in some order)",
		append([]string{"back", "back", "back", "front", "front", "remove"}, ks...), only(ks...), func(int) world { return &listWorld{l: dllist.New[item]()} })
}

// bag is a heap container whose Less may fail.
type bag struct {
	d []item
	b *bomb
}

func (h *bag) Len() int           { return len(h.d) }
func (h *bag) Less(i, j int) bool { h.b.hit(); return h.d[i].k < h.d[j].k }
func (h *bag) Swap(i, j int)      { h.d[i], h.d[j] = h.d[j], h.d[i] }
func (h *bag) Push(x item)        { h.d = append(h.d, x) }
func (h *bag) Pop() item {
	n := len(h.d) - 1
	x := h.d[n]
	h.d = h.d[:n]
	return x
}

type heapWorld struct {
	h    bag
	ref  []item
	next int
}

func (w *heapWorld) without(x item) {
	for i, y := range w.ref {
		if x == y {
			w.ref = append(append([]item{}, w.ref[:i]...), w.ref[i+1:]...)
			return
		}
	}
}

// lost is an element of a that is not in b (tags are unique)
func lost(a, b []item) item {
	for _, x := range a {
		there := false
		for _, y := range b {
			there = there || x == y
		}
		if !there {
			return x
		}
	}
	return item{}
}

func (w *heapWorld) step(op Op, b *bomb) error {
	w.h.b = b
	w.next++
	switch op.K {
	case "push":
		x := item{op.B, w.next}
		if err := b.run("Push", func() { heap.Push[item](&w.h, x) }); err != nil {
			return err
		}
		if !b.fired || len(w.h.d) > len(w.ref) { // an element whose Push failed may be there or not
			w.ref = append(w.ref, x)
		}
	case "pop", "remove":
		if len(w.ref) == 0 {
			return nil
		}
		var x item
		at := op.A % len(w.h.d)
		want := w.h.d[at]
		if err := b.run(op.K, func() {
			if op.K == "pop" {
				x = heap.Pop[item](&w.h)
			} else {
				x = heap.Remove[item](&w.h, at)
			}
		}); err != nil {
			return err
		}
		if b.fired {
			// the element may be gone already when the call fails, but no other
			if len(w.h.d) == len(w.ref) {
				break
			}
			x = lost(w.ref, w.h.d)
		}
		for _, y := range w.ref {
			if op.K == "pop" && y.k < x.k {
				return fmt.Errorf("Pop gives or takes %v although there is %v", x, y)
			}
		}
		if op.K == "remove" && x != want {
			return fmt.Errorf("Remove(%d) gives or takes %v, want %v", at, x, want)
		}
		w.without(x)
	case "fix":
		if len(w.ref) == 0 {
			return nil
		}
		at := op.A % len(w.h.d)
		old := w.h.d[at]
		x := item{op.B, old.tag}
		w.h.d[at] = x
		w.without(old)
		w.ref = append(w.ref, x)
		if err := b.run("Fix", func() { heap.Fix[item](&w.h, at) }); err != nil {
			return err
		}
	case "init":
		if err := b.run("Init", func() { heap.Init[item](&w.h) }); err != nil {
			return err
		}
	}
	if !sameBag(w.h.d, w.ref) {
		return fmt.Errorf("holds %v, want %v in some order", w.h.d, w.ref)
	}
	if b.fired { // the order is lost, but Init restores it
		w.h.b = &bomb{}
		heap.Init[item](&w.h)
	}
	return nil
}

func (w *heapWorld) verify() error {
	if !sameBag(w.h.d, w.ref) {
		return fmt.Errorf("holds %v, want %v in some order", w.h.d, w.ref)
	}
	for i := 1; i < len(w.h.d); i++ {
		if w.h.d[i].k < w.h.d[(i-1)/2].k {
			return fmt.Errorf("%v is not a heap", w.h.d)
		}
	}
	return nil
}

func heapFaults() pbt.Checker {
	ks := []string{"push", "push", "push", "pop", "remove", "fix", "init"}
	return prop("heap-faults", 3000, "the Less method of the container; afterwards it holds the same elements, and Init makes it a heap again", ks, only(ks...), func(int) world { return &heapWorld{} })
}

type ringWorld struct {
	r   *ring.Ring[int]
	ref []int
}

func (w *ringWorld) step(op Op, b *bomb) error {
	switch op.K {
	case "grow":
		x := ring.New[int](1)
		x.Value = op.B
		w.r.Prev().Link(x)
		w.ref = append(w.ref, op.B)
	case "do":
		return b.run("Do", func() { w.r.Do(func(int) { b.hit() }) })
	}
	return nil
}

func (w *ringWorld) verify() error {
	p := w.r
	for i, v := range w.ref {
		if p.Value != v || p.Next().Prev() != p {
			return fmt.Errorf("element %d is %d, want %d", i, p.Value, v)
		}
		p = p.Next()
	}
	if p != w.r || w.r.Len() != len(w.ref) {
		return fmt.Errorf("Len %d, want %d", w.r.Len(), len(w.ref))
	}
	return nil
}

func ringFaults() pbt.Checker {
	return prop("ring-faults", 1000, "Do; afterwards the ring is as it was", []string{"grow", "do"}, only("do"), func(int) world { return &ringWorld{ring.New[int](1), []int{0}} })
}

type vecWorld struct {
	v    *vec.Vec[item]
	ref  []item
	next int
	b    *bomb
}

func newVec(int) world {
	w := &vecWorld{b: &bomb{}}
	w.v = vec.New(vec.WithCmpLess(w.less), vec.WithCmpEqual(w.equal))
	return w
}

func (w *vecWorld) less(a, b item) bool  { w.b.hit(); return a.k < b.k }
func (w *vecWorld) equal(a, b item) bool { w.b.hit(); return a.k == b.k }

var vecReads = []string{"range", "search", "searchf", "searchall", "searchallf", "binary", "binaryf", "contains", "containsf", "equalvec", "equalslice", "equalvecf", "compare", "sorted", "min", "max", "car"}

func (w *vecWorld) step(op Op, b *bomb) error {
	w.b = b
	defer func() { w.b = &bomb{} }()
	w.next++
	x := item{op.B, w.next}
	n := len(w.ref)
	read := func(f func()) error { return b.run(op.K, f) }
	match := func(y item) bool { b.hit(); return y.k == x.k }
	switch op.K {
	case "push":
		w.v.Push(x)
		w.ref = append(w.ref, x)
	case "insert":
		at := op.A % (n + 1)
		w.v.Insert(at, x)
		w.ref = append(append(append([]item{}, w.ref[:at]...), x), w.ref[at:]...)
	case "remove":
		if n > 0 {
			at := op.A % n
			w.v.Remove(at)
			w.ref = append(append([]item{}, w.ref[:at]...), w.ref[at+1:]...)
		}
	case "sort", "stable", "sortf", "stablef":
		if err := b.run(op.K, func() {
			switch op.K {
			case "sort":
				w.v.Sort()
			case "stable":
				w.v.SortStable()
			case "sortf":
				w.v.SortFunc(w.less, w.equal)
			case "stablef":
				w.v.SortStableFunc(w.less, w.equal)
			}
		}); err != nil {
			return err
		}
		s := w.v.CloneToSlice()
		if !sameBag(s, w.ref) {
			return fmt.Errorf("%s left %v of %v", op.K, s, w.ref)
		}
		if !b.fired && !sort.SliceIsSorted(s, func(i, j int) bool { return s[i].k < s[j].k }) {
			return fmt.Errorf("%s left %v", op.K, s)
		}
		w.ref = s
	case "range":
		return read(func() { w.v.Range(func(int, item) bool { b.hit(); return true }) })
	case "search":
		return read(func() { w.v.Search(x) })
	case "searchf":
		return read(func() { w.v.SearchFunc(match) })
	case "searchall":
		return read(func() { w.v.SearchAll(x) })
	case "searchallf":
		return read(func() { w.v.SearchAllFunc(match) })
	case "binary":
		return read(func() { w.v.BinarySearch(x) })
	case "binaryf":
		return read(func() { w.v.BinarySearchFunc(x, func(a, c item) int { b.hit(); return a.k - c.k }) })
	case "contains":
		return read(func() { w.v.Contains(x) })
	case "containsf":
		return read(func() { w.v.ContainsFunc(match) })
	case "equalvec":
		o := w.v.Clone()
		return read(func() { w.v.EqualVec(*o) })
	case "equalslice":
		return read(func() { w.v.EqualSlice(w.ref) })
	case "equalvecf":
		o := w.v.Clone()
		return read(func() { w.v.EqualVecFunc(*o, w.equal) })
	case "compare":
		o := w.v.Clone()
		return read(func() { w.v.Compare(*o) })
	case "sorted":
		return read(func() { w.v.IsSorted() })
	case "min":
		if n > 0 {
			return read(func() { w.v.Min() })
		}
	case "max":
		if n > 0 {
			return read(func() { w.v.Max() })
		}
	case "car":
		if n > 0 {
			at := op.A % n
			var ok bool
			if err := read(func() { _, ok = w.v.ConpareAndRemove(at, x) }); err != nil {
				return err
			}
			if ok {
				w.ref = append(append([]item{}, w.ref[:at]...), w.ref[at+1:]...)
			}
		}
	}
	return nil
}

func (w *vecWorld) verify() error {
	if s := w.v.CloneToSlice(); !sameItems(s, w.ref) || w.v.Len() != len(w.ref) {
		return fmt.Errorf("holds %v (Len %d), want %v", s, w.v.Len(), w.ref)
	}
	return nil
}

func vecFaults() pbt.Checker {
	sorts := []string{"sort", "stable", "sortf", "stablef"}
	ks := append(append([]string{}, sorts...), vecReads...)
	kinds := append([]string{"push", "push", "push", "push", "push", "insert", "insert", "remove"}, ks...)
	return prop("vec-faults", 5000, "the comparison functions and the functions given to searches, Range, Compare, Equal..., Min, Max and the sorts; afterwards the vector is as it was (after a sort: the same elements in some order)", kinds, only(ks...), newVec)
}
