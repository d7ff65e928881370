package seq

import (
	"fmt"
	"math"
	"testing"

	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/pqueue"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type heapCase struct {
	Kind string `json:"kind"`
	Init []int  `json:"init"`
	Ops  []Op   `json:"ops"`
}

// item heap: a user's own implementation that tracks positions, ordered by key only.
type hItem struct{ key, id, pos int }

type itemHeap struct {
	// stored back to front, so that nothing depends on the layout of a slice
	rev  []*hItem
	desc bool
}

func (h *itemHeap) at(i int) int     { return len(h.rev) - 1 - i }
func (h *itemHeap) Len() int         { return len(h.rev) }
func (h *itemHeap) get(i int) *hItem { return h.rev[h.at(i)] }
func (h *itemHeap) Less(i, j int) bool {
	return (h.get(i).key < h.get(j).key) != h.desc && h.get(i).key != h.get(j).key
}
func (h *itemHeap) Swap(i, j int) {
	a, b := h.at(i), h.at(j)
	h.rev[a], h.rev[b] = h.rev[b], h.rev[a]
	h.rev[a].pos, h.rev[b].pos = i, j
}

func (h *itemHeap) Push(x *hItem) {
	x.pos = len(h.rev)
	h.rev = append([]*hItem{x}, h.rev...)
}

func (h *itemHeap) Pop() *hItem {
	x := h.rev[0]
	h.rev = append([]*hItem(nil), h.rev[1:]...)
	x.pos = -1
	return x
}

// heapTarget adapts one heap type to the check; T is its element type.
type heapTarget[T comparable] struct {
	h    heap.Interface[T]
	get  func(i int) T
	set  func(i int, key int)
	make func(key, id int) T
	less func(a, b T) bool
	init func(vals []T)
}

func runHeap[T comparable](c heapCase, x heapTarget[T], r *pbt.Rec) error {
	bag := map[T]int{}
	n := 0
	var vals []T
	for i, k := range c.Init {
		v := x.make(k, i)
		vals = append(vals, v)
		bag[v]++
		n++
	}
	x.init(vals)
	heap.Init(x.h)
	dup, removed, fixed := false, 0, 0
	verify := func() error {
		if x.h.Len() != n {
			return fmt.Errorf("holds %d elements, want %d", x.h.Len(), n)
		}
		have := map[T]int{}
		for i := 0; i < n; i++ {
			have[x.get(i)]++
			if i > 0 && x.less(x.get(i), x.get((i-1)/2)) {
				return fmt.Errorf("heap order broken: element %d precedes its parent %d", i, (i-1)/2)
			}
		}
		for v, k := range bag {
			if have[v] != k {
				return fmt.Errorf("holds %d of %v, want %d", have[v], v, k)
			}
			dup = dup || k > 1
		}
		return nil
	}
	take := func(v T) error {
		if bag[v] == 0 {
			return fmt.Errorf("returned %v, which was not in the heap", v)
		}
		if bag[v]--; bag[v] == 0 {
			delete(bag, v)
		}
		n--
		removed++
		return nil
	}
	if err := verify(); err != nil {
		return fmt.Errorf("after Init: %w", err)
	}
	for i, op := range c.Ops {
		switch op.K {
		case "push":
			v := x.make(op.A, 1000+i)
			bag[v]++
			n++
			heap.Push(x.h, v)
		case "pop":
			if n == 0 {
				continue
			}
			v := heap.Pop(x.h)
			for o := range bag {
				if x.less(o, v) {
					return fmt.Errorf("op %d: Pop returned %v although %v precedes it", i, v, o)
				}
			}
			if err := take(v); err != nil {
				return fmt.Errorf("op %d: Pop %w", i, err)
			}
		case "remove":
			if n == 0 {
				continue
			}
			at := op.B % n
			want := x.get(at)
			v := heap.Remove(x.h, at)
			if v != want {
				return fmt.Errorf("op %d: Remove(%d) returned %v, want %v", i, at, v, want)
			}
			if err := take(v); err != nil {
				return fmt.Errorf("op %d: Remove %w", i, err)
			}
		case "fix":
			if n == 0 {
				continue
			}
			at := op.B % n
			old := x.get(at)
			if bag[old]--; bag[old] == 0 {
				delete(bag, old)
			}
			x.set(at, op.A)
			bag[x.get(at)]++
			heap.Fix(x.h, at)
			fixed++
		}
		if err := verify(); err != nil {
			return fmt.Errorf("after op %d %v: %w", i, op, err)
		}
	}
	// drain
	var last T
	for i := 0; n > 0; i++ {
		v := heap.Pop(x.h)
		if i > 0 && x.less(v, last) {
			return fmt.Errorf("draining: %v after %v", v, last)
		}
		last = v
		if err := take(v); err != nil {
			return fmt.Errorf("draining: %w", err)
		}
		if x.h.Len() != n {
			return fmt.Errorf("draining: %d left, want %d", x.h.Len(), n)
		}
	}
	r.NonTrivial = removed > 2
	r.LabelIf(dup, "duplicates")
	r.LabelIf(fixed > 0, "Fix")
	r.Label(c.Kind)
	return nil
}

var heapTypes = map[string]func(heapCase, *pbt.Rec) error{
	"min/int": func(c heapCase, r *pbt.Rec) error {
		h := &heap.MinHeap[int]{}
		return runHeap(c, heapTarget[int]{h: h, get: func(i int) int { return (*h)[i] }, set: func(i, k int) { (*h)[i] = k },
			make: func(k, _ int) int { return k }, less: func(a, b int) bool { return a < b }, init: func(v []int) { *h = v }}, r)
	},
	"max/int": func(c heapCase, r *pbt.Rec) error {
		h := &heap.MaxHeap[int]{}
		return runHeap(c, heapTarget[int]{h: h, get: func(i int) int { return (*h)[i] }, set: func(i, k int) { (*h)[i] = k },
			make: func(k, _ int) int { return k }, less: func(a, b int) bool { return a > b }, init: func(v []int) { *h = v }}, r)
	},
	"max/string": func(c heapCase, r *pbt.Rec) error {
		h := &heap.MaxHeap[string]{}
		f := func(k, _ int) string { return fmt.Sprint(k) }
		return runHeap(c, heapTarget[string]{h: h, get: func(i int) string { return (*h)[i] }, set: func(i, k int) { (*h)[i] = f(k, 0) },
			make: f, less: func(a, b string) bool { return a > b }, init: func(v []string) { *h = v }}, r)
	},
	"min/float": func(c heapCase, r *pbt.Rec) error {
		h := &heap.MinHeap[float64]{}
		f := func(k, _ int) float64 {
			switch k {
			case 7:
				return math.Inf(1)
			case -7:
				return math.Inf(-1)
			}
			return float64(k) / 3
		}
		return runHeap(c, heapTarget[float64]{h: h, get: func(i int) float64 { return (*h)[i] }, set: func(i, k int) { (*h)[i] = f(k, 0) },
			make: f, less: func(a, b float64) bool { return a < b }, init: func(v []float64) { *h = v }}, r)
	},
	"own":      func(c heapCase, r *pbt.Rec) error { return runItemHeap(c, false, r) },
	"own-desc": func(c heapCase, r *pbt.Rec) error { return runItemHeap(c, true, r) },
}

func runItemHeap(c heapCase, desc bool, r *pbt.Rec) error {
	h := &itemHeap{desc: desc}
	err := runHeap(c, heapTarget[*hItem]{h: h, get: h.get, set: func(i, k int) { h.get(i).key = k },
		make: func(k, id int) *hItem { return &hItem{key: k, id: id} },
		less: func(a, b *hItem) bool { return a.key != b.key && (a.key < b.key) != desc },
		init: func(v []*hItem) {
			for i := len(v) - 1; i >= 0; i-- {
				h.rev = append(h.rev, v[i])
				v[i].pos = i
			}
		}}, r)
	return err
}

func heapProps() []pbt.Checker {
	kinds := weighted(map[string]int{"push": 4, "pop": 3, "remove": 3, "fix": 3}, "push", "pop", "remove", "fix")
	return []pbt.Checker{pbt.Prop[heapCase]{
		Name: "heap-history", Quick: 60000,
		Rule: "Init on up to 200 elements then up to 40 Push/Pop/Remove/Fix on MinHeap, MaxHeap and two foreign heap.Interface implementations, heap order and multiset checked after every step, then drained; non-trivial: at least 3 elements removed",
		Gen: func(t *rapid.T) heapCase {
			hi := rapid.SampledFrom([]int{2, 8, math.MaxInt}).Draw(t, "range")
			key := rapid.IntRange(-hi, hi)
			return heapCase{Kind: rapid.SampledFrom([]string{"min/int", "max/int", "max/string", "min/float", "own", "own-desc"}).Draw(t, "kind"),
				Init: rapid.SliceOfN(key, 0, rapid.SampledFrom([]int{3, 15, 15, 200}).Draw(t, "size")).Draw(t, "init"),
				Ops: genOps(t, 0, 40, func(t *rapid.T) Op {
					return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: key.Draw(t, "key"), B: rapid.IntRange(0, 300).Draw(t, "at")}
				})}
		},
		Run: func(c heapCase, r *pbt.Rec) error {
			f := heapTypes[c.Kind]
			if f == nil {
				return fmt.Errorf("harness: no heap %q", c.Kind)
			}
			return f(c, r)
		},
	}}
}

type pqCase struct {
	Max bool `json:"max,omitempty"`
	Ops []Op `json:"ops"`
}

func pqueueProps() []pbt.Checker {
	pris := []int{math.MinInt, math.MinInt + 1, -1, 0, 1, math.MaxInt - 1, math.MaxInt}
	return []pbt.Checker{pbt.Prop[pqCase]{
		Name: "pqueue-history", Quick: 120000,
		Rule: "up to 80 Push/Pop on minimum and maximum queues, priorities incl. the extremes of int and duplicates, then drained; oracle: the multiset of queued (priority, value) pairs; non-trivial: two queued elements shared a priority and at least 3 pops",
		Gen: func(t *rapid.T) pqCase {
			hi := rapid.SampledFrom([]int{1, 4, 1000}).Draw(t, "range")
			kinds := rapid.SampledFrom([][]string{{"push", "pop"}, {"push", "push", "push", "pop"}}).Draw(t, "mix")
			return pqCase{Max: rapid.Bool().Draw(t, "max"), Ops: genOps(t, 1, 80, func(t *rapid.T) Op {
				op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k")}
				if pick(t, "ext", 4) == 0 {
					op.A = rapid.SampledFrom(pris).Draw(t, "pri")
				} else {
					op.A = rapid.IntRange(-hi, hi).Draw(t, "pri")
				}
				return op
			})}
		},
		Run: func(c pqCase, r *pbt.Rec) error {
			q := pqueue.NewMinPriorityQueue[string]()
			if c.Max {
				q = pqueue.NewMaxPriorityQueue[string]()
			}
			type el struct {
				p int
				v string
			}
			in := map[el]bool{}
			pops, dup := 0, false
			pop := func() error {
				best := 0
				first := true
				seen := map[int]bool{}
				for e := range in {
					if first || (e.p < best) != c.Max && e.p != best {
						best, first = e.p, false
					}
					dup = dup || seen[e.p]
					seen[e.p] = true
				}
				p, v := q.Pop()
				pops++
				if !in[el{p, v}] {
					return fmt.Errorf("Pop returned (%d,%q), which is not queued", p, v)
				}
				if p != best {
					return fmt.Errorf("Pop returned priority %d although %d is queued", p, best)
				}
				delete(in, el{p, v})
				return nil
			}
			for i, op := range c.Ops {
				if op.K == "push" {
					e := el{op.A, fmt.Sprint("v", i)}
					q.Push(e.p, e.v)
					in[e] = true
				} else if len(in) > 0 {
					if err := pop(); err != nil {
						return fmt.Errorf("op %d: %w", i, err)
					}
				}
				if q.Len() != len(in) {
					return fmt.Errorf("after op %d: Len()=%d, want %d", i, q.Len(), len(in))
				}
			}
			for len(in) > 0 {
				if err := pop(); err != nil {
					return fmt.Errorf("draining: %w", err)
				}
				if q.Len() != len(in) {
					return fmt.Errorf("draining: Len()=%d, want %d", q.Len(), len(in))
				}
			}
			r.NonTrivial = dup && pops > 2
			r.LabelIf(c.Max, "max")
			return nil
		},
	}}
}

func TestC17(t *testing.T) { pbt.Main(t, "C17", append(heapProps(), heapLarge())...) }
func TestC18(t *testing.T) { pbt.Main(t, "C18", append(pqueueProps(), pqueueLarge())...) }
