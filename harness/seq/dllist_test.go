package seq

import (
	"fmt"
	"sort"
	"testing"

	"github.com/zijiren233/gencontainer/dllist"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type dlCase struct {
	// Any: handles are chosen among all ever obtained (live, stale, foreign);
	// otherwise among the live elements of the addressed list.
	Any bool `json:"any,omitempty"`
	Ops []Op `json:"ops"`
}

type dlCell struct{ val, h int } // h: handle number, -1 not yet known

type dlWorld struct {
	ls    []*dllist.Dllist[int]
	model [][]dlCell
	hs    []*dllist.Element[int]
	vals  []int // current value of each handle
	byPtr map[*dllist.Element[int]]int
	any   bool // handles of all kinds are in play
}

// resync takes list l as it is: its contents are another property's concern.
func (w *dlWorld) resync(l int) {
	w.model[l] = nil
	for e := w.ls[l].Front(); e != nil && len(w.model[l]) < 4*dlMax; e = e.Next() {
		h, ok := w.byPtr[e]
		if ok {
			if hl, _ := w.where(h); hl >= 0 {
				ok = false
			}
		}
		if !ok {
			h = w.reg(e, e.Value)
		}
		w.vals[h] = e.Value
		w.model[l] = append(w.model[l], dlCell{e.Value, h})
	}
}

func newDLWorld() *dlWorld {
	w := &dlWorld{byPtr: map[*dllist.Element[int]]int{}}
	w.ls = []*dllist.Dllist[int]{dllist.New[int](), {}, {}}
	w.model = make([][]dlCell, 3)
	return w
}

func (w *dlWorld) reg(e *dllist.Element[int], v int) int {
	w.hs = append(w.hs, e)
	w.vals = append(w.vals, v)
	w.byPtr[e] = len(w.hs) - 1
	return len(w.hs) - 1
}

// where returns list and position of a handle, or -1,-1.
func (w *dlWorld) where(h int) (int, int) {
	for l := range w.model {
		for i, c := range w.model[l] {
			if c.h == h {
				return l, i
			}
		}
	}
	return -1, -1
}

func ins(s []dlCell, i int, c ...dlCell) []dlCell {
	out := append([]dlCell(nil), s[:i]...)
	out = append(out, c...)
	return append(out, s[i:]...)
}

func del(s []dlCell, i int) []dlCell {
	out := append([]dlCell(nil), s[:i]...)
	return append(out, s[i+1:]...)
}

func valsOf(s []dlCell) []dlCell {
	out := make([]dlCell, len(s))
	for i, c := range s {
		out[i] = dlCell{c.val, -1}
	}
	return out
}

func (w *dlWorld) verify() error {
	for li, l := range w.ls {
		m := w.model[li]
		if l.Len() != len(m) {
			return fmt.Errorf("list %d: Len()=%d, want %d", li, l.Len(), len(m))
		}
		// forwards
		var got []*dllist.Element[int]
		for e := l.Front(); e != nil; e = e.Next() {
			got = append(got, e)
			if len(got) > len(m)+1 {
				return fmt.Errorf("list %d: forward walk longer than Len %d", li, len(m))
			}
		}
		if len(got) != len(m) {
			return fmt.Errorf("list %d: forward walk has %d elements, want %d", li, len(got), len(m))
		}
		for i, e := range got {
			if m[i].h < 0 {
				if h, known := w.byPtr[e]; known {
					if hl, hi := w.where(h); hl >= 0 && (hl != li || hi != i) {
						return fmt.Errorf("list %d[%d]: element appears in two places", li, i)
					}
					m[i].h = h
					w.vals[h] = m[i].val
				} else {
					m[i].h = w.reg(e, m[i].val)
				}
			} else if w.hs[m[i].h] != e {
				return fmt.Errorf("list %d[%d]: holds a different element than inserted (value %d, want %d)", li, i, e.Value, m[i].val)
			}
			if e.Value != m[i].val {
				return fmt.Errorf("list %d[%d]: value %d, want %d", li, i, e.Value, m[i].val)
			}
		}
		// backwards
		n := len(m)
		for e := l.Back(); e != nil; e = e.Prev() {
			n--
			if n < 0 {
				return fmt.Errorf("list %d: backward walk longer than Len", li)
			}
			if e != got[n] {
				return fmt.Errorf("list %d: backward walk differs from forward walk at %d", li, n)
			}
		}
		if n != 0 {
			return fmt.Errorf("list %d: backward walk stops early, %d missing", li, n)
		}
		if len(m) == 0 && (l.Front() != nil || l.Back() != nil) {
			return fmt.Errorf("list %d: empty list has Front or Back", li)
		}
		for i := range m {
			if e := l.Get(i); e != got[i] {
				return fmt.Errorf("list %d: Get(%d) is not element %d", li, i, i)
			}
		}
		if l.Get(-1) != nil || l.Get(len(m)) != nil {
			return fmt.Errorf("list %d: Get out of range is not nil", li)
		}
		sl := l.Slice()
		if len(sl) != len(m) {
			return fmt.Errorf("list %d: Slice has %d values, want %d", li, len(sl), len(m))
		}
		for i := range sl {
			if sl[i] != m[i].val {
				return fmt.Errorf("list %d: Slice[%d]=%d, want %d", li, i, sl[i], m[i].val)
			}
		}
		i := 0
		bad := false
		all := l.Range(func(e *dllist.Element[int]) bool {
			if i >= len(got) || e != got[i] {
				bad = true
				return false
			}
			i++
			return true
		})
		if bad || !all || i != len(m) {
			return fmt.Errorf("list %d: Range visited %d of %d elements, completed=%v", li, i, len(m), all)
		}
		if len(m) > 0 {
			stopAt := len(m) / 2
			i = 0
			all = l.Range(func(e *dllist.Element[int]) bool { i++; return i <= stopAt })
			if all || i != stopAt+1 {
				return fmt.Errorf("list %d: Range told to stop after %d visited %d (completed=%v)", li, stopAt+1, i, all)
			}
			i = stopAt
			got[stopAt].Range(func(e *dllist.Element[int]) bool {
				if i >= len(got) || e != got[i] {
					bad = true
					return false
				}
				i++
				return true
			})
			if bad || i != len(m) {
				return fmt.Errorf("list %d: element Range from %d visited up to %d of %d", li, stopAt, i, len(m))
			}
			i = 0
			got[0].Range(func(e *dllist.Element[int]) bool { i++; return i <= stopAt })
			if i != stopAt+1 {
				return fmt.Errorf("list %d: element Range told to stop after %d visited %d", li, stopAt+1, i)
			}
		}
	}
	for h, e := range w.hs {
		l, _ := w.where(h)
		if w.any && l < 0 && (e.Next() != nil || e.Prev() != nil) {
			return fmt.Errorf("handle %d is in no list but has neighbours", h)
		}
		if e.Value != w.vals[h] {
			return fmt.Errorf("handle %d: value changed from %d to %d", h, w.vals[h], e.Value)
		}
	}
	return nil
}

const dlMax = 48

func (w *dlWorld) handle(c dlCase, l, pickN int) int {
	if c.Any {
		if len(w.hs) == 0 {
			return -1
		}
		return pickN % len(w.hs)
	}
	if len(w.model[l]) == 0 {
		return -1
	}
	return w.model[l][pickN%len(w.model[l])].h
}

func (w *dlWorld) step(c dlCase, op Op, r *pbt.Rec, st *dlStats) error {
	l := op.A % 3
	lst := w.ls[l]
	m := w.model[l]
	v := op.C
	room := func(n int) bool { return len(m)+n <= dlMax }
	newElem := func(e *dllist.Element[int]) (int, error) {
		if e == nil {
			return -1, fmt.Errorf("%v returned nil", op)
		}
		if e.Value != v {
			return -1, fmt.Errorf("%v returned an element with value %d", op, e.Value)
		}
		if _, known := w.byPtr[e]; known {
			return -1, fmt.Errorf("%v returned an already existing element", op)
		}
		return w.reg(e, v), nil
	}
	switch op.K {
	case "pushFront", "pushBack":
		if !room(1) {
			return nil
		}
		var e *dllist.Element[int]
		if op.K == "pushFront" {
			e = lst.PushFront(v)
		} else {
			e = lst.PushBack(v)
		}
		h, err := newElem(e)
		if err != nil {
			return err
		}
		if op.K == "pushFront" {
			w.model[l] = ins(m, 0, dlCell{v, h})
		} else {
			w.model[l] = ins(m, len(m), dlCell{v, h})
		}
		return nil
	case "clear":
		if ret := lst.Clear(); ret != lst {
			return fmt.Errorf("Clear returned another list")
		}
		st.stale += len(m)
		w.model[l] = nil
		return nil
	case "sort":
		st.sorts++
		desc := op.B%4 == 3
		less := func(a, b int) bool { return a < b }
		if desc {
			less = func(a, b int) bool { return a > b }
		} else if op.B%4 == 2 { // ties: compare only by v/4
			less = func(a, b int) bool { return a/4 < b/4 }
		}
		lst.Sort(less)
		nm := valsOf(m)
		sort.SliceStable(nm, func(i, j int) bool { return less(nm[i].val, nm[j].val) })
		if len(m) > 1 {
			st.stale += len(m)
			st.sorted++
		}
		w.model[l] = nm
		if c.Any {
			w.resync(l)
		}
		return nil
	case "pushBackList", "pushFrontList":
		o := op.B % 3
		om := valsOf(w.model[o])
		if !room(len(om)) {
			return nil
		}
		if len(om) > 0 {
			st.splices++
			if o == l {
				st.selfs++
			}
		}
		if op.K == "pushBackList" {
			lst.PushBackList(w.ls[o])
			w.model[l] = ins(m, len(m), om...)
		} else {
			lst.PushFrontList(w.ls[o])
			w.model[l] = ins(m, 0, om...)
		}
		if c.Any {
			w.resync(l)
		}
		return nil
	}
	// operations with a handle
	h := w.handle(c, l, op.B)
	if h < 0 {
		return nil
	}
	e := w.hs[h]
	hl, hi := w.where(h)
	if hl < 0 {
		st.usedStale++
	} else if hl != l {
		st.usedForeign++
	}
	mine := hl == l
	switch op.K {
	case "setValue":
		e.Value = v
		w.vals[h] = v
		if hl >= 0 {
			w.model[hl] = append([]dlCell(nil), w.model[hl]...)
			w.model[hl][hi].val = v
		}
	case "remove":
		if got := lst.Remove(e); got != w.vals[h] {
			return fmt.Errorf("%v returned %d, want %d", op, got, w.vals[h])
		}
		if mine {
			w.model[l] = del(m, hi)
			st.stale++
		}
	case "elemRemove":
		if got := e.Remove(); got != w.vals[h] {
			return fmt.Errorf("%v returned %d, want %d", op, got, w.vals[h])
		}
		if hl >= 0 {
			w.model[hl] = del(w.model[hl], hi)
			st.stale++
		}
	case "insertBefore", "insertAfter":
		if !room(1) {
			return nil
		}
		var ne *dllist.Element[int]
		at := hi
		if op.K == "insertBefore" {
			ne = lst.InsertBefore(v, e)
		} else {
			ne = lst.InsertAfter(v, e)
			at++
		}
		if !mine {
			if ne != nil {
				return fmt.Errorf("%v with a mark that is not in the list inserted", op)
			}
			return nil
		}
		nh, err := newElem(ne)
		if err != nil {
			return err
		}
		w.model[l] = ins(m, at, dlCell{v, nh})
	case "elemInsertBefore", "elemInsertAfter":
		if hl >= 0 && len(w.model[hl]) >= dlMax {
			return nil
		}
		var ne *dllist.Element[int]
		at := hi
		if op.K == "elemInsertBefore" {
			ne = e.InsertBefore(v)
		} else {
			ne = e.InsertAfter(v)
			at++
		}
		if hl < 0 {
			if ne != nil {
				return fmt.Errorf("%v on an element that is in no list inserted", op)
			}
			return nil
		}
		nh, err := newElem(ne)
		if err != nil {
			return err
		}
		w.model[hl] = ins(w.model[hl], at, dlCell{v, nh})
	case "moveToFront", "moveToBack":
		if op.K == "moveToFront" {
			lst.MoveToFront(e)
		} else {
			lst.MoveToBack(e)
		}
		if mine {
			cell := m[hi]
			rest := del(m, hi)
			if op.K == "moveToFront" {
				w.model[l] = ins(rest, 0, cell)
			} else {
				w.model[l] = ins(rest, len(rest), cell)
			}
			st.moves++
		}
	case "moveBefore", "moveAfter", "swap":
		h2 := w.handle(c, l, op.C)
		e2 := w.hs[h2]
		l2, i2 := w.where(h2)
		both := mine && l2 == l
		switch op.K {
		case "swap":
			lst.Swap(e, e2)
			if both {
				nm := append([]dlCell(nil), m...)
				nm[hi], nm[i2] = nm[i2], nm[hi]
				w.model[l] = nm
				d := hi - i2
				r.LabelIf(d == 1 || d == -1, "adjacent swap")
			}
		default:
			if op.K == "moveBefore" {
				lst.MoveBefore(e, e2)
			} else {
				lst.MoveAfter(e, e2)
			}
			if both && h != h2 {
				cell := m[hi]
				rest := del(m, hi)
				at := i2
				if hi < i2 {
					at--
				}
				if op.K == "moveAfter" {
					at++
				}
				w.model[l] = ins(rest, at, cell)
			}
		}
		if both && h != h2 {
			st.moves++
		}
	case "pushBackListTo", "pushFrontListTo":
		o := op.C % 3
		om := valsOf(w.model[o])
		if !room(len(om)) {
			return nil
		}
		if op.K == "pushBackListTo" {
			lst.PushBackListTo(w.ls[o], e)
		} else {
			lst.PushFrontListTo(w.ls[o], e)
		}
		if mine {
			w.model[l] = ins(m, hi+1, om...)
			if c.Any {
				w.resync(l)
			}
			if len(om) > 1 {
				st.splices++
				if o == l {
					st.selfs++
				}
			}
		}
	default:
		panic("unknown op " + op.K)
	}
	return nil
}

type dlStats struct{ moves, stale, usedStale, usedForeign, sorts, sorted, splices, selfs int }

func runDL(c dlCase, r *pbt.Rec) (*dlStats, error) {
	w := newDLWorld()
	w.any = c.Any
	st := &dlStats{}
	for i, op := range c.Ops {
		if err := w.step(c, op, r, st); err != nil {
			return st, fmt.Errorf("op %d: %w", i, err)
		}
		if err := w.verify(); err != nil {
			return st, fmt.Errorf("after op %d %v: %w", i, op, err)
		}
	}
	r.LabelIf(st.usedStale > 0, "stale handle used")
	r.LabelIf(st.usedForeign > 0, "foreign handle used")
	r.LabelIf(st.moves > 0, "move/swap")
	r.LabelIf(st.sorted > 0, "sort of >1")
	r.LabelIf(st.splices > 0, "splice")
	r.LabelIf(st.selfs > 0, "self splice")
	return st, nil
}

var dlKinds = []string{"pushFront", "pushBack", "clear", "sort", "pushBackList", "pushFrontList", "setValue", "remove", "elemRemove",
	"insertBefore", "insertAfter", "elemInsertBefore", "elemInsertAfter", "moveToFront", "moveToBack", "moveBefore", "moveAfter", "swap", "pushBackListTo", "pushFrontListTo"}

func genDL(any bool, w map[string]int, spread int) func(t *rapid.T) dlCase {
	var kinds []string
	for _, k := range weighted(w, dlKinds...) {
		if w[k] >= 0 {
			kinds = append(kinds, k)
		}
	}
	return func(t *rapid.T) dlCase {
		c := dlCase{Any: any}
		// a case lives mostly on few lists
		nl := rapid.IntRange(1, spread).Draw(t, "lists")
		c.Ops = genOps(t, 1, 40, func(t *rapid.T) Op {
			return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: pick(t, "l", nl), B: rapid.IntRange(0, 40).Draw(t, "b"), C: rapid.IntRange(0, 15).Draw(t, "c")}
		})
		return c
	}
}

func dllistSequence() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[dlCase]{
		Name: "dllist-history", Quick: 60000,
		Rule: "up to 40 operations on up to 3 lists (one made by New, two zero values) through live handles, all lists walked in both directions after every step; non-trivial: at least one move/swap/removal took effect",
		Gen:  genDL(false, map[string]int{"pushBack": 4, "pushFront": 2, "swap": 4, "moveBefore": 3, "moveAfter": 3, "moveToFront": 2, "moveToBack": 2, "insertBefore": 2, "insertAfter": 2, "sort": -1, "pushBackList": -1, "pushFrontList": -1, "pushBackListTo": -1, "pushFrontListTo": -1}, 2),
		Run: func(c dlCase, r *pbt.Rec) error {
			st, err := runDL(c, r)
			r.NonTrivial = st.moves > 0 || st.stale > 0
			return err
		},
	}}
}

func dllistHandles() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[dlCase]{
		Name: "dllist-handles", Quick: 60000,
		Rule: "up to 40 operations on up to 3 lists, every handle argument drawn from all handles ever obtained (live, removed, cleared, sorted away, foreign); non-trivial: a stale or foreign handle was used",
		Gen:  genDL(true, map[string]int{"pushBack": 5, "pushFront": 2, "clear": 2, "sort": 2, "remove": 3, "elemRemove": 3}, 3),
		Run: func(c dlCase, r *pbt.Rec) error {
			st, err := runDL(c, r)
			r.NonTrivial = st.usedStale > 0 || st.usedForeign > 0
			return err
		},
	}}
}

type dlSortCase struct {
	Vals []int `json:"vals"`
	Mod  int   `json:"mod"` // values are compared by v % Mod (ties) when > 0
	Desc bool  `json:"desc,omitempty"`
}

type tagged struct{ k, tag int }

func dllistSortSplice() []pbt.Checker {
	return []pbt.Checker{
		pbt.Prop[dlCase]{
			Name: "dllist-sort-splice", Quick: 40000,
			Rule: "histories weighted to Sort and the four list splices, incl. a list spliced into itself; non-trivial: a splice of a non-empty list or a sort of more than one element",
			Gen:  genDL(false, map[string]int{"pushBack": 8, "pushFront": 2, "sort": 3, "pushBackList": 3, "pushFrontList": 3, "pushBackListTo": 4, "pushFrontListTo": 4, "clear": -1, "swap": -1, "moveBefore": -1, "moveAfter": -1}, 2),
			Run: func(c dlCase, r *pbt.Rec) error {
				st, err := runDL(c, r)
				r.NonTrivial = st.splices > 0 || st.sorted > 0
				return err
			},
		},
		pbt.Prop[dlSortCase]{
			Name: "dllist-sort", Quick: 20000,
			Rule: "lists of up to 300 tagged values, keys with many ties, ascending or descending; oracle: sort.SliceStable; non-trivial: more than two elements not already in order",
			Gen: func(t *rapid.T) dlSortCase {
				hi := rapid.SampledFrom([]int{2, 5, 50, 1000000}).Draw(t, "range")
				return dlSortCase{Vals: rapid.SliceOfN(rapid.IntRange(-hi, hi), 0, rapid.SampledFrom([]int{6, 40, 300}).Draw(t, "size")).Draw(t, "vals"),
					Mod: rapid.SampledFrom([]int{0, 0, 2, 7}).Draw(t, "mod"), Desc: rapid.Bool().Draw(t, "desc")}
			},
			Run: func(c dlSortCase, r *pbt.Rec) error {
				key := func(v int) int {
					if c.Mod > 0 {
						return ((v % c.Mod) + c.Mod) % c.Mod
					}
					return v
				}
				less := func(a, b tagged) bool {
					if c.Desc {
						a, b = b, a
					}
					return key(a.k) < key(b.k)
				}
				l := dllist.New[tagged]()
				var want []tagged
				for i, v := range c.Vals {
					l.PushBack(tagged{v, i})
					want = append(want, tagged{v, i})
				}
				r.NonTrivial = len(want) > 2 && !sort.SliceIsSorted(want, func(i, j int) bool { return less(want[i], want[j]) })
				r.LabelIf(len(want) > 100, "over 100 elements")
				sort.SliceStable(want, func(i, j int) bool { return less(want[i], want[j]) })
				l.Sort(less)
				got := l.Slice()
				if len(got) != len(want) || l.Len() != len(want) {
					return fmt.Errorf("Sort changed the number of elements from %d to %d (Len %d)", len(want), len(got), l.Len())
				}
				for i := range got {
					if got[i] != want[i] {
						return fmt.Errorf("after Sort element %d is %v, want %v", i, got[i], want[i])
					}
				}
				i := len(want)
				for e := l.Back(); e != nil && i > 0; e = e.Prev() {
					i--
					if e.Value != want[i] {
						return fmt.Errorf("after Sort, walking backwards, element %d is %v, want %v", i, e.Value, want[i])
					}
				}
				if i != 0 {
					return fmt.Errorf("after Sort the backward walk misses %d elements", i)
				}
				return nil
			},
		},
	}
}

func TestC13(t *testing.T) { pbt.Main(t, "C13", append(dllistSequence(), dllistLarge())...) }
func TestC14(t *testing.T) { pbt.Main(t, "C14", append(dllistHandles(), dllistLargeHandles())...) }
func TestC15(t *testing.T) { pbt.Main(t, "C15", append(dllistSortSplice(), dllistLargeSort())...) }
