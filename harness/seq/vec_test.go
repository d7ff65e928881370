package seq

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/zijiren233/gencontainer/vec"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type vecCase struct {
	Cmp int  `json:"cmp,omitempty"` // comparison functions, see vecCmp
	Ops []Op `json:"ops"`
}

func ivec(vals ...int) vec.Vec[int] {
	v := vec.New[int]()
	v.Push(vals...)
	return *v
}

func cmpSlices(a, b []int, less, equal func(a, b int) bool) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if less(a[i], b[i]) {
			return -1
		}
		if !equal(a[i], b[i]) {
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

// vecCmp gives order and equality: 0 the automatic ones, 1 coarser but agreeing, 2 an
// equality that has nothing to do with the order, 3 a reversed order.
func vecCmp(k int) (less, equal func(a, b int) bool) {
	less = func(a, b int) bool { return a < b }
	equal = func(a, b int) bool { return a == b }
	switch k {
	case 1:
		less = func(a, b int) bool { return a/10 < b/10 }
		equal = func(a, b int) bool { return a/10 == b/10 }
	case 2:
		equal = func(a, b int) bool { return a%4 == b%4 }
	case 3:
		less = func(a, b int) bool { return a > b }
	}
	return
}

func runVec(c vecCase, r *pbt.Rec) error {
	less, equal := vecCmp(c.Cmp)
	v := vec.New[int]()
	if c.Cmp != 0 {
		v = vec.New(vec.WithCmpLess(less), vec.WithCmpEqual(equal))
	}
	longest, sorted := 0, 0
	// Where the equality contradicts the order, only what needs one of them is checked;
	// what needs both is given a tie that agrees with the order.
	agree := c.Cmp != 2
	tie := func(a, b int) bool { return !less(a, b) && !less(b, a) }
	var m []int
	changes, outOfRange := 0, 0
	verify := func() error {
		if v.Len() != len(m) {
			return fmt.Errorf("Len()=%d, want %d", v.Len(), len(m))
		}
		if v.IsEmpty() != (len(m) == 0) {
			return fmt.Errorf("IsEmpty()=%v with %d elements", v.IsEmpty(), len(m))
		}
		if v.Cap() < v.Len() {
			return fmt.Errorf("Cap()=%d below Len()=%d", v.Cap(), v.Len())
		}
		if !sameInts(v.Slice(), m) {
			return fmt.Errorf("holds %v, want %v", v.Slice(), m)
		}
		return nil
	}
	for n, op := range c.Ops {
		i, j, x := op.A, op.B, op.C
		in := func(i int) bool { return i >= 0 && i < len(m) }
		inRange := i >= 0 && j <= len(m) && i <= j
		before := append([]int(nil), m...)
		var err error
		fail := func(f string, a ...any) {
			if err == nil {
				err = fmt.Errorf(f, a...)
			}
		}
		elem := func(name string, got int, ok, wantOK bool, want int) {
			if !wantOK {
				want = 0
			}
			if ok != wantOK || got != want {
				fail("%s=(%d,%v), want (%d,%v)", name, got, ok, want, wantOK)
			}
		}
		ret := v
		switch op.K {
		case "push":
			ret = v.Push(op.V...)
			m = append(append([]int(nil), m...), op.V...)
		case "fill": // many at once: a sawtooth over what is there
			var add []int
			for k := 0; k < op.A*8; k++ {
				add = append(add, (k*(op.B+2)+op.C)%(17+op.C)*(1+op.C%5))
			}
			ret = v.Push(add...)
			m = append(append([]int(nil), m...), add...)
		case "setCmp":
			k := op.C % 4
			less, equal = vecCmp(k)
			agree = k != 2
			if op.B%2 == 0 {
				if v.SetCmpLess(less) != v || v.SetCmpEqual(equal) != v {
					fail("SetCmpLess or SetCmpEqual returned another vector")
				}
			} else {
				v.SetCmpEqual(equal).SetCmpLess(less)
			}
		case "sort", "sortStable":
			sorted++
			nm := append([]int(nil), m...)
			sort.SliceStable(nm, func(a, b int) bool { return less(nm[a], nm[b]) })
			if op.K == "sort" {
				if agree {
					ret = v.Sort()
				} else {
					ret = v.SortFunc(less, tie)
				}
				got := v.Slice()
				if len(got) != len(nm) {
					fail("%d elements after sorting %d", len(got), len(nm))
					break
				}
				for k := 1; k < len(got); k++ {
					if less(got[k], got[k-1]) {
						fail("sorted to %v", got)
					}
				}
				a, b := append([]int(nil), got...), append([]int(nil), nm...)
				sort.Ints(a)
				sort.Ints(b)
				if !sameInts(a, b) {
					fail("sorted to %v, which is not a permutation", got)
				}
				nm = append([]int(nil), got...)
			} else if agree {
				ret = v.SortStable()
			} else {
				ret = v.SortStableFunc(less, tie)
			}
			m = nm
		case "isSorted":
			want := true
			for k := 1; k < len(m); k++ {
				if less(m[k], m[k-1]) {
					want = false
				}
			}
			got := v.IsSortedFunc(less, tie)
			if agree {
				got = v.IsSorted()
			}
			if got != want {
				fail("IsSorted()=%v", got)
			}
		case "pop":
			want := 0
			if len(m) > 0 {
				want = m[len(m)-1]
			}
			got, ok := v.Pop()
			elem("Pop", got, ok, len(m) > 0, want)
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		case "remove":
			want := 0
			if in(i) {
				want = m[i]
			} else {
				outOfRange++
			}
			got, ok := v.Remove(i)
			elem("Remove", got, ok, in(i), want)
			if in(i) {
				m = append(append([]int(nil), m[:i]...), m[i+1:]...)
			}
		case "cmpRemove":
			hit := in(i) && equal(m[i], x)
			want := 0
			if hit {
				want = m[i]
			}
			got, ok := v.ConpareAndRemove(i, x)
			elem("ConpareAndRemove", got, ok, hit, want)
			if hit {
				m = append(append([]int(nil), m[:i]...), m[i+1:]...)
			}
		case "get":
			want := 0
			if in(i) {
				want = m[i]
			} else {
				outOfRange++
			}
			got, ok := v.Get(i)
			elem("Get", got, ok, in(i), want)
		case "set":
			if !in(i) {
				outOfRange++
			}
			if ok := v.Set(i, x); ok != in(i) {
				fail("Set(%d)=%v, want %v", i, ok, in(i))
			}
			if in(i) {
				m = append([]int(nil), m...)
				m[i] = x
			}
		case "clear":
			ret = v.Clear()
			m = nil
		case "ends":
			f, okf := v.First()
			l, okl := v.Last()
			if len(m) == 0 {
				elem("First", f, okf, false, 0)
				elem("Last", l, okl, false, 0)
			} else {
				elem("First", f, okf, true, m[0])
				elem("Last", l, okl, true, m[len(m)-1])
			}
		case "search":
			first := -1
			var all []int
			for k, y := range m {
				if equal(x, y) {
					if first < 0 {
						first = k
					}
					all = append(all, k)
				}
			}
			if got := v.Search(x); got != first {
				fail("Search(%d)=%d, want %d", x, got, first)
			}
			if got := v.SearchAll(x); !sameInts(got, all) {
				fail("SearchAll(%d)=%v, want %v", x, got, all)
			}
			if got := v.SearchFunc(func(y int) bool { return equal(x, y) }); got != first {
				fail("SearchFunc(%d)=%d, want %d", x, got, first)
			}
			if got := v.SearchAllFunc(func(y int) bool { return equal(x, y) }); !sameInts(got, all) {
				fail("SearchAllFunc(%d)=%v, want %v", x, got, all)
			}
			if got := v.Contains(x); got != (first >= 0) {
				fail("Contains(%d)=%v", x, got)
			}
			if got := v.ContainsFunc(func(y int) bool { return equal(x, y) }); got != (first >= 0) {
				fail("ContainsFunc(%d)=%v", x, got)
			}
		case "range":
			k, stop := 0, (op.B+1)%6+1
			v.Range(func(idx, val int) bool {
				if idx != k || idx >= len(m) || val != m[idx] {
					fail("Range gave (%d,%d) at step %d", idx, val, k)
				}
				k++
				return k < stop
			})
			if k != min(stop, len(m)) {
				fail("Range told to stop at %d visited %d of %d", stop, k, len(m))
			}
		case "sliceCut":
			got := v.SliceCut(i, j)
			if inRange {
				if !sameInts(got, m[i:j]) {
					fail("SliceCut(%d,%d)=%v, want %v", i, j, got, m[i:j])
				}
			} else {
				outOfRange++
				if got != nil {
					fail("SliceCut(%d,%d) out of range is not nil", i, j)
				}
			}
		case "cut":
			got := v.Cut(i, j)
			if inRange {
				if !sameInts(got, before[i:j]) {
					fail("Cut(%d,%d)=%v, want %v", i, j, got, before[i:j])
				}
				m = append(append([]int(nil), m[:i]...), m[j:]...)
			} else {
				outOfRange++
				if got != nil {
					fail("Cut(%d,%d) out of range is not nil", i, j)
				}
			}
		case "delete":
			if !inRange {
				continue
			}
			v.Delete(i, j)
			m = append(append([]int(nil), m[:i]...), m[j:]...)
		case "splitOff":
			got := v.SplitOff(i)
			if i >= 0 && i <= len(m) {
				if !sameInts(got.Slice(), before[i:]) {
					fail("SplitOff(%d)=%v, want %v", i, got.Slice(), before[i:])
				}
				m = append([]int(nil), m[:i]...)
			} else {
				outOfRange++
				if got.Len() != 0 {
					fail("SplitOff(%d) out of range is not empty", i)
				}
			}
		case "swap":
			v.Swap(i, j)
			if in(i) && in(j) {
				m = append([]int(nil), m...)
				m[i], m[j] = m[j], m[i]
			} else {
				outOfRange++
			}
		case "cmp":
			if in(i) && in(j) {
				if v.Less(i, j) != less(m[i], m[j]) || v.Equal(i, j) != equal(m[i], m[j]) {
					fail("Less/Equal(%d,%d) of %v", i, j, m)
				}
			}
			if v.CmpLess(i, j) != less(i, j) || v.CmpEqual(i, j) != equal(i, j) {
				fail("CmpLess/CmpEqual(%d,%d)", i, j)
			}
		case "grow":
			k := op.B & 31
			ret = v.Grow(k)
			if v.Cap()-v.Len() < k {
				fail("Grow(%d) left room for %d", k, v.Cap()-v.Len())
			}
		case "clip":
			ret = v.Clip()
			if v.Cap() != v.Len() {
				fail("Clip left Cap()=%d with Len()=%d", v.Cap(), v.Len())
			}
		case "compact", "compactFunc":
			if op.K == "compact" {
				ret = v.Compact()
			} else {
				v.CompactFunc(equal)
			}
			var nm []int
			for k, y := range m {
				if k == 0 || !equal(nm[len(nm)-1], y) {
					nm = append(nm, y)
				}
			}
			m = nm
		case "compare":
			o := ivec(op.V...)
			want := cmpSlices(m, op.V, less, tie)
			if got := v.Compare(o); agree && got != want {
				fail("Compare(%v)=%d, want %d for %v", op.V, got, want, m)
			}
			if got := v.CompareFunc(o, less, tie); got != want {
				fail("CompareFunc(%v)=%d, want %d for %v", op.V, got, want, m)
			}
			fallthrough
		case "equals":
			other := op.V
			if op.B%2 == 0 {
				other = append([]int(nil), m...)
				if op.B%4 == 0 && len(other) > 0 {
					other[len(other)-1] += op.C % 3
				}
			}
			eq := len(other) == len(m)
			for k := 0; eq && k < len(m); k++ {
				eq = equal(m[k], other[k])
			}
			if got := v.EqualSlice(other); got != eq {
				fail("EqualSlice(%v)=%v for %v", other, got, m)
			}
			if got := v.EqualVec(ivec(other...)); got != eq {
				fail("EqualVec(%v)=%v for %v", other, got, m)
			}
			if got := v.EqualSliceFunc(other, equal); got != eq {
				fail("EqualSliceFunc(%v)=%v for %v", other, got, m)
			}
			if got := v.EqualVecFunc(ivec(other...), equal); got != eq {
				fail("EqualVecFunc(%v)=%v for %v", other, got, m)
			}
			// not symmetric: the vector's own element comes first
			below := func(a, b int) bool { return a <= b }
			le := len(other) == len(m)
			for k := 0; le && k < len(m); k++ {
				le = m[k] <= other[k]
			}
			if v.EqualSliceFunc(other, below) != le || v.EqualVecFunc(ivec(other...), below) != le {
				fail("EqualSliceFunc or EqualVecFunc(%v) with <= for %v, want %v", other, m, le)
			}
			if got, want := v.Compare(ivec(other...)), cmpSlices(m, other, less, tie); agree && got != want {
				fail("Compare(%v)=%d, want %d for %v", other, got, want, m)
			}
		case "insert":
			if i < 0 || i > len(m) {
				outOfRange++
				if len(op.V) > 0 && !panics(func() { v.Insert(i, op.V...) }) {
					fail("Insert(%d) out of range did not panic", i)
				}
				break
			}
			ret = v.Insert(i, op.V...)
			m = append(append(append([]int(nil), m[:i]...), op.V...), m[i:]...)
		case "replace":
			if !inRange {
				continue
			}
			v.Replace(i, j, op.V...)
			m = append(append(append([]int(nil), m[:i]...), op.V...), m[j:]...)
		case "reverse":
			ret = v.Reverse()
			nm := make([]int, len(m))
			for k, y := range m {
				nm[len(m)-1-k] = y
			}
			m = nm
		case "clone":
			if got := v.CloneToSlice(); !sameInts(got, m) {
				fail("CloneToSlice()=%v, want %v", got, m)
			}
			if got := v.Clone().Slice(); !sameInts(got, m) {
				fail("Clone() holds %v, want %v", got, m)
			}
		case "minmax":
			if len(m) == 0 {
				continue
			}
			lo, hi := v.MinFunc(less, tie), v.MaxFunc(less, tie)
			if agree {
				lo, hi = v.Min(), v.Max()
			}
			okLo, okHi := false, false
			for _, y := range m {
				okLo = okLo || y == lo
				okHi = okHi || y == hi
				if less(y, lo) || less(hi, y) {
					fail("Min=%d Max=%d of %v", lo, hi, m)
				}
			}
			if !okLo || !okHi {
				fail("Min=%d Max=%d of %v", lo, hi, m)
			}
		default:
			panic("unknown op " + op.K)
		}
		if ret != v {
			fail("returned another vector")
		}
		if err == nil {
			err = verify()
		}
		if err != nil {
			return fmt.Errorf("op %d %v on %v: %w", n, op, before, err)
		}
		if !sameInts(before, m) {
			changes++
		}
		longest = max(longest, len(m))
	}
	r.NonTrivial = changes > 2
	r.LabelIf(outOfRange > 0, "out-of-range argument")
	r.LabelIf(c.Cmp != 0, "own comparison")
	r.LabelIf(longest > 32, "more than 32 elements")
	r.LabelIf(sorted > 0, "sorted in between")
	return nil
}

var vecKinds = []string{"push", "pop", "remove", "cmpRemove", "get", "set", "clear", "ends", "search", "range", "sliceCut", "cut", "delete", "splitOff",
	"swap", "cmp", "grow", "clip", "compact", "compactFunc", "compare", "equals", "insert", "replace", "reverse", "clone", "minmax", "fill", "setCmp", "sort", "sortStable", "isSorted"}

func vecHistory() []pbt.Checker {
	kinds := weighted(map[string]int{"push": 10, "insert": 4, "cut": 3, "replace": 3, "delete": 2, "remove": 2, "splitOff": 2, "fill": 3, "sort": 2, "search": 3}, vecKinds...)
	return []pbt.Checker{pbt.Prop[vecCase]{
		Name: "vec-history", Quick: 300000,
		Rule: "up to 40 operations with arguments in and out of range on vectors of up to some hundred elements, under four choices of order and equality, which may change on the way; oracle: a plain slice compared after every step, return values compared with linear scans; non-trivial: at least 3 operations changed the contents",
		Gen: func(t *rapid.T) vecCase {
			hi := rapid.SampledFrom([]int{3, 12, 40}).Draw(t, "range")
			far := rapid.SampledFrom([]int{14, 14, 90}).Draw(t, "far")
			return vecCase{Cmp: max(0, rapid.IntRange(-2, 3).Draw(t, "cmp")), Ops: genOps(t, 1, 40, func(t *rapid.T) Op {
				op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: rapid.IntRange(-1, far).Draw(t, "i"), B: rapid.IntRange(-1, far+4).Draw(t, "j"), C: rapid.IntRange(0, hi).Draw(t, "x")}
				if op.K == "fill" {
					if far < 20 {
						op.K = "push"
					}
					op.A = 1 + (op.A+1)%9
				}
				switch op.K {
				case "push", "insert", "replace", "compare", "equals":
					op.V = rapid.SliceOfN(rapid.IntRange(0, hi), 0, 6).Draw(t, "v")
				}
				return op
			})}
		},
		Run: runVec,
	}}
}

// ---- sorting and ordered search for all element types

type sortCase struct {
	Kind   string `json:"kind"`
	Vals   []int  `json:"vals"` // indices into the pool of the type
	Stable bool   `json:"stable,omitempty"`
	Shape  int    `json:"shape,omitempty"`  // 0 as drawn, 1 repeated, 2 presorted, 3 presorted backwards, 4 presorted and one moved
	Own    int    `json:"own,omitempty"`    // 1: through the ...Func methods
	Search bool   `json:"search,omitempty"` // only searching and comparing, no sorting
}

// natKey splits a string into numbers and single other bytes.
func natLess(a, b string) bool {
	tok := func(s string) (string, string) {
		n := 0
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		if n == 0 {
			n = 1
		}
		return s[:n], s[n:]
	}
	digit := func(s string) bool { return s[0] >= '0' && s[0] <= '9' }
	for a != "" && b != "" {
		var x, y string
		x, a = tok(a)
		y, b = tok(b)
		if x == y {
			continue
		}
		if digit(x) && digit(y) {
			if len(x) != len(y) {
				return len(x) < len(y)
			}
		}
		return x < y
	}
	return a == "" && b != ""
}

type sortType struct {
	pool int
	run  func(c sortCase, r *pbt.Rec) error
}

// mkSort checks Sort, SortStable, IsSorted, BinarySearch, Min, Max and Compact for
// one element type. less is the expected order, eq the expected equality (nil for own
// order: not less either way). same is identity of elements, for permutation checks.
func mkSort[T any](pool []T, less func(a, b T) bool, eq, same func(a, b T) bool, conf ...vec.VecConf[T]) sortType {
	return sortType{len(pool), func(c sortCase, r *pbt.Rec) error {
		idx, stable := append([]int(nil), c.Vals...), c.Stable
		if c.Shape > 0 {
			for k := 0; len(idx) > 0 && len(idx) < 8*len(c.Vals); k++ {
				idx = append(idx, c.Vals[k%len(c.Vals)]*(k/7+1))
			}
		}
		at := func(i int) T { return pool[idx[i]%len(pool)] }
		switch c.Shape {
		case 2, 4:
			sort.SliceStable(idx, func(i, j int) bool { return less(at(i), at(j)) })
		case 3:
			sort.SliceStable(idx, func(i, j int) bool { return less(at(j), at(i)) })
		}
		if n := len(idx); c.Shape == 4 && n > 0 {
			a, b := c.Vals[0]%n, c.Vals[len(c.Vals)-1]*5%n
			idx[a], idx[b] = idx[b], idx[a]
		}
		type tag struct {
			v   T
			pos int
		}
		var want []tag
		v := vec.New(conf...)
		for i, k := range idx {
			want = append(want, tag{pool[k%len(pool)], i})
			v.Push(pool[k%len(pool)])
		}
		sorted := sort.SliceIsSorted(want, func(i, j int) bool { return less(want[i].v, want[j].v) })
		if got := v.IsSorted(); got != sorted {
			return fmt.Errorf("IsSorted()=%v before sorting, want %v", got, sorted)
		}
		if len(idx) > 0 {
			lo, hi := v.Min(), v.Max()
			okLo, okHi := false, false
			for _, w := range want {
				if less(w.v, lo) {
					return fmt.Errorf("Min()=%v although %v is smaller", lo, w.v)
				}
				if less(hi, w.v) {
					return fmt.Errorf("Max()=%v although %v is larger", hi, w.v)
				}
				okLo, okHi = okLo || same(lo, w.v), okHi || same(hi, w.v)
			}
			if !okLo || !okHi {
				return fmt.Errorf("Min or Max is not an element")
			}
		}
		orig := v.CloneToSlice()
		for _, x := range pool {
			first := -1
			var all []int
			for i, w := range want {
				if eq(x, w.v) {
					if first < 0 {
						first = i
					}
					all = append(all, i)
				}
			}
			if got := v.Search(x); got != first {
				return fmt.Errorf("Search(%v)=%d in %v, want %d", show([]T{x}), got, show(orig), first)
			}
			if got := v.SearchAll(x); !sameInts(got, all) {
				return fmt.Errorf("SearchAll(%v)=%v in %v, want %v", show([]T{x}), got, show(orig), all)
			}
			if got := v.Contains(x); got != (first >= 0) {
				return fmt.Errorf("Contains(%v)=%v in %v", show([]T{x}), got, show(orig))
			}
		}
		selfEq := true
		for _, w := range want {
			selfEq = selfEq && eq(w.v, w.v)
		}
		if got := v.EqualSlice(orig); got != selfEq {
			return fmt.Errorf("EqualSlice of its own elements=%v for %v", got, show(orig))
		}
		if got := v.EqualVec(*v.Clone()); got != selfEq {
			return fmt.Errorf("EqualVec of a clone=%v for %v", got, show(orig))
		}
		if got := v.Compare(*v.Clone()); selfEq && got != 0 {
			return fmt.Errorf("Compare with a clone=%v for %v", got, show(orig))
		}
		if c.Search {
			for i := 0; i < len(want); i += 1 + len(want)/9 {
				for j, x := range pool {
					w := v.Clone()
					e, ok := w.ConpareAndRemove(i, x)
					if hit := eq(want[i].v, x); ok != hit || hit && (!same(e, want[i].v) || w.Len() != len(want)-1) || !hit && w.Len() != len(want) {
						return fmt.Errorf("ConpareAndRemove(%d,%v)=(%v,%v) in %v", i, show([]T{x}), show([]T{e}), ok, show(orig))
					}
					if k := j % len(want); v.Equal(i, k) != eq(want[i].v, want[k].v) || v.Less(i, k) != less(want[i].v, want[k].v) || v.CmpEqual(x, want[i].v) != eq(x, want[i].v) {
						return fmt.Errorf("Equal or Less of elements %d and %d of %v", i, k, show(orig))
					}
				}
			}
			for _, x := range pool {
				other := append([]T(nil), orig...)
				if len(other) == 0 {
					break
				}
				k := len(c.Vals) % len(other)
				other[k] = x
				same := selfEqBut(want, k, func(i int) bool { return eq(want[i].v, want[i].v) }) && eq(want[k].v, x)
				w := vec.New(conf...).Push(other...)
				if v.EqualSlice(other) != same || v.EqualVec(*w) != same {
					return fmt.Errorf("EqualSlice or EqualVec of %v and %v, want %v", show(orig), show(other), same)
				}
				if got := v.Compare(*w); selfEq && (got == 0) != same || selfEq && eq(x, x) && (got < 0) != less(want[k].v, x) {
					return fmt.Errorf("Compare of %v and %v = %d", show(orig), show(other), got)
				}
			}
			r.NonTrivial = len(idx) > 2
			return nil
		}
		ret := v
		switch {
		case stable && c.Own > 0:
			ret = v.SortStableFunc(less, eq)
		case stable:
			ret = v.SortStable()
		case c.Own > 0:
			ret = v.SortFunc(less, eq)
		default:
			ret = v.Sort()
		}
		if ret != v {
			return fmt.Errorf("Sort returned another vec")
		}
		sort.SliceStable(want, func(i, j int) bool { return less(want[i].v, want[j].v) })
		got := v.Slice()
		if len(got) != len(want) {
			return fmt.Errorf("%d elements after sorting %d", len(got), len(want))
		}
		// permutation
		used := make([]bool, len(got))
		for _, g := range got {
			hit := false
			for i := range orig {
				if !used[i] && same(orig[i], g) {
					used[i], hit = true, true
					break
				}
			}
			if !hit {
				return fmt.Errorf("sorting %v gave %v: not a permutation", orig, got)
			}
		}
		for i := range got {
			if i > 0 && less(got[i], got[i-1]) {
				return fmt.Errorf("sorting %v gave %v: %v before %v", show(orig), show(got), show(got[i-1:i]), show(got[i:i+1]))
			}
			if stable && !same(got[i], want[i].v) {
				return fmt.Errorf("SortStable of %v gave %v: equal elements reordered at %d", show(orig), show(got), i)
			}
		}
		if !v.IsSorted() {
			return fmt.Errorf("IsSorted()=false after sorting")
		}
		for _, x := range pool {
			pos := sort.Search(len(got), func(i int) bool { return !less(got[i], x) })
			found := pos < len(got) && eq(got[pos], x)
			gi, gf := v.BinarySearch(x)
			if c.Own > 0 {
				gi, gf = v.BinarySearchFunc(x, func(val, target T) int {
					switch {
					case less(val, target):
						return -1
					case eq(val, target):
						return 0
					}
					return 1
				})
			}
			if !eq(x, x) { // NaN: where it would go, not whether it is there
				gf, found = false, false
			}
			if gi != pos || gf != found {
				return fmt.Errorf("BinarySearch(%v)=(%d,%v) in %v, want (%d,%v)", show([]T{x}), gi, gf, show(got), pos, found)
			}
		}
		var comp []T
		for i, g := range got {
			if i == 0 || !eq(comp[len(comp)-1], g) {
				comp = append(comp, g)
			}
		}
		v.Compact()
		if v.Len() != len(comp) {
			return fmt.Errorf("Compact of a sorted vec left %d elements, want %d", v.Len(), len(comp))
		}
		for i, g := range v.Slice() {
			if !same(g, comp[i]) {
				return fmt.Errorf("Compact of a sorted vec: element %d is %v, want %v", i, g, comp[i])
			}
		}
		r.NonTrivial = len(idx) > 2 && !sorted
		return nil
	}}
}

func selfEqBut[T any](s []T, k int, eq func(i int) bool) bool {
	for i := range s {
		if i != k && !eq(i) {
			return false
		}
	}
	return true
}

func show[T any](s []T) string { return fmt.Sprintf("%v", s) }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func lessOf[T integer | ~float32 | ~float64](a, b T) bool { return a < b || (a != a && b == b) }
func eqOf[T comparable](a, b T) bool                      { return a == b }

func intSort[T integer](extra ...T) sortType {
	pool := append([]T{0, 1, 2, 3, 5, 9, 10, 11, 100}, extra...)
	return mkSort(pool, lessOf[T], eqOf[T], eqOf[T])
}

func ptrSort[T comparable](less func(a, b T) bool, vals ...T) sortType {
	var pool []*T
	for i := range vals {
		a, b := vals[i], vals[i]
		pool = append(pool, &a, &b) // equal values behind different pointers
	}
	return mkSort(pool, func(a, b *T) bool { return less(*a, *b) }, func(a, b *T) bool { return *a == *b }, func(a, b *T) bool { return a == b })
}

func sameF64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

type (
	myInt    int
	myString string
	myFloat  float64
	rec      struct{ k, id int }
)

var natPool = []string{"", "a", "b", "ab", "a1", "a2", "a10", "a9", "a10b2", "a10b10", "2", "10", "9", "10 ", "a-1", "Z", "~", "x18446744073709551615", "x18446744073709551614",
	"x9007199254740993", "x9007199254740992", "v1.2.3", "v1.10.0", "v1.2.10", "0", "a0", "a0b", "é1", "1a", "1", "7z", "a.b", "A1"}

var sortTypes = map[string]sortType{
	"int":    intSort[int](-1, -10, math.MinInt, math.MaxInt),
	"int8":   intSort[int8](-128, 127, -1),
	"int16":  intSort[int16](-32768, 32767),
	"int32":  intSort[int32](math.MinInt32, math.MaxInt32),
	"int64":  intSort[int64](math.MinInt64, math.MaxInt64, -1),
	"uint":   intSort[uint](math.MaxUint),
	"uint8":  intSort[uint8](255, 128),
	"uint16": intSort[uint16](65535),
	"uint32": intSort[uint32](math.MaxUint32, 1<<31),
	"uint64": intSort[uint64](math.MaxUint64, 1<<63, 1<<53, 1<<53+1),
	"myInt":  intSort[myInt](-4),
	"float64": mkSort([]float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat64},
		lessOf[float64], eqOf[float64], sameF64),
	"float32": mkSort([]float32{0, 1, -1, 0.5, 3e38, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())},
		lessOf[float32], eqOf[float32], func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }),
	"myFloat": mkSort([]myFloat{0, 1, -2, 0.25, myFloat(math.NaN())}, lessOf[myFloat], eqOf[myFloat], func(a, b myFloat) bool { return sameF64(float64(a), float64(b)) }),
	"string":  mkSort(natPool, natLess, eqOf[string], eqOf[string]),
	"myString": mkSort([]myString{"", "a", "b", "a2", "a10", "10", "9"}, func(a, b myString) bool { return natLess(string(a), string(b)) },
		eqOf[myString], eqOf[myString]),
	"*int":     ptrSort(lessOf[int], 0, 1, -5, 7, 100),
	"*uint16":  ptrSort(lessOf[uint16], 0, 1, 65535, 7, 100),
	"*float64": ptrSort(lessOf[float64], 0, 1.5, -2, math.Inf(1)),
	"*string":  ptrSort(natLess, "", "a2", "a10", "b", "10", "9"),
	"struct": mkSort([]rec{{0, 0}, {0, 1}, {0, 2}, {1, 3}, {1, 4}, {2, 5}, {3, 6}, {3, 7}, {-1, 8}}, func(a, b rec) bool { return a.k < b.k }, func(a, b rec) bool { return a.k == b.k }, eqOf[rec],
		vec.WithCmpLess(func(a, b rec) bool { return a.k < b.k }), vec.WithCmpEqual(func(a, b rec) bool { return a.k == b.k })),
	"desc": mkSort([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, func(a, b int) bool { return a > b }, eqOf[int], eqOf[int],
		vec.WithCmpLess(func(a, b int) bool { return a > b })),
	"folded": mkSort([]string{"a", "A", "b", "B", "ab", "AB", "Ab"}, func(a, b string) bool { return strings.ToLower(a) < strings.ToLower(b) },
		strings.EqualFold, eqOf[string], vec.WithCmpLess(func(a, b string) bool { return strings.ToLower(a) < strings.ToLower(b) }), vec.WithCmpEqual(strings.EqualFold)),
}

var sortNames = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "myInt", "float64", "float32", "myFloat", "string", "myString",
	"*int", "*uint16", "*float64", "*string", "struct", "desc", "folded"}

func vecSort() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[sortCase]{
		Name: "vec-sort", Quick: 60000,
		Rule: "vectors of up to 480 elements (as drawn, repeated, presorted, backwards, almost sorted) of 23 element types/orders (all integer kinds, floats with NaN/Inf/-0, natural strings, named types, pointers, records with ties, reversed and folded orders); oracle: insertion by an independent comparison; non-trivial: more than 2 elements not already sorted",
		Gen: func(t *rapid.T) sortCase {
			k := rapid.SampledFrom(append([]string{"string", "float64", "struct", "string", "float64"}, sortNames...)).Draw(t, "kind")
			n := rapid.SampledFrom([]int{4, 10, 20, 60}).Draw(t, "size")
			return sortCase{Kind: k, Vals: rapid.SliceOfN(rapid.IntRange(0, sortTypes[k].pool-1), 0, n).Draw(t, "vals"), Stable: rapid.Bool().Draw(t, "stable"),
				Shape: max(0, rapid.IntRange(-4, 4).Draw(t, "shape")), Own: max(0, rapid.IntRange(-3, 1).Draw(t, "own"))}
		},
		Run: func(c sortCase, r *pbt.Rec) error {
			ty, ok := sortTypes[c.Kind]
			if !ok {
				return fmt.Errorf("harness: no type %q", c.Kind)
			}
			r.Label(c.Kind)
			r.LabelIf(len(c.Vals)*8 > 50 && c.Shape > 0, "more than 50 elements")
			return ty.run(c, r)
		},
	}, natStrings(), verbatimStrings()}
}

type natCase struct {
	Strs [][]int `json:"strs"` // pieces
}

var natPieces = []string{"a", "b", "Z", "-", ".", "~", "/", ":", " ", "é", "aa"}

// natString: pieces alternate so that no two numbers touch and none has leading zeros.
func natString(p []int) string {
	var sb strings.Builder
	digit := false
	for _, x := range p {
		if x < 0 && !digit {
			fmt.Fprint(&sb, -x-1)
			digit = true
		} else {
			if x < 0 {
				x = -x
			}
			sb.WriteString(natPieces[x%len(natPieces)])
			digit = false
		}
	}
	return sb.String()
}

func natStrings() pbt.Checker {
	return pbt.Prop[natCase]{
		Name: "vec-natural-strings", Quick: 20000,
		Rule: "vectors of up to 12 generated strings of letters, separators and numbers without leading zeros; sorted and searched against an independent natural order; non-trivial: two different strings contain numbers",
		Gen: func(t *rapid.T) natCase {
			piece := rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(-12, -1), rapid.IntRange(-1_000_000_001, -1))
			return natCase{rapid.SliceOfN(rapid.SliceOfN(piece, 0, 4), 0, 12).Draw(t, "strs")}
		},
		Run: func(c natCase, r *pbt.Rec) error {
			var pool []string
			nums := map[string]bool{}
			for _, p := range c.Strs {
				s := natString(p)
				pool = append(pool, s)
				if strings.ContainsAny(s, "0123456789") {
					nums[s] = true
				}
			}
			if len(pool) == 0 {
				return nil
			}
			idx := make([]int, len(pool))
			for i := range idx {
				idx[i] = i
			}
			var rr pbt.Rec
			err := mkSort(pool, natLess, eqOf[string], eqOf[string]).run(sortCase{Vals: idx, Stable: true}, &rr)
			r.NonTrivial = len(nums) > 1
			return err
		},
	}
}

type verbatimCase struct {
	Strs []string `json:"strs"`
}

// verbatimStrings: every string of a sorted vector is found again. Numbers with leading
// zeros or of more than 19 digits are not generated: natural.Less, on which the default
// order of strings rests, is not an order on them (KNOWN_FINDINGS.txt).
func verbatimStrings() pbt.Checker {
	return pbt.Prop[verbatimCase]{
		Name: "vec-verbatim-strings", Quick: 20000,
		Rule: "vectors of up to 10 arbitrary strings (any Unicode) without leading zeros; after sorting every one is found at its position; non-trivial: at least 3 different strings",
		Gen: func(t *rapid.T) verbatimCase {
			one := rapid.StringMatching(`([^0-9]{0,6})|([a-c]{0,2}([1-9][0-9]{0,3}[a-c]{1,2}){0,2}[1-9]?)`)
			return verbatimCase{rapid.SliceOfN(one, 0, 10).Draw(t, "strs")}
		},
		Run: func(c verbatimCase, r *pbt.Rec) error {
			v := vec.New[string]().Push(c.Strs...)
			v.Sort()
			diff := map[string]bool{}
			for _, s := range c.Strs {
				diff[s] = true
				i, ok := v.BinarySearch(s)
				if got, in := v.Get(i); !ok || !in || got != s {
					return fmt.Errorf("BinarySearch(%q)=(%d,%v) in the sorted vector %q", s, i, ok, v.Slice())
				}
			}
			if v.Len() != len(c.Strs) {
				return fmt.Errorf("%d elements after sorting %d", v.Len(), len(c.Strs))
			}
			r.NonTrivial = len(diff) > 2
			return nil
		},
	}
}

// ---- independence

type indepCase struct {
	Ops []Op `json:"ops"`
}

// cmpSpec describes a comparison configuration: 0 automatic, else a supplied one.
type vreg struct {
	v           *vec.Vec[int]
	m           []int
	less, equal int
}

func lessSpec(k int) func(a, b int) bool {
	switch k {
	case 1:
		return func(a, b int) bool { return a > b }
	case 2:
		return func(a, b int) bool { return a%5 < b%5 }
	}
	return func(a, b int) bool { return a < b }
}

func equalSpec(k int) func(a, b int) bool {
	switch k {
	case 1:
		return func(a, b int) bool { return a/4 == b/4 }
	case 2:
		return func(a, b int) bool { return a%5 == b%5 }
	}
	return func(a, b int) bool { return a == b }
}

func (x *vreg) check() error {
	if !sameInts(x.v.Slice(), x.m) || x.v.Len() != len(x.m) {
		return fmt.Errorf("holds %v, want %v", x.v.Slice(), x.m)
	}
	for a := 0; a < 12; a += 3 {
		for b := 0; b < 12; b += 2 {
			if got := x.v.CmpLess(a, b); got != lessSpec(x.less)(a, b) {
				return fmt.Errorf("its order changed: CmpLess(%d,%d)=%v", a, b, got)
			}
			if got := x.v.CmpEqual(a, b); got != equalSpec(x.equal)(a, b) {
				return fmt.Errorf("its equality changed: CmpEqual(%d,%d)=%v", a, b, got)
			}
		}
	}
	return nil
}

func runIndep(c indepCase, r *pbt.Rec) error {
	regs := []*vreg{{v: vec.New[int]()}, {v: vec.New(vec.WithCmpLess(lessSpec(2)), vec.WithCmpEqual(equalSpec(1))), less: 2, equal: 1}, {v: &vec.Vec[int]{}}}
	type kept struct {
		got, want []int
		from      string
	}
	var ks []kept
	derived, later := 0, 0
	for n, op := range c.Ops {
		ai, di := op.A%3, op.B%3
		x := regs[ai]
		lm := len(x.m)
		i, j := op.C%(lm+1), (op.C/7)%(lm+1)
		if i > j {
			i, j = j, i
		}
		mod := append([]int(nil), x.m...)
		if derived > 0 {
			later++
		}
		if lm > 400 && (op.K == "self" || op.K == "selfInsert" || op.K == "selfReplace") {
			continue
		}
		switch op.K {
		case "push":
			x.v.Push(op.V...)
			mod = append(mod, op.V...)
		case "set":
			if lm == 0 {
				continue
			}
			i = op.C % lm
			x.v.Set(i, n)
			mod[i] = n
		case "insert":
			x.v.Insert(i, op.V...)
			mod = append(append(append([]int(nil), x.m[:i]...), op.V...), x.m[i:]...)
		case "remove":
			if lm == 0 {
				continue
			}
			i = op.C % lm
			x.v.Remove(i)
			mod = append(mod[:i], mod[i+1:]...)
		case "delete":
			x.v.Delete(i, j)
			mod = append(mod[:i], mod[j:]...)
		case "reverse":
			x.v.Reverse()
			for a, b := 0, len(mod)-1; a < b; a, b = a+1, b-1 {
				mod[a], mod[b] = mod[b], mod[a]
			}
		case "sort":
			x.v.SortStable()
			l := lessSpec(x.less)
			sort.SliceStable(mod, func(a, b int) bool { return l(mod[a], mod[b]) })
		case "swap":
			if lm == 0 {
				continue
			}
			a, b := op.C%lm, (op.C/7)%lm
			x.v.Swap(a, b)
			mod[a], mod[b] = mod[b], mod[a]
		case "clear":
			x.v.Clear()
			mod = nil
		case "grow":
			x.v.Grow(op.C)
		case "clip":
			x.v.Clip()
		case "setLess":
			x.less = op.C % 3
			x.v.SetCmpLess(lessSpec(x.less))
		case "setEqual":
			x.equal = op.C % 3
			x.v.SetCmpEqual(equalSpec(x.equal))
		case "clone":
			derived++
			cl := x.v.Clone()
			regs[di] = &vreg{cl, append([]int(nil), x.m...), x.less, x.equal}
		case "splitOff":
			derived++
			part := x.v.SplitOff(i)
			want := append([]int(nil), x.m[i:]...)
			x.m = mod[:i:i]
			regs[di] = &vreg{part, want, x.less, x.equal}
			mod = x.m
		case "cut":
			derived++
			got := x.v.Cut(i, j)
			want := append([]int(nil), x.m[i:j]...)
			if !sameInts(got, want) {
				return fmt.Errorf("op %d: Cut(%d,%d) of %v = %v", n, i, j, x.m, got)
			}
			ks = append(ks, kept{got, want, "Cut"})
			mod = append(mod[:i], mod[j:]...)
		case "cloneSlice":
			derived++
			ks = append(ks, kept{x.v.CloneToSlice(), append([]int(nil), x.m...), "CloneToSlice"})
		case "writeKept":
			if len(ks) == 0 {
				continue
			}
			k := &ks[op.C%len(ks)]
			for q := range k.got {
				k.got[q] = -100 - n
				k.want[q] = -100 - n
			}
			if cap(k.got) > len(k.got) { // appending to a result is the owner's business too
				k.got = append(k.got, -1)
				k.want = append(k.want, -1)
			}
		case "self":
			x.v.Push(x.v.Slice()...)
			mod = append(mod, x.m...)
		case "selfInsert":
			at := (op.C / 3) % (lm + 1)
			x.v.Insert(at, x.v.Slice()[i:j]...)
			mod = append(append(append([]int(nil), x.m[:at]...), x.m[i:j]...), x.m[at:]...)
		case "selfReplace": // with a part of the vector itself
			from, to := (op.C/3)%(lm+1), (op.C/11)%(lm+1)
			if from > to {
				from, to = to, from
			}
			x.v.Replace(from, to, x.v.Slice()[i:j]...)
			mod = append(append(append([]int(nil), x.m[:from]...), x.m[i:j]...), x.m[to:]...)
		case "replace":
			x.v.Replace(i, j, op.V...)
			mod = append(append(append([]int(nil), x.m[:i]...), op.V...), x.m[j:]...)
		}
		x.m = mod
		for q, y := range regs {
			if err := y.check(); err != nil {
				return fmt.Errorf("after op %d %v: vec %d: %w", n, op, q, err)
			}
		}
		for q, k := range ks {
			if !sameInts(k.got, k.want) {
				return fmt.Errorf("after op %d %v: kept result %d of %s became %v, want %v", n, op, q, k.from, k.got, k.want)
			}
		}
	}
	r.NonTrivial = later > 0
	return nil
}

func vecIndependence() []pbt.Checker {
	kinds := weighted(map[string]int{"push": 6, "clone": 3, "splitOff": 3, "cut": 4, "cloneSlice": 2, "insert": 3, "selfInsert": 3, "selfReplace": 3, "self": 2, "set": 2},
		"push", "set", "insert", "remove", "delete", "reverse", "sort", "swap", "clear", "grow", "clip", "setLess", "setEqual", "clone", "splitOff", "cut", "cloneSlice", "writeKept", "self", "selfInsert", "selfReplace", "replace")
	return []pbt.Checker{pbt.Prop[indepCase]{
		Name: "vec-independence", Quick: 60000,
		Rule: "up to 40 operations on three vectors; clones, split-off parts, cut-out and cloned slices are kept and all sides modified (values, capacity, comparison functions) while everything is compared after every step; non-trivial: something was modified after a derivation",
		Gen: func(t *rapid.T) indepCase {
			return indepCase{genOps(t, 1, 40, func(t *rapid.T) Op {
				op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: pick(t, "a", 3), B: pick(t, "b", 3), C: rapid.IntRange(0, 60).Draw(t, "c")}
				if op.K == "push" || op.K == "insert" || op.K == "replace" {
					op.V = rapid.SliceOfN(rapid.IntRange(0, 30), 1, 5).Draw(t, "v")
				}
				return op
			})}
		},
		Run: runIndep,
	}}
}

func TestC22(t *testing.T) { pbt.Main(t, "C22", append(vecHistory(), vecTyped(), vecLarge())...) }
func TestC23(t *testing.T) { pbt.Main(t, "C23", append(vecSort(), vecLargeSort())...) }
func TestC24(t *testing.T) { pbt.Main(t, "C24", append(vecIndependence(), vecLargeIndependence())...) }

// vecTyped: searching and equality by the automatic comparison of every element type.
func vecTyped() pbt.Checker {
	return pbt.Prop[sortCase]{
		Name: "vec-typed-search", Quick: 20000,
		Rule: "vectors of up to 60 elements of 23 element types/orders; Search, SearchAll, Contains, EqualSlice, EqualVec, Compare, Min, Max and IsSorted against linear scans with the type's own equality; non-trivial: more than 2 elements",
		Gen: func(t *rapid.T) sortCase {
			k := rapid.SampledFrom(sortNames).Draw(t, "kind")
			n := rapid.SampledFrom([]int{4, 10, 60}).Draw(t, "size")
			return sortCase{Search: true, Kind: k, Vals: rapid.SliceOfN(rapid.IntRange(0, sortTypes[k].pool-1), 0, n).Draw(t, "vals"), Shape: max(0, rapid.IntRange(-4, 3).Draw(t, "shape"))}
		},
		Run: func(c sortCase, r *pbt.Rec) error {
			r.Label(c.Kind)
			return sortTypes[c.Kind].run(c, r)
		},
	}
}
