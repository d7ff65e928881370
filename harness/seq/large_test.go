package seq

import (
	"container/list"
	"fmt"
	"sort"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Large containers: what happens only beyond some size. A case is a size, a number of
// steps and the start of a pseudo-random sequence that chooses them; it shrinks in size.
type largeCase struct {
	N     int    `json:"n"`
	Steps int    `json:"steps"`
	Seed  uint32 `json:"seed"`
	Mix   int    `json:"mix"` // how the steps are biased
}

type lcg struct{ x uint64 }

func (g *lcg) n(k int) int {
	if k <= 0 {
		return 0
	}
	g.x = g.x*6364136223846793005 + 1442695040888963407
	return int((g.x >> 33) % uint64(k))
}

// One case in this many is of tens of thousands of elements.
var hugeOdds = map[string]int{
	"dllist-large": 60, "dllist-large-sort-splice": 20, "lhashmap-large": 40, "heap-large": 30, "pqueue-large": 30,
	"set-large": 60, "vec-large": 30, "vec-large-sort": 30, "vec-large-independence": 30, "tree-large": 30,
	"tree-large-relations": 30, "ring-large": 30, "rwmap-large-range": 40, "rwmap-large": 60, "genmap-large": 60,
}

func large(name string, quick, maxN int, rule string, run func(c largeCase, g *lcg, r *pbt.Rec) error) pbt.Checker {
	some := ""
	if hugeOdds[name] > 0 {
		some = fmt.Sprintf(" (one case in %d: of 10000 to 67000 elements)", hugeOdds[name])
	}
	return pbt.Prop[largeCase]{
		Name: name, Quick: quick, Thorough: quick * 40,
		Rule: fmt.Sprintf("containers of up to %d elements and as many operations%s: %s; non-trivial: more than 100 elements", maxN, some, rule),
		Gen: func(t *rapid.T) largeCase {
			if huge := hugeOdds[name]; huge > 0 && rapid.IntRange(0, huge-1).Draw(t, "huge") == huge-1 {
				// around the ranges of 16-bit integers, with few further steps
				base := rapid.SampledFrom([]int{10000, 32000, 65000}).Draw(t, "base")
				return largeCase{N: base + rapid.IntRange(0, 2000).Draw(t, "n"), Steps: rapid.IntRange(0, 300).Draw(t, "steps"), Seed: rapid.Uint32().Draw(t, "seed"), Mix: rapid.IntRange(0, 3).Draw(t, "mix")}
			}
			hi := rapid.SampledFrom([]int{maxN / 20, maxN / 4, maxN}).Draw(t, "hi")
			return largeCase{N: rapid.IntRange(0, hi).Draw(t, "n"), Steps: rapid.IntRange(0, hi).Draw(t, "steps"), Seed: rapid.Uint32().Draw(t, "seed"), Mix: rapid.IntRange(0, 3).Draw(t, "mix")}
		},
		Run: func(c largeCase, r *pbt.Rec) error {
			r.NonTrivial = c.N > 100
			return run(c, &lcg{uint64(c.Seed)*2 + 1}, r)
		},
	}
}

func dllistLarge() pbt.Checker {
	return large("dllist-large", 1500, 2000, "dllist and container/list in lock step, compared forwards, backwards and by index", func(c largeCase, g *lcg, r *pbt.Rec) error {
		var l dllist.Dllist[int]
		m := list.New()
		var es []*dllist.Element[int]
		var ms []*list.Element
		add := func(e *dllist.Element[int], x *list.Element) { es, ms = append(es, e), append(ms, x) }
		for i := 0; i < c.N; i++ {
			if c.Mix%2 == 0 || g.n(2) == 0 {
				add(l.PushBack(i), m.PushBack(i))
			} else {
				add(l.PushFront(i), m.PushFront(i))
			}
		}
		verify := func() error {
			if l.Len() != m.Len() {
				return fmt.Errorf("Len()=%d, want %d", l.Len(), m.Len())
			}
			e, i := l.Front(), 0
			sl := l.Slice()
			if len(sl) != m.Len() {
				return fmt.Errorf("Slice has %d values, want %d", len(sl), m.Len())
			}
			for x := m.Front(); x != nil; x = x.Next() {
				if e == nil || e.Value != x.Value.(int) || sl[i] != e.Value {
					return fmt.Errorf("element %d of %d differs", i, m.Len())
				}
				if (i%37 == 0 || i < 3 || i > m.Len()-3 || abs(i-m.Len()/2) < 3) && l.Get(i) != e {
					return fmt.Errorf("Get(%d) of %d is another element", i, m.Len())
				}
				e = e.Next()
				i++
			}
			if e != nil {
				return fmt.Errorf("the list goes on after %d elements", i)
			}
			e = l.Back()
			for x := m.Back(); x != nil; x = x.Prev() {
				i--
				if e == nil || e.Value != x.Value.(int) {
					return fmt.Errorf("backwards, element %d of %d differs", i, m.Len())
				}
				e = e.Prev()
			}
			if e != nil {
				return fmt.Errorf("backwards, the list goes on")
			}
			return nil
		}
		if err := verify(); err != nil {
			return err
		}
		for s := 0; s < c.Steps; s++ {
			if len(es) == 0 {
				add(l.PushFront(s), m.PushFront(s))
				continue
			}
			i, j := g.n(len(es)), g.n(len(es))
			a, b, x, y := es[i], es[j], ms[i], ms[j]
			k := g.n(9)
			if c.Mix == 3 && k > 5 {
				k = 0
			}
			switch k {
			case 0:
				if l.Remove(a) != x.Value.(int) {
					return fmt.Errorf("step %d: Remove returned another value", s)
				}
				m.Remove(x)
				es[i], ms[i] = es[len(es)-1], ms[len(ms)-1]
				es, ms = es[:len(es)-1], ms[:len(ms)-1]
			case 1:
				l.MoveToFront(a)
				m.MoveToFront(x)
			case 2:
				l.MoveToBack(a)
				m.MoveToBack(x)
			case 3:
				l.MoveBefore(a, b)
				m.MoveBefore(x, y)
			case 4:
				l.MoveAfter(a, b)
				m.MoveAfter(x, y)
			case 5:
				if i != j {
					l.Swap(a, b)
					p := m.PushBack(0) // place holder
					m.MoveAfter(p, x)
					m.MoveAfter(x, y)
					m.MoveBefore(y, p)
					m.Remove(p)
				}
			case 6:
				add(l.InsertBefore(-s, a), m.InsertBefore(-s, x))
			case 7:
				add(l.InsertAfter(-s, a), m.InsertAfter(-s, x))
			case 8:
				add(a.InsertAfter(-s), m.InsertAfter(-s, x))
			}
			if s%257 == 256 {
				if err := verify(); err != nil {
					return fmt.Errorf("after step %d: %w", s, err)
				}
			}
		}
		return verify()
	})
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func dllistLargeSort() pbt.Checker {
	return large("dllist-large-sort-splice", 200, 1500, "sorted with many or few ties, spliced into each other; against sort.SliceStable and append", func(c largeCase, g *lcg, r *pbt.Rec) error {
		a, b := dllist.New[tagged](), dllist.New[tagged]()
		var ma, mb []tagged
		span := []int{3, 50, 1 << 20, 1 << 20}[c.Mix]
		for i := 0; i < c.N; i++ {
			k := g.n(span)
			if c.Mix == 3 { // nearly sorted, with runs (many are out of order only locally)
				k = i/7*3 + g.n(5)
			}
			a.PushBack(tagged{k, i})
			ma = append(ma, tagged{k, i})
		}
		for i := 0; i < c.Steps/2; i++ {
			b.PushFront(tagged{g.n(span), -i})
		}
		for i := c.Steps/2 - 1; i >= 0; i-- {
			mb = append(mb, tagged{0, -i})
		}
		bs := b.Slice()
		for i := range mb {
			if i >= len(bs) || bs[i].tag != mb[i].tag {
				return fmt.Errorf("pushed to the front: element %d differs", i)
			}
		}
		mb = bs
		less := func(x, y tagged) bool { return x.k < y.k }
		srt := func(m []tagged) { sort.SliceStable(m, func(i, j int) bool { return less(m[i], m[j]) }) }
		same := func(what string, l *dllist.Dllist[tagged], m []tagged) error {
			s := l.Slice()
			if len(s) != len(m) || l.Len() != len(m) {
				return fmt.Errorf("%s: %d elements (Len %d), want %d", what, len(s), l.Len(), len(m))
			}
			for i := range s {
				if s[i] != m[i] {
					return fmt.Errorf("%s: element %d of %d is %v, want %v", what, i, len(m), s[i], m[i])
				}
			}
			i := len(m)
			for e := l.Back(); e != nil; e = e.Prev() {
				if i--; i < 0 || e.Value != m[i] {
					return fmt.Errorf("%s: backwards, element %d differs", what, i)
				}
			}
			if i != 0 {
				return fmt.Errorf("%s: backwards, %d elements missing", what, i)
			}
			return nil
		}
		a.Sort(less)
		srt(ma)
		if err := same("sorted", a, ma); err != nil {
			return err
		}
		cat := func(xs ...[]tagged) (out []tagged) {
			for _, x := range xs {
				out = append(out, x...)
			}
			return
		}
		switch c.Seed % 4 {
		case 0:
			a.PushBackList(b)
			ma = cat(ma, mb)
		case 1:
			a.PushFrontList(b)
			ma = cat(mb, ma)
		case 2:
			if c.N == 0 {
				return nil
			}
			at := g.n(len(ma))
			a.PushBackListTo(b, a.Get(at))
			ma = cat(ma[:at+1], mb, ma[at+1:])
		case 3:
			if c.N == 0 {
				return nil
			}
			at := g.n(len(ma))
			a.PushFrontListTo(b, a.Get(at))
			ma = cat(ma[:at+1], mb, ma[at+1:])
		}
		if err := same("spliced", a, ma); err != nil {
			return err
		}
		if err := same("source", b, mb); err != nil {
			return err
		}
		a.Sort(less)
		srt(ma)
		if err := same("sorted again", a, ma); err != nil {
			return err
		}
		// the large one spliced into the other, or into itself
		into, mi := b, mb
		if c.Seed/4%3 == 0 {
			into, mi = a, ma
		}
		at := g.n(max(len(mi), 1))
		switch k := c.Seed / 12 % 4; {
		case k == 0 || len(mi) == 0:
			into.PushBackList(a)
			mi = cat(mi, ma)
		case k == 1:
			into.PushFrontList(a)
			mi = cat(ma, mi)
		case k == 2:
			into.PushBackListTo(a, into.Get(at))
			mi = cat(mi[:at+1], ma, mi[at+1:])
		case k == 3:
			into.PushFrontListTo(a, into.Get(at))
			mi = cat(mi[:at+1], ma, mi[at+1:])
		}
		if into != a {
			if err := same("large source", a, ma); err != nil {
				return err
			}
		}
		return same("spliced the other way", into, mi)
	})
}

func lhashmapLarge() pbt.Checker {
	return large("lhashmap-large", 1000, 3000, "against a map and container/list", func(c largeCase, g *lcg, r *pbt.Rec) error {
		var conf []lhashmap.LHashMapConf[int, int]
		if c.Mix%2 == 1 {
			conf = append(conf, lhashmap.WithCap[int, int](c.N/2))
		}
		l := lhashmap.New(conf...)
		order := list.New() // of keys
		vals, at := map[int]int{}, map[int]*list.Element{}
		for s := 0; s < c.N+c.Steps; s++ {
			k := s
			if s >= c.N {
				k = g.n(c.N + c.N/4 + 1)
			}
			op := g.n(8)
			if s < c.N {
				op = 0
			}
			switch op {
			case 0, 1, 2:
				l.Store(k, s)
				vals[k] = s
				if e := at[k]; e != nil {
					order.MoveToFront(e)
				} else {
					at[k] = order.PushFront(k)
				}
			case 3, 4, 5:
				v, ok := l.Load(k)
				want, wok := vals[k]
				if v != want || ok != wok {
					return fmt.Errorf("step %d of %d: Load(%d)=(%d,%v), want (%d,%v)", s, c.N, k, v, ok, want, wok)
				}
				if wok {
					order.MoveToFront(at[k])
				}
			default:
				l.Remove(k)
				if e := at[k]; e != nil {
					order.Remove(e)
					delete(at, k)
					delete(vals, k)
				}
			}
		}
		if l.Len() != len(vals) {
			return fmt.Errorf("Len()=%d, want %d", l.Len(), len(vals))
		}
		e := order.Front()
		var err error
		n := 0
		l.Range(func(k, v int) bool {
			if e == nil || e.Value.(int) != k || vals[k] != v {
				err = fmt.Errorf("Range at %d: (%d,%d)", n, k, v)
				return false
			}
			e = e.Next()
			n++
			return true
		})
		if err == nil && e != nil {
			err = fmt.Errorf("Range visited %d of %d", n, len(vals))
		}
		return err
	})
}

func heapLarge() pbt.Checker {
	return large("heap-large", 800, 4000, "Init, Push, Pop, Remove and Fix on MinHeap and MaxHeap, emptied at the end; order and multiset", func(c largeCase, g *lcg, r *pbt.Rec) error {
		var mn heap.MinHeap[int]
		var mx heap.MaxHeap[int]
		var h heap.Interface[int] = &mn
		data := func() []int { return mn }
		less := func(a, b int) bool { return a < b }
		if c.Mix%2 == 1 {
			h, data, less = &mx, func() []int { return mx }, func(a, b int) bool { return a > b }
		}
		span := []int{5, 5, 1 << 30, 1 << 30}[c.Mix]
		count := map[int]int{}
		for i := 0; i < c.N; i++ {
			x := g.n(span)
			count[x]++
			if c.Mix%2 == 1 {
				mx = append(mx, x)
			} else {
				mn = append(mn, x)
			}
		}
		heap.Init(h)
		valid := func() error {
			d := data()
			for i := 1; i < len(d); i++ {
				if less(d[i], d[(i-1)/2]) {
					return fmt.Errorf("not a heap at %d of %d", i, len(d))
				}
			}
			return nil
		}
		if err := valid(); err != nil {
			return fmt.Errorf("after Init: %w", err)
		}
		draw := func() int { // also beyond all others, at either end
			switch g.n(8) {
			case 0:
				return -1 - g.n(50)
			case 1:
				return span + g.n(50)
			}
			return g.n(span)
		}
		for s := 0; s < c.Steps; s++ {
			d := data()
			switch k := g.n(5); {
			case k < 2 || len(d) == 0:
				x := draw()
				count[x]++
				heap.Push(h, x)
			case k == 2:
				top := d[0]
				if x := heap.Pop(h); x != top && (less(x, top) || less(top, x)) {
					return fmt.Errorf("step %d: Pop gave %d, not the top %d", s, x, top)
				} else {
					count[x]--
				}
			case k == 3:
				i := g.n(len(d))
				want := d[i]
				if x := heap.Remove(h, i); x != want {
					return fmt.Errorf("step %d: Remove(%d) gave %d, want %d", s, i, x, want)
				}
				count[want]--
			case k == 4:
				i := g.n(len(d))
				count[d[i]]--
				d[i] = draw()
				count[d[i]]++
				heap.Fix(h, i)
			}
			if s%97 == 96 {
				if err := valid(); err != nil {
					return fmt.Errorf("after step %d: %w", s, err)
				}
			}
		}
		if err := valid(); err != nil {
			return err
		}
		last, first := 0, true
		for len(data()) > 0 {
			x := heap.Pop(h)
			if !first && less(x, last) {
				return fmt.Errorf("popped %d after %d", x, last)
			}
			last, first = x, false
			count[x]--
		}
		for x, n := range count {
			if n != 0 {
				return fmt.Errorf("%d: %d lost or invented", x, n)
			}
		}
		return nil
	})
}

func pqueueLarge() pbt.Checker {
	return large("pqueue-large", 800, 4000, "pushed, popped and emptied; order and multiset of pairs", func(c largeCase, g *lcg, r *pbt.Rec) error {
		q, less := pqueue.NewMinPriorityQueue[int](), func(a, b int) bool { return a < b }
		if c.Mix%2 == 1 {
			q, less = pqueue.NewMaxPriorityQueue[int](), func(a, b int) bool { return a > b }
		}
		span := []int{4, 4, 1 << 30, 1 << 30}[c.Mix]
		pri := map[int]int{} // value -> priority
		std := &mirror{less: less}
		push := func(v int) {
			p := g.n(span) - span/2
			q.Push(p, v)
			pri[v] = p
			std.push(p)
		}
		pop := func() error {
			want := std.pop()
			p, v := q.Pop()
			if x, ok := pri[v]; !ok || x != p || p != want {
				return fmt.Errorf("Pop gave (%d,%d), want priority %d", p, v, want)
			}
			delete(pri, v)
			return nil
		}
		for i := 0; i < c.N; i++ {
			push(i)
		}
		for s := 0; s < c.Steps; s++ {
			if g.n(2) == 0 || len(pri) == 0 {
				push(c.N + s)
			} else if err := pop(); err != nil {
				return fmt.Errorf("step %d: %w", s, err)
			}
			if q.Len() != len(pri) {
				return fmt.Errorf("step %d: Len()=%d, want %d", s, q.Len(), len(pri))
			}
		}
		for len(pri) > 0 {
			if err := pop(); err != nil {
				return err
			}
		}
		if q.Len() != 0 {
			return fmt.Errorf("Len()=%d at the end", q.Len())
		}
		return nil
	})
}

// mirror is a plain sorted slice.
type mirror struct {
	d    []int
	less func(a, b int) bool
}

func (m *mirror) push(p int) {
	i := sort.Search(len(m.d), func(i int) bool { return m.less(p, m.d[i]) })
	m.d = append(m.d, 0)
	copy(m.d[i+1:], m.d[i:])
	m.d[i] = p
}

func (m *mirror) pop() int {
	x := m.d[0]
	m.d = m.d[1:]
	return x
}

func setLarge() pbt.Checker {
	return large("set-large", 500, 3000, "set algebra on up to 20 large sets against maps", func(c largeCase, g *lcg, r *pbt.Rec) error {
		n := 2 + g.n(19)
		ss := make([]set.Set[int], n)
		ms := make([]map[int]bool, n)
		for i := range ss {
			ss[i], ms[i] = set.New[int](), map[int]bool{}
			base := g.n(c.N + 1)
			for k := 0; k < c.N/(1+i%3); k++ {
				x := base + k
				if c.Mix%2 == 1 {
					x = g.n(2*c.N + 1)
				}
				ss[i].Push(x)
				ms[i][x] = true
			}
		}
		same := func(what string, s set.Set[int], want func(x int) bool) error {
			have := map[int]bool{}
			for _, x := range s.Slice() {
				if have[x] || !want(x) {
					return fmt.Errorf("%s holds %d", what, x)
				}
				have[x] = true
			}
			cnt := 0
			for x := -1; x <= 2*c.N+c.N+2; x++ {
				if want(x) {
					cnt++
				}
			}
			if cnt != len(have) || s.Len() != cnt {
				return fmt.Errorf("%s has %d elements (Len %d), want %d", what, len(have), s.Len(), cnt)
			}
			return nil
		}
		i, j := g.n(n), g.n(n)
		for q := range ss {
			if err := same(fmt.Sprintf("set %d", q), ss[q], func(x int) bool { return ms[q][x] }); err != nil {
				return err
			}
		}
		if err := same("union", ss[0].Union(ss[1:]...), func(x int) bool {
			for _, m := range ms {
				if m[x] {
					return true
				}
			}
			return false
		}); err != nil {
			return err
		}
		if err := same("difference", ss[i].Difference(ss[j]), func(x int) bool { return ms[i][x] && !ms[j][x] }); err != nil {
			return err
		}
		if err := same("intersection", ss[i].Intersection(ss[j]), func(x int) bool { return ms[i][x] && ms[j][x] }); err != nil {
			return err
		}
		if err := same("symmetric difference", ss[i].SymmetricDifference(ss[j]), func(x int) bool { return ms[i][x] != ms[j][x] }); err != nil {
			return err
		}
		sub := true
		for x := range ms[i] {
			sub = sub && ms[j][x]
		}
		if ss[i].IsSubSet(ss[j]) != sub || ss[j].IsSupperSet(ss[i]) != sub {
			return fmt.Errorf("subset/superset")
		}
		cl := ss[i].Clone()
		if !cl.Equal(ss[i]) || !ss[i].Equal(cl) {
			return fmt.Errorf("a clone is not equal")
		}
		cl.Push(-1)
		if cl.Equal(ss[i]) || ss[i].Equal(cl) {
			return fmt.Errorf("equal to a larger set")
		}
		if !ss[i].IsSubSet(cl) || cl.IsSubSet(ss[i]) || !cl.IsSupperSet(ss[i]) || ss[i].IsSupperSet(cl) {
			return fmt.Errorf("subset/superset of a set with one more element")
		}
		for x := range ms[i] { // one element for another
			if !cl.Remove(x) {
				return fmt.Errorf("Remove(%d) of a clone", x)
			}
			if cl.Equal(ss[i]) || ss[i].Equal(cl) || cl.IsSubSet(ss[i]) || ss[i].IsSubSet(cl) || cl.IsSupperSet(ss[i]) || ss[i].IsSupperSet(cl) {
				return fmt.Errorf("equal, subset or superset although one element differs")
			}
			cl.Remove(-1)
			if cl.Equal(ss[i]) || ss[i].Equal(cl) || !cl.IsSubSet(ss[i]) || ss[i].IsSubSet(cl) {
				return fmt.Errorf("equal or subset although one element is missing")
			}
			if d := ss[i].Difference(cl); d.Len() != 1 || !d.Contain(x) {
				return fmt.Errorf("difference to a set with one element less")
			}
			break
		}
		for q := range ss {
			if err := same(fmt.Sprintf("afterwards set %d", q), ss[q], func(x int) bool { return ms[q][x] }); err != nil {
				return err
			}
		}
		return nil
	})
}

type plainMap struct {
	load          func(k int) (int, bool)
	store, del    func(k, v int)
	loadOrStore   func(k, v int) (int, bool)
	loadAndDelete func(k int) (int, bool)
	swap          func(k, v int) (int, bool)
	rng           func(f func(k, v int) bool)
	length        func() int
	clear         func()
	more          func(want map[int]int) error
}

func mapLarge(name string, mk func() plainMap) pbt.Checker {
	return large(name, 500, 6000, "against a Go map, from few to many keys and back", func(c largeCase, g *lcg, r *pbt.Rec) error {
		p := mk()
		m := map[int]int{}
		verify := func() error {
			seen := map[int]bool{}
			var err error
			p.rng(func(k, v int) bool {
				if w, ok := m[k]; !ok || w != v || seen[k] {
					err = fmt.Errorf("Range gave (%d,%d), want %d", k, v, w)
					return false
				}
				seen[k] = true
				return true
			})
			if err == nil && len(seen) != len(m) {
				err = fmt.Errorf("Range visited %d of %d", len(seen), len(m))
			}
			if err == nil && p.length() != len(m) {
				err = fmt.Errorf("Len()=%d, want %d", p.length(), len(m))
			}
			return err
		}
		for i := 0; i < c.N; i++ {
			p.store(i*3, i)
			m[i*3] = i
		}
		if c.Mix == 1 && c.N > 0 { // cleared before anything was looked up, and used again with the same keys
			p.clear()
			m = map[int]int{}
			for s := 0; s < 100; s++ {
				k := g.n(c.N) * 3
				was, had := m[k]
				var got int
				var ok bool
				switch g.n(3) {
				case 0:
					got, ok = p.swap(k, s)
					m[k] = s
				case 1:
					got, ok = p.loadOrStore(k, s)
					if !had {
						m[k], was = s, s
					}
				case 2:
					got, ok = p.loadAndDelete(k)
					delete(m, k)
				}
				if got != was || ok != had {
					return fmt.Errorf("cleared, key %d: (%d,%v), want (%d,%v)", k, got, ok, was, had)
				}
			}
			if err := verify(); err != nil {
				return fmt.Errorf("cleared: %w", err)
			}
			for i := 0; i < c.N; i++ {
				p.store(i*3, i)
				m[i*3] = i
			}
		}
		if err := verify(); err != nil {
			return fmt.Errorf("after %d stores: %w", c.N, err)
		}
		if p.more != nil {
			if err := p.more(m); err != nil {
				return err
			}
		}
		for s := 0; s < c.Steps*2; s++ {
			k := g.n(4*c.N + 1)
			was, had := m[k]
			var got int
			var ok bool
			op := g.n(6)
			if c.Mix == 2 && op > 3 {
				op = 2
			}
			switch op {
			case 0:
				p.store(k, s)
				m[k] = s
				continue
			case 1:
				p.del(k, 0)
				delete(m, k)
				continue
			case 2:
				got, ok = p.loadAndDelete(k)
				delete(m, k)
			case 3:
				got, ok = p.load(k)
			case 4:
				got, ok = p.loadOrStore(k, s)
				if !had {
					m[k], was = s, s
				}
			case 5:
				got, ok = p.swap(k, s)
				m[k] = s
			}
			if got != was || ok != had {
				return fmt.Errorf("step %d op %d key %d: (%d,%v), want (%d,%v)", s, op, k, got, ok, was, had)
			}
			if s%1500 == 1499 {
				if err := verify(); err != nil {
					return fmt.Errorf("after step %d: %w", s, err)
				}
			}
			if c.Mix == 3 && g.n(3000) == 0 {
				p.clear()
				m = map[int]int{}
			}
		}
		for k := -1; k < 4*c.N+2; k++ {
			if v, ok := p.load(k); v != m[k] {
				return fmt.Errorf("Load(%d)=(%d,%v), want %d", k, v, ok, m[k])
			}
		}
		return verify()
	})
}

func rwmapLarge() pbt.Checker {
	return mapLarge("rwmap-large", func() plainMap {
		m := new(rwmap.RWMap[int, int])
		return plainMap{m.Load, m.Store, func(k, _ int) { m.Delete(k) }, m.LoadOrStore, m.LoadAndDelete, m.Swap,
			func(f func(k, v int) bool) { m.Range(f) }, func() int {
				if a, b := m.Len(), m.SlowLen(); a != b {
					return int(a*1000000 + b)
				}
				return int(m.Len())
			}, m.Clear, nil}
	})
}

func genmapLarge() pbt.Checker {
	return mapLarge("genmap-large", func() plainMap {
		m := genmap.New[int, int]()
		return plainMap{m.Load, func(k, v int) { m.Store(k, v) }, func(k, _ int) { m.Delete(k) }, m.LoadOrStore, m.LoadAndDelete, m.LoadAndStore,
			func(f func(k, v int) bool) { m.Range(f) }, m.Len, func() { m.Clear() }, func(want map[int]int) error { return genmapWhole(m, want) }}
	})
}

// genmapWhole checks the methods that deal with the whole map.
func genmapWhole(m genmap.GenMap[int, int], want map[int]int) error {
	same := func(what string, got map[int]int) error {
		if len(got) != len(want) {
			return fmt.Errorf("%s: %d entries, want %d", what, len(got), len(want))
		}
		for k, v := range want {
			if x, ok := got[k]; !ok || x != v {
				return fmt.Errorf("%s: %d has %d, want %d", what, k, x, v)
			}
		}
		return nil
	}
	ks, vs := map[int]int{}, 0
	for _, k := range m.Keys() {
		ks[k] = want[k]
	}
	if err := same("Keys", ks); err != nil || len(m.Keys()) != len(want) {
		return fmt.Errorf("Keys: %d of %d: %v", len(m.Keys()), len(want), err)
	}
	for _, v := range m.Values() {
		vs += v + 1
	}
	for _, v := range want {
		vs -= v + 1
	}
	if vs != 0 || len(m.Values()) != len(want) {
		return fmt.Errorf("Values do not add up")
	}
	eq := func(a, b int) bool { return a == b }
	cl := m.Clone()
	if err := same("Clone", cl); err != nil {
		return err
	}
	to, raw := genmap.New[int, int](), map[int]int{}
	m.CopyTo(to)
	m.CopyToRaw(raw)
	if err := same("CopyTo", to); err != nil {
		return err
	}
	if err := same("CopyToRaw", raw); err != nil {
		return err
	}
	if err := same("CopyFrom", genmap.New[int, int]().CopyFrom(m)); err != nil {
		return err
	}
	if err := same("CopyFromRaw", genmap.New[int, int]().CopyFromRaw(raw)); err != nil {
		return err
	}
	if !m.EqualFunc(cl, eq) || !cl.EqualFunc(m, eq) {
		return fmt.Errorf("a clone is not equal")
	}
	cl.Store(-7, 1)
	if _, ok := m.Load(-7); ok || m.EqualFunc(cl, eq) || cl.EqualFunc(m, eq) {
		return fmt.Errorf("a clone with one more entry is equal, or shared")
	}
	for k := range want { // one for another
		cl.Delete(k)
		if m.EqualFunc(cl, eq) || cl.EqualFunc(m, eq) {
			return fmt.Errorf("equal although one key differs")
		}
		cl.Delete(-7)
		cl.Store(k, want[k]+1)
		if m.EqualFunc(cl, eq) || cl.EqualFunc(m, eq) {
			return fmt.Errorf("equal although one value differs")
		}
		break
	}
	cl.DeleteFunc(func(k, v int) bool { return k%2 == 0 })
	for k := range want {
		if _, ok := cl.Load(k); ok == (k%2 == 0) {
			return fmt.Errorf("DeleteFunc: %d is there: %v", k, ok)
		}
	}
	return same("afterwards", m)
}

func vecLarge() pbt.Checker {
	return large("vec-large", 500, 5000, "pushed one by one or at once, inserted, cut, replaced, removed; against a slice", func(c largeCase, g *lcg, r *pbt.Rec) error {
		v := vec.New[int]()
		var m []int
		for i := 0; i < c.N; i++ {
			x := g.n(c.N + 1)
			m = append(m, x)
			if c.Mix%2 == 0 {
				v.Push(x)
			}
		}
		if c.Mix%2 == 1 {
			v.Push(m...)
		}
		for s := 0; s < c.Steps/10+3; s++ {
			i, j := g.n(len(m)+1), g.n(len(m)+1)
			if i > j {
				i, j = j, i
			}
			if j-i > 50 && g.n(3) > 0 {
				j = i + 50
			}
			x := make([]int, g.n(40))
			for k := range x {
				x[k] = g.n(c.N + 1)
			}
			switch g.n(9) {
			case 0:
				v.Insert(i, x...)
				m = append(append(append([]int(nil), m[:i]...), x...), m[i:]...)
			case 1:
				got := v.Cut(i, j)
				if !sameInts(got, m[i:j]) {
					return fmt.Errorf("step %d: Cut(%d,%d) of %d", s, i, j, len(m))
				}
				m = append(append([]int(nil), m[:i]...), m[j:]...)
			case 2:
				v.Replace(i, j, x...)
				m = append(append(append([]int(nil), m[:i]...), x...), m[j:]...)
			case 3:
				v.Delete(i, j)
				m = append(append([]int(nil), m[:i]...), m[j:]...)
			case 4:
				if i < len(m) {
					got, ok := v.Remove(i)
					if !ok || got != m[i] {
						return fmt.Errorf("step %d: Remove(%d) of %d", s, i, len(m))
					}
					m = append(append([]int(nil), m[:i]...), m[i+1:]...)
				}
			case 5:
				v.Push(x...)
				m = append(m, x...)
			case 6:
				v.Reverse()
				for a, b := 0, len(m)-1; a < b; a, b = a+1, b-1 {
					m[a], m[b] = m[b], m[a]
				}
			case 7:
				if g.n(2) == 0 {
					v.SortStable()
				} else {
					v.Sort()
				}
				m = append([]int(nil), m...)
				sort.Ints(m)
				if len(m) > 0 {
					y := g.n(c.N + 1)
					pos, ok := v.BinarySearch(y)
					want := sort.SearchInts(m, y)
					if pos != want || ok != (want < len(m) && m[want] == y) {
						return fmt.Errorf("step %d: BinarySearch(%d)=(%d,%v), want %d", s, y, pos, ok, want)
					}
				}
			case 8:
				part := v.SplitOff(j)
				if !sameInts(part.Slice(), m[j:]) {
					return fmt.Errorf("step %d: SplitOff(%d) of %d", s, j, len(m))
				}
				v.Push(part.Slice()...)
			}
			if v.Len() != len(m) || !sameInts(v.Slice(), m) {
				return fmt.Errorf("step %d: contents differ (Len %d, want %d)", s, v.Len(), len(m))
			}
			if len(m) > 0 {
				x := m[g.n(len(m))]
				first := -1
				var all []int
				for k, y := range m {
					if x == y {
						if first < 0 {
							first = k
						}
						all = append(all, k)
					}
				}
				if v.Search(x) != first || !sameInts(v.SearchAll(x), all) || !v.Contains(x) || v.Contains(-1) {
					return fmt.Errorf("step %d: searching %d", s, x)
				}
				lo, hi := m[0], m[0]
				for _, y := range m {
					lo, hi = min(lo, y), max(hi, y)
				}
				if v.Min() != lo || v.Max() != hi {
					return fmt.Errorf("step %d: Min/Max", s)
				}
				// equal to a copy, and not to one with another element somewhere
				o := append([]int(nil), m...)
				ov := vec.New[int]().Push(o...)
				if !v.EqualSlice(o) || !v.EqualVec(*ov) || v.Compare(*ov) != 0 {
					return fmt.Errorf("step %d: not equal to a copy", s)
				}
				at := g.n(len(o))
				if g.n(3) == 0 {
					at = len(o) - 1
				}
				o[at]++
				ov.Set(at, o[at])
				if v.EqualSlice(o) || v.EqualVec(*ov) || v.Compare(*ov) != -1 || ov.Compare(*v) != 1 {
					return fmt.Errorf("step %d: equal although element %d of %d differs, or Compare wrong", s, at, len(o))
				}
				eq := func(a, b int) bool { return a == b }
				if v.EqualSliceFunc(o, eq) || v.EqualVecFunc(*ov, eq) || v.EqualSlice(m[:len(m)-1]) {
					return fmt.Errorf("step %d: equal although element %d of %d differs", s, at, len(o))
				}
			}
		}
		return nil
	})
}

func treeLarge() pbt.Checker {
	return large("tree-large", 600, 5000, "complete trees and generated deep, one-sided and random shapes; traversals against an independent walk", func(c largeCase, g *lcg, r *pbt.Rec) error {
		type node = tree.Node[int]
		vals := make([]int, c.N)
		for i := range vals {
			vals[i] = i
		}
		if root := tree.BuildTree(vals); c.N > 0 {
			got := root.TraversalBFS()
			if len(got) != c.N {
				return fmt.Errorf("BuildTree of %d gives %d nodes", c.N, len(got))
			}
			for i, n := range got {
				l, rt := (*node)(nil), (*node)(nil)
				if 2*i+1 < c.N {
					l = got[2*i+1]
				}
				if 2*i+2 < c.N {
					rt = got[2*i+2]
				}
				if n.Val != i || n.Left != l || n.Right != rt {
					return fmt.Errorf("BuildTree of %d: node %d is misplaced", c.N, i)
				}
			}
		}
		if c.N == 0 {
			return nil
		}
		// a generated shape
		nodes := []*node{tree.NewNode(0)}
		left, right := map[int]int{}, map[int]int{}
		depth := map[int]int{}
		for i := 1; i < c.N; i++ {
			for {
				p := g.n(len(nodes))
				switch c.Mix {
				case 1:
					p = len(nodes) - 1
				case 2:
					p = max(0, len(nodes)-1-g.n(3))
				}
				_, hl := left[p]
				_, hr := right[p]
				side := g.n(2)
				if c.Mix == 1 {
					side = int(c.Seed % 2)
				}
				n := tree.NewNode(i)
				if side == 0 && !hl {
					nodes[p].SetLeft(n)
					left[p] = i
				} else if side == 1 && !hr {
					nodes[p].SetRight(n)
					right[p] = i
				} else {
					continue
				}
				nodes = append(nodes, n)
				depth[i] = depth[p] + 1
				break
			}
		}
		var pre []int
		stack := []int{0}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			pre = append(pre, x)
			if y, ok := right[x]; ok {
				stack = append(stack, y)
			}
			if y, ok := left[x]; ok {
				stack = append(stack, y)
			}
		}
		var bfs []int
		queue := []int{0}
		for len(queue) > 0 {
			x := queue[0]
			queue = queue[1:]
			bfs = append(bfs, x)
			if y, ok := left[x]; ok {
				queue = append(queue, y)
			}
			if y, ok := right[x]; ok {
				queue = append(queue, y)
			}
		}
		same := func(what string, got []*node, want []int) error {
			if len(got) != len(want) {
				return fmt.Errorf("%s visits %d of %d nodes", what, len(got), len(want))
			}
			for i := range got {
				if got[i] != nodes[want[i]] {
					return fmt.Errorf("%s: node %d is another one", what, i)
				}
			}
			return nil
		}
		if err := same("TraversalDFS", nodes[0].TraversalDFS(), pre); err != nil {
			return err
		}
		if err := same("TraversalBFS", nodes[0].TraversalBFS(), bfs); err != nil {
			return err
		}
		deepest := 0
		for _, d := range depth {
			deepest = max(deepest, d)
		}
		r.LabelIf(deepest > 1000, "deeper than 1000")
		return nil
	})
}

func hashringLarge() pbt.Checker {
	return large("hashring-large", 150, 120, "rings of up to 120 nodes and 300 replicas reached in two ways; agreement, membership and minimal movement", func(c largeCase, g *lcg, r *pbt.Rec) error {
		rep := []int{1, 20, 100, 300}[c.Mix]
		r.NonTrivial = c.N > 30
		name := func(i int) string { return fmt.Sprintf("node-%d.%d", i%7, i) }
		a, b := hashring.New[string](rep), hashring.New[string](rep)
		in := map[string]bool{}
		var all []string
		for i := 0; i < c.N; i++ {
			all = append(all, name(i))
			in[name(i)] = true
			b.AddNodes(name(i))
		}
		a.AddNodes(all...)
		key := func(i int) string { return fmt.Sprint("key", int(c.Seed)+i) }
		agree := func(what string) error {
			for i := 0; i < 300; i++ {
				x, y := a.GetNode(key(i)), b.GetNode(key(i))
				if x != y || len(in) > 0 && !in[x] || len(in) == 0 && x != "" {
					return fmt.Errorf("%s: key %s is at %q and %q", what, key(i), x, y)
				}
			}
			return nil
		}
		if err := agree("added at once and singly"); err != nil {
			return err
		}
		if c.N == 0 {
			return nil
		}
		before := map[string]string{}
		for i := 0; i < 300; i++ {
			before[key(i)] = a.GetNode(key(i))
		}
		var out []string
		for i := 0; i < 1+g.n(c.N); i++ {
			out = append(out, all[g.n(len(all))])
		}
		gone := map[string]bool{}
		for _, x := range out {
			gone[x] = true
			delete(in, x)
			b.RemoveNodes(x)
		}
		a.RemoveNodes(out...)
		if err := agree("removed at once and singly"); err != nil {
			return err
		}
		for k, n := range before {
			if now := a.GetNode(k); !gone[n] && now != n {
				return fmt.Errorf("key %s moved from %q, which stayed, to %q", k, n, now)
			}
		}
		a.AddNodes(out...)
		for k, n := range before {
			if now := a.GetNode(k); now != n {
				return fmt.Errorf("after adding back, key %s is at %q, was at %q", k, now, n)
			}
		}
		return nil
	})
}
