package seq

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/set"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type setCase struct {
	Kind string `json:"kind"`
	Ops  []Op   `json:"ops"`
}

const nSets = 4

type model[T comparable] map[T]bool

func cloneModel[T comparable](m model[T]) model[T] {
	out := model[T]{}
	for k := range m {
		out[k] = true
	}
	return out
}

func eqModel[T comparable](a, b model[T]) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func checkSet[T constraints.Ordered](s set.Set[T], m model[T], univ []T) error {
	if s.Len() != len(m) {
		return fmt.Errorf("Len()=%d, want %d", s.Len(), len(m))
	}
	if s.IsEmpty() != (len(m) == 0) {
		return fmt.Errorf("IsEmpty()=%v with %d elements", s.IsEmpty(), len(m))
	}
	for _, v := range univ {
		if s.Contain(v) != m[v] {
			return fmt.Errorf("Contain(%v)=%v, want %v", v, s.Contain(v), m[v])
		}
	}
	sl := s.Slice()
	seen := model[T]{}
	for _, v := range sl {
		if seen[v] || !m[v] {
			return fmt.Errorf("Slice has %v twice or wrongly", v)
		}
		seen[v] = true
	}
	if len(sl) != len(m) {
		return fmt.Errorf("Slice has %d elements, want %d", len(sl), len(m))
	}
	seen = model[T]{}
	bad := false
	s.Range(func(v T) bool {
		bad = bad || seen[v] || !m[v]
		seen[v] = true
		return true
	})
	if bad || len(seen) != len(m) {
		return fmt.Errorf("Range visited %v, want %v", seen, m)
	}
	return nil
}

func runSet[T constraints.Ordered](c setCase, univ []T, r *pbt.Rec) error {
	ss := make([]set.Set[T], nSets+1) // the last one is a nil set, only read
	ms := make([]model[T], nSets+1)
	for i := 0; i < nSets; i++ {
		ss[i], ms[i] = set.New[T](), model[T]{}
	}
	ms[nSets] = model[T]{}
	related, combos := 0, 0
	for n, op := range c.Ops {
		a := op.A % nSets
		b := op.B % (nSets + 1)
		d := op.C % nSets
		v := univ[op.C%len(univ)]
		s, m := ss[a], ms[a]
		o, om := ss[b], ms[b]
		var err error
		is := func(name string, got, want bool) {
			if got != want && err == nil {
				err = fmt.Errorf("%s(%v)=%v, want %v", name, v, got, want)
			}
		}
		sameSet := func(name string, got set.Set[T]) {
			if e := checkSet(got, m, univ); e != nil && err == nil {
				err = fmt.Errorf("%s returned something else than the set: %w", name, e)
			}
			if op.B%2 == 1 && err == nil { // it is the set itself
				got.Insert(v)
				m[v] = true
			}
		}
		put := func(name string, res set.Set[T], want model[T]) {
			combos++
			if e := checkSet(res, want, univ); e != nil {
				err = fmt.Errorf("%s of %v and %v: %w", name, m, om, e)
				return
			}
			if res == nil {
				err = fmt.Errorf("%s returned a nil set", name)
				return
			}
			ss[d], ms[d] = res, want
		}
		switch op.K {
		case "insert":
			is("Insert", s.Insert(v), !m[v])
			m[v] = true
		case "push":
			var vs []T
			for _, x := range op.V {
				vs = append(vs, univ[x%len(univ)])
				m[univ[x%len(univ)]] = true
			}
			sameSet("Push", s.Push(vs...))
		case "remove":
			is("Remove", s.Remove(v), m[v])
			delete(m, v)
		case "containRemove":
			is("ContainAndRemove", s.ContainAndRemove(v), m[v])
			delete(m, v)
		case "clear":
			clear(m)
			sameSet("Clear", s.Clear())
		case "clone":
			put("Clone", s.Clone(), cloneModel(m))
		case "copyFrom":
			for k := range om {
				m[k] = true
			}
			sameSet("CopyFrom", s.CopyFrom(o))
		case "equal":
			is("Equal", s.Equal(o), eqModel(m, om))
			is("Equal", o.Equal(s), eqModel(m, om))
		case "sub":
			sub := true
			for k := range m {
				sub = sub && om[k]
			}
			sup := true
			for k := range om {
				sup = sup && m[k]
			}
			if sub || sup {
				related++
			}
			is("IsSubSet", s.IsSubSet(o), sub)
			is("IsSupperSet", s.IsSupperSet(o), sup)
			is("IsSubSet", o.IsSubSet(s), sup)
			is("IsSupperSet", o.IsSupperSet(s), sub)
		case "diff", "symdiff", "inter":
			want := model[T]{}
			for _, k := range univ {
				x, y := m[k], om[k]
				if op.K == "diff" && x && !y || op.K == "symdiff" && x != y || op.K == "inter" && x && y {
					want[k] = true
				}
			}
			switch op.K {
			case "diff":
				put("Difference", s.Difference(o), want)
			case "symdiff":
				put("SymmetricDifference", s.SymmetricDifference(o), want)
			case "inter":
				put("Intersection", s.Intersection(o), want)
			}
		case "union":
			want := cloneModel(m)
			var args []set.Set[T]
			for _, x := range op.V {
				i := x % (nSets + 1)
				args = append(args, ss[i])
				for k := range ms[i] {
					want[k] = true
				}
			}
			put("Union", s.Union(args...), want)
		case "stop":
			cnt, stop := 0, op.C%4+1
			s.Range(func(T) bool { cnt++; return cnt < stop })
			if cnt != min(stop, len(m)) {
				err = fmt.Errorf("Range told to stop at %d visited %d", stop, cnt)
			}
		}
		if err != nil {
			return fmt.Errorf("op %d %v: %w", n, op, err)
		}
		for i := range ss {
			if e := checkSet(ss[i], ms[i], univ); e != nil {
				return fmt.Errorf("after op %d %v: set %d: %w", n, op, i, e)
			}
		}
	}
	r.NonTrivial = combos > 0 && len(c.Ops) > 3
	r.LabelIf(related > 0, "subset or superset holds")
	r.Label(c.Kind)
	return nil
}

func setProps() []pbt.Checker {
	kinds := weighted(map[string]int{"insert": 3, "push": 3, "remove": 2, "sub": 3, "diff": 2, "symdiff": 2, "inter": 2, "union": 2, "clone": 2},
		"insert", "push", "remove", "containRemove", "clear", "clone", "copyFrom", "equal", "sub", "diff", "symdiff", "inter", "union", "stop")
	return []pbt.Checker{pbt.Prop[setCase]{
		Name: "set-history", Quick: 60000,
		Rule: "up to 30 operations on four sets (and a nil one as operand), results kept and modified later, every set compared with a model after every step; non-trivial: more than 3 operations with at least one combining operation",
		Gen: func(t *rapid.T) setCase {
			return setCase{Kind: rapid.SampledFrom([]string{"int", "string", "float64", "int8"}).Draw(t, "kind"), Ops: genOps(t, 1, 30, func(t *rapid.T) Op {
				op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: pick(t, "a", nSets), B: pick(t, "b", nSets+1), C: pick(t, "c", 12)}
				if op.K == "push" || op.K == "union" {
					op.V = rapid.SliceOfN(rapid.IntRange(0, 11), 0, 5).Draw(t, "v")
				}
				return op
			})}
		},
		Run: func(c setCase, r *pbt.Rec) error {
			switch c.Kind {
			case "string":
				return runSet(c, []string{"", "a", "b", "aa", "ab", "\x00", "z"}, r)
			case "float64":
				return runSet(c, []float64{0, 1, -1, 0.5, 1e300, -1e-300}, r)
			case "int8":
				return runSet(c, []int8{-128, 127, 0}, r)
			}
			return runSet(c, []int{0, 1, 2, 3, 4, 5, 6, 7, 1 << 30, -1, -2, -3}, r)
		},
	}}
}

// ---- genmap

type gmCase struct {
	Ops []Op `json:"ops"`
}

type gm = genmap.GenMap[int, string]

// gmReg is a map and its model; registers made by From/Map share both.
type gmReg struct {
	m     gm
	model map[int]string
}

func checkGM(r gmReg) error {
	if r.m.Len() != len(r.model) {
		return fmt.Errorf("Len()=%d, want %d", r.m.Len(), len(r.model))
	}
	for k := 0; k < 8; k++ {
		want, ok := r.model[k]
		if v, got := r.m.Load(k); v != want || got != ok {
			return fmt.Errorf("Load(%d)=(%q,%v), want (%q,%v)", k, v, got, want, ok)
		}
	}
	var wantK []int
	var wantV []string
	for k, v := range r.model {
		wantK, wantV = append(wantK, k), append(wantV, v)
	}
	ks, vs := append([]int(nil), r.m.Keys()...), append([]string(nil), r.m.Values()...)
	sort.Ints(wantK)
	sort.Strings(wantV)
	sort.Ints(ks)
	sort.Strings(vs)
	if !sameInts(ks, wantK) {
		return fmt.Errorf("Keys()=%v, want %v", ks, wantK)
	}
	if fmt.Sprint(vs) != fmt.Sprint(wantV) {
		return fmt.Errorf("Values()=%v, want %v", vs, wantV)
	}
	n := 0
	bad := false
	all := r.m.Range(func(k int, v string) bool {
		n++
		w, ok := r.model[k]
		bad = bad || !ok || w != v
		return true
	})
	if !all || bad || n != len(r.model) {
		return fmt.Errorf("Range visited %d of %d (completed=%v, wrong entry=%v)", n, len(r.model), all, bad)
	}
	return nil
}

func runGM(c gmCase, r *pbt.Rec) error {
	regs := make([]gmReg, 3)
	for i := range regs {
		regs[i] = gmReg{genmap.New[int, string](), map[int]string{}}
	}
	vals := []string{"", "a", "b", "c"}
	combined, shared := 0, 0
	for n, op := range c.Ops {
		x := regs[op.A%3]
		y := regs[op.B%3]
		dst := op.B % 3
		k, v := op.C%8, vals[(op.C/8)%4]
		old, present := x.model[k]
		var err error
		ret := func(name string, got gm) {
			// methods that return the map return the same storage
			if e := checkGM(gmReg{got, x.model}); e != nil && err == nil {
				err = fmt.Errorf("%s returned another map: %w", name, e)
			}
			regs[op.A%3].m = got // and calls may go on with it
		}
		res := func(gotV string, gotOK bool, wantV string, wantOK bool) {
			if err == nil && (gotV != wantV || gotOK != wantOK) {
				err = fmt.Errorf("returned (%q,%v), want (%q,%v)", gotV, gotOK, wantV, wantOK)
			}
		}
		switch op.K {
		case "store":
			got := x.m.Store(k, v)
			x.model[k] = v
			ret("Store", got)
		case "delete":
			got := x.m.Delete(k)
			delete(x.model, k)
			ret("Delete", got)
		case "los":
			combined++
			a, l := x.m.LoadOrStore(k, v)
			if present {
				res(a, l, old, true)
			} else {
				x.model[k] = v
				res(a, l, v, false)
			}
		case "losf":
			combined++
			calls := 0
			a, l := x.m.LoadOrStoreFunc(k, func() string { calls++; return v })
			if present {
				res(a, l, old, true)
				if calls != 0 {
					err = fmt.Errorf("LoadOrStoreFunc called the function for a present key")
				}
			} else {
				x.model[k] = v
				res(a, l, v, false)
				if calls != 1 {
					err = fmt.Errorf("LoadOrStoreFunc called the function %d times", calls)
				}
			}
		case "lad":
			combined++
			a, l := x.m.LoadAndDelete(k)
			delete(x.model, k)
			res(a, l, old, present)
		case "las":
			combined++
			a, l := x.m.LoadAndStore(k, v)
			x.model[k] = v
			res(a, l, old, present)
		case "clear":
			got := x.m.Clear()
			clear(x.model)
			ret("Clear", got)
		case "clone":
			cl := x.m.Clone()
			nm := map[int]string{}
			for k, v := range x.model {
				nm[k] = v
			}
			if cl == nil {
				err = fmt.Errorf("Clone returned nil")
				break
			}
			regs[dst] = gmReg{cl, nm}
		case "from":
			shared++
			regs[dst] = gmReg{genmap.From(x.m.Map()), x.model}
		case "rawStore":
			shared++
			x.m.Map()[k] = v
			x.model[k] = v
		case "copyTo", "copyToRaw", "copyFrom", "copyFromRaw":
			src, to := x, y
			if op.K == "copyFrom" || op.K == "copyFromRaw" {
				src, to = y, x
			}
			var got gm
			switch op.K {
			case "copyTo":
				got = x.m.CopyTo(y.m)
			case "copyToRaw":
				got = x.m.CopyToRaw(y.m.Map())
			case "copyFrom":
				got = x.m.CopyFrom(y.m)
			case "copyFromRaw":
				got = x.m.CopyFromRaw(y.m.Map())
			}
			for k, v := range src.model {
				to.model[k] = v
			}
			ret(op.K, got)
		case "equal":
			eq := len(x.model) == len(y.model)
			fold := func(a, b string) bool { return a == b }
			switch op.C % 3 {
			case 1:
				fold = func(a, b string) bool { return (a == "") == (b == "") }
			case 2: // not symmetric: the receiver's value comes first
				fold = func(a, b string) bool { return a <= b }
			}
			for k, v := range x.model {
				w, ok := y.model[k]
				eq = eq && ok && fold(v, w)
			}
			if got := x.m.EqualFunc(y.m, fold); got != eq {
				err = fmt.Errorf("EqualFunc=%v, want %v", got, eq)
			}
		case "deleteFunc":
			f := func(k int, v string) bool { return k%2 == op.C%2 && v != vals[(op.C/8)%4] }
			x.m.DeleteFunc(f)
			for k, v := range x.model {
				if f(k, v) {
					delete(x.model, k)
				}
			}
		case "stop":
			cnt, stop := 0, op.C%4+1
			all := x.m.Range(func(int, string) bool { cnt++; return cnt < stop })
			if cnt != min(stop, len(x.model)) || all != (len(x.model) < stop) {
				err = fmt.Errorf("Range told to stop at %d of %d visited %d, completed=%v", stop, len(x.model), cnt, all)
			}
		case "nil":
			var z gm
			if v, ok := z.Load(k); v != "" || ok || z.Len() != 0 || len(z.Keys()) != 0 || !z.Range(func(int, string) bool { return false }) {
				err = fmt.Errorf("a nil map is not empty")
			}
		}
		if err != nil {
			return fmt.Errorf("op %d %v: %w", n, op, err)
		}
		for i := range regs {
			if e := checkGM(regs[i]); e != nil {
				return fmt.Errorf("after op %d %v: map %d: %w", n, op, i, e)
			}
		}
	}
	r.NonTrivial = combined > 0 && len(c.Ops) > 3
	r.LabelIf(shared > 0, "shared storage")
	return nil
}

func genmapProps() []pbt.Checker {
	kinds := weighted(map[string]int{"store": 6, "los": 3, "losf": 3, "lad": 3, "las": 3, "delete": 2},
		"store", "delete", "los", "losf", "lad", "las", "clear", "clone", "from", "rawStore", "copyTo", "copyToRaw", "copyFrom", "copyFromRaw", "equal", "deleteFunc", "stop", "nil")
	return []pbt.Checker{pbt.Prop[gmCase]{
		Name: "genmap-history", Quick: 80000,
		Rule: "up to 40 operations on three maps (possibly sharing storage through From/Map), every map compared with a model after every step; non-trivial: more than 3 operations with at least one combined load/store/delete",
		Gen: func(t *rapid.T) gmCase {
			return gmCase{genOps(t, 1, 40, func(t *rapid.T) Op {
				return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: pick(t, "a", 3), B: pick(t, "b", 3), C: pick(t, "c", 32)}
			})}
		},
		Run: runGM,
	}}
}

// ---- keys that are not equal to themselves

// nanCase: A tells the key (0: NaN), the others are distinct numbers.
type nanCase struct {
	Ops []Op `json:"ops"`
}

// nanModel: the ordinary keys, and how many entries are under NaN. As in every Go map, each
// insertion under NaN makes a further entry, which lookups and deletions do not find.
type nanModel struct {
	keys map[float64]bool
	nans int
}

func (m nanModel) len() int { return len(m.keys) + m.nans }

func runNaN(c nanCase, r *pbt.Rec) error {
	s, g := set.New[float64](), genmap.New[float64, int]()
	m := nanModel{keys: map[float64]bool{}}
	cleared := 0
	for n, op := range c.Ops {
		k := float64(op.A)
		nan := op.A == 0
		if nan {
			k = math.NaN()
		}
		add := func() {
			if nan {
				m.nans++
			} else {
				m.keys[k] = true
			}
		}
		ok, want := true, true
		switch op.K {
		case "insert":
			want = !m.keys[k]
			_, loaded := g.LoadOrStore(k, n)
			ok = s.Insert(k)
			if ok == loaded {
				return fmt.Errorf("op %d: Insert(%v)=%v, LoadOrStore: loaded=%v", n, k, ok, loaded)
			}
			add()
		case "push":
			s.Push(k)
			g.Store(k, n)
			add()
		case "remove":
			want = m.keys[k]
			_, loaded := g.LoadAndDelete(k)
			ok = s.Remove(k)
			if ok != loaded {
				return fmt.Errorf("op %d: Remove(%v)=%v, LoadAndDelete: loaded=%v", n, k, ok, loaded)
			}
			delete(m.keys, k)
		case "clear":
			if m.nans > 0 {
				cleared++
			}
			s.Clear()
			g.Clear()
			m = nanModel{keys: map[float64]bool{}}
		case "clone":
			s, g = s.Clone(), g.Clone()
		}
		if ok != want {
			return fmt.Errorf("op %d: %s(%v)=%v, want %v", n, op.K, k, ok, want)
		}
		visited, pairs := 0, 0
		s.Range(func(float64) bool { visited++; return true })
		g.Range(func(float64, int) bool { pairs++; return true })
		for _, x := range []struct {
			what string
			n    int
		}{{"set Len", s.Len()}, {"set Slice", len(s.Slice())}, {"set Range", visited}, {"genmap Len", g.Len()}, {"genmap Keys", len(g.Keys())}, {"genmap Values", len(g.Values())}, {"genmap Range", pairs}} {
			if x.n != m.len() {
				return fmt.Errorf("after op %d %v: %s gives %d, want %d (%d of them under NaN)", n, op, x.what, x.n, m.len(), m.nans)
			}
		}
		if s.IsEmpty() != (m.len() == 0) {
			return fmt.Errorf("after op %d %v: IsEmpty()=%v with %d elements", n, op, s.IsEmpty(), m.len())
		}
	}
	r.NonTrivial = cleared > 0
	return nil
}

// nanKeys: NaN, which is not equal to itself, as key of sets and maps.
func nanKeys(what string) pbt.Checker {
	return pbt.Prop[nanCase]{
		Name: what + "-nan", Quick: 5000,
		Rule: "up to 20 operations on a set and a map with NaN among the keys: what was inserted is counted, copied by Clone and gone after Clear; non-trivial: a Clear with NaN inside",
		Gen: func(t *rapid.T) nanCase {
			return nanCase{genOps(t, 1, 20, func(t *rapid.T) Op {
				return Op{K: rapid.SampledFrom([]string{"insert", "insert", "push", "push", "remove", "clear", "clone"}).Draw(t, "k"), A: pick(t, "a", 4)}
			})}
		},
		Run: runNaN,
	}
}

func TestC20(t *testing.T) { pbt.Main(t, "C20", append(setProps(), setLarge(), nanKeys("set"))...) }
func TestC21(t *testing.T) {
	pbt.Main(t, "C21", append(genmapProps(), genmapLarge(), nanKeys("genmap"))...)
}
