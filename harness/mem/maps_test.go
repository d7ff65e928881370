package mem

import (
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
)

// window is the sequence of keys present, oldest first.
type window struct {
	keys []int
	next int
}

func (w *window) live() int { return len(w.keys) }

func (w *window) fresh() int {
	w.next++
	w.keys = append(w.keys, w.next)
	return w.next
}

func (w *window) oldest() int {
	k := w.keys[0]
	n := copy(w.keys, w.keys[1:])
	w.keys = w.keys[:n]
	return k
}

func (w *window) newest() int {
	k := w.keys[len(w.keys)-1]
	w.keys = w.keys[:len(w.keys)-1]
	return k
}

func (w *window) clear() { w.keys = w.keys[:0] }

// some is a key that is present (0 if there is none).
func (w *window) some(a int) int {
	if len(w.keys) == 0 {
		return 0
	}
	return w.keys[a*7%len(w.keys)]
}

type rwSubject struct {
	window
	m rwmap.RWMap[int, *payload]
}

func (s *rwSubject) op(o Op) {
	switch o.K {
	case "store":
		s.m.Store(s.fresh(), newPayload(1))
	case "los":
		s.m.LoadOrStore(s.fresh(), newPayload(1))
	case "swap":
		s.m.Swap(s.fresh(), newPayload(1))
	case "again":
		if k := s.some(o.A); k != 0 {
			s.m.Store(k, newPayload(2))
		}
	case "cas":
		if k := s.some(o.A); k != 0 {
			p, _ := s.m.Load(k)
			s.m.CompareAndSwap(k, p, newPayload(3))
		}
	case "load":
		s.m.Load(s.some(o.A))
	case "miss":
		s.m.Load(-1 - o.A)
	case "misscad":
		s.m.CompareAndDelete(-1-o.A, nil)
	case "misscas":
		s.m.CompareAndSwap(-1-o.A, nil, nil)
	case "missdel":
		s.m.Delete(-1 - o.A)
	case "range":
		n := 0
		s.m.Range(func(int, *payload) bool { n++; return n <= o.A })
	case "len":
		s.m.Len()
	}
}

func (s *rwSubject) remove(how string) {
	switch how {
	case "del":
		s.m.Delete(s.oldest())
	case "delNew":
		s.m.Delete(s.newest())
	case "lad":
		s.m.LoadAndDelete(s.oldest())
	case "cad":
		k := s.oldest()
		p, _ := s.m.Load(k)
		s.m.CompareAndDelete(k, p)
	case "cadRange":
		k := s.newest()
		var p *payload
		s.m.Range(func(x int, v *payload) bool {
			if x == k {
				p = v
			}
			return x != k
		})
		s.m.CompareAndDelete(k, p)
	case "clear":
		s.m.Clear()
		s.clear()
	case "rangeDel":
		s.m.Range(func(k int, _ *payload) bool { s.m.Delete(k); return true })
		s.clear()
	}
}

// rwHeld removes by comparing with values the user kept, without looking the key up.
type rwHeld struct {
	rwSubject
	vals map[int]*payload
}

func (s *rwHeld) op(o Op) {
	switch o.K {
	case "store", "los", "swap":
		k, p := s.fresh(), newPayload(1)
		s.vals[k] = p
		switch o.K {
		case "store":
			s.m.Store(k, p)
		case "los":
			s.m.LoadOrStore(k, p)
		case "swap":
			s.m.Swap(k, p)
		}
	case "cas":
		if k := s.some(o.A); k != 0 {
			p := newPayload(2)
			s.m.CompareAndSwap(k, s.vals[k], p)
			s.vals[k] = p
		}
	default:
		s.rwSubject.op(o)
	}
}

func (s *rwHeld) remove(how string) {
	k := s.some(len(how))
	switch how {
	case "cad":
		k = s.oldest()
	case "cadNew":
		k = s.newest()
	}
	s.m.CompareAndDelete(k, s.vals[k])
	delete(s.vals, k)
}

type lhSubject struct {
	window
	m *lhashmap.Lhashmap[int, *payload]
}

func (s *lhSubject) op(o Op) {
	switch o.K {
	case "store":
		s.m.Store(s.fresh(), newPayload(1))
	case "again":
		if k := s.some(o.A); k != 0 {
			s.m.Store(k, newPayload(2))
		}
	case "load":
		s.m.Load(s.some(o.A))
	case "miss":
		s.m.Load(-1)
	case "range":
		s.m.Range(func(int, *payload) bool { return o.A > 2 })
	}
}

func (s *lhSubject) remove(how string) {
	switch how {
	case "remove":
		s.m.Remove(s.oldest())
	case "removeNew":
		s.m.Remove(s.newest())
	case "clear":
		s.m.Clear()
		s.clear()
	}
}

type gmSubject struct {
	window
	m genmap.GenMap[int, *payload]
}

func (s *gmSubject) op(o Op) {
	switch o.K {
	case "store":
		s.m.Store(s.fresh(), newPayload(1))
	case "los":
		s.m.LoadOrStore(s.fresh(), newPayload(1))
	case "losf":
		s.m.LoadOrStoreFunc(s.fresh(), func() *payload { return newPayload(1) })
	case "las":
		s.m.LoadAndStore(s.fresh(), newPayload(1))
	case "miss":
		s.m.Load(-1)
	case "copy":
		o := genmap.New[int, *payload]()
		s.m.CopyTo(o)
		s.m.CopyFrom(o)
	}
}

func (s *gmSubject) remove(how string) {
	switch how {
	case "del":
		s.m.Delete(s.oldest())
	case "lad":
		s.m.LoadAndDelete(s.newest())
	case "delfunc":
		k := s.oldest()
		s.m.DeleteFunc(func(x int, _ *payload) bool { return x == k })
	case "clear":
		s.m.Clear()
		s.clear()
	}
}

type setSubject struct {
	window
	m set.Set[int]
}

func (s *setSubject) op(o Op) {
	switch o.K {
	case "insert":
		s.m.Insert(s.fresh())
	case "push":
		s.m.Push(s.fresh(), s.fresh())
	case "miss":
		s.m.Remove(-1)
	case "combine":
		s.m.Union(s.m).Difference(s.m.Intersection(s.m))
	}
}

func (s *setSubject) remove(how string) {
	switch how {
	case "remove":
		s.m.Remove(s.oldest())
	case "car":
		s.m.ContainAndRemove(s.newest())
	case "clear":
		s.m.Clear()
		s.clear()
	}
}

func mapKinds() map[string]kind {
	adds := []string{"store", "store", "store", "los", "swap"}
	rest := []string{"again", "cas", "load", "miss", "misscad", "misscas", "missdel", "range", "len"}
	return map[string]kind{
		"rwmap": {append(adds, rest...), []string{"del", "delNew", "lad", "cad", "cadRange", "clear", "rangeDel"}, func() subject { return &rwSubject{} }},
		"rwmap by value": {append(adds, rest[1:]...), []string{"cad", "cadNew"}, func() subject {
			return &rwHeld{vals: map[int]*payload{}}
		}},
		"lhashmap": {[]string{"store", "store", "again", "load", "miss", "range"}, []string{"remove", "removeNew", "clear"}, func() subject {
			return &lhSubject{m: lhashmap.New[int, *payload]()}
		}},
		"genmap": {[]string{"store", "los", "losf", "las", "miss", "copy"}, []string{"del", "lad", "delfunc", "clear"}, func() subject {
			return &gmSubject{m: genmap.New[int, *payload]()}
		}},
		"set": {[]string{"insert", "push", "miss", "combine"}, []string{"remove", "car", "clear"}, func() subject {
			return &setSubject{m: set.New[int]()}
		}},
	}
}
