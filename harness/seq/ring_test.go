package seq

import (
	stdring "container/ring"
	"fmt"
	"testing"

	"github.com/zijiren233/gencontainer/ring"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type ringCase struct {
	Ops []Op `json:"ops"`
}

type ringWorld struct {
	g   []*ring.Ring[int]
	s   []*stdring.Ring
	idG map[*ring.Ring[int]]int
	idS map[*stdring.Ring]int
}

func (w *ringWorld) add(g *ring.Ring[int], s *stdring.Ring) {
	id := len(w.g)
	w.g, w.s = append(w.g, g), append(w.s, s)
	w.idG[g], w.idS[s] = id, id
	g.Value, s.Value = id, id
}

// pair checks that two returned nodes correspond.
func (w *ringWorld) pair(g *ring.Ring[int], s *stdring.Ring) error {
	if (g == nil) != (s == nil) {
		return fmt.Errorf("nil ring: got %v, want %v", g == nil, s == nil)
	}
	if g == nil {
		return nil
	}
	ig, ok := w.idG[g]
	if !ok {
		return fmt.Errorf("returned an unknown node")
	}
	if is := w.idS[s]; ig != is {
		return fmt.Errorf("returned node %d, want %d", ig, is)
	}
	return nil
}

func (w *ringWorld) walk(i int) error {
	g, s := w.g[i], w.s[i]
	for n := 0; n <= len(w.g); n++ {
		g, s = g.Next(), s.Next()
		if err := w.pair(g, s); err != nil {
			return fmt.Errorf("Next walk from %d: %w", i, err)
		}
	}
	for n := 0; n <= len(w.g); n++ {
		g, s = g.Prev(), s.Prev()
		if err := w.pair(g, s); err != nil {
			return fmt.Errorf("Prev walk from %d: %w", i, err)
		}
	}
	return nil
}

func runRing(c ringCase, r *pbt.Rec) error {
	w := &ringWorld{idG: map[*ring.Ring[int]]int{}, idS: map[*stdring.Ring]int{}}
	links, selfs, unlinks := 0, 0, 0
	for i, op := range c.Ops {
		var err error
		if len(w.g) == 0 && op.K != "new" && op.K != "zero" {
			continue
		}
		var g, gb *ring.Ring[int]
		var s, sb *stdring.Ring
		if len(w.g) > 0 {
			g, s = w.g[op.A%len(w.g)], w.s[op.A%len(w.g)]
			gb, sb = w.g[op.B%len(w.g)], w.s[op.B%len(w.g)]
		}
		switch op.K {
		case "new":
			n := op.C%9 - 1
			if op.C > 25 {
				n = op.C % 50
			}
			if len(w.g)+n > 120 {
				continue
			}
			g, s := ring.New[int](n), stdring.New(n)
			if (g == nil) != (s == nil) {
				return fmt.Errorf("op %d: New(%d) nil=%v, want %v", i, n, g == nil, s == nil)
			}
			for k := 0; k < n; k++ {
				if _, dup := w.idG[g]; dup {
					return fmt.Errorf("op %d: New(%d) made a ring of %d", i, n, k)
				}
				w.add(g, s)
				g, s = g.Next(), s.Next()
			}
			if n > 0 {
				err = w.pair(g, s)
			} else if g.Len() != 0 {
				return fmt.Errorf("op %d: a nil ring has Len %d", i, g.Len())
			} else {
				g.Do(func(int) { err = fmt.Errorf("Do on a nil ring calls back") })
			}
		case "zero":
			if len(w.g) < 60 {
				w.add(&ring.Ring[int]{}, &stdring.Ring{})
			}
		case "next":
			err = w.pair(g.Next(), s.Next())
		case "prev":
			err = w.pair(g.Prev(), s.Prev())
		case "move":
			err = w.pair(g.Move(op.C), s.Move(op.C))
		case "link":
			err = w.pair(g.Link(gb), s.Link(sb))
			links++
			if g == gb {
				selfs++
			}
		case "linkNil":
			err = w.pair(g.Link(nil), s.Link(nil))
		case "unlink":
			err = w.pair(g.Unlink(op.C), s.Unlink(op.C))
			if op.C > 0 {
				unlinks++
			}
		case "len":
			if a, b := g.Len(), s.Len(); a != b {
				err = fmt.Errorf("Len()=%d, want %d", a, b)
			}
		case "do":
			var a, b []int
			g.Do(func(v int) {
				if len(a) > 200 {
					panic("Do does not end")
				}
				a = append(a, v)
			})
			s.Do(func(v any) { b = append(b, v.(int)) })
			if !sameInts(a, b) {
				err = fmt.Errorf("Do visited %v, want %v", a, b)
			}
		case "walk":
			err = w.walk(op.A % len(w.g))
		}
		if err != nil {
			return fmt.Errorf("op %d %v: %w", i, op, err)
		}
	}
	for i := range w.g {
		if err := w.walk(i); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
		if a, b := w.g[i].Len(), w.s[i].Len(); a != b {
			return fmt.Errorf("at the end: Len of %d is %d, want %d", i, a, b)
		}
		if w.g[i].Value != i {
			return fmt.Errorf("at the end: value of node %d is %d", i, w.g[i].Value)
		}
	}
	r.NonTrivial = links+unlinks > 0 && len(w.g) > 1
	r.LabelIf(selfs > 0, "linked to itself")
	r.LabelIf(unlinks > 0, "unlinked")
	return nil
}

func ringProps() []pbt.Checker {
	kinds := weighted(map[string]int{"new": 3, "zero": 2, "link": 5, "unlink": 4, "move": 2}, "new", "zero", "next", "prev", "move", "link", "linkNil", "unlink", "len", "do", "walk")
	return []pbt.Checker{pbt.Prop[ringCase]{
		Name: "ring-differential", Quick: 60000,
		Rule: "up to 40 operations on several rings run on ring.Ring and container/ring side by side, nodes compared by identity, all nodes walked both ways at the end; non-trivial: at least one Link or Unlink with more than one node",
		Gen: func(t *rapid.T) ringCase {
			return ringCase{genOps(t, 1, 40, func(t *rapid.T) Op {
				return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: rapid.IntRange(0, 59).Draw(t, "a"), B: rapid.IntRange(0, 59).Draw(t, "b"), C: rapid.OneOf(rapid.IntRange(-12, 25), rapid.IntRange(-12, 25), rapid.IntRange(-12, 25), rapid.IntRange(-400, 400)).Draw(t, "c")}
			})}
		},
		Run: runRing,
	}}
}

func TestC19(t *testing.T) { pbt.Main(t, "C19", append(ringProps(), ringLarge())...) }
