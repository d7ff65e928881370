package seq

import (
	"fmt"
	"testing"

	"github.com/zijiren233/gencontainer/lhashmap"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type lhCase struct {
	Str bool `json:"str,omitempty"` // string keys instead of ints
	Cap int  `json:"cap"`           // -1: no WithCap
	Ops []Op `json:"ops"`
}

type lhCell[K comparable] struct {
	k K
	v int
}

func runLH[K comparable](c lhCase, key func(int) K, r *pbt.Rec) error {
	var conf []lhashmap.LHashMapConf[K, int]
	if c.Cap >= 0 {
		conf = append(conf, lhashmap.WithCap[K, int](c.Cap))
	}
	m := lhashmap.New(conf...)
	var model []lhCell[K] // most recently used first
	find := func(k K) int {
		for i := range model {
			if model[i].k == k {
				return i
			}
		}
		return -1
	}
	front := func(i int) {
		c := model[i]
		copy(model[1:i+1], model[:i])
		model[0] = c
	}
	reorders, removed := 0, 0
	verify := func() error {
		if m.Len() != len(model) {
			return fmt.Errorf("Len()=%d, want %d", m.Len(), len(model))
		}
		i := 0
		var err error
		m.Range(func(k K, v int) bool {
			if i >= len(model) {
				err = fmt.Errorf("Range visits more than %d entries", len(model))
				return false
			}
			if k != model[i].k || v != model[i].v {
				err = fmt.Errorf("Range position %d: (%v,%d), want (%v,%d)", i, k, v, model[i].k, model[i].v)
				return false
			}
			i++
			return true
		})
		if err == nil && i != len(model) {
			err = fmt.Errorf("Range visited %d of %d entries", i, len(model))
		}
		return err
	}
	for n, op := range c.Ops {
		k := key(op.A)
		i := find(k)
		switch op.K {
		case "load":
			v, ok := m.Load(k)
			if ok != (i >= 0) || (ok && v != model[i].v) || (!ok && v != 0) {
				return fmt.Errorf("op %d: Load(%v)=(%d,%v)", n, k, v, ok)
			}
			if i > 0 {
				front(i)
				reorders++
			}
		case "store":
			m.Store(k, op.B)
			if i >= 0 {
				model[i].v = op.B
				front(i)
				reorders++
			} else {
				model = append([]lhCell[K]{{k, op.B}}, model...)
			}
		case "remove":
			m.Remove(k)
			if i >= 0 {
				model = append(model[:i:i], model[i+1:]...)
				removed++
			}
		case "clear":
			m.Clear()
			removed += len(model)
			model = nil
		case "stop":
			cnt, stop := 0, (op.B+3)%4+1
			m.Range(func(K, int) bool { cnt++; return cnt < stop })
			want := min(stop, len(model))
			if cnt != want {
				return fmt.Errorf("op %d: Range told to stop at %d visited %d", n, stop, cnt)
			}
		}
		if err := verify(); err != nil {
			return fmt.Errorf("after op %d %v: %w", n, op, err)
		}
	}
	r.NonTrivial = reorders > 0 && removed > 0
	r.LabelIf(reorders > 0, "reordered")
	r.LabelIf(removed > 0, "removed")
	return nil
}

func lhashmapProps() []pbt.Checker {
	kinds := weighted(map[string]int{"store": 6, "load": 4, "remove": 3}, "store", "load", "remove", "clear", "stop")
	return []pbt.Checker{pbt.Prop[lhCase]{
		Name: "lhashmap-history", Quick: 120000,
		Rule: "up to 60 Store/Load/Remove/Clear/Range over up to 12 keys, oracle: an ordered list most recent first, compared after every step; non-trivial: an entry was reordered and one removed",
		Gen: func(t *rapid.T) lhCase {
			nk := rapid.SampledFrom([]int{2, 4, 12}).Draw(t, "keys")
			return lhCase{Str: rapid.Bool().Draw(t, "str"), Cap: rapid.SampledFrom([]int{-1, 0, 1, 100}).Draw(t, "cap"),
				Ops: genOps(t, 1, 60, func(t *rapid.T) Op {
					return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: pick(t, "key", nk), B: rapid.IntRange(-3, 100).Draw(t, "v")}
				})}
		},
		Run: func(c lhCase, r *pbt.Rec) error {
			if c.Str {
				return runLH(c, func(i int) string { return fmt.Sprint("k", i) }, r)
			}
			return runLH(c, func(i int) int { return i }, r)
		},
	}}
}

func TestC16(t *testing.T) { pbt.Main(t, "C16", append(lhashmapProps(), lhashmapLarge())...) }
