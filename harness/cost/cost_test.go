// Package cost checks that operations stay within the complexity of their data structure:
// comparisons are counted, allocated bytes are measured, and long runs of operations that
// should not depend on the size of the container are made on large ones.
package cost

import (
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

type lcg struct{ x uint64 }

func (g *lcg) n(k int) int {
	if k <= 0 {
		return 0
	}
	g.x = g.x*6364136223846793005 + 1442695040888963407
	return int((g.x >> 33) % uint64(k))
}

// log is the number of levels of a binary tree of n nodes.
func log(n int) int { return bits.Len(uint(n)) }

// subject is a container under use. Each of ops performs one operation that should cost
// constant or logarithmic time, each of whole one that may look at every element.
type subject struct {
	ops, whole map[string]func()
	size       func() int
	end        func() // if not nil: to be called when done
}

type costCase struct {
	Kind   string   `json:"kind"`
	N      int      `json:"n"`
	Phases []string `json:"phases"` // each is performed N times (whole-container ones: once)
	Seed   uint32   `json:"seed"`
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func cpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func names(m map[string]func()) (s []string) {
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func genCost(lo, hi int) func(*rapid.T) costCase {
	var ks []string
	phases := map[string][]string{}
	for k, mk := range subjects {
		ks = append(ks, k)
		s := mk(8, &lcg{1})
		if s.end != nil {
			s.end()
		}
		o, w := names(s.ops), names(s.whole)
		phases[k] = append(append(append([]string{}, o...), o...), w...)
	}
	sort.Strings(ks)
	for _, k := range ks[:len(ks):len(ks)] { // the more operations, the more often
		for i := 0; i < len(phases[k])/8; i++ {
			ks = append(ks, k)
		}
	}
	return func(t *rapid.T) costCase {
		k := rapid.SampledFrom(ks).Draw(t, "kind")
		return costCase{
			Kind:   k,
			N:      rapid.IntRange(lo, hi).Draw(t, "n"),
			Phases: rapid.SliceOfN(rapid.SampledFrom(phases[k]), 1, 6).Draw(t, "phases"),
			Seed:   rapid.Uint32().Draw(t, "seed"),
		}
	}
}

// Allocation: an operation on one element allocates a bounded amount on average, one on
// the whole container an amount in proportion to its size.
func allocCost() pbt.Checker {
	return pbt.Prop[costCase]{
		Name: "cost-alloc", Quick: 400,
		Rule: "containers of 2000 to 6000 elements, 1 to 6 phases of as many equal operations on single elements, or one on the whole container; bytes allocated: at most 4 KB an operation on average (whole container: 2 KB an element); non-trivial: all",
		Gen:  genCost(2000, 6000),
		Run: func(c costCase, r *pbt.Rec) error {
			r.NonTrivial = true
			g := &lcg{uint64(c.Seed)*2 + 1}
			s := subjects[c.Kind](c.N, g)
			if s.end != nil {
				defer s.end()
			}
			for i, p := range c.Phases {
				f, single := s.ops[p], true
				n := c.N
				if f == nil {
					f, single, n = s.whole[p], false, 1
				}
				if f == nil {
					continue
				}
				r.Label(c.Kind + "." + p)
				size := max(s.size(), c.N)
				a := allocated()
				for j := 0; j < n; j++ {
					f()
				}
				got := allocated() - a
				size = max(s.size(), size)
				if single && got > uint64(4096*n+2048*size+1<<18) || !single && got > uint64(2048*size+1<<18) {
					return fmt.Errorf("phase %d: %d x %s of %s on %d elements allocates %d bytes", i, n, p, c.Kind, size, got)
				}
			}
			return nil
		},
	}
}

const cpuBound = 5 * time.Second // what is within bounds takes some 0.1 s

func timeCost() pbt.Checker {
	return pbt.Prop[costCase]{
		Name: "cost-steps", Quick: 60,
		Rule: "containers of 200000 to 300000 elements, 1 to 6 phases of as many equal operations on single elements, or one on the whole container: a phase uses less than 5 s of processor time (within bounds it takes some 0.1 s, if each operation walked the container it would take 15 s or more); non-trivial: all",
		Gen:  genCost(200000, 300000),
		Run: func(c costCase, r *pbt.Rec) error {
			r.NonTrivial = true
			g := &lcg{uint64(c.Seed)*2 + 1}
			s := subjects[c.Kind](c.N, g)
			if s.end != nil {
				defer s.end()
			}
			for i, p := range c.Phases {
				f, n := s.ops[p], c.N
				if f == nil {
					f, n = s.whole[p], 1
				}
				if f == nil {
					continue
				}
				r.Label(c.Kind + "." + p)
				t := cpu()
				for j := 0; j < n; j++ {
					f()
					if j%64 == 0 || n == 1 {
						if d := cpu() - t; d > cpuBound {
							return fmt.Errorf("phase %d: %d of %d x %s of %s on %d elements take more than %v of processor time", i, j+1, n, p, c.Kind, c.N, cpuBound)
						}
					}
				}
			}
			return nil
		},
	}
}

func TestC32(t *testing.T) {
	pbt.Main(t, "C32", heapCost(), vecSortCost(), listSortCost(), searchCost(), allocCost(), timeCost())
}
