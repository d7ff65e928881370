// Package mem checks that containers do not grow by being used: a short generated cycle of
// operations that keeps the contents small is repeated thousands of times, and the
// memory in use must not follow the number of repetitions.
package mem

import (
	"fmt"
	"runtime"
	"sort"
	"testing"
	"testing/synctest"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Op is one operation of the cycle.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
}

// memCase repeats Cycle: each round performs its operations, of which some add a new element, and
// then removes the oldest elements (or what the removal takes) while there are more than Live.
type memCase struct {
	Kind  string   `json:"kind"`
	Cycle []Op     `json:"cycle"`
	Rm    []string `json:"rm"` // how elements are removed, in turn
	Live  int      `json:"live"`
}

// subject is a container under use.
type subject interface {
	op(o Op)           // one operation of the cycle
	live() int         // elements it holds
	remove(how string) // takes at least one element out
}

type kind struct {
	ops, rm []string
	make    func() subject
}

const rounds = 3000

type payload [6]int64 // what is stored: big enough for its retention to show

//go:noinline
func newPayload(n int) *payload { return &payload{int64(n)} }

func inUse() (bytes int64, goroutines int) {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), runtime.NumGoroutine()
}

func churn(s subject, c memCase, rm *int, n int) {
	for i := 0; i < n; i++ {
		for _, o := range c.Cycle {
			s.op(o)
		}
		for s.live() > c.Live {
			s.remove(c.Rm[*rm%len(c.Rm)])
			*rm++
		}
	}
}

func run(kinds map[string]kind) func(memCase, *pbt.Rec) error {
	return func(c memCase, r *pbt.Rec) error {
		s := kinds[c.Kind].make()
		rm := 0
		churn(s, c, &rm, rounds)
		if f, ok := s.(interface{ settle() }); ok {
			f.settle()
		}
		before, g0 := inUse()
		rm0 := rm
		churn(s, c, &rm, 2*rounds)
		if f, ok := s.(interface{ settle() }); ok {
			f.settle()
		}
		after, g1 := inUse()
		runtime.KeepAlive(s)
		if f, ok := s.(interface{ end() }); ok {
			f.end()
		}
		r.NonTrivial = rm-rm0 >= rounds
		r.Label(c.Kind)
		// an element kept back for each round would be some 50 bytes or more
		if grown := after - before; grown > 2*rounds*10 {
			return fmt.Errorf("%s: %d rounds that never leave more than %d elements make it hold %d bytes more", c.Kind, 2*rounds, c.Live, grown)
		}
		if g1 > g0+100 {
			return fmt.Errorf("%s: %d rounds leave %d goroutines more", c.Kind, 2*rounds, g1-g0)
		}
		return nil
	}
}

func gen(kinds map[string]kind) func(*rapid.T) memCase {
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	return func(t *rapid.T) memCase {
		k := rapid.SampledFrom(names).Draw(t, "kind")
		kd := kinds[k]
		return memCase{
			Kind: k,
			Cycle: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
				return Op{K: rapid.SampledFrom(kd.ops).Draw(t, "k"), A: rapid.IntRange(0, 5).Draw(t, "a")}
			}), 1, 4).Draw(t, "cycle"),
			Rm:   rapid.SliceOfN(rapid.SampledFrom(kd.rm), 1, 2).Draw(t, "rm"),
			Live: rapid.SampledFrom([]int{0, 1, 2, 5, 20, 60}).Draw(t, "live"),
		}
	}
}

func TestC30(t *testing.T) {
	pbt.StartWatchdog()
	synctest.Test(t, func(t *testing.T) {
		maps, caches, rest := mapKinds(), cacheKinds(), restKinds()
		pbt.Main(t, "C30",
			pbt.Prop[memCase]{Name: "memory-maps", Quick: 600, Gen: gen(maps), Run: run(maps),
				Rule: "a cycle of 1 to 4 operations on an RWMap, Lhashmap, GenMap or Set, with new keys each time and the oldest removed in generated ways so that at most 60 entries are left, repeated 9000 times; the heap in use after 9000 rounds is compared with that after 3000; non-trivial: at least one removal for each 2 rounds"},
			pbt.Prop[memCase]{Name: "memory-caches", Quick: 400, Gen: gen(caches), Run: run(caches),
				Rule: "the same on SyncCaches (removal also by expiry, on a fake clock, with sweeps), on the creation and closing of SyncCaches, and on the refresh caches"},
			pbt.Prop[memCase]{Name: "memory-sequences", Quick: 600, Gen: gen(rest), Run: run(rest),
				Rule: "the same on lists, vectors, heaps, queues, rings, trees and hash rings"},
		)
	})
}
