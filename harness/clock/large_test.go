package clock

import (
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Caches of many entries, a share of which expires.
type bigCase struct {
	N    int    `json:"n"`
	Live int    `json:"live"` // of 5 entries, this many outlive the case
	Op   string `json:"op"`
	Cb   bool   `json:"cb"`
	Seed uint32 `json:"seed"`
}

func runBig(c bigCase, results, reports bool, r *pbt.Rec) error {
	x := uint64(c.Seed)*2 + 1
	draw := func(k int) int {
		x = x*6364136223846793005 + 1442695040888963407
		return int((x >> 33) % uint64(k))
	}
	got := map[int]int{} // reports by value
	var conf []synccache.SyncCacheConfig[int, int]
	if c.Cb {
		conf = append(conf, synccache.WithDeletedCallback[int, int](func(v int) { got[v]++ }))
	}
	sc := synccache.NewSyncCache[int, int](0, conf...)
	defer sc.Close()
	val, live := make([]int, c.N), make([]bool, c.N)
	replaced := map[int]bool{}
	nlive := 0
	for i := range val {
		val[i], live[i] = i, draw(5) < c.Live
		if draw(20) == 0 {
			sc.Store(i, i, time.Hour)
			replaced[i] = true
			val[i] = i + 1000000
		}
		d := time.Second
		if live[i] {
			d = time.Hour
			nlive++
		}
		sc.Store(i, val[i], d)
	}
	r.NonTrivial = c.N > 100
	time.Sleep(2 * time.Second)
	seen := func() (map[int]int, error) {
		m := map[int]int{}
		var err error
		sc.Range(func(k int, e *synccache.Entry[int]) bool {
			if _, again := m[k]; again {
				err = fmt.Errorf("Range visits %d twice", k)
			}
			m[k] = e.Value()
			return true
		})
		return m, err
	}
	check := func(what string, k int, e *synccache.Entry[int], ok bool) error {
		if ok != live[k] || ok && e.Value() != val[k] {
			return fmt.Errorf("%s(%d) of %d entries: found %v, want %v", what, k, c.N, ok, live[k])
		}
		return nil
	}
	var err error
	cleared, deleted := false, false
	switch c.Op {
	case "range":
		m, e := seen()
		if err = e; err != nil {
			break
		}
		for k, v := range m {
			if !live[k] || v != val[k] {
				err = fmt.Errorf("Range visits (%d,%d), live: %v", k, v, live[k])
			}
		}
		if err == nil && len(m) != nlive {
			err = fmt.Errorf("Range visits %d of %d live entries", len(m), nlive)
		}
	case "load":
		for k := range val {
			if e, ok := sc.Load(k); err == nil {
				err = check("Load", k, e, ok)
			}
		}
	case "lad":
		for k := range val {
			if e, ok := sc.LoadAndDelete(k); err == nil {
				err = check("LoadAndDelete", k, e, ok)
			}
		}
		deleted = true
	case "clear":
		sc.Clear()
		if m, _ := seen(); len(m) != 0 {
			err = fmt.Errorf("%d of %d entries after Clear", len(m), c.N)
		}
		cleared = true
	case "sweep":
		time.Sleep(11 * time.Second)
	}
	if err != nil && results {
		return err
	}
	if !c.Cb || !reports {
		return nil
	}
	// what must have been reported by now, what may have been, and nothing else
	for k, v := range val {
		n := got[v]
		must := cleared || deleted || !live[k] && c.Op != "none"
		if n > 1 || must && n == 0 || n > 0 && live[k] && !cleared && !deleted {
			return fmt.Errorf("%s of %d entries: the entry of %d (live: %v) was reported %d times", c.Op, c.N, k, live[k], n)
		}
		if replaced[k] && got[k] > 0 && k != v {
			return fmt.Errorf("a replaced live value was reported")
		}
	}
	sc.Clear()
	for k, v := range val {
		if n := got[v]; n != 1 {
			return fmt.Errorf("after %s and Clear of %d entries, the entry of %d (live: %v) was reported %d times", c.Op, c.N, k, live[k], n)
		}
	}
	return nil
}

// SyncCacheLarge checks the results of lookups, or what is reported to the callback.
func SyncCacheLarge(results, reports bool, ops ...string) pbt.Checker {
	return pbt.Prop[bigCase]{
		Name: "synccache-large", Quick: 100,
		Rule: "caches of up to 3000 entries (one case in 20: 10000 to 67000), a generated share of which has expired, under one of " + fmt.Sprint(ops) + "; non-trivial: more than 100 entries",
		Gen: func(t *rapid.T) bigCase {
			n := 0
			if rapid.IntRange(0, 19).Draw(t, "huge") == 19 {
				n = rapid.SampledFrom([]int{10000, 32000, 65000}).Draw(t, "base") + rapid.IntRange(0, 2000).Draw(t, "n")
			} else {
				n = rapid.IntRange(0, rapid.SampledFrom([]int{50, 600, 3000}).Draw(t, "hi")).Draw(t, "n")
			}
			return bigCase{N: n, Live: rapid.IntRange(0, 5).Draw(t, "live"), Op: rapid.SampledFrom(ops).Draw(t, "op"), Cb: reports || rapid.Bool().Draw(t, "cb"), Seed: rapid.Uint32().Draw(t, "seed")}
		},
		Run: func(c bigCase, r *pbt.Rec) error { return runBig(c, results, reports, r) },
	}
}
