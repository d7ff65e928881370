package seq

import (
	"fmt"

	"pgregory.net/rapid"
)

// Op is one generated operation: a kind and small integer arguments.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	V []int  `json:"v,omitempty"`
}

func (o Op) String() string { return fmt.Sprintf("%s(%d,%d,%d,%v)", o.K, o.A, o.B, o.C, o.V) }

// weighted repeats each name by its weight, for SampledFrom.
func weighted(w map[string]int, order ...string) []string {
	var out []string
	for _, k := range order {
		n := w[k]
		if n <= 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			out = append(out, k)
		}
	}
	return out
}

func pick(t *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }

// genOps draws between lo and hi operations.
func genOps(t *rapid.T, lo, hi int, one func(*rapid.T) Op) []Op {
	// rapid prefers short slices; a drawn lower bound gives long histories their share
	least := rapid.SampledFrom([]int{lo, lo, max(lo, hi/3), max(lo, hi*3/4)}).Draw(t, "least")
	return rapid.SliceOfN(rapid.Custom(one), least, hi).Draw(t, "ops")
}

// panics runs f and reports whether it panicked.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
