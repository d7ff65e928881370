// Package clock checks everything that depends on time, in a synctest bubble: time only
// moves when the check sleeps, and then at once and exactly.
package clock

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Op is one generated operation: a kind and small integer arguments.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
}

func (o Op) String() string { return fmt.Sprintf("%s(%d,%d,%d)", o.K, o.A, o.B, o.C) }

func bubble(t *testing.T, f func(t *testing.T)) {
	pbt.StartWatchdog()
	synctest.Test(t, f)
}

func pick(t *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }

// spans are the durations the checks wait and use as lifetimes, in microseconds; odd ones
// land between the milliseconds.
var spans = []time.Duration{
	0, time.Millisecond, 2 * time.Millisecond, 700 * time.Microsecond, 1300 * time.Microsecond, 5 * time.Millisecond, 40 * time.Millisecond,
	900 * time.Millisecond, time.Second, 2500 * time.Millisecond, 5 * time.Second, 5001 * time.Millisecond, 7 * time.Second, 11 * time.Second, time.Minute, time.Hour,
}

func span(i int) time.Duration { return spans[((i%len(spans))+len(spans))%len(spans)] }

func genOps(t *rapid.T, lo, hi int, kinds []string) []Op {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: pick(t, "a", 8), B: pick(t, "b", 20), C: pick(t, "c", 21)}
	}), lo, hi).Draw(t, "ops")
}
