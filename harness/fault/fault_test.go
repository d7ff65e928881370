// Package fault injects panics and goroutine exits into the functions a caller hands to
// the containers (and comparisons and hashings that panic by themselves).
package fault

import (
	"fmt"
	"runtime"
	"testing"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Op is one operation; Boom > 0 makes the Boom-th call of its function fail.
type Op struct {
	K    string `json:"k"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	C    int    `json:"c,omitempty"`
	Boom int    `json:"boom,omitempty"`
	Exit bool   `json:"exit,omitempty"` // by runtime.Goexit instead of a panic
}

type fcase struct {
	Mode int  `json:"mode,omitempty"`
	Ops  []Op `json:"ops"`
}

type bombError struct{ n int }

// bomb goes off at its at-th hit.
type bomb struct {
	at, calls int
	exit      bool
	fired     bool
	val       *bombError
}

func (b *bomb) hit() {
	b.calls++
	if b.calls == b.at {
		b.fired = true
		if b.exit {
			runtime.Goexit()
		}
		b.val = &bombError{b.at}
		panic(b.val)
	}
}

// run executes f, whose functions hit the bomb, and checks that what went off got here.
func (b *bomb) run(what string, f func()) error {
	if b.at == 0 {
		f()
		return nil
	}
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		returned := false
		defer func() {
			x := recover()
			switch {
			case x == nil && returned && b.fired:
				err = fmt.Errorf("%s returned although its function did not (a panic or exit was swallowed)", what)
			case x == nil && !returned && !b.fired:
				err = fmt.Errorf("%s ended its goroutine", what)
			case x != nil && (!b.fired || b.exit):
				err = fmt.Errorf("%s panicked: %v", what, x)
			case x != nil && x != any(b.val):
				err = fmt.Errorf("%s panicked with %v instead of what its function panicked with", what, x)
			}
		}()
		f()
		returned = true
	}()
	<-done
	return err
}

type world interface {
	step(op Op, b *bomb) error
	// verify compares everything with the model; the container may be used for it.
	verify() error
}

func prop(name string, quick int, rule string, kinds []string, bombs map[string]bool, mk func(mode int) world) pbt.Checker {
	return pbt.Prop[fcase]{
		Name: name, Quick: quick,
		Rule: "up to 40 operations, in which functions given by the caller panic or end their goroutine at a generated call: " + rule + "; non-trivial: at least one did, with operations after it",
		Gen: func(t *rapid.T) fcase {
			least := rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "least")
			return fcase{Mode: rapid.IntRange(0, 5).Draw(t, "mode"), Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
				op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: rapid.IntRange(0, 7).Draw(t, "a"), B: rapid.IntRange(0, 9).Draw(t, "b"), C: rapid.IntRange(0, 3).Draw(t, "c")}
				if bombs[op.K] && rapid.IntRange(0, 2).Draw(t, "bomb") > 0 {
					op.Boom = rapid.SampledFrom([]int{1, 1, 2, 3, 5, 9}).Draw(t, "boom")
					op.Exit = rapid.IntRange(0, 3).Draw(t, "exit") == 3
				}
				return op
			}), least, 40).Draw(t, "ops")}
		},
		Run: func(c fcase, r *pbt.Rec) error {
			w := mk(c.Mode)
			fired, after := 0, 0
			for i, op := range c.Ops {
				b := &bomb{at: op.Boom, exit: op.Exit}
				if err := w.step(op, b); err != nil {
					return fmt.Errorf("operation %d %+v: %w", i, op, err)
				}
				if fired > 0 {
					after++
				}
				if b.fired {
					fired++
					r.Label(op.K + " failed")
					if op.C%2 == 0 { // otherwise the next operations meet the state as it is
						if err := w.verify(); err != nil {
							return fmt.Errorf("after operation %d %+v, whose function failed: %w", i, op, err)
						}
					}
				}
			}
			r.NonTrivial = fired > 0 && after > 0
			if err := w.verify(); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			return nil
		},
	}
}

func only(ks ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

// throws reports whether f panics by itself.
func throws(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func TestC31(t *testing.T) {
	pbt.Main(t, "C31", rwmapFaults(), syncFaults(), refreshFaults(), listFaults(), lhashFaults(), heapFaults(), ringFaults(), setFaults(), genmapFaults(), vecFaults())
}
