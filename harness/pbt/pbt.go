// Package pbt runs generated checks: it draws plain-data cases with rapid, executes
// them, shrinks failures, and records what was covered. It knows nothing about the
// code under test.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"
)

// Rec is filled in by one execution of a case.
type Rec struct {
	NonTrivial   bool
	Inconclusive bool // this execution decided nothing (counted, never a violation)
	labels       []string
	counts       map[string]int
}

// Count adds to a total reported in the evidence.
func (r *Rec) Count(s string, n int) {
	if r.counts == nil {
		r.counts = map[string]int{}
	}
	r.counts[s] += n
}

// Label counts this case under a class in the evidence.
func (r *Rec) Label(s string) { r.labels = append(r.labels, s) }

// LabelIf is Label under a condition.
func (r *Rec) LabelIf(c bool, s string) {
	if c {
		r.labels = append(r.labels, s)
	}
}

// Prop is one executable property over generated cases of type C.
type Prop[C any] struct {
	Name     string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // number of cases in the quick tier (all shards together)
	Thorough int    // same for the thorough tier (0: 12 times Quick)
	Gen      func(*rapid.T) C
	Run      func(C, *Rec) error
	// Confirm re-runs a shrunk failure this many times and needs every run to fail.
	// Negative: the failure stands as it is (its message is the evidence).
	Confirm int
}

// Checker is a Prop of any case type.
type Checker interface {
	name() string
	rule() string
	check(s *session)
	replay(raw json.RawMessage) error
	// Scaled returns the same property with its case counts multiplied.
	Scaled(f float64) Checker
}

type session struct {
	id, tier       string
	seed           uint64
	shard, nshards int
	scale          float64
	res            Result
	hashes         map[uint64]struct{}
}

// Violation is a confirmed failure.
type Violation struct {
	Prop    string          `json:"prop"`
	Case    json.RawMessage `json:"case"`
	Message string          `json:"message"`
}

// Result is what one process reports to the driver.
type Result struct {
	Evaluations  int            `json:"evaluations"`
	NonTrivial   int            `json:"nontrivial"`
	Inconclusive int            `json:"inconclusive"`
	ByProp       map[string]int `json:"by_prop"`
	Labels       map[string]int `json:"labels"`
	Rules        []string       `json:"rules"`
	Samples      []any          `json:"samples"`
	Violations   []Violation    `json:"violations"`
	Unconfirmed  []Violation    `json:"unconfirmed"`
	Replayed     string         `json:"replayed,omitempty"`
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

// RealNanos reads the real clock also inside a synctest bubble.
func RealNanos() int64 {
	var ts syscall.Timeval
	_ = syscall.Gettimeofday(&ts)
	return ts.Nano()
}

// Main runs the checkers for property id as the environment says, writes the result
// file and ends the process.
func Main(t *testing.T, id string, checkers ...Checker) {
	out := os.Getenv("VP_OUT")
	if out == "" {
		t.Skip("run by the driver only")
	}
	StartWatchdog()
	s := &session{id: id, tier: os.Getenv("VP_TIER"), shard: envInt("VP_SHARD", 0), nshards: envInt("VP_NSHARDS", 1), scale: 1,
		hashes: map[uint64]struct{}{}}
	if f, err := strconv.ParseFloat(os.Getenv("VP_SCALE"), 64); err == nil {
		s.scale = f
	}
	s.seed, _ = strconv.ParseUint(os.Getenv("VP_SEED"), 10, 64)
	s.res.ByProp = map[string]int{}
	s.res.Labels = map[string]int{}
	if rp := os.Getenv("VP_REPLAY"); rp != "" {
		s.runReplay(rp, checkers)
	} else {
		for _, c := range checkers {
			if only := os.Getenv("VP_PROP"); only != "" && only != c.name() {
				continue
			}
			s.res.Rules = append(s.res.Rules, c.name()+": "+c.rule())
			c.check(s)
			if len(s.res.Violations)+len(s.res.Unconfirmed) > 0 && os.Getenv("VP_CONTINUE") == "" {
				break
			}
		}
	}
	s.write(out)
	os.Exit(0)
}

func (s *session) write(out string) {
	b, err := json.Marshal(&s.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(3)
	}
	hs := make([]byte, 0, 8*len(s.hashes))
	keys := make([]uint64, 0, len(s.hashes))
	for h := range s.hashes {
		keys = append(keys, h)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, h := range keys {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(out+".hashes", hs, 0o644); err != nil {
		os.Exit(3)
	}
	tmp := out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		os.Exit(3)
	}
	if err := os.Rename(tmp, out); err != nil {
		os.Exit(3)
	}
}

// ReplayFile is the format of a saved failing case.
type ReplayFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"` // package, build mode: how the driver runs it again
	Prop     string          `json:"prop"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

func (s *session) runReplay(path string, checkers []Checker) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, c := range checkers {
		if c.name() == rf.Prop {
			if err := c.replay(rf.Case); err != nil {
				s.res.Violations = append(s.res.Violations, Violation{rf.Prop, rf.Case, err.Error()})
			}
			s.res.Replayed = rf.Prop
		}
	}
}

func (p Prop[C]) name() string { return p.Name }
func (p Prop[C]) rule() string { return p.Rule }

// Scaled implements Checker.
func (p Prop[C]) Scaled(f float64) Checker {
	if p.Thorough == 0 {
		p.Thorough = 12 * p.Quick
	}
	p.Quick = int(float64(p.Quick) * f)
	p.Thorough = int(float64(p.Thorough) * f)
	return p
}

// PanicError is a panic of the code under test that no oracle expected.
type PanicError struct {
	Val   any
	Stack string
}

func (e *PanicError) Error() string { return fmt.Sprintf("unexpected panic: %v\n%s", e.Val, e.Stack) }

func (p Prop[C]) exec(c C, r *Rec) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = &PanicError{x, trimStack(string(debug.Stack()))}
		}
	}()
	return p.Run(c, r)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (p Prop[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		os.Exit(3)
	}
	setCurrent(p.Name, raw)
	defer clearCurrent()
	var r Rec
	return p.exec(c, &r)
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, s := range parts {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func (p Prop[C]) check(s *session) {
	n := p.Quick
	if s.tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = 12 * p.Quick
		}
	}
	n = int(float64(n)*s.scale+0.5) / s.nshards
	if n < 1 {
		n = 1
	}
	mustSet("rapid.nofailfile", "true")
	mustSet("rapid.shrinktime", "100000h")

	var (
		lastCase   json.RawMessage
		lastErr    error
		lastC      C
		shrinkFrom int64
	)
	budget := int64(envInt("VP_SHRINK_MS", 20000)) * 1e6
	samples := 0
	prop := func(rt *rapid.T) {
		c := p.Gen(rt)
		if shrinkFrom != 0 && RealNanos()-shrinkFrom > budget {
			return // shrinking has had its time; keep the smallest failure so far
		}
		raw, err := json.Marshal(c)
		if err != nil {
			panic("case not serialisable: " + err.Error())
		}
		setCurrent(p.Name, raw)
		var r Rec
		err = p.exec(c, &r)
		clearCurrent()
		if shrinkFrom == 0 {
			s.res.Evaluations++
			s.res.ByProp[p.Name]++
			if r.Inconclusive {
				s.res.Inconclusive++
			}
			for _, l := range r.labels {
				s.res.Labels[p.Name+"/"+l]++
			}
			for k, n := range r.counts {
				s.res.Labels[p.Name+"/total "+k] += n
			}
			if r.NonTrivial {
				s.res.NonTrivial++
				s.hashes[hash64(p.Name, string(raw))] = struct{}{}
				if samples < 2 && s.res.ByProp[p.Name] > 3 && len(raw) < 1500 {
					samples++
					s.res.Samples = append(s.res.Samples, map[string]any{"prop": p.Name, "case": json.RawMessage(raw)})
				}
			}
		}
		if err != nil {
			if shrinkFrom == 0 {
				shrinkFrom = RealNanos()
			}
			lastCase, lastErr, lastC = append(json.RawMessage(nil), raw...), err, c
			rt.Fatalf("violation")
		}
	}
	// rapid stops early when its clock (perhaps a fake one) has run for a day: go on then
	for done, chunk := 0, 0; done < n && lastErr == nil; chunk++ {
		seed := hash64(p.Name, strconv.FormatUint(s.seed, 10), strconv.Itoa(s.shard), strconv.Itoa(chunk))
		if seed == 0 {
			seed = 1
		}
		mustSet("rapid.seed", strconv.FormatUint(seed, 10))
		mustSet("rapid.checks", strconv.Itoa(n-done))
		before := s.res.ByProp[p.Name]
		runRapid(p.Name, prop)
		got := s.res.ByProp[p.Name] - before
		if got == 0 {
			break
		}
		done += got
	}
	if lastErr == nil {
		return
	}
	v := Violation{p.Name, lastCase, lastErr.Error()}
	confirm := p.Confirm
	if confirm == 0 {
		confirm = 3
	}
	if confirm > 0 {
		raw := lastCase
		_ = lastC
		for i := 0; i < confirm; i++ {
			if err := p.replay(raw); err == nil {
				s.res.Unconfirmed = append(s.res.Unconfirmed, v)
				return
			} else {
				v.Message = err.Error()
			}
		}
	}
	s.res.Violations = append(s.res.Violations, v)
}

func mustSet(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

// tb lets rapid report to us instead of to the testing package.
type tb struct {
	nm     string
	failed bool
	log    []string
}

type stop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.nm }
func (t *tb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(stop{}) }
func (t *tb) Skip(a ...any)             { panic(stop{}) }
func (t *tb) SkipNow()                  { panic(stop{}) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(stop{}) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(stop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(stop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func runRapid(name string, prop func(*rapid.T)) {
	t := &tb{nm: name}
	violated := false
	wrapped := func(rt *rapid.T) {
		defer func() {
			if x := recover(); x != nil {
				if strings.Contains(fmt.Sprint(x), "violation") {
					violated = true
				}
				panic(x)
			}
		}()
		prop(rt)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stop); !ok {
					panic(x)
				}
			}
		}()
		rapid.Check(t, wrapped)
	}()
	if t.failed && !violated {
		// The generator itself is broken: an error of the check, not a finding.
		fmt.Fprintln(os.Stderr, "harness error in", name, strings.Join(t.log, "\n"))
		os.Exit(3)
	}
}

// Scratch returns the directory the driver gave this process.
func Scratch() string { return filepath.Dir(os.Getenv("VP_OUT")) }

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VP_TIER") == "thorough" }

// Replaying tells whether a saved case is being run again.
func Replaying() bool { return os.Getenv("VP_REPLAY") != "" }
