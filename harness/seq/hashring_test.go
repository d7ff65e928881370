package seq

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"os"
	"os/exec"
	"sort"
	"testing"

	"github.com/zijiren233/gencontainer/hashring"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// forge returns prefix plus four bytes such that crc32 of the whole followed by
// suffix equals target. If the ring hashes otherwise the string is just a string.
func forge(prefix, suffix string, target uint32) string {
	tab := crc32.IEEETable
	var rev [256]byte
	for i, v := range tab {
		rev[v>>24] = byte(i)
	}
	// undo the suffix
	state := ^target
	for i := len(suffix) - 1; i >= 0; i-- {
		idx := rev[state>>24]
		state = (state^tab[idx])<<8 | uint32(idx^suffix[i])
	}
	// find the four bytes taking the prefix state to that state
	want := state
	var idx [4]byte
	for i := 3; i >= 0; i-- {
		idx[i] = rev[want>>24]
		want = (want ^ tab[idx[i]]) << 8
	}
	cur := ^crc32.ChecksumIEEE([]byte(prefix))
	out := []byte(prefix)
	for i := 0; i < 4; i++ {
		b := byte(cur) ^ idx[i]
		out = append(out, b)
		cur = tab[idx[i]] ^ cur>>8
	}
	return string(out)
}

func ringHash(n any, v int) uint32 { return crc32.ChecksumIEEE([]byte(fmt.Sprintf("%v-%d", n, v))) }

// shade has a String method under which different nodes look the same.
type shade string

func (s shade) String() string { return string(s)[:min(1, len(s))] }

type hrCase struct {
	Kind     string `json:"kind"`
	Replicas int    `json:"replicas"`
	Forged   []int  `json:"forged"` // extra node names colliding with virtual nodes
	Ops      []Op   `json:"ops"`
	Keys     []int  `json:"keys"`
}

// hrPool returns the node universe and extra keys, built to contain keys and nodes
// that coincide with virtual nodes.
func hrStrings(c hrCase) (nodes, keys []string) {
	for i := 0; i < 8; i++ {
		nodes = append(nodes, fmt.Sprintf("node%d", i))
	}
	nodes = append(nodes, "", "a-0", "a", "a-0-0")
	rep := max(c.Replicas, 1)
	for i, f := range c.Forged {
		base := nodes[f%len(nodes)]
		v := (f / 16) % rep
		own := (f / 5) % rep
		nodes = append(nodes, forge(fmt.Sprintf("f%d", i), fmt.Sprintf("-%d", own), ringHash(base, v)))
	}
	keys = append(keys, nodes...)
	for i, k := range c.Keys {
		switch k % 3 {
		case 0:
			keys = append(keys, fmt.Sprintf("key%d", k))
		case 1: // exactly on a virtual node
			keys = append(keys, forge(fmt.Sprintf("k%d", i), "-0", ringHash(nodes[k%len(nodes)], (k/50)%rep)))
		case 2: // just before or after one
			keys = append(keys, forge(fmt.Sprintf("k%d", i), "-0", ringHash(nodes[k%len(nodes)], (k/50)%rep)+uint32(k%2)*2-1))
		}
	}
	// the ends of the hash range
	keys = append(keys, forge("lo", "-0", 0), forge("hi", "-0", ^uint32(0)))
	return
}

func hrInts(c hrCase) (nodes, keys []int) {
	for i := 0; i < 10; i++ {
		nodes = append(nodes, i*i*7-3)
	}
	keys = append(keys, nodes...)
	for _, k := range c.Keys {
		keys = append(keys, int(int64(k)*2654435761%1000003))
	}
	return
}

func hrShades(c hrCase) (nodes, keys []shade) {
	for i := 0; i < 8; i++ {
		nodes = append(nodes, shade(fmt.Sprintf("%c%d", 'a'+i%3, i)))
	}
	keys = append(keys, nodes...)
	for _, k := range c.Keys {
		keys = append(keys, shade(fmt.Sprintf("%c", 'A'+k%58)))
	}
	return
}

type hrSnapshot[N comparable] map[N]N // key -> node

func runHR[N constraints.Ordered](c hrCase, univ, keys []N, movement bool, r *pbt.Rec) error {
	a := hashring.New[N](c.Replicas)
	members := map[N]bool{}
	snap := func(h *hashring.HashRing[N]) hrSnapshot[N] {
		s := hrSnapshot[N]{}
		for _, k := range keys {
			s[k] = h.GetNode(k)
		}
		return s
	}
	list := func() []N {
		var out []N
		for n := range members {
			out = append(out, n)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
	var zero N
	member := func(s hrSnapshot[N]) error {
		if movement {
			return nil
		}
		for k, n := range s {
			if len(members) == 0 {
				if n != zero {
					return fmt.Errorf("GetNode(%q) on an empty ring is %q", fmt.Sprint(k), fmt.Sprint(n))
				}
			} else if !members[n] {
				return fmt.Errorf("GetNode(%q)=%q, which is not in the ring %q", fmt.Sprint(k), fmt.Sprint(n), fmt.Sprint(list()))
			}
		}
		return nil
	}
	cur := snap(a)
	if err := member(cur); err != nil {
		return err
	}
	removals, adds := 0, 0
	past := map[string]hrSnapshot[N]{}
	for i, op := range c.Ops {
		var args []N
		for _, x := range op.V {
			args = append(args, univ[x%len(univ)])
		}
		added, removed := map[N]bool{}, map[N]bool{}
		switch op.K {
		case "add":
			for _, n := range args {
				if !members[n] {
					added[n] = true
					members[n] = true
					adds++
				}
			}
			if ret := a.AddNodes(args...); ret != a {
				return fmt.Errorf("op %d: AddNodes returned another ring", i)
			}
		case "remove":
			for _, n := range args {
				if members[n] {
					removed[n] = true
					delete(members, n)
					removals++
				}
			}
			a.RemoveNodes(args...)
		case "reset":
			for n := range members {
				removed[n] = true
			}
			clear(members)
			for _, n := range args {
				members[n] = true
				if removed[n] {
					delete(removed, n)
				} else {
					added[n] = true
				}
			}
			a.ResetNodes(args...)
		}
		next := snap(a)
		if err := member(next); err != nil {
			return fmt.Errorf("after op %d %v: %w", i, op, err)
		}
		for k, n := range next {
			o := cur[k]
			if !movement || len(members) == 0 || len(members) == len(added) {
				continue // from or to an empty ring, or nobody stayed
			}
			if o != n && !removed[o] && !added[n] {
				return fmt.Errorf("op %d %v: key %q moved from %q, which stayed, to %q, which is not new", i, op, fmt.Sprint(k), fmt.Sprint(o), fmt.Sprint(n))
			}
		}
		// same node set as once before: same mapping
		key := fmt.Sprintf("%#v", list()) // not through String: different nodes may print alike
		if before, ok := past[key]; ok {
			for k := range next {
				if before[k] != next[k] {
					return fmt.Errorf("op %d %v: key %q maps to %q, but to %q when the ring had the same nodes before", i, op, fmt.Sprint(k), fmt.Sprint(next[k]), fmt.Sprint(before[k]))
				}
			}
		}
		past[key] = next
		cur = next
	}
	// another way to the same node set
	for variant := 0; variant < 3 && !movement; variant++ {
		b := hashring.New[N](c.Replicas)
		l := list()
		switch variant {
		case 0:
			b.AddNodes(l...)
		case 1:
			for j := len(l) - 1; j >= 0; j-- {
				b.AddNodes(l[j], l[j])
			}
		case 2:
			b.AddNodes(univ...)
			for _, n := range univ {
				if !members[n] {
					b.RemoveNodes(n)
				}
			}
		}
		for k, n := range snap(b) {
			if n != cur[k] {
				return fmt.Errorf("two rings of %q map key %q to %q and to %q", fmt.Sprint(l), fmt.Sprint(k), fmt.Sprint(cur[k]), fmt.Sprint(n))
			}
		}
	}
	r.NonTrivial = len(members) > 1 && adds > 2
	r.LabelIf(removals > 0, "removal")
	r.LabelIf(len(c.Forged) > 0, "colliding node names")
	r.Label(c.Kind)
	return nil
}

func genHR(t *rapid.T) hrCase {
	c := hrCase{Kind: rapid.SampledFrom([]string{"string", "string", "int", "shade"}).Draw(t, "kind"),
		Replicas: rapid.SampledFrom([]int{1, 1, 2, 3, 10, 40}).Draw(t, "replicas"),
		Forged:   rapid.SliceOfN(rapid.IntRange(0, 999), 0, 3).Draw(t, "forged"),
		Keys:     rapid.SliceOfN(rapid.IntRange(0, 9999), 0, 25).Draw(t, "keys")}
	c.Ops = genOps(t, 1, 10, func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom([]string{"add", "add", "remove", "reset"}).Draw(t, "k"), V: rapid.SliceOfN(rapid.IntRange(0, 15), 0, 5).Draw(t, "v")}
	})
	return c
}

func hrRun(c hrCase, movement bool, r *pbt.Rec) error {
	switch c.Kind {
	case "int":
		n, k := hrInts(c)
		return runHR(c, n, k, movement, r)
	case "shade":
		n, k := hrShades(c)
		return runHR(c, n, k, movement, r)
	}
	n, k := hrStrings(c)
	return runHR(c, n, k, movement, r)
}

const hrRule = "up to 10 AddNodes/RemoveNodes/ResetNodes (duplicates, absent and empty-named nodes) with 1 to 40 replicas over string, int and custom-named nodes; node names and keys are forged to coincide with virtual nodes; "

func hashringMapping() pbt.Checker {
	return pbt.Prop[hrCase]{
		Name: "hashring-mapping", Quick: 12000,
		Rule: hrRule + "every key's node checked after every change to be a member and equal to its node under an earlier history with the same node set, and to its node in three rings built otherwise; non-trivial: more than one node left and more than two additions",
		Gen:  genHR,
		Run:  func(c hrCase, r *pbt.Rec) error { return hrRun(c, false, r) },
	}
}

func hashringMovement() pbt.Checker {
	return pbt.Prop[hrCase]{
		Name: "hashring-movement", Quick: 12000,
		Rule: hrRule + "every key's node compared before and after every change: it may only leave a removed node or go to an added one, and a former node set restores the former mapping; non-trivial: more than one node left and more than two additions",
		Gen:  genHR,
		Run:  func(c hrCase, r *pbt.Rec) error { return hrRun(c, true, r) },
	}
}

// ---- load spread

type spreadCase struct {
	Nodes    []string `json:"nodes"`
	Replicas int      `json:"replicas"`
	Remove   int      `json:"remove"`
	Salt     int      `json:"salt"`
}

func hashringSpread() pbt.Checker {
	return pbt.Prop[spreadCase]{
		Name: "hashring-spread", Quick: 400, Thorough: 4000,
		Rule: "rings of 2 to 8 differently styled node names with 120 to 300 replicas and 4000 keys; every node must get between 1/10 and 4 times its fair share (and never over 95%), also after removing one; non-trivial: at least 3 nodes",
		Gen: func(t *rapid.T) spreadCase {
			style := rapid.SampledFrom([]string{"10.0.%d.%d", "server-%d-%d", "n%d%d", "https://host%d.example.org:80%d/"}).Draw(t, "style")
			n := rapid.IntRange(2, 8).Draw(t, "n")
			c := spreadCase{Replicas: rapid.SampledFrom([]int{120, 200, 300}).Draw(t, "replicas"), Remove: pick(t, "remove", n), Salt: rapid.IntRange(0, 1<<30).Draw(t, "salt")}
			seen := map[string]bool{}
			for len(c.Nodes) < n {
				s := fmt.Sprintf(style, rapid.IntRange(0, 255).Draw(t, "x"), len(c.Nodes))
				if !seen[s] {
					seen[s] = true
					c.Nodes = append(c.Nodes, s)
				}
			}
			return c
		},
		Run: func(c spreadCase, r *pbt.Rec) error {
			h := hashring.New[string](c.Replicas)
			h.AddNodes(c.Nodes...)
			r.NonTrivial = len(c.Nodes) > 2
			check := func(nodes []string) error {
				cnt := map[string]int{}
				const keys = 4000
				x := uint64(c.Salt)*2654435761 + 88172645463325252
				for i := 0; i < keys; i++ {
					x ^= x << 13
					x ^= x >> 7
					x ^= x << 17
					cnt[h.GetNode(fmt.Sprintf("user:%x", x))]++
				}
				fair := float64(keys) / float64(len(nodes))
				for _, n := range nodes {
					f := float64(cnt[n])
					if f < fair/10 || f > fair*4 || (len(nodes) > 1 && f > keys*95/100) {
						return fmt.Errorf("node %q gets %d of %d keys with %d nodes and %d replicas", n, cnt[n], keys, len(nodes), c.Replicas)
					}
				}
				return nil
			}
			if err := check(c.Nodes); err != nil {
				return err
			}
			if len(c.Nodes) > 2 {
				i := c.Remove % len(c.Nodes)
				h.RemoveNodes(c.Nodes[i])
				rest := append(append([]string(nil), c.Nodes[:i]...), c.Nodes[i+1:]...)
				if err := check(rest); err != nil {
					return fmt.Errorf("after removing %q: %w", c.Nodes[i], err)
				}
			}
			return nil
		},
	}
}

// ---- the mapping does not depend on the process

type procCase struct {
	Rings []hrCase `json:"rings"`
}

func hrAnswers(c procCase) []string {
	var out []string
	for _, rc := range c.Rings {
		nodes, keys := hrStrings(rc)
		h := hashring.New[string](rc.Replicas)
		for _, op := range rc.Ops {
			var args []string
			for _, x := range op.V {
				args = append(args, nodes[x%len(nodes)])
			}
			switch op.K {
			case "add":
				h.AddNodes(args...)
			case "remove":
				h.RemoveNodes(args...)
			case "reset":
				h.ResetNodes(args...)
			}
		}
		for _, k := range keys {
			out = append(out, fmt.Sprintf("%x", h.GetNode(k)))
		}
	}
	return out
}

// TestHashringChild answers on behalf of another process.
func TestHashringChild(t *testing.T) {
	if os.Getenv("VP_CHILD") == "" {
		t.Skip()
	}
	var c procCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		os.Exit(3)
	}
	b, _ := json.Marshal(hrAnswers(c))
	fmt.Printf("\nVP-ANSWER %s\n", b)
	os.Exit(0)
}

func hashringProcess() pbt.Checker {
	return pbt.Prop[procCase]{
		Name: "hashring-process", Quick: 16, Thorough: 160,
		Rule: "20 rings with histories and forged keys each, answered by this process and by a freshly started one; non-trivial: always",
		Gen: func(t *rapid.T) procCase {
			var c procCase
			for i := 0; i < 20; i++ {
				rc := genHR(t)
				rc.Kind = "string"
				c.Rings = append(c.Rings, rc)
			}
			return c
		},
		Run: func(c procCase, r *pbt.Rec) error {
			r.NonTrivial = true
			in, _ := json.Marshal(c)
			bin := os.Args[0]
			if other := os.Getenv("VP_OTHER"); other != "" {
				bin = other // the same program for another architecture
			}
			cmd := exec.Command(bin, "-test.run=^TestHashringChild$")
			cmd.Env = append(os.Environ(), "VP_CHILD=1")
			cmd.Stdin = bytes.NewReader(in)
			out, err := cmd.Output()
			i := bytes.Index(out, []byte("VP-ANSWER "))
			if err != nil || i < 0 {
				r.Inconclusive = true
				r.NonTrivial = false
				return nil
			}
			line := out[i+len("VP-ANSWER "):]
			if j := bytes.IndexByte(line, '\n'); j >= 0 {
				line = line[:j]
			}
			var other []string
			if json.Unmarshal(line, &other) != nil {
				r.Inconclusive = true
				return nil
			}
			mine := hrAnswers(c)
			if len(mine) != len(other) {
				return fmt.Errorf("%d answers here, %d in another process", len(mine), len(other))
			}
			for i := range mine {
				if mine[i] != other[i] {
					return fmt.Errorf("answer %d is node %s here and %s in another process", i, mine[i], other[i])
				}
			}
			return nil
		},
	}
}

func TestC25(t *testing.T) { pbt.Main(t, "C25", hashringMapping(), hashringProcess(), hashringLarge()) }
func TestC26(t *testing.T) { pbt.Main(t, "C26", hashringMovement(), hashringSpread(), hashringLarge()) }
