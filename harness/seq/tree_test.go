package seq

import (
	"fmt"
	"strings"
	"testing"

	"github.com/zijiren233/gencontainer/tree"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

type treeCase struct {
	N     int   `json:"n"`     // free nodes
	Build []int `json:"build"` // sizes of trees made by BuildTree
	Ops   []Op  `json:"ops"`
}

type tNode = tree.Node[int]

type treeWorld struct {
	ns      []*tNode
	id      map[*tNode]int
	p, l, r []int // model, -1: none
}

func (w *treeWorld) add(n *tNode) int {
	w.ns = append(w.ns, n)
	w.id[n] = len(w.ns) - 1
	w.p, w.l, w.r = append(w.p, -1), append(w.l, -1), append(w.r, -1)
	return len(w.ns) - 1
}

func (w *treeWorld) num(n *tNode) int {
	if n == nil {
		return -1
	}
	if i, ok := w.id[n]; ok {
		return i
	}
	return -2
}

func (w *treeWorld) anc(a, d int) bool { // a is a proper ancestor of d
	for d = w.p[d]; d >= 0; d = w.p[d] {
		if d == a {
			return true
		}
	}
	return false
}

func (w *treeWorld) detach(c int) {
	if q := w.p[c]; q >= 0 {
		if w.l[q] == c {
			w.l[q] = -1
		}
		if w.r[q] == c {
			w.r[q] = -1
		}
		w.p[c] = -1
	}
}

func (w *treeWorld) links() error {
	for i, n := range w.ns {
		if a := w.num(n.Parent); a != w.p[i] {
			return fmt.Errorf("node %d: parent is %d, want %d", i, a, w.p[i])
		}
		if a := w.num(n.Left); a != w.l[i] {
			return fmt.Errorf("node %d: left child is %d, want %d", i, a, w.l[i])
		}
		if a := w.num(n.Right); a != w.r[i] {
			return fmt.Errorf("node %d: right child is %d, want %d", i, a, w.r[i])
		}
		if n.Val != i {
			return fmt.Errorf("node %d: value is %d", i, n.Val)
		}
	}
	return nil
}

func (w *treeWorld) depth(i int) int {
	if i < 0 || w.l[i] < 0 && w.r[i] < 0 {
		return 0
	}
	return max(w.depth(w.l[i]), w.depth(w.r[i])) + 1
}

func (w *treeWorld) sib(i int) int {
	q := w.p[i]
	if q < 0 {
		return -1
	}
	if w.l[q] == i {
		return w.r[q]
	}
	return w.l[q]
}

func (w *treeWorld) relations() error {
	var err error
	for i, n := range w.ns {
		p, l, r := w.p[i], w.l[i], w.r[i]
		uncle, gp := -1, -1
		if p >= 0 {
			uncle, gp = w.sib(p), w.p[p]
		}
		layer := 0
		for q := p; q >= 0; q = w.p[q] {
			layer++
		}
		b := func(name string, got, want bool) {
			if got != want && err == nil {
				err = fmt.Errorf("node %d: %s=%v, want %v", i, name, got, want)
			}
		}
		x := func(name string, got, want int) {
			if got != want && err == nil {
				err = fmt.Errorf("node %d: %s=%d, want %d", i, name, got, want)
			}
		}
		b("IsLeaf", n.IsLeaf(), l < 0 && r < 0)
		b("IsRoot", n.IsRoot(), p < 0)
		b("IsLeft", n.IsLeft(), p >= 0 && w.l[p] == i)
		b("IsRight", n.IsRight(), p >= 0 && w.r[p] == i)
		x("Sibling", w.num(n.Sibling()), w.sib(i))
		x("Uncle", w.num(n.Uncle()), uncle)
		x("Grandparent", w.num(n.Grandparent()), gp)
		b("HasLeft", n.HasLeft(), l >= 0)
		b("HasRight", n.HasRight(), r >= 0)
		b("HasChild", n.HasChild(), l >= 0 || r >= 0)
		b("HasBothChild", n.HasBothChild(), l >= 0 && r >= 0)
		b("HasParent", n.HasParent(), p >= 0)
		b("HasSibling", n.HasSibling(), w.sib(i) >= 0)
		b("HasUncle", n.HasUncle(), uncle >= 0)
		b("HasGrandparent", n.HasGrandparent(), gp >= 0)
		x("Layer", n.Layer(), layer)
		x("MaxDepth", n.MaxDepth(), w.depth(i))
		for j, o := range w.ns {
			at := func(s string) string { return fmt.Sprintf("%s(node %d)", s, j) }
			b(at("IsLeftRelation"), n.IsLeftRelation(o), l == j)
			b(at("IsRightRelation"), n.IsRightRelation(o), r == j)
			b(at("IsChildRelation"), n.IsChildRelation(o), l == j || r == j)
			b(at("IsUncleRelation"), n.IsUncleRelation(o), uncle == j)
			b(at("IsSiblingRelation"), n.IsSiblingRelation(o), w.sib(i) == j)
			b(at("IsGrandparentRelation"), n.IsGrandparentRelation(o), gp == j)
			if i != j {
				b(at("IsAncestorRelation"), n.IsAncestorRelation(o), w.anc(i, j))
				b(at("IsDescendantRelation"), n.IsDescendantRelation(o), w.anc(i, j))
			}
		}
		b("a relation to no node", n.IsLeftRelation(nil) || n.IsRightRelation(nil) || n.IsChildRelation(nil) || n.IsAncestorRelation(nil) || n.IsDescendantRelation(nil), false)
		if err != nil {
			return err
		}
	}
	return nil
}

func (w *treeWorld) levels(i int) [][]int {
	var out [][]int
	for cur := []int{i}; len(cur) > 0; {
		out = append(out, cur)
		var next []int
		for _, c := range cur {
			if w.l[c] >= 0 {
				next = append(next, w.l[c])
			}
			if w.r[c] >= 0 {
				next = append(next, w.r[c])
			}
		}
		cur = next
	}
	return out
}

func (w *treeWorld) pre(i int) []int {
	if i < 0 {
		return nil
	}
	return append(append([]int{i}, w.pre(w.l[i])...), w.pre(w.r[i])...)
}

func (w *treeWorld) traversals() error {
	for i, n := range w.ns {
		var flat []int
		lv := w.levels(i)
		for _, l := range lv {
			flat = append(flat, l...)
		}
		nums := func(s []*tNode) (out []int) {
			for _, x := range s {
				out = append(out, w.num(x))
			}
			return
		}
		if got := nums(n.TraversalBFS()); !sameInts(got, flat) {
			return fmt.Errorf("TraversalBFS from %d: %v, want %v", i, got, flat)
		}
		if got := nums(n.TraversalDFS()); !sameInts(got, w.pre(i)) {
			return fmt.Errorf("TraversalDFS from %d: %v, want %v", i, got, w.pre(i))
		}
		draw := strings.TrimRight(n.DrawTree(), "\n")
		lines := strings.Split(draw, "\n")
		if len(lines) != len(lv) {
			return fmt.Errorf("DrawTree from %d has %d lines for %d levels: %q", i, len(lines), len(lv), draw)
		}
		for d, line := range lines {
			f := strings.Fields(line)
			var want []string
			for _, x := range lv[d] {
				want = append(want, fmt.Sprint(x))
			}
			if strings.Join(f, " ") != strings.Join(want, " ") {
				return fmt.Errorf("DrawTree from %d, line %d: %q, want %v", i, d, line, want)
			}
		}
	}
	return nil
}

func runTree(c treeCase, relations, traversals bool, r *pbt.Rec) error {
	w := &treeWorld{id: map[*tNode]int{}}
	for i := 0; i < c.N; i++ {
		w.add(tree.NewNode(i))
	}
	for _, n := range c.Build {
		if n == 0 {
			if tree.BuildTree[int](nil) != nil || tree.BuildTree([]int{}) != nil {
				return fmt.Errorf("BuildTree of an empty list is not nil")
			}
			continue
		}
		base := len(w.ns)
		vals := make([]int, n)
		for i := range vals {
			vals[i] = base + i
		}
		root := tree.BuildTree(vals)
		if root == nil {
			return fmt.Errorf("BuildTree(%v) is nil", vals)
		}
		// the complete tree, level by level
		nodes := make([]*tNode, n)
		nodes[0] = root
		for i := 0; i < n; i++ {
			for k, c := range []*tNode{nodes[i].Left, nodes[i].Right} {
				j := 2*i + 1 + k
				if (c != nil) != (j < n) {
					return fmt.Errorf("BuildTree of %d values: node %d has child %d: %v", n, i, k, c != nil)
				}
				if c != nil {
					nodes[j] = c
				}
			}
		}
		for _, x := range nodes {
			if _, dup := w.id[x]; dup {
				return fmt.Errorf("BuildTree of %d values uses a node twice", n)
			}
			w.add(x)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				w.p[base+i] = base + (i-1)/2
			}
			if j := 2*i + 1; j < n {
				w.l[base+i] = base + j
			}
			if j := 2*i + 2; j < n {
				w.r[base+i] = base + j
			}
		}
		for i, x := range nodes {
			if x.Val != vals[i] {
				return fmt.Errorf("BuildTree(%v): value %d at level-order position %d", vals, x.Val, i)
			}
		}
	}
	if len(w.ns) == 0 {
		return nil
	}
	moves, repl := 0, 0
	check := func() error {
		if err := w.links(); err != nil {
			return err
		}
		if relations {
			if err := w.relations(); err != nil {
				return err
			}
		}
		if traversals {
			return w.traversals()
		}
		return nil
	}
	if err := check(); err != nil {
		return fmt.Errorf("at the start: %w", err)
	}
	for i, op := range c.Ops {
		a := op.A % len(w.ns)
		b := op.B%(len(w.ns)+1) - 1 // -1: nil
		if b == a || b >= 0 && w.anc(b, a) {
			continue // would make a cycle
		}
		left := op.K == "left"
		slot := &w.l[a]
		if !left {
			slot = &w.r[a]
		}
		old := *slot
		var child *tNode
		if b >= 0 {
			child = w.ns[b]
			if w.p[b] >= 0 && b != old {
				moves++
			}
		}
		var ret *tNode
		if left {
			ret = w.ns[a].SetLeft(child)
		} else {
			ret = w.ns[a].SetRight(child)
		}
		if old != b {
			if g := w.num(ret); g != old {
				return fmt.Errorf("op %d %v: returned node %d, want %d", i, op, g, old)
			}
			if old >= 0 {
				w.p[old] = -1
				repl++
			}
			*slot = -1
			if b >= 0 {
				w.detach(b)
				*slot = b
				w.p[b] = a
			}
		}
		if err := check(); err != nil {
			return fmt.Errorf("after op %d: Set%s(%d, %d): %w", i, op.K, a, b, err)
		}
	}
	r.NonTrivial = len(w.ns) > 3 && (moves > 0 || repl > 0 || len(c.Build) > 0)
	r.LabelIf(moves > 0, "subtree moved")
	r.LabelIf(repl > 0, "child displaced")
	return nil
}

func genTree(maxBuild int) func(t *rapid.T) treeCase {
	return func(t *rapid.T) treeCase {
		return treeCase{N: rapid.IntRange(0, 10).Draw(t, "n"),
			Build: rapid.SliceOfN(rapid.IntRange(0, rapid.SampledFrom([]int{8, maxBuild}).Draw(t, "max")), 0, 2).Draw(t, "build"),
			Ops: genOps(t, 0, 25, func(t *rapid.T) Op {
				return Op{K: rapid.SampledFrom([]string{"left", "right"}).Draw(t, "k"), A: rapid.IntRange(0, 30).Draw(t, "a"), B: rapid.IntRange(0, 31).Draw(t, "b")}
			})}
	}
}

func treeLinks() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[treeCase]{
		Name: "tree-links", Quick: 30000,
		Rule: "up to 25 SetLeft/SetRight (attach, replace, detach, move within and between trees, never making a cycle) on free nodes and built trees, links and every relation between every pair of nodes compared with a model after every step; non-trivial: more than 3 nodes and a built tree, a move or a displacement",
		Gen:  genTree(16),
		Run:  func(c treeCase, r *pbt.Rec) error { return runTree(c, true, false, r) },
	}}
}

func treeTraversal() []pbt.Checker {
	return []pbt.Checker{pbt.Prop[treeCase]{
		Name: "tree-traversal", Quick: 30000,
		Rule: "trees built by BuildTree (up to 70 values) and by SetLeft/SetRight histories; BFS, DFS and drawing from every node compared with a model after every step; non-trivial: more than 3 nodes and a built tree, a move or a displacement",
		Gen:  genTree(70),
		Run:  func(c treeCase, r *pbt.Rec) error { return runTree(c, false, true, r) },
	}}
}

func TestC27(t *testing.T) { pbt.Main(t, "C27", append(treeLinks(), treeLargeRelations())...) }
func TestC28(t *testing.T) { pbt.Main(t, "C28", append(treeTraversal(), treeLarge())...) }
