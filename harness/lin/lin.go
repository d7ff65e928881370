// Package lin decides whether a concurrent history has a sequential explanation.
package lin

import (
	"fmt"
	"sort"
	"strings"
)

// Op is one completed operation: its interval, and the states it can lead to from a
// state in which it would have returned what it did (none: it would not have).
type Op[S comparable] struct {
	Thread    int
	Call, Ret int64
	Desc      string
	Step      func(S) []S
}

// Check returns "" if some order of the operations, consistent with their intervals,
// explains all results, and a description of the history otherwise. final, if not nil,
// must accept the last state.
func Check[S comparable](init S, ops []Op[S], final func(S) bool) string {
	n := len(ops)
	if n > 64 {
		panic("lin: too many operations")
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	type key struct {
		mask uint64
		s    S
	}
	seen := map[key]struct{}{}
	full := uint64(1)<<n - 1
	if n == 64 {
		full = ^uint64(0)
	}
	var dfs func(mask uint64, s S) bool
	dfs = func(mask uint64, s S) bool {
		if mask == full {
			return final == nil || final(s)
		}
		k := key{mask, s}
		if _, ok := seen[k]; ok {
			return false
		}
		seen[k] = struct{}{}
		// candidates: operations called before the earliest return of those left
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if mask&(1<<i) == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if mask&(1<<i) != 0 {
				continue
			}
			if ops[i].Call > minRet {
				break
			}
			for _, t := range ops[i].Step(s) {
				if dfs(mask|1<<i, t) {
					return true
				}
			}
		}
		return false
	}
	if dfs(0, init) {
		return ""
	}
	var b strings.Builder
	b.WriteString("no sequential order explains these results:\n")
	for _, o := range ops {
		fmt.Fprintf(&b, "  T%d [%d,%d] %s\n", o.Thread, o.Call, o.Ret, o.Desc)
	}
	return b.String()
}
