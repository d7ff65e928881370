From d8480a36966e5c3191d4092ab160ccd80b12d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:05 +0000
Subject: [PATCH 01/28] fix: set.IsSupperSet returned the negation of the
 superset test

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From 59b18b2bfc630d48694cbb19f880d20a49622d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:05 +0000
Subject: [PATCH 02/28] fix: genmap.LoadOrStore returned the zero value instead
 of the stored one

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..35b4ac4 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,7 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
-	return
+	return v, false
 }
 
 func (m GenMap[K, V]) LoadOrStoreFunc(k K, newFunc func() V) (actual V, loaded bool) {
-- 
2.43.0


From 209428eb2e034b814648e055c0a797d95989b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:05 +0000
Subject: [PATCH 03/28] fix: hashring.GetNode returned the key itself when it
 hashes onto a node

---
 hashring/hashring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..98b600b 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -70,7 +70,8 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		hash: hash,
 		Node: key,
 	}); ok {
-		return key
+		n, _ := hr.nodes.Get(i)
+		return n.Node
 	} else {
 		if i == hr.nodes.Len() {
 			n, _ := hr.nodes.First()
-- 
2.43.0


From a2adba626dbbbe9842afe5812d5a76d96777ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 04/28] fix: hashring mapping depended on insertion order when
 two nodes collide

---
 hashring/hashring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 98b600b..e5944e0 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -26,6 +26,9 @@ func New[Node constraints.Ordered](replicas int) *HashRing[Node] {
 		rawNodes: set.New[Node](),
 		nodes: vec.New[node[Node]](
 			vec.WithCmpLess(func(t1, t2 node[Node]) bool {
+				if t1.hash == t2.hash {
+					return t1.Node < t2.Node
+				}
 				return t1.hash < t2.hash
 			}),
 			vec.WithCmpEqual(func(t1, t2 node[Node]) bool {
-- 
2.43.0


From 6d43e1402613361febdbad5156fa747958501539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 05/28] fix: vec.Cut returned values overwritten by the
 elements moved down

---
 vec/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..4c4d8bb 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -258,7 +258,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 	if i < 0 || j > v.Len() || i > j {
 		return
 	}
-	val := v.d[i:j]
+	val := slices.Clone(v.d[i:j])
 	v.d = append(v.d[:i], v.d[j:]...)
 	return val
 }
-- 
2.43.0


From 549c939eb2a487ccca40111cea9e76b742f048d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 06/28] fix: vec default comparisons panicked for pointer
 element types

---
 vec/vec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 4c4d8bb..e0416d4 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -45,19 +45,19 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() < reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() < reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
+			return natural.Less(reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String())
 		}
 
 	default:
@@ -77,19 +77,19 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() == reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() == reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() == reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
+			return reflect.Indirect(reflect.ValueOf(a)).String() == reflect.Indirect(reflect.ValueOf(b)).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
-- 
2.43.0


From bb40f693518836f391395b811e2eaa0327ff0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 07/28] fix: vec.Sort did not order NaN before other floats

---
 vec/vec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index e0416d4..e072e89 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -53,7 +53,8 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
+			x, y := reflect.Indirect(reflect.ValueOf(a)).Float(), reflect.Indirect(reflect.ValueOf(b)).Float()
+			return x < y || (x != x && y == y)
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-- 
2.43.0


From ad46783be04027f061a947e9b47ae602d64d4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 08/28] fix: vec.Clone and SplitOff results followed later
 comparator changes of the original

---
 vec/vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index e072e89..bc20b36 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -270,7 +270,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 //
 // data dont overwrite each other.
 func (v *Vec[T]) SplitOff(i int) *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.Cut(i, v.Len())...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.Cut(i, v.Len())...)
 }
 
 func (v *Vec[T]) Swap(i, j int) {
@@ -320,7 +320,7 @@ func (v *Vec[T]) Clip() *Vec[T] {
 }
 
 func (v *Vec[T]) Clone() *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.d...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.d...)
 }
 
 func (v *Vec[T]) CloneToSlice() []T {
-- 
2.43.0


From d93b36dee82b9ff674afb5cd94bd3eaee8265f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:07 +0000
Subject: [PATCH 09/28] fix: tree.IsDescendantRelation was true for unrelated
 nodes

---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 497786b..3261eca 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -164,7 +164,7 @@ func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsDescendantRelation(node *Node[T]) bool {
-	return !node.IsAncestorRelation(n)
+	return node != n && n.IsAncestorRelation(node)
 }
 
 func (n *Node[T]) HasLeft() bool {
-- 
2.43.0


From 97ef4e7a9e59c5b36aaa4ee5f10dd516546f73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:07 +0000
Subject: [PATCH 10/28] fix: tree.SetLeft and SetRight left a moved node
 attached to its old parent

---
 tree/tree.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tree/tree.go b/tree/tree.go
index 3261eca..ddafdeb 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -67,6 +67,7 @@ func (n *Node[T]) SetLeft(left *Node[T]) (old *Node[T]) {
 	if n.Left != nil {
 		n.Left.Parent = nil
 	}
+	left.detach()
 	n.Left = left
 	if left != nil {
 		left.Parent = n
@@ -79,6 +80,7 @@ func (n *Node[T]) SetRight(right *Node[T]) (old *Node[T]) {
 	if n.Right != nil {
 		n.Right.Parent = nil
 	}
+	right.detach()
 	n.Right = right
 	if right != nil {
 		right.Parent = n
@@ -86,6 +88,20 @@ func (n *Node[T]) SetRight(right *Node[T]) (old *Node[T]) {
 	return old
 }
 
+// detach removes n from its parent, if it has one.
+func (n *Node[T]) detach() {
+	if n == nil || n.Parent == nil {
+		return
+	}
+	if n.Parent.Left == n {
+		n.Parent.Left = nil
+	}
+	if n.Parent.Right == n {
+		n.Parent.Right = nil
+	}
+	n.Parent = nil
+}
+
 func (n *Node[T]) IsLeaf() bool {
 	return !n.HasChild()
 }
-- 
2.43.0


From de04103d74da17e8da1e6ed91792250966fa2828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:07 +0000
Subject: [PATCH 11/28] fix: tree.DrawTree broke lines inside levels

---
 tree/tree.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index ddafdeb..3a6a11d 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -42,22 +42,15 @@ func BuildTree[T any](val []T) (root *Node[T]) {
 
 func (n *Node[T]) DrawTree() string {
 	builder := strings.Builder{}
-	layer := 0
-	count := 0
-	for _, node := range n.TraversalBFS() {
+	for layer, nodes := range n.traversalBFS(nil, 0) {
 		if layer == 0 {
-			builder.WriteString(fmt.Sprintf("%v\n", node.Val))
-			layer++
+			builder.WriteString(fmt.Sprintf("%v\n", n.Val))
 			continue
 		}
-		builder.WriteString(fmt.Sprintf("%v\t", node.Val))
-		count++
-		if layer*2 == count {
-			builder.WriteRune('\n')
-			layer++
-			count = 0
-			continue
+		for _, node := range nodes {
+			builder.WriteString(fmt.Sprintf("%v\t", node.Val))
 		}
+		builder.WriteRune('\n')
 	}
 	return builder.String()
 }
-- 
2.43.0


From 88ef61539dcc6ff1024bddce04bc9963a642f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:07 +0000
Subject: [PATCH 12/28] fix: dllist.Clear left the old elements attached to the
 list

---
 dllist/dllist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 3c0a33c..fbb13c7 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -16,6 +16,11 @@ func New[T any]() *Dllist[T] {
 }
 
 func (l *Dllist[T]) Clear() *Dllist[T] {
+	for e := l.Front(); e != nil; {
+		next := e.Next()
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From 2d55ceb326e68d0499460287a9ecc727499aa9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:07 +0000
Subject: [PATCH 13/28] fix: dllist.PushBackListTo reversed the values, and
 both ...ListTo broke on the list itself

---
 dllist/dllist.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index fbb13c7..a70c56e 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -186,8 +186,8 @@ func (l *Dllist[T]) PushBackListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Front(); i > 0; i, e = i-1, e.Next() {
-		l.insertValue(e.Value, mark)
+	for _, v := range other.Slice() {
+		mark = l.insertValue(v, mark)
 	}
 }
 
@@ -202,8 +202,8 @@ func (l *Dllist[T]) PushFrontListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Back(); i > 0; i, e = i-1, e.Prev() {
-		l.insertValue(e.Value, mark)
+	for _, v := range other.Slice() {
+		mark = l.insertValue(v, mark)
 	}
 }
 
-- 
2.43.0


From 78c5938c1eaa42bf9854e560f1b7ee17fb1aed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:33 +0000
Subject: [PATCH 14/28] fix: rwmap crashed in -race builds for values larger
 than an interface

---
 rwmap/rwmap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..98065f1 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -75,6 +75,13 @@ var (
 	expungedUintptr = uintptr(expunged)
 )
 
+// expungedPtr returns expunged as a *V. It is only ever compared, never
+// dereferenced, and is not converted directly: V may be larger than the object
+// expunged points to, which the pointer checks of -race builds reject.
+func expungedPtr[V any]() *V {
+	return *(**V)(unsafe.Pointer(&expunged))
+}
+
 // readOnly is an immutable struct stored atomically in the Map.read field.
 type readOnly[K comparable, V any] struct {
 	m       map[K]*entry[V]
@@ -191,7 +198,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 // If the entry was previously expunged, it must be added to the dirty map
 // before m.mu is unlocked.
 func (e *entry[V]) unexpungeLocked() (wasExpunged bool) {
-	return e.p.CompareAndSwap((*V)(expunged), nil)
+	return e.p.CompareAndSwap(expungedPtr[V](), nil)
 }
 
 // swapLocked unconditionally swaps a value into the entry.
@@ -566,7 +573,7 @@ func (m *RWMap[K, V]) dirtyLocked() {
 func (e *entry[V]) tryExpungeLocked() (isExpunged bool) {
 	p := e.p.Load()
 	for p == nil {
-		if e.p.CompareAndSwap(nil, (*V)(expunged)) {
+		if e.p.CompareAndSwap(nil, expungedPtr[V]()) {
 			return true
 		}
 		p = e.p.Load()
-- 
2.43.0


From c1466c8795082d7b25d02519620d70af621fc01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:33 +0000
Subject: [PATCH 15/28] fix: rwmap.Len drifted when Clear overlapped other
 operations

---
 rwmap/rwmap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 98065f1..6afefe0 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -528,10 +528,20 @@ func (m *RWMap[K, V]) Clear() {
 		m.read.Store(&readOnly[K, V]{})
 	}
 
+	// Retire the removed entries, so that each one is taken off len exactly once
+	// and an operation that still holds the old read map starts over with the new one.
+	for _, entries := range []map[K]*entry[V]{read.m, m.dirty} {
+		for _, e := range entries {
+			p := e.p.Swap(expungedPtr[V]())
+			if p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr {
+				atomic.AddInt64(&m.len, -1)
+			}
+		}
+	}
+
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From 39aa5b64a5e0ebbf4c8449529fd7907302df6bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:16 +0000
Subject: [PATCH 16/28] fix: rwmap.Len counted Store and LoadOrStore calls that
 panicked on an unhashable key

---
 rwmap/rwmap.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 6afefe0..2d696aa 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -212,11 +212,14 @@ func (e *entry[V]) swapLocked(i *V) *V {
 // Otherwise, it stores and returns the given value.
 // The loaded result is true if the value was loaded, false if stored.
 func (m *RWMap[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
-	defer func() {
-		if !loaded {
-			atomic.AddInt64(&m.len, 1)
-		}
-	}()
+	actual, loaded = m.loadOrStore(key, value)
+	if !loaded {
+		atomic.AddInt64(&m.len, 1)
+	}
+	return actual, loaded
+}
+
+func (m *RWMap[K, V]) loadOrStore(key K, value V) (actual V, loaded bool) {
 	// Avoid locking if it's a clean hit.
 	read := m.loadReadOnly()
 	if e, ok := read.m[key]; ok {
@@ -349,11 +352,14 @@ func (e *entry[V]) trySwap(i *V) (*V, bool) {
 // Swap swaps the value for a key and returns the previous value if any.
 // The loaded result reports whether the key was present.
 func (m *RWMap[K, V]) Swap(key K, value V) (previous V, loaded bool) {
-	defer func() {
-		if !loaded {
-			atomic.AddInt64(&m.len, 1)
-		}
-	}()
+	previous, loaded = m.swap(key, value)
+	if !loaded {
+		atomic.AddInt64(&m.len, 1)
+	}
+	return previous, loaded
+}
+
+func (m *RWMap[K, V]) swap(key K, value V) (previous V, loaded bool) {
 	read := m.loadReadOnly()
 	if e, ok := read.m[key]; ok {
 		if v, ok := e.trySwap(&value); ok {
-- 
2.43.0


From 218664d1397321fdc2f850faaa9b0d4dab825f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:16 +0000
Subject: [PATCH 17/28] fix: synccache.LoadOrStore returned an expired entry
 when it lost a race to remove it

---
 synccache/synccache.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..8ef940d 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,7 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From 41ecb431f8e210c881326ab58f95e470fcb1c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:16 +0000
Subject: [PATCH 18/28] fix: refreshcache cached the zero value as a success
 when the refresh function panicked

---
 refreshcache/refreshcache.go   | 18 ++++++++++++++----
 refreshcache0/refreshcache0.go | 18 ++++++++++++++----
 refreshcache1/refreshcache1.go | 18 ++++++++++++++----
 3 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..161f31a 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -111,8 +111,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
+	panicked := true
 	defer func() {
-		if err == nil {
+		if panicked {
+			atomic.StoreInt64(&r.last, 0)
+		} else if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
@@ -122,14 +125,19 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	panicked = false
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	panicked := true
 	defer func() {
-		if err == nil {
+		if panicked {
+			atomic.StoreInt64(&r.last, 0)
+		} else if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
@@ -139,7 +147,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	panicked = false
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..55f0d24 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -111,8 +111,11 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
+	panicked := true
 	defer func() {
-		if err == nil {
+		if panicked {
+			atomic.StoreInt64(&r.last, 0)
+		} else if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
@@ -122,14 +125,19 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	panicked = false
+	return data, err
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	panicked := true
 	defer func() {
-		if err == nil {
+		if panicked {
+			atomic.StoreInt64(&r.last, 0)
+		} else if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
@@ -139,7 +147,9 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	panicked = false
+	return data, err
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..94a3091 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -111,8 +111,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
+	panicked := true
 	defer func() {
-		if err == nil {
+		if panicked {
+			atomic.StoreInt64(&r.last, 0)
+		} else if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
@@ -122,14 +125,19 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	panicked = false
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	panicked := true
 	defer func() {
-		if err == nil {
+		if panicked {
+			atomic.StoreInt64(&r.last, 0)
+		} else if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
@@ -139,7 +147,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	panicked = false
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0


From 05142992835a7d61deb32fb8f67c156c4be915e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:17 +0000
Subject: [PATCH 19/28] fix: refreshcache took a never-filled cache for a fresh
 one when the age was very large

---
 refreshcache/refreshcache.go   | 12 ++++++------
 refreshcache0/refreshcache0.go | 12 ++++++------
 refreshcache1/refreshcache1.go | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 161f31a..c95debb 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	panicked := true
@@ -188,10 +188,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 55f0d24..e1f525d 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	panicked := true
@@ -188,10 +188,10 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 94a3091..c4c795b 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	panicked := true
@@ -188,10 +188,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From aeb96890e0b8bf9d260e1391fc581b232835cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:17 +0000
Subject: [PATCH 20/28] fix: refreshcache.Get read the refresh time without
 synchronizing with Clear

---
 refreshcache/refreshcache.go   | 3 ++-
 refreshcache0/refreshcache0.go | 3 ++-
 refreshcache1/refreshcache1.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index c95debb..e553dc7 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -105,7 +105,8 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
 	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index e1f525d..a6dcf0d 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -105,7 +105,8 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
 	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index c4c795b..3de88b3 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -105,7 +105,8 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
 	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
-- 
2.43.0


From 5924154a1db4f35389cee538f0dad3960e82ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:17 +0000
Subject: [PATCH 21/28] fix: refreshcache.Raw reported an old error after a
 later success

---
 refreshcache/refreshcache.go   | 3 +++
 refreshcache0/refreshcache0.go | 3 +++
 refreshcache1/refreshcache1.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index e553dc7..aaff496 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -195,5 +195,8 @@ func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	if atomic.LoadInt64(&r.lastErr) == 0 {
+		return *r.data.Load(), nil
+	}
 	return *r.data.Load(), *r.err.Load()
 }
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index a6dcf0d..ff285ad 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -195,5 +195,8 @@ func (r *RefreshData[T]) Raw() (data T, err error) {
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	if atomic.LoadInt64(&r.lastErr) == 0 {
+		return *r.data.Load(), nil
+	}
 	return *r.data.Load(), *r.err.Load()
 }
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 3de88b3..ffd9db9 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -195,5 +195,8 @@ func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	if atomic.LoadInt64(&r.lastErr) == 0 {
+		return *r.data.Load(), nil
+	}
 	return *r.data.Load(), *r.err.Load()
 }
-- 
2.43.0


From 5f336414463d0d268dd7e89d4ade3d80ccf7f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:17 +0000
Subject: [PATCH 22/28] fix: refreshcache.Get could return a value before the
 refresh that produced it took effect

---
 refreshcache/refreshcache.go   | 15 ++++++++++-----
 refreshcache0/refreshcache0.go | 15 ++++++++++-----
 refreshcache1/refreshcache1.go | 15 ++++++++++-----
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index aaff496..c752659 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -98,7 +98,10 @@ var OldValKey = oldVal{}
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
-		return *r.data.Load(), nil
+		// A concurrent refresh may have replaced the value without having completed yet.
+		if p := r.data.Load(); atomic.LoadInt64(&r.last) == last {
+			return *p, nil
+		}
 	}
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
@@ -117,13 +120,14 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 		if panicked {
 			atomic.StoreInt64(&r.last, 0)
 		} else if err == nil {
+			atomic.StoreInt64(&r.last, 0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
+			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
@@ -139,13 +143,14 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 		if panicked {
 			atomic.StoreInt64(&r.last, 0)
 		} else if err == nil {
+			atomic.StoreInt64(&r.last, 0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
+			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index ff285ad..cb3a58c 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -98,7 +98,10 @@ var OldValKey = oldVal{}
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
-		return *r.data.Load(), nil
+		// A concurrent refresh may have replaced the value without having completed yet.
+		if p := r.data.Load(); atomic.LoadInt64(&r.last) == last {
+			return *p, nil
+		}
 	}
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
@@ -117,13 +120,14 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 		if panicked {
 			atomic.StoreInt64(&r.last, 0)
 		} else if err == nil {
+			atomic.StoreInt64(&r.last, 0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
+			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
@@ -139,13 +143,14 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 		if panicked {
 			atomic.StoreInt64(&r.last, 0)
 		} else if err == nil {
+			atomic.StoreInt64(&r.last, 0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
+			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index ffd9db9..d6c7670 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -98,7 +98,10 @@ var OldValKey = oldVal{}
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
-		return *r.data.Load(), nil
+		// A concurrent refresh may have replaced the value without having completed yet.
+		if p := r.data.Load(); atomic.LoadInt64(&r.last) == last {
+			return *p, nil
+		}
 	}
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
@@ -117,13 +120,14 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 		if panicked {
 			atomic.StoreInt64(&r.last, 0)
 		} else if err == nil {
+			atomic.StoreInt64(&r.last, 0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
+			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
@@ -139,13 +143,14 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 		if panicked {
 			atomic.StoreInt64(&r.last, 0)
 		} else if err == nil {
+			atomic.StoreInt64(&r.last, 0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 			atomic.StoreInt64(&r.lastErr, 0)
+			atomic.StoreInt64(&r.last, time.Now().UnixNano())
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
-- 
2.43.0


From 529675610bdaf6ee797abfc0cee083b9c2dcbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:39 +0000
Subject: [PATCH 23/28] fix: 64-bit atomics panicked on 32-bit platforms when
 not aligned

---
 refreshcache/refreshcache.go   | 56 +++++++++++++++++-----------------
 refreshcache0/refreshcache0.go | 56 +++++++++++++++++-----------------
 refreshcache1/refreshcache1.go | 56 +++++++++++++++++-----------------
 rwmap/rwmap.go                 | 14 ++++-----
 synccache/item.go              | 15 +++++----
 synccache/synccache.go         |  3 +-
 6 files changed, 99 insertions(+), 101 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index c752659..feb4e3c 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -64,9 +64,9 @@ func (r *RefreshCache[T, A]) Clear(ctx context.Context, args ...A) error {
 type RefreshData[T any, A any] struct {
 	err     atomic.Pointer[error]
 	data    atomic.Pointer[T]
-	last    int64
+	last    atomic.Int64
 	maxAge  int64
-	lastErr int64
+	lastErr atomic.Int64
 	errAge  int64
 	lock    sync.Mutex
 }
@@ -96,38 +96,38 @@ type oldVal struct{}
 var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
-	last := atomic.LoadInt64(&r.last)
+	last := r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		// A concurrent refresh may have replaced the value without having completed yet.
-		if p := r.data.Load(); atomic.LoadInt64(&r.last) == last {
+		if p := r.data.Load(); r.last.Load() == last {
 			return *p, nil
 		}
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	if lastErr := r.lastErr.Load(); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	last = atomic.LoadInt64(&r.last)
+	last = r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
+	if r.lastErr.Load() > 0 && time.Now().UnixNano()-r.lastErr.Load() < r.errAge {
 		return data, *r.err.Load()
 	}
 	panicked := true
 	defer func() {
 		if panicked {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 		} else if err == nil {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.lastErr, 0)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
+			r.lastErr.Store(0)
+			r.last.Store(time.Now().UnixNano())
 		} else {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+			r.lastErr.Store(time.Now().UnixNano())
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
@@ -141,16 +141,16 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 	panicked := true
 	defer func() {
 		if panicked {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 		} else if err == nil {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.lastErr, 0)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
+			r.lastErr.Store(0)
+			r.last.Store(time.Now().UnixNano())
 		} else {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+			r.lastErr.Store(time.Now().UnixNano())
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
@@ -161,27 +161,27 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
 	if clearFunc != nil {
 		data := r.data.Load()
-		atomic.StoreInt64(&r.last, 0)
+		r.last.Store(0)
 		return clearFunc(context.WithValue(ctx, OldValKey, *data), args...)
 	}
-	atomic.StoreInt64(&r.last, 0)
+	r.last.Store(0)
 	return nil
 }
 
 func (r *RefreshData[T, A]) Last() int64 {
-	return atomic.LoadInt64(&r.last)
+	return r.last.Load()
 }
 
 func (r *RefreshData[T, A]) LastTime() time.Time {
-	return time.Unix(0, atomic.LoadInt64(&r.last))
+	return time.Unix(0, r.last.Load())
 }
 
 func (r *RefreshData[T, A]) LastErr() int64 {
-	return atomic.LoadInt64(&r.lastErr)
+	return r.lastErr.Load()
 }
 
 func (r *RefreshData[T, A]) LastErrTime() time.Time {
-	return time.Unix(0, atomic.LoadInt64(&r.lastErr))
+	return time.Unix(0, r.lastErr.Load())
 }
 
 func (r *RefreshData[T, A]) MaxAge() int64 {
@@ -193,14 +193,14 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 }
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
-	last := atomic.LoadInt64(&r.last)
+	last := r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	if lastErr := r.lastErr.Load(); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	if atomic.LoadInt64(&r.lastErr) == 0 {
+	if r.lastErr.Load() == 0 {
 		return *r.data.Load(), nil
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index cb3a58c..cb453b1 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -64,9 +64,9 @@ func (r *RefreshCache[T]) Clear(ctx context.Context) error {
 type RefreshData[T any] struct {
 	err     atomic.Pointer[error]
 	data    atomic.Pointer[T]
-	last    int64
+	last    atomic.Int64
 	maxAge  int64
-	lastErr int64
+	lastErr atomic.Int64
 	errAge  int64
 	lock    sync.Mutex
 }
@@ -96,38 +96,38 @@ type oldVal struct{}
 var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
-	last := atomic.LoadInt64(&r.last)
+	last := r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		// A concurrent refresh may have replaced the value without having completed yet.
-		if p := r.data.Load(); atomic.LoadInt64(&r.last) == last {
+		if p := r.data.Load(); r.last.Load() == last {
 			return *p, nil
 		}
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	if lastErr := r.lastErr.Load(); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	last = atomic.LoadInt64(&r.last)
+	last = r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
+	if r.lastErr.Load() > 0 && time.Now().UnixNano()-r.lastErr.Load() < r.errAge {
 		return data, *r.err.Load()
 	}
 	panicked := true
 	defer func() {
 		if panicked {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 		} else if err == nil {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.lastErr, 0)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
+			r.lastErr.Store(0)
+			r.last.Store(time.Now().UnixNano())
 		} else {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+			r.lastErr.Store(time.Now().UnixNano())
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
@@ -141,16 +141,16 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 	panicked := true
 	defer func() {
 		if panicked {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 		} else if err == nil {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.lastErr, 0)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
+			r.lastErr.Store(0)
+			r.last.Store(time.Now().UnixNano())
 		} else {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+			r.lastErr.Store(time.Now().UnixNano())
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
@@ -161,27 +161,27 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
 	if clearFunc != nil {
 		data := r.data.Load()
-		atomic.StoreInt64(&r.last, 0)
+		r.last.Store(0)
 		return clearFunc(context.WithValue(ctx, OldValKey, *data))
 	}
-	atomic.StoreInt64(&r.last, 0)
+	r.last.Store(0)
 	return nil
 }
 
 func (r *RefreshData[T]) Last() int64 {
-	return atomic.LoadInt64(&r.last)
+	return r.last.Load()
 }
 
 func (r *RefreshData[T]) LastTime() time.Time {
-	return time.Unix(0, atomic.LoadInt64(&r.last))
+	return time.Unix(0, r.last.Load())
 }
 
 func (r *RefreshData[T]) LastErr() int64 {
-	return atomic.LoadInt64(&r.lastErr)
+	return r.lastErr.Load()
 }
 
 func (r *RefreshData[T]) LastErrTime() time.Time {
-	return time.Unix(0, atomic.LoadInt64(&r.lastErr))
+	return time.Unix(0, r.lastErr.Load())
 }
 
 func (r *RefreshData[T]) MaxAge() int64 {
@@ -193,14 +193,14 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 }
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
-	last := atomic.LoadInt64(&r.last)
+	last := r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	if lastErr := r.lastErr.Load(); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	if atomic.LoadInt64(&r.lastErr) == 0 {
+	if r.lastErr.Load() == 0 {
 		return *r.data.Load(), nil
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index d6c7670..97959d6 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -64,9 +64,9 @@ func (r *RefreshCache[T, A]) Clear(ctx context.Context, args A) error {
 type RefreshData[T any, A any] struct {
 	err     atomic.Pointer[error]
 	data    atomic.Pointer[T]
-	last    int64
+	last    atomic.Int64
 	maxAge  int64
-	lastErr int64
+	lastErr atomic.Int64
 	errAge  int64
 	lock    sync.Mutex
 }
@@ -96,38 +96,38 @@ type oldVal struct{}
 var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
-	last := atomic.LoadInt64(&r.last)
+	last := r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		// A concurrent refresh may have replaced the value without having completed yet.
-		if p := r.data.Load(); atomic.LoadInt64(&r.last) == last {
+		if p := r.data.Load(); r.last.Load() == last {
 			return *p, nil
 		}
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	if lastErr := r.lastErr.Load(); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	last = atomic.LoadInt64(&r.last)
+	last = r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
+	if r.lastErr.Load() > 0 && time.Now().UnixNano()-r.lastErr.Load() < r.errAge {
 		return data, *r.err.Load()
 	}
 	panicked := true
 	defer func() {
 		if panicked {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 		} else if err == nil {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.lastErr, 0)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
+			r.lastErr.Store(0)
+			r.last.Store(time.Now().UnixNano())
 		} else {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+			r.lastErr.Store(time.Now().UnixNano())
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
@@ -141,16 +141,16 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 	panicked := true
 	defer func() {
 		if panicked {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 		} else if err == nil {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.data.Store(&data)
-			atomic.StoreInt64(&r.lastErr, 0)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
+			r.lastErr.Store(0)
+			r.last.Store(time.Now().UnixNano())
 		} else {
-			atomic.StoreInt64(&r.last, 0)
+			r.last.Store(0)
 			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+			r.lastErr.Store(time.Now().UnixNano())
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
@@ -161,27 +161,27 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
 	if clearFunc != nil {
 		data := r.data.Load()
-		atomic.StoreInt64(&r.last, 0)
+		r.last.Store(0)
 		return clearFunc(context.WithValue(ctx, OldValKey, *data), args)
 	}
-	atomic.StoreInt64(&r.last, 0)
+	r.last.Store(0)
 	return nil
 }
 
 func (r *RefreshData[T, A]) Last() int64 {
-	return atomic.LoadInt64(&r.last)
+	return r.last.Load()
 }
 
 func (r *RefreshData[T, A]) LastTime() time.Time {
-	return time.Unix(0, atomic.LoadInt64(&r.last))
+	return time.Unix(0, r.last.Load())
 }
 
 func (r *RefreshData[T, A]) LastErr() int64 {
-	return atomic.LoadInt64(&r.lastErr)
+	return r.lastErr.Load()
 }
 
 func (r *RefreshData[T, A]) LastErrTime() time.Time {
-	return time.Unix(0, atomic.LoadInt64(&r.lastErr))
+	return time.Unix(0, r.lastErr.Load())
 }
 
 func (r *RefreshData[T, A]) MaxAge() int64 {
@@ -193,14 +193,14 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 }
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
-	last := atomic.LoadInt64(&r.last)
+	last := r.last.Load()
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	if lastErr := r.lastErr.Load(); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	if atomic.LoadInt64(&r.lastErr) == 0 {
+	if r.lastErr.Load() == 0 {
 		return *r.data.Load(), nil
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 2d696aa..7f928dc 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -58,7 +58,7 @@ type RWMap[K comparable, V any] struct {
 	// making a shallow copy of the clean map, omitting stale entries.
 	dirty map[K]*entry[V]
 
-	len int64
+	len atomic.Int64
 
 	// misses counts the number of loads since the read map was last updated that
 	// needed to lock mu to determine whether the key was present.
@@ -214,7 +214,7 @@ func (e *entry[V]) swapLocked(i *V) *V {
 func (m *RWMap[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	actual, loaded = m.loadOrStore(key, value)
 	if !loaded {
-		atomic.AddInt64(&m.len, 1)
+		m.len.Add(1)
 	}
 	return actual, loaded
 }
@@ -291,7 +291,7 @@ func (e *entry[V]) tryLoadOrStore(i V) (actual V, loaded, ok bool) {
 func (m *RWMap[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 	defer func() {
 		if loaded {
-			atomic.AddInt64(&m.len, -1)
+			m.len.Add(-1)
 		}
 	}()
 	read := m.loadReadOnly()
@@ -354,7 +354,7 @@ func (e *entry[V]) trySwap(i *V) (*V, bool) {
 func (m *RWMap[K, V]) Swap(key K, value V) (previous V, loaded bool) {
 	previous, loaded = m.swap(key, value)
 	if !loaded {
-		atomic.AddInt64(&m.len, 1)
+		m.len.Add(1)
 	}
 	return previous, loaded
 }
@@ -438,7 +438,7 @@ func (m *RWMap[K, V]) CompareAndSwap(key K, old, new V) (swapped bool) {
 func (m *RWMap[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	defer func() {
 		if deleted {
-			atomic.AddInt64(&m.len, -1)
+			m.len.Add(-1)
 		}
 	}()
 	read := m.loadReadOnly()
@@ -540,7 +540,7 @@ func (m *RWMap[K, V]) Clear() {
 		for _, e := range entries {
 			p := e.p.Swap(expungedPtr[V]())
 			if p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr {
-				atomic.AddInt64(&m.len, -1)
+				m.len.Add(-1)
 			}
 		}
 	}
@@ -551,7 +551,7 @@ func (m *RWMap[K, V]) Clear() {
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-	return atomic.LoadInt64(&m.len)
+	return m.len.Load()
 }
 
 func (m *RWMap[K, V]) SlowLen() (n int64) {
diff --git a/synccache/item.go b/synccache/item.go
index 9a0bfd6..bc6c54e 100644
--- a/synccache/item.go
+++ b/synccache/item.go
@@ -7,14 +7,13 @@ import (
 
 type Entry[V any] struct {
 	value      V
-	expiration int64
+	expiration atomic.Int64
 }
 
 func NewEntry[V any](value V, expire time.Duration) *Entry[V] {
-	return &Entry[V]{
-		expiration: time.Now().Add(expire).UnixMilli(),
-		value:      value,
-	}
+	e := &Entry[V]{value: value}
+	e.expiration.Store(time.Now().Add(expire).UnixMilli())
+	return e
 }
 
 func (e *Entry[V]) Value() V {
@@ -22,13 +21,13 @@ func (e *Entry[V]) Value() V {
 }
 
 func (e *Entry[V]) IsExpired() bool {
-	return time.Now().UnixMilli() > atomic.LoadInt64(&e.expiration)
+	return time.Now().UnixMilli() > e.expiration.Load()
 }
 
 func (e *Entry[V]) AddExpiration(d time.Duration) {
-	atomic.AddInt64(&e.expiration, int64(d.Milliseconds()))
+	e.expiration.Add(int64(d.Milliseconds()))
 }
 
 func (e *Entry[V]) SetExpiration(t time.Time) {
-	atomic.StoreInt64(&e.expiration, t.UnixMilli())
+	e.expiration.Store(t.UnixMilli())
 }
diff --git a/synccache/synccache.go b/synccache/synccache.go
index 8ef940d..6eba1dd 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -3,7 +3,6 @@ package synccache
 import (
 	"reflect"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/zijiren233/gencontainer/rwmap"
@@ -67,7 +66,7 @@ func (sc *SyncCache[K, V]) Close() {
 func (sc *SyncCache[K, V]) trim() {
 	now := time.Now().UnixMilli()
 	sc.cache.Range(func(key K, value *Entry[V]) bool {
-		if now > atomic.LoadInt64(&value.expiration) {
+		if now > value.expiration.Load() {
 			sc.CompareAndDelete(key, value)
 		}
 		return true
-- 
2.43.0


From 3fdce7a39d993554b1a2bdade5817a608d91a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:07 +0000
Subject: [PATCH 24/28] fix: rwmap still crashed in -race builds when it met a
 deleted entry of a large value type

---
 rwmap/rwmap.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 7f928dc..1e3ca26 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -75,11 +75,36 @@ var (
 	expungedUintptr = uintptr(expunged)
 )
 
-// expungedPtr returns expunged as a *V. It is only ever compared, never
-// dereferenced, and is not converted directly: V may be larger than the object
-// expunged points to, which the pointer checks of -race builds reject.
+// asPtr returns p as a *V without a conversion: p may be expunged, which is only
+// ever compared, never dereferenced, and V may be larger than the object expunged
+// points to, which the pointer checks of -race builds reject.
+func asPtr[V any](p unsafe.Pointer) *V {
+	return *(**V)(unsafe.Pointer(&p))
+}
+
 func expungedPtr[V any]() *V {
-	return *(**V)(unsafe.Pointer(&expunged))
+	return asPtr[V](expunged)
+}
+
+// valuePtr is an atomic.Pointer[V] that may hold expunged.
+type valuePtr[V any] struct {
+	v unsafe.Pointer
+}
+
+func (x *valuePtr[V]) Load() *V {
+	return asPtr[V](atomic.LoadPointer(&x.v))
+}
+
+func (x *valuePtr[V]) Store(val *V) {
+	atomic.StorePointer(&x.v, unsafe.Pointer(val))
+}
+
+func (x *valuePtr[V]) Swap(new *V) (old *V) {
+	return asPtr[V](atomic.SwapPointer(&x.v, unsafe.Pointer(new)))
+}
+
+func (x *valuePtr[V]) CompareAndSwap(old, new *V) (swapped bool) {
+	return atomic.CompareAndSwapPointer(&x.v, unsafe.Pointer(old), unsafe.Pointer(new))
 }
 
 // readOnly is an immutable struct stored atomically in the Map.read field.
@@ -109,7 +134,7 @@ type entry[V any] struct {
 	// p != expunged. If p == expunged, an entry's associated value can be updated
 	// only after first setting m.dirty[key] = e so that lookups using the dirty
 	// map find the entry.
-	p atomic.Pointer[V]
+	p valuePtr[V]
 }
 
 func newEntry[V any](i V) *entry[V] {
-- 
2.43.0


From 5426a73cd620fa6966667e2b7652d41b4eaf9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:39 +0000
Subject: [PATCH 25/28] fix: rwmap.CompareAndDelete leaves no deleted entry
 behind in the dirty map

A deleted entry stayed in the dirty map until its promotion, which every new key puts off:
storing new keys and removing them with CompareAndDelete made the map grow without end as
soon as one other key was in it.
---
 rwmap/rwmap.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 1e3ca26..f87f430 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -468,6 +468,7 @@ func (m *RWMap[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}()
 	read := m.loadReadOnly()
 	e, ok := read.m[key]
+	inDirty := false
 	if !ok && read.amended {
 		m.mu.Lock()
 		read = m.loadReadOnly()
@@ -482,6 +483,7 @@ func (m *RWMap[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 			// will take the slow path until the dirty map is promoted to the read
 			// map.
 			m.missLocked()
+			inDirty = ok
 		}
 		m.mu.Unlock()
 	}
@@ -492,12 +494,26 @@ func (m *RWMap[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
+			if inDirty {
+				m.dropDirty(key, e)
+			}
 			return true
 		}
 	}
 	return false
 }
 
+// dropDirty removes the deleted entry e of key from the dirty map, unless e is in use again
+// or shared with the read map. It would otherwise stay there until the dirty map is promoted,
+// which new keys put off.
+func (m *RWMap[K, V]) dropDirty(key K, e *entry[V]) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if _, ok := m.loadReadOnly().m[key]; !ok && m.dirty[key] == e && e.p.Load() == nil {
+		delete(m.dirty, key)
+	}
+}
+
 // Range calls f sequentially for each key and value present in the map.
 // If f returns false, range stops the iteration.
 //
-- 
2.43.0


From 9df9a9123cebc2e258db5a29d44f68694a554b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:19 +0000
Subject: [PATCH 26/28] fix: dllist.Sort needed memory quadratic in the length
 of lists that are sorted or have few distinct values

Each level of the recursion kept its whole sublist, so that sorting an already
sorted list of 50000 elements took over 30 GB. Sort a slice of the values instead.
---
 dllist/dllist.go | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index a70c56e..0784d4d 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -1,6 +1,8 @@
 // doubly linked list
 package dllist
 
+import "sort"
+
 // Dllist represents a doubly linked list.
 type Dllist[Item any] struct {
 	root Element[Item]
@@ -262,33 +264,13 @@ func (l *Dllist[T]) Sort(cmpLess func(T, T) bool) {
 		return
 	}
 
-	pivot := l.Front().Value
-	smaller := New[T]()
-	larger := New[T]()
-
-	l.Front().Next().Range(func(e *Element[T]) bool {
-		if cmpLess(e.Value, pivot) {
-			smaller.PushBack(e.Value)
-		} else {
-			larger.PushBack(e.Value)
-		}
-		return true
+	s := l.Slice()
+	sort.SliceStable(s, func(i, j int) bool {
+		return cmpLess(s[i], s[j])
 	})
 
-	smaller.Sort(cmpLess)
-	larger.Sort(cmpLess)
-
 	l.Clear()
-
-	smaller.Range(func(e *Element[T]) (Continue bool) {
-		l.PushBack(e.Value)
-		return true
-	})
-
-	l.PushBack(pivot)
-
-	larger.Range(func(e *Element[T]) (Continue bool) {
-		l.PushBack(e.Value)
-		return true
-	})
+	for _, v := range s {
+		l.PushBack(v)
+	}
 }
-- 
2.43.0


From eb75b9b8edcb51630991bd91c7e5261ccb42c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:29 +0000
Subject: [PATCH 27/28] fix: genmap.Clear left entries whose key is NaN in the
 map

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 35b4ac4..9cf59cd 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -98,7 +98,7 @@ func (m GenMap[K, V]) EqualFunc(m2 GenMap[K, V], eq func(V, V) bool) bool {
 }
 
 func (m GenMap[K, V]) Clear() GenMap[K, V] {
-	maps.Clear(m)
+	clear(m)
 	return m
 }
 
-- 
2.43.0


From f319a29b8b4f082ff7e7fa1f0f30445c8b28bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:29 +0000
Subject: [PATCH 28/28] fix: set.Clear left NaN in the set

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index 1361870..c725791 100644
--- a/set/set.go
+++ b/set/set.go
@@ -68,7 +68,7 @@ func (s Set[T]) IsEmpty() bool {
 }
 
 func (s Set[T]) Clear() Set[T] {
-	maps.Clear(s)
+	clear(s)
 	return s
 }
 
-- 
2.43.0

