package mem

import (
	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
)

type listSubject struct {
	l    *dllist.Dllist[*payload]
	next int
	kept *dllist.Element[*payload] // a handle that outlives its element's stay in the list
}

func (s *listSubject) fresh() *payload { s.next++; return newPayload(s.next) }

func (s *listSubject) live() int { return s.l.Len() }

func (s *listSubject) op(o Op) {
	switch o.K {
	case "pushBack":
		s.l.PushBack(s.fresh())
	case "pushFront":
		s.l.PushFront(s.fresh())
	case "insert":
		if e := s.l.Front(); e != nil {
			s.l.InsertAfter(s.fresh(), e)
			e.InsertBefore(s.fresh())
		}
	case "move":
		if e := s.l.Back(); e != nil {
			s.l.MoveToFront(e)
			s.l.MoveAfter(e, s.l.Back())
		}
	case "swap":
		if s.l.Len() > 1 {
			s.l.Swap(s.l.Front(), s.l.Back())
		}
	case "splice":
		o := dllist.New[*payload]()
		o.PushBack(s.fresh())
		s.l.PushBackList(o)
		s.l.PushFrontList(o)
	case "sort":
		s.l.Sort(func(a, b *payload) bool { return a[0] < b[0] })
	case "keep":
		if s.kept == nil {
			s.kept = s.l.Front()
		}
	case "stale":
		if e := s.l.Front(); e != nil {
			s.l.Remove(e)
			s.l.MoveToBack(e)
			s.l.Remove(e)
		}
	}
}

func (s *listSubject) remove(how string) {
	switch how {
	case "front":
		s.l.Remove(s.l.Front())
	case "back":
		s.l.Back().Remove()
	case "clear":
		s.l.Clear()
	}
}

type vecSubject struct {
	v    *vec.Vec[*payload]
	next int
}

func (s *vecSubject) fresh() *payload { s.next++; return newPayload(s.next) }

func (s *vecSubject) live() int { return s.v.Len() }

func (s *vecSubject) op(o Op) {
	switch o.K {
	case "push":
		s.v.Push(s.fresh())
	case "push2":
		s.v.Push(s.fresh(), s.fresh())
	case "insert":
		s.v.Insert(s.v.Len()/2, s.fresh())
	case "insertFront":
		s.v.Insert(0, s.fresh(), s.fresh())
	case "set":
		if n := s.v.Len(); n > 0 {
			s.v.Set(n-1, s.fresh())
			s.v.Set(0, s.fresh())
		}
	case "replace":
		if n := s.v.Len(); n > 0 {
			s.v.Replace(n/2, n, s.fresh())
		}
	case "sort":
		s.v.SortFunc(func(a, b *payload) bool { return a[0] < b[0] }, func(a, b *payload) bool { return a[0] == b[0] })
	case "clone":
		s.v.Clone().Push(s.fresh())
	case "clip":
		s.v.Clip()
	case "grow":
		s.v.Grow(o.A)
	case "reverse":
		s.v.Reverse()
	}
}

func (s *vecSubject) remove(how string) {
	switch how {
	case "pop":
		s.v.Pop()
	case "remove":
		s.v.Remove(0)
	case "delete":
		s.v.Delete(0, (s.v.Len()+1)/2)
	case "cut":
		s.v.Cut(s.v.Len()/2, s.v.Len())
	case "cutFront":
		s.v.Cut(0, 1)
	case "split":
		s.v.SplitOff(s.v.Len() / 2)
	case "splitKeep": // go on with the part split off
		n := s.v.Len()
		s.v = s.v.SplitOff((n + 1) / 2)
	case "clear":
		s.v.Clear()
	}
}

type ptrHeap []*payload

func (h ptrHeap) Len() int           { return len(h) }
func (h ptrHeap) Less(i, j int) bool { return h[i][0] < h[j][0] }
func (h ptrHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ptrHeap) Push(x *payload)   { *h = append(*h, x) }
func (h *ptrHeap) Pop() *payload {
	old := *h
	x := old[len(old)-1]
	old[len(old)-1] = nil
	*h = old[:len(old)-1]
	return x
}

type heapSubject struct {
	p    ptrHeap
	min  heap.MinHeap[string]
	max  heap.MaxHeap[string]
	q    *pqueue.PQueue[*payload]
	r    *pqueue.PQueue[*payload]
	next int
}

func (s *heapSubject) live() int { return s.p.Len() }

func (s *heapSubject) op(o Op) {
	s.next++
	prio := s.next * 7919 % 1000
	switch o.K {
	case "push", "pushUp", "pushDown":
		if o.K == "pushUp" {
			prio = s.next
		} else if o.K == "pushDown" {
			prio = -s.next
		}
		heap.Push[*payload](&s.p, newPayload(prio))
		heap.Push[string](&s.min, string(make([]byte, 40+prio&3)))
		heap.Push[string](&s.max, string(make([]byte, 40+prio&3)))
		s.q.Push(prio, newPayload(prio))
		s.r.Push(prio, newPayload(prio))
	case "fix":
		if s.p.Len() > 0 {
			i := prio % s.p.Len()
			s.p[i][0] = int64(prio)
			heap.Fix[*payload](&s.p, i)
		}
	case "init":
		heap.Init[*payload](&s.p)
	}
}

func (s *heapSubject) remove(how string) {
	switch how {
	case "pop":
		heap.Pop[*payload](&s.p)
		heap.Pop[string](&s.min)
		heap.Pop[string](&s.max)
	case "remove":
		heap.Remove[*payload](&s.p, s.p.Len()/2)
		heap.Remove[string](&s.min, s.min.Len()/2)
		heap.Remove[string](&s.max, s.max.Len()-1)
	}
	s.q.Pop()
	s.r.Pop()
}

type ringSubject struct {
	r *ring.Ring[*payload]
	n int
}

func (s *ringSubject) live() int { return s.n - 1 }

func (s *ringSubject) op(o Op) {
	switch o.K {
	case "link":
		x := ring.New[*payload](1)
		x.Value = newPayload(1)
		s.r.Link(x)
		s.n++
	case "link2":
		x := ring.New[*payload](2)
		x.Value = newPayload(1)
		s.r.Prev().Link(x)
		s.n += 2
	case "move":
		s.r = s.r.Move(o.A - 2)
	}
}

func (s *ringSubject) remove(how string) {
	switch how {
	case "unlink":
		s.r.Unlink(1)
		s.n--
	case "unlinkAll":
		s.r.Unlink(s.n - 1)
		s.n = 1
	case "unlinkPrev": // go on with the part taken out
		k := (s.n + 1) / 2
		s.r = s.r.Unlink(k)
		s.n = k
		if s.n > 1 {
			s.r.Unlink(s.n - 1)
			s.n = 1
		}
	case "linkSelf":
		// linking a ring with itself takes out what lies between
		s.r.Link(s.r.Move(2))
		s.n = s.r.Len()
	}
}

type treeSubject struct {
	root *tree.Node[*payload]
	n    int
}

func (s *treeSubject) live() int { return s.n }

func (s *treeSubject) op(o Op) {
	switch o.K {
	case "left":
		s.root.SetLeft(tree.NewNode(newPayload(1)))
		s.n++
	case "right":
		x := tree.NewNode(newPayload(1))
		x.SetLeft(tree.NewNode(newPayload(2)))
		s.root.SetRight(x)
		s.n++
	case "reroot": // the old root becomes a child and is cut off again
		x := tree.NewNode(newPayload(3))
		x.SetLeft(s.root)
		s.root = x
		s.n++
	case "swap":
		l := s.root.SetLeft(nil)
		r := s.root.SetRight(l)
		s.root.SetLeft(r)
	case "draw":
		if o.A == 0 {
			s.root.TraversalBFS()
			s.root.TraversalDFS()
			s.root.MaxDepth()
		}
	}
}

func (s *treeSubject) remove(how string) {
	s.n = 0
	switch how {
	case "nil":
		s.root.SetLeft(nil)
		s.root.SetRight(nil)
	case "child": // go on with a child
		if l := s.root.SetLeft(nil); l != nil {
			s.root = l
		}
		s.root.SetLeft(nil)
		s.root.SetRight(nil)
	}
}

type hrSubject struct {
	window
	h *hashring.HashRing[int]
}

func (s *hrSubject) op(o Op) {
	switch o.K {
	case "add":
		s.h.AddNodes(s.fresh())
	case "addAgain":
		if k := s.some(o.A); k != 0 {
			s.h.AddNodes(k, s.fresh(), k)
		}
	case "get":
		s.h.GetNode(o.A)
	}
}

func (s *hrSubject) remove(how string) {
	switch how {
	case "remove":
		s.h.RemoveNodes(s.oldest(), -1)
	case "reset":
		s.oldest()
		s.h.ResetNodes(s.keys...)
	case "resetAll":
		s.clear()
		s.h.ResetNodes()
	}
}

func restKinds() map[string]kind {
	return map[string]kind{
		"dllist": {[]string{"pushBack", "pushFront", "insert", "move", "swap", "splice", "sort", "stale", "keep", "keep"}, []string{"front", "back", "clear"}, func() subject {
			return &listSubject{l: dllist.New[*payload]()}
		}},
		"vec": {[]string{"push", "push2", "insert", "insertFront", "set", "replace", "sort", "clone", "clip", "grow", "reverse"}, []string{"pop", "remove", "delete", "cut", "cutFront", "split", "splitKeep", "clear"}, func() subject {
			return &vecSubject{v: vec.New[*payload]()}
		}},
		"heap": {[]string{"push", "pushUp", "pushDown", "fix", "init"}, []string{"pop", "remove"}, func() subject {
			return &heapSubject{q: pqueue.NewMinPriorityQueue[*payload](), r: pqueue.NewMaxPriorityQueue[*payload]()}
		}},
		"ring":     {[]string{"link", "link2", "move"}, []string{"unlink", "unlinkAll", "unlinkPrev", "linkSelf"}, func() subject { return &ringSubject{r: ring.New[*payload](1), n: 1} }},
		"tree":     {[]string{"left", "right", "reroot", "swap", "draw"}, []string{"nil", "child"}, func() subject { return &treeSubject{root: tree.NewNode(newPayload(0))} }},
		"hashring": {[]string{"add", "addAgain", "get"}, []string{"remove", "reset", "resetAll"}, func() subject { return &hrSubject{h: hashring.New[int](3)} }},
	}
}
