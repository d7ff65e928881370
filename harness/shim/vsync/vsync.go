// Package vsync stands in for sync in the code under test: every operation is a
// yield point of the scheduler, and waiting is done through it.
package vsync

import (
	"sync"
	"sync/atomic"
	"time"

	"verifharness/sched"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Pool is sync.Pool.
	Pool = sync.Pool
	// Map is sync.Map.
	Map = sync.Map
)

func wait(cond func() bool) {
	if sched.Block(cond) {
		return
	}
	nap := sched.Nap.Load()
	if nap == nil {
		for !cond() {
			time.Sleep(time.Millisecond)
		}
	}
	for d := time.Duration(30); !cond(); d = min(2*d, 100*time.Microsecond) {
		if sched.Abandoned.Load() {
			select {}
		}
		(*nap)(sched.G(), d)
	}
}

// Mutex is a mutual exclusion lock.
type Mutex struct{ locked atomic.Int32 }

func (m *Mutex) Lock() {
	sched.Yield()
	for !m.locked.CompareAndSwap(0, 1) {
		wait(func() bool { return m.locked.Load() == 0 })
	}
}

func (m *Mutex) TryLock() bool {
	sched.Yield()
	return m.locked.CompareAndSwap(0, 1)
}

func (m *Mutex) Unlock() {
	sched.Yield()
	if !m.locked.CompareAndSwap(1, 0) {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is a reader/writer lock. n: -1 written, else the number of readers.
type RWMutex struct{ n atomic.Int32 }

func (m *RWMutex) Lock() {
	sched.Yield()
	for !m.n.CompareAndSwap(0, -1) {
		wait(func() bool { return m.n.Load() == 0 })
	}
}

func (m *RWMutex) TryLock() bool {
	sched.Yield()
	return m.n.CompareAndSwap(0, -1)
}

func (m *RWMutex) Unlock() {
	sched.Yield()
	if !m.n.CompareAndSwap(-1, 0) {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

func (m *RWMutex) RLock() {
	sched.Yield()
	for !m.tryR() {
		wait(func() bool { return m.n.Load() >= 0 })
	}
}

func (m *RWMutex) tryR() bool {
	for {
		n := m.n.Load()
		if n < 0 {
			return false
		}
		if m.n.CompareAndSwap(n, n+1) {
			return true
		}
	}
}

func (m *RWMutex) TryRLock() bool {
	sched.Yield()
	return m.tryR()
}

func (m *RWMutex) RUnlock() {
	sched.Yield()
	if m.n.Add(-1) < 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once does something once.
type Once struct {
	done atomic.Bool
	mu   Mutex
}

func (o *Once) Do(f func()) {
	sched.Yield()
	if o.done.Load() {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// WaitGroup waits for a count to become zero.
type WaitGroup struct{ n atomic.Int64 }

func (w *WaitGroup) Add(d int) {
	sched.Yield()
	if w.n.Add(int64(d)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sched.Yield()
	if w.n.Load() != 0 {
		wait(func() bool { return w.n.Load() == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

// Cond is a condition variable.
type Cond struct {
	L      Locker
	mu     sync.Mutex
	next   int64
	served int64
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	sched.Yield()
	c.mu.Lock()
	t := c.next
	c.next++
	c.mu.Unlock()
	c.L.Unlock()
	wait(func() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.served > t })
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Yield()
	c.mu.Lock()
	if c.served < c.next {
		c.served++
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	sched.Yield()
	c.mu.Lock()
	c.served = c.next
	c.mu.Unlock()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
