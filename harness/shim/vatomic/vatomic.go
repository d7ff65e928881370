// Package vatomic stands in for sync/atomic in the code under test: every operation
// is a yield point of the scheduler.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifharness/sched"
)

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ p atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.Yield(); return x.p.Load() }
func (x *Pointer[T]) Store(v *T)                  { sched.Yield(); x.p.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { sched.Yield(); return x.p.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ p atomic.Value }

func (x *Value) Load() any                    { sched.Yield(); return x.p.Load() }
func (x *Value) Store(v any)                  { sched.Yield(); x.p.Store(v) }
func (x *Value) Swap(v any) any               { sched.Yield(); return x.p.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }

// Bool is atomic.Bool.
type Bool struct{ p atomic.Bool }

func (x *Bool) Load() bool                    { sched.Yield(); return x.p.Load() }
func (x *Bool) Store(v bool)                  { sched.Yield(); x.p.Store(v) }
func (x *Bool) Swap(v bool) bool              { sched.Yield(); return x.p.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }

// Int32 is atomic.Int32.
type Int32 struct{ p atomic.Int32 }

func (x *Int32) Load() int32                    { sched.Yield(); return x.p.Load() }
func (x *Int32) Store(v int32)                  { sched.Yield(); x.p.Store(v) }
func (x *Int32) Swap(v int32) int32             { sched.Yield(); return x.p.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { sched.Yield(); return x.p.Add(d) }
func (x *Int32) And(m int32) int32              { sched.Yield(); return x.p.And(m) }
func (x *Int32) Or(m int32) int32               { sched.Yield(); return x.p.Or(m) }

func LoadInt32(a *int32) int32          { sched.Yield(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { sched.Yield(); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { sched.Yield(); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	sched.Yield()
	return atomic.CompareAndSwapInt32(a, o, n)
}
func AddInt32(a *int32, d int32) int32 { sched.Yield(); return atomic.AddInt32(a, d) }
func AndInt32(a *int32, m int32) int32 { sched.Yield(); return atomic.AndInt32(a, m) }
func OrInt32(a *int32, m int32) int32  { sched.Yield(); return atomic.OrInt32(a, m) }

// Int64 is atomic.Int64.
type Int64 struct{ p atomic.Int64 }

func (x *Int64) Load() int64                    { sched.Yield(); return x.p.Load() }
func (x *Int64) Store(v int64)                  { sched.Yield(); x.p.Store(v) }
func (x *Int64) Swap(v int64) int64             { sched.Yield(); return x.p.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { sched.Yield(); return x.p.Add(d) }
func (x *Int64) And(m int64) int64              { sched.Yield(); return x.p.And(m) }
func (x *Int64) Or(m int64) int64               { sched.Yield(); return x.p.Or(m) }

func LoadInt64(a *int64) int64          { sched.Yield(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { sched.Yield(); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { sched.Yield(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	sched.Yield()
	return atomic.CompareAndSwapInt64(a, o, n)
}
func AddInt64(a *int64, d int64) int64 { sched.Yield(); return atomic.AddInt64(a, d) }
func AndInt64(a *int64, m int64) int64 { sched.Yield(); return atomic.AndInt64(a, m) }
func OrInt64(a *int64, m int64) int64  { sched.Yield(); return atomic.OrInt64(a, m) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ p atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sched.Yield(); return x.p.Load() }
func (x *Uint32) Store(v uint32)                  { sched.Yield(); x.p.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { sched.Yield(); return x.p.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { sched.Yield(); return x.p.Add(d) }
func (x *Uint32) And(m uint32) uint32             { sched.Yield(); return x.p.And(m) }
func (x *Uint32) Or(m uint32) uint32              { sched.Yield(); return x.p.Or(m) }

func LoadUint32(a *uint32) uint32           { sched.Yield(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { sched.Yield(); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { sched.Yield(); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	sched.Yield()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func AddUint32(a *uint32, d uint32) uint32 { sched.Yield(); return atomic.AddUint32(a, d) }
func AndUint32(a *uint32, m uint32) uint32 { sched.Yield(); return atomic.AndUint32(a, m) }
func OrUint32(a *uint32, m uint32) uint32  { sched.Yield(); return atomic.OrUint32(a, m) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ p atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sched.Yield(); return x.p.Load() }
func (x *Uint64) Store(v uint64)                  { sched.Yield(); x.p.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { sched.Yield(); return x.p.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { sched.Yield(); return x.p.Add(d) }
func (x *Uint64) And(m uint64) uint64             { sched.Yield(); return x.p.And(m) }
func (x *Uint64) Or(m uint64) uint64              { sched.Yield(); return x.p.Or(m) }

func LoadUint64(a *uint64) uint64           { sched.Yield(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { sched.Yield(); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { sched.Yield(); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	sched.Yield()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func AddUint64(a *uint64, d uint64) uint64 { sched.Yield(); return atomic.AddUint64(a, d) }
func AndUint64(a *uint64, m uint64) uint64 { sched.Yield(); return atomic.AndUint64(a, m) }
func OrUint64(a *uint64, m uint64) uint64  { sched.Yield(); return atomic.OrUint64(a, m) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ p atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { sched.Yield(); return x.p.Load() }
func (x *Uintptr) Store(v uintptr)                  { sched.Yield(); x.p.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { sched.Yield(); return x.p.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sched.Yield(); return x.p.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { sched.Yield(); return x.p.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { sched.Yield(); return x.p.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { sched.Yield(); return x.p.Or(m) }

func LoadUintptr(a *uintptr) uintptr            { sched.Yield(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { sched.Yield(); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { sched.Yield(); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	sched.Yield()
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func AddUintptr(a *uintptr, d uintptr) uintptr { sched.Yield(); return atomic.AddUintptr(a, d) }
func AndUintptr(a *uintptr, m uintptr) uintptr { sched.Yield(); return atomic.AndUintptr(a, m) }
func OrUintptr(a *uintptr, m uintptr) uintptr  { sched.Yield(); return atomic.OrUintptr(a, m) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { sched.Yield(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { sched.Yield(); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Yield()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.Yield()
	return atomic.CompareAndSwapPointer(a, o, n)
}
