//go:build go1.23

// Package atomic stands in for sync/atomic in the instrumented code: a scheduling point before every operation.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"verif/harness/sched"
)

func LoadInt32(p *int32) int32          { sched.SyncPoint(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sched.SyncPoint(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { sched.SyncPoint(); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { sched.SyncPoint(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	sched.SyncPoint()
	return atomic.CompareAndSwapInt32(p, o, v)
}
func AndInt32(p *int32, v int32) int32 { sched.SyncPoint(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32  { sched.SyncPoint(); return atomic.OrInt32(p, v) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sched.SyncPoint(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { sched.SyncPoint(); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { sched.SyncPoint(); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { sched.SyncPoint(); return x.v.CompareAndSwap(o, v) }
func (x *Int32) And(v int32) int32              { sched.SyncPoint(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { sched.SyncPoint(); return x.v.Or(v) }

func LoadInt64(p *int64) int64          { sched.SyncPoint(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { sched.SyncPoint(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { sched.SyncPoint(); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { sched.SyncPoint(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	sched.SyncPoint()
	return atomic.CompareAndSwapInt64(p, o, v)
}
func AndInt64(p *int64, v int64) int64 { sched.SyncPoint(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64  { sched.SyncPoint(); return atomic.OrInt64(p, v) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sched.SyncPoint(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { sched.SyncPoint(); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { sched.SyncPoint(); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { sched.SyncPoint(); return x.v.CompareAndSwap(o, v) }
func (x *Int64) And(v int64) int64              { sched.SyncPoint(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { sched.SyncPoint(); return x.v.Or(v) }

func LoadUint32(p *uint32) uint32           { sched.SyncPoint(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { sched.SyncPoint(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { sched.SyncPoint(); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { sched.SyncPoint(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	sched.SyncPoint()
	return atomic.CompareAndSwapUint32(p, o, v)
}
func AndUint32(p *uint32, v uint32) uint32 { sched.SyncPoint(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { sched.SyncPoint(); return atomic.OrUint32(p, v) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sched.SyncPoint(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { sched.SyncPoint(); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { sched.SyncPoint(); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { sched.SyncPoint(); return x.v.CompareAndSwap(o, v) }
func (x *Uint32) And(v uint32) uint32             { sched.SyncPoint(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { sched.SyncPoint(); return x.v.Or(v) }

func LoadUint64(p *uint64) uint64           { sched.SyncPoint(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { sched.SyncPoint(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { sched.SyncPoint(); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { sched.SyncPoint(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	sched.SyncPoint()
	return atomic.CompareAndSwapUint64(p, o, v)
}
func AndUint64(p *uint64, v uint64) uint64 { sched.SyncPoint(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { sched.SyncPoint(); return atomic.OrUint64(p, v) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sched.SyncPoint(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { sched.SyncPoint(); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { sched.SyncPoint(); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { sched.SyncPoint(); return x.v.CompareAndSwap(o, v) }
func (x *Uint64) And(v uint64) uint64             { sched.SyncPoint(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { sched.SyncPoint(); return x.v.Or(v) }

func LoadUintptr(p *uintptr) uintptr            { sched.SyncPoint(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { sched.SyncPoint(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { sched.SyncPoint(); return atomic.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sched.SyncPoint(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	sched.SyncPoint()
	return atomic.CompareAndSwapUintptr(p, o, v)
}
func AndUintptr(p *uintptr, v uintptr) uintptr { sched.SyncPoint(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr  { sched.SyncPoint(); return atomic.OrUintptr(p, v) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { sched.SyncPoint(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { sched.SyncPoint(); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { sched.SyncPoint(); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool {
	sched.SyncPoint()
	return x.v.CompareAndSwap(o, v)
}
func (x *Uintptr) And(v uintptr) uintptr { sched.SyncPoint(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr  { sched.SyncPoint(); return x.v.Or(v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sched.SyncPoint(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sched.SyncPoint(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.SyncPoint()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	sched.SyncPoint()
	return atomic.CompareAndSwapPointer(p, o, v)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sched.SyncPoint(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sched.SyncPoint(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { sched.SyncPoint(); return x.v.CompareAndSwap(o, v) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.SyncPoint(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { sched.SyncPoint(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { sched.SyncPoint(); return x.v.CompareAndSwap(o, v) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { sched.SyncPoint(); return x.v.Load() }
func (x *Value) Store(v any)                  { sched.SyncPoint(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { sched.SyncPoint(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { sched.SyncPoint(); return x.v.CompareAndSwap(o, v) }
