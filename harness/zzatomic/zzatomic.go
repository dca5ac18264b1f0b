// Package zzatomic stands in for package sync/atomic under the explorer: before every operation another thread may be
// chosen. Generated by a script; it has nothing but wrappers.
package zzatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/zzsched"
)

func LoadInt32(a *int32) int32          { zzsched.Point(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { zzsched.Point(); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { zzsched.Point(); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, x, v int32) bool {
	zzsched.Point()
	return atomic.CompareAndSwapInt32(a, x, v)
}
func AddInt32(a *int32, v int32) int32  { zzsched.Point(); return atomic.AddInt32(a, v) }
func AndInt32(a *int32, v int32) int32  { zzsched.Point(); return atomic.AndInt32(a, v) }
func OrInt32(a *int32, v int32) int32   { zzsched.Point(); return atomic.OrInt32(a, v) }
func LoadInt64(a *int64) int64          { zzsched.Point(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { zzsched.Point(); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { zzsched.Point(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, x, v int64) bool {
	zzsched.Point()
	return atomic.CompareAndSwapInt64(a, x, v)
}
func AddInt64(a *int64, v int64) int64      { zzsched.Point(); return atomic.AddInt64(a, v) }
func AndInt64(a *int64, v int64) int64      { zzsched.Point(); return atomic.AndInt64(a, v) }
func OrInt64(a *int64, v int64) int64       { zzsched.Point(); return atomic.OrInt64(a, v) }
func LoadUint32(a *uint32) uint32           { zzsched.Point(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { zzsched.Point(); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { zzsched.Point(); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, x, v uint32) bool {
	zzsched.Point()
	return atomic.CompareAndSwapUint32(a, x, v)
}
func AddUint32(a *uint32, v uint32) uint32  { zzsched.Point(); return atomic.AddUint32(a, v) }
func AndUint32(a *uint32, v uint32) uint32  { zzsched.Point(); return atomic.AndUint32(a, v) }
func OrUint32(a *uint32, v uint32) uint32   { zzsched.Point(); return atomic.OrUint32(a, v) }
func LoadUint64(a *uint64) uint64           { zzsched.Point(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { zzsched.Point(); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { zzsched.Point(); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, x, v uint64) bool {
	zzsched.Point()
	return atomic.CompareAndSwapUint64(a, x, v)
}
func AddUint64(a *uint64, v uint64) uint64      { zzsched.Point(); return atomic.AddUint64(a, v) }
func AndUint64(a *uint64, v uint64) uint64      { zzsched.Point(); return atomic.AndUint64(a, v) }
func OrUint64(a *uint64, v uint64) uint64       { zzsched.Point(); return atomic.OrUint64(a, v) }
func LoadUintptr(a *uintptr) uintptr            { zzsched.Point(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { zzsched.Point(); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { zzsched.Point(); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, x, v uintptr) bool {
	zzsched.Point()
	return atomic.CompareAndSwapUintptr(a, x, v)
}
func AddUintptr(a *uintptr, v uintptr) uintptr         { zzsched.Point(); return atomic.AddUintptr(a, v) }
func AndUintptr(a *uintptr, v uintptr) uintptr         { zzsched.Point(); return atomic.AndUintptr(a, v) }
func OrUintptr(a *uintptr, v uintptr) uintptr          { zzsched.Point(); return atomic.OrUintptr(a, v) }
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { zzsched.Point(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { zzsched.Point(); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	zzsched.Point()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, x, v unsafe.Pointer) bool {
	zzsched.Point()
	return atomic.CompareAndSwapPointer(a, x, v)
}

type Int32 struct{ real atomic.Int32 }

func (x *Int32) Load() int32                    { zzsched.Point(); return x.real.Load() }
func (x *Int32) Store(v int32)                  { zzsched.Point(); x.real.Store(v) }
func (x *Int32) Swap(v int32) int32             { zzsched.Point(); return x.real.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { zzsched.Point(); return x.real.CompareAndSwap(o, v) }
func (x *Int32) Add(v int32) int32              { zzsched.Point(); return x.real.Add(v) }
func (x *Int32) And(v int32) int32              { zzsched.Point(); return x.real.And(v) }
func (x *Int32) Or(v int32) int32               { zzsched.Point(); return x.real.Or(v) }

type Int64 struct{ real atomic.Int64 }

func (x *Int64) Load() int64                    { zzsched.Point(); return x.real.Load() }
func (x *Int64) Store(v int64)                  { zzsched.Point(); x.real.Store(v) }
func (x *Int64) Swap(v int64) int64             { zzsched.Point(); return x.real.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { zzsched.Point(); return x.real.CompareAndSwap(o, v) }
func (x *Int64) Add(v int64) int64              { zzsched.Point(); return x.real.Add(v) }
func (x *Int64) And(v int64) int64              { zzsched.Point(); return x.real.And(v) }
func (x *Int64) Or(v int64) int64               { zzsched.Point(); return x.real.Or(v) }

type Uint32 struct{ real atomic.Uint32 }

func (x *Uint32) Load() uint32         { zzsched.Point(); return x.real.Load() }
func (x *Uint32) Store(v uint32)       { zzsched.Point(); x.real.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { zzsched.Point(); return x.real.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool {
	zzsched.Point()
	return x.real.CompareAndSwap(o, v)
}
func (x *Uint32) Add(v uint32) uint32 { zzsched.Point(); return x.real.Add(v) }
func (x *Uint32) And(v uint32) uint32 { zzsched.Point(); return x.real.And(v) }
func (x *Uint32) Or(v uint32) uint32  { zzsched.Point(); return x.real.Or(v) }

type Uint64 struct{ real atomic.Uint64 }

func (x *Uint64) Load() uint64         { zzsched.Point(); return x.real.Load() }
func (x *Uint64) Store(v uint64)       { zzsched.Point(); x.real.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { zzsched.Point(); return x.real.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool {
	zzsched.Point()
	return x.real.CompareAndSwap(o, v)
}
func (x *Uint64) Add(v uint64) uint64 { zzsched.Point(); return x.real.Add(v) }
func (x *Uint64) And(v uint64) uint64 { zzsched.Point(); return x.real.And(v) }
func (x *Uint64) Or(v uint64) uint64  { zzsched.Point(); return x.real.Or(v) }

type Uintptr struct{ real atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { zzsched.Point(); return x.real.Load() }
func (x *Uintptr) Store(v uintptr)        { zzsched.Point(); x.real.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { zzsched.Point(); return x.real.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool {
	zzsched.Point()
	return x.real.CompareAndSwap(o, v)
}
func (x *Uintptr) Add(v uintptr) uintptr { zzsched.Point(); return x.real.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr { zzsched.Point(); return x.real.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr  { zzsched.Point(); return x.real.Or(v) }

type Bool struct{ real atomic.Bool }

func (x *Bool) Load() bool                    { zzsched.Point(); return x.real.Load() }
func (x *Bool) Store(v bool)                  { zzsched.Point(); x.real.Store(v) }
func (x *Bool) Swap(v bool) bool              { zzsched.Point(); return x.real.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { zzsched.Point(); return x.real.CompareAndSwap(o, v) }

type Pointer[T any] struct{ real atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { zzsched.Point(); return x.real.Load() }
func (x *Pointer[T]) Store(v *T)   { zzsched.Point(); x.real.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { zzsched.Point(); return x.real.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	zzsched.Point()
	return x.real.CompareAndSwap(o, v)
}

type Value struct{ real atomic.Value }

func (x *Value) Load() any                    { zzsched.Point(); return x.real.Load() }
func (x *Value) Store(v any)                  { zzsched.Point(); x.real.Store(v) }
func (x *Value) Swap(v any) any               { zzsched.Point(); return x.real.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { zzsched.Point(); return x.real.CompareAndSwap(o, v) }
