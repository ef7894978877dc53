// Package vatomic stands in for sync/atomic: the same operations, each one a
// preemption point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"vmc.local/rt"
)

type Value struct{ v atomic.Value }

func (v *Value) Load() any                    { rt.P(); return v.v.Load() }
func (v *Value) Store(x any)                  { rt.P(); v.v.Store(x) }
func (v *Value) Swap(x any) any               { rt.P(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(a, b any) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { rt.P(); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)                  { rt.P(); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T                { rt.P(); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(a, b *T) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool                    { rt.P(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { rt.P(); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { rt.P(); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(a, b bool) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.P(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { rt.P(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.P()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	rt.P()
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32                    { rt.P(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { rt.P(); v.v.Store(x) }
func (v *Int32) Add(d int32) int32              { rt.P(); return v.v.Add(d) }
func (v *Int32) Swap(x int32) int32             { rt.P(); return v.v.Swap(x) }
func (v *Int32) CompareAndSwap(a, b int32) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

func LoadInt32(p *int32) int32          { rt.P(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { rt.P(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { rt.P(); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { rt.P(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	rt.P()
	return atomic.CompareAndSwapInt32(p, a, b)
}

type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64                    { rt.P(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { rt.P(); v.v.Store(x) }
func (v *Int64) Add(d int64) int64              { rt.P(); return v.v.Add(d) }
func (v *Int64) Swap(x int64) int64             { rt.P(); return v.v.Swap(x) }
func (v *Int64) CompareAndSwap(a, b int64) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

func LoadInt64(p *int64) int64          { rt.P(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { rt.P(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { rt.P(); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { rt.P(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	rt.P()
	return atomic.CompareAndSwapInt64(p, a, b)
}

type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32                    { rt.P(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { rt.P(); v.v.Store(x) }
func (v *Uint32) Add(d uint32) uint32             { rt.P(); return v.v.Add(d) }
func (v *Uint32) Swap(x uint32) uint32            { rt.P(); return v.v.Swap(x) }
func (v *Uint32) CompareAndSwap(a, b uint32) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

func LoadUint32(p *uint32) uint32           { rt.P(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { rt.P(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { rt.P(); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { rt.P(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	rt.P()
	return atomic.CompareAndSwapUint32(p, a, b)
}

type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64                    { rt.P(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { rt.P(); v.v.Store(x) }
func (v *Uint64) Add(d uint64) uint64             { rt.P(); return v.v.Add(d) }
func (v *Uint64) Swap(x uint64) uint64            { rt.P(); return v.v.Swap(x) }
func (v *Uint64) CompareAndSwap(a, b uint64) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

func LoadUint64(p *uint64) uint64           { rt.P(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { rt.P(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { rt.P(); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { rt.P(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	rt.P()
	return atomic.CompareAndSwapUint64(p, a, b)
}

type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr                    { rt.P(); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)                  { rt.P(); v.v.Store(x) }
func (v *Uintptr) Add(d uintptr) uintptr            { rt.P(); return v.v.Add(d) }
func (v *Uintptr) Swap(x uintptr) uintptr           { rt.P(); return v.v.Swap(x) }
func (v *Uintptr) CompareAndSwap(a, b uintptr) bool { rt.P(); return v.v.CompareAndSwap(a, b) }

func LoadUintptr(p *uintptr) uintptr            { rt.P(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { rt.P(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { rt.P(); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { rt.P(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	rt.P()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
