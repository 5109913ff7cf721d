// Package vatomic mirrors package sync/atomic on top of the deterministic scheduler.
package vatomic

import (
	"unsafe"

	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

// Int32 mirrors atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32        { vs.Point(); return x.v }
func (x *Int32) Store(v int32)      { vs.Point(); x.v = v }
func (x *Int32) Swap(v int32) int32 { vs.Point(); o := x.v; x.v = v; return o }
func (x *Int32) Add(d int32) int32  { vs.Point(); x.v += d; return x.v }
func (x *Int32) And(m int32) int32  { vs.Point(); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32   { vs.Point(); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadInt32(p *int32) int32          { vs.Point(); return *p }
func StoreInt32(p *int32, v int32)      { vs.Point(); *p = v }
func SwapInt32(p *int32, v int32) int32 { vs.Point(); o := *p; *p = v; return o }
func AddInt32(p *int32, d int32) int32  { vs.Point(); *p += d; return *p }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Int64 mirrors atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64        { vs.Point(); return x.v }
func (x *Int64) Store(v int64)      { vs.Point(); x.v = v }
func (x *Int64) Swap(v int64) int64 { vs.Point(); o := x.v; x.v = v; return o }
func (x *Int64) Add(d int64) int64  { vs.Point(); x.v += d; return x.v }
func (x *Int64) And(m int64) int64  { vs.Point(); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64   { vs.Point(); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadInt64(p *int64) int64          { vs.Point(); return *p }
func StoreInt64(p *int64, v int64)      { vs.Point(); *p = v }
func SwapInt64(p *int64, v int64) int64 { vs.Point(); o := *p; *p = v; return o }
func AddInt64(p *int64, d int64) int64  { vs.Point(); *p += d; return *p }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uint32 mirrors atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32         { vs.Point(); return x.v }
func (x *Uint32) Store(v uint32)       { vs.Point(); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { vs.Point(); o := x.v; x.v = v; return o }
func (x *Uint32) Add(d uint32) uint32  { vs.Point(); x.v += d; return x.v }
func (x *Uint32) And(m uint32) uint32  { vs.Point(); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32   { vs.Point(); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadUint32(p *uint32) uint32           { vs.Point(); return *p }
func StoreUint32(p *uint32, v uint32)       { vs.Point(); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { vs.Point(); o := *p; *p = v; return o }
func AddUint32(p *uint32, d uint32) uint32  { vs.Point(); *p += d; return *p }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uint64 mirrors atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64         { vs.Point(); return x.v }
func (x *Uint64) Store(v uint64)       { vs.Point(); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { vs.Point(); o := x.v; x.v = v; return o }
func (x *Uint64) Add(d uint64) uint64  { vs.Point(); x.v += d; return x.v }
func (x *Uint64) And(m uint64) uint64  { vs.Point(); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64   { vs.Point(); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadUint64(p *uint64) uint64           { vs.Point(); return *p }
func StoreUint64(p *uint64, v uint64)       { vs.Point(); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { vs.Point(); o := *p; *p = v; return o }
func AddUint64(p *uint64, d uint64) uint64  { vs.Point(); *p += d; return *p }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uintptr mirrors atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr          { vs.Point(); return x.v }
func (x *Uintptr) Store(v uintptr)        { vs.Point(); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr { vs.Point(); o := x.v; x.v = v; return o }
func (x *Uintptr) Add(d uintptr) uintptr  { vs.Point(); x.v += d; return x.v }
func (x *Uintptr) And(m uintptr) uintptr  { vs.Point(); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr   { vs.Point(); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadUintptr(p *uintptr) uintptr            { vs.Point(); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { vs.Point(); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vs.Point(); o := *p; *p = v; return o }
func AddUintptr(p *uintptr, d uintptr) uintptr  { vs.Point(); *p += d; return *p }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Bool mirrors atomic.Bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool       { vs.Point(); return x.v }
func (x *Bool) Store(v bool)     { vs.Point(); x.v = v }
func (x *Bool) Swap(v bool) bool { vs.Point(); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Pointer mirrors atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { vs.Point(); return x.v }
func (x *Pointer[T]) Store(v *T)   { vs.Point(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { vs.Point(); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Value mirrors atomic.Value.
type Value struct{ v any }

func (x *Value) Load() any      { vs.Point(); return x.v }
func (x *Value) Store(v any)    { vs.Point(); x.v = v }
func (x *Value) Swap(v any) any { vs.Point(); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vs.Point(); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vs.Point(); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.Point()
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}
