//go:build go1.24

// Package zatomic replaces sync/atomic in instrumented code: a scheduling point,
// then the real operation (through a function variable, so that it is not
// inlined and the race detector sees it). Generated by tools/gen/genatomic.py.
package zatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

var (
	fLoadInt32             = atomic.LoadInt32
	fStoreInt32            = atomic.StoreInt32
	fSwapInt32             = atomic.SwapInt32
	fCompareAndSwapInt32   = atomic.CompareAndSwapInt32
	fAddInt32              = atomic.AddInt32
	fAndInt32              = atomic.AndInt32
	fOrInt32               = atomic.OrInt32
	fLoadInt64             = atomic.LoadInt64
	fStoreInt64            = atomic.StoreInt64
	fSwapInt64             = atomic.SwapInt64
	fCompareAndSwapInt64   = atomic.CompareAndSwapInt64
	fAddInt64              = atomic.AddInt64
	fAndInt64              = atomic.AndInt64
	fOrInt64               = atomic.OrInt64
	fLoadUint32            = atomic.LoadUint32
	fStoreUint32           = atomic.StoreUint32
	fSwapUint32            = atomic.SwapUint32
	fCompareAndSwapUint32  = atomic.CompareAndSwapUint32
	fAddUint32             = atomic.AddUint32
	fAndUint32             = atomic.AndUint32
	fOrUint32              = atomic.OrUint32
	fLoadUint64            = atomic.LoadUint64
	fStoreUint64           = atomic.StoreUint64
	fSwapUint64            = atomic.SwapUint64
	fCompareAndSwapUint64  = atomic.CompareAndSwapUint64
	fAddUint64             = atomic.AddUint64
	fAndUint64             = atomic.AndUint64
	fOrUint64              = atomic.OrUint64
	fLoadUintptr           = atomic.LoadUintptr
	fStoreUintptr          = atomic.StoreUintptr
	fSwapUintptr           = atomic.SwapUintptr
	fCompareAndSwapUintptr = atomic.CompareAndSwapUintptr
	fAddUintptr            = atomic.AddUintptr
	fAndUintptr            = atomic.AndUintptr
	fOrUintptr             = atomic.OrUintptr
	fLoadPointer           = atomic.LoadPointer
	fStorePointer          = atomic.StorePointer
	fSwapPointer           = atomic.SwapPointer
	fCompareAndSwapPointer = atomic.CompareAndSwapPointer
)

// LoadInt32 and the following are as in sync/atomic.
func LoadInt32(a *int32) int32          { zzrt.Point(60); return fLoadInt32(a) }
func StoreInt32(a *int32, v int32)      { zzrt.Point(61); fStoreInt32(a, v); zzrt.Point(66) }
func SwapInt32(a *int32, v int32) int32 { zzrt.Point(62); return fSwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, v int32) bool {
	zzrt.Point(63)
	return fCompareAndSwapInt32(a, o, v)
}
func AddInt32(a *int32, d int32) int32 { zzrt.Point(64); return fAddInt32(a, d) }
func AndInt32(a *int32, d int32) int32 { zzrt.Point(65); return fAndInt32(a, d) }
func OrInt32(a *int32, d int32) int32  { zzrt.Point(65); return fOrInt32(a, d) }

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }

// LoadInt64 and the following are as in sync/atomic.
func LoadInt64(a *int64) int64          { zzrt.Point(60); return fLoadInt64(a) }
func StoreInt64(a *int64, v int64)      { zzrt.Point(61); fStoreInt64(a, v); zzrt.Point(66) }
func SwapInt64(a *int64, v int64) int64 { zzrt.Point(62); return fSwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, v int64) bool {
	zzrt.Point(63)
	return fCompareAndSwapInt64(a, o, v)
}
func AddInt64(a *int64, d int64) int64 { zzrt.Point(64); return fAddInt64(a, d) }
func AndInt64(a *int64, d int64) int64 { zzrt.Point(65); return fAndInt64(a, d) }
func OrInt64(a *int64, d int64) int64  { zzrt.Point(65); return fOrInt64(a, d) }

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }

// LoadUint32 and the following are as in sync/atomic.
func LoadUint32(a *uint32) uint32           { zzrt.Point(60); return fLoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { zzrt.Point(61); fStoreUint32(a, v); zzrt.Point(66) }
func SwapUint32(a *uint32, v uint32) uint32 { zzrt.Point(62); return fSwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, v uint32) bool {
	zzrt.Point(63)
	return fCompareAndSwapUint32(a, o, v)
}
func AddUint32(a *uint32, d uint32) uint32 { zzrt.Point(64); return fAddUint32(a, d) }
func AndUint32(a *uint32, d uint32) uint32 { zzrt.Point(65); return fAndUint32(a, d) }
func OrUint32(a *uint32, d uint32) uint32  { zzrt.Point(65); return fOrUint32(a, d) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }

// LoadUint64 and the following are as in sync/atomic.
func LoadUint64(a *uint64) uint64           { zzrt.Point(60); return fLoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { zzrt.Point(61); fStoreUint64(a, v); zzrt.Point(66) }
func SwapUint64(a *uint64, v uint64) uint64 { zzrt.Point(62); return fSwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, v uint64) bool {
	zzrt.Point(63)
	return fCompareAndSwapUint64(a, o, v)
}
func AddUint64(a *uint64, d uint64) uint64 { zzrt.Point(64); return fAddUint64(a, d) }
func AndUint64(a *uint64, d uint64) uint64 { zzrt.Point(65); return fAndUint64(a, d) }
func OrUint64(a *uint64, d uint64) uint64  { zzrt.Point(65); return fOrUint64(a, d) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }

// LoadUintptr and the following are as in sync/atomic.
func LoadUintptr(a *uintptr) uintptr            { zzrt.Point(60); return fLoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { zzrt.Point(61); fStoreUintptr(a, v); zzrt.Point(66) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { zzrt.Point(62); return fSwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, v uintptr) bool {
	zzrt.Point(63)
	return fCompareAndSwapUintptr(a, o, v)
}
func AddUintptr(a *uintptr, d uintptr) uintptr { zzrt.Point(64); return fAddUintptr(a, d) }
func AndUintptr(a *uintptr, d uintptr) uintptr { zzrt.Point(65); return fAndUintptr(a, d) }
func OrUintptr(a *uintptr, d uintptr) uintptr  { zzrt.Point(65); return fOrUintptr(a, d) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }

// LoadPointer and the following are as in sync/atomic.
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer { zzrt.Point(60); return fLoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) {
	zzrt.Point(61)
	fStorePointer(a, v)
	zzrt.Point(66)
}
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	zzrt.Point(62)
	return fSwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, v unsafe.Pointer) bool {
	zzrt.Point(63)
	return fCompareAndSwapPointer(a, o, v)
}

// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, v bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(v)) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(v))
}

// Value is atomic.Value.
type Value struct{ p unsafe.Pointer }

func (x *Value) Load() any {
	p := (*any)(LoadPointer(&x.p))
	if p == nil {
		return nil
	}
	return *p
}
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	StorePointer(&x.p, unsafe.Pointer(&v))
}
func (x *Value) Swap(v any) any {
	p := (*any)(SwapPointer(&x.p, unsafe.Pointer(&v)))
	if p == nil {
		return nil
	}
	return *p
}
func (x *Value) CompareAndSwap(o, v any) bool {
	p := (*any)(LoadPointer(&x.p))
	if p == nil {
		if o != nil {
			return false
		}
	} else if *p != o {
		return false
	}
	return CompareAndSwapPointer(&x.p, unsafe.Pointer(p), unsafe.Pointer(&v))
}
