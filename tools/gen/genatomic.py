#!/usr/bin/env python3
# Generates sim/zatomic/zatomic.go
out=['''//go:build go1.24

// Package zatomic replaces sync/atomic in instrumented code: a scheduling point,
// then the real operation (through a function variable, so that it is not
// inlined and the race detector sees it). Generated by tools/gen/genatomic.py.
package zatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

var (
''']
T=[("Int32","int32"),("Int64","int64"),("Uint32","uint32"),("Uint64","uint64"),("Uintptr","uintptr"),("Pointer","unsafe.Pointer")]
ops=["Load","Store","Swap","CompareAndSwap","Add","And","Or"]
def has(op,n): return not(op in("Add","And","Or") and n=="Pointer")
for n,t in T:
    for op in ops:
        if has(op,n): out.append(f"\tf{op}{n} = atomic.{op}{n}\n")
out.append(")\n\n")
for n,t in T:
    out.append(f'''// Load{n} and the following are as in sync/atomic.
func Load{n}(a *{t}) {t} {{ zzrt.Point(60); return fLoad{n}(a) }}
func Store{n}(a *{t}, v {t}) {{ zzrt.Point(61); fStore{n}(a, v); zzrt.Point(66) }}
func Swap{n}(a *{t}, v {t}) {t} {{ zzrt.Point(62); return fSwap{n}(a, v) }}
func CompareAndSwap{n}(a *{t}, o, v {t}) bool {{ zzrt.Point(63); return fCompareAndSwap{n}(a, o, v) }}
''')
    if has("Add",n):
        out.append(f'''func Add{n}(a *{t}, d {t}) {t} {{ zzrt.Point(64); return fAdd{n}(a, d) }}
func And{n}(a *{t}, d {t}) {t} {{ zzrt.Point(65); return fAnd{n}(a, d) }}
func Or{n}(a *{t}, d {t}) {t} {{ zzrt.Point(65); return fOr{n}(a, d) }}
''')
        out.append(f'''
// {n} is atomic.{n}.
type {n} struct{{ v {t} }}

func (x *{n}) Load() {t} {{ return Load{n}(&x.v) }}
func (x *{n}) Store(v {t}) {{ Store{n}(&x.v, v) }}
func (x *{n}) Swap(v {t}) {t} {{ return Swap{n}(&x.v, v) }}
func (x *{n}) CompareAndSwap(o, v {t}) bool {{ return CompareAndSwap{n}(&x.v, o, v) }}
func (x *{n}) Add(d {t}) {t} {{ return Add{n}(&x.v, d) }}
func (x *{n}) And(d {t}) {t} {{ return And{n}(&x.v, d) }}
func (x *{n}) Or(d {t}) {t} {{ return Or{n}(&x.v, d) }}

''')
out.append('''
// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool) { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, v bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(v)) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T) { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(v))
}

// Value is atomic.Value.
type Value struct{ p unsafe.Pointer }

func (x *Value) Load() any {
	p := (*any)(LoadPointer(&x.p))
	if p == nil {
		return nil
	}
	return *p
}
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	StorePointer(&x.p, unsafe.Pointer(&v))
}
func (x *Value) Swap(v any) any {
	p := (*any)(SwapPointer(&x.p, unsafe.Pointer(&v)))
	if p == nil {
		return nil
	}
	return *p
}
func (x *Value) CompareAndSwap(o, v any) bool {
	p := (*any)(LoadPointer(&x.p))
	if p == nil {
		if o != nil {
			return false
		}
	} else if *p != o {
		return false
	}
	return CompareAndSwapPointer(&x.p, unsafe.Pointer(p), unsafe.Pointer(&v))
}
''')
open("/verif/sim/zatomic/zatomic.go","w").write("".join(out))
