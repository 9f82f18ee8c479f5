// Package atomic is sync/atomic under the controlled scheduler.
package atomic

import (
	"unsafe"

	"verif.local/v/mc"
)

func LoadInt32(p *int32) int32     { mc.Atomic(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreInt32(p *int32, v int32) { mc.Atomic(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func SwapInt32(p *int32, v int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddInt32(p *int32, d int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func AndInt32(p *int32, d int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= d
	return o
}
func OrInt32(p *int32, d int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= d
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CAS")
	if *p != o {
		mc.Spin()
		return false
	}
	*p = n
	return true
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64     { mc.Atomic(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreInt64(p *int64, v int64) { mc.Atomic(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func SwapInt64(p *int64, v int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddInt64(p *int64, d int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func AndInt64(p *int64, d int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= d
	return o
}
func OrInt64(p *int64, d int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= d
	return o
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CAS")
	if *p != o {
		mc.Spin()
		return false
	}
	*p = n
	return true
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32     { mc.Atomic(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreUint32(p *uint32, v uint32) { mc.Atomic(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddUint32(p *uint32, d uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func AndUint32(p *uint32, d uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= d
	return o
}
func OrUint32(p *uint32, d uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= d
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CAS")
	if *p != o {
		mc.Spin()
		return false
	}
	*p = n
	return true
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64     { mc.Atomic(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreUint64(p *uint64, v uint64) { mc.Atomic(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddUint64(p *uint64, d uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func AndUint64(p *uint64, d uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= d
	return o
}
func OrUint64(p *uint64, d uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= d
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CAS")
	if *p != o {
		mc.Spin()
		return false
	}
	*p = n
	return true
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr     { mc.Atomic(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreUintptr(p *uintptr, v uintptr) { mc.Atomic(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func AndUintptr(p *uintptr, d uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= d
	return o
}
func OrUintptr(p *uintptr, d uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= d
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CAS")
	if *p != o {
		mc.Spin()
		return false
	}
	*p = n
	return true
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	mc.Atomic(unsafe.Pointer(p), false, "atomic.Load")
	return *p
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Store")
	*p = v
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CAS")
	if *p != o {
		mc.Spin()
		return false
	}
	*p = n
	return true
}

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) at(w bool, k string) { mc.Atomic(unsafe.Pointer(&x.v), w, k) }
func (x *Pointer[T]) Load() *T            { x.at(false, "atomic.Load"); return x.v }
func (x *Pointer[T]) Store(v *T)          { x.at(true, "atomic.Store"); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T        { x.at(true, "atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	x.at(true, "atomic.CAS")
	if x.v != o {
		mc.Spin()
		return false
	}
	x.v = n
	return true
}

type Value struct {
	v any
}

func (x *Value) at(w bool, k string) { mc.Atomic(unsafe.Pointer(&x.v), w, k) }
func (x *Value) Load() any           { x.at(false, "atomic.Load"); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.at(true, "atomic.Store")
	x.v = v
}
func (x *Value) Swap(v any) any {
	if v == nil {
		panic("sync/atomic: swap of nil value into Value")
	}
	x.at(true, "atomic.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	x.at(true, "atomic.CAS")
	if x.v != o {
		mc.Spin()
		return false
	}
	x.v = n
	return true
}
