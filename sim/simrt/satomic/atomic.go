// Package atomic is sync/atomic with scheduling points.
package atomic

import (
	"simrt"
	real "sync/atomic"
	"unsafe"
)

var _ unsafe.Pointer

// AddInt32 adds.
func AddInt32(p *int32, d int32) int32 { simrt.SP(); r := real.AddInt32(p, d); simrt.SP(); return r }

// LoadInt32 loads.
func LoadInt32(p *int32) int32 { simrt.SP(); return real.LoadInt32(p) }

// StoreInt32 stores.
func StoreInt32(p *int32, v int32) { simrt.SP(); real.StoreInt32(p, v); simrt.SP() }

// SwapInt32 swaps.
func SwapInt32(p *int32, v int32) int32 { simrt.SP(); return real.SwapInt32(p, v) }

// CompareAndSwapInt32 swaps if equal.
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	simrt.SP()
	return real.CompareAndSwapInt32(p, a, b)
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32        { simrt.SP(); return x.v }
func (x *Int32) Store(v int32)      { simrt.SP(); x.v = v; simrt.SP() }
func (x *Int32) Add(d int32) int32  { simrt.SP(); x.v += d; r := x.v; simrt.SP(); return r }
func (x *Int32) Swap(v int32) int32 { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Int32) And(m int32) int32  { simrt.SP(); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32   { simrt.SP(); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(a, b int32) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// AddInt64 adds.
func AddInt64(p *int64, d int64) int64 { simrt.SP(); r := real.AddInt64(p, d); simrt.SP(); return r }

// LoadInt64 loads.
func LoadInt64(p *int64) int64 { simrt.SP(); return real.LoadInt64(p) }

// StoreInt64 stores.
func StoreInt64(p *int64, v int64) { simrt.SP(); real.StoreInt64(p, v); simrt.SP() }

// SwapInt64 swaps.
func SwapInt64(p *int64, v int64) int64 { simrt.SP(); return real.SwapInt64(p, v) }

// CompareAndSwapInt64 swaps if equal.
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	simrt.SP()
	return real.CompareAndSwapInt64(p, a, b)
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64        { simrt.SP(); return x.v }
func (x *Int64) Store(v int64)      { simrt.SP(); x.v = v; simrt.SP() }
func (x *Int64) Add(d int64) int64  { simrt.SP(); x.v += d; r := x.v; simrt.SP(); return r }
func (x *Int64) Swap(v int64) int64 { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Int64) And(m int64) int64  { simrt.SP(); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64   { simrt.SP(); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(a, b int64) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// AddUint32 adds.
func AddUint32(p *uint32, d uint32) uint32 {
	simrt.SP()
	r := real.AddUint32(p, d)
	simrt.SP()
	return r
}

// LoadUint32 loads.
func LoadUint32(p *uint32) uint32 { simrt.SP(); return real.LoadUint32(p) }

// StoreUint32 stores.
func StoreUint32(p *uint32, v uint32) { simrt.SP(); real.StoreUint32(p, v); simrt.SP() }

// SwapUint32 swaps.
func SwapUint32(p *uint32, v uint32) uint32 { simrt.SP(); return real.SwapUint32(p, v) }

// CompareAndSwapUint32 swaps if equal.
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	simrt.SP()
	return real.CompareAndSwapUint32(p, a, b)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32         { simrt.SP(); return x.v }
func (x *Uint32) Store(v uint32)       { simrt.SP(); x.v = v; simrt.SP() }
func (x *Uint32) Add(d uint32) uint32  { simrt.SP(); x.v += d; r := x.v; simrt.SP(); return r }
func (x *Uint32) Swap(v uint32) uint32 { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Uint32) And(m uint32) uint32  { simrt.SP(); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32   { simrt.SP(); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// AddUint64 adds.
func AddUint64(p *uint64, d uint64) uint64 {
	simrt.SP()
	r := real.AddUint64(p, d)
	simrt.SP()
	return r
}

// LoadUint64 loads.
func LoadUint64(p *uint64) uint64 { simrt.SP(); return real.LoadUint64(p) }

// StoreUint64 stores.
func StoreUint64(p *uint64, v uint64) { simrt.SP(); real.StoreUint64(p, v); simrt.SP() }

// SwapUint64 swaps.
func SwapUint64(p *uint64, v uint64) uint64 { simrt.SP(); return real.SwapUint64(p, v) }

// CompareAndSwapUint64 swaps if equal.
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	simrt.SP()
	return real.CompareAndSwapUint64(p, a, b)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64         { simrt.SP(); return x.v }
func (x *Uint64) Store(v uint64)       { simrt.SP(); x.v = v; simrt.SP() }
func (x *Uint64) Add(d uint64) uint64  { simrt.SP(); x.v += d; r := x.v; simrt.SP(); return r }
func (x *Uint64) Swap(v uint64) uint64 { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Uint64) And(m uint64) uint64  { simrt.SP(); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64   { simrt.SP(); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// AddUintptr adds.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	simrt.SP()
	r := real.AddUintptr(p, d)
	simrt.SP()
	return r
}

// LoadUintptr loads.
func LoadUintptr(p *uintptr) uintptr { simrt.SP(); return real.LoadUintptr(p) }

// StoreUintptr stores.
func StoreUintptr(p *uintptr, v uintptr) { simrt.SP(); real.StoreUintptr(p, v); simrt.SP() }

// SwapUintptr swaps.
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.SP(); return real.SwapUintptr(p, v) }

// CompareAndSwapUintptr swaps if equal.
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	simrt.SP()
	return real.CompareAndSwapUintptr(p, a, b)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr          { simrt.SP(); return x.v }
func (x *Uintptr) Store(v uintptr)        { simrt.SP(); x.v = v; simrt.SP() }
func (x *Uintptr) Add(d uintptr) uintptr  { simrt.SP(); x.v += d; r := x.v; simrt.SP(); return r }
func (x *Uintptr) Swap(v uintptr) uintptr { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Uintptr) And(m uintptr) uintptr  { simrt.SP(); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr   { simrt.SP(); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Bool is atomic.Bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool       { simrt.SP(); return x.v }
func (x *Bool) Store(v bool)     { simrt.SP(); x.v = v; simrt.SP() }
func (x *Bool) Swap(v bool) bool { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { simrt.SP(); return x.v }
func (x *Pointer[T]) Store(v *T)   { simrt.SP(); x.v = v; simrt.SP() }
func (x *Pointer[T]) Swap(v *T) *T { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Value is atomic.Value.
type Value struct{ v any }

func (x *Value) Load() any      { simrt.SP(); return x.v }
func (x *Value) Store(v any)    { simrt.SP(); x.v = v; simrt.SP() }
func (x *Value) Swap(v any) any { simrt.SP(); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(a, b any) bool {
	simrt.SP()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { simrt.SP(); return *p }

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.SP(); *p = v }

// SwapPointer swaps.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.SP()
	o := *p
	*p = v
	return o
}

// CompareAndSwapPointer swaps if equal.
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	simrt.SP()
	if *p != a {
		return false
	}
	*p = b
	return true
}
