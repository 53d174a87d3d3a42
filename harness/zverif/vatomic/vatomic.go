// Package vatomic has the API of package sync/atomic, with a scheduling point before each operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/miniLCT/gosb/zverif/vsched"
)

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(val *T) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Pointer[T]) Swap(n *T) *T {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(val any) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Value) Swap(n any) any {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Value) CompareAndSwap(o, n any) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(val bool) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Bool) Swap(n bool) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(val int32) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Int32) Swap(n int32) int32 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Int32) Add(d int32) int32 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Add(d)
}

func LoadInt32(p *int32) int32 {
	vsched.Op()
	defer vsched.AtomicRd(unsafe.Pointer(p))
	return atomic.LoadInt32(p)
}
func StoreInt32(p *int32, v int32) {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	atomic.StoreInt32(p, v)
}
func SwapInt32(p *int32, v int32) int32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.SwapInt32(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AddInt32(p, d)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(val int64) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Int64) Swap(n int64) int64 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Int64) Add(d int64) int64 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Add(d)
}

func LoadInt64(p *int64) int64 {
	vsched.Op()
	defer vsched.AtomicRd(unsafe.Pointer(p))
	return atomic.LoadInt64(p)
}
func StoreInt64(p *int64, v int64) {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	atomic.StoreInt64(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.SwapInt64(p, v)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AddInt64(p, d)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(val uint32) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Uint32) Swap(n uint32) uint32 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint32) Add(d uint32) uint32 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Add(d)
}

func LoadUint32(p *uint32) uint32 {
	vsched.Op()
	defer vsched.AtomicRd(unsafe.Pointer(p))
	return atomic.LoadUint32(p)
}
func StoreUint32(p *uint32, v uint32) {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	atomic.StoreUint32(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AddUint32(p, d)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(val uint64) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Uint64) Swap(n uint64) uint64 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint64) Add(d uint64) uint64 {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Add(d)
}

func LoadUint64(p *uint64) uint64 {
	vsched.Op()
	defer vsched.AtomicRd(unsafe.Pointer(p))
	return atomic.LoadUint64(p)
}
func StoreUint64(p *uint64, v uint64) {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	atomic.StoreUint64(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AddUint64(p, d)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr     { vsched.Op(); defer vsched.Acq(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(val uintptr) { vsched.Op(); vsched.Rel(unsafe.Pointer(x)); x.v.Store(val) }
func (x *Uintptr) Swap(n uintptr) uintptr {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Swap(n)
}
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr {
	vsched.Op()
	vsched.Rel(unsafe.Pointer(x))
	defer vsched.Acq(unsafe.Pointer(x))
	return x.v.Add(d)
}

func LoadUintptr(p *uintptr) uintptr {
	vsched.Op()
	defer vsched.AtomicRd(unsafe.Pointer(p))
	return atomic.LoadUintptr(p)
}
func StoreUintptr(p *uintptr, v uintptr) {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	atomic.StoreUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AddUintptr(p, d)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vsched.Op()
	defer vsched.AtomicRd(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}

func (x *Int32) And(m int32) int32 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.And(m)
}

func AndInt32(p *int32, m int32) int32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AndInt32(p, m)
}

func (x *Int32) Or(m int32) int32 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.Or(m)
}

func OrInt32(p *int32, m int32) int32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.OrInt32(p, m)
}

func (x *Int64) And(m int64) int64 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.And(m)
}

func AndInt64(p *int64, m int64) int64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AndInt64(p, m)
}

func (x *Int64) Or(m int64) int64 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.Or(m)
}

func OrInt64(p *int64, m int64) int64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.OrInt64(p, m)
}

func (x *Uint32) And(m uint32) uint32 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.And(m)
}

func AndUint32(p *uint32, m uint32) uint32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AndUint32(p, m)
}

func (x *Uint32) Or(m uint32) uint32 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.Or(m)
}

func OrUint32(p *uint32, m uint32) uint32 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.OrUint32(p, m)
}

func (x *Uint64) And(m uint64) uint64 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.And(m)
}

func AndUint64(p *uint64, m uint64) uint64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AndUint64(p, m)
}

func (x *Uint64) Or(m uint64) uint64 {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.Or(m)
}

func OrUint64(p *uint64, m uint64) uint64 {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.OrUint64(p, m)
}

func (x *Uintptr) And(m uintptr) uintptr {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.And(m)
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.AndUintptr(p, m)
}

func (x *Uintptr) Or(m uintptr) uintptr {
	vsched.Op()
	defer vsched.Acq(unsafe.Pointer(x))
	vsched.Rel(unsafe.Pointer(x))
	return x.v.Or(m)
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	vsched.Op()
	vsched.AtomicWr(unsafe.Pointer(p))
	defer vsched.Acq(unsafe.Pointer(p))
	return atomic.OrUintptr(p, m)
}
