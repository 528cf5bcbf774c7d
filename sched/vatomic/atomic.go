// Package verifatomic stands in for package sync/atomic, with scheduling points.
package verifatomic

import (
	"sync/atomic"
	"unsafe"

	verifsync "verif.local/sched/vsync"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { verifsync.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { verifsync.Point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { verifsync.Point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { verifsync.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { verifsync.Point(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { verifsync.Point(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { verifsync.Point(); return x.v.Or(d) }

func LoadInt32(p *int32) int32          { verifsync.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { verifsync.Point(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { verifsync.Point(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	verifsync.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 { verifsync.Point(); return atomic.AddInt32(p, d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { verifsync.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { verifsync.Point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { verifsync.Point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { verifsync.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { verifsync.Point(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { verifsync.Point(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { verifsync.Point(); return x.v.Or(d) }

func LoadInt64(p *int64) int64          { verifsync.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { verifsync.Point(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { verifsync.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	verifsync.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 { verifsync.Point(); return atomic.AddInt64(p, d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { verifsync.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { verifsync.Point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { verifsync.Point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { verifsync.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { verifsync.Point(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { verifsync.Point(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { verifsync.Point(); return x.v.Or(d) }

func LoadUint32(p *uint32) uint32           { verifsync.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { verifsync.Point(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { verifsync.Point(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	verifsync.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { verifsync.Point(); return atomic.AddUint32(p, d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { verifsync.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { verifsync.Point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { verifsync.Point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { verifsync.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { verifsync.Point(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { verifsync.Point(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { verifsync.Point(); return x.v.Or(d) }

func LoadUint64(p *uint64) uint64           { verifsync.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { verifsync.Point(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { verifsync.Point(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	verifsync.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { verifsync.Point(); return atomic.AddUint64(p, d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { verifsync.Point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { verifsync.Point(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { verifsync.Point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	verifsync.Point()
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr { verifsync.Point(); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr { verifsync.Point(); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr  { verifsync.Point(); return x.v.Or(d) }

func LoadUintptr(p *uintptr) uintptr            { verifsync.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { verifsync.Point(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { verifsync.Point(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	verifsync.Point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { verifsync.Point(); return atomic.AddUintptr(p, d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { verifsync.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { verifsync.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { verifsync.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { verifsync.Point(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { verifsync.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { verifsync.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { verifsync.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { verifsync.Point(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { verifsync.Point(); return x.v.Load() }
func (x *Value) Store(v any)                  { verifsync.Point(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { verifsync.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { verifsync.Point(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { verifsync.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { verifsync.Point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	verifsync.Point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	verifsync.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}
