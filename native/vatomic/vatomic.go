// Package atomic stands in for sync/atomic during replay: every operation is a scheduling point.
package atomic

import (
	"MODULE/zzverif/sched"
	real "sync/atomic"
	"unsafe"
)

func LoadInt32(p *int32) int32          { sched.Point(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sched.Point(); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { sched.Point(); return real.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	sched.Point()
	return real.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, d int32) int32 { sched.Point(); return real.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32 { sched.Point(); return real.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32  { sched.Point(); return real.OrInt32(p, d) }

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { sched.Point(); return x.v.Load() }
func (x *Int32) Swap(v int32) int32             { sched.Point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(d int32) int32              { sched.Point(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { sched.Point(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { sched.Point(); return x.v.Or(d) }
func (x *Int32) Store(v int32)                  { sched.Point(); x.v.Store(v) }
func LoadInt64(p *int64) int64                  { sched.Point(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)              { sched.Point(); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64         { sched.Point(); return real.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	sched.Point()
	return real.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, d int64) int64 { sched.Point(); return real.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64 { sched.Point(); return real.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64  { sched.Point(); return real.OrInt64(p, d) }

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { sched.Point(); return x.v.Load() }
func (x *Int64) Swap(v int64) int64             { sched.Point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(d int64) int64              { sched.Point(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { sched.Point(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { sched.Point(); return x.v.Or(d) }
func (x *Int64) Store(v int64)                  { sched.Point(); x.v.Store(v) }
func LoadUint32(p *uint32) uint32               { sched.Point(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)           { sched.Point(); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32     { sched.Point(); return real.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	sched.Point()
	return real.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { sched.Point(); return real.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32 { sched.Point(); return real.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32  { sched.Point(); return real.OrUint32(p, d) }

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { sched.Point(); return x.v.Load() }
func (x *Uint32) Swap(v uint32) uint32            { sched.Point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(d uint32) uint32             { sched.Point(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { sched.Point(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { sched.Point(); return x.v.Or(d) }
func (x *Uint32) Store(v uint32)                  { sched.Point(); x.v.Store(v) }
func LoadUint64(p *uint64) uint64                 { sched.Point(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)             { sched.Point(); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64       { sched.Point(); return real.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	sched.Point()
	return real.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { sched.Point(); return real.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64 { sched.Point(); return real.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64  { sched.Point(); return real.OrUint64(p, d) }

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { sched.Point(); return x.v.Load() }
func (x *Uint64) Swap(v uint64) uint64            { sched.Point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(d uint64) uint64             { sched.Point(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { sched.Point(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { sched.Point(); return x.v.Or(d) }
func (x *Uint64) Store(v uint64)                  { sched.Point(); x.v.Store(v) }
func LoadUintptr(p *uintptr) uintptr              { sched.Point(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)          { sched.Point(); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr   { sched.Point(); return real.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	sched.Point()
	return real.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { sched.Point(); return real.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr { sched.Point(); return real.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr  { sched.Point(); return real.OrUintptr(p, d) }

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr                       { sched.Point(); return x.v.Load() }
func (x *Uintptr) Swap(v uintptr) uintptr              { sched.Point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool    { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(d uintptr) uintptr               { sched.Point(); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr               { sched.Point(); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr                { sched.Point(); return x.v.Or(d) }
func (x *Uintptr) Store(v uintptr)                     { sched.Point(); x.v.Store(v) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sched.Point(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sched.Point(); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Point()
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	sched.Point()
	return real.CompareAndSwapPointer(p, a, b)
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { sched.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sched.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { sched.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { sched.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { sched.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v real.Value }

func (x *Value) Load() interface{}                    { sched.Point(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { sched.Point(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { sched.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b interface{}) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }

var _ unsafe.Pointer
