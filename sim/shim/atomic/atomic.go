// Package atomic replaces sync/atomic in instrumented code.
package atomic

import (
	"unsafe"

	"verif/sim/vsim"
)

const site uint32 = 30

func init() { vsim.RegisterSites(30, []string{"atomic"}) }

var vcs = map[unsafe.Pointer]*[]uint32{}
var vcWorld *vsim.World

// op runs f atomically with acquire and release ordering.
func op(p unsafe.Pointer, f func()) {
	w := vsim.Active()
	if w == nil {
		if !vsim.Dying() {
			f()
		}
		return
	}
	w.Point(site)
	if w.Cfg.Race {
		if vcWorld != w {
			vcs, vcWorld = map[unsafe.Pointer]*[]uint32{}, w
		}
		vc := vcs[p]
		if vc == nil {
			vc = new([]uint32)
			vcs[p] = vc
		}
		w.VCAcquire(*vc)
		f()
		w.VCRelease(vc)
		return
	}
	f()
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T integer](p *T, d T) (r T) {
	op(unsafe.Pointer(p), func() { *p += d; r = *p })
	return
}
func load[T any](p *T) (r T) {
	op(unsafe.Pointer(p), func() { r = *p })
	return
}
func store[T any](p *T, v T) { op(unsafe.Pointer(p), func() { *p = v }) }
func swap[T any](p *T, v T) (r T) {
	op(unsafe.Pointer(p), func() { r = *p; *p = v })
	return
}
func cas[T comparable](p *T, o, n T) (ok bool) {
	op(unsafe.Pointer(p), func() {
		if *p == o {
			*p = n
			ok = true
		}
	})
	return
}

// AddInt32 is the standard function.
func AddInt32(p *int32, d int32) int32 { return add(p, d) }

// LoadInt32 is the standard function.
func LoadInt32(p *int32) int32 { return load(p) }

// StoreInt32 is the standard function.
func StoreInt32(p *int32, v int32) { store(p, v) }

// SwapInt32 is the standard function.
func SwapInt32(p *int32, v int32) int32 { return swap(p, v) }

// CompareAndSwapInt32 is the standard function.
func CompareAndSwapInt32(p *int32, o, n int32) bool { return cas(p, o, n) }

// Int32 is the standard type.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return load(&x.v) }
func (x *Int32) Store(v int32)                  { store(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return swap(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return add(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return cas(&x.v, o, n) }

// AddInt64 is the standard function.
func AddInt64(p *int64, d int64) int64 { return add(p, d) }

// LoadInt64 is the standard function.
func LoadInt64(p *int64) int64 { return load(p) }

// StoreInt64 is the standard function.
func StoreInt64(p *int64, v int64) { store(p, v) }

// SwapInt64 is the standard function.
func SwapInt64(p *int64, v int64) int64 { return swap(p, v) }

// CompareAndSwapInt64 is the standard function.
func CompareAndSwapInt64(p *int64, o, n int64) bool { return cas(p, o, n) }

// Int64 is the standard type.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return load(&x.v) }
func (x *Int64) Store(v int64)                  { store(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return swap(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return add(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return cas(&x.v, o, n) }

// AddUint32 is the standard function.
func AddUint32(p *uint32, d uint32) uint32 { return add(p, d) }

// LoadUint32 is the standard function.
func LoadUint32(p *uint32) uint32 { return load(p) }

// StoreUint32 is the standard function.
func StoreUint32(p *uint32, v uint32) { store(p, v) }

// SwapUint32 is the standard function.
func SwapUint32(p *uint32, v uint32) uint32 { return swap(p, v) }

// CompareAndSwapUint32 is the standard function.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }

// Uint32 is the standard type.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return load(&x.v) }
func (x *Uint32) Store(v uint32)                  { store(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return swap(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return add(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return cas(&x.v, o, n) }

// AddUint64 is the standard function.
func AddUint64(p *uint64, d uint64) uint64 { return add(p, d) }

// LoadUint64 is the standard function.
func LoadUint64(p *uint64) uint64 { return load(p) }

// StoreUint64 is the standard function.
func StoreUint64(p *uint64, v uint64) { store(p, v) }

// SwapUint64 is the standard function.
func SwapUint64(p *uint64, v uint64) uint64 { return swap(p, v) }

// CompareAndSwapUint64 is the standard function.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }

// Uint64 is the standard type.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return load(&x.v) }
func (x *Uint64) Store(v uint64)                  { store(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return swap(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return add(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return cas(&x.v, o, n) }

// AddUintptr is the standard function.
func AddUintptr(p *uintptr, d uintptr) uintptr { return add(p, d) }

// LoadUintptr is the standard function.
func LoadUintptr(p *uintptr) uintptr { return load(p) }

// StoreUintptr is the standard function.
func StoreUintptr(p *uintptr, v uintptr) { store(p, v) }

// SwapUintptr is the standard function.
func SwapUintptr(p *uintptr, v uintptr) uintptr { return swap(p, v) }

// CompareAndSwapUintptr is the standard function.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }

// Uintptr is the standard type.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return load(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { store(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return swap(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return add(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return cas(&x.v, o, n) }

// LoadPointer is the standard function.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { return load(p) }

// StorePointer is the standard function.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { store(p, v) }

// SwapPointer is the standard function.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { return swap(p, v) }

// CompareAndSwapPointer is the standard function.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }

// Bool is the standard type.
type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

// Pointer is the standard type.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.v, o, n) }

// Value is the standard type.
type Value struct{ v any }

func (x *Value) Load() any { return load(&x.v) }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	store(&x.v, v)
}
func (x *Value) Swap(v any) any               { return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, n any) bool { return cas(&x.v, o, n) }
