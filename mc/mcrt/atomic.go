package mcrt

import "unsafe"

type ints interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

// at is what precedes every atomic operation, fin what follows it.
func at(p unsafe.Pointer) {
	Step()
	acquire(p)
}

func fin(p unsafe.Pointer) { release(p) }

func addr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

//go:norace
func AtomicLoad[T any](p *T) T {
	at(addr(p))
	return *p
}

//go:norace
func AtomicStore[T any](p *T, v T) {
	at(addr(p))
	*p = v
	fin(addr(p))
}

//go:norace
func AtomicSwap[T any](p *T, v T) T {
	at(addr(p))
	o := *p
	*p = v
	fin(addr(p))
	return o
}

//go:norace
func AtomicCAS[T comparable](p *T, old, v T) bool {
	at(addr(p))
	if *p != old {
		return false
	}
	*p = v
	fin(addr(p))
	return true
}

//go:norace
func AtomicAdd[T ints](p *T, d T) T {
	at(addr(p))
	*p += d
	fin(addr(p))
	return *p
}

//go:norace
func AtomicAnd[T ints](p *T, m T) T {
	at(addr(p))
	o := *p
	*p &= m
	fin(addr(p))
	return o
}

//go:norace
func AtomicOr[T ints](p *T, m T) T {
	at(addr(p))
	o := *p
	*p |= m
	fin(addr(p))
	return o
}

type num[T ints] struct{ v T }

func (a *num[T]) Load() T                    { return AtomicLoad(&a.v) }
func (a *num[T]) Store(v T)                  { AtomicStore(&a.v, v) }
func (a *num[T]) Swap(v T) T                 { return AtomicSwap(&a.v, v) }
func (a *num[T]) CompareAndSwap(o, v T) bool { return AtomicCAS(&a.v, o, v) }
func (a *num[T]) Add(d T) T                  { return AtomicAdd(&a.v, d) }
func (a *num[T]) And(m T) T                  { return AtomicAnd(&a.v, m) }
func (a *num[T]) Or(m T) T                   { return AtomicOr(&a.v, m) }

type (
	AtomicInt32   struct{ num[int32] }
	AtomicInt64   struct{ num[int64] }
	AtomicUint32  struct{ num[uint32] }
	AtomicUint64  struct{ num[uint64] }
	AtomicUintptr struct{ num[uintptr] }
)

// AtomicBool stands for atomic.Bool.
type AtomicBool struct{ v bool }

func (a *AtomicBool) Load() bool                    { return AtomicLoad(&a.v) }
func (a *AtomicBool) Store(v bool)                  { AtomicStore(&a.v, v) }
func (a *AtomicBool) Swap(v bool) bool              { return AtomicSwap(&a.v, v) }
func (a *AtomicBool) CompareAndSwap(o, v bool) bool { return AtomicCAS(&a.v, o, v) }

// AtomicPointer stands for atomic.Pointer.
type AtomicPointer[T any] struct{ v *T }

func (a *AtomicPointer[T]) Load() *T                    { return AtomicLoad(&a.v) }
func (a *AtomicPointer[T]) Store(v *T)                  { AtomicStore(&a.v, v) }
func (a *AtomicPointer[T]) Swap(v *T) *T                { return AtomicSwap(&a.v, v) }
func (a *AtomicPointer[T]) CompareAndSwap(o, v *T) bool { return AtomicCAS(&a.v, o, v) }

// AtomicValue stands for atomic.Value.
type AtomicValue struct{ v any }

func (a *AtomicValue) Load() any                    { return AtomicLoad(&a.v) }
func (a *AtomicValue) Swap(v any) any               { return AtomicSwap(&a.v, v) }
func (a *AtomicValue) CompareAndSwap(o, v any) bool { return AtomicCAS(&a.v, o, v) }
func (a *AtomicValue) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	AtomicStore(&a.v, v)
}
