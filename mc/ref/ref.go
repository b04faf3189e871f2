// Package ref holds the boring reference models and the comparison of a real
// container with one.
package ref

import (
	"fmt"

	"github.com/myyrakle/gost"
)

// E is the element type of the data-independent explorations.
type E = gost.I32

const (
	Huge1 = gost.USize(1) << 63
	Huge2 = ^gost.USize(0)
)

// Same reports whether two sequences are equal.
func Same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Opt describes an option for messages.
func Opt[T any](o gost.Option[T]) string {
	if o.IsNone() {
		return "None"
	}
	return fmt.Sprintf("Some(%v)", o.Unwrap())
}

// IsSome tells whether o is Some(v).
func IsSome[T comparable](o gost.Option[T], v T) bool {
	return bool(o.IsSome()) && !bool(o.IsNone()) && o.Unwrap() == v
}

// IsNone tells whether o is None.
func IsNone[T any](o gost.Option[T]) bool { return bool(o.IsNone()) && !bool(o.IsSome()) }

// Drain pulls an iterator dry by Next (at most limit+3 elements) and checks
// that it stays exhausted.
func Drain[T any](it gost.Iterator[T], limit int) (out []T, msg string) {
	for {
		o := it.Next()
		if o.IsNone() {
			break
		}
		out = append(out, o.Unwrap())
		if len(out) > limit+3 {
			return out, fmt.Sprintf("iteration yields more than %d elements", limit)
		}
	}
	for i := 0; i < 3; i++ {
		if o := it.Next(); !o.IsNone() {
			return out, fmt.Sprintf("exhausted iterator yields %v", o.Unwrap())
		}
	}
	return out, ""
}

// Vec compares everything observable of a Vec with the model.
func Vec[T interface {
	comparable
}](v *gost.Vec[T], want []T, absent T) string {
	n := gost.USize(len(want))
	if v.Len() != n {
		return fmt.Sprintf("Len() = %d, want %d %v", v.Len(), n, want)
	}
	if bool(v.IsEmpty()) != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v at length %d", v.IsEmpty(), n)
	}
	if v.Capacity() < n {
		return fmt.Sprintf("Capacity() = %d < length %d", v.Capacity(), n)
	}
	for i := gost.USize(0); i < n; i++ {
		if g := v.Get(i); !IsSome(g, want[i]) {
			return fmt.Sprintf("Get(%d) = %s, want %v of %v", i, Opt(g), want[i], want)
		}
		if g := v.GetUnchecked(i); g != want[i] {
			return fmt.Sprintf("GetUnchecked(%d) = %v, want %v of %v", i, g, want[i], want)
		}
		if !v.Contains(want[i]) {
			return fmt.Sprintf("Contains(%v) = false on %v", want[i], want)
		}
	}
	for _, i := range []gost.USize{n, n + 1, v.Capacity(), v.Capacity() + 1, Huge1, Huge2} {
		if i < n {
			continue
		}
		if g := v.Get(i); !IsNone(g) {
			return fmt.Sprintf("Get(%d) = %s at length %d, want None", i, Opt(g), n)
		}
	}
	if v.Contains(absent) {
		return fmt.Sprintf("Contains(%v) = true on %v", absent, want)
	}
	if s := v.AsSlice(); !Same(s, want) {
		return fmt.Sprintf("AsSlice() = %v, want %v", s, want)
	}
	got, msg := Drain(v.IntoIter(), len(want))
	if msg != "" {
		return msg
	}
	if !Same(got, want) {
		return fmt.Sprintf("iteration yields %v, want %v", got, want)
	}
	return ""
}

// Deque compares everything observable of a VecDeque with the model.
func Deque(v *gost.VecDeque[E], want []E, absent E) string {
	n := gost.USize(len(want))
	if v.Len() != n {
		return fmt.Sprintf("Len() = %d, want %d %v", v.Len(), n, want)
	}
	if bool(v.IsEmpty()) != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v at length %d", v.IsEmpty(), n)
	}
	if v.Capacity() < n {
		return fmt.Sprintf("Capacity() = %d < length %d", v.Capacity(), n)
	}
	if n == 0 {
		if !IsNone(v.Front()) || !IsNone(v.Back()) {
			return fmt.Sprintf("Front/Back of empty = %s/%s", Opt(v.Front()), Opt(v.Back()))
		}
	} else if !IsSome(v.Front(), want[0]) || !IsSome(v.Back(), want[n-1]) {
		return fmt.Sprintf("Front/Back = %s/%s, want ends of %v", Opt(v.Front()), Opt(v.Back()), want)
	}
	for i := gost.USize(0); i < n; i++ {
		if g := v.Get(i); !IsSome(g, want[i]) {
			return fmt.Sprintf("Get(%d) = %s, want %v of %v", i, Opt(g), want[i], want)
		}
		if g := v.GetUnchecked(i); g != want[i] {
			return fmt.Sprintf("GetUnchecked(%d) = %v, want %v of %v", i, g, want[i], want)
		}
		if n <= 64 && !v.Contains(want[i]) {
			return fmt.Sprintf("Contains(%v) = false on %v", want[i], want)
		}
	}
	for _, i := range []gost.USize{n, n + 1, v.Capacity(), v.Capacity() + 1, Huge1, Huge2} {
		if i < n {
			continue
		}
		if g := v.Get(i); !IsNone(g) {
			return fmt.Sprintf("Get(%d) = %s at length %d, want None", i, Opt(g), n)
		}
	}
	if v.Contains(absent) {
		return fmt.Sprintf("Contains(%v) = true on %v", absent, want)
	}
	if s := v.AsSlice(); !Same(s, want) {
		return fmt.Sprintf("AsSlice() = %v, want %v", s, want)
	}
	got, msg := Drain(v.IntoIter(), len(want))
	if msg != "" {
		return msg
	}
	if !Same(got, want) {
		return fmt.Sprintf("iteration yields %v, want %v", got, want)
	}
	return ""
}

// List compares everything observable of a LinkedList with the model. Fronts
// and backs are read through the pointers the list hands out.
func List(v *gost.LinkedList[E], want []E) string {
	n := gost.USize(len(want))
	if v.Len() != n {
		return fmt.Sprintf("Len() = %d, want %d %v", v.Len(), n, want)
	}
	if bool(v.IsEmpty()) != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v at length %d", v.IsEmpty(), n)
	}
	f, b := v.Front(), v.Back()
	if n == 0 {
		if !IsNone(f) || !IsNone(b) {
			return "Front/Back of empty is Some"
		}
	} else {
		if f.IsNone() || *f.Unwrap() != want[0] {
			return fmt.Sprintf("Front() wrong, want %v", want[0])
		}
		if b.IsNone() || *b.Unwrap() != want[n-1] {
			return fmt.Sprintf("Back() wrong, want %v", want[n-1])
		}
		if n == 1 && f.Unwrap() != b.Unwrap() {
			return "Front() and Back() of a one-element list are different places"
		}
	}
	got, msg := Drain(v.IntoIter(), len(want))
	if msg != "" {
		return msg
	}
	if !Same(got, want) {
		return fmt.Sprintf("iteration yields %v, want %v", got, want)
	}
	return ""
}

// Rev returns the reversed sequence.
func Rev[T any](m []T) []T {
	r := make([]T, 0, len(m))
	for i := len(m) - 1; i >= 0; i-- {
		r = append(r, m[i])
	}
	return r
}

// Copy returns a copy that shares nothing.
func Copy[T any](m []T) []T { return append(make([]T, 0, len(m)+1), m...) }
