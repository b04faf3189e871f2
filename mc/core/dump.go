package core

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"
)

// Dumper writes a structural, address-free description of a value, including
// unexported fields, slice capacities and the stale slots behind a slice's
// length. Pointers are numbered in order of first visit. Rename, if set,
// replaces the values of the named type by what it returns.
type Dumper struct {
	Buf       []byte
	ptrs      map[unsafe.Pointer]int
	ValueType reflect.Type        // the element type whose values are renamed
	Rename    func(v int64) int64 // renaming of element values
	NoStale   bool
	SkipType  reflect.Type // values of this type are left out
	ZeroType  reflect.Type // values of this type are written as 0
}

func (d *Dumper) Reset() { d.Buf = d.Buf[:0]; d.ptrs = nil }

func (d *Dumper) num(v int64) { d.Buf = binary.AppendVarint(d.Buf, v) }

func (d *Dumper) ptr(p unsafe.Pointer) {
	if d.ptrs == nil {
		d.ptrs = map[unsafe.Pointer]int{}
	}
	n, ok := d.ptrs[p]
	if !ok {
		n = len(d.ptrs) + 1
		d.ptrs[p] = n
	}
	d.num(int64(n))
}

// Dump appends the description of *ptr (ptr must be a pointer).
func (d *Dumper) Dump(ptr any) {
	v := reflect.ValueOf(ptr).Elem()
	d.val(v)
}

func (d *Dumper) val(v reflect.Value) {
	if d.SkipType != nil && v.Type() == d.SkipType {
		return
	}
	if d.ZeroType != nil && v.Type() == d.ZeroType {
		d.num(0)
		return
	}
	if d.ValueType != nil && v.Type() == d.ValueType {
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x := v.Int()
			if d.Rename != nil {
				x = d.Rename(x)
			}
			d.num(x)
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			d.num(1)
		} else {
			d.num(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.num(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.num(int64(v.Uint()))
	case reflect.String:
		s := v.String()
		d.num(int64(len(s)))
		d.Buf = append(d.Buf, s...)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			d.val(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			d.num(-1)
			return
		}
		d.num(int64(v.Len()))
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			// which slices share a backing array, and how they lie in it
			d.ptr(v.UnsafePointer())
			d.ptr(unsafe.Add(v.UnsafePointer(), uintptr(v.Cap()-1)*v.Type().Elem().Size()))
		}
		if d.NoStale {
			for i := 0; i < v.Len(); i++ {
				d.val(v.Index(i))
			}
			return
		}
		d.num(int64(v.Cap()))
		if v.Cap() > v.Len() {
			// reslice through a writable copy of the header
			h := reflect.New(v.Type()).Elem()
			if v.CanAddr() {
				h = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
			} else {
				p := v.UnsafePointer()
				arr := reflect.NewAt(reflect.ArrayOf(v.Cap(), v.Type().Elem()), p).Elem()
				for i := 0; i < v.Cap(); i++ {
					d.val(arr.Index(i))
				}
				return
			}
			full := h.Slice3(0, v.Cap(), v.Cap())
			for i := 0; i < full.Len(); i++ {
				d.val(full.Index(i))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
	case reflect.Pointer:
		if v.IsNil() {
			d.num(0)
			return
		}
		p := v.UnsafePointer()
		if d.ptrs == nil {
			d.ptrs = map[unsafe.Pointer]int{}
		}
		if n, ok := d.ptrs[p]; ok {
			d.num(int64(n))
			return
		}
		d.ptrs[p] = len(d.ptrs) + 1
		d.num(int64(len(d.ptrs)))
		d.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.num(0)
			return
		}
		d.Buf = append(d.Buf, v.Elem().Type().String()...)
		d.val(v.Elem())
	case reflect.Map:
		d.num(int64(v.Len()))
	case reflect.Float32, reflect.Float64:
		d.Buf = append(d.Buf, fmt.Sprint(v.Float())...)
	default:
		if v.Kind() == reflect.Func || v.Kind() == reflect.Chan {
			if v.IsNil() {
				d.num(0)
			} else {
				d.num(1)
			}
		}
	}
}
