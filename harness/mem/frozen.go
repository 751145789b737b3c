package mem

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"syscall"
	"unsafe"
)

// Frozen is a deep copy of a value in memory that faults on every write, with an inaccessible
// page behind it. Omitted and unsupported parts keep referring to the original.
type Frozen struct {
	V    reflect.Value
	m    []byte
	lo   uintptr
	next uintptr
	used int
}

const page = 4096

func alignUp(x uintptr) uintptr { return (x + 15) &^ 15 }

func need(v reflect.Value, extra bool) uintptr {
	n := uintptr(0)
	if !refs(v.Type()) {
		return 0
	}
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			n = alignUp(uintptr(v.Cap())*v.Type().Elem().Size()) + 16
			full := v.Slice(0, v.Cap())
			if refs(v.Type().Elem()) {
				for i := 0; i < full.Len(); i++ {
					n += need(full.Index(i), extra)
				}
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			n = alignUp(v.Type().Elem().Size()) + 16 + need(v.Elem(), extra)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += need(v.Index(i), extra)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += need(v.Field(i), extra)
		}
	}
	return n
}

func (f *Frozen) alloc(size, align uintptr) unsafe.Pointer {
	f.next = (f.next - size) &^ (align - 1)
	if f.next < f.lo {
		panic("frozen copy: out of space")
	}
	f.used += int(size)
	return unsafe.Pointer(uintptr(unsafe.Pointer(unsafe.SliceData(f.m))) + (f.next - f.lo))
}

func (f *Frozen) move(dst, src unsafe.Pointer, size uintptr) {
	copy(unsafe.Slice((*byte)(dst), size), unsafe.Slice((*byte)(src), size))
}

// fix redirects the references in the copy (of the same type as v, at dst) to copies.
func (f *Frozen) fix(dst unsafe.Pointer, v reflect.Value) {
	t := v.Type()
	if !refs(t) {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		et := t.Elem()
		size := uintptr(v.Cap()) * et.Size()
		if size == 0 {
			return
		}
		p := f.alloc(size, uintptr(et.Align()))
		f.move(p, v.UnsafePointer(), size)
		*(*uintptr)(dst) = uintptr(p)
		if refs(et) {
			full := v.Slice(0, v.Cap())
			for i := 0; i < full.Len(); i++ {
				f.fix(unsafe.Add(p, uintptr(i)*et.Size()), full.Index(i))
			}
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		et := t.Elem()
		if et.Size() == 0 {
			return
		}
		p := f.alloc(et.Size(), uintptr(et.Align()))
		f.move(p, v.UnsafePointer(), et.Size())
		*(*uintptr)(dst) = uintptr(p)
		f.fix(p, v.Elem())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.fix(unsafe.Add(dst, uintptr(i)*t.Elem().Size()), v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.fix(unsafe.Add(dst, t.Field(i).Offset), v.Field(i))
		}
	}
}

// Freeze copies v (which must stay alive as long as the copy). The value itself, or else the last
// part of it, ends at the inaccessible page.
func Freeze(r *rand.Rand, v reflect.Value) (*Frozen, error) {
	t := v.Type()
	size := alignUp(t.Size()) + 32 + need(v, true)
	n := (int(size)+page-1)/page*page + page
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, err
	}
	f := &Frozen{m: m}
	f.lo = uintptr(unsafe.Pointer(unsafe.SliceData(m)))
	f.next = f.lo + uintptr(n) - page
	var top unsafe.Pointer
	if r.IntN(2) == 0 {
		// the value first, at the end
		top = f.alloc(t.Size(), uintptr(t.Align()))
		f.move(top, v.Addr().UnsafePointer(), t.Size())
		f.fix(top, v)
	} else {
		// its parts at the end; the value is moved in front of them
		tmp := make([]uint64, t.Size()/8+1)
		p := unsafe.Pointer(unsafe.SliceData(tmp))
		f.move(p, v.Addr().UnsafePointer(), t.Size())
		f.fix(p, v)
		top = f.alloc(t.Size(), uintptr(t.Align()))
		f.move(top, p, t.Size())
	}
	f.V = reflect.NewAt(t, top).Elem()
	if err := syscall.Mprotect(m[:n-page], syscall.PROT_READ); err != nil {
		return nil, err
	}
	if err := syscall.Mprotect(m[n-page:], syscall.PROT_NONE); err != nil {
		return nil, err
	}
	return f, nil
}

func (f *Frozen) Bytes() int { return f.used }

// Where describes an address that faulted.
func (f *Frozen) Where(addr uintptr) string {
	hi := f.lo + uintptr(len(f.m))
	switch {
	case addr >= f.lo && addr < hi-page:
		return fmt.Sprintf("in the value (%d bytes before its end)", hi-page-addr)
	case addr >= hi-page && addr < hi:
		return fmt.Sprintf("%d bytes behind the value", addr-(hi-page))
	}
	return fmt.Sprintf("%#x, elsewhere", addr)
}

func (f *Frozen) Release() { _ = syscall.Munmap(f.m) }
