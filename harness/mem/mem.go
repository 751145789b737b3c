// Package mem observes the raw memory behind Go values: snapshots of every block reachable
// from a value, the address ranges a decoder may write, and which bytes changed.
package mem

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"unsafe"

	"verif/harness/ref"
)

type Range struct{ Lo, Hi uintptr }

type block struct {
	lo   uintptr
	p    unsafe.Pointer
	size uintptr
	keep any
	snap []byte
	elem reflect.Type // type of the repeated element, for padding
	what string
}

type Mem struct {
	blocks []block
	seen   map[uintptr]uintptr
}

var hasRefs sync.Map

// refs tells whether values of the type hold slices or pointers.
func refs(t reflect.Type) bool {
	if x, ok := hasRefs.Load(t); ok {
		return x.(bool)
	}
	r := false
	switch t.Kind() {
	case reflect.Slice, reflect.Ptr:
		r = true
	case reflect.Array:
		r = refs(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			r = r || refs(t.Field(i).Type)
		}
	}
	hasRefs.Store(t, r)
	return r
}

func (m *Mem) add(p unsafe.Pointer, size uintptr, elem reflect.Type, keep any, what string) bool {
	if p == nil || size == 0 {
		return false
	}
	lo := uintptr(p)
	if s, ok := m.seen[lo]; ok && s >= size {
		return false
	}
	m.seen[lo] = size
	b := block{lo: lo, p: p, size: size, keep: keep, elem: elem, what: what}
	b.snap = append([]byte(nil), unsafe.Slice((*byte)(p), size)...)
	m.blocks = append(m.blocks, b)
	return true
}

// Snap records all memory reachable from the value (which must be addressable), up to the
// capacity of every slice, omitted fields included.
func Snap(root reflect.Value, extra ...reflect.Value) *Mem {
	m := &Mem{seen: map[uintptr]uintptr{}}
	for _, x := range extra { // whole backing arrays first
		m.add(x.UnsafePointer(), uintptr(x.Len())*x.Type().Elem().Size(), x.Type().Elem(), x.Interface(), "backing array")
	}
	m.add(root.Addr().UnsafePointer(), root.Type().Size(), root.Type(), root.Addr().Interface(), "destination")
	m.walk(root)
	for _, x := range extra {
		for i := 0; i < x.Len(); i++ {
			m.walk(x.Index(i))
		}
	}
	return m
}

func (m *Mem) walk(v reflect.Value) {
	if !refs(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		full := v.Slice(0, v.Cap())
		es := v.Type().Elem().Size()
		m.add(full.UnsafePointer(), uintptr(full.Len())*es, v.Type().Elem(), full.UnsafePointer(), "slice contents")
		if refs(v.Type().Elem()) {
			for i := 0; i < full.Len(); i++ {
				m.walk(full.Index(i))
			}
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if m.add(v.UnsafePointer(), v.Type().Elem().Size(), v.Type().Elem(), v.UnsafePointer(), "pointee") {
			m.walk(v.Elem())
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m.walk(v.Field(i))
		}
	}
}

func (m *Mem) Blocks() int { return len(m.blocks) }
func (m *Mem) Bytes() (n int) {
	for _, b := range m.blocks {
		n += len(b.snap)
	}
	return
}

var pads sync.Map

// padding: byte offsets in one element of the type that belong to no field.
func padding(t reflect.Type) []bool {
	if x, ok := pads.Load(t); ok {
		return x.([]bool)
	}
	p := make([]bool, t.Size())
	switch t.Kind() {
	case reflect.Struct:
		for i := range p {
			p[i] = true
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			copy(p[f.Offset:], padding(f.Type))
		}
	case reflect.Array:
		if t.Len() > 0 {
			e := padding(t.Elem())
			for i := 0; i < t.Len(); i++ {
				copy(p[i*len(e):], e)
			}
		}
	}
	pads.Store(t, p)
	return p
}

// Allowed lists the memory a decoder may write in a value: included fields, list contents
// within the length, pointed-to values.
func Allowed(n *ref.Node, v reflect.Value, out []Range) []Range {
	at := v.Addr().UnsafePointer()
	whole := func() { out = append(out, Range{uintptr(at), uintptr(at) + v.Type().Size()}) }
	switch n.K {
	case ref.KBool, ref.KUint, ref.KBitvector:
		whole()
	case ref.KPtr:
		whole()
		if !v.IsNil() {
			out = Allowed(n.Elem, v.Elem(), out)
		}
	case ref.KBitlist, ref.KList:
		whole()
		if v.Len() == 0 {
			return out
		}
		if n.K == ref.KBitlist || n.Elem.IsBasic() {
			lo := uintptr(v.UnsafePointer())
			return append(out, Range{lo, lo + uintptr(v.Len())*v.Type().Elem().Size()})
		}
		for i := 0; i < v.Len(); i++ {
			out = Allowed(n.Elem, v.Index(i), out)
		}
	case ref.KVector:
		if n.Elem.IsBasic() {
			whole()
			return out
		}
		for i := 0; i < v.Len(); i++ {
			out = Allowed(n.Elem, v.Index(i), out)
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			out = Allowed(f.Node, ref.Sub(v, f.Index), out)
		}
	}
	return out
}

// Changed reports the first byte that differs from the snapshot and lies in none of the
// allowed ranges (padding counts as allowed), or "".
func (m *Mem) Changed(allowed []Range) string {
	sorted := false
	for _, b := range m.blocks {
		now := unsafe.Slice((*byte)(b.p), b.size)
		if bytes.Equal(now, b.snap) {
			continue
		}
		if !sorted {
			sort.Slice(allowed, func(i, j int) bool { return allowed[i].Lo < allowed[j].Lo })
			// merge, so that a search finds the only candidate
			var mg []Range
			for _, r := range allowed {
				if k := len(mg); k > 0 && r.Lo <= mg[k-1].Hi {
					mg[k-1].Hi = max(mg[k-1].Hi, r.Hi)
				} else {
					mg = append(mg, r)
				}
			}
			allowed = mg
			sorted = true
		}
		pad := padding(b.elem)
		for i := range now {
			if now[i] == b.snap[i] || pad[i%len(pad)] {
				continue
			}
			a := b.lo + uintptr(i)
			k := sort.Search(len(allowed), func(k int) bool { return allowed[k].Hi > a })
			if k < len(allowed) && allowed[k].Lo <= a {
				continue
			}
			return fmt.Sprintf("byte %d of %d of %s (elements of %v, %d bytes each) changed from %#02x to %#02x", i, b.size, b.what, b.elem, b.elem.Size(), b.snap[i], now[i])
		}
	}
	return ""
}

// Reach lists the heap ranges reachable from the included parts of a value (the value's own
// memory not included), up to the capacity of the slices.
func Reach(n *ref.Node, v reflect.Value, out []Range) []Range {
	switch n.K {
	case ref.KPtr:
		if v.IsNil() {
			return out
		}
		if s := v.Type().Elem().Size(); s > 0 {
			lo := uintptr(v.UnsafePointer())
			out = append(out, Range{lo, lo + s})
		}
		return Reach(n.Elem, v.Elem(), out)
	case ref.KBitlist, ref.KList:
		if v.Cap() > 0 {
			lo := uintptr(v.UnsafePointer())
			out = append(out, Range{lo, lo + uintptr(v.Cap())*v.Type().Elem().Size()})
		}
		if n.K == ref.KList && !n.Elem.IsBasic() {
			for i := 0; i < v.Len(); i++ {
				out = Reach(n.Elem, v.Index(i), out)
			}
		}
	case ref.KVector:
		if !n.Elem.IsBasic() {
			for i := 0; i < v.Len(); i++ {
				out = Reach(n.Elem, v.Index(i), out)
			}
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			out = Reach(f.Node, ref.Sub(v, f.Index), out)
		}
	}
	return out
}

// Own adds the memory of the value itself.
func Own(v reflect.Value) Range {
	lo := uintptr(v.Addr().UnsafePointer())
	return Range{lo, lo + v.Type().Size()}
}

// Overlap finds two overlapping ranges.
func Overlap(rs []Range) (a, b Range, found bool) {
	rs = append([]Range(nil), rs...)
	sort.Slice(rs, func(i, j int) bool { return rs[i].Lo < rs[j].Lo })
	for i := 1; i < len(rs); i++ {
		if rs[i].Lo < rs[i-1].Hi {
			return rs[i-1], rs[i], true
		}
	}
	return
}
