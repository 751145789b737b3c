package uni

import (
	"fmt"
	"math/rand/v2"
	"reflect"

	"verif/harness/ref"
)

// Flatten gives the type in which every squashed or embedded struct is written out in place and
// omitted fields are gone. Lists are kept (their types cannot be made at run time).
func Flatten(t reflect.Type) reflect.Type { return rebuild(t, nil) }

// Pointerize inserts pointers at random positions, in lists too; structs are flattened.
func Pointerize(r *rand.Rand, t reflect.Type) reflect.Type { return rebuild(t, r) }

func rebuild(t reflect.Type, r *rand.Rand) reflect.Type {
	n, err := ref.Of(t)
	if err != nil {
		panic(err)
	}
	out := t
	switch n.K {
	case ref.KPtr:
		if r != nil && r.IntN(4) == 0 {
			return rebuild(t.Elem(), r) // a pointer less
		}
		out = reflect.PointerTo(rebuild(t.Elem(), r))
	case ref.KVector:
		if r == nil || n.N <= 70 {
			out = reflect.ArrayOf(t.Len(), rebuild(t.Elem(), r))
		}
	case ref.KList:
		if r != nil && r.IntN(2) == 0 {
			if x, ok := ptrTwin[t]; ok {
				out = x
			}
		}
	case ref.KContainer:
		var fs []reflect.StructField
		for i, f := range n.Fields {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: rebuild(f.Node.T, r)})
		}
		out = reflect.StructOf(fs)
	}
	if r != nil {
		for r.IntN(3) == 0 {
			out = reflect.PointerTo(out)
		}
	}
	return out
}

// Nested tells whether a struct outside lists has fields that are squashed, embedded or omitted.
func Nested(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Array:
		return Nested(t.Elem())
	case reflect.Struct:
		n, err := ref.Of(t)
		if err != nil {
			panic(err)
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous || ref.Omitted(f) || f.Tag.Get("ssz") != "" {
				return true
			}
		}
		for _, f := range n.Fields {
			if Nested(f.Node.T) {
				return true
			}
		}
	}
	return false
}

// Twin builds an entry under the lock the model's cache needs.
func Twin(e *Entry, f func(reflect.Type) reflect.Type) *Entry {
	mu.Lock()
	defer mu.Unlock()
	t := f(e.T)
	n, err := ref.Of(t)
	if err != nil {
		panic(fmt.Sprintf("twin %v of %v: %v", t, e.T, err))
	}
	name := t.String()
	if len(name) > 120 {
		name = name[:120] + "..."
	}
	return &Entry{Name: "twin of " + e.Name + ": " + name, T: t, N: n}
}

// Morph copies a value into one of a type with the same SSZ meaning, pointers aside.
func Morph(ns *ref.Node, vs reflect.Value, nd *ref.Node, vd reflect.Value) {
	if ns.T == nd.T {
		ns.Copy(vd, vs)
		return
	}
	if ns.K == ref.KPtr {
		Morph(ns.Elem, vs.Elem(), nd, vd)
		return
	}
	if nd.K == ref.KPtr {
		if vd.IsNil() {
			vd.Set(reflect.New(nd.T.Elem()))
		}
		Morph(ns, vs, nd.Elem, vd.Elem())
		return
	}
	if ns.K != nd.K {
		panic("not twins: " + ns.T.String() + ", " + nd.T.String())
	}
	switch ns.K {
	case ref.KList:
		vd.Set(reflect.MakeSlice(nd.T, vs.Len(), vs.Len()))
		fallthrough
	case ref.KVector:
		for i := 0; i < vs.Len(); i++ {
			Morph(ns.Elem, vs.Index(i), nd.Elem, vd.Index(i))
		}
	case ref.KContainer:
		for i, f := range ns.Fields {
			g := nd.Fields[i]
			Morph(f.Node, ref.Sub(vs, f.Index), g.Node, ref.Sub(vd, g.Index))
		}
	default:
		panic("kept types differ")
	}
}
