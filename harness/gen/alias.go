package gen

import (
	"math/rand/v2"
	"reflect"

	"verif/harness/ref"
)

type place struct {
	n *ref.Node
	v reflect.Value
}

func places(n *ref.Node, v reflect.Value, out map[reflect.Type][]place, left *int) {
	if *left--; *left < 0 {
		return
	}
	switch n.K {
	case ref.KPtr:
		if !v.IsNil() {
			out[v.Type()] = append(out[v.Type()], place{n, v})
			places(n.Elem, v.Elem(), out, left)
		}
	case ref.KBitlist:
		out[v.Type()] = append(out[v.Type()], place{n, v})
	case ref.KList:
		out[v.Type()] = append(out[v.Type()], place{n, v})
		fallthrough
	case ref.KVector:
		if !n.Elem.IsBasic() && n.Elem.Has(func(m *ref.Node) bool { return m.K == ref.KPtr || m.K == ref.KList || m.K == ref.KBitlist }) {
			for i := 0; i < v.Len(); i++ {
				places(n.Elem, v.Index(i), out, left)
			}
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			places(f.Node, ref.Sub(v, f.Index), out, left)
		}
	}
}

// Alias makes parts of a valid value share memory, as values put together from others do: pointers to
// one pointee, and lists that are overlapping pieces of one array. It tells how many.
func Alias(r *rand.Rand, n *ref.Node, v reflect.Value) (shared int) {
	all := map[reflect.Type][]place{}
	left := 3000
	places(n, v, all, &left)
	n.Walk(func(m *ref.Node) { // in a definite order
		ps := all[m.T]
		delete(all, m.T)
		if len(ps) < 2 {
			return
		}
		for i := 0; i < 1+len(ps)/3; i++ {
			a, b := r.IntN(len(ps)), r.IntN(len(ps))
			if r.IntN(2) == 0 && a > 0 {
				b = a - 1
			}
			x, y := ps[a], ps[b]
			if a == b {
				continue
			}
			if x.n.K == ref.KList && y.v.Len() > 0 && r.IntN(4) > 0 {
				lo := 0
				if r.IntN(3) == 0 {
					lo = r.IntN(y.v.Len())
				}
				hi := lo + r.IntN(y.v.Len()-lo+1)
				x.v.Set(y.v.Slice(lo, hi))
			} else {
				x.v.Set(y.v)
			}
			shared++
		}
	})
	return
}
