package gen

import (
	"reflect"

	"verif/harness/ref"
)

// Perturb changes one place of a valid value in place, so that it stays valid: one leaf, the order of
// two elements, the length of a list within its capacity, the contents of a list or pointee, mostly
// without moving anything in memory.
func Perturb(g *G, n *ref.Node, v reflect.Value) {
	r := g.R
	switch n.K {
	case ref.KBool:
		v.SetBool(!v.Bool())
	case ref.KUint:
		v.SetUint(v.Uint() ^ 1<<r.IntN(8*n.Size))
	case ref.KPtr:
		if v.IsNil() || r.IntN(12) == 0 {
			g.Fill(n, v)
			return
		}
		Perturb(g, n.Elem, v.Elem())
	case ref.KBitvector:
		if n.N > 0 {
			i := r.Uint64N(n.N)
			b := v.Slice(0, v.Len()).Bytes()
			b[i/8] ^= 1 << (i % 8)
		}
	case ref.KBitlist:
		b := v.Bytes()
		bits := ref.BitLen(b)
		if bits <= 0 || r.IntN(12) == 0 {
			g.Fill(n, v)
			return
		}
		last := len(b) - 1
		if bits%8 != 0 && r.IntN(3) == 0 { // one bit shorter, in the same byte
			bits--
			b[last] = b[last]&(1<<(bits%8)-1) | 1<<(bits%8)
			return
		}
		i := r.IntN(bits)
		b[i/8] ^= 1 << (i % 8)
	case ref.KVector:
		if v.Len() == 0 {
			return
		}
		if n.IsBytes() {
			v.Slice(0, v.Len()).Bytes()[r.IntN(v.Len())] ^= 1 << r.IntN(8)
			return
		}
		series(g, n, v)
	case ref.KList:
		l := v.Len()
		switch {
		case l == 0 || r.IntN(12) == 0:
			if g.Budget < 100 {
				g.Budget = 100
			}
			g.Fill(n, v)
		case r.IntN(6) == 0: // shorter, the elements stay behind
			v.SetLen(r.IntN(l))
		case r.IntN(4) == 0 && l < v.Cap() && uint64(l) < n.Limit: // longer, in place
			v.SetLen(l + 1)
			g.Budget = 60
			g.Fill(n.Elem, v.Index(l))
		case n.IsBytes():
			v.Bytes()[r.IntN(l)] ^= 1 << r.IntN(8)
		default:
			series(g, n, v)
		}
	case ref.KContainer:
		if len(n.Fields) > 0 {
			f := n.Fields[r.IntN(len(n.Fields))]
			Perturb(g, f.Node, ref.Sub(v, f.Index))
		}
	}
}

func series(g *G, n *ref.Node, v reflect.Value) {
	i := g.R.IntN(v.Len())
	if g.R.IntN(4) == 0 {
		reflect.Swapper(v.Slice(0, v.Len()).Interface())(i, g.R.IntN(v.Len()))
		return
	}
	Perturb(g, n.Elem, v.Index(i))
}
