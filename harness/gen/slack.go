package gen

import (
	"math/rand/v2"
	"reflect"

	"verif/harness/ref"
)

// Slacken moves every list of the value into a larger array, with elements before it, spare
// capacity behind it and more elements behind that, all filled, and returns those arrays.
func Slacken(r *rand.Rand, n *ref.Node, v reflect.Value) (arrays []reflect.Value) {
	switch n.K {
	case ref.KPtr:
		if !v.IsNil() {
			arrays = Slacken(r, n.Elem, v.Elem())
		}
	case ref.KVector:
		if !n.Elem.IsBasic() {
			for i := 0; i < v.Len(); i++ {
				arrays = append(arrays, Slacken(r, n.Elem, v.Index(i))...)
			}
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			arrays = append(arrays, Slacken(r, f.Node, ref.Sub(v, f.Index))...)
		}
	case ref.KList, ref.KBitlist:
		if v.Cap() == 0 && r.IntN(2) == 0 {
			return // nil and empty lists stay what they are, half of the time
		}
		pre, slack, post := r.IntN(3), r.IntN(5), 1+r.IntN(3)
		l := v.Len()
		if r.IntN(3) == 0 {
			slack += 2 * l
		}
		a := reflect.MakeSlice(v.Type(), pre+l+slack+post, pre+l+slack+post)
		for i := 0; i < a.Len(); i++ {
			switch {
			case i >= pre && i < pre+l:
				a.Index(i).Set(v.Index(i - pre))
			case n.K == ref.KBitlist:
				a.Index(i).SetUint(uint64(r.Uint32() & 0xff))
			default:
				New(r, Random, 12).Fill(n.Elem, a.Index(i))
			}
		}
		v.Set(a.Slice3(pre, pre+l, pre+l+slack))
		arrays = append(arrays, a)
		if n.K == ref.KList && !n.Elem.IsBasic() {
			for i := 0; i < l; i++ {
				arrays = append(arrays, Slacken(r, n.Elem, v.Index(i))...)
			}
		}
	}
	return
}
