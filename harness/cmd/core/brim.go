package main

import (
	"reflect"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/uni"
)

// fillBrim makes a value whose lists are at their limits, or just below, or half full.
func fillBrim(c *mon.Case, e *uni.Entry) reflect.Value {
	v := reflect.New(e.T).Elem()
	g := gen.New(c.R, []gen.Mode{gen.Random, gen.Random, gen.Zero, gen.Random}[c.R.IntN(4)], 0)
	var fill func(n *ref.Node, v reflect.Value)
	fill = func(n *ref.Node, v reflect.Value) {
		switch n.K {
		case ref.KPtr:
			p := reflect.New(n.T.Elem())
			fill(n.Elem, p.Elem())
			v.Set(p)
		case ref.KContainer:
			for _, f := range n.Fields {
				fill(f.Node, ref.Sub(v, f.Index))
			}
		case ref.KList, ref.KBitlist:
			l := int(n.Limit)
			switch x := c.R.IntN(8); {
			case x < 3:
				c.Count("lists filled to the limit")
			case x == 3:
				l -= c.R.IntN(min(l, 70))
			case x == 4:
				l /= 2
			case x == 5:
				l = min(l, l/2+1+c.R.IntN(40))
			case x == 6:
				for p := 1; ; p *= 2 { // a power of two, or next to one
					if p > l/2 {
						l = min(l, max(0, p+c.R.IntN(3)-1))
						break
					}
				}
			default:
				l = c.R.IntN(l + 1)
			}
			switch {
			case n.K == ref.KBitlist:
				v.Set(gen.MakeBits(g, n.T, l))
			case n.Elem.IsBasic() || n.Elem.K != ref.KList || n.Elem.Limit < 1000:
				g.FillList(n, v, l)
			default:
				v.Set(reflect.MakeSlice(n.T, l, l))
				for i := 0; i < l; i++ {
					fill(n.Elem, v.Index(i))
				}
			}
		default:
			g.Fill(n, v)
		}
	}
	fill(e.N, v)
	return v
}

// brims runs f on large series filled up.
func brims(r *mon.Run, name string, n int, f func(c *mon.Case, e *uni.Entry, v reflect.Value)) {
	if slow {
		n = max(1, n/10)
	}
	es := uni.Brim()
	perm := r.Rand(name).Perm(len(es)) // all of them have their turn before one has it again
	r.Phase(name, n, "series of thousands of elements, filled to the limit or nearly", func(c *mon.Case) {
		e := es[perm[c.Idx%len(es)]]
		f(c, e, fillBrim(c, e))
	})
}

// past16 runs f on series of more than 65535 elements, each kind of element in turn.
func past16(r *mon.Run, name string, f func(c *mon.Case, e *uni.Entry, v reflect.Value)) {
	es := uni.Filter(uni.Brim(), func(e *uni.Entry) bool {
		switch n := e.N; n.K {
		case ref.KList, ref.KBitlist:
			// the emulated machine is given the elements that the implementation treats in their own way there
			return n.Limit > 65535 && n.Limit < 140000 && (!slow || n.Limit == 65537)
		case ref.KVector:
			return n.N > 65535 && (!slow || n.N == 65537 && n.Elem.IsBasic())
		}
		return false
	})
	r.Phase(name, len(es), "series of more than 65535 elements, of every kind", func(c *mon.Case) {
		e := es[c.Idx]
		v := reflect.New(e.T).Elem()
		g := gen.New(c.R, gen.Random, 0)
		switch e.N.K {
		case ref.KList:
			g.FillList(e.N, v, int(e.N.Limit)-c.R.IntN(int(e.N.Limit-65535)))
		case ref.KBitlist:
			v.Set(gen.MakeBits(g, e.T, int(e.N.Limit)-c.R.IntN(int(e.N.Limit-65535))))
		default:
			g.Fill(e.N, v)
		}
		c.Count("kinds of series past 65535 elements")
		f(c, e, v)
	})
}
