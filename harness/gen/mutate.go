package gen

import (
	"encoding/binary"
	"math/rand/v2"
	"reflect"

	"verif/harness/ref"
)

// faulter re-encodes a value while injecting one fault at a chosen node; the enclosing parts
// keep their offsets coherent with what was really written, so that the fault is reached.
type faulter struct {
	r      *rand.Rand
	at     map[int]bool // indices of the nodes that get faults, counted in visiting order
	seen   int
	Kind   string
	budget int
}

// Faulty returns an encoding of the value with one structural fault (which may, by chance,
// still be a canonical encoding; the reference decides) and the kind of the fault.
func Faulty(r *rand.Rand, n *ref.Node, v reflect.Value) ([]byte, string) {
	c := &faulter{r: r}
	c.enc(n, v)
	f := &faulter{r: r, at: map[int]bool{r.IntN(c.seen): true}}
	if r.IntN(5) == 0 { // several, which may make up for one another
		for i := 1 + r.IntN(3); i > 0; i-- {
			f.at[r.IntN(c.seen)] = true
		}
	}
	b := f.enc(n, v)
	if len(f.at) > 1 {
		f.Kind += ",..."
	}
	return b, f.Kind
}

func (f *faulter) enc(n *ref.Node, v reflect.Value) []byte {
	hit := f.at[f.seen]
	f.seen++
	var b []byte
	switch n.K {
	case ref.KPtr:
		if v.IsNil() {
			return nil
		}
		f.seen-- // transparent
		return f.enc(n.Elem, v.Elem())
	case ref.KBool, ref.KUint, ref.KBitvector, ref.KBitlist:
		b = n.Encode(v)
	case ref.KVector, ref.KList:
		if n.Elem.IsBasic() {
			b = n.Encode(v)
			break
		}
		var parts [][]byte
		var fixed []bool
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, f.enc(n.Elem, v.Index(i)))
			fixed = append(fixed, n.Elem.Fixed())
		}
		return f.join(n, parts, fixed, hit)
	case ref.KContainer:
		var parts [][]byte
		var fixed []bool
		for _, x := range n.Fields {
			parts = append(parts, f.enc(x.Node, ref.Sub(v, x.Index)))
			fixed = append(fixed, x.Node.Fixed())
		}
		return f.join(n, parts, fixed, hit)
	}
	if hit {
		b = f.leaf(n, append([]byte(nil), b...))
	}
	return b
}

func (f *faulter) leaf(n *ref.Node, b []byte) []byte {
	r := f.r
	switch n.K {
	case ref.KBool:
		if r.IntN(3) > 0 {
			f.Kind = "bad-bool"
			return []byte{byte(2 + r.IntN(254))}
		}
	case ref.KBitvector:
		if rem := n.N % 8; rem != 0 && r.IntN(3) > 0 {
			f.Kind = "bitvector-padding"
			b[len(b)-1] |= 1 << (rem + uint64(r.IntN(int(8-rem))))
			return b
		}
	case ref.KBitlist:
		switch r.IntN(5) {
		case 0:
			f.Kind = "bitlist-no-delimiter"
			b[len(b)-1] = 0
			return b
		case 1:
			f.Kind = "bitlist-zero-byte"
			return append(b, 0)
		case 2:
			f.Kind = "bitlist-empty"
			return nil
		case 3:
			if n.Limit < 1<<13 {
				f.Kind = "bitlist-over-limit"
				l := int(n.Limit) + 1 + r.IntN(10)
				x := make([]byte, l/8+1)
				FillBytes(r, x)
				x[len(x)-1] &= 1<<(l%8) - 1
				x[len(x)-1] |= 1 << (l % 8)
				return x
			}
		}
	case ref.KList:
		es := int(n.Elem.FixedLen())
		switch r.IntN(4) {
		case 0:
			if n.Limit*uint64(es) < 1<<13 {
				f.Kind = "list-over-limit"
				x := make([]byte, (int(n.Limit)+1+r.IntN(3))*es)
				if n.Elem.K != ref.KBool {
					FillBytes(r, x)
				}
				copy(x, b)
				return x
			}
		case 1:
			if es > 1 {
				f.Kind = "partial-element"
				return append(b, make([]byte, 1+r.IntN(es-1))...)
			}
		case 2:
			if n.Elem.K == ref.KBool && len(b) > 0 {
				f.Kind = "bad-bool"
				b[r.IntN(len(b))] = byte(2 + r.IntN(254))
				return b
			}
		}
	case ref.KVector:
		if n.Elem.K == ref.KBool && r.IntN(2) == 0 && len(b) > 0 {
			f.Kind = "bad-bool"
			b[r.IntN(len(b))] = byte(2 + r.IntN(254))
			return b
		}
	}
	return f.bytesFault(b)
}

func (f *faulter) bytesFault(b []byte) []byte {
	r := f.r
	switch r.IntN(5) {
	case 0:
		if len(b) > 0 {
			f.Kind = "dropped-bytes"
			return b[:len(b)-1-r.IntN(min(len(b), 4))]
		}
	case 1:
		f.Kind = "dropped-all"
		return nil
	case 2:
		if len(b) > 0 {
			f.Kind = "changed-byte"
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			return b
		}
	}
	f.Kind = "extra-bytes"
	x := make([]byte, 1+r.IntN(5))
	if r.IntN(2) == 0 {
		FillBytes(r, x)
	}
	return append(b, x...)
}

// join lays the parts out; with a fault, one of the layout rules is broken.
func (f *faulter) join(n *ref.Node, parts [][]byte, fixed []bool, hit bool) []byte {
	r := f.r
	vars := 0
	for _, x := range fixed {
		if !x {
			vars++
		}
	}
	kind := ""
	if hit {
		if vars == 0 {
			if n.K == ref.KList && n.Limit < 200 && len(parts) > 0 && r.IntN(2) == 0 {
				f.Kind = "list-over-limit"
				for uint64(len(parts)) <= n.Limit {
					parts = append(parts, parts[r.IntN(len(parts))])
					fixed = append(fixed, true)
				}
			} else {
				var b []byte
				for _, p := range parts {
					b = append(b, p...)
				}
				return f.bytesFault(b)
			}
		} else {
			kinds := []string{"offset+1", "offset-1", "offset+4", "offset-4", "offset-zero", "offset-max", "offset-swap", "gap-first", "gap-inner", "last-beyond", "offset-equal-first", "reorder", "overlap", "extra-offset", "missing-offset", "trailing", "offset-random", "offset-all-shift", "offset-high"}
			if n.K == ref.KList && n.Limit < 200 {
				kinds = append(kinds, "list-over-limit", "list-over-limit", "list-over-limit")
			}
			kind = kinds[r.IntN(len(kinds))]
			f.Kind = kind
			if kind == "list-over-limit" {
				for uint64(len(parts)) <= n.Limit {
					parts = append(parts, parts[r.IntN(len(parts))])
					fixed = append(fixed, false)
				}
				vars = len(parts)
			}
		}
	}
	// fixed part
	head := 0
	for i, p := range parts {
		if fixed[i] {
			head += len(p)
		} else {
			head += 4
		}
	}
	switch kind {
	case "extra-offset":
		head += 4
	case "missing-offset":
		head -= 4
	}
	var vp [][]byte
	for i, p := range parts {
		if !fixed[i] {
			vp = append(vp, p)
		}
	}
	order := make([]int, vars)
	for i := range order {
		order[i] = i
	}
	if kind == "reorder" && vars > 1 {
		i := r.IntN(vars)
		j := (i + 1 + r.IntN(vars-1)) % vars
		order[i], order[j] = order[j], order[i]
	}
	gapAt, gap := -1, 1+r.IntN(8)
	switch kind {
	case "gap-first":
		gapAt = 0
	case "gap-inner":
		gapAt = r.IntN(vars)
	}
	offs := make([]uint32, vars)
	var body []byte
	skipped := -1
	if kind == "overlap" && vars > 1 {
		skipped = 1 + r.IntN(vars-1)
	}
	for k, i := range order {
		if k == gapAt {
			body = append(body, make([]byte, gap)...)
		}
		if i == skipped {
			offs[i] = offs[i-1] // shares its bytes with the previous part
			continue
		}
		offs[i] = uint32(head + len(body))
		body = append(body, vp[i]...)
	}
	if vars > 0 {
		k := r.IntN(vars)
		switch kind {
		case "offset+1":
			offs[k]++
		case "offset-1":
			offs[k]--
		case "offset+4":
			offs[k] += 4
		case "offset-4":
			offs[k] -= 4
		case "offset-zero":
			offs[k] = 0
		case "offset-max":
			offs[k] = ^uint32(0) - uint32(r.IntN(8))
		case "offset-swap":
			j := r.IntN(vars)
			offs[k], offs[j] = offs[j], offs[k]
		case "last-beyond":
			offs[vars-1] = uint32(head + len(body) + 1 + r.IntN(5))
		case "offset-equal-first":
			offs[k] = offs[0]
		case "trailing":
			x := make([]byte, 1+r.IntN(5))
			FillBytes(r, x)
			body = append(body, x...)
		case "offset-random":
			offs[k] = uint32(r.IntN(head + len(body) + 8))
		case "offset-all-shift":
			d := uint32(r.IntN(9)) - 4
			for i := range offs {
				offs[i] += d
			}
		case "offset-high":
			offs[k] |= 1 << (16 + r.IntN(16))
		}
	}
	var out []byte
	put := func(o uint32) {
		out = binary.LittleEndian.AppendUint32(out, o)
	}
	vi := 0
	for i, p := range parts {
		if fixed[i] {
			out = append(out, p...)
		} else {
			if kind == "missing-offset" && vi == 0 && vars > 0 {
				vi++
				continue
			}
			put(offs[vi])
			vi++
		}
	}
	if kind == "extra-offset" {
		put(uint32(head + len(body)))
	}
	return append(out, body...)
}

// Mutate applies generic damage to an encoding.
func Mutate(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	switch k := r.IntN(11); k {
	case 0:
		if len(b) > 0 {
			return b[:r.IntN(len(b))], "truncate"
		}
	case 1:
		x := make([]byte, 1+r.IntN(9))
		if r.IntN(2) == 0 {
			FillBytes(r, x)
		}
		return append(b, x...), "extend"
	case 2, 3:
		if len(b) > 0 {
			for i := 1 + r.IntN(3); i > 0; i-- {
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
			return b, "flip-bits"
		}
	case 4:
		if len(b) > 0 {
			b[r.IntN(len(b))] = []byte{0, 1, 2, 3, 4, 0x7f, 0x80, 0xff}[r.IntN(8)]
			return b, "set-byte"
		}
	case 5:
		if len(b) >= 4 {
			p := r.IntN(len(b) - 3)
			binary.LittleEndian.PutUint32(b[p:], []uint32{0, 1, 4, uint32(len(b)), uint32(len(b)) + 1, uint32(len(b)) - 1, 1 << 31, ^uint32(0), uint32(r.IntN(len(b) + 4))}[r.IntN(9)])
			return b, "set-word"
		}
	case 6:
		if len(b) > 0 {
			p := r.IntN(len(b))
			return append(b[:p:p], b[p+1:]...), "delete-byte"
		}
	case 7:
		p := r.IntN(len(b) + 1)
		return append(append(b[:p:p], byte(r.Uint32())), b[p:]...), "insert-byte"
	case 8:
		if len(b) > 1 {
			p, q := r.IntN(len(b)), r.IntN(len(b))
			b[p], b[q] = b[q], b[p]
			return b, "swap-bytes"
		}
	case 9:
		if len(b) >= 4 { // small change to an aligned word
			p := r.IntN(len(b)/4) * 4
			binary.LittleEndian.PutUint32(b[p:], binary.LittleEndian.Uint32(b[p:])+uint32(r.IntN(9))-4)
			return b, "nudge-word"
		}
	}
	x := make([]byte, r.IntN(len(b)+6))
	FillBytes(r, x)
	return x, "random"
}

// Hostile makes one input for the type: structural faults, generic damage, or noise.
func Hostile(r *rand.Rand, n *ref.Node, budget int) ([]byte, string) {
	g := New(r, []Mode{Random, Random, Random, Tiny, Zero, Full}[r.IntN(6)], budget)
	v := g.Value(n)
	switch r.IntN(10) {
	case 0:
		return n.Encode(v), "valid"
	case 1, 2, 3, 4, 5:
		return Faulty(r, n, v)
	case 6:
		b, k := Faulty(r, n, v)
		b, k2 := Mutate(r, b)
		return b, k + "+" + k2
	default:
		return Mutate(r, n.Encode(v))
	}
}
