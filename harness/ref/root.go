package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"reflect"
)

// Hash is a hash function over arbitrary input.
type Hash func([]byte) [32]byte

// Hasher holds a hash function and the roots of all-zero trees under it.
type Hasher struct {
	H    Hash
	MixF func(a [32]byte, n uint64) [32]byte // nil: the hash of a and n, as SSZ has it
	zero [66][32]byte
}

func NewHasher(h Hash) *Hasher {
	r := &Hasher{H: h}
	for i := 1; i < len(r.zero); i++ {
		r.zero[i] = r.Pair(r.zero[i-1], r.zero[i-1])
	}
	return r
}

func (h *Hasher) Zero(i int) [32]byte { return h.zero[i] }

func (h *Hasher) Pair(a, b [32]byte) [32]byte {
	var x [64]byte
	copy(x[:32], a[:])
	copy(x[32:], b[:])
	return h.H(x[:])
}

func (h *Hasher) Mix(a [32]byte, n uint64) [32]byte {
	if h.MixF != nil {
		return h.MixF(a, n)
	}
	var b [32]byte
	binary.LittleEndian.PutUint64(b[:], n)
	return h.Pair(a, b)
}

var Sha = NewHasher(sha256.Sum256)

// Depth of the smallest full binary tree with at least limit leaves.
func Depth(limit uint64) int {
	d := 0
	for d < 64 && uint64(1)<<d < limit {
		d++
	}
	return d
}

// Merkle: root of the tree of 2^Depth(limit) leaves, level by level.
func (h *Hasher) Merkle(leaves [][32]byte, limit uint64) [32]byte {
	if limit == 0 {
		return [32]byte{}
	}
	d := Depth(limit)
	if len(leaves) == 0 {
		return h.zero[d]
	}
	cur := append([][32]byte(nil), leaves...)
	for l := 0; l < d; l++ {
		if len(cur)%2 == 1 {
			cur = append(cur, h.zero[l])
		}
		nx := make([][32]byte, len(cur)/2)
		for i := range nx {
			nx[i] = h.Pair(cur[2*i], cur[2*i+1])
		}
		cur = nx
	}
	return cur[0]
}

// Branch: the sibling at every level of the leaf at the given index.
func (h *Hasher) Branch(leaves [][32]byte, limit uint64, index uint64) (out [][32]byte) {
	d := Depth(limit)
	cur := append([][32]byte(nil), leaves...)
	for l := 0; l < d; l++ {
		s := (index >> l) ^ 1
		if s < uint64(len(cur)) {
			out = append(out, cur[s])
		} else {
			out = append(out, h.zero[l])
		}
		if len(cur)%2 == 1 {
			cur = append(cur, h.zero[l])
		}
		nx := make([][32]byte, len(cur)/2)
		for i := range nx {
			nx[i] = h.Pair(cur[2*i], cur[2*i+1])
		}
		cur = nx
	}
	return
}

func chunks(b []byte) [][32]byte {
	out := make([][32]byte, (len(b)+31)/32)
	for i := range out {
		copy(out[i][:], b[i*32:])
	}
	return out
}

func ceil32(n uint64) uint64 {
	return n/32 + (n%32+31)/32
}

// Root is the SSZ hash tree root.
func (n *Node) Root(h *Hasher, v reflect.Value) [32]byte {
	if n.inner != nil {
		r := n.inner.Root(h, v)
		for i := range r {
			r[i] ^= n.Twist.Xor
		}
		return r
	}
	switch n.K {
	case KBool, KUint:
		var out [32]byte
		n.append(out[:0], v)
		return out
	case KPtr:
		return n.Elem.Root(h, v.Elem())
	case KBitvector:
		return h.Merkle(chunks(byteView(v)), ceil32(n.fixedLen))
	case KBitlist:
		raw := byteView(v)
		l := BitLen(raw)
		bits := make([]byte, (l+7)/8)
		for i := 0; i < l; i++ {
			bits[i/8] |= raw[i/8] & (1 << (i % 8))
		}
		lim := n.Limit/256 + (n.Limit%256+255)/256
		return h.Mix(h.Merkle(chunks(bits), lim), uint64(l))
	case KVector, KList:
		var leaves [][32]byte
		lim := n.N
		if n.K == KList {
			lim = n.Limit
		}
		base := n.Elem // pointers are transparent
		for base.K == KPtr && base.Twist == nil {
			base = base.Elem
		}
		if base.IsBasic() && base.Twist == nil {
			var body []byte
			if n.IsBytes() {
				body = byteView(v)
			} else {
				for i := 0; i < v.Len(); i++ {
					body = n.Elem.append(body, v.Index(i))
				}
			}
			leaves = chunks(body)
			per := 32 / base.fixedLen
			lim = lim/per + (lim%per+per-1)/per
		} else {
			leaves = make([][32]byte, v.Len())
			for i := range leaves {
				leaves[i] = n.Elem.Root(h, v.Index(i))
			}
		}
		r := h.Merkle(leaves, lim)
		if n.K == KList {
			r = h.Mix(r, uint64(v.Len()))
		}
		return r
	case KContainer:
		return n.fieldsRoot(h, v, len(n.Fields))
	}
	panic("bad kind")
}

func (n *Node) fieldsRoot(h *Hasher, v reflect.Value, cnt int) [32]byte {
	leaves := make([][32]byte, cnt)
	for i := range leaves {
		f := n.Fields[i]
		leaves[i] = f.Node.Root(h, Sub(v, f.Index))
	}
	return h.Merkle(leaves, uint64(cnt))
}

// SigningRoot is the root over all fields but the last.
func (n *Node) SigningRoot(h *Hasher, v reflect.Value) [32]byte {
	c := len(n.Fields)
	if c > 0 {
		c--
	}
	return n.fieldsRoot(h, v, c)
}

// WithMix is the same hasher with another way to mix in lengths.
func (h *Hasher) WithMix(f func(a [32]byte, n uint64) [32]byte) *Hasher {
	x := *h
	x.MixF = f
	return &x
}
