// Package gen generates values of model types and hostile inputs.
package gen

import (
	"math/rand/v2"
	"reflect"

	"verif/harness/ref"
)

type Mode int

const (
	Random Mode = iota
	Zero        // zero contents, empty lists
	Full        // lists filled to the limit where the budget allows, large contents
	Tiny        // very short lists
	Long        // long lists, up to the budget
	Modes
)

// G generates values. Budget bounds the encoded size roughly.
type G struct {
	R      *rand.Rand
	Mode   Mode
	Budget int
	// Slack, if set, gives lists spare capacity.
	Slack bool
	// NilPtr, if set, sometimes leaves pointers nil.
	NilPtr bool
}

func New(r *rand.Rand, m Mode, budget int) *G { return &G{R: r, Mode: m, Budget: budget} }

// Value returns a new settable valid value of the node's type. Omitted fields stay zero.
func (g *G) Value(n *ref.Node) reflect.Value {
	v := reflect.New(n.T).Elem()
	g.Fill(n, v)
	return v
}

func (g *G) uint(size int) uint64 {
	if g.Mode == Zero {
		return 0
	}
	max := ^uint64(0) >> (64 - 8*size)
	switch g.R.IntN(10) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return g.R.Uint64() & max & 0xff
	case 3:
		return uint64(1) << g.R.IntN(8*size)
	case 4:
		return max - uint64(g.R.IntN(3))
	}
	return g.R.Uint64() & max
}

func (g *G) bytes(b []byte) {
	switch {
	case g.Mode == Zero:
		for i := range b {
			b[i] = 0
		}
		return
	case g.R.IntN(8) == 0:
		c := byte([]int{0, 0xff, 1, 0x80}[g.R.IntN(4)])
		for i := range b {
			b[i] = c
		}
		return
	}
	FillBytes(g.R, b)
}

// FillBytes fills with random bytes.
func FillBytes(r *rand.Rand, b []byte) {
	i := 0
	for ; i+8 <= len(b); i += 8 {
		x := r.Uint64()
		b[i], b[i+1], b[i+2], b[i+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		b[i+4], b[i+5], b[i+6], b[i+7] = byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56)
	}
	for x := r.Uint64(); i < len(b); i++ {
		b[i] = byte(x)
		x >>= 8
	}
}

// cost of one element in bytes, at the least
func cost(n *ref.Node) int {
	c := int(n.MinLen().Uint64())
	if !n.Fixed() {
		c += 4
	}
	if c == 0 {
		c = 1
	}
	return c
}

// length picks a list length: unit is the number of elements per 32-byte chunk (or 1).
func (g *G) length(limit uint64, c int, unit int) int {
	max := uint64(0)
	if g.Budget > 0 {
		max = uint64(g.Budget / c)
	}
	if limit < max {
		max = limit
	}
	if max == 0 {
		return 0
	}
	m := int(max)
	switch g.Mode {
	case Zero:
		return 0
	case Full:
		return m
	case Tiny:
		return g.R.IntN(min(m, 3) + 1)
	case Long:
		return m - g.R.IntN(m/4+1)
	}
	clamp := func(x int) int { return max0(min(x, m)) }
	switch g.R.IntN(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return m
	case 3:
		return clamp(m - 1)
	case 4, 5: // chunk boundaries
		k := 1 + g.R.IntN(max1(m/unit+1))
		return clamp(k*unit + g.R.IntN(3) - 1)
	case 6: // powers of two in chunks
		p := 1 << g.R.IntN(12)
		return clamp(p*unit + g.R.IntN(3) - 1)
	case 7:
		return g.R.IntN(min(m, 4) + 1)
	case 8:
		return g.R.IntN(min(m, 20) + 1)
	}
	return g.R.IntN(m + 1)
}

func max0(x int) int {
	if x < 0 {
		return 0
	}
	return x
}
func max1(x int) int {
	if x < 1 {
		return 1
	}
	return x
}

func (g *G) spend(n int) { g.Budget -= n }

func (g *G) makeSlice(t reflect.Type, l int) reflect.Value {
	c := l
	if g.Slack {
		c += g.R.IntN(6)
	}
	if c == 0 && g.R.IntN(2) == 0 {
		return reflect.Zero(t)
	}
	return reflect.MakeSlice(t, l, c)
}

// Fill makes v a valid value.
func (g *G) Fill(n *ref.Node, v reflect.Value) {
	switch n.K {
	case ref.KBool:
		g.spend(1)
		v.SetBool(g.Mode != Zero && g.R.IntN(2) == 0)
	case ref.KUint:
		g.spend(n.Size)
		v.SetUint(g.uint(n.Size))
	case ref.KPtr:
		if g.NilPtr && g.R.IntN(5) == 0 {
			v.Set(reflect.Zero(n.T))
			return
		}
		p := reflect.New(n.T.Elem())
		g.Fill(n.Elem, p.Elem())
		v.Set(p.Convert(n.T))
	case ref.KBitvector:
		g.spend(int(n.FixedLen()))
		if v.Len() > 0 {
			b := v.Slice(0, v.Len()).Bytes()
			g.bytes(b)
			if r := n.N % 8; r != 0 {
				b[len(b)-1] &= 1<<r - 1
			}
		}
	case ref.KBitlist:
		lim := n.Limit
		var bits int
		if g.Mode == Random && g.R.IntN(2) == 0 {
			// around byte and chunk boundaries
			m := int(min(lim, uint64(max1(g.Budget)*8)))
			b := []int{8, 256}[g.R.IntN(2)]
			k := g.R.IntN(m/b + 2)
			bits = max0(min(k*b-g.R.IntN(9)+1, m))
		} else {
			bits = g.bitsLength(lim)
		}
		v.Set(MakeBits(g, n.T, bits))
		g.spend(bits/8 + 1)
	case ref.KVector:
		if n.IsBytes() {
			g.spend(v.Len())
			if v.Len() > 0 {
				g.bytes(v.Slice(0, v.Len()).Bytes())
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			g.Fill(n.Elem, v.Index(i))
		}
	case ref.KList:
		unit := 1
		if n.Elem.IsBasic() {
			unit = 32 / int(n.Elem.FixedLen())
		}
		l := g.length(n.Limit, cost(n.Elem), unit)
		g.FillList(n, v, l)
	case ref.KContainer:
		for _, f := range n.Fields {
			if !f.Node.Fixed() {
				g.spend(4)
			}
			g.Fill(f.Node, ref.Sub(v, f.Index))
		}
	}
}

func (g *G) bitsLength(lim uint64) int {
	save := g.Budget
	g.Budget *= 8
	l := g.length(lim, 1, 256)
	g.Budget = save
	return l
}

// MakeBits makes a random bitlist of exactly the given length.
func MakeBits(g *G, t reflect.Type, bits int) reflect.Value {
	c := bits/8 + 1
	s := reflect.MakeSlice(t, c, c+map[bool]int{true: 3, false: 0}[g.Slack])
	b := s.Bytes()
	g.bytes(b)
	b[len(b)-1] &= 1<<(bits%8) - 1
	b[len(b)-1] |= 1 << (bits % 8)
	return s
}

// FillList makes v a list of exactly l elements (which may exceed the limit).
func (g *G) FillList(n *ref.Node, v reflect.Value, l int) {
	s := g.makeSlice(n.T, l)
	v.Set(s)
	if n.IsBytes() {
		g.spend(l)
		if l > 0 {
			g.bytes(v.Bytes())
		}
		return
	}
	for i := 0; i < l; i++ {
		if i > 0 && g.Budget > 0 && !n.Elem.Fixed() && g.Mode == Random {
			// share what is left among the remaining elements now and then
			save := g.Budget
			if g.R.IntN(2) == 0 {
				share := save/(l-i) + 8
				g.Budget = share
				g.Fill(n.Elem, v.Index(i))
				g.Budget = save - (share - g.Budget)
				continue
			}
		}
		if !n.Elem.Fixed() {
			g.spend(4)
		}
		g.Fill(n.Elem, v.Index(i))
	}
}

// FillOmitted puts recognisable contents into the omitted fields of a value (deeply).
func FillOmitted(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			FillOmitted(r, v.Elem())
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Struct, reflect.Ptr, reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				FillOmitted(r, v.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if ref.Omitted(f) {
				FillAny(r, ref.Sub(v, []int{i}))
			} else {
				FillOmitted(r, ref.Sub(v, []int{i}))
			}
		}
	}
}

// FillAny fills a value of any Go type.
func FillAny(r *rand.Rand, v reflect.Value) { fillAny(r, v, 4) }

func fillAny(r *rand.Rand, v reflect.Value, depth int) {
	if depth == 0 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Uint64()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(r.Uint64())
	case reflect.String:
		v.SetString("omitted contents"[:r.IntN(16)])
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillAny(r, v.Index(i), depth-1)
		}
	case reflect.Slice:
		l := r.IntN(4)
		v.Set(reflect.MakeSlice(v.Type(), l, l))
		for i := 0; i < l; i++ {
			fillAny(r, v.Index(i), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillAny(r, ref.Sub(v, []int{i}), depth-1)
		}
	case reflect.Ptr:
		if r.IntN(3) > 0 {
			p := reflect.New(v.Type().Elem())
			fillAny(r, p.Elem(), depth-1)
			v.Set(p.Convert(v.Type()))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 1))
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf(r.Uint64()))
		}
	}
}
