// Package ref is an independent model of SSZ over ordinary Go values. It uses reflection
// only, shares no code with the library under test, and is the oracle of the monitors.
package ref

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"
)

type Kind int

const (
	KBool Kind = iota
	KUint
	KVector
	KList
	KBitvector
	KBitlist
	KContainer
	KPtr
)

var kindNames = [...]string{"bool", "uint", "vector", "list", "bitvector", "bitlist", "container", "ptr"}

func (k Kind) String() string { return kindNames[k] }

type Field struct {
	Name  string
	Path  string // the name, behind those of the squashed structs it comes from: "outer>name"
	Index []int  // path through squashed structs
	Node  *Node
}

// Node describes the SSZ meaning of a Go type.
type Node struct {
	K      Kind
	T      reflect.Type
	Size   int    // KUint: bytes
	N      uint64 // KVector: length; KBitvector: bits
	Limit  uint64 // KList, KBitlist
	Elem   *Node
	Fields []Field
	Twist  *Twist

	inner    *Node // the node without its twist
	fixed    bool
	fixedLen uint64
	min, max *big.Int
}

// IsBytes tells whether the node is a vector or list of single bytes.
func (n *Node) IsBytes() bool {
	return (n.K == KVector || n.K == KList) && n.Elem.K == KUint && n.Elem.Size == 1
}

func (n *Node) IsBasic() bool { return n.K == KBool || n.K == KUint }

type limiter interface{ Limit() uint64 }
type bitLener interface{ BitLen() uint64 }

var limiterT = reflect.TypeOf((*limiter)(nil)).Elem()
var bitLenerT = reflect.TypeOf((*bitLener)(nil)).Elem()

func hasFlag(tag reflect.StructTag, flag string) bool {
	v, ok := tag.Lookup("ssz")
	if !ok {
		return false
	}
	for _, p := range strings.Split(v, ",") {
		if p == flag {
			return true
		}
	}
	return false
}

var cache = map[reflect.Type]*Node{}
var parents = map[reflect.Type]bool{}

// Of builds the model of a Go type, or says why it is not an SSZ type. Not for concurrent use.
func Of(t reflect.Type) (*Node, error) {
	if n, ok := cache[t]; ok {
		return n, nil
	}
	if parents[t] {
		return nil, fmt.Errorf("%v is recursive", t)
	}
	parents[t] = true
	defer delete(parents, t)
	n, err := of(t, Of)
	if err == nil {
		n.finish()
		cache[t] = n
	}
	return n, err
}

// Twist changes the representation of a type in the model: every byte of the encoding and the
// root is combined with Xor, and Pad bytes of a fixed value follow.
type Twist struct {
	Xor byte
	Pad int
}

func (t *Twist) Apply(b []byte) []byte {
	for i := range b {
		b[i] ^= t.Xor
	}
	for i := 0; i < t.Pad; i++ {
		b = append(b, byte(0xC0+i))
	}
	return b
}

func (t *Twist) Undo(b []byte) ([]byte, error) {
	k := len(b) - t.Pad
	if k < 0 {
		return nil, errLen
	}
	for i := 0; i < t.Pad; i++ {
		if b[k+i] != byte(0xC0+i) {
			return nil, errors.New("twist")
		}
	}
	out := make([]byte, k)
	for i := range out {
		out[i] = b[i] ^ t.Xor
	}
	return out, nil
}

// OfTwisted builds the model of a type in which some types have another representation.
func OfTwisted(t reflect.Type, tw map[reflect.Type]*Twist) (*Node, error) {
	n, err := of(t, func(t reflect.Type) (*Node, error) { return OfTwisted(t, tw) })
	if err == nil {
		n.Twist = tw[t]
		n.finish()
	}
	return n, err
}

func of(t reflect.Type, sub func(reflect.Type) (*Node, error)) (*Node, error) {
	n := &Node{T: t}
	switch t.Kind() {
	case reflect.Bool:
		n.K = KBool
		return n, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n.K, n.Size = KUint, int(t.Size())
		return n, nil
	case reflect.Ptr:
		e, err := sub(t.Elem())
		if err != nil {
			return nil, err
		}
		n.K, n.Elem = KPtr, e
		return n, nil
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && reflect.PointerTo(t).Implements(bitLenerT) {
			n.K = KBitvector
			n.N = reflect.New(t).Interface().(bitLener).BitLen()
			if (n.N+7)/8 != uint64(t.Len()) {
				return nil, fmt.Errorf("bitvector %v: %d bits do not need %d bytes", t, n.N, t.Len())
			}
			return n, nil
		}
		e, err := sub(t.Elem())
		if err != nil {
			return nil, err
		}
		n.K, n.Elem, n.N = KVector, e, uint64(t.Len())
		return n, nil
	case reflect.Slice:
		if !reflect.PointerTo(t).Implements(limiterT) {
			return nil, fmt.Errorf("list %v has no limit", t)
		}
		n.Limit = reflect.New(t).Interface().(limiter).Limit()
		if t.Elem().Kind() == reflect.Uint8 && reflect.PointerTo(t).Implements(bitLenerT) {
			n.K = KBitlist
			return n, nil
		}
		e, err := sub(t.Elem())
		if err != nil {
			return nil, err
		}
		if e.fixed && e.fixedLen == 0 {
			return nil, fmt.Errorf("list %v of elements without contents", t)
		}
		n.K, n.Elem = KList, e
		return n, nil
	case reflect.Struct:
		n.K = KContainer
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if hasFlag(f.Tag, "omit") {
				continue
			}
			c, err := sub(f.Type)
			if err != nil {
				return nil, err
			}
			force := hasFlag(f.Tag, "squash")
			if (force || f.Anonymous) && c.K == KContainer && c.Twist == nil {
				for _, in := range c.Fields {
					n.Fields = append(n.Fields, Field{in.Name, f.Name + ">" + in.Path, append([]int{i}, in.Index...), in.Node})
				}
				continue
			}
			if force {
				return nil, fmt.Errorf("cannot squash %s", f.Name)
			}
			n.Fields = append(n.Fields, Field{f.Name, f.Name, []int{i}, c})
		}
		return n, nil
	}
	return nil, fmt.Errorf("unsupported kind %v", t.Kind())
}

func bi(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func (n *Node) finish() {
	n.bounds()
	if n.Twist != nil {
		in := *n
		in.Twist = nil
		n.inner = &in
		pad := bi(uint64(n.Twist.Pad))
		n.min, n.max = new(big.Int).Add(n.min, pad), new(big.Int).Add(n.max, pad)
		if n.fixed {
			n.fixedLen += pad.Uint64()
		}
	}
}

func (n *Node) bounds() {
	switch n.K {
	case KBool:
		n.fixed, n.fixedLen = true, 1
	case KUint:
		n.fixed, n.fixedLen = true, uint64(n.Size)
	case KBitvector:
		n.fixed, n.fixedLen = true, (n.N+7)/8
	case KPtr:
		n.fixed, n.fixedLen = n.Elem.fixed, n.Elem.fixedLen
		n.min, n.max = n.Elem.min, n.Elem.max
		return
	case KVector:
		if n.Elem.fixed {
			n.fixed, n.fixedLen = true, n.N*n.Elem.fixedLen
		} else {
			n.fixedLen = 4 * n.N
			n.min = new(big.Int).Mul(bi(n.N), new(big.Int).Add(bi(4), n.Elem.min))
			n.max = new(big.Int).Mul(bi(n.N), new(big.Int).Add(bi(4), n.Elem.max))
			return
		}
	case KList:
		n.min = bi(0)
		per := new(big.Int).Set(n.Elem.max)
		if !n.Elem.fixed {
			per.Add(per, bi(4))
		}
		n.max = per.Mul(per, bi(n.Limit))
		return
	case KBitlist:
		n.min = bi(1)
		n.max = bi(n.Limit/8 + 1)
		return
	case KContainer:
		n.fixed = true
		n.min, n.max = bi(0), bi(0)
		for _, f := range n.Fields {
			c := f.Node
			n.min.Add(n.min, c.min)
			n.max.Add(n.max, c.max)
			if c.fixed {
				n.fixedLen += c.fixedLen
			} else {
				n.fixed = false
				n.fixedLen += 4
				n.min.Add(n.min, bi(4))
				n.max.Add(n.max, bi(4))
			}
		}
		return
	}
	n.min, n.max = bi(n.fixedLen), bi(n.fixedLen)
}

func (n *Node) Fixed() bool      { return n.fixed }
func (n *Node) FixedLen() uint64 { return n.fixedLen }

// MinLen and MaxLen: lengths of the shortest and longest valid encodings.
func (n *Node) MinLen() *big.Int { return n.min }
func (n *Node) MaxLen() *big.Int { return n.max }

// MaxLen63 gives the maximum length if below 2^63.
func (n *Node) MaxLen63() (uint64, bool) {
	if n.max.BitLen() > 63 {
		return 0, false
	}
	return n.max.Uint64(), true
}

// Walk visits the node and everything below it, with multiplicity one per position in the type.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	if n.Elem != nil {
		n.Elem.Walk(f)
	}
	for _, x := range n.Fields {
		x.Node.Walk(f)
	}
}

// Has tells whether some node of the type satisfies the predicate.
func (n *Node) Has(p func(*Node) bool) bool {
	r := false
	n.Walk(func(m *Node) { r = r || p(m) })
	return r
}

// Omitted tells whether a struct field carries the omit flag.
func Omitted(f reflect.StructField) bool { return hasFlag(f.Tag, "omit") }

// Sub goes to a field through nested structs, unexported ones included.
func Sub(v reflect.Value, index []int) reflect.Value {
	for _, i := range index {
		v = v.Field(i)
	}
	if !v.CanSet() && v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}
