package uni

import (
	"reflect"
	"sync"
)

// List types of every kind of element crossed with every small limit, among them limit 0.

type lim interface{ N() uint64 }

type (
	n0  struct{}
	n1  struct{}
	n2  struct{}
	n3  struct{}
	n4  struct{}
	n5  struct{}
	n7  struct{}
	n8  struct{}
	n9  struct{}
	n15 struct{}
	n16 struct{}
	n17 struct{}
	n31 struct{}
	n32 struct{}
	n33 struct{}
	n65 struct{}
)

func (n0) N() uint64  { return 0 }
func (n1) N() uint64  { return 1 }
func (n2) N() uint64  { return 2 }
func (n3) N() uint64  { return 3 }
func (n4) N() uint64  { return 4 }
func (n5) N() uint64  { return 5 }
func (n7) N() uint64  { return 7 }
func (n8) N() uint64  { return 8 }
func (n9) N() uint64  { return 9 }
func (n15) N() uint64 { return 15 }
func (n16) N() uint64 { return 16 }
func (n17) N() uint64 { return 17 }
func (n31) N() uint64 { return 31 }
func (n32) N() uint64 { return 32 }
func (n33) N() uint64 { return 33 }
func (n65) N() uint64 { return 65 }

type L[E any, M lim] []E

func (*L[E, M]) Limit() uint64 {
	var m M
	return m.N()
}

// LV declares the limit on the value.
type LV[E any, M lim] []E

func (LV[E, M]) Limit() uint64 {
	var m M
	return m.N()
}

// B is a bitlist.
type B[M lim] []byte

func (*B[M]) Limit() uint64 {
	var m M
	return m.N()
}
func (b B[M]) BitLen() uint64 { return bitLen(b) }

type (
	lf1 struct{ A uint8 }
	lf9 struct {
		A uint8
		B uint64
	}
	lv1 struct {
		A uint8
		B LByte_7
	}
	lv2 struct {
		B LByte_7
		C *LByte_7
	}
	lbv [2]byte
)

func (*lbv) BitLen() uint64 { return 11 }

// in gives the positions lists occur in.
func in[E any]() []any {
	return []any{
		L[E, n0]{}, L[E, n1]{}, L[E, n2]{}, L[E, n3]{}, L[E, n4]{}, L[E, n5]{}, L[E, n7]{}, L[E, n8]{}, L[E, n9]{},
		L[E, n15]{}, L[E, n16]{}, L[E, n17]{}, L[E, n31]{}, L[E, n32]{}, L[E, n33]{}, L[E, n65]{},
		LV[E, n3]{}, LV[E, n0]{},
		struct {
			A uint8
			L L[E, n0]
			M L[E, n3]
			B uint16
			Z LV[E, n9]
		}{},
		struct {
			P *L[E, n5]
			V [2]L[E, n2]
		}{},
		[2]L[E, n4]{}, new(L[E, n3]),
		L[L[E, n2], n0]{}, L[L[E, n0], n3]{}, L[L[E, n3], n2]{}, L[*L[E, n1], n4]{},
	}
}

var limits []*Entry
var limitsOnce sync.Once

// Limits returns the entries around list limits.
func Limits() []*Entry {
	limitsOnce.Do(func() {
		mu.Lock()
		defer mu.Unlock()
		add := func(xs ...any) {
			for _, x := range xs {
				e, ok := entry(reflect.TypeOf(x))
				if !ok {
					panic("list type not supported: " + reflect.TypeOf(x).String())
				}
				limits = append(limits, e)
			}
		}
		add(in[bool]()...)
		add(in[uint8]()...)
		add(in[uint16]()...)
		add(in[uint32]()...)
		add(in[uint64]()...)
		add(in[lf1]()...)
		add(in[lf9]()...)
		add(in[[3]byte]()...)
		add(in[[32]byte]()...)
		add(in[[5]bool]()...)
		add(in[[2]uint64]()...)
		add(in[[2]lf1]()...)
		add(in[*uint32]()...)
		add(in[*lf9]()...)
		add(in[lbv]()...)
		add(in[lv1]()...)
		add(in[*lv2]()...)
		add(in[B[n5]]()...)
		add(in[L[uint8, n4]]()...)
		add(in[L[bool, n3]]()...)
		add(in[[2]L[uint16, n3]]()...)
		add(B[n0]{}, B[n1]{}, B[n2]{}, B[n3]{}, B[n4]{}, B[n5]{}, B[n7]{}, B[n8]{}, B[n9]{}, B[n15]{}, B[n16]{}, B[n17]{}, B[n31]{}, B[n32]{}, B[n33]{}, B[n65]{},
			[2]B[n0]{}, [2]B[n7]{}, new(B[n8]), struct {
				A B[n0]
				B B[n7]
				C [3]B[n8]
			}{})
	})
	return limits
}
