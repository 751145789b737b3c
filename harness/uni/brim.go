package uni

import (
	"fmt"
	"reflect"
	"sync"
)

// Brim types are series with room for much, of a limit that values can reach: powers of two and
// their neighbours, in all kinds of elements.

type (
	m2047 struct{}
	m2048 struct{}
	m2049 struct{}
	m4096 struct{}
	m8k   struct{}
	m8k1  struct{}
	m16k  struct{}
	m32k  struct{}
	m64k  struct{}
	m64k1 struct{}
	m64kx struct{}
	m128k struct{}
	m512k struct{}
	m1m   struct{}
)

func (m2047) N() uint64 { return 2047 }
func (m2048) N() uint64 { return 2048 }
func (m2049) N() uint64 { return 2049 }
func (m4096) N() uint64 { return 4096 }
func (m8k) N() uint64   { return 8192 }
func (m8k1) N() uint64  { return 8193 }
func (m16k) N() uint64  { return 16384 }
func (m32k) N() uint64  { return 32768 }
func (m64k) N() uint64  { return 65536 }
func (m64k1) N() uint64 { return 65535 }
func (m64kx) N() uint64 { return 65537 }
func (m128k) N() uint64 { return 131072 }
func (m512k) N() uint64 { return 524288 }
func (m1m) N() uint64   { return 1 << 20 }

type (
	brimF struct {
		A uint64
		B [3]uint16
	}
	brimV struct {
		A uint8
		B L[uint8, n8]
	}
	brimBv [32768]byte
)

func (*brimBv) BitLen() uint64 { return 262144 }

func rows[E any](many bool) []any {
	out := []any{L[E, m2047]{}, L[E, m2048]{}, L[E, m2049]{}, L[E, m4096]{}, new([2048]E), new([2049]E), new([4096]E), struct {
		A uint8
		B L[E, m4096]
		C L[uint16, n3]
	}{}, L[L[E, m2048], n2]{}}
	if many {
		out = append(out, L[E, m8k]{}, L[E, m8k1]{}, L[E, m16k]{}, L[E, m32k]{}, L[E, m64k]{}, L[E, m64k1]{}, L[E, m64kx]{}, L[E, m128k]{}, new([8192]E), new([65536]E), new([65537]E), struct {
			A L[E, m64k]
			B *L[E, m32k]
		}{})
	}
	return out
}

var brim []*Entry
var brimOnce sync.Once

// Brim returns the entries of large series.
func Brim() []*Entry {
	brimOnce.Do(func() {
		mu.Lock()
		defer mu.Unlock()
		add := func(xs ...any) {
			for _, x := range xs {
				e, ok := wideEntry(reflect.TypeOf(x))
				if !ok {
					panic(fmt.Sprintf("large type not supported: %T", x))
				}
				brim = append(brim, e)
			}
		}
		add(rows[bool](true)...)
		add(rows[uint8](true)...)
		add(rows[uint16](true)...)
		add(rows[uint32](true)...)
		add(rows[uint64](true)...)
		add(rows[[32]byte](true)...)
		add(rows[[48]byte](false)...)
		add(rows[brimF](false)...)
		add(rows[brimV](false)...)
		add(rows[L[uint8, n33]](false)...)
		add(rows[*uint64](false)...)
		add(rows[B[n17]](false)...)
		add(rows[[2]uint64](false)...)
		add(L[*uint16, m64kx]{}, L[*uint64, m128k]{}, L[*bool, m128k]{}, L[brimF, m64kx]{}, L[brimV, m128k]{}, L[*brimV, m64k]{}, L[L[uint8, n33], m128k]{}, L[B[n17], m128k]{}, L[[48]byte, m128k]{}, new([65537]*uint32), new([65537]brimF), new([65537]L[uint8, n3]), struct {
			A L[L[uint16, n3], m128k]
			B L[*uint8, m128k]
		}{})
		add(L[uint8, m512k]{}, L[uint8, m1m]{}, L[bool, m512k]{}, L[uint16, m512k]{}, L[uint64, m512k]{}, L[uint32, m1m]{}, L[[32]byte, m64k]{},
			B[m64k]{}, B[m64k1]{}, B[m64kx]{}, B[m128k]{}, B[m512k]{}, B[m1m]{}, new(brimBv), [2]B[m64k]{}, struct {
				A B[m512k]
				B brimBv
			}{})
	})
	return brim
}
