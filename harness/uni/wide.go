package uni

import (
	"fmt"
	"reflect"
	"sync"
)

// Wide types: elements and structs of more than 64 KiB of memory, fixed parts of more than 64 KiB,
// thousands of elements in place, very many fields, and deep nesting.

type wideElem struct {
	X [66001]byte `ssz:"omit"`
	A uint16
	B LByte_33
}

type WideElems []wideElem

func (*WideElems) Limit() uint64 { return 5 }

type wideFixed struct {
	A uint8
	X [8300]uint64
	B bool
}

type WideFixeds []wideFixed

func (*WideFixeds) Limit() uint64 { return 3 }

type wideBits [65537]byte

func (*wideBits) BitLen() uint64 { return 524291 }

type WideParts struct {
	A LByte_33
	X [66007]byte
	B LByte_7
	C uint32
	D []uint16 `ssz:"omit"`
	E *wideElem
}

type widePtrs []*wideFixed

func (*widePtrs) Limit() uint64 { return 2 }

type wideMany struct {
	A uint16
	B LByte_7
}

var wide []*Entry
var wideOnce sync.Once

// Wide returns the entries with values that take much memory.
func Wide() []*Entry {
	wideOnce.Do(func() {
		mu.Lock()
		defer mu.Unlock()
		add := func(t reflect.Type) {
			e, ok := wideEntry(t)
			if !ok {
				panic("wide type not supported: " + t.String())
			}
			wide = append(wide, e)
		}
		for _, x := range []any{WideElems{}, WideFixeds{}, wideBits{}, WideParts{}, widePtrs{},
			[2]wideElem{}, [2]*wideFixed{}, [8300]uint64{}, [66001]bool{}, [66001]byte{}, [33003]uint16{}, [8300]*uint16{},
			[2750]LByte_7{}, [2060]wideMany{}, [1100][2]LByte_7{}, [33]wideParts2{}, [4200][2]uint64{}} {
			add(reflect.TypeOf(x))
		}
		for _, x := range []any{wideSquash{}, wideEmbed{}, wideDeep{}, []*wideDeep{}, WideEmbeds{}, wideOmits{}} {
			if t := reflect.TypeOf(x); t.Name() == "" {
				add(t.Elem())
			} else {
				add(t)
			}
		}
		// many fields
		for _, n := range []int{127, 128, 129, 255, 256, 257, 300} {
			var fs []reflect.StructField
			for i := 0; i < n; i++ {
				t := basics[i%len(basics)]
				if i%17 == 3 {
					t = reflect.TypeOf(LByte_7{})
				}
				if n == 256 { // the fixed one
					t = basics[(i*7)%len(basics)]
				}
				f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t}
				if i%29 == 28 {
					f.Tag = `ssz:"omit"`
				}
				fs = append(fs, f)
			}
			add(reflect.StructOf(fs))
		}
		// deep nesting
		for i, leaf := range []any{LByte_33{}, uint16(0), wideMany{}} {
			t := reflect.TypeOf(leaf)
			for d := 0; d < 14; d++ {
				switch (d + i) % 4 {
				case 0:
					t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: reflect.TypeOf(uint8(0))}})
				case 1:
					t = reflect.PointerTo(t)
				case 2:
					t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(LByte_7{})}, {Name: "B", Type: t, Tag: `ssz:"squash"`}, {Name: "C", Type: reflect.TypeOf(uint16(0))}})
					if t.Field(1).Type.Kind() != reflect.Struct {
						t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(LByte_7{})}, {Name: "B", Type: t.Field(1).Type}})
					}
				case 3:
					t = reflect.ArrayOf(1+d%2, t)
				}
			}
			add(t)
		}
	})
	return wide
}

type wideParts2 struct {
	A [2001]byte
	B LByte_7
}

// structs squashed and embedded far behind the start of the parent, and parents far from theirs

type wideInner struct {
	A uint16
	B LByte_7
	C *uint32
	D FxB
}

type wideSquash struct {
	A uint32
	X [65536]byte `ssz:"omit"`
	I wideInner   `ssz:"squash"`
	Y [65529]byte `ssz:"omit"`
	J wideInner   `ssz:"squash"`
	B uint8
}

type wideEmbed struct {
	A uint32
	X [33000]uint16
	wideInner
	B bool
	FxD
}

type wideDeep struct {
	S wideSquash    `ssz:"squash"`
	X [70000]uint64 `ssz:"omit"`
	wideEmbed
	O *wideInner `ssz:"omit"`
	Z uint64
}

type WideEmbeds []wideEmbed

func (*WideEmbeds) Limit() uint64 { return 3 }

// 16 MiB of memory, few of them encoded
type wideOmits struct {
	A wideInner
	X [1 << 24]byte `ssz:"omit"`
	B wideInner     `ssz:"squash"`
	C LByte_33
	D uint64
}
