package uni

import (
	"errors"
	"fmt"
	"reflect"

	alt "verif/harness/alt/uni"
)

// Odd types: names shared by several types, methods that mean nothing to SSZ, tags of others, and
// nesting tens and hundreds of levels deep.

// Types of one name, in one package.

func locals1() []any {
	type T struct {
		A uint8
		B LByte_7
	}
	type F struct {
		A uint8
		B uint32
	}
	type V [3]T
	return []any{T{}, F{}, V{}, struct{ A T }{}, L[T, n3]{}, L[F, n3]{}}
}

func locals2() []any {
	type T struct {
		A uint8
		B LByte_33
	}
	type F struct {
		A uint32
		B uint8
	}
	type V [3]F
	return []any{T{}, F{}, V{}, struct{ A T }{}, L[T, n3]{}, L[F, n3]{}}
}

func locals3() []any {
	type T struct {
		A LByte_7
		B uint8
	}
	type F struct {
		A uint8
		B uint32 `ssz:"omit"`
	}
	type V [2]*T
	return []any{T{}, F{}, V{}, struct{ A T }{}, L[T, n3]{}, L[F, n3]{}}
}

func localsOf[E any]() []any {
	type T struct {
		A E
		B uint8
	}
	type U struct{ A, B T }
	return []any{T{}, U{}, [2]T{}, L[T, n4]{}}
}

// Methods with nothing to say about SSZ.

type oddUint uint64

func (oddUint) String() string               { return "odd" }
func (oddUint) GoString() string             { return "odd" }
func (oddUint) Error() string                { return "odd" }
func (oddUint) BitLen() uint64               { return 3 }
func (oddUint) Limit() uint64                { return 2 }
func (oddUint) IsZero() bool                 { return true }
func (oddUint) MarshalText() ([]byte, error) { return nil, errors.New("odd") }

type oddBool bool

func (oddBool) String() string { return "maybe" }
func (*oddBool) BitLen() uint64 {
	return 1
}
func (oddBool) Limit() uint64 { return 0 }

type oddByte uint8

func (oddByte) String() string { return "X" }
func (oddByte) BitLen() uint64 { return 1 }
func (oddByte) Limit() uint64  { return 1 }

type oddBytes []oddByte

func (*oddBytes) Limit() uint64                { return 40 }
func (oddBytes) String() string                { return "0xodd" }
func (oddBytes) MarshalText() ([]byte, error)  { return []byte("odd"), nil }
func (oddBytes) MarshalJSON() ([]byte, error)  { return []byte(`"odd"`), nil }
func (oddBytes) Len() int                      { return 1 }
func (oddBytes) HashTreeRoot() [32]byte        { return [32]byte{1} }
func (oddBytes) Write(b []byte) (int, error)   { return len(b), nil }
func (*oddBytes) UnmarshalText(b []byte) error { return errors.New("odd") }

type oddArray [33]oddByte

func (*oddArray) Limit() uint64         { return 5 }
func (oddArray) String() string         { return "0xodd" }
func (oddArray) HashTreeRoot() [32]byte { return [32]byte{2} }

type oddWords [5]uint16

func (*oddWords) BitLen() uint64 { return 9 }
func (oddWords) Limit() uint64   { return 2 }
func (oddWords) String() string  { return "words" }

type oddFlags [4]bool

func (oddFlags) BitLen() uint64 { return 4 }

type oddWordList []uint16

func (oddWordList) Limit() uint64  { return 20 }
func (oddWordList) BitLen() uint64 { return 7 }
func (oddWordList) Len() int       { return 0 }

type oddFlagList []bool

func (*oddFlagList) Limit() uint64 { return 9 }
func (oddFlagList) BitLen() uint64 { return 3 }

type oddStruct struct {
	A uint16
	B oddUint
	C oddBytes
	D oddBool
}

func (oddStruct) Limit() uint64                       { return 1 }
func (*oddStruct) BitLen() uint64                     { return 1 }
func (oddStruct) String() string                      { return "odd{}" }
func (oddStruct) Format(s fmt.State, verb rune)       { fmt.Fprint(s, "odd") }
func (oddStruct) IsZero() bool                        { return true }
func (oddStruct) Len() int                            { return 0 }
func (oddStruct) Size() int                           { return 1 }
func (oddStruct) SizeSSZ() int                        { return 3 }
func (oddStruct) FixedLen() uint64                    { return 3 }
func (oddStruct) IsFixed() bool                       { return true }
func (oddStruct) MarshalSSZ() ([]byte, error)         { return []byte{1, 2, 3}, nil }
func (oddStruct) MarshalSSZTo([]byte) ([]byte, error) { return []byte{1, 2, 3}, nil }
func (*oddStruct) UnmarshalSSZ([]byte) error          { return nil }
func (oddStruct) HashTreeRoot() ([32]byte, error)     { return [32]byte{7}, nil }
func (oddStruct) MarshalBinary() ([]byte, error)      { return []byte{1}, nil }
func (*oddStruct) UnmarshalBinary([]byte) error       { return errors.New("odd") }
func (oddStruct) Equal(oddStruct) bool                { return true }
func (*oddStruct) Close() error                       { return errors.New("odd") }

type oddFixed struct {
	A oddByte
	B uint32
	C oddWords
}

func (oddFixed) String() string          { return "fixed" }
func (oddFixed) IsZero() bool            { return true }
func (*oddFixed) HashTreeRoot() [32]byte { return [32]byte{8} }
func (oddFixed) Limit() uint64           { return 2 }

type oddList []oddStruct

func (*oddList) Limit() uint64     { return 6 }
func (oddList) Len() int           { return 0 }
func (oddList) Less(_, _ int) bool { return true }
func (oddList) Swap(_, _ int)      {}
func (oddList) String() string     { return "[]" }
func (oddList) BitLen() uint64     { return 2 }
func (oddList) IsNil() bool        { return true }

type oddBits []byte

func (*oddBits) Limit() uint64   { return 21 }
func (b oddBits) BitLen() uint64 { return bitLen(b) }
func (oddBits) String() string   { return "bits" }
func (oddBits) Len() int         { return 3 }
func (oddBits) Bytes() []byte    { return nil }

type oddBitv [3]byte

func (*oddBitv) BitLen() uint64 { return 19 }
func (oddBitv) Limit() uint64   { return 1 }
func (oddBitv) String() string  { return "bitv" }

type oddAll struct {
	oddStruct
	F oddFixed `ssz:"squash"`
	U oddUint
	V []oddUint `ssz:"omit"`
	oddList
	B oddBits
	C oddBitv
	W oddWords
	X oddWordList
	Y oddFlagList
	Z *oddFixed
	P *oddList
}

type (
	deepL[E any] = L[L[L[L[L[E, n2], n2], n1], n3], n2]
	deepS[E any] = step[step[step[step[step[E]]]]]
	step[E any]  struct {
		A uint8
		B L[E, n2]
		C uint16
	}
	stepF[E any] struct {
		A uint8
		B E
	}
	stepV[E any] struct {
		A E
		B [1]E
	}
)

// hollow types have parts that are encoded to nothing, in every position.
func hollow() []any {
	type H struct{ X struct{} }
	return []any{
		H{}, new(H), struct{ A *H }{}, struct{ A **EmptyC }{},
		struct {
			A uint8
			X struct{}
		}{}, struct {
			X struct{}
			A uint8
		}{}, struct {
			A L[uint8, n4]
			X struct{}
		}{}, struct {
			X H
			A L[uint8, n4]
		}{}, struct {
			A L[uint8, n4]
			H *H
			B L[uint16, n3]
			Y *EmptyC
		}{}, struct {
			A uint8
			H struct {
				B L[uint8, n4]
				X struct{}
			}
		}{}, L[struct {
			A uint8
			X struct{}
		}, n3]{}, L[struct {
			X *H
			A L[lf1, n2]
			Y H
		}, n3]{}, [2]struct {
			A uint32
			X H
		}{}, struct {
			O uint8 `ssz:"omit"`
			X H     `ssz:"squash"`
			P *H
		}{}, struct {
			O []uint8 `ssz:"omit"`
		}{}, struct {
			A struct {
				O uint64 `ssz:"omit"`
			}
			B L[uint8, n3]
		}{}, struct {
			A []L[uint8, n3] `ssz:"omit"`
			B struct {
				C uint8 `ssz:"omit"`
				D *H
			}
			E struct{ F EmptyC }
		}{},
	}
}

// blank types have fields without a name: fields like others, only Go code cannot use them.
func blank() []any {
	type b1 struct{ _ uint8 }
	type b2 struct {
		_ uint16
		A uint8
		_ [3]byte
		B L[uint16, n3]
		_ L[lf1, n2]
		_ *uint32
		_ uint64 `ssz:"omit"`
		_ bool
	}
	type b3 struct {
		_ struct {
			A L[uint8, n4]
			_ b1
		} `ssz:"squash"`
		A uint8
		_ b1 `ssz:"squash"`
		_ b2
	}
	type b4 struct {
		A uint32
		_ uint32 // as if for padding
		B uint64
		_ [8]byte
	}
	out := []any{b1{}, b2{}, b3{}, b4{}, L[b4, n3]{}}
	return append(out, positions[b2]()...)
}

// sameSize types take as many bytes in memory as encoded, although the two differ.
func sameSize() []any {
	type p8 struct{ A *uint64 }
	type p8b struct {
		A uint64
		B *[8]byte
	}
	type p8c struct{ P *struct{ A, B uint32 } }
	type p4 struct{ A *uint32 }
	type p4b struct {
		A uint32
		B *[4]byte
		C *struct {
			A uint16
			B [2]bool
		}
	}
	type pp struct {
		A [2]*uint64
		B **uint64
	}
	type padOmit struct { // the omitted field makes up for the difference
		A uint16
		O uint16 `ssz:"omit"`
		B [2]uint8
		C uint16
	}
	type bools struct{ A, B, C bool }
	type permuted struct {
		B struct{ X, Y uint16 } `ssz:"squash"`
		A uint32
	}
	type words struct {
		A uint64
		B uint32
		C [4]byte
	}
	type omitPtr struct {
		A uint64
		O *uint64 `ssz:"omit"`
		P *[16]byte
	}
	var out []any
	out = append(out, p8{}, p8b{}, p8c{}, p4{}, p4b{}, pp{}, padOmit{}, bools{}, permuted{}, words{}, omitPtr{})
	out = append(out, positions[p8]()...)
	out = append(out, positions[p8b]()...)
	out = append(out, positions[p8c]()...)
	out = append(out, positions[p4]()...)
	out = append(out, positions[p4b]()...)
	out = append(out, positions[pp]()...)
	out = append(out, positions[padOmit]()...)
	out = append(out, positions[bools]()...)
	out = append(out, positions[words]()...)
	out = append(out, positions[omitPtr]()...)
	out = append(out, positions[*uint64]()...)
	out = append(out, positions[*[8]byte]()...)
	out = append(out, positions[*[4]byte]()...)
	out = append(out, positions[*p8]()...)
	return out
}

func positions[E any]() []any {
	return []any{L[E, n5]{}, [3]E{}, struct {
		A uint8
		B L[E, n33]
		C E
	}{}, L[[2]E, n4]{}, L[struct{ X E }, n9]{}, new(L[E, n3])}
}

func odd() []reflect.Type {
	var out []reflect.Type
	add := func(xs ...any) {
		for _, x := range xs {
			out = append(out, reflect.TypeOf(x))
		}
	}
	add(locals1()...)
	add(locals2()...)
	add(locals3()...)
	add(localsOf[uint8]()...)
	add(localsOf[uint64]()...)
	add(localsOf[LByte_7]()...)
	add(localsOf[alt.LByte_7]()...)
	for _, x := range alt.Types {
		t := reflect.TypeOf(x)
		out = append(out, t, reflect.PointerTo(t), reflect.ArrayOf(2, t), reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}}))
	}
	// here and there the same words, but other types
	add(struct{ A VrA }{}, struct{ A alt.VrA }{}, struct{ A FxA }{}, struct{ A alt.FxA }{}, [2]VrA{}, [2]alt.VrA{},
		struct {
			A VrA
			B alt.VrA
			C *FxA
			D *alt.FxA
		}{}, struct {
			A alt.FxA
			B FxA
			C [2]alt.LByte_7
			D [2]LByte_7
		}{}, L[VrA, n3]{}, L[alt.VrA, n3]{}, L[alt.FxA, n3]{}, L[FxA, n3]{}, L[alt.BList_9, n2]{}, L[BList_9, n2]{})
	// the same fields, other tags
	f := func(a, b reflect.StructTag) {
		out = append(out, reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(FxA{}), Tag: a}, {Name: "B", Type: reflect.TypeOf(uint16(0)), Tag: b}, {Name: "C", Type: reflect.TypeOf(LByte_7{})}}))
	}
	f("", "")
	f(`ssz:"omit"`, "")
	f(`ssz:"squash"`, "")
	f("", `ssz:"omit"`)
	f(`ssz:"squash,omit"`, "")
	f(`json:"omit"`, `yaml:"ssz,omit"`)
	f(`json:"a,omitempty" ssz:"squash"`, `json:"-" ssz:"omit" yaml:"b"`)
	f(`ssz:""`, `ssz:","`)
	f(`ssz:"other"`, `ssz:"other,omit"`)
	f(`ssz:"omitempty"`, `ssz:"omitempty"`)
	f(`ssz-size:"3"`, `ssz-max:"1"`)
	add(oddUint(0), oddBool(false), oddByte(0), oddBytes{}, oddArray{}, oddWords{}, oddFlags{}, oddWordList{}, oddFlagList{}, oddStruct{},
		oddFixed{}, oddList{}, oddBits{}, oddBitv{}, oddAll{}, new(oddStruct), new(oddUint), []*oddAll{}, [3]oddFixed{}, [5]oddUint{}, [40]oddByte{},
		[2]oddStruct{}, L[oddUint, n9]{}, L[oddFixed, n3]{}, L[*oddStruct, n3]{}, L[oddBits, n3]{}, L[oddBytes, n3]{}, L[oddArray, n2]{}, L[oddBitv, n5]{}, L[oddBool, n33]{}, [3]oddBytes{})
	for i, t := range out {
		if t.Kind() == reflect.Slice && t.Name() == "" { // a list needs a limit
			out[i] = t.Elem()
		}
	}
	// many fields of variable size
	for _, n := range []int{7, 8, 9, 16, 33, 65} {
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			t := []reflect.Type{reflect.TypeOf(LByte_7{}), reflect.TypeOf(LU16_16{}), reflect.TypeOf(VrA{}), reflect.TypeOf(BList_9{}), reflect.TypeOf(L[lv1, n3]{})}[(i*3+n)%5]
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t})
		}
		out = append(out, reflect.StructOf(fs))
	}
	add(hollow()...)
	add(sameSize()...)
	add(blank()...)
	// deep nesting
	add(deepL[uint8]{}, deepL[deepL[uint16]]{}, deepL[deepL[deepL[lv1]]]{}, deepL[deepL[deepL[deepL[deepL[deepL[deepL[LByte_7]]]]]]]{},
		deepS[uint8]{}, deepS[deepS[LByte_7]]{}, deepS[deepS[deepS[deepS[deepS[deepS[deepS[uint64]]]]]]]{}, deepS[deepL[deepS[deepL[FxA]]]]{},
		stepF[stepF[stepF[stepF[stepF[stepF[uint64]]]]]]{}, stepF[stepF[stepF[stepF[stepF[stepF[LByte_7]]]]]]{}, stepV[stepV[stepV[LByte_7]]]{}, stepV[stepV[stepV[uint16]]]{})
	for _, depth := range []int{17, 33, 66, 130, 300} {
		for kind := 0; kind < 4; kind++ {
			t := []reflect.Type{reflect.TypeOf(LByte_7{}), reflect.TypeOf(VrA{}), reflect.TypeOf(uint32(0)), reflect.TypeOf(BList_9{})}[kind]
			for d := 0; d < depth; d++ {
				switch {
				case d%3 == 0 || kind == 2:
					t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})
				case d%3 == 1:
					t = reflect.ArrayOf(1, t)
				case d%2 == 0:
					t = reflect.PointerTo(t)
				default:
					t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint8(0))}, {Name: "B", Type: t}})
				}
			}
			out = append(out, t)
		}
	}
	return out
}
