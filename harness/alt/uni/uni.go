// Package uni has types whose names, package name included, are those of types in the other
// package uni of this module, with other contents, other limits or other omissions.
package uni

import "math/bits"

func bitLen(b []byte) uint64 {
	if len(b) == 0 || b[len(b)-1] == 0 {
		return 0
	}
	return uint64(len(b)-1)*8 + uint64(bits.Len8(b[len(b)-1])) - 1
}

type (
	LByte_7  []byte
	LByte_32 []byte
	LU16_16  []uint16
	LU64_9   []uint64
	BList_9  []byte
	BVec_9   [2]byte
	LL_A     []LByte_32
	Slot     uint32
	Half     uint64

	FxA struct {
		A uint64
		B uint8
	}
	FxB struct {
		A FxA
		B [3]uint16
	}
	FxF struct{ A uint8 }
	FxH struct {
		A uint64
		B *uint8
	}
	VrA struct {
		A LU16_16
		B uint16
		C uint8 `ssz:"omit"`
	}
	VrB struct{ A LByte_32 }
	VrC struct {
		A LByte_7
		B []byte `ssz:"omit"`
		C LU64_9
	}
	VrE struct {
		A VrA
		B VrB `ssz:"squash"`
		C [2]VrA
		D Slot
	}
	SqA struct {
		A uint8
		D *uint32
		B uint64 `ssz:"omit"`
		C uint32
	}
	LsFxA []FxA
	LsVrA []VrA

	// the same layout as over there
	WideParts struct{ A, B uint8 }
)

func (*LByte_7) Limit() uint64  { return 9 }
func (*LByte_32) Limit() uint64 { return 65 }
func (*LU16_16) Limit() uint64  { return 3 }
func (*LU64_9) Limit() uint64   { return 40 }
func (*BList_9) Limit() uint64  { return 300 }
func (b BList_9) BitLen() uint64 {
	return bitLen(b)
}
func (*BVec_9) BitLen() uint64 { return 14 }
func (*LL_A) Limit() uint64    { return 7 }
func (*LsFxA) Limit() uint64   { return 4 }
func (*LsVrA) Limit() uint64   { return 4 }

// Types are samples of them.
var Types = []any{LByte_7{}, LByte_32{}, LU16_16{}, LU64_9{}, BList_9{}, BVec_9{}, LL_A{}, Slot(0), Half(0),
	FxA{}, FxB{}, FxF{}, FxH{}, VrA{}, VrB{}, VrC{}, VrE{}, SqA{}, LsFxA{}, LsVrA{}, WideParts{}}
