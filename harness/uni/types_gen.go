// Code generated by tools/gen_types.py; DO NOT EDIT.

package uni

import "reflect"

type Slot uint64
type Flag bool
type Oct uint8
type Half uint16
type LByte_0 []byte

func (*LByte_0) Limit() uint64 { return 0 }

type LByte_1 []byte

func (*LByte_1) Limit() uint64 { return 1 }

type LByte_2 []byte

func (*LByte_2) Limit() uint64 { return 2 }

type LByte_3 []byte

func (*LByte_3) Limit() uint64 { return 3 }

type LByte_7 []byte

func (*LByte_7) Limit() uint64 { return 7 }

type LByte_31 []byte

func (*LByte_31) Limit() uint64 { return 31 }

type LByte_32 []byte

func (*LByte_32) Limit() uint64 { return 32 }

type LByte_33 []byte

func (*LByte_33) Limit() uint64 { return 33 }

type LByte_48 []byte

func (*LByte_48) Limit() uint64 { return 48 }

type LByte_63 []byte

func (*LByte_63) Limit() uint64 { return 63 }

type LByte_64 []byte

func (*LByte_64) Limit() uint64 { return 64 }

type LByte_65 []byte

func (*LByte_65) Limit() uint64 { return 65 }

type LByte_96 []byte

func (*LByte_96) Limit() uint64 { return 96 }

type LByte_100 []byte

func (*LByte_100) Limit() uint64 { return 100 }

type LByte_128 []byte

func (*LByte_128) Limit() uint64 { return 128 }

type LByte_255 []byte

func (*LByte_255) Limit() uint64 { return 255 }

type LByte_256 []byte

func (*LByte_256) Limit() uint64 { return 256 }

type LByte_257 []byte

func (*LByte_257) Limit() uint64 { return 257 }

type LByte_1000 []byte

func (*LByte_1000) Limit() uint64 { return 1000 }

type LByte_2048 []byte

func (*LByte_2048) Limit() uint64 { return 2048 }

type LByte_65536 []byte

func (*LByte_65536) Limit() uint64 { return 65536 }

type LByte_67108864 []byte

func (*LByte_67108864) Limit() uint64 { return 67108864 }

type LByte_4294967296 []byte

func (*LByte_4294967296) Limit() uint64 { return 4294967296 }

type LByte_1099511627776 []byte

func (*LByte_1099511627776) Limit() uint64 { return 1099511627776 }

type LByte_4611686018427387904 []byte

func (*LByte_4611686018427387904) Limit() uint64 { return 4611686018427387904 }

type LBool_1 []bool

func (*LBool_1) Limit() uint64 { return 1 }

type LBool_2 []bool

func (*LBool_2) Limit() uint64 { return 2 }

type LBool_5 []bool

func (*LBool_5) Limit() uint64 { return 5 }

type LBool_31 []bool

func (*LBool_31) Limit() uint64 { return 31 }

type LBool_32 []bool

func (*LBool_32) Limit() uint64 { return 32 }

type LBool_33 []bool

func (*LBool_33) Limit() uint64 { return 33 }

type LBool_64 []bool

func (*LBool_64) Limit() uint64 { return 64 }

type LBool_65 []bool

func (*LBool_65) Limit() uint64 { return 65 }

type LBool_100 []bool

func (*LBool_100) Limit() uint64 { return 100 }

type LBool_300 []bool

func (*LBool_300) Limit() uint64 { return 300 }

type LBool_1048576 []bool

func (*LBool_1048576) Limit() uint64 { return 1048576 }

type LU16_1 []uint16

func (*LU16_1) Limit() uint64 { return 1 }

type LU16_2 []uint16

func (*LU16_2) Limit() uint64 { return 2 }

type LU16_3 []uint16

func (*LU16_3) Limit() uint64 { return 3 }

type LU16_15 []uint16

func (*LU16_15) Limit() uint64 { return 15 }

type LU16_16 []uint16

func (*LU16_16) Limit() uint64 { return 16 }

type LU16_17 []uint16

func (*LU16_17) Limit() uint64 { return 17 }

type LU16_32 []uint16

func (*LU16_32) Limit() uint64 { return 32 }

type LU16_33 []uint16

func (*LU16_33) Limit() uint64 { return 33 }

type LU16_48 []uint16

func (*LU16_48) Limit() uint64 { return 48 }

type LU16_100 []uint16

func (*LU16_100) Limit() uint64 { return 100 }

type LU16_128 []uint16

func (*LU16_128) Limit() uint64 { return 128 }

type LU16_1024 []uint16

func (*LU16_1024) Limit() uint64 { return 1024 }

type LU16_70000 []uint16

func (*LU16_70000) Limit() uint64 { return 70000 }

type LU16_1099511627776 []uint16

func (*LU16_1099511627776) Limit() uint64 { return 1099511627776 }

type LU32_1 []uint32

func (*LU32_1) Limit() uint64 { return 1 }

type LU32_3 []uint32

func (*LU32_3) Limit() uint64 { return 3 }

type LU32_7 []uint32

func (*LU32_7) Limit() uint64 { return 7 }

type LU32_8 []uint32

func (*LU32_8) Limit() uint64 { return 8 }

type LU32_9 []uint32

func (*LU32_9) Limit() uint64 { return 9 }

type LU32_16 []uint32

func (*LU32_16) Limit() uint64 { return 16 }

type LU32_17 []uint32

func (*LU32_17) Limit() uint64 { return 17 }

type LU32_24 []uint32

func (*LU32_24) Limit() uint64 { return 24 }

type LU32_64 []uint32

func (*LU32_64) Limit() uint64 { return 64 }

type LU32_100 []uint32

func (*LU32_100) Limit() uint64 { return 100 }

type LU32_129 []uint32

func (*LU32_129) Limit() uint64 { return 129 }

type LU32_65536 []uint32

func (*LU32_65536) Limit() uint64 { return 65536 }

type LU32_1099511627776 []uint32

func (*LU32_1099511627776) Limit() uint64 { return 1099511627776 }

type LU64_0 []uint64

func (*LU64_0) Limit() uint64 { return 0 }

type LU64_1 []uint64

func (*LU64_1) Limit() uint64 { return 1 }

type LU64_2 []uint64

func (*LU64_2) Limit() uint64 { return 2 }

type LU64_3 []uint64

func (*LU64_3) Limit() uint64 { return 3 }

type LU64_4 []uint64

func (*LU64_4) Limit() uint64 { return 4 }

type LU64_5 []uint64

func (*LU64_5) Limit() uint64 { return 5 }

type LU64_8 []uint64

func (*LU64_8) Limit() uint64 { return 8 }

type LU64_9 []uint64

func (*LU64_9) Limit() uint64 { return 9 }

type LU64_12 []uint64

func (*LU64_12) Limit() uint64 { return 12 }

type LU64_33 []uint64

func (*LU64_33) Limit() uint64 { return 33 }

type LU64_100 []uint64

func (*LU64_100) Limit() uint64 { return 100 }

type LU64_257 []uint64

func (*LU64_257) Limit() uint64 { return 257 }

type LU64_8192 []uint64

func (*LU64_8192) Limit() uint64 { return 8192 }

type LU64_65536 []uint64

func (*LU64_65536) Limit() uint64 { return 65536 }

type LU64_4294967296 []uint64

func (*LU64_4294967296) Limit() uint64 { return 4294967296 }

type LU64_1099511627776 []uint64

func (*LU64_1099511627776) Limit() uint64 { return 1099511627776 }

type LU64_576460752303423488 []uint64

func (*LU64_576460752303423488) Limit() uint64 { return 576460752303423488 }

type LSlot_4 []Slot

func (*LSlot_4) Limit() uint64 { return 4 }

type LSlot_9 []Slot

func (*LSlot_9) Limit() uint64 { return 9 }

type LSlot_1048576 []Slot

func (*LSlot_1048576) Limit() uint64 { return 1048576 }

type LOct_5 []Oct

func (*LOct_5) Limit() uint64 { return 5 }

type LOct_33 []Oct

func (*LOct_33) Limit() uint64 { return 33 }

type LOct_64 []Oct

func (*LOct_64) Limit() uint64 { return 64 }

type LOct_256 []Oct

func (*LOct_256) Limit() uint64 { return 256 }

type LFlag_3 []Flag

func (*LFlag_3) Limit() uint64 { return 3 }

type LFlag_40 []Flag

func (*LFlag_40) Limit() uint64 { return 40 }

type LHalf_6 []Half

func (*LHalf_6) Limit() uint64 { return 6 }

type LHalf_40 []Half

func (*LHalf_40) Limit() uint64 { return 40 }

type BList_0 []byte

func (*BList_0) Limit() uint64   { return 0 }
func (b BList_0) BitLen() uint64 { return bitLen(b) }

type BList_1 []byte

func (*BList_1) Limit() uint64   { return 1 }
func (b BList_1) BitLen() uint64 { return bitLen(b) }

type BList_2 []byte

func (*BList_2) Limit() uint64   { return 2 }
func (b BList_2) BitLen() uint64 { return bitLen(b) }

type BList_3 []byte

func (*BList_3) Limit() uint64   { return 3 }
func (b BList_3) BitLen() uint64 { return bitLen(b) }

type BList_5 []byte

func (*BList_5) Limit() uint64   { return 5 }
func (b BList_5) BitLen() uint64 { return bitLen(b) }

type BList_7 []byte

func (*BList_7) Limit() uint64   { return 7 }
func (b BList_7) BitLen() uint64 { return bitLen(b) }

type BList_8 []byte

func (*BList_8) Limit() uint64   { return 8 }
func (b BList_8) BitLen() uint64 { return bitLen(b) }

type BList_9 []byte

func (*BList_9) Limit() uint64   { return 9 }
func (b BList_9) BitLen() uint64 { return bitLen(b) }

type BList_15 []byte

func (*BList_15) Limit() uint64   { return 15 }
func (b BList_15) BitLen() uint64 { return bitLen(b) }

type BList_16 []byte

func (*BList_16) Limit() uint64   { return 16 }
func (b BList_16) BitLen() uint64 { return bitLen(b) }

type BList_17 []byte

func (*BList_17) Limit() uint64   { return 17 }
func (b BList_17) BitLen() uint64 { return bitLen(b) }

type BList_31 []byte

func (*BList_31) Limit() uint64   { return 31 }
func (b BList_31) BitLen() uint64 { return bitLen(b) }

type BList_32 []byte

func (*BList_32) Limit() uint64   { return 32 }
func (b BList_32) BitLen() uint64 { return bitLen(b) }

type BList_40 []byte

func (*BList_40) Limit() uint64   { return 40 }
func (b BList_40) BitLen() uint64 { return bitLen(b) }

type BList_63 []byte

func (*BList_63) Limit() uint64   { return 63 }
func (b BList_63) BitLen() uint64 { return bitLen(b) }

type BList_64 []byte

func (*BList_64) Limit() uint64   { return 64 }
func (b BList_64) BitLen() uint64 { return bitLen(b) }

type BList_65 []byte

func (*BList_65) Limit() uint64   { return 65 }
func (b BList_65) BitLen() uint64 { return bitLen(b) }

type BList_100 []byte

func (*BList_100) Limit() uint64   { return 100 }
func (b BList_100) BitLen() uint64 { return bitLen(b) }

type BList_127 []byte

func (*BList_127) Limit() uint64   { return 127 }
func (b BList_127) BitLen() uint64 { return bitLen(b) }

type BList_248 []byte

func (*BList_248) Limit() uint64   { return 248 }
func (b BList_248) BitLen() uint64 { return bitLen(b) }

type BList_255 []byte

func (*BList_255) Limit() uint64   { return 255 }
func (b BList_255) BitLen() uint64 { return bitLen(b) }

type BList_256 []byte

func (*BList_256) Limit() uint64   { return 256 }
func (b BList_256) BitLen() uint64 { return bitLen(b) }

type BList_257 []byte

func (*BList_257) Limit() uint64   { return 257 }
func (b BList_257) BitLen() uint64 { return bitLen(b) }

type BList_300 []byte

func (*BList_300) Limit() uint64   { return 300 }
func (b BList_300) BitLen() uint64 { return bitLen(b) }

type BList_504 []byte

func (*BList_504) Limit() uint64   { return 504 }
func (b BList_504) BitLen() uint64 { return bitLen(b) }

type BList_511 []byte

func (*BList_511) Limit() uint64   { return 511 }
func (b BList_511) BitLen() uint64 { return bitLen(b) }

type BList_512 []byte

func (*BList_512) Limit() uint64   { return 512 }
func (b BList_512) BitLen() uint64 { return bitLen(b) }

type BList_513 []byte

func (*BList_513) Limit() uint64   { return 513 }
func (b BList_513) BitLen() uint64 { return bitLen(b) }

type BList_767 []byte

func (*BList_767) Limit() uint64   { return 767 }
func (b BList_767) BitLen() uint64 { return bitLen(b) }

type BList_768 []byte

func (*BList_768) Limit() uint64   { return 768 }
func (b BList_768) BitLen() uint64 { return bitLen(b) }

type BList_1000 []byte

func (*BList_1000) Limit() uint64   { return 1000 }
func (b BList_1000) BitLen() uint64 { return bitLen(b) }

type BList_1023 []byte

func (*BList_1023) Limit() uint64   { return 1023 }
func (b BList_1023) BitLen() uint64 { return bitLen(b) }

type BList_1024 []byte

func (*BList_1024) Limit() uint64   { return 1024 }
func (b BList_1024) BitLen() uint64 { return bitLen(b) }

type BList_1025 []byte

func (*BList_1025) Limit() uint64   { return 1025 }
func (b BList_1025) BitLen() uint64 { return bitLen(b) }

type BList_2048 []byte

func (*BList_2048) Limit() uint64   { return 2048 }
func (b BList_2048) BitLen() uint64 { return bitLen(b) }

type BList_4096 []byte

func (*BList_4096) Limit() uint64   { return 4096 }
func (b BList_4096) BitLen() uint64 { return bitLen(b) }

type BList_1048576 []byte

func (*BList_1048576) Limit() uint64   { return 1048576 }
func (b BList_1048576) BitLen() uint64 { return bitLen(b) }

type BList_1099511627776 []byte

func (*BList_1099511627776) Limit() uint64   { return 1099511627776 }
func (b BList_1099511627776) BitLen() uint64 { return bitLen(b) }

type BList_9223372036854775808 []byte

func (*BList_9223372036854775808) Limit() uint64   { return 9223372036854775808 }
func (b BList_9223372036854775808) BitLen() uint64 { return bitLen(b) }

type BList_18446744073709551608 []byte

func (*BList_18446744073709551608) Limit() uint64   { return 18446744073709551608 }
func (b BList_18446744073709551608) BitLen() uint64 { return bitLen(b) }

type BList_18446744073709551609 []byte

func (*BList_18446744073709551609) Limit() uint64   { return 18446744073709551609 }
func (b BList_18446744073709551609) BitLen() uint64 { return bitLen(b) }

type BList_18446744073709551615 []byte

func (*BList_18446744073709551615) Limit() uint64   { return 18446744073709551615 }
func (b BList_18446744073709551615) BitLen() uint64 { return bitLen(b) }

type BVec_1 [1]byte

func (*BVec_1) BitLen() uint64 { return 1 }

type BVec_2 [1]byte

func (*BVec_2) BitLen() uint64 { return 2 }

type BVec_3 [1]byte

func (*BVec_3) BitLen() uint64 { return 3 }

type BVec_4 [1]byte

func (*BVec_4) BitLen() uint64 { return 4 }

type BVec_5 [1]byte

func (*BVec_5) BitLen() uint64 { return 5 }

type BVec_6 [1]byte

func (*BVec_6) BitLen() uint64 { return 6 }

type BVec_7 [1]byte

func (*BVec_7) BitLen() uint64 { return 7 }

type BVec_8 [1]byte

func (*BVec_8) BitLen() uint64 { return 8 }

type BVec_9 [2]byte

func (*BVec_9) BitLen() uint64 { return 9 }

type BVec_10 [2]byte

func (*BVec_10) BitLen() uint64 { return 10 }

type BVec_12 [2]byte

func (*BVec_12) BitLen() uint64 { return 12 }

type BVec_15 [2]byte

func (*BVec_15) BitLen() uint64 { return 15 }

type BVec_16 [2]byte

func (*BVec_16) BitLen() uint64 { return 16 }

type BVec_17 [3]byte

func (*BVec_17) BitLen() uint64 { return 17 }

type BVec_31 [4]byte

func (*BVec_31) BitLen() uint64 { return 31 }

type BVec_33 [5]byte

func (*BVec_33) BitLen() uint64 { return 33 }

type BVec_63 [8]byte

func (*BVec_63) BitLen() uint64 { return 63 }

type BVec_64 [8]byte

func (*BVec_64) BitLen() uint64 { return 64 }

type BVec_65 [9]byte

func (*BVec_65) BitLen() uint64 { return 65 }

type BVec_100 [13]byte

func (*BVec_100) BitLen() uint64 { return 100 }

type BVec_127 [16]byte

func (*BVec_127) BitLen() uint64 { return 127 }

type BVec_200 [25]byte

func (*BVec_200) BitLen() uint64 { return 200 }

type BVec_249 [32]byte

func (*BVec_249) BitLen() uint64 { return 249 }

type BVec_255 [32]byte

func (*BVec_255) BitLen() uint64 { return 255 }

type BVec_256 [32]byte

func (*BVec_256) BitLen() uint64 { return 256 }

type BVec_257 [33]byte

func (*BVec_257) BitLen() uint64 { return 257 }

type BVec_260 [33]byte

func (*BVec_260) BitLen() uint64 { return 260 }

type BVec_300 [38]byte

func (*BVec_300) BitLen() uint64 { return 300 }

type BVec_505 [64]byte

func (*BVec_505) BitLen() uint64 { return 505 }

type BVec_511 [64]byte

func (*BVec_511) BitLen() uint64 { return 511 }

type BVec_512 [64]byte

func (*BVec_512) BitLen() uint64 { return 512 }

type BVec_513 [65]byte

func (*BVec_513) BitLen() uint64 { return 513 }

type BVec_1000 [125]byte

func (*BVec_1000) BitLen() uint64 { return 1000 }

type BVec_1023 [128]byte

func (*BVec_1023) BitLen() uint64 { return 1023 }

type BVec_1024 [128]byte

func (*BVec_1024) BitLen() uint64 { return 1024 }

type BVec_1025 [129]byte

func (*BVec_1025) BitLen() uint64 { return 1025 }

type BVec_2048 [256]byte

func (*BVec_2048) BitLen() uint64 { return 2048 }

type FxA struct {
	A uint8
	B uint64
	C uint32
}
type FxB struct {
	A bool
	B uint16
	C bool
	D uint64
}
type FxC struct {
	A [3]byte
	B [5]uint16
	C BVec_9
}
type FxD struct {
	A FxA
	B [2]FxB
	C uint8
}
type FxE struct {
	A [32]byte
	B [48]byte
	C [96]byte
	D uint64
}
type FxF struct {
	A uint16
}
type FxG struct {
	A Slot
	B Flag
	C Oct
	D Half
	E [3]Slot
	F [5]Flag
	G [33]Oct
}
type FxH struct {
	A *uint64
	B *FxA
	C uint8
	D **uint16
}
type FxI struct {
	A [4]bool
	B [3]*uint32
	C *[3]uint16
	D [2]*FxB
}
type FxJ struct {
	A bool
}
type FxK struct {
	A uint64
	B uint32
	C uint32
	D uint8
	E uint8
	F uint16
	G [7]uint64
	H BVec_257
	I uint8
}
type FxL struct {
	A uint8
	B uint8
	C uint8
	D uint8
	E uint8
	F uint8
	G uint8
	H uint8
	I uint8
}
type FxM struct {
	A [65]byte
	B [17]uint16
	C [9]uint32
	D [5]uint64
	E [33]bool
}
type VrA struct {
	A uint16
	B LU16_1024
	C uint8
}
type VrB struct {
	A LByte_32
}
type VrC struct {
	A LByte_100
	B LBool_33
	C LU64_9
}
type VrD struct {
	A uint8
	B LByte_64
	C uint64
	D LU32_8
	E bool
}
type VrE struct {
	A VrA
	B uint32
	C VrB
	D [2]VrA
}
type VrF struct {
	A BList_9
	B BVec_9
	C BList_256
	D uint16
}
type VrG struct {
	A *LByte_32
	B *VrA
	C uint8
	D *BList_17
	E **LU16_16
}
type VrH struct {
	A [3]LByte_32
	B [2]BList_255
	C [1]VrB
}
type VrI struct {
	A LU16_16
	B LU16_16
	C LU16_16
	D LU16_16
	E LU16_16
}
type VrJ struct {
	A uint64
	B BList_2048
	C FxE
}
type VrK struct {
	A LSlot_9
	B LOct_33
	C LFlag_40
	D LHalf_6
}
type L_Arr32_byte_1 [][32]byte

func (*L_Arr32_byte_1) Limit() uint64 { return 1 }

type L_Arr32_byte_2 [][32]byte

func (*L_Arr32_byte_2) Limit() uint64 { return 2 }

type L_Arr32_byte_3 [][32]byte

func (*L_Arr32_byte_3) Limit() uint64 { return 3 }

type L_Arr32_byte_5 [][32]byte

func (*L_Arr32_byte_5) Limit() uint64 { return 5 }

type L_Arr32_byte_16 [][32]byte

func (*L_Arr32_byte_16) Limit() uint64 { return 16 }

type L_Arr32_byte_33 [][32]byte

func (*L_Arr32_byte_33) Limit() uint64 { return 33 }

type L_Arr32_byte_64 [][32]byte

func (*L_Arr32_byte_64) Limit() uint64 { return 64 }

type L_Arr32_byte_128 [][32]byte

func (*L_Arr32_byte_128) Limit() uint64 { return 128 }

type L_Arr32_byte_8192 [][32]byte

func (*L_Arr32_byte_8192) Limit() uint64 { return 8192 }

type L_Arr32_byte_1099511627776 [][32]byte

func (*L_Arr32_byte_1099511627776) Limit() uint64 { return 1099511627776 }

type L_Arr4_byte_4 [][4]byte

func (*L_Arr4_byte_4) Limit() uint64 { return 4 }

type L_Arr4_byte_9 [][4]byte

func (*L_Arr4_byte_9) Limit() uint64 { return 9 }

type L_Arr48_byte_3 [][48]byte

func (*L_Arr48_byte_3) Limit() uint64 { return 3 }

type L_Arr48_byte_2048 [][48]byte

func (*L_Arr48_byte_2048) Limit() uint64 { return 2048 }

type L_BVec_9_5 []BVec_9

func (*L_BVec_9_5) Limit() uint64 { return 5 }

type L_BVec_257_3 []BVec_257

func (*L_BVec_257_3) Limit() uint64 { return 3 }

type L_BVec_257_8 []BVec_257

func (*L_BVec_257_8) Limit() uint64 { return 8 }

type L_BList_18446744073709551615_3 []BList_18446744073709551615

func (*L_BList_18446744073709551615_3) Limit() uint64 { return 3 }

type L_Arr3_uint16_3 [][3]uint16

func (*L_Arr3_uint16_3) Limit() uint64 { return 3 }

type L_Arr3_uint16_17 [][3]uint16

func (*L_Arr3_uint16_17) Limit() uint64 { return 17 }

type L_Arr5_bool_4 [][5]bool

func (*L_Arr5_bool_4) Limit() uint64 { return 4 }

type L_FxA_1 []FxA

func (*L_FxA_1) Limit() uint64 { return 1 }

type L_FxA_2 []FxA

func (*L_FxA_2) Limit() uint64 { return 2 }

type L_FxA_4 []FxA

func (*L_FxA_4) Limit() uint64 { return 4 }

type L_FxA_7 []FxA

func (*L_FxA_7) Limit() uint64 { return 7 }

type L_FxA_33 []FxA

func (*L_FxA_33) Limit() uint64 { return 33 }

type L_FxA_1099511627776 []FxA

func (*L_FxA_1099511627776) Limit() uint64 { return 1099511627776 }

type L_FxB_3 []FxB

func (*L_FxB_3) Limit() uint64 { return 3 }

type L_FxB_16 []FxB

func (*L_FxB_16) Limit() uint64 { return 16 }

type L_FxB_65536 []FxB

func (*L_FxB_65536) Limit() uint64 { return 65536 }

type L_FxC_5 []FxC

func (*L_FxC_5) Limit() uint64 { return 5 }

type L_FxD_2 []FxD

func (*L_FxD_2) Limit() uint64 { return 2 }

type L_FxD_9 []FxD

func (*L_FxD_9) Limit() uint64 { return 9 }

type L_FxE_4 []FxE

func (*L_FxE_4) Limit() uint64 { return 4 }

type L_FxF_1 []FxF

func (*L_FxF_1) Limit() uint64 { return 1 }

type L_FxF_6 []FxF

func (*L_FxF_6) Limit() uint64 { return 6 }

type L_FxF_33 []FxF

func (*L_FxF_33) Limit() uint64 { return 33 }

type L_FxF_100 []FxF

func (*L_FxF_100) Limit() uint64 { return 100 }

type L_FxG_4 []FxG

func (*L_FxG_4) Limit() uint64 { return 4 }

type L_FxH_3 []FxH

func (*L_FxH_3) Limit() uint64 { return 3 }

type L_FxH_5 []FxH

func (*L_FxH_5) Limit() uint64 { return 5 }

type L_FxI_4 []FxI

func (*L_FxI_4) Limit() uint64 { return 4 }

type L_FxJ_5 []FxJ

func (*L_FxJ_5) Limit() uint64 { return 5 }

type L_FxJ_40 []FxJ

func (*L_FxJ_40) Limit() uint64 { return 40 }

type L_FxK_2 []FxK

func (*L_FxK_2) Limit() uint64 { return 2 }

type L_FxL_3 []FxL

func (*L_FxL_3) Limit() uint64 { return 3 }

type L_FxM_2 []FxM

func (*L_FxM_2) Limit() uint64 { return 2 }

type L_VrA_1 []VrA

func (*L_VrA_1) Limit() uint64 { return 1 }

type L_VrA_2 []VrA

func (*L_VrA_2) Limit() uint64 { return 2 }

type L_VrA_3 []VrA

func (*L_VrA_3) Limit() uint64 { return 3 }

type L_VrA_8 []VrA

func (*L_VrA_8) Limit() uint64 { return 8 }

type L_VrA_1099511627776 []VrA

func (*L_VrA_1099511627776) Limit() uint64 { return 1099511627776 }

type L_VrB_1 []VrB

func (*L_VrB_1) Limit() uint64 { return 1 }

type L_VrB_4 []VrB

func (*L_VrB_4) Limit() uint64 { return 4 }

type L_VrB_17 []VrB

func (*L_VrB_17) Limit() uint64 { return 17 }

type L_VrB_65536 []VrB

func (*L_VrB_65536) Limit() uint64 { return 65536 }

type L_VrC_3 []VrC

func (*L_VrC_3) Limit() uint64 { return 3 }

type L_VrC_9 []VrC

func (*L_VrC_9) Limit() uint64 { return 9 }

type L_VrD_5 []VrD

func (*L_VrD_5) Limit() uint64 { return 5 }

type L_VrE_2 []VrE

func (*L_VrE_2) Limit() uint64 { return 2 }

type L_VrF_4 []VrF

func (*L_VrF_4) Limit() uint64 { return 4 }

type L_VrG_3 []VrG

func (*L_VrG_3) Limit() uint64 { return 3 }

type L_VrH_2 []VrH

func (*L_VrH_2) Limit() uint64 { return 2 }

type L_VrI_3 []VrI

func (*L_VrI_3) Limit() uint64 { return 3 }

type L_VrJ_4 []VrJ

func (*L_VrJ_4) Limit() uint64 { return 4 }

type L_VrK_3 []VrK

func (*L_VrK_3) Limit() uint64 { return 3 }

type L_LByte_32_1 []LByte_32

func (*L_LByte_32_1) Limit() uint64 { return 1 }

type L_LByte_32_2 []LByte_32

func (*L_LByte_32_2) Limit() uint64 { return 2 }

type L_LByte_32_4 []LByte_32

func (*L_LByte_32_4) Limit() uint64 { return 4 }

type L_LByte_32_9 []LByte_32

func (*L_LByte_32_9) Limit() uint64 { return 9 }

type L_LByte_32_33 []LByte_32

func (*L_LByte_32_33) Limit() uint64 { return 33 }

type L_LByte_32_1099511627776 []LByte_32

func (*L_LByte_32_1099511627776) Limit() uint64 { return 1099511627776 }

type L_LByte_3_5 []LByte_3

func (*L_LByte_3_5) Limit() uint64 { return 5 }

type L_LByte_1000_6 []LByte_1000

func (*L_LByte_1000_6) Limit() uint64 { return 6 }

type L_LByte_1099511627776_16 []LByte_1099511627776

func (*L_LByte_1099511627776_16) Limit() uint64 { return 16 }

type L_LBool_5_3 []LBool_5

func (*L_LBool_5_3) Limit() uint64 { return 3 }

type L_LBool_5_8 []LBool_5

func (*L_LBool_5_8) Limit() uint64 { return 8 }

type L_LU16_3_2 []LU16_3

func (*L_LU16_3_2) Limit() uint64 { return 2 }

type L_LU16_3_7 []LU16_3

func (*L_LU16_3_7) Limit() uint64 { return 7 }

type L_LU64_4_3 []LU64_4

func (*L_LU64_4_3) Limit() uint64 { return 3 }

type L_LU64_4_40 []LU64_4

func (*L_LU64_4_40) Limit() uint64 { return 40 }

type L_BList_9_2 []BList_9

func (*L_BList_9_2) Limit() uint64 { return 2 }

type L_BList_9_5 []BList_9

func (*L_BList_9_5) Limit() uint64 { return 5 }

type L_BList_9_12 []BList_9

func (*L_BList_9_12) Limit() uint64 { return 12 }

type L_BList_256_3 []BList_256

func (*L_BList_256_3) Limit() uint64 { return 3 }

type L_BList_1_4 []BList_1

func (*L_BList_1_4) Limit() uint64 { return 4 }

type L_Arr2_LByte_32_3 [][2]LByte_32

func (*L_Arr2_LByte_32_3) Limit() uint64 { return 3 }

type L_Arr2_BList_9_4 [][2]BList_9

func (*L_Arr2_BList_9_4) Limit() uint64 { return 4 }

type L_Puint64_3 []*uint64

func (*L_Puint64_3) Limit() uint64 { return 3 }

type L_Puint64_9 []*uint64

func (*L_Puint64_9) Limit() uint64 { return 9 }

type L_Puint8_4 []*uint8

func (*L_Puint8_4) Limit() uint64 { return 4 }

type L_Puint8_33 []*uint8

func (*L_Puint8_33) Limit() uint64 { return 33 }

type L_PFxA_5 []*FxA

func (*L_PFxA_5) Limit() uint64 { return 5 }

type L_PVrA_4 []*VrA

func (*L_PVrA_4) Limit() uint64 { return 4 }

type L_PLByte_32_3 []*LByte_32

func (*L_PLByte_32_3) Limit() uint64 { return 3 }

type L_PPFxF_4 []**FxF

func (*L_PPFxF_4) Limit() uint64 { return 4 }

type L_Pbool_5 []*bool

func (*L_Pbool_5) Limit() uint64 { return 5 }

type L_PArr32_byte_3 []*[32]byte

func (*L_PArr32_byte_3) Limit() uint64 { return 3 }

type L_Arr2_PVrB_3 [][2]*VrB

func (*L_Arr2_PVrB_3) Limit() uint64 { return 3 }

type L_Arr2_PFxB_3 [][2]*FxB

func (*L_Arr2_PFxB_3) Limit() uint64 { return 3 }

type LL_A []L_LByte_32_4

func (*LL_A) Limit() uint64 { return 3 }

type LL_B []L_VrB_4

func (*LL_B) Limit() uint64 { return 4 }

type LL_C []LL_A

func (*LL_C) Limit() uint64 { return 2 }

type LL_D [][2]LL_A

func (*LL_D) Limit() uint64 { return 2 }

type LL_E []*LL_A

func (*LL_E) Limit() uint64 { return 3 }

type LL_F []L_BList_9_2

func (*LL_F) Limit() uint64 { return 3 }

type LL_G []L_FxA_4

func (*LL_G) Limit() uint64 { return 3 }

type LL_H []LL_B

func (*LL_H) Limit() uint64 { return 1099511627776 }

type prA struct {
	x uint16
	Y LU16_16
	o string `ssz:"omit"`
	z [3]uint8
}
type prB struct {
	A uint8
	b uint32
	c *uint16
}
type EmptyC struct{}
type OnlyOmit struct {
	A uint8    `ssz:"omit"`
	B LByte_32 `ssz:"omit"`
}
type SqA struct {
	A uint8
	D *uint32 `ssz:"omit"`
	B uint64
	C uint32
}
type SqB struct {
	D uint32
	E uint8 `ssz:"omit"`
	SqA
	More SqA `ssz:"squash"`
}
type SqC struct {
	Foo SqA `ssz:"squash"`
	SqA
	X   SqB `ssz:"squash"`
	Bar SqA `ssz:"squash"`
	SqB
}
type SqD struct {
	A uint8
	VrA
	Z  LByte_32
	In VrC            `ssz:"squash"`
	M  map[string]int `ssz:"omit"`
	Y  uint16
}
type SqE struct {
	SqD
	Q SqC      `json:"q" ssz:"foo,squash"`
	O LByte_32 `ssz:"omit"`
	T VrB
}
type SqF struct {
	O string `ssz:"omit"`
	A uint16
	P [3]uint64 `ssz:"omit"`
	B uint8
	Q chan int `json:"-" ssz:"x,omit"`
	C LU16_16
	R func() `ssz:"omit,squash"`
}
type SqG struct {
	LByte_32
	BVec_9
	Slot
	A uint8
}
type SqH struct {
	SqF `ssz:"omit"`
	SqA `json:"x"`
	B   SqF
}
type SqI struct {
	A SqG `ssz:"squash"`
	B struct {
		X uint8
		Y LU64_4
		Z struct{ W uint16 } `ssz:"squash"`
	} `ssz:"squash"`
}
type SqJ struct {
	*FxA
	B uint8
	*VrB
	C FxF `ssz:"squash"`
}
type SqK struct {
	O [5]byte `ssz:"omit"`
	VrA
	O2 uint8 `ssz:"omit"`
	L  L_FxA_4
	O3 *VrA `ssz:"omit"`
}
type SqL struct {
	A SqK `ssz:"squash"`
	B SqK
	C LByte_2
}
type SqM struct {
	A EmptyC
	EmptyC
	B uint16 `ssz:""`
	C uint8  `json:"omit"`
}
type SqN struct {
	A uint8  `ssz:"omitted"`
	B uint8  `ssz:" omit"`
	C uint16 `ssz:"squashed"`
	D VrA    `ssz:"OMIT"`
}
type SqO struct {
	A L_VrB_4 `ssz:"omit"`
	B L_VrB_4
	C *VrB `ssz:"omit"`
	D *VrB
}
type SqP struct {
	a uint8
	prA
	b *prB
	C prA `ssz:"squash"`
	d LByte_32
	*prB
	e prA
}
type SqQ struct {
	prB
	c uint64
	o uint8 `ssz:"omit"`
	D prB
	e [2]prB
	f Flag
	g BVec_9
}
type SqR struct {
	x SqQ `ssz:"squash"`
	y SqP `ssz:"squash"`
	z LByte_3
}
type L_SqA []SqA

func (*L_SqA) Limit() uint64 { return 5 }

type L_SqQ []SqQ

func (*L_SqQ) Limit() uint64 { return 5 }

type L_SqP []SqP

func (*L_SqP) Limit() uint64 { return 3 }

type L_prA []prA

func (*L_prA) Limit() uint64 { return 3 }

type L_SqC []SqC

func (*L_SqC) Limit() uint64 { return 2 }

type L_SqD []SqD

func (*L_SqD) Limit() uint64 { return 3 }

type L_SqF []SqF

func (*L_SqF) Limit() uint64 { return 3 }

type L_SqK []SqK

func (*L_SqK) Limit() uint64 { return 4 }

type L_SqO []SqO

func (*L_SqO) Limit() uint64 { return 3 }

type Checkpoint struct {
	Epoch Slot
	Root  [32]byte
}
type AttestationData struct {
	Slot            Slot
	Index           uint64
	BeaconBlockRoot [32]byte
	Source          Checkpoint
	Target          Checkpoint
}
type Attestation struct {
	AggregationBits BList_2048
	Data            AttestationData
	CustodyBits     BList_2048
	Signature       [96]byte
}
type Attestations []Attestation

func (*Attestations) Limit() uint64 { return 128 }

type Validator struct {
	Pubkey                     [48]byte
	WithdrawalCredentials      [32]byte
	EffectiveBalance           uint64
	Slashed                    bool
	ActivationEligibilityEpoch Slot
	ActivationEpoch            Slot
	ExitEpoch                  Slot
	WithdrawableEpoch          Slot
}
type Registry []*Validator

func (*Registry) Limit() uint64 { return 1 << 40 }

type Balances []uint64

func (*Balances) Limit() uint64 { return 1 << 40 }

type HistoricalRoots [][32]byte

func (*HistoricalRoots) Limit() uint64 { return 1 << 24 }

type BlockBody struct {
	RandaoReveal [96]byte
	Graffiti     [32]byte
	Attestations Attestations
	Other        L_VrD_5
}
type Block struct {
	Slot       Slot
	ParentRoot [32]byte
	StateRoot  [32]byte
	Body       BlockBody
	Signature  [96]byte
}
type State struct {
	GenesisTime       uint64
	Slot              Slot
	BlockRoots        [64][32]byte
	HistoricalRoots   HistoricalRoots
	Validators        Registry
	Balances          Balances
	Randao            [65][32]byte
	Slashings         [33]uint64
	PrevAttestations  Attestations
	JustificationBits BVec_4
	Finalized         Checkpoint
}

type R0 struct {
	F0 uint8
	F1 BList_65
}
type R1 struct {
	F0 LByte_1
}
type RL1 []*R1

func (*RL1) Limit() uint64 { return 9 }

type R2 struct {
	F0 **bool
	f1 *L_LByte_3_5
	F2 [32]Slot
}
type R3 struct {
	F0 **LU32_3
	S1 VrF `ssz:"squash"`
}
type R4 struct {
	F0 L_LByte_3_5
	F1 uint64
	F2 [33]bool
	F3 LFlag_40
	F4 [1]SqL
	FxK
	F6 LByte_255
	F7 [33]Flag
	F8 BVec_1
}
type R5 struct {
	S0  SqL `ssz:"squash"`
	F1  [3]LByte_2
	F2  **LU64_3
	F3  LBool_31
	F4  SqJ
	F5  LByte_0
	F6  L_Puint8_4
	F7  BList_1
	F8  [64]bool
	F9  bool
	F10 BVec_64
	SqP
}
type RL5 []R5

func (*RL5) Limit() uint64 { return 7 }

type R6 struct {
	O0 [3]byte `ssz:"a,omit"`
	F1 FxI
	F2 LU32_64
}
type R7 struct {
	F0 [3]*BList_65
}
type R8 struct {
	F0 BVec_257
	FxK
	F2 BList_256
	F3 L_Arr2_LByte_32_3
	S4 SqR `ssz:"squash"`
	F5 FxD
	F6 uint32
}
type R9 struct {
	F0 BVec_100
}
type RL9 []*R9

func (*RL9) Limit() uint64 { return 3 }

type R10 struct {
	F0 LByte_2048
	F1 *SqL
	O2 string `ssz:"a,omit"`
	SqM
}
type R11 struct {
	F0 L_VrB_65536
	F1 AttestationData
	F2 Slot
	F3 Flag
	S4 R3 `ssz:"squash"`
	F5 L_SqK
	F6 FxJ
	O7 [3]byte `ssz:"omit"`
}
type R12 struct {
	F0 [3]L_FxC_5
	VrC
}
type R13 struct {
	F0 LL_G
	SqL
	F2 L_VrA_8
	F3 [33]byte
	F4 BList_300
	F5 L_Arr32_byte_128
	F6 VrI
	FxC
	f8  LU16_128
	F9  [33]Flag
	S10 SqE `ssz:"squash"`
	F11 [5][3]LL_A
	F12 BVec_2
	O13 map[int]int `ssz:"a,omit"`
	F14 Slot
	F15 uint32
	F16 **L_FxG_4
}
type RL13 []R13

func (*RL13) Limit() uint64 { return 3 }

type R14 struct {
	S0 FxM `ssz:"squash"`
	F1 Oct
	SqM
	F3 L_Arr48_byte_2048
	O4 [3]byte `ssz:"a,omit"`
	F5 *BVec_7
}
type R15 struct {
	F0 uint32
	O1 string `ssz:"omit,b"`
	O2 [2]VrA `ssz:"omit"`
	f3 Slot
	F4 Half
	F5 LFlag_40
}
type R16 struct {
	F0 [1]L_Arr32_byte_64
	VrA
}
type R17 struct {
	F0 [32]uint16
	F1 uint32
}
type RL17 []R17

func (*RL17) Limit() uint64 { return 2 }

type R18 struct {
	F0 BlockBody
	F1 Slot
	S2 SqH `ssz:"squash"`
	F3 *Slot
	F4 uint64
	F5 BList_767
	F6 FxE
	F7 BList_504
}
type R19 struct {
	F0 *L_FxB_16
	F1 *FxE
}
type R20 struct {
	O0 uint64 `ssz:"a,omit"`
	VrA
}
type R21 struct {
	F0 LOct_33
	F1 LU64_0
	F2 LHalf_40
}
type RL21 []R21

func (*RL21) Limit() uint64 { return 5 }

type R22 struct {
	S0 SqM `ssz:"a,squash"`
	f1 L_FxF_1
	F2 LByte_65536
	f3 BVec_7
}
type R23 struct {
	f0 **LU16_17
	F1 *L_LU16_3_2
	F2 LL_F
}
type R24 struct {
	SqO
	F1 VrJ
}
type R25 struct {
	F0 *LByte_64
	O1 interface{} `ssz:"omit"`
}
type RL25 []R25

func (*RL25) Limit() uint64 { return 4 }

type R26 struct {
	F0 FxA
	F1 LOct_256
}
type R27 struct {
	F0 uint32
	F1 BVec_7
	f2 LByte_32
	F3 [32]uint8
	F4 BVec_1000
	F5 BVec_8
}
type R28 struct {
	F0 L_FxB_65536
	F1 L_VrA_3
	F2 *SqM
	S3 SqF `ssz:"a,squash"`
	F4 [64]uint16
}
type R29 struct {
	F0 LByte_1
	F1 *FxC
	F2 *[2]L_Arr32_byte_16
	F3 L_VrE_2
	F4 [16]Slot
}
type RL29 []R29

func (*RL29) Limit() uint64 { return 1099511627776 }

type R30 struct {
	F0 uint64
	F1 Half
	SqN
	F3 LByte_64
}
type R31 struct {
	F0 L_VrG_3
	F1 BVec_1023
}
type R32 struct {
	S0 VrI    `ssz:"squash"`
	O1 LU64_4 `ssz:"a,omit"`
}
type R33 struct {
	F0 Half
	F1 BVec_1025
	F2 FxC
	F3 *LByte_255
	F4 L_LU16_3_2
}
type RL33 []R33

func (*RL33) Limit() uint64 { return 5 }

type R34 struct {
	O0 LU64_4 `ssz:"omit"`
	F1 LU64_8192
}
type R35 struct {
	F0 uint16
	F1 BVec_257
	F2 L_Arr48_byte_3
	O3 string `ssz:"omit,b"`
	F4 *bool
	F5 Half
	F6 L_FxD_2
}
type R36 struct {
	f0 LU16_70000
	S1 VrB `ssz:"squash"`
	F2 *BVec_65
	F3 uint64
	F4 **bool
	F5 L_Arr32_byte_5
	F6 *[1]uint16
	F7 BList_18446744073709551608
}
type R37 struct {
	O0 []int `ssz:"a,omit"`
	f1 uint16
}
type RL37 []R37

func (*RL37) Limit() uint64 { return 5 }

type R38 struct {
	FxF
	S1 SqH `ssz:"a,squash"`
	VrE
	F3  L_VrB_65536
	F4  FxD
	f5  *L_FxF_6
	F6  LBool_64
	F7  L_SqO
	F8  LU16_2
	F9  uint32
	F10 uint8
	F11 LU32_1
}
type R39 struct {
	O0 [2]VrA `ssz:"omit"`
	F1 L_BList_256_3
	O2 [2]VrA `ssz:"a,omit"`
}
type R40 struct {
	F0 AttestationData
}
type R41 struct {
	O0 map[int]int `ssz:"a,omit"`
	F1 LU32_100
	F2 BList_2048
	F3 *L_VrC_3
}
type RL41 []*R41

func (*RL41) Limit() uint64 { return 9 }

type R42 struct {
	R30
}
type R43 struct {
	F0 [31]Half
	O1 map[int]int `ssz:"omit"`
	S2 SqA         `ssz:"a,squash"`
	F3 uint8
	O4 L_VrB_4 `ssz:"a,omit"`
}
type R44 struct {
	F0 FxK
	f1 Slot
	F2 BVec_5
	F3 L_FxJ_5
}
type R45 struct {
	F0 **uint16
	O1 FxA `ssz:"a,omit"`
	F2 [4]L_PVrA_4
	F3 LByte_128
	R3
	S5 FxI `ssz:"squash"`
	S6 SqC `ssz:"a,squash"`
	F7 *LU32_9
	S8 FxE `ssz:"a,squash"`
}
type RL45 []*R45

func (*RL45) Limit() uint64 { return 16 }

type R46 struct {
	O0 uint64 `ssz:"omit"`
	F1 *Slot
	F2 [2]BList_768
	F3 BList_7
	F4 [64]Flag
	S5 R15 `ssz:"a,squash"`
	F6 L_VrH_2
	F7 L_LByte_1000_6
}
type R47 struct {
	F0 uint64
}
type R48 struct {
	f0 uint64
	F1 FxM
	F2 L_prA
	F3 *L_Arr48_byte_2048
	F4 LU64_12
	F5 bool
	F6 L_FxK_2
	F7 LByte_63
	F8 [8]uint64
}
type R49 struct {
	F0  [5]LU32_100
	F1  uint16
	F2  uint64
	F3  *BVec_260
	F4  [8]Flag
	f5  uint16
	S6  FxB `ssz:"squash"`
	F7  *BList_5
	f8  LBool_2
	F9  LU32_7
	F10 [3]BList_0
	F11 [1]*Oct
}
type RL49 []R49

func (*RL49) Limit() uint64 { return 1048576 }

type R50 struct {
	F0 LL_B
	SqA
	F2 uint64
	F3 *BVec_513
	F4 *[8]uint8
	O5 LU64_4 `ssz:"a,omit"`
}
type R51 struct {
	F0 LU32_3
	S1 VrE `ssz:"squash"`
	F2 uint32
	F3 *Half
	SqC
	F5 BVec_513
	S6 VrK `ssz:"a,squash"`
	F7 BList_1
	F8 LU64_65536
}
type R52 struct {
	F0 uint32
}
type R53 struct {
	F0 uint16
	F1 LBool_1
	F2 BVec_16
}
type RL53 []*R53

func (*RL53) Limit() uint64 { return 33 }

type R54 struct {
	F0 bool
	F1 FxK
	S2 R3 `ssz:"a,squash"`
	F3 SqR
	F4 LU32_64
	F5 LByte_67108864
	f6 *BVec_33
	f7 uint16
}
type R55 struct {
	F0 LU16_70000
	F1 L_Arr5_bool_4
	f2 *[2]VrF
	F3 L_SqC
}
type R56 struct {
	F0 BList_256
	F1 Half
	VrC
	S3 SqD `ssz:"squash"`
	F4 BVec_1023
}
type R57 struct {
	F0 Slot
	O1 [2]VrA `ssz:"a,omit"`
	F2 [1]L_BList_256_3
}
type RL57 []*R57

func (*RL57) Limit() uint64 { return 3 }

type R58 struct {
	O0 interface{} `ssz:"omit"`
	F1 L_FxB_3
}
type R59 struct {
	F0 [8]Flag
	SqO
	VrF
}
type R60 struct {
	F0 *LByte_7
	F1 RL37
	f2 Flag
	F3 *L_PFxA_5
	O4 FxA `ssz:"omit"`
	F5 [32]Half
	F6 BVec_2048
	F7 [32]byte
}
type R61 struct {
	VrJ
	f1 Slot
}
type RL61 []R61

func (*RL61) Limit() uint64 { return 1099511627776 }

type R62 struct {
	F0 **L_LByte_32_4
	F1 [2]SqR
	VrI
}
type R63 struct {
	SqI
	S1 SqR `ssz:"a,squash"`
	F2 LByte_65
	F3 LHalf_6
	F4 BVec_200
	F5 L_PArr32_byte_3
	F6 BList_15
	F7 Oct
}
type R64 struct {
	F0 LU32_16
	F1 *L_VrA_3
	F2 BVec_10
}
type R65 struct {
	F0 *Flag
	F1 [5]*BList_1048576
}
type RL65 []R65

func (*RL65) Limit() uint64 { return 3 }

type R66 struct {
	S0 R0     `ssz:"squash"`
	O1 [2]VrA `ssz:"omit"`
	S2 SqN    `ssz:"squash"`
	F3 [32]Half
	F4 BList_4096
	F5 LByte_4611686018427387904
	F6 LL_B
	O7 [2]VrA `ssz:"omit"`
}
type R67 struct {
	O0  map[int]int `ssz:"omit,b"`
	F1  RL37
	F2  L_BList_1_4
	F3  L_VrD_5
	F4  VrJ
	F5  LHalf_6
	F6  [2]BVec_63
	F7  LU64_65536
	F8  BVec_5
	F9  Flag
	F10 Oct
	F11 LU16_15
}
type R68 struct {
	f0 [2]LU64_3
	F1 *[2]L_VrE_2
}
type R69 struct {
	F0 BVec_10
	F1 uint64
	S2 SqF `ssz:"squash"`
}
type RL69 []R69

func (*RL69) Limit() uint64 { return 33 }

type R70 struct {
	VrK
	F1 Slot
	FxI
	F3 Flag
	F4 Half
	F5 *Flag
	F6 [1]BList_32
}
type R71 struct {
	F0  BList_513
	F1  RL21
	F2  *[3]LU64_3
	S3  FxB `ssz:"squash"`
	F4  Attestation
	F5  BVec_5
	f6  L_BList_9_5
	S7  FxL `ssz:"a,squash"`
	F8  L_FxH_5
	S9  VrK `ssz:"a,squash"`
	F10 [1]LHalf_40
	F11 *SqH
}
type R72 struct {
	F0 L_VrF_4
}
type R73 struct {
	F0  BVec_64
	F1  *LL_A
	O2  map[int]int `ssz:"a,omit"`
	F3  VrJ
	O4  interface{} `ssz:"a,omit"`
	F5  [1]Half
	O6  *uint32 `ssz:"a,omit"`
	F7  Slot
	F8  Attestations
	F9  [2]*LU64_257
	F10 Slot
	F11 L_FxC_5
}
type RL73 []R73

func (*RL73) Limit() uint64 { return 33 }

type R74 struct {
	O0 uint64 `ssz:"omit"`
	F1 *LU16_32
	O2 [3]byte `ssz:"a,omit"`
}
type R75 struct {
	VrF
	F1 BVec_7
	F2 [2][4]BVec_65
	F3 L_FxJ_5
}
type R76 struct {
	f0  FxK
	S1  SqL `ssz:"squash"`
	F2  L_prA
	F3  uint8
	F4  VrD
	F5  L_Puint64_9
	F6  [1]Oct
	O7  map[int]int `ssz:"omit"`
	O8  L_VrB_4     `ssz:"omit"`
	F9  *Oct
	F10 L_VrC_3
	f11 BList_7
}
type R77 struct {
	F0 L_Arr2_PVrB_3
	F1 *L_LU16_3_2
	F2 FxE
	F3 [65]byte
	F4 [8]uint16
	F5 L_VrD_5
	F6 FxB
	F7 L_FxG_4
}
type RL77 []R77

func (*RL77) Limit() uint64 { return 16 }

type R78 struct {
	S0 SqG `ssz:"squash"`
	F1 L_LU64_4_3
	O2 uint64 `ssz:"a,omit"`
	F3 BVec_1024
	F4 Slot
}
type R79 struct {
	F0 *uint8
	F1 [3]*BList_767
	O2 []int `ssz:"omit"`
}
type R80 struct {
	F0  L_FxJ_40
	F1  **uint8
	F2  BVec_3
	F3  BVec_257
	F4  [4]uint64
	F5  Slot
	F6  [33]uint8
	F7  VrI
	F8  [1]VrC
	F9  Half
	F10 BVec_4
	f11 bool
}
type R81 struct {
	F0 bool
	O1 *uint32 `ssz:"a,omit"`
	F2 L_Pbool_5
	S3 VrF `ssz:"a,squash"`
}
type RL81 []*R81

func (*RL81) Limit() uint64 { return 16 }

type R82 struct {
	F0 LBool_33
	S1 SqL `ssz:"a,squash"`
	F2 LByte_48
}
type R83 struct {
	S0 SqQ `ssz:"squash"`
	F1 uint8
	O2 *uint32 `ssz:"omit"`
	O3 FxA     `ssz:"omit"`
	S4 R15     `ssz:"squash"`
	f5 uint32
	F6 uint32
}
type R84 struct {
	f0 *[3]L_prA
}
type R85 struct {
	F0 [4]L_Puint64_3
	F1 *L_VrB_4
	VrC
	F3 BList_0
}
type RL85 []*R85

func (*RL85) Limit() uint64 { return 1048576 }

type R86 struct {
	S0 R21 `ssz:"squash"`
}
type R87 struct {
	F0 *[8]Slot
	F1 LByte_48
	F2 BVec_9
}
type R88 struct {
	F0 uint16
	FxF
	F2  L_BList_18446744073709551615_3
	S3  R36 `ssz:"squash"`
	F4  L_Arr2_LByte_32_3
	F5  LBool_1048576
	F6  bool
	F7  L_FxJ_40
	F8  [4]LU32_65536
	S9  SqA `ssz:"squash"`
	F10 BList_65
	O11 map[int]int `ssz:"a,omit"`
	F12 [3]LByte_3
	S13 FxI `ssz:"squash"`
	F14 uint32
	O15 interface{} `ssz:"omit,b"`
	F16 BList_2
}
type R89 struct {
	F0 [2][2]Oct
	f1 BList_1000
	F2 uint32
	F3 LByte_63
	S4 SqG   `ssz:"a,squash"`
	O5 uint8 `ssz:"a,omit"`
}
type RL89 []R89

func (*RL89) Limit() uint64 { return 16 }

type R90 struct {
	FxE
	F1 *L_BVec_257_3
	F2 LL_C
}
type R91 struct {
	f0 Slot
	O1 [3]byte `ssz:"a,omit"`
	S2 VrD     `ssz:"squash"`
}
type R92 struct {
	F0 *FxD
	f1 BList_255
	F2 SqE
	F3 L_FxA_1
	FxG
	F5  BList_9
	F6  [32]bool
	F7  [31]Oct
	F8  *[8]Flag
	O9  [2]VrA `ssz:"omit,b"`
	S10 SqN    `ssz:"squash"`
	O11 LU64_4 `ssz:"a,omit"`
	F12 RL5
	f13 [2]bool
	F14 *Oct
	F15 *L_BList_9_12
	F16 **uint64
}
type R93 struct {
	F0 Half
	F1 L_Puint8_4
}
type RL93 []*R93

func (*RL93) Limit() uint64 { return 16 }

type R94 struct {
	S0 SqP `ssz:"a,squash"`
	F1 [2]L_FxC_5
	SqA
}
type R95 struct {
	F0 L_BList_9_2
	F1 BList_63
	O2 LU64_4 `ssz:"omit"`
	SqA
	SqB
	S5 SqE `ssz:"a,squash"`
	f6 Oct
	F7 LFlag_40
	F8 *bool
}
type R96 struct {
	F0 L_BList_256_3
	F1 *bool
	F2 L_FxA_33
	F3 L_LByte_1099511627776_16
	F4 [4]uint16
	F5 [8]uint16
	FxG
	F7  *VrK
	F8  L_Arr4_byte_4
	F9  L_BVec_257_8
	F10 uint16
	F11 L_SqO
}
type R97 struct {
	F0 *L_FxC_5
	F1 L_PFxA_5
	F2 [32]uint32
}
type RL97 []*R97

func (*RL97) Limit() uint64 { return 4 }

type R98 struct {
	F0 [16]Slot
	f1 L_VrK_3
	S2 R36 `ssz:"squash"`
	F3 *LHalf_6
	O4 []int `ssz:"a,omit"`
	F5 [1][2]L_Arr32_byte_64
	FxA
	f7 LU64_1099511627776
	R24
	F9  [5]AttestationData
	F10 **uint16
	S11 SqK `ssz:"squash"`
	F12 L_SqQ
	FxI
	F14 [33]uint16
	O15 L_VrB_4 `ssz:"omit"`
	S16 R6      `ssz:"squash"`
}
type R99 struct {
	F0 Half
	F1 uint16
	F2 *LByte_255
	F3 BList_63
	F4 [3][1]uint8
	F5 L_SqQ
	F6 BVec_300
}
type R100 struct {
	F0 L_LU64_4_3
	F1 uint8
	VrC
}
type R101 struct {
	F0 [1]Half
}
type RL101 []R101

func (*RL101) Limit() uint64 { return 1 }

type R102 struct {
	F0 uint32
	F1 *[1]LU64_3
	F2 L_FxF_1
	R39
}
type R103 struct {
	F0 *[2]BVec_512
	F1 [65]uint8
}
type R104 struct {
	F0 Flag
	F1 L_SqQ
	F2 BVec_8
	O3 interface{} `ssz:"a,omit"`
	VrJ
}
type R105 struct {
	F0 LU16_48
}
type RL105 []R105

func (*RL105) Limit() uint64 { return 16 }

type R106 struct {
	F0 FxC
	O1 LByte_32 `ssz:"a,omit"`
	f2 VrI
	F3 Slot
}
type R107 struct {
	F0  VrE
	F1  L_Arr32_byte_128
	F2  L_VrE_2
	F3  RL33
	F4  L_Arr48_byte_3
	O5  [3]byte `ssz:"omit,b"`
	F6  [3][3]Half
	F7  [33]Slot
	F8  *VrE
	f9  LByte_32
	F10 LByte_65
	f11 L_BList_1_4
}
type R108 struct {
	F0 LByte_4294967296
}
type R109 struct {
	S0 SqP `ssz:"squash"`
	f1 BList_31
}
type RL109 []R109

func (*RL109) Limit() uint64 { return 16 }

type PT_LByte_0 []*byte

func (*PT_LByte_0) Limit() uint64 { return 0 }

type PT_LByte_1 []*byte

func (*PT_LByte_1) Limit() uint64 { return 1 }

type PT_LByte_2 []*byte

func (*PT_LByte_2) Limit() uint64 { return 2 }

type PT_LByte_3 []*byte

func (*PT_LByte_3) Limit() uint64 { return 3 }

type PT_LByte_7 []*byte

func (*PT_LByte_7) Limit() uint64 { return 7 }

type PT_LByte_31 []*byte

func (*PT_LByte_31) Limit() uint64 { return 31 }

type PT_LByte_32 []*byte

func (*PT_LByte_32) Limit() uint64 { return 32 }

type PT_LByte_33 []*byte

func (*PT_LByte_33) Limit() uint64 { return 33 }

type PT_LByte_48 []*byte

func (*PT_LByte_48) Limit() uint64 { return 48 }

type PT_LByte_63 []*byte

func (*PT_LByte_63) Limit() uint64 { return 63 }

type PT_LByte_64 []*byte

func (*PT_LByte_64) Limit() uint64 { return 64 }

type PT_LByte_65 []*byte

func (*PT_LByte_65) Limit() uint64 { return 65 }

type PT_LByte_96 []*byte

func (*PT_LByte_96) Limit() uint64 { return 96 }

type PT_LByte_100 []*byte

func (*PT_LByte_100) Limit() uint64 { return 100 }

type PT_LByte_128 []*byte

func (*PT_LByte_128) Limit() uint64 { return 128 }

type PT_LByte_255 []*byte

func (*PT_LByte_255) Limit() uint64 { return 255 }

type PT_LByte_256 []*byte

func (*PT_LByte_256) Limit() uint64 { return 256 }

type PT_LByte_257 []*byte

func (*PT_LByte_257) Limit() uint64 { return 257 }

type PT_LByte_1000 []*byte

func (*PT_LByte_1000) Limit() uint64 { return 1000 }

type PT_LByte_2048 []*byte

func (*PT_LByte_2048) Limit() uint64 { return 2048 }

type PT_LByte_65536 []*byte

func (*PT_LByte_65536) Limit() uint64 { return 65536 }

type PT_LByte_67108864 []*byte

func (*PT_LByte_67108864) Limit() uint64 { return 67108864 }

type PT_LByte_4294967296 []*byte

func (*PT_LByte_4294967296) Limit() uint64 { return 4294967296 }

type PT_LByte_1099511627776 []*byte

func (*PT_LByte_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_LByte_4611686018427387904 []*byte

func (*PT_LByte_4611686018427387904) Limit() uint64 { return 4611686018427387904 }

type PT_LBool_1 []*bool

func (*PT_LBool_1) Limit() uint64 { return 1 }

type PT_LBool_2 []*bool

func (*PT_LBool_2) Limit() uint64 { return 2 }

type PT_LBool_5 []*bool

func (*PT_LBool_5) Limit() uint64 { return 5 }

type PT_LBool_31 []*bool

func (*PT_LBool_31) Limit() uint64 { return 31 }

type PT_LBool_32 []*bool

func (*PT_LBool_32) Limit() uint64 { return 32 }

type PT_LBool_33 []*bool

func (*PT_LBool_33) Limit() uint64 { return 33 }

type PT_LBool_64 []*bool

func (*PT_LBool_64) Limit() uint64 { return 64 }

type PT_LBool_65 []*bool

func (*PT_LBool_65) Limit() uint64 { return 65 }

type PT_LBool_100 []*bool

func (*PT_LBool_100) Limit() uint64 { return 100 }

type PT_LBool_300 []*bool

func (*PT_LBool_300) Limit() uint64 { return 300 }

type PT_LBool_1048576 []*bool

func (*PT_LBool_1048576) Limit() uint64 { return 1048576 }

type PT_LU16_1 []*uint16

func (*PT_LU16_1) Limit() uint64 { return 1 }

type PT_LU16_2 []*uint16

func (*PT_LU16_2) Limit() uint64 { return 2 }

type PT_LU16_3 []*uint16

func (*PT_LU16_3) Limit() uint64 { return 3 }

type PT_LU16_15 []*uint16

func (*PT_LU16_15) Limit() uint64 { return 15 }

type PT_LU16_16 []*uint16

func (*PT_LU16_16) Limit() uint64 { return 16 }

type PT_LU16_17 []*uint16

func (*PT_LU16_17) Limit() uint64 { return 17 }

type PT_LU16_32 []*uint16

func (*PT_LU16_32) Limit() uint64 { return 32 }

type PT_LU16_33 []*uint16

func (*PT_LU16_33) Limit() uint64 { return 33 }

type PT_LU16_48 []*uint16

func (*PT_LU16_48) Limit() uint64 { return 48 }

type PT_LU16_100 []*uint16

func (*PT_LU16_100) Limit() uint64 { return 100 }

type PT_LU16_128 []*uint16

func (*PT_LU16_128) Limit() uint64 { return 128 }

type PT_LU16_1024 []*uint16

func (*PT_LU16_1024) Limit() uint64 { return 1024 }

type PT_LU16_70000 []*uint16

func (*PT_LU16_70000) Limit() uint64 { return 70000 }

type PT_LU16_1099511627776 []*uint16

func (*PT_LU16_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_LU32_1 []*uint32

func (*PT_LU32_1) Limit() uint64 { return 1 }

type PT_LU32_3 []*uint32

func (*PT_LU32_3) Limit() uint64 { return 3 }

type PT_LU32_7 []*uint32

func (*PT_LU32_7) Limit() uint64 { return 7 }

type PT_LU32_8 []*uint32

func (*PT_LU32_8) Limit() uint64 { return 8 }

type PT_LU32_9 []*uint32

func (*PT_LU32_9) Limit() uint64 { return 9 }

type PT_LU32_16 []*uint32

func (*PT_LU32_16) Limit() uint64 { return 16 }

type PT_LU32_17 []*uint32

func (*PT_LU32_17) Limit() uint64 { return 17 }

type PT_LU32_24 []*uint32

func (*PT_LU32_24) Limit() uint64 { return 24 }

type PT_LU32_64 []*uint32

func (*PT_LU32_64) Limit() uint64 { return 64 }

type PT_LU32_100 []*uint32

func (*PT_LU32_100) Limit() uint64 { return 100 }

type PT_LU32_129 []*uint32

func (*PT_LU32_129) Limit() uint64 { return 129 }

type PT_LU32_65536 []*uint32

func (*PT_LU32_65536) Limit() uint64 { return 65536 }

type PT_LU32_1099511627776 []*uint32

func (*PT_LU32_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_LU64_0 []*uint64

func (*PT_LU64_0) Limit() uint64 { return 0 }

type PT_LU64_1 []*uint64

func (*PT_LU64_1) Limit() uint64 { return 1 }

type PT_LU64_2 []*uint64

func (*PT_LU64_2) Limit() uint64 { return 2 }

type PT_LU64_3 []*uint64

func (*PT_LU64_3) Limit() uint64 { return 3 }

type PT_LU64_4 []*uint64

func (*PT_LU64_4) Limit() uint64 { return 4 }

type PT_LU64_5 []*uint64

func (*PT_LU64_5) Limit() uint64 { return 5 }

type PT_LU64_8 []*uint64

func (*PT_LU64_8) Limit() uint64 { return 8 }

type PT_LU64_9 []*uint64

func (*PT_LU64_9) Limit() uint64 { return 9 }

type PT_LU64_12 []*uint64

func (*PT_LU64_12) Limit() uint64 { return 12 }

type PT_LU64_33 []*uint64

func (*PT_LU64_33) Limit() uint64 { return 33 }

type PT_LU64_100 []*uint64

func (*PT_LU64_100) Limit() uint64 { return 100 }

type PT_LU64_257 []*uint64

func (*PT_LU64_257) Limit() uint64 { return 257 }

type PT_LU64_8192 []*uint64

func (*PT_LU64_8192) Limit() uint64 { return 8192 }

type PT_LU64_65536 []*uint64

func (*PT_LU64_65536) Limit() uint64 { return 65536 }

type PT_LU64_4294967296 []*uint64

func (*PT_LU64_4294967296) Limit() uint64 { return 4294967296 }

type PT_LU64_1099511627776 []*uint64

func (*PT_LU64_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_LU64_576460752303423488 []*uint64

func (*PT_LU64_576460752303423488) Limit() uint64 { return 576460752303423488 }

type PT_LSlot_4 []*Slot

func (*PT_LSlot_4) Limit() uint64 { return 4 }

type PT_LSlot_9 []*Slot

func (*PT_LSlot_9) Limit() uint64 { return 9 }

type PT_LSlot_1048576 []*Slot

func (*PT_LSlot_1048576) Limit() uint64 { return 1048576 }

type PT_LOct_5 []*Oct

func (*PT_LOct_5) Limit() uint64 { return 5 }

type PT_LOct_33 []*Oct

func (*PT_LOct_33) Limit() uint64 { return 33 }

type PT_LOct_64 []*Oct

func (*PT_LOct_64) Limit() uint64 { return 64 }

type PT_LOct_256 []*Oct

func (*PT_LOct_256) Limit() uint64 { return 256 }

type PT_LFlag_3 []*Flag

func (*PT_LFlag_3) Limit() uint64 { return 3 }

type PT_LFlag_40 []*Flag

func (*PT_LFlag_40) Limit() uint64 { return 40 }

type PT_LHalf_6 []*Half

func (*PT_LHalf_6) Limit() uint64 { return 6 }

type PT_LHalf_40 []*Half

func (*PT_LHalf_40) Limit() uint64 { return 40 }

type PT_L_Arr32_byte_1 []*[32]byte

func (*PT_L_Arr32_byte_1) Limit() uint64 { return 1 }

type PT_L_Arr32_byte_2 []*[32]byte

func (*PT_L_Arr32_byte_2) Limit() uint64 { return 2 }

type PT_L_Arr32_byte_3 []*[32]byte

func (*PT_L_Arr32_byte_3) Limit() uint64 { return 3 }

type PT_L_Arr32_byte_5 []*[32]byte

func (*PT_L_Arr32_byte_5) Limit() uint64 { return 5 }

type PT_L_Arr32_byte_16 []*[32]byte

func (*PT_L_Arr32_byte_16) Limit() uint64 { return 16 }

type PT_L_Arr32_byte_33 []*[32]byte

func (*PT_L_Arr32_byte_33) Limit() uint64 { return 33 }

type PT_L_Arr32_byte_64 []*[32]byte

func (*PT_L_Arr32_byte_64) Limit() uint64 { return 64 }

type PT_L_Arr32_byte_128 []*[32]byte

func (*PT_L_Arr32_byte_128) Limit() uint64 { return 128 }

type PT_L_Arr32_byte_8192 []*[32]byte

func (*PT_L_Arr32_byte_8192) Limit() uint64 { return 8192 }

type PT_L_Arr32_byte_1099511627776 []*[32]byte

func (*PT_L_Arr32_byte_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_L_Arr4_byte_4 []*[4]byte

func (*PT_L_Arr4_byte_4) Limit() uint64 { return 4 }

type PT_L_Arr4_byte_9 []*[4]byte

func (*PT_L_Arr4_byte_9) Limit() uint64 { return 9 }

type PT_L_Arr48_byte_3 []*[48]byte

func (*PT_L_Arr48_byte_3) Limit() uint64 { return 3 }

type PT_L_Arr48_byte_2048 []*[48]byte

func (*PT_L_Arr48_byte_2048) Limit() uint64 { return 2048 }

type PT_L_BVec_9_5 []*BVec_9

func (*PT_L_BVec_9_5) Limit() uint64 { return 5 }

type PT_L_BVec_257_3 []*BVec_257

func (*PT_L_BVec_257_3) Limit() uint64 { return 3 }

type PT_L_BVec_257_8 []*BVec_257

func (*PT_L_BVec_257_8) Limit() uint64 { return 8 }

type PT_L_BList_18446744073709551615_3 []*BList_18446744073709551615

func (*PT_L_BList_18446744073709551615_3) Limit() uint64 { return 3 }

type PT_L_Arr3_uint16_3 []*[3]uint16

func (*PT_L_Arr3_uint16_3) Limit() uint64 { return 3 }

type PT_L_Arr3_uint16_17 []*[3]uint16

func (*PT_L_Arr3_uint16_17) Limit() uint64 { return 17 }

type PT_L_Arr5_bool_4 []*[5]bool

func (*PT_L_Arr5_bool_4) Limit() uint64 { return 4 }

type PT_L_FxA_1 []*FxA

func (*PT_L_FxA_1) Limit() uint64 { return 1 }

type PT_L_FxA_2 []*FxA

func (*PT_L_FxA_2) Limit() uint64 { return 2 }

type PT_L_FxA_4 []*FxA

func (*PT_L_FxA_4) Limit() uint64 { return 4 }

type PT_L_FxA_7 []*FxA

func (*PT_L_FxA_7) Limit() uint64 { return 7 }

type PT_L_FxA_33 []*FxA

func (*PT_L_FxA_33) Limit() uint64 { return 33 }

type PT_L_FxA_1099511627776 []*FxA

func (*PT_L_FxA_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_L_FxB_3 []*FxB

func (*PT_L_FxB_3) Limit() uint64 { return 3 }

type PT_L_FxB_16 []*FxB

func (*PT_L_FxB_16) Limit() uint64 { return 16 }

type PT_L_FxB_65536 []*FxB

func (*PT_L_FxB_65536) Limit() uint64 { return 65536 }

type PT_L_FxC_5 []*FxC

func (*PT_L_FxC_5) Limit() uint64 { return 5 }

type PT_L_FxD_2 []*FxD

func (*PT_L_FxD_2) Limit() uint64 { return 2 }

type PT_L_FxD_9 []*FxD

func (*PT_L_FxD_9) Limit() uint64 { return 9 }

type PT_L_FxE_4 []*FxE

func (*PT_L_FxE_4) Limit() uint64 { return 4 }

type PT_L_FxF_1 []*FxF

func (*PT_L_FxF_1) Limit() uint64 { return 1 }

type PT_L_FxF_6 []*FxF

func (*PT_L_FxF_6) Limit() uint64 { return 6 }

type PT_L_FxF_33 []*FxF

func (*PT_L_FxF_33) Limit() uint64 { return 33 }

type PT_L_FxF_100 []*FxF

func (*PT_L_FxF_100) Limit() uint64 { return 100 }

type PT_L_FxG_4 []*FxG

func (*PT_L_FxG_4) Limit() uint64 { return 4 }

type PT_L_FxH_3 []*FxH

func (*PT_L_FxH_3) Limit() uint64 { return 3 }

type PT_L_FxH_5 []*FxH

func (*PT_L_FxH_5) Limit() uint64 { return 5 }

type PT_L_FxI_4 []*FxI

func (*PT_L_FxI_4) Limit() uint64 { return 4 }

type PT_L_FxJ_5 []*FxJ

func (*PT_L_FxJ_5) Limit() uint64 { return 5 }

type PT_L_FxJ_40 []*FxJ

func (*PT_L_FxJ_40) Limit() uint64 { return 40 }

type PT_L_FxK_2 []*FxK

func (*PT_L_FxK_2) Limit() uint64 { return 2 }

type PT_L_FxL_3 []*FxL

func (*PT_L_FxL_3) Limit() uint64 { return 3 }

type PT_L_FxM_2 []*FxM

func (*PT_L_FxM_2) Limit() uint64 { return 2 }

type PT_L_VrA_1 []*VrA

func (*PT_L_VrA_1) Limit() uint64 { return 1 }

type PT_L_VrA_2 []*VrA

func (*PT_L_VrA_2) Limit() uint64 { return 2 }

type PT_L_VrA_3 []*VrA

func (*PT_L_VrA_3) Limit() uint64 { return 3 }

type PT_L_VrA_8 []*VrA

func (*PT_L_VrA_8) Limit() uint64 { return 8 }

type PT_L_VrA_1099511627776 []*VrA

func (*PT_L_VrA_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_L_VrB_1 []*VrB

func (*PT_L_VrB_1) Limit() uint64 { return 1 }

type PT_L_VrB_4 []*VrB

func (*PT_L_VrB_4) Limit() uint64 { return 4 }

type PT_L_VrB_17 []*VrB

func (*PT_L_VrB_17) Limit() uint64 { return 17 }

type PT_L_VrB_65536 []*VrB

func (*PT_L_VrB_65536) Limit() uint64 { return 65536 }

type PT_L_VrC_3 []*VrC

func (*PT_L_VrC_3) Limit() uint64 { return 3 }

type PT_L_VrC_9 []*VrC

func (*PT_L_VrC_9) Limit() uint64 { return 9 }

type PT_L_VrD_5 []*VrD

func (*PT_L_VrD_5) Limit() uint64 { return 5 }

type PT_L_VrE_2 []*VrE

func (*PT_L_VrE_2) Limit() uint64 { return 2 }

type PT_L_VrF_4 []*VrF

func (*PT_L_VrF_4) Limit() uint64 { return 4 }

type PT_L_VrG_3 []*VrG

func (*PT_L_VrG_3) Limit() uint64 { return 3 }

type PT_L_VrH_2 []*VrH

func (*PT_L_VrH_2) Limit() uint64 { return 2 }

type PT_L_VrI_3 []*VrI

func (*PT_L_VrI_3) Limit() uint64 { return 3 }

type PT_L_VrJ_4 []*VrJ

func (*PT_L_VrJ_4) Limit() uint64 { return 4 }

type PT_L_VrK_3 []*VrK

func (*PT_L_VrK_3) Limit() uint64 { return 3 }

type PT_L_LByte_32_1 []*LByte_32

func (*PT_L_LByte_32_1) Limit() uint64 { return 1 }

type PT_L_LByte_32_2 []*LByte_32

func (*PT_L_LByte_32_2) Limit() uint64 { return 2 }

type PT_L_LByte_32_4 []*LByte_32

func (*PT_L_LByte_32_4) Limit() uint64 { return 4 }

type PT_L_LByte_32_9 []*LByte_32

func (*PT_L_LByte_32_9) Limit() uint64 { return 9 }

type PT_L_LByte_32_33 []*LByte_32

func (*PT_L_LByte_32_33) Limit() uint64 { return 33 }

type PT_L_LByte_32_1099511627776 []*LByte_32

func (*PT_L_LByte_32_1099511627776) Limit() uint64 { return 1099511627776 }

type PT_L_LByte_3_5 []*LByte_3

func (*PT_L_LByte_3_5) Limit() uint64 { return 5 }

type PT_L_LByte_1000_6 []*LByte_1000

func (*PT_L_LByte_1000_6) Limit() uint64 { return 6 }

type PT_L_LByte_1099511627776_16 []*LByte_1099511627776

func (*PT_L_LByte_1099511627776_16) Limit() uint64 { return 16 }

type PT_L_LBool_5_3 []*LBool_5

func (*PT_L_LBool_5_3) Limit() uint64 { return 3 }

type PT_L_LBool_5_8 []*LBool_5

func (*PT_L_LBool_5_8) Limit() uint64 { return 8 }

type PT_L_LU16_3_2 []*LU16_3

func (*PT_L_LU16_3_2) Limit() uint64 { return 2 }

type PT_L_LU16_3_7 []*LU16_3

func (*PT_L_LU16_3_7) Limit() uint64 { return 7 }

type PT_L_LU64_4_3 []*LU64_4

func (*PT_L_LU64_4_3) Limit() uint64 { return 3 }

type PT_L_LU64_4_40 []*LU64_4

func (*PT_L_LU64_4_40) Limit() uint64 { return 40 }

type PT_L_BList_9_2 []*BList_9

func (*PT_L_BList_9_2) Limit() uint64 { return 2 }

type PT_L_BList_9_5 []*BList_9

func (*PT_L_BList_9_5) Limit() uint64 { return 5 }

type PT_L_BList_9_12 []*BList_9

func (*PT_L_BList_9_12) Limit() uint64 { return 12 }

type PT_L_BList_256_3 []*BList_256

func (*PT_L_BList_256_3) Limit() uint64 { return 3 }

type PT_L_BList_1_4 []*BList_1

func (*PT_L_BList_1_4) Limit() uint64 { return 4 }

type PT_L_Arr2_LByte_32_3 []*[2]LByte_32

func (*PT_L_Arr2_LByte_32_3) Limit() uint64 { return 3 }

type PT_L_Arr2_BList_9_4 []*[2]BList_9

func (*PT_L_Arr2_BList_9_4) Limit() uint64 { return 4 }

type PT_L_Puint64_3 []**uint64

func (*PT_L_Puint64_3) Limit() uint64 { return 3 }

type PT_L_Puint64_9 []**uint64

func (*PT_L_Puint64_9) Limit() uint64 { return 9 }

type PT_L_Puint8_4 []**uint8

func (*PT_L_Puint8_4) Limit() uint64 { return 4 }

type PT_L_Puint8_33 []**uint8

func (*PT_L_Puint8_33) Limit() uint64 { return 33 }

type PT_L_PFxA_5 []**FxA

func (*PT_L_PFxA_5) Limit() uint64 { return 5 }

type PT_L_PVrA_4 []**VrA

func (*PT_L_PVrA_4) Limit() uint64 { return 4 }

type PT_L_PLByte_32_3 []**LByte_32

func (*PT_L_PLByte_32_3) Limit() uint64 { return 3 }

type PT_L_PPFxF_4 []***FxF

func (*PT_L_PPFxF_4) Limit() uint64 { return 4 }

type PT_L_Pbool_5 []**bool

func (*PT_L_Pbool_5) Limit() uint64 { return 5 }

type PT_L_PArr32_byte_3 []**[32]byte

func (*PT_L_PArr32_byte_3) Limit() uint64 { return 3 }

type PT_L_Arr2_PVrB_3 []*[2]*VrB

func (*PT_L_Arr2_PVrB_3) Limit() uint64 { return 3 }

type PT_L_Arr2_PFxB_3 []*[2]*FxB

func (*PT_L_Arr2_PFxB_3) Limit() uint64 { return 3 }

type PT_LL_A []*L_LByte_32_4

func (*PT_LL_A) Limit() uint64 { return 3 }

type PT_LL_B []*L_VrB_4

func (*PT_LL_B) Limit() uint64 { return 4 }

type PT_LL_C []*LL_A

func (*PT_LL_C) Limit() uint64 { return 2 }

type PT_LL_D []*[2]LL_A

func (*PT_LL_D) Limit() uint64 { return 2 }

type PT_LL_E []**LL_A

func (*PT_LL_E) Limit() uint64 { return 3 }

type PT_LL_F []*L_BList_9_2

func (*PT_LL_F) Limit() uint64 { return 3 }

type PT_LL_G []*L_FxA_4

func (*PT_LL_G) Limit() uint64 { return 3 }

type PT_LL_H []*LL_B

func (*PT_LL_H) Limit() uint64 { return 1099511627776 }

type PT_L_SqA []*SqA

func (*PT_L_SqA) Limit() uint64 { return 5 }

type PT_L_SqQ []*SqQ

func (*PT_L_SqQ) Limit() uint64 { return 5 }

type PT_L_SqP []*SqP

func (*PT_L_SqP) Limit() uint64 { return 3 }

type PT_L_prA []*prA

func (*PT_L_prA) Limit() uint64 { return 3 }

type PT_L_SqC []*SqC

func (*PT_L_SqC) Limit() uint64 { return 2 }

type PT_L_SqD []*SqD

func (*PT_L_SqD) Limit() uint64 { return 3 }

type PT_L_SqF []*SqF

func (*PT_L_SqF) Limit() uint64 { return 3 }

type PT_L_SqK []*SqK

func (*PT_L_SqK) Limit() uint64 { return 4 }

type PT_L_SqO []*SqO

func (*PT_L_SqO) Limit() uint64 { return 3 }

const systematicCount = 346

var named = []reflect.Type{
	reflect.TypeOf((*Slot)(nil)).Elem(),
	reflect.TypeOf((*Flag)(nil)).Elem(),
	reflect.TypeOf((*Oct)(nil)).Elem(),
	reflect.TypeOf((*Half)(nil)).Elem(),
	reflect.TypeOf((*LByte_0)(nil)).Elem(),
	reflect.TypeOf((*LByte_1)(nil)).Elem(),
	reflect.TypeOf((*LByte_2)(nil)).Elem(),
	reflect.TypeOf((*LByte_3)(nil)).Elem(),
	reflect.TypeOf((*LByte_7)(nil)).Elem(),
	reflect.TypeOf((*LByte_31)(nil)).Elem(),
	reflect.TypeOf((*LByte_32)(nil)).Elem(),
	reflect.TypeOf((*LByte_33)(nil)).Elem(),
	reflect.TypeOf((*LByte_48)(nil)).Elem(),
	reflect.TypeOf((*LByte_63)(nil)).Elem(),
	reflect.TypeOf((*LByte_64)(nil)).Elem(),
	reflect.TypeOf((*LByte_65)(nil)).Elem(),
	reflect.TypeOf((*LByte_96)(nil)).Elem(),
	reflect.TypeOf((*LByte_100)(nil)).Elem(),
	reflect.TypeOf((*LByte_128)(nil)).Elem(),
	reflect.TypeOf((*LByte_255)(nil)).Elem(),
	reflect.TypeOf((*LByte_256)(nil)).Elem(),
	reflect.TypeOf((*LByte_257)(nil)).Elem(),
	reflect.TypeOf((*LByte_1000)(nil)).Elem(),
	reflect.TypeOf((*LByte_2048)(nil)).Elem(),
	reflect.TypeOf((*LByte_65536)(nil)).Elem(),
	reflect.TypeOf((*LByte_67108864)(nil)).Elem(),
	reflect.TypeOf((*LByte_4294967296)(nil)).Elem(),
	reflect.TypeOf((*LByte_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*LByte_4611686018427387904)(nil)).Elem(),
	reflect.TypeOf((*LBool_1)(nil)).Elem(),
	reflect.TypeOf((*LBool_2)(nil)).Elem(),
	reflect.TypeOf((*LBool_5)(nil)).Elem(),
	reflect.TypeOf((*LBool_31)(nil)).Elem(),
	reflect.TypeOf((*LBool_32)(nil)).Elem(),
	reflect.TypeOf((*LBool_33)(nil)).Elem(),
	reflect.TypeOf((*LBool_64)(nil)).Elem(),
	reflect.TypeOf((*LBool_65)(nil)).Elem(),
	reflect.TypeOf((*LBool_100)(nil)).Elem(),
	reflect.TypeOf((*LBool_300)(nil)).Elem(),
	reflect.TypeOf((*LBool_1048576)(nil)).Elem(),
	reflect.TypeOf((*LU16_1)(nil)).Elem(),
	reflect.TypeOf((*LU16_2)(nil)).Elem(),
	reflect.TypeOf((*LU16_3)(nil)).Elem(),
	reflect.TypeOf((*LU16_15)(nil)).Elem(),
	reflect.TypeOf((*LU16_16)(nil)).Elem(),
	reflect.TypeOf((*LU16_17)(nil)).Elem(),
	reflect.TypeOf((*LU16_32)(nil)).Elem(),
	reflect.TypeOf((*LU16_33)(nil)).Elem(),
	reflect.TypeOf((*LU16_48)(nil)).Elem(),
	reflect.TypeOf((*LU16_100)(nil)).Elem(),
	reflect.TypeOf((*LU16_128)(nil)).Elem(),
	reflect.TypeOf((*LU16_1024)(nil)).Elem(),
	reflect.TypeOf((*LU16_70000)(nil)).Elem(),
	reflect.TypeOf((*LU16_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*LU32_1)(nil)).Elem(),
	reflect.TypeOf((*LU32_3)(nil)).Elem(),
	reflect.TypeOf((*LU32_7)(nil)).Elem(),
	reflect.TypeOf((*LU32_8)(nil)).Elem(),
	reflect.TypeOf((*LU32_9)(nil)).Elem(),
	reflect.TypeOf((*LU32_16)(nil)).Elem(),
	reflect.TypeOf((*LU32_17)(nil)).Elem(),
	reflect.TypeOf((*LU32_24)(nil)).Elem(),
	reflect.TypeOf((*LU32_64)(nil)).Elem(),
	reflect.TypeOf((*LU32_100)(nil)).Elem(),
	reflect.TypeOf((*LU32_129)(nil)).Elem(),
	reflect.TypeOf((*LU32_65536)(nil)).Elem(),
	reflect.TypeOf((*LU32_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*LU64_0)(nil)).Elem(),
	reflect.TypeOf((*LU64_1)(nil)).Elem(),
	reflect.TypeOf((*LU64_2)(nil)).Elem(),
	reflect.TypeOf((*LU64_3)(nil)).Elem(),
	reflect.TypeOf((*LU64_4)(nil)).Elem(),
	reflect.TypeOf((*LU64_5)(nil)).Elem(),
	reflect.TypeOf((*LU64_8)(nil)).Elem(),
	reflect.TypeOf((*LU64_9)(nil)).Elem(),
	reflect.TypeOf((*LU64_12)(nil)).Elem(),
	reflect.TypeOf((*LU64_33)(nil)).Elem(),
	reflect.TypeOf((*LU64_100)(nil)).Elem(),
	reflect.TypeOf((*LU64_257)(nil)).Elem(),
	reflect.TypeOf((*LU64_8192)(nil)).Elem(),
	reflect.TypeOf((*LU64_65536)(nil)).Elem(),
	reflect.TypeOf((*LU64_4294967296)(nil)).Elem(),
	reflect.TypeOf((*LU64_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*LU64_576460752303423488)(nil)).Elem(),
	reflect.TypeOf((*LSlot_4)(nil)).Elem(),
	reflect.TypeOf((*LSlot_9)(nil)).Elem(),
	reflect.TypeOf((*LSlot_1048576)(nil)).Elem(),
	reflect.TypeOf((*LOct_5)(nil)).Elem(),
	reflect.TypeOf((*LOct_33)(nil)).Elem(),
	reflect.TypeOf((*LOct_64)(nil)).Elem(),
	reflect.TypeOf((*LOct_256)(nil)).Elem(),
	reflect.TypeOf((*LFlag_3)(nil)).Elem(),
	reflect.TypeOf((*LFlag_40)(nil)).Elem(),
	reflect.TypeOf((*LHalf_6)(nil)).Elem(),
	reflect.TypeOf((*LHalf_40)(nil)).Elem(),
	reflect.TypeOf((*BList_0)(nil)).Elem(),
	reflect.TypeOf((*BList_1)(nil)).Elem(),
	reflect.TypeOf((*BList_2)(nil)).Elem(),
	reflect.TypeOf((*BList_3)(nil)).Elem(),
	reflect.TypeOf((*BList_5)(nil)).Elem(),
	reflect.TypeOf((*BList_7)(nil)).Elem(),
	reflect.TypeOf((*BList_8)(nil)).Elem(),
	reflect.TypeOf((*BList_9)(nil)).Elem(),
	reflect.TypeOf((*BList_15)(nil)).Elem(),
	reflect.TypeOf((*BList_16)(nil)).Elem(),
	reflect.TypeOf((*BList_17)(nil)).Elem(),
	reflect.TypeOf((*BList_31)(nil)).Elem(),
	reflect.TypeOf((*BList_32)(nil)).Elem(),
	reflect.TypeOf((*BList_40)(nil)).Elem(),
	reflect.TypeOf((*BList_63)(nil)).Elem(),
	reflect.TypeOf((*BList_64)(nil)).Elem(),
	reflect.TypeOf((*BList_65)(nil)).Elem(),
	reflect.TypeOf((*BList_100)(nil)).Elem(),
	reflect.TypeOf((*BList_127)(nil)).Elem(),
	reflect.TypeOf((*BList_248)(nil)).Elem(),
	reflect.TypeOf((*BList_255)(nil)).Elem(),
	reflect.TypeOf((*BList_256)(nil)).Elem(),
	reflect.TypeOf((*BList_257)(nil)).Elem(),
	reflect.TypeOf((*BList_300)(nil)).Elem(),
	reflect.TypeOf((*BList_504)(nil)).Elem(),
	reflect.TypeOf((*BList_511)(nil)).Elem(),
	reflect.TypeOf((*BList_512)(nil)).Elem(),
	reflect.TypeOf((*BList_513)(nil)).Elem(),
	reflect.TypeOf((*BList_767)(nil)).Elem(),
	reflect.TypeOf((*BList_768)(nil)).Elem(),
	reflect.TypeOf((*BList_1000)(nil)).Elem(),
	reflect.TypeOf((*BList_1023)(nil)).Elem(),
	reflect.TypeOf((*BList_1024)(nil)).Elem(),
	reflect.TypeOf((*BList_1025)(nil)).Elem(),
	reflect.TypeOf((*BList_2048)(nil)).Elem(),
	reflect.TypeOf((*BList_4096)(nil)).Elem(),
	reflect.TypeOf((*BList_1048576)(nil)).Elem(),
	reflect.TypeOf((*BList_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*BList_9223372036854775808)(nil)).Elem(),
	reflect.TypeOf((*BList_18446744073709551608)(nil)).Elem(),
	reflect.TypeOf((*BList_18446744073709551609)(nil)).Elem(),
	reflect.TypeOf((*BList_18446744073709551615)(nil)).Elem(),
	reflect.TypeOf((*BVec_1)(nil)).Elem(),
	reflect.TypeOf((*BVec_2)(nil)).Elem(),
	reflect.TypeOf((*BVec_3)(nil)).Elem(),
	reflect.TypeOf((*BVec_4)(nil)).Elem(),
	reflect.TypeOf((*BVec_5)(nil)).Elem(),
	reflect.TypeOf((*BVec_6)(nil)).Elem(),
	reflect.TypeOf((*BVec_7)(nil)).Elem(),
	reflect.TypeOf((*BVec_8)(nil)).Elem(),
	reflect.TypeOf((*BVec_9)(nil)).Elem(),
	reflect.TypeOf((*BVec_10)(nil)).Elem(),
	reflect.TypeOf((*BVec_12)(nil)).Elem(),
	reflect.TypeOf((*BVec_15)(nil)).Elem(),
	reflect.TypeOf((*BVec_16)(nil)).Elem(),
	reflect.TypeOf((*BVec_17)(nil)).Elem(),
	reflect.TypeOf((*BVec_31)(nil)).Elem(),
	reflect.TypeOf((*BVec_33)(nil)).Elem(),
	reflect.TypeOf((*BVec_63)(nil)).Elem(),
	reflect.TypeOf((*BVec_64)(nil)).Elem(),
	reflect.TypeOf((*BVec_65)(nil)).Elem(),
	reflect.TypeOf((*BVec_100)(nil)).Elem(),
	reflect.TypeOf((*BVec_127)(nil)).Elem(),
	reflect.TypeOf((*BVec_200)(nil)).Elem(),
	reflect.TypeOf((*BVec_249)(nil)).Elem(),
	reflect.TypeOf((*BVec_255)(nil)).Elem(),
	reflect.TypeOf((*BVec_256)(nil)).Elem(),
	reflect.TypeOf((*BVec_257)(nil)).Elem(),
	reflect.TypeOf((*BVec_260)(nil)).Elem(),
	reflect.TypeOf((*BVec_300)(nil)).Elem(),
	reflect.TypeOf((*BVec_505)(nil)).Elem(),
	reflect.TypeOf((*BVec_511)(nil)).Elem(),
	reflect.TypeOf((*BVec_512)(nil)).Elem(),
	reflect.TypeOf((*BVec_513)(nil)).Elem(),
	reflect.TypeOf((*BVec_1000)(nil)).Elem(),
	reflect.TypeOf((*BVec_1023)(nil)).Elem(),
	reflect.TypeOf((*BVec_1024)(nil)).Elem(),
	reflect.TypeOf((*BVec_1025)(nil)).Elem(),
	reflect.TypeOf((*BVec_2048)(nil)).Elem(),
	reflect.TypeOf((*FxA)(nil)).Elem(),
	reflect.TypeOf((*FxB)(nil)).Elem(),
	reflect.TypeOf((*FxC)(nil)).Elem(),
	reflect.TypeOf((*FxD)(nil)).Elem(),
	reflect.TypeOf((*FxE)(nil)).Elem(),
	reflect.TypeOf((*FxF)(nil)).Elem(),
	reflect.TypeOf((*FxG)(nil)).Elem(),
	reflect.TypeOf((*FxH)(nil)).Elem(),
	reflect.TypeOf((*FxI)(nil)).Elem(),
	reflect.TypeOf((*FxJ)(nil)).Elem(),
	reflect.TypeOf((*FxK)(nil)).Elem(),
	reflect.TypeOf((*FxL)(nil)).Elem(),
	reflect.TypeOf((*FxM)(nil)).Elem(),
	reflect.TypeOf((*VrA)(nil)).Elem(),
	reflect.TypeOf((*VrB)(nil)).Elem(),
	reflect.TypeOf((*VrC)(nil)).Elem(),
	reflect.TypeOf((*VrD)(nil)).Elem(),
	reflect.TypeOf((*VrE)(nil)).Elem(),
	reflect.TypeOf((*VrF)(nil)).Elem(),
	reflect.TypeOf((*VrG)(nil)).Elem(),
	reflect.TypeOf((*VrH)(nil)).Elem(),
	reflect.TypeOf((*VrI)(nil)).Elem(),
	reflect.TypeOf((*VrJ)(nil)).Elem(),
	reflect.TypeOf((*VrK)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_1)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_2)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_3)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_5)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_16)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_33)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_64)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_128)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_8192)(nil)).Elem(),
	reflect.TypeOf((*L_Arr32_byte_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*L_Arr4_byte_4)(nil)).Elem(),
	reflect.TypeOf((*L_Arr4_byte_9)(nil)).Elem(),
	reflect.TypeOf((*L_Arr48_byte_3)(nil)).Elem(),
	reflect.TypeOf((*L_Arr48_byte_2048)(nil)).Elem(),
	reflect.TypeOf((*L_BVec_9_5)(nil)).Elem(),
	reflect.TypeOf((*L_BVec_257_3)(nil)).Elem(),
	reflect.TypeOf((*L_BVec_257_8)(nil)).Elem(),
	reflect.TypeOf((*L_BList_18446744073709551615_3)(nil)).Elem(),
	reflect.TypeOf((*L_Arr3_uint16_3)(nil)).Elem(),
	reflect.TypeOf((*L_Arr3_uint16_17)(nil)).Elem(),
	reflect.TypeOf((*L_Arr5_bool_4)(nil)).Elem(),
	reflect.TypeOf((*L_FxA_1)(nil)).Elem(),
	reflect.TypeOf((*L_FxA_2)(nil)).Elem(),
	reflect.TypeOf((*L_FxA_4)(nil)).Elem(),
	reflect.TypeOf((*L_FxA_7)(nil)).Elem(),
	reflect.TypeOf((*L_FxA_33)(nil)).Elem(),
	reflect.TypeOf((*L_FxA_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*L_FxB_3)(nil)).Elem(),
	reflect.TypeOf((*L_FxB_16)(nil)).Elem(),
	reflect.TypeOf((*L_FxB_65536)(nil)).Elem(),
	reflect.TypeOf((*L_FxC_5)(nil)).Elem(),
	reflect.TypeOf((*L_FxD_2)(nil)).Elem(),
	reflect.TypeOf((*L_FxD_9)(nil)).Elem(),
	reflect.TypeOf((*L_FxE_4)(nil)).Elem(),
	reflect.TypeOf((*L_FxF_1)(nil)).Elem(),
	reflect.TypeOf((*L_FxF_6)(nil)).Elem(),
	reflect.TypeOf((*L_FxF_33)(nil)).Elem(),
	reflect.TypeOf((*L_FxF_100)(nil)).Elem(),
	reflect.TypeOf((*L_FxG_4)(nil)).Elem(),
	reflect.TypeOf((*L_FxH_3)(nil)).Elem(),
	reflect.TypeOf((*L_FxH_5)(nil)).Elem(),
	reflect.TypeOf((*L_FxI_4)(nil)).Elem(),
	reflect.TypeOf((*L_FxJ_5)(nil)).Elem(),
	reflect.TypeOf((*L_FxJ_40)(nil)).Elem(),
	reflect.TypeOf((*L_FxK_2)(nil)).Elem(),
	reflect.TypeOf((*L_FxL_3)(nil)).Elem(),
	reflect.TypeOf((*L_FxM_2)(nil)).Elem(),
	reflect.TypeOf((*L_VrA_1)(nil)).Elem(),
	reflect.TypeOf((*L_VrA_2)(nil)).Elem(),
	reflect.TypeOf((*L_VrA_3)(nil)).Elem(),
	reflect.TypeOf((*L_VrA_8)(nil)).Elem(),
	reflect.TypeOf((*L_VrA_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*L_VrB_1)(nil)).Elem(),
	reflect.TypeOf((*L_VrB_4)(nil)).Elem(),
	reflect.TypeOf((*L_VrB_17)(nil)).Elem(),
	reflect.TypeOf((*L_VrB_65536)(nil)).Elem(),
	reflect.TypeOf((*L_VrC_3)(nil)).Elem(),
	reflect.TypeOf((*L_VrC_9)(nil)).Elem(),
	reflect.TypeOf((*L_VrD_5)(nil)).Elem(),
	reflect.TypeOf((*L_VrE_2)(nil)).Elem(),
	reflect.TypeOf((*L_VrF_4)(nil)).Elem(),
	reflect.TypeOf((*L_VrG_3)(nil)).Elem(),
	reflect.TypeOf((*L_VrH_2)(nil)).Elem(),
	reflect.TypeOf((*L_VrI_3)(nil)).Elem(),
	reflect.TypeOf((*L_VrJ_4)(nil)).Elem(),
	reflect.TypeOf((*L_VrK_3)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_32_1)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_32_2)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_32_4)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_32_9)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_32_33)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_32_1099511627776)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_3_5)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_1000_6)(nil)).Elem(),
	reflect.TypeOf((*L_LByte_1099511627776_16)(nil)).Elem(),
	reflect.TypeOf((*L_LBool_5_3)(nil)).Elem(),
	reflect.TypeOf((*L_LBool_5_8)(nil)).Elem(),
	reflect.TypeOf((*L_LU16_3_2)(nil)).Elem(),
	reflect.TypeOf((*L_LU16_3_7)(nil)).Elem(),
	reflect.TypeOf((*L_LU64_4_3)(nil)).Elem(),
	reflect.TypeOf((*L_LU64_4_40)(nil)).Elem(),
	reflect.TypeOf((*L_BList_9_2)(nil)).Elem(),
	reflect.TypeOf((*L_BList_9_5)(nil)).Elem(),
	reflect.TypeOf((*L_BList_9_12)(nil)).Elem(),
	reflect.TypeOf((*L_BList_256_3)(nil)).Elem(),
	reflect.TypeOf((*L_BList_1_4)(nil)).Elem(),
	reflect.TypeOf((*L_Arr2_LByte_32_3)(nil)).Elem(),
	reflect.TypeOf((*L_Arr2_BList_9_4)(nil)).Elem(),
	reflect.TypeOf((*L_Puint64_3)(nil)).Elem(),
	reflect.TypeOf((*L_Puint64_9)(nil)).Elem(),
	reflect.TypeOf((*L_Puint8_4)(nil)).Elem(),
	reflect.TypeOf((*L_Puint8_33)(nil)).Elem(),
	reflect.TypeOf((*L_PFxA_5)(nil)).Elem(),
	reflect.TypeOf((*L_PVrA_4)(nil)).Elem(),
	reflect.TypeOf((*L_PLByte_32_3)(nil)).Elem(),
	reflect.TypeOf((*L_PPFxF_4)(nil)).Elem(),
	reflect.TypeOf((*L_Pbool_5)(nil)).Elem(),
	reflect.TypeOf((*L_PArr32_byte_3)(nil)).Elem(),
	reflect.TypeOf((*L_Arr2_PVrB_3)(nil)).Elem(),
	reflect.TypeOf((*L_Arr2_PFxB_3)(nil)).Elem(),
	reflect.TypeOf((*LL_A)(nil)).Elem(),
	reflect.TypeOf((*LL_B)(nil)).Elem(),
	reflect.TypeOf((*LL_C)(nil)).Elem(),
	reflect.TypeOf((*LL_D)(nil)).Elem(),
	reflect.TypeOf((*LL_E)(nil)).Elem(),
	reflect.TypeOf((*LL_F)(nil)).Elem(),
	reflect.TypeOf((*LL_G)(nil)).Elem(),
	reflect.TypeOf((*LL_H)(nil)).Elem(),
	reflect.TypeOf((*EmptyC)(nil)).Elem(),
	reflect.TypeOf((*OnlyOmit)(nil)).Elem(),
	reflect.TypeOf((*SqA)(nil)).Elem(),
	reflect.TypeOf((*SqB)(nil)).Elem(),
	reflect.TypeOf((*SqC)(nil)).Elem(),
	reflect.TypeOf((*SqD)(nil)).Elem(),
	reflect.TypeOf((*SqE)(nil)).Elem(),
	reflect.TypeOf((*SqF)(nil)).Elem(),
	reflect.TypeOf((*SqG)(nil)).Elem(),
	reflect.TypeOf((*SqH)(nil)).Elem(),
	reflect.TypeOf((*SqI)(nil)).Elem(),
	reflect.TypeOf((*SqJ)(nil)).Elem(),
	reflect.TypeOf((*SqK)(nil)).Elem(),
	reflect.TypeOf((*SqL)(nil)).Elem(),
	reflect.TypeOf((*SqM)(nil)).Elem(),
	reflect.TypeOf((*SqN)(nil)).Elem(),
	reflect.TypeOf((*SqO)(nil)).Elem(),
	reflect.TypeOf((*SqP)(nil)).Elem(),
	reflect.TypeOf((*SqQ)(nil)).Elem(),
	reflect.TypeOf((*SqR)(nil)).Elem(),
	reflect.TypeOf((*L_SqA)(nil)).Elem(),
	reflect.TypeOf((*L_SqQ)(nil)).Elem(),
	reflect.TypeOf((*L_SqP)(nil)).Elem(),
	reflect.TypeOf((*L_prA)(nil)).Elem(),
	reflect.TypeOf((*L_SqC)(nil)).Elem(),
	reflect.TypeOf((*L_SqD)(nil)).Elem(),
	reflect.TypeOf((*L_SqF)(nil)).Elem(),
	reflect.TypeOf((*L_SqK)(nil)).Elem(),
	reflect.TypeOf((*L_SqO)(nil)).Elem(),
	reflect.TypeOf((*Checkpoint)(nil)).Elem(),
	reflect.TypeOf((*AttestationData)(nil)).Elem(),
	reflect.TypeOf((*Attestation)(nil)).Elem(),
	reflect.TypeOf((*Attestations)(nil)).Elem(),
	reflect.TypeOf((*Validator)(nil)).Elem(),
	reflect.TypeOf((*Registry)(nil)).Elem(),
	reflect.TypeOf((*Balances)(nil)).Elem(),
	reflect.TypeOf((*HistoricalRoots)(nil)).Elem(),
	reflect.TypeOf((*BlockBody)(nil)).Elem(),
	reflect.TypeOf((*Block)(nil)).Elem(),
	reflect.TypeOf((*State)(nil)).Elem(),
	reflect.TypeOf((*R0)(nil)).Elem(),
	reflect.TypeOf((*R1)(nil)).Elem(),
	reflect.TypeOf((*RL1)(nil)).Elem(),
	reflect.TypeOf((*R2)(nil)).Elem(),
	reflect.TypeOf((*R3)(nil)).Elem(),
	reflect.TypeOf((*R4)(nil)).Elem(),
	reflect.TypeOf((*R5)(nil)).Elem(),
	reflect.TypeOf((*RL5)(nil)).Elem(),
	reflect.TypeOf((*R6)(nil)).Elem(),
	reflect.TypeOf((*R7)(nil)).Elem(),
	reflect.TypeOf((*R8)(nil)).Elem(),
	reflect.TypeOf((*R9)(nil)).Elem(),
	reflect.TypeOf((*RL9)(nil)).Elem(),
	reflect.TypeOf((*R10)(nil)).Elem(),
	reflect.TypeOf((*R11)(nil)).Elem(),
	reflect.TypeOf((*R12)(nil)).Elem(),
	reflect.TypeOf((*R13)(nil)).Elem(),
	reflect.TypeOf((*RL13)(nil)).Elem(),
	reflect.TypeOf((*R14)(nil)).Elem(),
	reflect.TypeOf((*R15)(nil)).Elem(),
	reflect.TypeOf((*R16)(nil)).Elem(),
	reflect.TypeOf((*R17)(nil)).Elem(),
	reflect.TypeOf((*RL17)(nil)).Elem(),
	reflect.TypeOf((*R18)(nil)).Elem(),
	reflect.TypeOf((*R19)(nil)).Elem(),
	reflect.TypeOf((*R20)(nil)).Elem(),
	reflect.TypeOf((*R21)(nil)).Elem(),
	reflect.TypeOf((*RL21)(nil)).Elem(),
	reflect.TypeOf((*R22)(nil)).Elem(),
	reflect.TypeOf((*R23)(nil)).Elem(),
	reflect.TypeOf((*R24)(nil)).Elem(),
	reflect.TypeOf((*R25)(nil)).Elem(),
	reflect.TypeOf((*RL25)(nil)).Elem(),
	reflect.TypeOf((*R26)(nil)).Elem(),
	reflect.TypeOf((*R27)(nil)).Elem(),
	reflect.TypeOf((*R28)(nil)).Elem(),
	reflect.TypeOf((*R29)(nil)).Elem(),
	reflect.TypeOf((*RL29)(nil)).Elem(),
	reflect.TypeOf((*R30)(nil)).Elem(),
	reflect.TypeOf((*R31)(nil)).Elem(),
	reflect.TypeOf((*R32)(nil)).Elem(),
	reflect.TypeOf((*R33)(nil)).Elem(),
	reflect.TypeOf((*RL33)(nil)).Elem(),
	reflect.TypeOf((*R34)(nil)).Elem(),
	reflect.TypeOf((*R35)(nil)).Elem(),
	reflect.TypeOf((*R36)(nil)).Elem(),
	reflect.TypeOf((*R37)(nil)).Elem(),
	reflect.TypeOf((*RL37)(nil)).Elem(),
	reflect.TypeOf((*R38)(nil)).Elem(),
	reflect.TypeOf((*R39)(nil)).Elem(),
	reflect.TypeOf((*R40)(nil)).Elem(),
	reflect.TypeOf((*R41)(nil)).Elem(),
	reflect.TypeOf((*RL41)(nil)).Elem(),
	reflect.TypeOf((*R42)(nil)).Elem(),
	reflect.TypeOf((*R43)(nil)).Elem(),
	reflect.TypeOf((*R44)(nil)).Elem(),
	reflect.TypeOf((*R45)(nil)).Elem(),
	reflect.TypeOf((*RL45)(nil)).Elem(),
	reflect.TypeOf((*R46)(nil)).Elem(),
	reflect.TypeOf((*R47)(nil)).Elem(),
	reflect.TypeOf((*R48)(nil)).Elem(),
	reflect.TypeOf((*R49)(nil)).Elem(),
	reflect.TypeOf((*RL49)(nil)).Elem(),
	reflect.TypeOf((*R50)(nil)).Elem(),
	reflect.TypeOf((*R51)(nil)).Elem(),
	reflect.TypeOf((*R52)(nil)).Elem(),
	reflect.TypeOf((*R53)(nil)).Elem(),
	reflect.TypeOf((*RL53)(nil)).Elem(),
	reflect.TypeOf((*R54)(nil)).Elem(),
	reflect.TypeOf((*R55)(nil)).Elem(),
	reflect.TypeOf((*R56)(nil)).Elem(),
	reflect.TypeOf((*R57)(nil)).Elem(),
	reflect.TypeOf((*RL57)(nil)).Elem(),
	reflect.TypeOf((*R58)(nil)).Elem(),
	reflect.TypeOf((*R59)(nil)).Elem(),
	reflect.TypeOf((*R60)(nil)).Elem(),
	reflect.TypeOf((*R61)(nil)).Elem(),
	reflect.TypeOf((*RL61)(nil)).Elem(),
	reflect.TypeOf((*R62)(nil)).Elem(),
	reflect.TypeOf((*R63)(nil)).Elem(),
	reflect.TypeOf((*R64)(nil)).Elem(),
	reflect.TypeOf((*R65)(nil)).Elem(),
	reflect.TypeOf((*RL65)(nil)).Elem(),
	reflect.TypeOf((*R66)(nil)).Elem(),
	reflect.TypeOf((*R67)(nil)).Elem(),
	reflect.TypeOf((*R68)(nil)).Elem(),
	reflect.TypeOf((*R69)(nil)).Elem(),
	reflect.TypeOf((*RL69)(nil)).Elem(),
	reflect.TypeOf((*R70)(nil)).Elem(),
	reflect.TypeOf((*R71)(nil)).Elem(),
	reflect.TypeOf((*R72)(nil)).Elem(),
	reflect.TypeOf((*R73)(nil)).Elem(),
	reflect.TypeOf((*RL73)(nil)).Elem(),
	reflect.TypeOf((*R74)(nil)).Elem(),
	reflect.TypeOf((*R75)(nil)).Elem(),
	reflect.TypeOf((*R76)(nil)).Elem(),
	reflect.TypeOf((*R77)(nil)).Elem(),
	reflect.TypeOf((*RL77)(nil)).Elem(),
	reflect.TypeOf((*R78)(nil)).Elem(),
	reflect.TypeOf((*R79)(nil)).Elem(),
	reflect.TypeOf((*R80)(nil)).Elem(),
	reflect.TypeOf((*R81)(nil)).Elem(),
	reflect.TypeOf((*RL81)(nil)).Elem(),
	reflect.TypeOf((*R82)(nil)).Elem(),
	reflect.TypeOf((*R83)(nil)).Elem(),
	reflect.TypeOf((*R84)(nil)).Elem(),
	reflect.TypeOf((*R85)(nil)).Elem(),
	reflect.TypeOf((*RL85)(nil)).Elem(),
	reflect.TypeOf((*R86)(nil)).Elem(),
	reflect.TypeOf((*R87)(nil)).Elem(),
	reflect.TypeOf((*R88)(nil)).Elem(),
	reflect.TypeOf((*R89)(nil)).Elem(),
	reflect.TypeOf((*RL89)(nil)).Elem(),
	reflect.TypeOf((*R90)(nil)).Elem(),
	reflect.TypeOf((*R91)(nil)).Elem(),
	reflect.TypeOf((*R92)(nil)).Elem(),
	reflect.TypeOf((*R93)(nil)).Elem(),
	reflect.TypeOf((*RL93)(nil)).Elem(),
	reflect.TypeOf((*R94)(nil)).Elem(),
	reflect.TypeOf((*R95)(nil)).Elem(),
	reflect.TypeOf((*R96)(nil)).Elem(),
	reflect.TypeOf((*R97)(nil)).Elem(),
	reflect.TypeOf((*RL97)(nil)).Elem(),
	reflect.TypeOf((*R98)(nil)).Elem(),
	reflect.TypeOf((*R99)(nil)).Elem(),
	reflect.TypeOf((*R100)(nil)).Elem(),
	reflect.TypeOf((*R101)(nil)).Elem(),
	reflect.TypeOf((*RL101)(nil)).Elem(),
	reflect.TypeOf((*R102)(nil)).Elem(),
	reflect.TypeOf((*R103)(nil)).Elem(),
	reflect.TypeOf((*R104)(nil)).Elem(),
	reflect.TypeOf((*R105)(nil)).Elem(),
	reflect.TypeOf((*RL105)(nil)).Elem(),
	reflect.TypeOf((*R106)(nil)).Elem(),
	reflect.TypeOf((*R107)(nil)).Elem(),
	reflect.TypeOf((*R108)(nil)).Elem(),
	reflect.TypeOf((*R109)(nil)).Elem(),
	reflect.TypeOf((*RL109)(nil)).Elem(),
}

var ptrTwin = map[reflect.Type]reflect.Type{
	reflect.TypeOf(LByte_0(nil)):                        reflect.TypeOf(PT_LByte_0(nil)),
	reflect.TypeOf(LByte_1(nil)):                        reflect.TypeOf(PT_LByte_1(nil)),
	reflect.TypeOf(LByte_2(nil)):                        reflect.TypeOf(PT_LByte_2(nil)),
	reflect.TypeOf(LByte_3(nil)):                        reflect.TypeOf(PT_LByte_3(nil)),
	reflect.TypeOf(LByte_7(nil)):                        reflect.TypeOf(PT_LByte_7(nil)),
	reflect.TypeOf(LByte_31(nil)):                       reflect.TypeOf(PT_LByte_31(nil)),
	reflect.TypeOf(LByte_32(nil)):                       reflect.TypeOf(PT_LByte_32(nil)),
	reflect.TypeOf(LByte_33(nil)):                       reflect.TypeOf(PT_LByte_33(nil)),
	reflect.TypeOf(LByte_48(nil)):                       reflect.TypeOf(PT_LByte_48(nil)),
	reflect.TypeOf(LByte_63(nil)):                       reflect.TypeOf(PT_LByte_63(nil)),
	reflect.TypeOf(LByte_64(nil)):                       reflect.TypeOf(PT_LByte_64(nil)),
	reflect.TypeOf(LByte_65(nil)):                       reflect.TypeOf(PT_LByte_65(nil)),
	reflect.TypeOf(LByte_96(nil)):                       reflect.TypeOf(PT_LByte_96(nil)),
	reflect.TypeOf(LByte_100(nil)):                      reflect.TypeOf(PT_LByte_100(nil)),
	reflect.TypeOf(LByte_128(nil)):                      reflect.TypeOf(PT_LByte_128(nil)),
	reflect.TypeOf(LByte_255(nil)):                      reflect.TypeOf(PT_LByte_255(nil)),
	reflect.TypeOf(LByte_256(nil)):                      reflect.TypeOf(PT_LByte_256(nil)),
	reflect.TypeOf(LByte_257(nil)):                      reflect.TypeOf(PT_LByte_257(nil)),
	reflect.TypeOf(LByte_1000(nil)):                     reflect.TypeOf(PT_LByte_1000(nil)),
	reflect.TypeOf(LByte_2048(nil)):                     reflect.TypeOf(PT_LByte_2048(nil)),
	reflect.TypeOf(LByte_65536(nil)):                    reflect.TypeOf(PT_LByte_65536(nil)),
	reflect.TypeOf(LByte_67108864(nil)):                 reflect.TypeOf(PT_LByte_67108864(nil)),
	reflect.TypeOf(LByte_4294967296(nil)):               reflect.TypeOf(PT_LByte_4294967296(nil)),
	reflect.TypeOf(LByte_1099511627776(nil)):            reflect.TypeOf(PT_LByte_1099511627776(nil)),
	reflect.TypeOf(LByte_4611686018427387904(nil)):      reflect.TypeOf(PT_LByte_4611686018427387904(nil)),
	reflect.TypeOf(LBool_1(nil)):                        reflect.TypeOf(PT_LBool_1(nil)),
	reflect.TypeOf(LBool_2(nil)):                        reflect.TypeOf(PT_LBool_2(nil)),
	reflect.TypeOf(LBool_5(nil)):                        reflect.TypeOf(PT_LBool_5(nil)),
	reflect.TypeOf(LBool_31(nil)):                       reflect.TypeOf(PT_LBool_31(nil)),
	reflect.TypeOf(LBool_32(nil)):                       reflect.TypeOf(PT_LBool_32(nil)),
	reflect.TypeOf(LBool_33(nil)):                       reflect.TypeOf(PT_LBool_33(nil)),
	reflect.TypeOf(LBool_64(nil)):                       reflect.TypeOf(PT_LBool_64(nil)),
	reflect.TypeOf(LBool_65(nil)):                       reflect.TypeOf(PT_LBool_65(nil)),
	reflect.TypeOf(LBool_100(nil)):                      reflect.TypeOf(PT_LBool_100(nil)),
	reflect.TypeOf(LBool_300(nil)):                      reflect.TypeOf(PT_LBool_300(nil)),
	reflect.TypeOf(LBool_1048576(nil)):                  reflect.TypeOf(PT_LBool_1048576(nil)),
	reflect.TypeOf(LU16_1(nil)):                         reflect.TypeOf(PT_LU16_1(nil)),
	reflect.TypeOf(LU16_2(nil)):                         reflect.TypeOf(PT_LU16_2(nil)),
	reflect.TypeOf(LU16_3(nil)):                         reflect.TypeOf(PT_LU16_3(nil)),
	reflect.TypeOf(LU16_15(nil)):                        reflect.TypeOf(PT_LU16_15(nil)),
	reflect.TypeOf(LU16_16(nil)):                        reflect.TypeOf(PT_LU16_16(nil)),
	reflect.TypeOf(LU16_17(nil)):                        reflect.TypeOf(PT_LU16_17(nil)),
	reflect.TypeOf(LU16_32(nil)):                        reflect.TypeOf(PT_LU16_32(nil)),
	reflect.TypeOf(LU16_33(nil)):                        reflect.TypeOf(PT_LU16_33(nil)),
	reflect.TypeOf(LU16_48(nil)):                        reflect.TypeOf(PT_LU16_48(nil)),
	reflect.TypeOf(LU16_100(nil)):                       reflect.TypeOf(PT_LU16_100(nil)),
	reflect.TypeOf(LU16_128(nil)):                       reflect.TypeOf(PT_LU16_128(nil)),
	reflect.TypeOf(LU16_1024(nil)):                      reflect.TypeOf(PT_LU16_1024(nil)),
	reflect.TypeOf(LU16_70000(nil)):                     reflect.TypeOf(PT_LU16_70000(nil)),
	reflect.TypeOf(LU16_1099511627776(nil)):             reflect.TypeOf(PT_LU16_1099511627776(nil)),
	reflect.TypeOf(LU32_1(nil)):                         reflect.TypeOf(PT_LU32_1(nil)),
	reflect.TypeOf(LU32_3(nil)):                         reflect.TypeOf(PT_LU32_3(nil)),
	reflect.TypeOf(LU32_7(nil)):                         reflect.TypeOf(PT_LU32_7(nil)),
	reflect.TypeOf(LU32_8(nil)):                         reflect.TypeOf(PT_LU32_8(nil)),
	reflect.TypeOf(LU32_9(nil)):                         reflect.TypeOf(PT_LU32_9(nil)),
	reflect.TypeOf(LU32_16(nil)):                        reflect.TypeOf(PT_LU32_16(nil)),
	reflect.TypeOf(LU32_17(nil)):                        reflect.TypeOf(PT_LU32_17(nil)),
	reflect.TypeOf(LU32_24(nil)):                        reflect.TypeOf(PT_LU32_24(nil)),
	reflect.TypeOf(LU32_64(nil)):                        reflect.TypeOf(PT_LU32_64(nil)),
	reflect.TypeOf(LU32_100(nil)):                       reflect.TypeOf(PT_LU32_100(nil)),
	reflect.TypeOf(LU32_129(nil)):                       reflect.TypeOf(PT_LU32_129(nil)),
	reflect.TypeOf(LU32_65536(nil)):                     reflect.TypeOf(PT_LU32_65536(nil)),
	reflect.TypeOf(LU32_1099511627776(nil)):             reflect.TypeOf(PT_LU32_1099511627776(nil)),
	reflect.TypeOf(LU64_0(nil)):                         reflect.TypeOf(PT_LU64_0(nil)),
	reflect.TypeOf(LU64_1(nil)):                         reflect.TypeOf(PT_LU64_1(nil)),
	reflect.TypeOf(LU64_2(nil)):                         reflect.TypeOf(PT_LU64_2(nil)),
	reflect.TypeOf(LU64_3(nil)):                         reflect.TypeOf(PT_LU64_3(nil)),
	reflect.TypeOf(LU64_4(nil)):                         reflect.TypeOf(PT_LU64_4(nil)),
	reflect.TypeOf(LU64_5(nil)):                         reflect.TypeOf(PT_LU64_5(nil)),
	reflect.TypeOf(LU64_8(nil)):                         reflect.TypeOf(PT_LU64_8(nil)),
	reflect.TypeOf(LU64_9(nil)):                         reflect.TypeOf(PT_LU64_9(nil)),
	reflect.TypeOf(LU64_12(nil)):                        reflect.TypeOf(PT_LU64_12(nil)),
	reflect.TypeOf(LU64_33(nil)):                        reflect.TypeOf(PT_LU64_33(nil)),
	reflect.TypeOf(LU64_100(nil)):                       reflect.TypeOf(PT_LU64_100(nil)),
	reflect.TypeOf(LU64_257(nil)):                       reflect.TypeOf(PT_LU64_257(nil)),
	reflect.TypeOf(LU64_8192(nil)):                      reflect.TypeOf(PT_LU64_8192(nil)),
	reflect.TypeOf(LU64_65536(nil)):                     reflect.TypeOf(PT_LU64_65536(nil)),
	reflect.TypeOf(LU64_4294967296(nil)):                reflect.TypeOf(PT_LU64_4294967296(nil)),
	reflect.TypeOf(LU64_1099511627776(nil)):             reflect.TypeOf(PT_LU64_1099511627776(nil)),
	reflect.TypeOf(LU64_576460752303423488(nil)):        reflect.TypeOf(PT_LU64_576460752303423488(nil)),
	reflect.TypeOf(LSlot_4(nil)):                        reflect.TypeOf(PT_LSlot_4(nil)),
	reflect.TypeOf(LSlot_9(nil)):                        reflect.TypeOf(PT_LSlot_9(nil)),
	reflect.TypeOf(LSlot_1048576(nil)):                  reflect.TypeOf(PT_LSlot_1048576(nil)),
	reflect.TypeOf(LOct_5(nil)):                         reflect.TypeOf(PT_LOct_5(nil)),
	reflect.TypeOf(LOct_33(nil)):                        reflect.TypeOf(PT_LOct_33(nil)),
	reflect.TypeOf(LOct_64(nil)):                        reflect.TypeOf(PT_LOct_64(nil)),
	reflect.TypeOf(LOct_256(nil)):                       reflect.TypeOf(PT_LOct_256(nil)),
	reflect.TypeOf(LFlag_3(nil)):                        reflect.TypeOf(PT_LFlag_3(nil)),
	reflect.TypeOf(LFlag_40(nil)):                       reflect.TypeOf(PT_LFlag_40(nil)),
	reflect.TypeOf(LHalf_6(nil)):                        reflect.TypeOf(PT_LHalf_6(nil)),
	reflect.TypeOf(LHalf_40(nil)):                       reflect.TypeOf(PT_LHalf_40(nil)),
	reflect.TypeOf(L_Arr32_byte_1(nil)):                 reflect.TypeOf(PT_L_Arr32_byte_1(nil)),
	reflect.TypeOf(L_Arr32_byte_2(nil)):                 reflect.TypeOf(PT_L_Arr32_byte_2(nil)),
	reflect.TypeOf(L_Arr32_byte_3(nil)):                 reflect.TypeOf(PT_L_Arr32_byte_3(nil)),
	reflect.TypeOf(L_Arr32_byte_5(nil)):                 reflect.TypeOf(PT_L_Arr32_byte_5(nil)),
	reflect.TypeOf(L_Arr32_byte_16(nil)):                reflect.TypeOf(PT_L_Arr32_byte_16(nil)),
	reflect.TypeOf(L_Arr32_byte_33(nil)):                reflect.TypeOf(PT_L_Arr32_byte_33(nil)),
	reflect.TypeOf(L_Arr32_byte_64(nil)):                reflect.TypeOf(PT_L_Arr32_byte_64(nil)),
	reflect.TypeOf(L_Arr32_byte_128(nil)):               reflect.TypeOf(PT_L_Arr32_byte_128(nil)),
	reflect.TypeOf(L_Arr32_byte_8192(nil)):              reflect.TypeOf(PT_L_Arr32_byte_8192(nil)),
	reflect.TypeOf(L_Arr32_byte_1099511627776(nil)):     reflect.TypeOf(PT_L_Arr32_byte_1099511627776(nil)),
	reflect.TypeOf(L_Arr4_byte_4(nil)):                  reflect.TypeOf(PT_L_Arr4_byte_4(nil)),
	reflect.TypeOf(L_Arr4_byte_9(nil)):                  reflect.TypeOf(PT_L_Arr4_byte_9(nil)),
	reflect.TypeOf(L_Arr48_byte_3(nil)):                 reflect.TypeOf(PT_L_Arr48_byte_3(nil)),
	reflect.TypeOf(L_Arr48_byte_2048(nil)):              reflect.TypeOf(PT_L_Arr48_byte_2048(nil)),
	reflect.TypeOf(L_BVec_9_5(nil)):                     reflect.TypeOf(PT_L_BVec_9_5(nil)),
	reflect.TypeOf(L_BVec_257_3(nil)):                   reflect.TypeOf(PT_L_BVec_257_3(nil)),
	reflect.TypeOf(L_BVec_257_8(nil)):                   reflect.TypeOf(PT_L_BVec_257_8(nil)),
	reflect.TypeOf(L_BList_18446744073709551615_3(nil)): reflect.TypeOf(PT_L_BList_18446744073709551615_3(nil)),
	reflect.TypeOf(L_Arr3_uint16_3(nil)):                reflect.TypeOf(PT_L_Arr3_uint16_3(nil)),
	reflect.TypeOf(L_Arr3_uint16_17(nil)):               reflect.TypeOf(PT_L_Arr3_uint16_17(nil)),
	reflect.TypeOf(L_Arr5_bool_4(nil)):                  reflect.TypeOf(PT_L_Arr5_bool_4(nil)),
	reflect.TypeOf(L_FxA_1(nil)):                        reflect.TypeOf(PT_L_FxA_1(nil)),
	reflect.TypeOf(L_FxA_2(nil)):                        reflect.TypeOf(PT_L_FxA_2(nil)),
	reflect.TypeOf(L_FxA_4(nil)):                        reflect.TypeOf(PT_L_FxA_4(nil)),
	reflect.TypeOf(L_FxA_7(nil)):                        reflect.TypeOf(PT_L_FxA_7(nil)),
	reflect.TypeOf(L_FxA_33(nil)):                       reflect.TypeOf(PT_L_FxA_33(nil)),
	reflect.TypeOf(L_FxA_1099511627776(nil)):            reflect.TypeOf(PT_L_FxA_1099511627776(nil)),
	reflect.TypeOf(L_FxB_3(nil)):                        reflect.TypeOf(PT_L_FxB_3(nil)),
	reflect.TypeOf(L_FxB_16(nil)):                       reflect.TypeOf(PT_L_FxB_16(nil)),
	reflect.TypeOf(L_FxB_65536(nil)):                    reflect.TypeOf(PT_L_FxB_65536(nil)),
	reflect.TypeOf(L_FxC_5(nil)):                        reflect.TypeOf(PT_L_FxC_5(nil)),
	reflect.TypeOf(L_FxD_2(nil)):                        reflect.TypeOf(PT_L_FxD_2(nil)),
	reflect.TypeOf(L_FxD_9(nil)):                        reflect.TypeOf(PT_L_FxD_9(nil)),
	reflect.TypeOf(L_FxE_4(nil)):                        reflect.TypeOf(PT_L_FxE_4(nil)),
	reflect.TypeOf(L_FxF_1(nil)):                        reflect.TypeOf(PT_L_FxF_1(nil)),
	reflect.TypeOf(L_FxF_6(nil)):                        reflect.TypeOf(PT_L_FxF_6(nil)),
	reflect.TypeOf(L_FxF_33(nil)):                       reflect.TypeOf(PT_L_FxF_33(nil)),
	reflect.TypeOf(L_FxF_100(nil)):                      reflect.TypeOf(PT_L_FxF_100(nil)),
	reflect.TypeOf(L_FxG_4(nil)):                        reflect.TypeOf(PT_L_FxG_4(nil)),
	reflect.TypeOf(L_FxH_3(nil)):                        reflect.TypeOf(PT_L_FxH_3(nil)),
	reflect.TypeOf(L_FxH_5(nil)):                        reflect.TypeOf(PT_L_FxH_5(nil)),
	reflect.TypeOf(L_FxI_4(nil)):                        reflect.TypeOf(PT_L_FxI_4(nil)),
	reflect.TypeOf(L_FxJ_5(nil)):                        reflect.TypeOf(PT_L_FxJ_5(nil)),
	reflect.TypeOf(L_FxJ_40(nil)):                       reflect.TypeOf(PT_L_FxJ_40(nil)),
	reflect.TypeOf(L_FxK_2(nil)):                        reflect.TypeOf(PT_L_FxK_2(nil)),
	reflect.TypeOf(L_FxL_3(nil)):                        reflect.TypeOf(PT_L_FxL_3(nil)),
	reflect.TypeOf(L_FxM_2(nil)):                        reflect.TypeOf(PT_L_FxM_2(nil)),
	reflect.TypeOf(L_VrA_1(nil)):                        reflect.TypeOf(PT_L_VrA_1(nil)),
	reflect.TypeOf(L_VrA_2(nil)):                        reflect.TypeOf(PT_L_VrA_2(nil)),
	reflect.TypeOf(L_VrA_3(nil)):                        reflect.TypeOf(PT_L_VrA_3(nil)),
	reflect.TypeOf(L_VrA_8(nil)):                        reflect.TypeOf(PT_L_VrA_8(nil)),
	reflect.TypeOf(L_VrA_1099511627776(nil)):            reflect.TypeOf(PT_L_VrA_1099511627776(nil)),
	reflect.TypeOf(L_VrB_1(nil)):                        reflect.TypeOf(PT_L_VrB_1(nil)),
	reflect.TypeOf(L_VrB_4(nil)):                        reflect.TypeOf(PT_L_VrB_4(nil)),
	reflect.TypeOf(L_VrB_17(nil)):                       reflect.TypeOf(PT_L_VrB_17(nil)),
	reflect.TypeOf(L_VrB_65536(nil)):                    reflect.TypeOf(PT_L_VrB_65536(nil)),
	reflect.TypeOf(L_VrC_3(nil)):                        reflect.TypeOf(PT_L_VrC_3(nil)),
	reflect.TypeOf(L_VrC_9(nil)):                        reflect.TypeOf(PT_L_VrC_9(nil)),
	reflect.TypeOf(L_VrD_5(nil)):                        reflect.TypeOf(PT_L_VrD_5(nil)),
	reflect.TypeOf(L_VrE_2(nil)):                        reflect.TypeOf(PT_L_VrE_2(nil)),
	reflect.TypeOf(L_VrF_4(nil)):                        reflect.TypeOf(PT_L_VrF_4(nil)),
	reflect.TypeOf(L_VrG_3(nil)):                        reflect.TypeOf(PT_L_VrG_3(nil)),
	reflect.TypeOf(L_VrH_2(nil)):                        reflect.TypeOf(PT_L_VrH_2(nil)),
	reflect.TypeOf(L_VrI_3(nil)):                        reflect.TypeOf(PT_L_VrI_3(nil)),
	reflect.TypeOf(L_VrJ_4(nil)):                        reflect.TypeOf(PT_L_VrJ_4(nil)),
	reflect.TypeOf(L_VrK_3(nil)):                        reflect.TypeOf(PT_L_VrK_3(nil)),
	reflect.TypeOf(L_LByte_32_1(nil)):                   reflect.TypeOf(PT_L_LByte_32_1(nil)),
	reflect.TypeOf(L_LByte_32_2(nil)):                   reflect.TypeOf(PT_L_LByte_32_2(nil)),
	reflect.TypeOf(L_LByte_32_4(nil)):                   reflect.TypeOf(PT_L_LByte_32_4(nil)),
	reflect.TypeOf(L_LByte_32_9(nil)):                   reflect.TypeOf(PT_L_LByte_32_9(nil)),
	reflect.TypeOf(L_LByte_32_33(nil)):                  reflect.TypeOf(PT_L_LByte_32_33(nil)),
	reflect.TypeOf(L_LByte_32_1099511627776(nil)):       reflect.TypeOf(PT_L_LByte_32_1099511627776(nil)),
	reflect.TypeOf(L_LByte_3_5(nil)):                    reflect.TypeOf(PT_L_LByte_3_5(nil)),
	reflect.TypeOf(L_LByte_1000_6(nil)):                 reflect.TypeOf(PT_L_LByte_1000_6(nil)),
	reflect.TypeOf(L_LByte_1099511627776_16(nil)):       reflect.TypeOf(PT_L_LByte_1099511627776_16(nil)),
	reflect.TypeOf(L_LBool_5_3(nil)):                    reflect.TypeOf(PT_L_LBool_5_3(nil)),
	reflect.TypeOf(L_LBool_5_8(nil)):                    reflect.TypeOf(PT_L_LBool_5_8(nil)),
	reflect.TypeOf(L_LU16_3_2(nil)):                     reflect.TypeOf(PT_L_LU16_3_2(nil)),
	reflect.TypeOf(L_LU16_3_7(nil)):                     reflect.TypeOf(PT_L_LU16_3_7(nil)),
	reflect.TypeOf(L_LU64_4_3(nil)):                     reflect.TypeOf(PT_L_LU64_4_3(nil)),
	reflect.TypeOf(L_LU64_4_40(nil)):                    reflect.TypeOf(PT_L_LU64_4_40(nil)),
	reflect.TypeOf(L_BList_9_2(nil)):                    reflect.TypeOf(PT_L_BList_9_2(nil)),
	reflect.TypeOf(L_BList_9_5(nil)):                    reflect.TypeOf(PT_L_BList_9_5(nil)),
	reflect.TypeOf(L_BList_9_12(nil)):                   reflect.TypeOf(PT_L_BList_9_12(nil)),
	reflect.TypeOf(L_BList_256_3(nil)):                  reflect.TypeOf(PT_L_BList_256_3(nil)),
	reflect.TypeOf(L_BList_1_4(nil)):                    reflect.TypeOf(PT_L_BList_1_4(nil)),
	reflect.TypeOf(L_Arr2_LByte_32_3(nil)):              reflect.TypeOf(PT_L_Arr2_LByte_32_3(nil)),
	reflect.TypeOf(L_Arr2_BList_9_4(nil)):               reflect.TypeOf(PT_L_Arr2_BList_9_4(nil)),
	reflect.TypeOf(L_Puint64_3(nil)):                    reflect.TypeOf(PT_L_Puint64_3(nil)),
	reflect.TypeOf(L_Puint64_9(nil)):                    reflect.TypeOf(PT_L_Puint64_9(nil)),
	reflect.TypeOf(L_Puint8_4(nil)):                     reflect.TypeOf(PT_L_Puint8_4(nil)),
	reflect.TypeOf(L_Puint8_33(nil)):                    reflect.TypeOf(PT_L_Puint8_33(nil)),
	reflect.TypeOf(L_PFxA_5(nil)):                       reflect.TypeOf(PT_L_PFxA_5(nil)),
	reflect.TypeOf(L_PVrA_4(nil)):                       reflect.TypeOf(PT_L_PVrA_4(nil)),
	reflect.TypeOf(L_PLByte_32_3(nil)):                  reflect.TypeOf(PT_L_PLByte_32_3(nil)),
	reflect.TypeOf(L_PPFxF_4(nil)):                      reflect.TypeOf(PT_L_PPFxF_4(nil)),
	reflect.TypeOf(L_Pbool_5(nil)):                      reflect.TypeOf(PT_L_Pbool_5(nil)),
	reflect.TypeOf(L_PArr32_byte_3(nil)):                reflect.TypeOf(PT_L_PArr32_byte_3(nil)),
	reflect.TypeOf(L_Arr2_PVrB_3(nil)):                  reflect.TypeOf(PT_L_Arr2_PVrB_3(nil)),
	reflect.TypeOf(L_Arr2_PFxB_3(nil)):                  reflect.TypeOf(PT_L_Arr2_PFxB_3(nil)),
	reflect.TypeOf(LL_A(nil)):                           reflect.TypeOf(PT_LL_A(nil)),
	reflect.TypeOf(LL_B(nil)):                           reflect.TypeOf(PT_LL_B(nil)),
	reflect.TypeOf(LL_C(nil)):                           reflect.TypeOf(PT_LL_C(nil)),
	reflect.TypeOf(LL_D(nil)):                           reflect.TypeOf(PT_LL_D(nil)),
	reflect.TypeOf(LL_E(nil)):                           reflect.TypeOf(PT_LL_E(nil)),
	reflect.TypeOf(LL_F(nil)):                           reflect.TypeOf(PT_LL_F(nil)),
	reflect.TypeOf(LL_G(nil)):                           reflect.TypeOf(PT_LL_G(nil)),
	reflect.TypeOf(LL_H(nil)):                           reflect.TypeOf(PT_LL_H(nil)),
	reflect.TypeOf(L_SqA(nil)):                          reflect.TypeOf(PT_L_SqA(nil)),
	reflect.TypeOf(L_SqQ(nil)):                          reflect.TypeOf(PT_L_SqQ(nil)),
	reflect.TypeOf(L_SqP(nil)):                          reflect.TypeOf(PT_L_SqP(nil)),
	reflect.TypeOf(L_prA(nil)):                          reflect.TypeOf(PT_L_prA(nil)),
	reflect.TypeOf(L_SqC(nil)):                          reflect.TypeOf(PT_L_SqC(nil)),
	reflect.TypeOf(L_SqD(nil)):                          reflect.TypeOf(PT_L_SqD(nil)),
	reflect.TypeOf(L_SqF(nil)):                          reflect.TypeOf(PT_L_SqF(nil)),
	reflect.TypeOf(L_SqK(nil)):                          reflect.TypeOf(PT_L_SqK(nil)),
	reflect.TypeOf(L_SqO(nil)):                          reflect.TypeOf(PT_L_SqO(nil)),
}
