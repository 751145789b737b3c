From 0fd9bc8ffb7d40cf7ce98cab1af7ff1ab0badb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 01/22] fix: read pointers as pointers, not as integers

SSZPtr loaded the pointed-to address as an uintptr and converted it back to
an unsafe.Pointer. That is not a conversion the Go rules allow, and checkptr
(-d=checkptr, -race) aborts on it.
---
 types/ssz_ptr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/ssz_ptr.go b/types/ssz_ptr.go
index 0bb4c15..67999fd 100644
--- a/types/ssz_ptr.go
+++ b/types/ssz_ptr.go
@@ -58,12 +58,12 @@ func (v *SSZPtr) IsFixed() bool {
 }
 
 func (v *SSZPtr) SizeOf(p unsafe.Pointer) uint64 {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	return v.elemSSZ.SizeOf(innerPtr)
 }
 
 func (v *SSZPtr) Encode(eb *EncodingWriter, p unsafe.Pointer) error {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	return v.elemSSZ.Encode(eb, innerPtr)
 }
 
@@ -71,11 +71,11 @@ func (v *SSZPtr) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if p == unsafe.Pointer(nil) {
 		return errors.New("cannot decode into nil pointer")
 	}
-	if *(*uintptr)(p) == uintptr(0) {
+	if *(*unsafe.Pointer)(p) == nil {
 		contentsPtr := v.alloc(p)
 		return v.elemSSZ.Decode(dr, contentsPtr)
 	} else {
-		return v.elemSSZ.Decode(dr, unsafe.Pointer(*(*uintptr)(p)))
+		return v.elemSSZ.Decode(dr, *(*unsafe.Pointer)(p))
 	}
 }
 
@@ -84,12 +84,12 @@ func (v *SSZPtr) DryCheck(dr *DecodingReader) error {
 }
 
 func (v *SSZPtr) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	return v.elemSSZ.HashTreeRoot(h, innerPtr)
 }
 
 func (v *SSZPtr) Pretty(indent uint32, w *PrettyWriter, p unsafe.Pointer) {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	if innerPtr == nil {
 		w.WriteIndent(indent)
 		w.Write("null")
-- 
2.43.0


From 8ecb97452a472fff48c58b08b374532d8cf5571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 02/22] fix: enforce the limit of byte lists in the dry check

Decode rejects byte lists over their limit, DryCheck accepted them.
---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ba5bac2 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	length := dr.GetBytesSpan()
+	if length > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
+	}
+	_, err := dr.Skip(length)
 	return err
 }
 
-- 
2.43.0


From 5dba88ff3e13817845602514876ef8f5f349360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 03/22] fix: keep the delimiting bit out of the root of
 bitlists ending in a full chunk

If the bits of a bitlist fill the last byte of a 32-byte chunk only partly,
the delimiting bit is part of that byte, and was hashed as contents.
---
 types/ssz_bitlist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..782f16f 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -147,8 +147,8 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-		// pad the data
-		if e > byteLen {
+		// pad the data, or copy it if it is followed by no padding but does contain the delimiting bit
+		if e > byteLen || (e == byteLen && bitLen&7 != 0) {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
@@ -160,7 +160,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 			}
 			return x[:]
 		}
-		// if the last leaf does not have to be padded,
+		// if the last leaf is full of bits,
 		// then the length-determining bitlist bit is already cut off,
 		// i.e. as sole bit in next (ignored) chunk of data.
 		return data[s:e]
-- 
2.43.0


From 4eea85a326c10c3312e79cad18dad1d34ca7c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 04/22] fix: count the offsets in the maximum length of lists

The maximum length of a list of variable-size elements left the 4 bytes out
which every element needs for its offset.
---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..2846ac0 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From 464bd5f9888a91a6102429b9b08b7e3f04bdab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 05/22] fix: construct correct proofs if the leaf count is not
 a power of two

The siblings that contain both leafs and padding, and the siblings on the
path of an index beyond the padded leafs, were left zero-hashes.
---
 merkle/merkleize.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..2153375 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -151,9 +151,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
 			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
+			// and i is the last index of the subtree to that depth (or the rest of the subtree is padding),
 			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			if (i>>j)^1 == (index>>j) && (i == count || (((1<<j)-1)&i) == ((1<<j)-1)) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +188,14 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// the next power of two may be smaller than the ultimate virtual size,
+	// the leafs are the sibling of the index if it is in the zero-hashes complementing them.
+	for j := depth; j < limitDepth; j++ {
+		if index>>j == 1 {
+			branch[j] = tmp[j]
+		}
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+	}
+
 	return
 }
-- 
2.43.0


From 34a512b4a3ad2f763700feaaa4b75e3ef901f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 06/22] fix: accept the end of the input along with the last
 bytes

An io.Reader may return io.EOF in the same call as the last bytes. Read took
that for an error, even if it got everything it asked for.
---
 dec/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..fbcceb4 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -85,7 +85,8 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 	for n < len(p) {
 		v, err := dr.input.Read(p[n:])
 		n += v
-		if err != nil {
+		// a reader is allowed to report the end of the input together with the last bytes
+		if err != nil && !(err == io.EOF && n == len(p)) {
 			return n, err
 		}
 	}
-- 
2.43.0


From 9e662956fae824b5ef1181df1bf00e4a056d433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 07/22] fix: fuzz mode decodes valid bitvectors

The unused bits of the last byte were left set, and rejected.
---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..764a07c 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if rem := v.bitLen & 7; rem != 0 && dr.IsFuzzMode() {
+		// mask last byte, the unused bits must be 0
+		data[len(data)-1] &= (1 << rem) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From 70f4a027da6ef08a53e24f5bb449a5446dc0f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 08/22] fix: fuzz mode decodes valid bitlists

The last byte was masked by the limit as a whole, not by what is left of the
limit for it. And with a limit of 0 the maximum was below the minimum.
---
 types/ssz_bitlist.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 782f16f..b007c6d 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -50,7 +50,7 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
 	// 8 for a random byte count, limit for maximum fill
-	return 8 + v.byteLimit
+	return 8 + v.MaxLen()
 }
 
 // in bytes (rounded up), not bits. Includes the delimiting 1 bit.
@@ -112,7 +112,9 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	}
 	if dr.IsFuzzMode() {
 		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		if rem := v.bitLimit - ((byteLen - 1) << 3); rem < 7 {
+			data[len(data)-1] &= (1 << (rem + 1)) - 1
+		}
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From f3ac23c8752f5bf1fe75a20cf76b40dae73bf7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 09/22] fix: fuzz mode stays within the input for lists of
 basic elements

The available input was raised to the limit of the list, instead of cut off
at it: allocations were as large as the limit, and most inputs were rejected.
Without available input the list was not emptied.
---
 types/ssz_list_basic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..34453f0 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,13 +97,13 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
 	}
-	bytesLen := x % span
 	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-- 
2.43.0


From 77582f7960dddc27052663ab59e8051b08cafaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 10/22] fix: fuzz mode stays within the limit of lists

The limit was only applied in bytes of the largest elements.
---
 types/ssz_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 2846ac0..92b0409 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -119,6 +119,9 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
 	}
+	if length > v.limit {
+		length = v.limit
+	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
 		return DecodeFixedSeries(v.elemSSZ.Decode, length, v.elemMemSize, dr, contentsPtr)
-- 
2.43.0


From e8063897e8a6196ae6da99592c109ce521372f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 11/22] fix: decode the right number of elements on big-endian
 machines

The byte length of basic vectors was passed as the number of elements.
---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From ba10a1e24e99a29a8a032fd2aa559b58b7491a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 12/22] fix: check the limit before allocating the contents

Bitlists and lists of basic elements allocated as much as the claimed length
before checking it against the limit.
---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index b007c6d..28527b8 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -104,6 +104,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check before allocating, the length may be large
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 34453f0..5daf5fc 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -120,6 +120,10 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
+	// check before allocating, the length may be large
+	if bytesLen > v.byteLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, v.byteLimit)
+	}
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0


From 653cd627395dec42cddffde2b722c81fe30fc8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 13/22] fix: read structs and arrays of a single pointer passed
 by value

An interface holds such a value itself, not a pointer to it.
---
 util/ptrutil/iface_ptr.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/util/ptrutil/iface_ptr.go b/util/ptrutil/iface_ptr.go
index 2b8b8de..89a0094 100644
--- a/util/ptrutil/iface_ptr.go
+++ b/util/ptrutil/iface_ptr.go
@@ -1,12 +1,24 @@
 package ptrutil
 
-import "unsafe"
+import (
+	"reflect"
+	"unsafe"
+)
 
 type iface struct {
 	Type, Data unsafe.Pointer
 }
 
 func IfacePtrToPtr(val *interface{}) unsafe.Pointer {
+	// Structs and arrays that consist of a single pointer are not pointed to by the interface data,
+	// but are that data. Make a copy that can be pointed to.
+	if typ := reflect.TypeOf(*val); typ != nil && typ.Size() == unsafe.Sizeof(uintptr(0)) {
+		if k := typ.Kind(); k == reflect.Struct || k == reflect.Array {
+			v := reflect.New(typ)
+			v.Elem().Set(reflect.ValueOf(*val))
+			return unsafe.Pointer(v.Pointer())
+		}
+	}
 	p := unsafe.Pointer(val)
 	return (*iface)(p).Data
 }
-- 
2.43.0


From cbf487e2b5fe2a1284f9d5119f3c279b6ea6ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 14/22] fix: pack basic elements behind pointers in the hash
 tree root

Lists and vectors of pointers to basic elements were merkleized with a leaf
per element, as if the elements were composites.
---
 types/basic_series.go | 30 ++++++++++++++++++++++++++++++
 types/ssz_list.go     |  3 +++
 types/ssz_vector.go   |  3 +++
 3 files changed, 36 insertions(+)

diff --git a/types/basic_series.go b/types/basic_series.go
index 8de9e60..c46b351 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -150,3 +150,33 @@ func BasicSeriesDryCheck(dr *DecodingReader, bytesLen uint64, bytesLimit uint64,
 	}
 	return nil
 }
+
+// Gets the size of the elements of a series, if they are pointers to basic elements.
+func packedElemSize(elem SSZ) (size uint64, ok bool) {
+	switch x := elem.(type) {
+	case *SSZPtr:
+		return packedElemSize(x.elemSSZ)
+	case SSZBool, SSZUint8, SSZUint16, SSZUint32, SSZUint64:
+		return elem.FixedLen(), true
+	default:
+		return 0, false
+	}
+}
+
+// The counter-part of LittleEndianBasicSeriesHTR for basic elements that are not next to each other in memory.
+func packedSeriesHTR(h MerkleFn, elemHtr HashTreeRootFn, elemSize uint64, length uint64, limit uint64, elemMemSize uintptr, p unsafe.Pointer) [32]byte {
+	perLeaf := 32 / elemSize
+	leaf := func(i uint64) []byte {
+		d := [32]byte{}
+		for j := uint64(0); j < perLeaf && i*perLeaf+j < length; j++ {
+			r := elemHtr(h, unsafe.Pointer(uintptr(p)+(elemMemSize*uintptr(i*perLeaf+j))))
+			copy(d[j*elemSize:], r[:elemSize])
+		}
+		return d[:]
+	}
+	// no rounding up by adding to the limit, it may be close to the maximum
+	leafs := func(count uint64) uint64 {
+		return count/perLeaf + (count%perLeaf+perLeaf-1)/perLeaf
+	}
+	return merkle.Merkleize(h, leafs(length), leafs(limit), leaf)
+}
diff --git a/types/ssz_list.go b/types/ssz_list.go
index 92b0409..afff1e2 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -159,6 +159,9 @@ func (v *SSZList) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	elemHtr := v.elemSSZ.HashTreeRoot
 	elemSize := v.elemMemSize
 	sh := ptrutil.ReadSliceHeader(p)
+	if size, ok := packedElemSize(v.elemSSZ); ok {
+		return h.MixIn(packedSeriesHTR(h, elemHtr, size, uint64(sh.Len), v.limit, elemSize, sh.Data), uint64(sh.Len))
+	}
 	leaf := func(i uint64) []byte {
 		r := elemHtr(h, unsafe.Pointer(uintptr(sh.Data)+(elemSize*uintptr(i))))
 		return r[:]
diff --git a/types/ssz_vector.go b/types/ssz_vector.go
index 6925624..b959795 100644
--- a/types/ssz_vector.go
+++ b/types/ssz_vector.go
@@ -132,6 +132,9 @@ func (v *SSZVector) DryCheck(dr *DecodingReader) error {
 func (v *SSZVector) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	elemHtr := v.elemSSZ.HashTreeRoot
 	elemSize := v.elemMemSize
+	if size, ok := packedElemSize(v.elemSSZ); ok {
+		return packedSeriesHTR(h, elemHtr, size, v.length, v.length, elemSize, p)
+	}
 	leaf := func(i uint64) []byte {
 		v := elemHtr(h, unsafe.Pointer(uintptr(p)+(elemSize*uintptr(i))))
 		return v[:]
-- 
2.43.0


From 3f5f48c66c8a4fa18409360c1ab79680b54002ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 15/22] fix: refuse recursive types

Defining a type that refers to itself recursed until the stack overflowed,
which ends the process.
---
 types/factory.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/types/factory.go b/types/factory.go
index 815ae23..c064bc0 100644
--- a/types/factory.go
+++ b/types/factory.go
@@ -9,7 +9,18 @@ type SSZFactoryFn func(typ reflect.Type) (SSZ, error)
 
 // The default SSZ factory
 func SSZFactory(typ reflect.Type) (SSZ, error) {
-	return DefaultSSZFactory(SSZFactory, typ)
+	// the types which are being defined, to not define a type as part of itself without end.
+	parents := make(map[reflect.Type]bool)
+	var factory SSZFactoryFn
+	factory = func(typ reflect.Type) (SSZ, error) {
+		if parents[typ] {
+			return nil, fmt.Errorf("ssz: type %s is recursive", typ.String())
+		}
+		parents[typ] = true
+		defer delete(parents, typ)
+		return DefaultSSZFactory(factory, typ)
+	}
+	return factory(typ)
 }
 
 func DefaultSSZFactory(factory SSZFactoryFn, typ reflect.Type) (SSZ, error) {
-- 
2.43.0


From 3553f6d923ebbe66ecbd3f3583adf50dc687952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 16/22] fix: refuse lists of elements without contents

Such lists could be encoded, but not be decoded: the number of elements is
lost. Fuzz mode divided by the zero element size.
---
 types/ssz_list.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index afff1e2..1bbb3d6 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -40,6 +40,9 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 	var fixedElemSize, byteLimit uint64
 	if elemSSZ.IsFixed() {
 		fixedElemSize = elemSSZ.FixedLen()
+		if fixedElemSize == 0 {
+			return nil, fmt.Errorf("the length of list typ %v is undefined, its elements are of 0 bytes", typ)
+		}
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
@@ -116,8 +119,8 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 		span = v.maxFuzzLen - 8
 	}
 	length := uint64(0)
-	if span != 0 {
-		length = (x % span) / v.elemSSZ.FuzzMinLen()
+	if min := v.elemSSZ.FuzzMinLen(); span != 0 && min != 0 {
+		length = (x % span) / min
 	}
 	if length > v.limit {
 		length = v.limit
-- 
2.43.0


From e1353cc2a0fcb5a9eeafbeef3256054c93ac41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 17/22] fix: check the length of bitvectors without overflow

---
 bitfields/bitvector.go | 3 ++-
 types/ssz_bitvector.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields/bitvector.go b/bitfields/bitvector.go
index 8cde0a6..ac2bad3 100644
--- a/bitfields/bitvector.go
+++ b/bitfields/bitvector.go
@@ -30,7 +30,8 @@ func BitvectorCheck(b []byte, n uint64) error {
 }
 
 func BitvectorCheckByteLen(byteLen uint64, bitLength uint64) error {
-	if expected := (bitLength + 7) >> 3; byteLen != expected {
+	// no rounding up by adding to the length, it may be close to the maximum
+	if expected := (bitLength >> 3) + ((bitLength&7)+7)>>3; byteLen != expected {
 		return fmt.Errorf("bitvector of %d bytes has not expected length in bytes %d", byteLen, expected)
 	}
 	return nil
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index 764a07c..ef235c0 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -34,7 +34,7 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
 	bitLen := typedNil.BitLen()
 	byteLen := uint64(typ.Len())
-	if (bitLen+7)>>3 != byteLen {
+	if err := bitfields.BitvectorCheckByteLen(byteLen, bitLen); err != nil {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
 	}
 	res := &SSZBitvector{bitLen: bitLen, byteLen: byteLen}
-- 
2.43.0


From 80ad1b61dc8dda56102e822494899b41a99c16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 18/22] fix: hash bitlists with the largest limits

---
 types/ssz_bitlist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 28527b8..0a227fc 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -32,7 +32,8 @@ func NewSSZBitlist(typ reflect.Type) (*SSZBitlist, error) {
 	if err != nil {
 		return nil, err
 	}
-	byteLimit := (bitLimit + 7) >> 3
+	// no rounding up by adding to the limit, it may be close to the maximum
+	byteLimit := (bitLimit >> 3) + ((bitLimit&7)+7)>>3
 	res := &SSZBitlist{
 		bitLimit:  bitLimit,
 		byteLimit: byteLimit,
-- 
2.43.0


From d569f56254b301613ec648a782f423ac202e1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 19/22] fix: read limits that are declared on the value of a
 type

---
 types/limit.go         | 5 +++--
 types/ssz_bitvector.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/types/limit.go b/types/limit.go
index 4d02c8c..cfe7a70 100644
--- a/types/limit.go
+++ b/types/limit.go
@@ -13,6 +13,7 @@ func ReadListLimit(typ reflect.Type) (uint64, error) {
 	if !ptrTyp.Implements(listType) {
 		return 0, fmt.Errorf("*typ (pointer type) is not a ssz list")
 	}
-	typedNil := reflect.New(ptrTyp).Elem().Interface().(lists.List)
-	return typedNil.Limit(), nil
+	// not a nil pointer, the limit may be declared on the value instead of on the pointer
+	zero := reflect.New(typ).Interface().(lists.List)
+	return zero.Limit(), nil
 }
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index ef235c0..072cbaa 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -31,8 +31,9 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	if !ptrTyp.Implements(bitvectorMeta) {
 		return nil, fmt.Errorf("*typ (pointer type) is not a bitvector")
 	}
-	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
-	bitLen := typedNil.BitLen()
+	// not a nil pointer, the length may be declared on the value instead of on the pointer
+	zero := reflect.New(typ).Interface().(bitfields.BitvectorMeta)
+	bitLen := zero.BitLen()
 	byteLen := uint64(typ.Len())
 	if err := bitfields.BitvectorCheckByteLen(byteLen, bitLen); err != nil {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
-- 
2.43.0


From 97598f1254af8121c802c8e2507ad4d75f293a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 20/22] fix: a read beyond the scope reports no bytes as read

The index was returned as the count: io.ReadFull took a failed read for a success.
---
 dec/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index fbcceb4..845d93f 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -54,7 +54,7 @@ func (dr *DecodingReader) Max() uint64 {
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
 	v := dr.i + x
 	if v > dr.max {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
 	}
 	dr.i = v
 	return int(x), nil
-- 
2.43.0


From 15534389d9a3661170508eeace129fffed470e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 21/22] fix: a skip of nearly 2^64 bytes does not move
 backwards

---
 dec/decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 845d93f..9764ad7 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -52,11 +52,11 @@ func (dr *DecodingReader) Max() uint64 {
 }
 
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
-	v := dr.i + x
-	if v > dr.max {
-		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+	// compare with what is left, the sum may overflow
+	if span := dr.GetBytesSpan(); x > span {
+		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
-	dr.i = v
+	dr.i += x
 	return int(x), nil
 }
 
-- 
2.43.0


From 6dd792640217f8f3ed60c145b696393003190d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 22/22] fix: a skip does not go beyond the end of a source that
 can seek

---
 dec/decoder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 9764ad7..194a1ff 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -64,10 +64,22 @@ func (dr *DecodingReader) Skip(count uint64) (int, error) {
 	if n, err := dr.checkedIndexUpdate(count); err != nil {
 		return n, err
 	}
+	if int64(count) < 0 {
+		return 0, fmt.Errorf("cannot skip %d bytes", count)
+	}
 	switch r := dr.input.(type) {
 	case io.Seeker:
-		n, err := r.Seek(int64(count), io.SeekCurrent)
-		return int(n), err
+		if count == 0 {
+			return 0, nil
+		}
+		// seeking does not stop at the end of the input, read the last byte to know that it is there
+		if _, err := r.Seek(int64(count-1), io.SeekCurrent); err != nil {
+			return 0, err
+		}
+		if _, err := io.ReadFull(dr.input, dr.scratch[0:1]); err != nil {
+			return 0, err
+		}
+		return int(count), nil
 	default:
 		n, err := io.CopyN(ioutil.Discard, dr.input, int64(count))
 		return int(n), err
-- 
2.43.0

