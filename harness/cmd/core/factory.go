package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/pretty"
	"github.com/protolambda/zssz/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() { props["C24"] = c24 }

// Types that have to be refused.
type (
	noLimit    []uint64
	noLimitB   []byte
	noLimitC   []uni.VrA
	limit32    []uint64 // its limit is of the wrong type
	limitArg   []uint64 // its limit takes an argument
	bitsNoLim  []byte   // has a bit length, but no limit
	intList    []int
	strList    []string
	mapList    []map[int]int
	anyList    []any
	slcList    [][]byte
	chanList   []chan int
	ptrIntList []*int
	badBvList  []bv9in1
	deepBad    []intList
	structBad  []struct{ A *[2]struct{ X int64 } }
	bv9in1     [1]byte
	bv9in3     [3]byte
	bv8in2     [2]byte
	bv0in1     [1]byte
	bv1in0     [0]byte
	bvMax      [0]byte
	bvMaxin1   [1]byte
	myInt      int
	myStr      string
	sqBasic    struct {
		A uint64 `ssz:"squash"`
	}
	sqList struct {
		A uni.LByte_32 `ssz:"squash"`
	}
	sqPtr struct {
		B uint8
		A *uni.FxA `ssz:"squash"`
	}
	sqArr struct {
		A [2]uni.FxA `ssz:"x,squash"`
	}
	sqBv struct {
		uni.BVec_9 `ssz:"squash"`
	}
	sqInner struct {
		A struct{ B sqBasic } `ssz:"squash"`
	}
	sqBad struct {
		A struct{ B int8 } `ssz:"squash"`
	}
	embBad struct {
		A uint8
		embBadIn
	}
	embBadIn struct{ x float64 }
	embInt   struct{ myInt }
	unexpBad struct {
		A uint8
		b []uint64
	}
)

func (*limit32) Limit() uint32         { return 3 }
func (*limitArg) Limit(int) uint64     { return 3 }
func (*bitsNoLim) BitLen() uint64      { return 3 }
func (*intList) Limit() uint64         { return 3 }
func (*strList) Limit() uint64         { return 3 }
func (*mapList) Limit() uint64         { return 3 }
func (*anyList) Limit() uint64         { return 3 }
func (*slcList) Limit() uint64         { return 3 }
func (*chanList) Limit() uint64        { return 3 }
func (*ptrIntList) Limit() uint64      { return 3 }
func (*badBvList) Limit() uint64       { return 3 }
func (*deepBad) Limit() uint64         { return 3 }
func (*structBad) Limit() uint64       { return 3 }
func (*bv9in1) BitLen() uint64         { return 9 }
func (*bv9in3) BitLen() uint64         { return 9 }
func (*bv8in2) BitLen() uint64         { return 8 }
func (*bv0in1) BitLen() uint64         { return 0 }
func (*bv1in0) BitLen() uint64         { return 1 }
func (*bvMax) BitLen() uint64          { return ^uint64(0) }
func (*bvMaxin1) BitLen() uint64       { return ^uint64(0) - 6 }
func (myStr) Limit() uint64            { return 4 }
func (unexpBad) String() (s string)    { return }
func (*noLimitC) GetLimit() (n uint64) { return 5 }
func (*noLimitB) Length() (n uint64)   { return 5 }
func (*noLimit) unlimited() (n uint64) { return 5 }

var refused = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(0.5), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex(0, 0)),
	reflect.TypeOf(""), reflect.TypeOf(map[uint64]uint64{}), reflect.TypeOf(make(chan uint64)), reflect.TypeOf(func() {}), reflect.TypeOf((*any)(nil)).Elem(),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf(myInt(0)), reflect.TypeOf(myStr("")),
	reflect.TypeOf([]byte{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]uint64{}), reflect.TypeOf([][32]byte{}), reflect.TypeOf([]*uint64{}),
	reflect.TypeOf(noLimit{}), reflect.TypeOf(noLimitB{}), reflect.TypeOf(noLimitC{}), reflect.TypeOf(limit32{}), reflect.TypeOf(limitArg{}), reflect.TypeOf(bitsNoLim{}),
	reflect.TypeOf(intList{}), reflect.TypeOf(strList{}), reflect.TypeOf(mapList{}), reflect.TypeOf(anyList{}), reflect.TypeOf(slcList{}), reflect.TypeOf(chanList{}),
	reflect.TypeOf(ptrIntList{}), reflect.TypeOf(badBvList{}), reflect.TypeOf(deepBad{}), reflect.TypeOf(structBad{}),
	reflect.TypeOf(bv9in1{}), reflect.TypeOf(bv9in3{}), reflect.TypeOf(bv8in2{}), reflect.TypeOf(bv0in1{}), reflect.TypeOf(bv1in0{}), reflect.TypeOf(bvMax{}), reflect.TypeOf(bvMaxin1{}),
	reflect.TypeOf(sqBasic{}), reflect.TypeOf(sqList{}), reflect.TypeOf(sqPtr{}), reflect.TypeOf(sqArr{}), reflect.TypeOf(sqBv{}), reflect.TypeOf(sqInner{}), reflect.TypeOf(sqBad{}),
	reflect.TypeOf(embBad{}), reflect.TypeOf(embInt{}), reflect.TypeOf(unexpBad{}), reflect.TypeOf([3]int{}), reflect.TypeOf([0]string{}), reflect.TypeOf((*int)(nil)),
}

// Types for which there is no rule, except that they are refused or else work.
type (
	recA struct{ Next *recA }
	recB []recB
	recC struct {
		A uint8
		L recCL
	}
	recCL []recC
	recD  struct{ E *recE }
	recE  struct{ L recEL }
	recEL []recD
	recP  *recP
	recR  [2]*recR
	recS  struct {
		recSIn
		B uint8
	}
	recSIn struct{ P *recS }
	recT   struct {
		In struct{ P *recT } `ssz:"squash"`
	}
	recL   []*recL
	valLim []uint64
	valBit []byte
	valBv  [2]byte
	empB   []struct{}
	empC   [][0]uint64
	empD   []*struct{}
	bv0    [0]byte
	bigNum [1 << 20]uint64
)

func (*recB) Limit() uint64   { return 4 }
func (*recCL) Limit() uint64  { return 4 }
func (*recEL) Limit() uint64  { return 4 }
func (*recL) Limit() uint64   { return 4 }
func (valLim) Limit() uint64  { return 4 }
func (valBit) Limit() uint64  { return 12 }
func (valBit) BitLen() uint64 { return 3 }
func (valBv) BitLen() uint64  { return 13 }
func (*empB) Limit() uint64   { return 4 }
func (*empC) Limit() uint64   { return 4 }
func (*empD) Limit() uint64   { return 4 }
func (*bv0) BitLen() uint64   { return 0 }

var recursive = []reflect.Type{
	reflect.TypeOf(recA{}), reflect.TypeOf(recB{}), reflect.TypeOf(recC{}), reflect.TypeOf(recCL{}), reflect.TypeOf(recD{}), reflect.TypeOf(recE{}),
	reflect.TypeOf(recEL{}), reflect.TypeOf(recP(nil)), reflect.TypeOf(recR{}), reflect.TypeOf(recS{}), reflect.TypeOf(recT{}), reflect.TypeOf(recL{}),
	reflect.TypeOf((*recA)(nil)), reflect.TypeOf([2]recD{}), reflect.TypeOf(struct {
		A uint8
		B [1]*recC
	}{}),
}
var either = []reflect.Type{
	reflect.TypeOf(valLim{}), reflect.TypeOf(valBit{}), reflect.TypeOf(valBv{}), reflect.TypeOf(empB{}), reflect.TypeOf(empC{}), reflect.TypeOf(empD{}), reflect.TypeOf(bv0{}),
	reflect.TypeOf([0]uint64{}), reflect.TypeOf([0]byte{}), reflect.TypeOf([0]uni.FxA{}), reflect.TypeOf([0]uni.VrA{}), reflect.TypeOf([0]uni.LByte_32{}), reflect.TypeOf([3]struct{}{}),
	reflect.TypeOf([2][0]bool{}), reflect.TypeOf([0]*uint64{}),
}

// Types that have to be accepted, because what is wrong with them is omitted.
type (
	okA struct {
		X    uint8
		Next *okA `ssz:"omit"`
	}
	okB struct {
		Kids []okB  `ssz:"omit"`
		Bad  bv9in1 `ssz:"omit"`
		V    uni.LByte_32
		F    func(int) chan string `json:"f" ssz:"squash,omit"`
		S    *uni.FxA              `ssz:"omit,squash"`
		W    uint16
	}
	okC struct {
		A okA
		B *okA
		C [2]okA
		D okB `ssz:"squash"`
		E okCL
	}
	okCL []okA
	okD  struct {
		embBad `ssz:"omit"`
		A, B   uni.FxA
		C      *uni.FxA
		D      **uni.FxA
		myInt  `ssz:"omit"`
	}
	okE struct {
		a uint16
		okA
		b sqBasic `ssz:"omit"`
		uni.VrA
	}
)

func (*okCL) Limit() uint64 { return 3 }

var accepted = []reflect.Type{
	reflect.TypeOf(okA{}), reflect.TypeOf(okB{}), reflect.TypeOf(okC{}), reflect.TypeOf(okCL{}), reflect.TypeOf(okD{}), reflect.TypeOf(okE{}),
	reflect.TypeOf(struct {
		A int `ssz:"omit"`
		B uint8
	}{}), reflect.TypeOf(bigNum{}),
}

type verdict int

const (
	must verdict = iota
	free
	never
)

// randomType makes a type and says what has to happen to it.
func randomType(r *rand.Rand, depth int, bad int, pool []*uni.Entry) (reflect.Type, verdict) {
	x := r.IntN(100)
	switch {
	case depth == 0 || x < 20:
		switch k := r.IntN(100); {
		case k < bad:
			return refused[r.IntN(len(refused))], never
		case k < bad+3:
			return either[r.IntN(len(either))], free
		case k < bad+10:
			return accepted[r.IntN(len(accepted)-1)], must
		}
		return pool[r.IntN(len(pool))].T, must
	case x < 65:
		k := 1 + r.IntN(5)
		v := must
		var fs []reflect.StructField
		for i := 0; i < k; i++ {
			t, w := randomType(r, depth-1, bad, pool)
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t}
			switch r.IntN(10) {
			case 0, 1:
				f.Tag = []reflect.StructTag{`ssz:"omit"`, `json:"x" ssz:"a,omit"`, `ssz:"squash,omit,b"`}[r.IntN(3)]
				w = must
			case 2, 3:
				f.Tag = `ssz:"squash"`
				if t.Kind() != reflect.Struct {
					if r.IntN(4) > 0 {
						f.Tag = ""
					} else {
						w = never
					}
				}
			}
			v = max(v, w)
			fs = append(fs, f)
		}
		return reflect.StructOf(fs), v
	case x < 80:
		t, v := randomType(r, depth-1, bad, pool)
		l := 1 + r.IntN(3)
		if r.IntN(12) == 0 {
			l = 0
			v = max(v, free)
		}
		if l == 0 || t.Size() == 0 {
			v = max(v, free)
		}
		return reflect.ArrayOf(l, t), v
	case x < 96 || bad == 0:
		t, v := randomType(r, depth-1, bad, pool)
		return reflect.PointerTo(t), v
	}
	t, _ := randomType(r, depth-1, bad, pool)
	return reflect.SliceOf(t), never
}

func typeName(t reflect.Type) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// construct checks the verdict; it gives the definition if there is one.
func construct(c *mon.Case, t reflect.Type, v verdict) *sut.Def {
	s, err, p := sut.New(t)
	c.Eval(mon.Hash(t.String()))
	switch {
	case p != nil:
		c.Fail("panics", "constructing the definition of %s: %v", typeName(t), p)
		return nil
	case err == nil && s == nil:
		c.Fail("nothing", "constructing the definition of %s: neither a definition nor an error", typeName(t))
		return nil
	case v == never && err == nil:
		c.Fail("accepted", "a definition of %s is constructed, but it must be refused", typeName(t))
		return nil
	case v == must && err != nil:
		c.Fail("refused", "%s is refused: %v", typeName(t), err)
		return nil
	}
	var g types.SSZ
	gp := sut.Do(func() { g = zssz.GetSSZ(reflect.New(t).Interface()) })
	if (gp == nil && g != nil) != (err == nil) {
		c.Fail("getssz", "%s: the factory says %v, GetSSZ gives a definition: %v, %v", typeName(t), err, g != nil, gp)
		return nil
	}
	if err != nil {
		c.Count("types refused")
		return nil
	}
	c.Count("types accepted")
	return &sut.Def{T: t, S: s}
}

// survives does what can be done with a type for which there is no model.
func survives(c *mon.Case, t reflect.Type, d *sut.Def) {
	if t.Size() > 1<<16 {
		return
	}
	v := reflect.New(t)
	fail := func(op string, p *sut.Panic) {
		if p != nil {
			c.Fail("unsupported", "%s is accepted, but %s: %v", typeName(t), op, p)
		}
	}
	if _, p := sut.LensOf(d.S); p != nil {
		fail("its lengths", p)
		return
	}
	for k := 0; k < 12 && !c.Failed(); k++ {
		in := make([]byte, k)
		if c.R.IntN(2) == 0 {
			gen.FillBytes(c.R, in)
		}
		err, p := sut.Decode(in, v.Interface(), d.S)
		fail(fmt.Sprintf("decoding %x", in), p)
		derr, p := sut.Dry(in, d.S)
		fail(fmt.Sprintf("checking %x", in), p)
		long := make([]byte, 40*k)
		gen.FillBytes(c.R, long)
		_, _, p = sut.FuzzFrom(bytes.NewReader(long), uint64(len(long)), reflect.New(t).Interface(), d.S)
		fail(fmt.Sprintf("decoding %x in fuzz mode", long), p)
		if !c.Failed() && (err == nil) != (derr == nil) {
			c.Fail("unsupported", "%s is accepted, but on %x decoding says %v and the dry check %v", typeName(t), in, err, derr)
		}
	}
	if c.Failed() || hasNil(v.Elem(), 8) {
		return
	}
	_, _, _, p := sut.Encode(v.Interface(), d.S)
	fail("encoding", p)
	_, p = sut.SizeOf(v.Interface(), d.S)
	fail("its size", p)
	_, p = sut.Root(sha, v.Interface(), d.S)
	fail("its root", p)
	_, p = sut.Pretty(" ", v.Interface(), d.S)
	fail("printing", p)
	// two elements in a list must come back
	if t.Kind() == reflect.Slice && !c.Failed() {
		v.Elem().Set(reflect.MakeSlice(t, 2, 2))
		if hasNil(v.Elem(), 8) {
			return
		}
		w := reflect.New(t)
		b, _, err, p := sut.Encode(v.Interface(), d.S)
		fail("encoding", p)
		err2, p := sut.Decode(b, w.Interface(), d.S)
		fail("decoding", p)
		if !c.Failed() && err == nil && (err2 != nil || w.Elem().Len() != 2) {
			c.Fail("unsupported", "%s is accepted, but the encoding %x of two elements is decoded to %d, error %v", typeName(t), b, w.Elem().Len(), err2)
		}
	}
}

// hasNil tells whether there may be a nil pointer (or an empty bitlist) in a value.
func hasNil(v reflect.Value, depth int) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil() || depth == 0 || hasNil(v.Elem(), depth-1)
	case reflect.Slice:
		if v.Len() == 0 && v.Type().Elem().Kind() == reflect.Uint8 {
			return true
		}
		for i := 0; i < v.Len(); i++ {
			if hasNil(v.Index(i), depth) {
				return true
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if hasNil(v.Index(i), depth) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasNil(v.Field(i), depth) {
				return true
			}
		}
	}
	return false
}

// works puts an accepted type through all operations; exact tells whether the model decides.
func works(c *mon.Case, t reflect.Type, d *sut.Def, exact bool) {
	e, err := uni.ForType(t)
	if err != nil {
		if exact {
			panic(fmt.Sprintf("the model refuses %v: %v", t, err))
		}
		survives(c, t, d)
		return
	}
	small := t.Size() < 1<<16
	for k := 0; k < 3 && !c.Failed(); k++ {
		v := reflect.New(t).Elem()
		gen.New(c.R, mode(k*2), 200).Fill(e.N, v)
		if small {
			gen.FillOmitted(c.R, v)
		}
		want := e.N.Encode(v)
		got, n, err, p := sut.Encode(ptr(v), d.S)
		size, p2 := sut.SizeOf(ptr(v), d.S)
		if err != nil || p != nil || p2 != nil || n != len(got) || size != uint64(n) || (exact && !bytes.Equal(got, want)) {
			c.Fail("encode", "%s: encoding: %v %v, size %d %v, count %d of %d\ngot  %s\nwant %s", typeName(t), err, p, size, p2, n, len(got), hx(got), hx(want))
			return
		}
		root, p := sut.Root(sha, ptr(v), d.S)
		if p != nil || (exact && root != e.N.Root(ref.Sha, v)) {
			c.Fail("root", "%s: hash tree root %x %v", typeName(t), root, p)
			return
		}
		if s, ok := d.S.(types.SignedSSZ); ok {
			if _, p := sut.SigningRoot(sha, ptr(v), s); p != nil {
				c.Fail("signing-root", "%s: %v", typeName(t), p)
				return
			}
		}
		if _, p := sut.Pretty(" ", ptr(v), d.S); p != nil {
			c.Fail("pretty", "%s: %v", typeName(t), p)
			return
		}
		w := reflect.New(t).Elem()
		err, p = sut.Decode(got, ptr(w), d.S)
		derr, dp := sut.Dry(got, d.S)
		if err != nil || p != nil || derr != nil || dp != nil {
			c.Fail("decode", "%s: decode: %v %v; dry check: %v %v\ninput %s", typeName(t), err, p, derr, dp, hx(got))
			return
		}
		again, _, err, p := sut.Encode(ptr(w), d.S)
		if err != nil || p != nil || !bytes.Equal(again, got) {
			c.Fail("reencode", "%s: %v %v, %s", typeName(t), err, p, firstDiff(again, got))
			return
		}
		if !small {
			return
		}
		in, _ := gen.Hostile(c.R, e.N, budget(c, 60))
		w = reflect.New(t).Elem()
		err, p = sut.Decode(in, ptr(w), d.S)
		derr, dp = sut.Dry(in, d.S)
		if p != nil || dp != nil || (err == nil) != (derr == nil) || (exact && (err == nil) != (e.N.Decode(in, reflect.New(t).Elem()) == nil)) {
			c.Fail("hostile", "%s: decode: %v %v; dry check: %v %v\ninput %s", typeName(t), err, p, derr, dp, hx(in))
			return
		}
		l, p := sut.LensOf(d.S)
		if p != nil {
			c.Fail("lengths", "%s: %v", typeName(t), p)
			return
		}
		if l.FuzzMin < 1<<16 {
			fz := fuzzInput(c, int(l.FuzzMin)+c.R.IntN(80))
			w = reflect.New(t).Elem()
			_, err, p := sut.FuzzFrom(bytes.NewReader(fz), uint64(len(fz)), ptr(w), d.S)
			if err != nil || p != nil {
				c.Fail("fuzz", "%s: %v %v\ninput %s", typeName(t), err, p, hx(fz))
				return
			}
			if err := e.N.Valid(w); err != nil && exact {
				c.Fail("fuzz", "%s: fuzz mode gives an invalid value: %v\ninput %s", typeName(t), err, hx(fz))
				return
			}
		}
		c.Count("values put through all operations")
	}
}

// parts lists the types a factory is to be asked for, below a type and including it.
func parts(t reflect.Type, out map[reflect.Type]bool) {
	basic := func(k reflect.Kind) bool {
		switch k {
		case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return true
		}
		return false
	}
	if basic(t.Kind()) || out[t] {
		return
	}
	out[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Array, reflect.Slice:
		parts(t.Elem(), out)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); !ref.Omitted(f) {
				parts(f.Type, out)
			}
		}
	}
}

// twisted is a definition with another representation, built on another definition.
type twisted struct {
	types.SSZ
	tw *ref.Twist
}

func (t *twisted) MinLen() uint64     { return t.SSZ.MinLen() + uint64(t.tw.Pad) }
func (t *twisted) MaxLen() uint64     { return t.SSZ.MaxLen() + uint64(t.tw.Pad) }
func (t *twisted) FuzzMinLen() uint64 { return t.SSZ.FuzzMinLen() + uint64(t.tw.Pad) }
func (t *twisted) FuzzMaxLen() uint64 { return t.SSZ.FuzzMaxLen() + uint64(t.tw.Pad) }
func (t *twisted) FixedLen() uint64 {
	if t.SSZ.IsFixed() {
		return t.SSZ.FixedLen() + uint64(t.tw.Pad)
	}
	return t.SSZ.FixedLen()
}
func (t *twisted) SizeOf(p unsafe.Pointer) uint64 { return t.SSZ.SizeOf(p) + uint64(t.tw.Pad) }

func (t *twisted) Encode(eb *enc.EncodingWriter, p unsafe.Pointer) error {
	var b bytes.Buffer
	if err := t.SSZ.Encode(enc.NewEncodingWriter(&b), p); err != nil {
		return err
	}
	return eb.Write(t.tw.Apply(b.Bytes()))
}

func (t *twisted) take(dr *dec.DecodingReader) (*dec.DecodingReader, uint64, error) {
	l := dr.GetBytesSpan()
	if t.SSZ.IsFixed() {
		l = t.FixedLen()
	}
	if l > 1<<24 {
		return nil, 0, errors.New("twisted: too long")
	}
	b := make([]byte, l)
	if _, err := dr.Read(b); err != nil {
		return nil, 0, err
	}
	b, err := t.tw.Undo(b)
	if err != nil {
		return nil, 0, err
	}
	in, err := dec.NewDecodingReader(bytes.NewReader(b)).Scope(uint64(len(b)))
	return in, uint64(len(b)), err
}

func (t *twisted) Decode(dr *dec.DecodingReader, p unsafe.Pointer) error {
	in, l, err := t.take(dr)
	if err != nil {
		return err
	}
	if l < t.SSZ.MinLen() {
		return errors.New("twisted: too short")
	}
	if err := t.SSZ.Decode(in, p); err != nil {
		return err
	}
	if in.Index() != l {
		return errors.New("twisted: surplus bytes")
	}
	return nil
}

func (t *twisted) DryCheck(dr *dec.DecodingReader) error {
	in, l, err := t.take(dr)
	if err != nil {
		return err
	}
	if l < t.SSZ.MinLen() {
		return errors.New("twisted: too short")
	}
	if err := t.SSZ.DryCheck(in); err != nil {
		return err
	}
	if in.Index() != l {
		return errors.New("twisted: surplus bytes")
	}
	return nil
}

func (t *twisted) HashTreeRoot(h htr.MerkleFn, p unsafe.Pointer) [32]byte {
	r := t.SSZ.HashTreeRoot(h, p)
	for i := range r {
		r[i] ^= t.tw.Xor
	}
	return r
}

func (t *twisted) Pretty(indent uint32, w *pretty.PrettyWriter, p unsafe.Pointer) {
	w.Write("<twisted>")
	t.SSZ.Pretty(indent, w, p)
}

// instances counts the twisted parts of a value.
func instances(n *ref.Node, v reflect.Value) int {
	k := 0
	if n.Twist != nil {
		k = 1
	}
	switch n.K {
	case ref.KPtr:
		k += instances(n.Elem, v.Elem())
	case ref.KVector, ref.KList:
		for i := 0; i < v.Len() && !n.Elem.IsBasic(); i++ {
			k += instances(n.Elem, v.Index(i))
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			k += instances(f.Node, ref.Sub(v, f.Index))
		}
	}
	return k
}

// squashed lists the struct types that carry the squash flag somewhere below.
func squashed(t reflect.Type, out map[reflect.Type]bool, seen map[reflect.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Array, reflect.Slice:
		squashed(t.Elem(), out, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if ref.Omitted(f) {
				continue
			}
			if strings.Contains(f.Tag.Get("ssz"), "squash") {
				out[f.Type] = true
			}
			squashed(f.Type, out, seen)
		}
	}
}

var makers = []struct {
	name string
	kind reflect.Kind
	new  func(t reflect.Type) (types.SSZ, error)
}{
	{"NewSSZBytes", reflect.Slice, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZBytes(t)) }},
	{"NewSSZBytesN", reflect.Array, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZBytesN(t)) }},
	{"NewSSZBitlist", reflect.Slice, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZBitlist(t)) }},
	{"NewSSZBitvector", reflect.Array, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZBitvector(t)) }},
	{"NewSSZBasicList", reflect.Slice, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZBasicList(t)) }},
	{"NewSSZBasicVector", reflect.Array, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZBasicVector(t)) }},
	{"NewSSZList", reflect.Slice, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZList(types.SSZFactory, t)) }},
	{"NewSSZVector", reflect.Array, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZVector(types.SSZFactory, t)) }},
	{"NewSSZContainer", reflect.Struct, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZContainer(types.SSZFactory, t)) }},
	{"NewSSZPtr", reflect.Ptr, func(t reflect.Type) (types.SSZ, error) { return given(types.NewSSZPtr(types.SSZFactory, t)) }},
}

// given makes no definition of a nil pointer.
func given[T any](s *T, err error) (types.SSZ, error) {
	if s == nil {
		return nil, err
	}
	return any(s).(types.SSZ), err
}

func bits(n *ref.Node) bool { return n.K == ref.KBitlist || n.K == ref.KBitvector }

// constructors asks every constructor for a definition of a type: those of other kinds of types must refuse it,
// the others refuse it or give a definition that encodes it.
func constructors(c *mon.Case, t reflect.Type, exact bool) {
	var e *uni.Entry
	if exact && t.Size() < 1<<16 {
		e, _ = uni.ForType(t)
	}
	for _, m := range makers {
		var s types.SSZ
		var err error
		p := sut.Do(func() { s, err = m.new(t) })
		c.Eval(mon.Hash("maker", m.name, t.String()))
		switch {
		case p != nil:
			c.Fail("maker-panics", "%s of %s: %v", m.name, typeName(t), p)
			return
		case err == nil && s == nil:
			c.Fail("maker-nothing", "%s of %s: neither a definition nor an error", m.name, typeName(t))
			return
		case err == nil && t.Kind() != m.kind:
			c.Fail("maker-accepts", "%s of %s gives a definition", m.name, typeName(t))
			return
		case err != nil:
			c.Count("refused by a constructor")
			continue
		}
		if e == nil || bits(e.N) != (m.name == "NewSSZBitlist" || m.name == "NewSSZBitvector") {
			continue
		}
		for k := 0; k < 3; k++ {
			v := gen.New(c.R, mode(k), budget(c, 60)).Value(e.N)
			want := e.N.Encode(v)
			got, _, err, p := sut.Encode(ptr(v), s)
			if err != nil || p != nil || !bytes.Equal(got, want) {
				c.Fail("maker-encode", "definition by %s of %s: encode %v %v\ngot  %s\nwant %s", m.name, typeName(t), err, p, hx(got), hx(want))
				return
			}
			w := reflect.New(t)
			err, p = sut.Decode(want, w.Interface(), s)
			if err != nil || p != nil || !e.N.Equal(w.Elem(), v) {
				c.Fail("maker-decode", "definition by %s of %s: decode %v %v\ninput %s", m.name, typeName(t), err, p, hx(want))
				return
			}
		}
		c.Count("constructed directly")
	}
}

func c24(r *mon.Run) {
	es := universe(r)
	list := func(name string, ts []reflect.Type, v verdict, note string) {
		r.Phase(name, len(ts), note, func(c *mon.Case) {
			if d := construct(c, ts[c.Idx], v); d != nil && !(slow && ts[c.Idx].Size() > 1<<14) {
				works(c, ts[c.Idx], d, v == must)
			}
			c.Sample("%v", ts[c.Idx])
		})
	}
	list("refused", refused, never, "types that must be refused")
	list("accepted", accepted, must, "types in which everything unsupported is omitted")
	list("recursive", recursive, free, "recursive types: refused or working")
	list("either", either, free, "types without contents and with methods on values: refused or working")
	pool := uni.Filter(es, func(e *uni.Entry) bool { return e.T.Size() < 400 })
	r.Phase("random", r.N(100000, 600000), "random types from supported and unsupported parts", func(c *mon.Case) {
		bad := []int{0, 3, 10, 30}[c.R.IntN(4)]
		t, v := randomType(c.R, 1+c.R.IntN(4), bad, pool)
		if t.Size() > 1<<14 {
			return
		}
		c.Count([]string{"to be accepted", "either", "to be refused"}[v])
		d := construct(c, t, v)
		if d != nil && c.Idx%4 == 0 {
			works(c, t, d, v == must)
		}
	})
	var ctyps []reflect.Type
	for _, l := range [][]reflect.Type{refused, recursive, either, accepted} {
		ctyps = append(ctyps, l...)
	}
	for i, e := range es {
		if e.T.Size() < 1<<12 && (i < 300 || i%5 == 0) {
			ctyps = append(ctyps, e.T)
		}
	}
	r.Phase("constructors", len(ctyps), "every exported constructor on every type", func(c *mon.Case) {
		constructors(c, ctyps[c.Idx], c.Idx >= len(refused)+len(recursive)+len(either))
	})
	r.Phase("consulted", len(es), "the types a custom factory is asked for", func(c *mon.Case) {
		e := es[c.Idx]
		asked := map[reflect.Type]bool{}
		var f types.SSZFactoryFn
		f = func(t reflect.Type) (types.SSZ, error) {
			asked[t] = true
			return types.DefaultSSZFactory(f, t)
		}
		s, err, p := sut.NewWith(f, e.T)
		c.Eval(mon.Hash("asked", e.Name))
		if s == nil || err != nil || p != nil {
			c.Fail("custom", "%s: custom factory: %v %v", e.Name, err, p)
			return
		}
		want := map[reflect.Type]bool{}
		parts(e.T, want)
		for t := range want {
			if !asked[t] {
				c.Fail("not-asked", "%s: the factory is not asked for %v", e.Name, t)
				return
			}
			c.Count("parts asked for")
		}
	})
	perType(r, "replaced", es, r.N(12, 100), "one or two types of a type get another representation through a custom factory", func(c *mon.Case, e *uni.Entry, k int) {
		all := map[reflect.Type]bool{}
		parts(e.T, all)
		no := map[reflect.Type]bool{}
		squashed(e.T, no, map[reflect.Type]bool{})
		var ts []reflect.Type
		for t := range all {
			if !no[t] {
				ts = append(ts, t)
			}
		}
		if len(ts) == 0 {
			return
		}
		sortTypes(ts)
		tw := map[reflect.Type]*ref.Twist{}
		for i := 0; i < 1+c.R.IntN(2); i++ {
			tw[ts[c.R.IntN(len(ts))]] = &ref.Twist{Xor: byte(c.R.IntN(256)), Pad: c.R.IntN(4)}
		}
		n, err := ref.OfTwisted(e.T, tw)
		if err != nil {
			panic(err)
		}
		if n.MaxLen().BitLen() > 60 {
			return
		}
		var f types.SSZFactoryFn
		f = func(t reflect.Type) (types.SSZ, error) {
			s, err := types.DefaultSSZFactory(f, t)
			if x := tw[t]; x != nil && err == nil {
				return &twisted{s, x}, nil
			}
			return s, err
		}
		what := e.Name + " with other representations of"
		for t, x := range tw {
			what += fmt.Sprintf(" %s (%02x, %d)", typeName(t), x.Xor, x.Pad)
		}
		s, err, p := sut.NewWith(f, e.T)
		if s == nil || err != nil || p != nil {
			c.Fail("custom", "%s: %v %v", what, err, p)
			return
		}
		d := &sut.Def{T: e.T, S: s}
		l, p := sut.LensOf(s)
		if p != nil || l.Min != n.MinLen().Uint64() || l.Max != n.MaxLen().Uint64() || l.IsFixed != n.Fixed() || (n.Fixed() && l.Fixed != n.FixedLen()) {
			c.Fail("replaced-lengths", "%s: lengths %+v, want %v to %v, fixed %v %d %v", what, l, n.MinLen(), n.MaxLen(), n.Fixed(), n.FixedLen(), p)
			return
		}
		v := gen.New(c.R, mode(k), budget(c, 60, 300)).Value(e.N)
		want := n.Encode(v)
		c.Eval(mon.Hash("twist", what, mon.HashBytes(want)))
		got, _, err, p := sut.Encode(ptr(v), s)
		if err != nil || p != nil || !bytes.Equal(got, want) {
			c.Fail("replaced-encode", "%s: %v %v %s\ngot  %s\nwant %s", what, err, p, firstDiff(got, want), hx(got), hx(want))
			return
		}
		if x, p := sut.SizeOf(ptr(v), s); p != nil || x != uint64(len(want)) {
			c.Fail("replaced-size", "%s: size %d %v, want %d", what, x, p, len(want))
			return
		}
		if x, p := sut.Root(sha, ptr(v), s); p != nil || x != n.Root(ref.Sha, v) {
			c.Fail("replaced-root", "%s: root %x %v, want %x\nvalue %s", what, x, p, n.Root(ref.Sha, v), hx(want))
			return
		}
		if sg, ok := s.(types.SignedSSZ); ok && n.K == ref.KContainer {
			if x, p := sut.SigningRoot(sha, ptr(v), sg); p != nil || x != n.SigningRoot(ref.Sha, v) {
				c.Fail("replaced-signing-root", "%s: signing root %x %v, want %x", what, x, p, n.SigningRoot(ref.Sha, v))
				return
			}
			c.Count("signing roots")
		}
		inst := instances(n, v)
		if x, p := sut.Pretty(" ", ptr(v), s); p != nil || strings.Count(x, "<twisted>") != inst {
			c.Fail("replaced-pretty", "%s: pretty printing goes through %d of %d replaced parts, %v", what, strings.Count(x, "<twisted>"), inst, p)
			return
		}
		for i := 0; i < 5; i++ {
			in := append([]byte(nil), want...)
			if i > 0 {
				in, _ = gen.Mutate(c.R, in)
			}
			a, b := reflect.New(e.T).Elem(), reflect.New(e.T).Elem()
			werr := n.Decode(in, b)
			err, p := sut.Decode(in, ptr(a), s)
			derr, dp := sut.Dry(in, s)
			if p != nil || dp != nil || (err == nil) != (werr == nil) || (derr == nil) != (werr == nil) {
				c.Fail("replaced-acceptance", "%s: decode %v %v, dry check %v %v, model %v\ninput %s", what, err, p, derr, dp, werr, hx(in))
				return
			}
			if err == nil {
				if !n.Equal(a, b) {
					c.Fail("replaced-decode", "%s: wrong value\ninput %s\nvalue encodes to %s", what, hx(in), hx(n.Encode(a)))
					return
				}
				c.Count("inputs accepted")
			} else {
				c.Count("inputs rejected")
			}
		}
		if inst > 0 {
			c.Count("values with replaced parts")
		}
		_ = d
		c.Sample("%s: %d replaced parts, encoding %.40s", what, inst, hx(want))
	})
	r.Need("constructed directly", 500)
	r.Need("refused by a constructor", 1000)
	r.Need("to be accepted", 3000)
	r.Need("to be refused", 3000)
	r.Need("parts asked for", 1000)
	r.Need("values with replaced parts", 3000)
}

func sortTypes(ts []reflect.Type) {
	for i := range ts {
		for j := i; j > 0 && ts[j].String() < ts[j-1].String(); j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}
