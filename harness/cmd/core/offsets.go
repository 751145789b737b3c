package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"syscall"
	"unsafe"

	"github.com/protolambda/zssz/enc"

	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() { props["C27"] = c27 }

type (
	bl   = uni.LByte_1099511627776
	ofsA struct{ A, B bl }
	ofsB struct {
		A bl
		B uint16
		C bl
		D uint64
		E bl
	}
	ofsC struct {
		X uint8
		I ofsA
		Y *ofsB
		Z bl
	}
	ofsD struct {
		A uni.LU64_1099511627776
		B uni.LU16_1099511627776
		C uni.LU32_1099511627776
		D uni.BList_1099511627776
		E uni.LU64_4
	}
	ofsF struct {
		P []byte `ssz:"omit"`
		A [3]bl
		B [2]ofsA
		C uint32
		D *bl
	}
	ofsG struct {
		A bl
		B uni.L_LByte_1099511627776_16
		C bl
	}
	ofsH []ofsA
	ofsI []*bl
	ofsJ struct {
		A ofsH
		B ofsI
		C [2]*ofsA
	}
	ofsK struct {
		A uni.BList_1099511627776
		B uni.BList_1099511627776
		C uni.BVec_9
		D uni.BList_9
	}
	ofsL struct{ A, B, C, D, E, F, G, H bl }
)

func (*ofsH) Limit() uint64 { return 4 }
func (*ofsI) Limit() uint64 { return 1 << 20 }

var ofsTypes = []reflect.Type{
	reflect.TypeOf(ofsA{}), reflect.TypeOf(ofsB{}), reflect.TypeOf(ofsC{}), reflect.TypeOf(ofsD{}), reflect.TypeOf(struct {
		E uni.VrA
		S ofsA `ssz:"squash"`
		T bl
	}{}), reflect.TypeOf(ofsF{}), reflect.TypeOf(ofsG{}), reflect.TypeOf(ofsH{}), reflect.TypeOf(ofsI{}), reflect.TypeOf(ofsJ{}), reflect.TypeOf(ofsK{}), reflect.TypeOf(ofsL{}),
	reflect.TypeOf([2]bl{}), reflect.TypeOf([5]bl{}), reflect.TypeOf([3]*ofsA{}), reflect.TypeOf(uni.L_LByte_1099511627776_16{}), reflect.TypeOf(&ofsB{}),
	reflect.TypeOf([2][2]bl{}), reflect.TypeOf([2]uni.L_LByte_1099511627776_16{}), reflect.TypeOf([3]uni.LU64_1099511627776{}), reflect.TypeOf([2]uni.BList_1099511627776{}),
}

type region struct {
	base unsafe.Pointer
	size uint64
}

// leafList is a list of basic elements or a bitlist whose contents are virtual.
type leafList struct {
	v    reflect.Value
	n    *ref.Node
	size uint64 // bytes per element
	len  uint64 // elements (bytes)
}

func (l *leafList) apply(m region) {
	b := l.len * l.size
	p := m.base
	if l.n.K == ref.KBitlist { // the last byte of the region is not zero
		p = unsafe.Add(m.base, m.size-b)
	}
	h := (*[3]uintptr)(l.v.Addr().UnsafePointer())
	*(*unsafe.Pointer)(unsafe.Pointer(&h[0])) = p
	h[1], h[2] = uintptr(l.len), uintptr(l.len)
}

// placeLeaves makes a value, and collects the lists to give virtual contents.
func placeLeaves(c *mon.Case, n *ref.Node, v reflect.Value, out *[]*leafList) {
	switch n.K {
	case ref.KPtr:
		v.Set(reflect.New(n.T.Elem()))
		placeLeaves(c, n.Elem, v.Elem(), out)
	case ref.KContainer:
		for _, f := range n.Fields {
			placeLeaves(c, f.Node, ref.Sub(v, f.Index), out)
		}
	case ref.KVector:
		for i := 0; i < v.Len() && !n.Elem.IsBasic(); i++ {
			placeLeaves(c, n.Elem, v.Index(i), out)
		}
	case ref.KBitlist:
		if n.Limit < 1<<36 {
			v.SetBytes([]byte{1})
			return
		}
		*out = append(*out, &leafList{v, n, 1, 1})
	case ref.KList:
		if n.Elem.IsBasic() {
			if n.Limit >= 1<<36 {
				*out = append(*out, &leafList{v, n, n.Elem.FixedLen(), 0})
			}
			return
		}
		l := int(min(uint64(1+c.R.IntN(5)), n.Limit))
		v.Set(reflect.MakeSlice(n.T, l, l))
		for i := 0; i < l; i++ {
			placeLeaves(c, n.Elem, v.Index(i), out)
		}
	}
}

type offset struct{ pos, val uint64 }

// layout gives the size of a value's encoding and the offsets in it, without encoding it.
func layout(n *ref.Node, v reflect.Value, at uint64, out *[]offset) uint64 {
	if n.Fixed() {
		return n.FixedLen()
	}
	series := func(cnt int, elem func(i int) (*ref.Node, reflect.Value)) uint64 {
		head := uint64(0)
		for i := 0; i < cnt; i++ {
			if e, _ := elem(i); e.Fixed() {
				head += e.FixedLen()
			} else {
				head += 4
			}
		}
		pos, end := at, head
		for i := 0; i < cnt; i++ {
			e, x := elem(i)
			if e.Fixed() {
				pos += e.FixedLen()
				continue
			}
			*out = append(*out, offset{pos, end})
			pos += 4
			end += layout(e, x, at+end, out)
		}
		return end
	}
	switch n.K {
	case ref.KPtr:
		return layout(n.Elem, v.Elem(), at, out)
	case ref.KBitlist:
		return uint64(v.Len())
	case ref.KList, ref.KVector:
		if n.Elem.Fixed() {
			return uint64(v.Len()) * n.Elem.FixedLen()
		}
		return series(v.Len(), func(i int) (*ref.Node, reflect.Value) { return n.Elem, v.Index(i) })
	case ref.KContainer:
		return series(len(n.Fields), func(i int) (*ref.Node, reflect.Value) {
			return n.Fields[i].Node, ref.Sub(v, n.Fields[i].Index)
		})
	}
	panic("bad kind")
}

// posWriter discards what it gets, except for given positions.
type posWriter struct {
	at   uint64
	want []offset // by position
	got  [][4]byte
	have []int // bytes seen
	i    int
}

func newPosWriter(os []offset) *posWriter {
	w := &posWriter{want: append([]offset(nil), os...)}
	sort.Slice(w.want, func(i, j int) bool { return w.want[i].pos < w.want[j].pos })
	w.got = make([][4]byte, len(w.want))
	w.have = make([]int, len(w.want))
	return w
}

func (w *posWriter) Write(p []byte) (int, error) {
	end := w.at + uint64(len(p))
	for i := w.i; i < len(w.want) && w.want[i].pos < end; i++ {
		for j := uint64(0); j < 4; j++ {
			if x := w.want[i].pos + j; x >= w.at && x < end {
				w.got[i][j] = p[x-w.at]
				w.have[i]++
			}
		}
		if w.want[i].pos+4 <= end {
			w.i = i + 1
		}
	}
	w.at = end
	return len(p), nil
}

func c27(r *mon.Run) {
	const top = uint64(1) << 32
	// the offset writer itself
	vals := func(c *mon.Case) uint64 {
		switch c.R.IntN(6) {
		case 0:
			return c.R.Uint64N(200)
		case 1:
			return top - 1 - c.R.Uint64N(5)
		case 2:
			return top + c.R.Uint64N(5)
		case 3:
			return uint64(1)<<c.R.IntN(64) + c.R.Uint64N(3) - 1
		case 4:
			return ^uint64(0) - c.R.Uint64N(300)
		}
		return c.R.Uint64N(top)
	}
	r.Phase("writer", r.N(100000, 2000000), "offsets written one by one: sums around 2^32 and 2^64", func(c *mon.Case) {
		prev, l := vals(c), vals(c)
		if c.R.IntN(3) == 0 {
			l = top + c.R.Uint64N(7) - 3 - prev
		}
		var b bytes.Buffer
		ew := enc.NewEncodingWriter(&b)
		var got uint64
		var err error
		p := sut.Do(func() { got, err = ew.WriteOffset(prev, l) })
		c.Eval(mon.Hash(prev, l))
		sum := prev + l
		if prev < top && l < top && sum < top {
			var w [4]byte
			binary.LittleEndian.PutUint32(w[:], uint32(sum))
			if p != nil || err != nil || got != sum || !bytes.Equal(b.Bytes(), w[:]) {
				c.Fail("writer", "offset %d+%d: wrote %x, gives %d %v %v", prev, l, b.Bytes(), got, err, p)
			}
			c.Count("offsets written")
		} else {
			if (p == nil && err == nil) || b.Len() != 0 {
				c.Fail("writer", "offset %d+%d does not fit, but: wrote %x, gives %d %v %v", prev, l, b.Bytes(), got, err, p)
			}
			c.Count("offsets refused")
		}
	})
	r.Need("offsets written", 1000)
	r.Need("offsets refused", 1000)
	if math.MaxInt < 1<<40 {
		return // a 32-bit machine holds no such values
	}
	size := uint64(9) << 30
	mem, err := syscall.Mmap(-1, 0, int(size), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		r.Error("no address space for values of 4 GiB: " + err.Error())
		return
	}
	defer syscall.Munmap(mem)
	mem[size-1] = 1
	m := region{unsafe.Pointer(&mem[0]), size}
	r.Phase("values", r.N(6000, 100000), "values with (virtual) contents around 4 GiB: one offset brought to 2^32 and nearby", func(c *mon.Case) {
		t := ofsTypes[c.Idx%len(ofsTypes)]
		e, err := uni.ForType(t)
		if err != nil {
			panic(err)
		}
		d := def(c, e)
		if d == nil {
			return
		}
		v := reflect.New(t).Elem()
		var ls []*leafList
		placeLeaves(c, e.N, v, &ls)
		if len(ls) == 0 {
			return
		}
		for _, l := range ls {
			var b uint64
			switch c.R.IntN(6) {
			case 0:
				b = 1 << 30
			case 1:
				b = 1<<31 + c.R.Uint64N(100) - 50
			case 2:
				b = c.R.Uint64N(top)
			default:
				b = c.R.Uint64N(100)
			}
			l.len = max(b/l.size, 1)
			l.apply(m)
		}
		var os []offset
		total := layout(e.N, v, 0, &os)
		// bring one offset to a chosen value
		aim := []uint64{top, top, top, top + c.R.Uint64N(64), 2 * top, 1 << 31, top + 1<<31}[c.R.IntN(7)] + c.R.Uint64N(17) - 8
		for try := 0; try < 30 && len(os) > 0; try++ {
			l := ls[c.R.IntN(len(ls))]
			i := c.R.IntN(len(os))
			old := l.len
			nl := int64(old) + (int64(aim)-int64(os[i].val))/int64(l.size)
			if nl < 1 || uint64(nl)*l.size > size || nl == int64(old) {
				continue
			}
			l.len = uint64(nl)
			l.apply(m)
			var os2 []offset
			total2 := layout(e.N, v, 0, &os2)
			if os2[i].val == os[i].val { // this list is not in front of that offset
				l.len = old
				l.apply(m)
				continue
			}
			os, total = os2, total2
			break
		}
		over := false
		most := uint64(0)
		for _, o := range os {
			over = over || o.val >= top
			most = max(most, o.val)
		}
		w := newPosWriter(os)
		n, err, p := sut.EncodeTo(w, ptr(v), d.S)
		what := func() string {
			s := ""
			for _, l := range ls {
				s += fmt.Sprintf(" %d*%d", l.len, l.size)
			}
			return fmt.Sprintf("%s with contents of%s bytes (%d in total, largest offset %d)", e.Name, s, total, most)
		}
		c.Eval(mon.Hash(e.Name, total, fmt.Sprint(os)))
		for i, o := range w.want {
			if w.have[i] < 4 {
				if p == nil && err == nil {
					c.Fail("missing", "%s: success, but only %d of %d bytes written", what(), w.at, total)
					return
				}
				continue
			}
			if got := uint64(binary.LittleEndian.Uint32(w.got[i][:])); got != o.val {
				c.Fail("wrong-offset", "%s: offset at byte %d is %d, want %d (err %v, %v)", what(), o.pos, got, o.val, err, p)
				return
			}
			c.Count("offsets compared")
		}
		switch {
		case over && p == nil && err == nil:
			c.Fail("passes", "%s: encoding reports success", what())
		case over:
			c.Count("refused")
			if most < top+8 {
				c.Count("refused within 8 of 2^32")
			}
		case p != nil || err != nil:
			if total < top {
				c.Fail("refused", "%s: encoding fails: %v %v", what(), err, p)
			}
			c.Count("refused, more than 4 GiB in total")
		default:
			if w.at != total || uint64(n) != total {
				c.Fail("size", "%s: %d bytes written, %d reported", what(), w.at, n)
				return
			}
			if sz, p := sut.SizeOf(ptr(v), d.S); sz != total || p != nil {
				c.Fail("size", "%s: size computed as %d %v", what(), sz, p)
				return
			}
			c.Count("encoded")
			if most >= top-8 {
				c.Count("encoded with an offset within 8 of 2^32")
			}
			if total >= top {
				c.Count("encoded, more than 4 GiB in total")
			}
		}
		c.Sample("%s: err %v, panic %v", what(), err, p != nil)
	})
	r.Need("refused within 8 of 2^32", 100)
	r.Need("encoded with an offset within 8 of 2^32", 100)
}
