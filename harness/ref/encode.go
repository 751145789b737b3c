package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
)

func byteView(v reflect.Value) []byte {
	if v.Kind() == reflect.Array {
		if v.Len() == 0 {
			return nil
		}
		if v.CanAddr() {
			return v.Slice(0, v.Len()).Bytes()
		}
		out := make([]byte, v.Len())
		for i := range out {
			out[i] = byte(v.Index(i).Uint())
		}
		return out
	}
	return v.Bytes()
}

// Encode gives the canonical serialization. It does not enforce limits, so that over-limit
// values can be turned into otherwise well-formed bytes.
func (n *Node) Encode(v reflect.Value) []byte { return n.append(nil, v) }

func (n *Node) append(out []byte, v reflect.Value) []byte {
	if n.inner != nil {
		return append(out, n.Twist.Apply(n.inner.append(nil, v))...)
	}
	switch n.K {
	case KBool:
		if v.Bool() {
			return append(out, 1)
		}
		return append(out, 0)
	case KUint:
		x := v.Uint()
		for i := 0; i < n.Size; i++ {
			out = append(out, byte(x>>(8*i)))
		}
		return out
	case KPtr:
		return n.Elem.append(out, v.Elem())
	case KBitvector, KBitlist:
		return append(out, byteView(v)...)
	case KVector, KList:
		if n.IsBytes() {
			return append(out, byteView(v)...)
		}
		cnt := v.Len()
		if n.Elem.fixed {
			for i := 0; i < cnt; i++ {
				out = n.Elem.append(out, v.Index(i))
			}
			return out
		}
		base := len(out)
		out = append(out, make([]byte, 4*cnt)...)
		for i := 0; i < cnt; i++ {
			binary.LittleEndian.PutUint32(out[base+4*i:], uint32(len(out)-base))
			out = n.Elem.append(out, v.Index(i))
		}
		return out
	case KContainer:
		base := len(out)
		out = append(out, make([]byte, n.fixedLen)...)
		pos := base
		for _, f := range n.Fields {
			fv := Sub(v, f.Index)
			if f.Node.fixed {
				f.Node.append(out[pos:pos], fv)
				pos += int(f.Node.fixedLen)
			} else {
				binary.LittleEndian.PutUint32(out[pos:], uint32(len(out)-base))
				pos += 4
				out = f.Node.append(out, fv)
			}
		}
		return out
	}
	panic("bad kind")
}

// BitLen is the number of bits of a raw bitlist (position of its highest set bit), -1 if none.
func BitLen(b []byte) int {
	if len(b) == 0 || b[len(b)-1] == 0 {
		return -1
	}
	l := len(b)*8 - 1
	for x := b[len(b)-1]; x&0x80 == 0; x <<= 1 {
		l--
	}
	return l
}

var errLen = errors.New("wrong length")

// Decode accepts exactly the canonical encodings of valid values and stores the value in v,
// which must be settable; fresh values are allocated throughout.
func (n *Node) Decode(b []byte, v reflect.Value) error {
	if n.inner != nil {
		b, err := n.Twist.Undo(b)
		if err != nil {
			return err
		}
		return n.inner.Decode(b, v)
	}
	switch n.K {
	case KBool:
		if len(b) != 1 {
			return errLen
		}
		if b[0] > 1 {
			return errors.New("bool")
		}
		v.SetBool(b[0] == 1)
		return nil
	case KUint:
		if len(b) != n.Size {
			return errLen
		}
		x := uint64(0)
		for i := 0; i < n.Size; i++ {
			x |= uint64(b[i]) << (8 * i)
		}
		v.SetUint(x)
		return nil
	case KPtr:
		p := reflect.New(n.T.Elem())
		if err := n.Elem.Decode(b, p.Elem()); err != nil {
			return err
		}
		v.Set(p.Convert(n.T))
		return nil
	case KBitvector:
		if uint64(len(b)) != n.fixedLen {
			return errLen
		}
		for i := n.N; i < n.fixedLen*8; i++ {
			if b[i/8]>>(i%8)&1 != 0 {
				return errors.New("bitvector padding")
			}
		}
		if v.Len() > 0 {
			copy(v.Slice(0, v.Len()).Bytes(), b)
		}
		return nil
	case KBitlist:
		l := BitLen(b)
		if l < 0 {
			return errors.New("bitlist delimiter")
		}
		if uint64(l) > n.Limit {
			return errors.New("bitlist limit")
		}
		setBytes(v, b)
		return nil
	case KVector, KList:
		if n.IsBytes() {
			if n.K == KVector {
				if uint64(len(b)) != n.N {
					return errLen
				}
				if v.Len() > 0 {
					copy(v.Slice(0, v.Len()).Bytes(), b)
				}
				return nil
			}
			if uint64(len(b)) > n.Limit {
				return errors.New("limit")
			}
			setBytes(v, b)
			return nil
		}
		var parts [][]byte
		if n.Elem.fixed {
			es := int(n.Elem.fixedLen)
			if n.K == KVector {
				if uint64(len(b)) != n.fixedLen {
					return errLen
				}
				for i := 0; i < int(n.N); i++ {
					parts = append(parts, b[i*es:(i+1)*es])
				}
			} else {
				if es == 0 {
					return errors.New("zero-size elements")
				}
				if len(b)%es != 0 {
					return errLen
				}
				if uint64(len(b)/es) > n.Limit {
					return errors.New("limit")
				}
				for i := 0; i < len(b); i += es {
					parts = append(parts, b[i:i+es])
				}
			}
		} else {
			cnt := -1
			if n.K == KVector {
				cnt = int(n.N)
			}
			var err error
			parts, err = split(b, cnt, n.Limit)
			if err != nil {
				return err
			}
		}
		if n.K == KList {
			if len(parts) == 0 {
				v.Set(reflect.Zero(n.T))
				return nil
			}
			v.Set(reflect.MakeSlice(n.T, len(parts), len(parts)))
		}
		for i, p := range parts {
			if err := n.Elem.Decode(p, v.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case KContainer:
		if uint64(len(b)) < n.fixedLen {
			return errLen
		}
		if n.fixed && uint64(len(b)) != n.fixedLen {
			return errLen
		}
		pos := 0
		next := n.fixedLen // where the next variable part has to start
		var offs []uint64
		for _, f := range n.Fields {
			if f.Node.fixed {
				l := int(f.Node.fixedLen)
				if err := f.Node.Decode(b[pos:pos+l], Sub(v, f.Index)); err != nil {
					return err
				}
				pos += l
			} else {
				offs = append(offs, uint64(binary.LittleEndian.Uint32(b[pos:])))
				pos += 4
			}
		}
		if len(offs) > 0 && offs[0] != next {
			return fmt.Errorf("first offset %d, want %d", offs[0], next)
		}
		k := 0
		for _, f := range n.Fields {
			if f.Node.fixed {
				continue
			}
			start, end := offs[k], uint64(len(b))
			if k+1 < len(offs) {
				end = offs[k+1]
			}
			if start > end || end > uint64(len(b)) {
				return errors.New("offset order")
			}
			if err := f.Node.Decode(b[start:end], Sub(v, f.Index)); err != nil {
				return err
			}
			k++
		}
		return nil
	}
	panic("bad kind")
}

func setBytes(v reflect.Value, b []byte) {
	if len(b) == 0 {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	s := reflect.MakeSlice(v.Type(), len(b), len(b))
	copy(s.Bytes(), b)
	v.Set(s)
}

// split cuts a series of variable-size parts at its offsets; cnt -1 means derive the count.
func split(b []byte, cnt int, limit uint64) ([][]byte, error) {
	if cnt < 0 {
		if len(b) == 0 {
			return nil, nil
		}
		if len(b) < 4 {
			return nil, errLen
		}
		first := binary.LittleEndian.Uint32(b)
		if first == 0 || first%4 != 0 {
			return nil, errors.New("first offset")
		}
		if uint64(first/4) > limit {
			return nil, errors.New("limit")
		}
		cnt = int(first / 4)
	} else if cnt == 0 {
		if len(b) != 0 {
			return nil, errLen
		}
		return nil, nil
	}
	if len(b)/4 < cnt {
		return nil, errLen
	}
	parts := make([][]byte, 0, cnt)
	if uint64(binary.LittleEndian.Uint32(b)) != 4*uint64(cnt) {
		return nil, errors.New("first offset")
	}
	for i := 0; i < cnt; i++ {
		s := uint64(binary.LittleEndian.Uint32(b[4*i:]))
		e := uint64(len(b))
		if i+1 < cnt {
			e = uint64(binary.LittleEndian.Uint32(b[4*i+4:]))
		}
		if s > e || e > uint64(len(b)) {
			return nil, errors.New("offset order")
		}
		parts = append(parts, b[s:e])
	}
	return parts, nil
}

// Equal compares two values by their SSZ meaning.
func (n *Node) Equal(a, b reflect.Value) bool {
	switch n.K {
	case KBool:
		return a.Bool() == b.Bool()
	case KUint:
		return a.Uint() == b.Uint()
	case KPtr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return n.Elem.Equal(a.Elem(), b.Elem())
	case KBitvector, KBitlist:
		return string(byteView(a)) == string(byteView(b))
	case KVector, KList:
		if a.Len() != b.Len() {
			return false
		}
		if n.IsBytes() {
			return string(byteView(a)) == string(byteView(b))
		}
		for i := 0; i < a.Len(); i++ {
			if !n.Elem.Equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case KContainer:
		for _, f := range n.Fields {
			if !f.Node.Equal(Sub(a, f.Index), Sub(b, f.Index)) {
				return false
			}
		}
		return true
	}
	panic("bad kind")
}

// Copy makes a deep copy of the SSZ contents of src into dst (settable); omitted fields are not copied.
func (n *Node) Copy(dst, src reflect.Value) {
	switch n.K {
	case KPtr:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		p := reflect.New(dst.Type().Elem())
		n.Elem.Copy(p.Elem(), src.Elem())
		dst.Set(p.Convert(dst.Type()))
	case KVector, KList:
		if n.K == KList {
			if src.IsNil() {
				dst.Set(reflect.Zero(dst.Type()))
				return
			}
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		}
		if n.Elem.IsBasic() {
			reflect.Copy(dst, src)
			return
		}
		for i := 0; i < src.Len(); i++ {
			n.Elem.Copy(dst.Index(i), src.Index(i))
		}
	case KBitlist:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		reflect.Copy(dst, src)
	case KContainer:
		for _, f := range n.Fields {
			f.Node.Copy(Sub(dst, f.Index), Sub(src, f.Index))
		}
	default:
		dst.Set(src)
	}
}

// Valid tells whether the value is a valid SSZ value of the type: limits, bitfields, no nil pointers.
func (n *Node) Valid(v reflect.Value) error {
	switch n.K {
	case KPtr:
		if v.IsNil() {
			return errors.New("nil pointer")
		}
		return n.Elem.Valid(v.Elem())
	case KBitlist:
		l := BitLen(byteView(v))
		if l < 0 {
			return errors.New("bitlist without delimiter")
		}
		if uint64(l) > n.Limit {
			return fmt.Errorf("bitlist of %d bits over limit %d", l, n.Limit)
		}
	case KBitvector:
		b := byteView(v)
		for i := n.N; i < n.fixedLen*8; i++ {
			if b[i/8]>>(i%8)&1 != 0 {
				return errors.New("bitvector padding")
			}
		}
	case KVector, KList:
		if n.K == KList && uint64(v.Len()) > n.Limit {
			return fmt.Errorf("list of %d over limit %d", v.Len(), n.Limit)
		}
		if n.Elem.IsBasic() {
			return nil
		}
		for i := 0; i < v.Len(); i++ {
			if err := n.Elem.Valid(v.Index(i)); err != nil {
				return err
			}
		}
	case KContainer:
		for _, f := range n.Fields {
			if err := f.Node.Valid(Sub(v, f.Index)); err != nil {
				return fmt.Errorf("%s: %w", f.Name, err)
			}
		}
	}
	return nil
}
