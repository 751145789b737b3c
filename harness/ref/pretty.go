package ref

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"
)

// Tokens splits pretty-printed text into its meaningful parts: layout (white space, commas,
// colons) is dropped, brackets and words are kept.
func Tokens(s string) []string {
	var out []string
	cur := strings.Builder{}
	flush := func() {
		if cur.Len() > 0 {
			out = append(out, cur.String())
			cur.Reset()
		}
	}
	for _, r := range s {
		switch {
		case unicode.IsSpace(r) || r == ',' || r == ':':
			flush()
		case strings.ContainsRune("[]{}", r):
			flush()
			out = append(out, string(r))
		default:
			cur.WriteRune(r)
		}
	}
	flush()
	return out
}

// SameToken compares a printed part with the expected one. A field that comes out of squashed
// structs may be printed with their names in front or without.
func SameToken(got, want string) bool {
	return got == want || (got != "" && strings.HasSuffix(want, ">"+got))
}

// PrettyTokens is the expected token sequence.
func (n *Node) PrettyTokens(v reflect.Value) []string {
	var out []string
	n.pretty(v, &out)
	return out
}

func (n *Node) pretty(v reflect.Value, out *[]string) {
	add := func(s ...string) { *out = append(*out, s...) }
	switch n.K {
	case KBool:
		if v.Bool() {
			add("True")
		} else {
			add("False")
		}
	case KUint:
		x := v.Uint()
		switch {
		case n.Size == 1:
			add(fmt.Sprintf("0x%02x", x))
		case x == ^uint64(0)>>(64-8*n.Size):
			add(fmt.Sprintf("0x%X", x))
		default:
			add(fmt.Sprint(x))
		}
	case KPtr:
		if v.IsNil() {
			add("null")
		} else {
			n.Elem.pretty(v.Elem(), out)
		}
	case KBitvector, KBitlist:
		add("[")
		for _, b := range byteView(v) {
			add(fmt.Sprintf("%08b", b))
		}
		add("]")
	case KVector, KList:
		if n.IsBytes() {
			add(fmt.Sprintf("0x%x", byteView(v)))
			return
		}
		add("[")
		for i := 0; i < v.Len(); i++ {
			n.Elem.pretty(v.Index(i), out)
		}
		add("]")
	case KContainer:
		add("{")
		for _, f := range n.Fields {
			add(f.Path)
			f.Node.pretty(Sub(v, f.Index), out)
		}
		add("}")
	}
}
