// Package sut wraps the library under test: every call recovers panics and reports them as data.
package sut

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"verif/harness/spy"
)

// Panic is a panic that came out of the library.
type Panic struct {
	Val   any
	Stack string
}

func (p *Panic) String() string {
	if p == nil {
		return "no panic"
	}
	return fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack)
}

func guard(p **Panic) {
	if x := recover(); x != nil {
		st := string(debug.Stack())
		if i := strings.Index(st, "panic("); i >= 0 {
			st = st[i:]
		}
		if len(st) > 1500 {
			st = st[:1500]
		}
		*p = &Panic{x, st}
	}
}

type Def struct {
	T reflect.Type
	S types.SSZ
}

var defs sync.Map

type defRes struct {
	d   *Def
	err error
	p   *Panic
}

// Get constructs (once) the definition of a type with the default factory.
func Get(t reflect.Type) (*Def, error, *Panic) {
	if x, ok := defs.Load(t); ok {
		r := x.(*defRes)
		return r.d, r.err, r.p
	}
	s, err, p := New(t)
	r := &defRes{err: err, p: p}
	if s != nil {
		r.d = &Def{t, s}
	}
	x, _ := defs.LoadOrStore(t, r)
	r = x.(*defRes)
	return r.d, r.err, r.p
}

// New constructs a fresh definition.
func New(t reflect.Type) (s types.SSZ, err error, p *Panic) {
	defer guard(&p)
	s, err = types.SSZFactory(t)
	if err != nil {
		s = nil
	}
	return
}

func NewWith(f types.SSZFactoryFn, t reflect.Type) (s types.SSZ, err error, p *Panic) {
	defer guard(&p)
	s, err = f(t)
	if err != nil {
		s = nil
	}
	return
}

func Do(f func()) (p *Panic) {
	defer guard(&p)
	f()
	return
}

func EncodeTo(w io.Writer, val any, s types.SSZ) (n int, err error, p *Panic) {
	defer guard(&p)
	n, err = zssz.Encode(w, val, s)
	return
}

// Encode collects the output.
func Encode(val any, s types.SSZ) (out []byte, n int, err error, p *Panic) {
	var b bytes.Buffer
	n, err, p = EncodeTo(&b, val, s)
	return b.Bytes(), n, err, p
}

func DecodeFrom(r io.Reader, l uint64, val any, s types.SSZ) (err error, p *Panic) {
	defer guard(&p)
	err = zssz.Decode(r, l, val, s)
	return
}

func Decode(b []byte, val any, s types.SSZ) (err error, p *Panic) {
	return DecodeFrom(bytes.NewReader(b), uint64(len(b)), val, s)
}

func DryFrom(r io.Reader, l uint64, s types.SSZ) (err error, p *Panic) {
	defer guard(&p)
	err = zssz.DryCheck(r, l, s)
	return
}

func Dry(b []byte, s types.SSZ) (err error, p *Panic) {
	return DryFrom(bytes.NewReader(b), uint64(len(b)), s)
}

func FuzzFrom(r io.Reader, l uint64, val any, s types.SSZ) (n uint64, err error, p *Panic) {
	defer guard(&p)
	n, err = zssz.DecodeFuzzBytes(r, l, val, s)
	return
}

func SizeOf(val any, s types.SSZ) (n uint64, p *Panic) {
	defer guard(&p)
	n = zssz.SizeOf(val, s)
	return
}

func Root(h htr.MerkleFn, val any, s types.SSZ) (r [32]byte, p *Panic) {
	defer guard(&p)
	r = zssz.HashTreeRoot(h, val, s)
	return
}

func SigningRoot(h htr.MerkleFn, val any, s types.SignedSSZ) (r [32]byte, p *Panic) {
	defer guard(&p)
	r = zssz.SigningRoot(h, val, s)
	return
}

func Pretty(indent string, val any, s types.SSZ) (out string, p *Panic) {
	var b bytes.Buffer
	p = PrettyTo(&b, indent, val, s)
	return b.String(), p
}

func PrettyTo(w io.Writer, indent string, val any, s types.SSZ) (p *Panic) {
	defer guard(&p)
	zssz.Pretty(w, indent, val, s)
	return
}

// Lens are the length bounds a definition reports.
type Lens struct {
	Min, Max, Fixed  uint64
	IsFixed          bool
	FuzzMin, FuzzMax uint64
}

func LensOf(s types.SSZ) (l Lens, p *Panic) {
	defer guard(&p)
	l = Lens{s.MinLen(), s.MaxLen(), s.FixedLen(), s.IsFixed(), s.FuzzMinLen(), s.FuzzMaxLen()}
	return
}

// EncodeTo2 encodes through a spy writer and returns what it collected.
func EncodeTo2(w *spy.Writer, val any, s types.SSZ) (out []byte, n int, err error, p *Panic) {
	n, err, p = EncodeTo(w, val, s)
	return w.Buf, n, err, p
}
