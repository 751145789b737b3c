package main

import (
	"bufio"
	"bytes"
	"compress/flate"
	"io"
	"net"
	"os"
	"strings"
	"testing/iotest"

	"verif/harness/mon"
)

// Sources as programs have them: the readers of the standard library themselves, not wrapped in
// anything, some over memory, some over the operating system, some over another source.

type source struct {
	name  string
	rd    io.Reader
	close func()
}

// A source that fails is not to be peeked into: the reader in between would have told of the failure by then.
func wrapped(c *mon.Case, src io.Reader, peek bool) source {
	none := func() {}
	switch c.R.IntN(10) {
	case 0:
		return source{"bufio.Reader of 16", bufio.NewReaderSize(src, 16), none}
	case 1:
		return source{"bufio.Reader", bufio.NewReader(src), none}
	case 2:
		b := bufio.NewReaderSize(src, 16+c.R.IntN(300))
		if peek {
			b.Peek(c.R.IntN(17))
		}
		return source{"bufio.Reader with something buffered", b, none}
	case 3:
		return source{"bufio.ReadWriter", bufio.NewReadWriter(bufio.NewReader(src), bufio.NewWriter(io.Discard)), none}
	case 4:
		return source{"io.TeeReader", io.TeeReader(src, io.Discard), none}
	case 5:
		return source{"io.LimitedReader", &io.LimitedReader{R: src, N: 1 << 62}, none}
	case 6:
		return source{"io.MultiReader", io.MultiReader(strings.NewReader(""), src, bytes.NewReader(nil)), none}
	case 7:
		return source{"io.NopCloser", io.NopCloser(src), none}
	case 8:
		return source{"iotest.HalfReader", iotest.HalfReader(src), none}
	default:
		return source{"iotest.OneByteReader", iotest.OneByteReader(src), none}
	}
}

func concrete(c *mon.Case, src []byte) source {
	none := func() {}
	x := c.R.IntN(11)
	if slow {
		x %= 5
	}
	switch x {
	case 0:
		return source{"bytes.Reader", bytes.NewReader(src), none}
	case 1:
		return source{"strings.Reader", strings.NewReader(string(src)), none}
	case 2:
		return source{"bytes.Buffer", bytes.NewBuffer(append([]byte(nil), src...)), none}
	case 3:
		pad := 1 + c.R.IntN(9)
		b := append(append(make([]byte, pad), src...), make([]byte, pad)...)
		return source{"io.SectionReader", io.NewSectionReader(bytes.NewReader(b), int64(pad), int64(len(src))), none}
	case 4:
		pad := 1 + c.R.IntN(9)
		return source{"io.LimitedReader at its end", &io.LimitedReader{R: bytes.NewReader(append(append([]byte(nil), src...), make([]byte, pad)...)), N: int64(len(src))}, none}
	case 5, 6:
		f, err := os.CreateTemp("", "c18-")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		pad := c.R.IntN(9)
		f.Write(make([]byte, pad))
		f.Write(src)
		f.Seek(int64(pad), io.SeekStart)
		return source{"os.File", f, func() { f.Close() }}
	case 7:
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go feed(w, src)
		return source{"os.Pipe", r, func() { r.Close() }}
	case 8:
		r, w := io.Pipe()
		go feed(w, src)
		return source{"io.PipeReader", r, func() { r.Close() }}
	case 9:
		a, b := net.Pipe()
		go feed(b, src)
		return source{"net.Conn", a, func() { a.Close() }}
	default:
		var b bytes.Buffer
		w, _ := flate.NewWriter(&b, 1)
		w.Write(src)
		w.Close()
		return source{"flate.Reader", flate.NewReader(&b), none}
	}
}

func feed(w io.WriteCloser, src []byte) {
	defer w.Close()
	for i := 0; len(src) > 0; i++ {
		n := min(len(src), 1+len(src)/3)
		if _, err := w.Write(src[:n]); err != nil {
			return
		}
		src = src[n:]
	}
}

// target is a writer as programs have it; got gives everything that arrived in it.
type target struct {
	name string
	w    io.Writer
	got  func() ([]byte, error)
}

// a target that already holds some bytes
func newTarget(c *mon.Case, before []byte) target {
	x := c.R.IntN(12)
	if slow {
		x %= 6
	}
	drain := func(name string, r io.ReadCloser, w io.WriteCloser) target {
		done := make(chan []byte)
		go func() {
			b, _ := io.ReadAll(r)
			done <- b
		}()
		w.Write(before)
		return target{name, w, func() ([]byte, error) { err := w.Close(); b := <-done; r.Close(); return b, err }}
	}
	switch x {
	case 0, 1:
		b := bytes.NewBuffer(make([]byte, 0, len(before)+c.R.IntN(300)))
		b.Write(before)
		if len(before) > 0 && c.R.IntN(2) == 0 { // partly read already
			var one [1]byte
			b.Read(one[:])
			return target{"bytes.Buffer, partly read", b, func() ([]byte, error) { return append(one[:], b.Bytes()...), nil }}
		}
		return target{"bytes.Buffer", b, func() ([]byte, error) { return b.Bytes(), nil }}
	case 2:
		var b strings.Builder
		b.Write(before)
		return target{"strings.Builder", &b, func() ([]byte, error) { return []byte(b.String()), nil }}
	case 3:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, []int{1, 7, 16, 33, 4096}[c.R.IntN(5)])
		w.Write(before)
		return target{"bufio.Writer", w, func() ([]byte, error) { err := w.Flush(); return b.Bytes(), err }}
	case 4:
		var a, b bytes.Buffer
		w := io.MultiWriter(&a, &b)
		w.Write(before)
		return target{"io.MultiWriter", w, func() ([]byte, error) {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return nil, io.ErrShortWrite
			}
			return b.Bytes(), nil
		}}
	case 5:
		var b bytes.Buffer
		rw := bufio.NewReadWriter(bufio.NewReader(strings.NewReader("not this")), bufio.NewWriterSize(&b, 20))
		rw.Write(before)
		return target{"bufio.ReadWriter", rw, func() ([]byte, error) { err := rw.Flush(); return b.Bytes(), err }}
	case 6, 7:
		f, err := os.CreateTemp("", "c20-")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		f.Write(before)
		return target{"os.File", f, func() ([]byte, error) {
			defer f.Close()
			if _, err := f.Seek(0, io.SeekStart); err != nil {
				return nil, err
			}
			return io.ReadAll(f)
		}}
	case 8:
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		return drain("os.Pipe", r, w)
	case 9:
		r, w := io.Pipe()
		return drain("io.PipeWriter", r, w)
	case 10:
		a, b := net.Pipe()
		return drain("net.Conn", a, b)
	default:
		var b bytes.Buffer
		w, _ := flate.NewWriter(&b, 1)
		w.Write(before)
		return target{"flate.Writer", w, func() ([]byte, error) {
			if err := w.Close(); err != nil {
				return nil, err
			}
			return io.ReadAll(flate.NewReader(&b))
		}}
	}
}
