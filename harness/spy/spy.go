// Package spy has readers and writers that behave in every way the io contracts allow,
// inject faults, and record what was asked of them.
package spy

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
)

var ErrInjected = errors.New("injected fault")

// ErrRunaway is what a reader panics with when it is read far too often.
type ErrRunaway struct{ N int }

func (e ErrRunaway) Error() string { return fmt.Sprintf("source read %d times", e.N) }

// Reader delivers Data in a given style.
type Reader struct {
	Data  []byte
	Pos   int
	R     *rand.Rand
	Max   int  // largest chunk, 0: as much as asked for
	Empty bool // deliver empty reads in between
	Early bool // report the end (or the failure) together with the last bytes
	Err   error
	// After is delivered if somebody reads on after the failure.
	After   []byte
	Runaway int
	GC      bool // collect garbage now and then
	Yield   bool

	Calls      int
	MaxAsked   int
	failed     bool
	TakenAfter int
	CallsAfter int
	empties    int
}

func (r *Reader) end() error {
	r.failed = true
	if r.Err != nil {
		return r.Err
	}
	return io.EOF
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Calls++
	if r.Runaway > 0 && r.Calls > r.Runaway {
		panic(ErrRunaway{r.Calls})
	}
	if r.GC && r.R.IntN(4) == 0 {
		runtime.GC()
	}
	if r.Yield && r.R.IntN(3) == 0 {
		runtime.Gosched()
	}
	if len(p) > r.MaxAsked {
		r.MaxAsked = len(p)
	}
	if r.failed {
		r.CallsAfter++
		if len(r.After) > 0 {
			n := copy(p, r.After)
			r.TakenAfter += n
			r.After = r.After[n:]
			return n, nil
		}
		return 0, r.end()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.Empty && r.empties < 3 && r.R.IntN(3) == 0 {
		r.empties++
		return 0, nil
	}
	r.empties = 0
	left := len(r.Data) - r.Pos
	if left == 0 {
		return 0, r.end()
	}
	n := min(len(p), left)
	if r.Max > 0 {
		n = min(n, 1+r.R.IntN(r.Max))
	}
	copy(p, r.Data[r.Pos:r.Pos+n])
	r.Pos += n
	if r.Early && n == left {
		return n, r.end()
	}
	return n, nil
}

// Seekable is a Reader that can also seek.
type Seekable struct {
	Reader
	Seeks int
}

func (s *Seekable) Seek(off int64, whence int) (int64, error) {
	s.Seeks++
	var base int64
	switch whence {
	case io.SeekCurrent:
		base = int64(s.Pos)
	case io.SeekEnd:
		base = int64(len(s.Data))
	}
	base += off
	if base < 0 {
		return 0, errors.New("seek before the start")
	}
	s.Pos = int(min(base, int64(len(s.Data))))
	return base, nil
}

// Writer accepts Limit bytes and then fails.
type Writer struct {
	Limit int // -1: never fails
	// Style of the failure: 0 accept what fits and fail, 1 accept nothing of the failing
	// write, 2 accept the whole failing write and fail nevertheless
	Style      int
	Err        error
	After      bool // works again after the failure
	Buf        []byte
	Calls      int
	failed     bool
	CallsAfter int
	BytesAfter int
	R          *rand.Rand
	Yield      bool
	GC         bool
}

func (w *Writer) Write(p []byte) (int, error) {
	w.Calls++
	if w.Yield && w.R.IntN(3) == 0 {
		runtime.Gosched()
	}
	if w.GC && w.R.IntN(4) == 0 {
		runtime.GC()
	}
	if w.failed {
		w.CallsAfter++
		w.BytesAfter += len(p)
		if w.After {
			return len(p), nil
		}
		return 0, w.Err
	}
	if w.Limit < 0 || len(w.Buf)+len(p) <= w.Limit {
		w.Buf = append(w.Buf, p...)
		return len(p), nil
	}
	w.failed = true
	n := 0
	switch w.Style {
	case 0:
		n = w.Limit - len(w.Buf)
	case 2:
		n = len(p)
	}
	w.Buf = append(w.Buf, p[:n]...)
	return n, w.Err
}

func (w *Writer) Failed() bool { return w.failed }
