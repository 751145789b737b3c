package spy

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
)

// Rich is a Reader with the optional methods sources tend to have as well, all of which take from
// the same bytes and fail at the same point.
type Rich struct {
	Reader
	Optional int // calls of the optional methods
}

func (r *Rich) ReadByte() (byte, error) {
	r.Optional++
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n == 1 {
			// the failure, if it came along, is reported by the next call
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (r *Rich) UnreadByte() error {
	r.Optional++
	if r.Pos == 0 || r.failed {
		return errors.New("nothing to unread")
	}
	r.Pos--
	return nil
}

func (r *Rich) WriteTo(w io.Writer) (int64, error) {
	r.Optional++
	var sum int64
	b := make([]byte, 16)
	for {
		n, err := r.Read(b)
		m, werr := w.Write(b[:n])
		sum += int64(m)
		if werr != nil {
			return sum, werr
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

func (r *Rich) Discard(n int) (int, error) {
	r.Optional++
	b := make([]byte, 16)
	sum := 0
	for sum < n {
		m, err := r.Read(b[:min(16, n-sum)])
		sum += m
		if err != nil && sum < n {
			return sum, err
		}
	}
	return sum, nil
}

func (r *Rich) Close() error { return nil }

// RichWriter is a Writer with the optional methods.
type RichWriter struct {
	Writer
	Optional int
}

func (w *RichWriter) WriteByte(b byte) error {
	w.Optional++
	if s := w.Style; s == 2 { // there is no way to say that it was taken nevertheless
		w.Style = 1
		defer func() { w.Style = s }()
	}
	_, err := w.Write([]byte{b})
	return err
}

func (w *RichWriter) WriteString(s string) (int, error) {
	w.Optional++
	return w.Write([]byte(s))
}

func (w *RichWriter) ReadFrom(r io.Reader) (int64, error) {
	w.Optional++
	var sum int64
	b := make([]byte, 16)
	for {
		n, err := r.Read(b)
		if n > 0 {
			m, werr := w.Write(b[:n])
			sum += int64(m)
			if werr != nil {
				return sum, werr
			}
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

func (w *RichWriter) Close() error { return nil }
func (w *RichWriter) Flush() error { return nil }
func (w *RichWriter) Sync() error  { return nil }

type soft struct{ temporary, timeout bool }

func (e soft) Error() string   { return "not now" }
func (e soft) Temporary() bool { return e.temporary }
func (e soft) Timeout() bool   { return e.timeout }

// no two of these can be compared
type loose struct{ where []int }

func (e loose) Error() string { return "device failure" }

type empty struct{}

func (*empty) Error() string { return "" }

// Errors are the failures sources and writers report, io.EOF excepted.
func Errors(write bool) []error {
	out := []error{
		ErrInjected,
		io.ErrUnexpectedEOF,
		io.ErrNoProgress,
		io.ErrClosedPipe,
		io.ErrShortWrite,
		io.ErrShortBuffer,
		os.ErrDeadlineExceeded,
		os.ErrClosed,
		os.ErrInvalid,
		context.Canceled,
		context.DeadlineExceeded,
		syscall.EINTR,
		syscall.EAGAIN,
		syscall.EIO,
		syscall.ENOSPC,
		syscall.EPIPE,
		&os.PathError{Op: "read", Path: "x", Err: syscall.EINTR},
		&os.SyscallError{Syscall: "read", Err: syscall.EAGAIN},
		soft{true, false},
		soft{false, true},
		soft{true, true},
		&empty{},
		errors.Join(ErrInjected, io.ErrUnexpectedEOF),
		fmt.Errorf("wrapped: %w", syscall.EINTR),
		loose{[]int{1}},
	}
	if write {
		out = append(out, io.EOF, fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", io.ErrShortWrite))
	}
	return out
}

// Same tells whether err is, or wraps, the injected one.
func Same(err, injected error) bool {
	if l, ok := injected.(loose); ok {
		var g loose
		return errors.As(err, &g) && len(g.where) == len(l.where)
	}
	return errors.Is(err, injected)
}
