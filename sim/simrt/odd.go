package simrt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
)

type timeoutError struct{ s string }

func (e *timeoutError) Error() string   { return e.s }
func (e *timeoutError) Timeout() bool   { return true }
func (e *timeoutError) Temporary() bool { return true }

var wellKnown = []error{
	context.DeadlineExceeded, context.Canceled, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe,
	fs.ErrNotExist, fs.ErrExist, fs.SkipDir, fs.SkipAll, os.ErrDeadlineExceeded, os.ErrClosed,
	syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, syscall.ENOSPC, errors.ErrUnsupported,
}

// OddErrors is the number of kinds of errors there are.
const OddErrors = 40

// OddError returns an error with the text that is of one of the kinds code may be tempted to treat
// in a way of their own.
func OddError(kind int, text string) error {
	kind %= OddErrors
	switch {
	case kind <= 0:
		return errors.New(text)
	case kind <= len(wellKnown):
		return fmt.Errorf("%s: %w", text, wellKnown[kind-1])
	case kind <= len(wellKnown)+2:
		return &timeoutError{text}
	case kind <= len(wellKnown)+4:
		return errors.Join(errors.New(text), io.EOF)
	}
	return errors.New(text)
}

// BareError returns an error of such a kind itself, without a text of its own.
func BareError(kind int) error { return wellKnown[kind%len(wellKnown)] }

// Shuffle puts the elements in some order.
func Shuffle[T any](r *Rand, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
