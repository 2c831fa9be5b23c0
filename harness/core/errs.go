package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"reflect"
	"syscall"

	"pgregory.net/rapid"
)

// ErrList is an error that cannot be compared with ==.
type ErrList []string

func (e ErrList) Error() string { return fmt.Sprint([]string(e)) }

func (e ErrList) Is(target error) bool {
	_, ok := target.(ErrList)
	return ok
}

// errs are errors that mean something to somebody; io.EOF comes last.
var errs = []error{
	io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, io.ErrShortBuffer,
	fs.ErrClosed, fs.ErrNotExist, net.ErrClosed, os.ErrDeadlineExceeded,
	syscall.EPIPE, syscall.ECONNRESET, syscall.ESPIPE, syscall.EINVAL, syscall.EINTR, syscall.EAGAIN, fs.ErrPermission,
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	context.Canceled, context.DeadlineExceeded,
	http.ErrBodyNotAllowed, http.ErrContentLength, http.ErrHandlerTimeout, http.ErrAbortHandler,
	http.ErrBodyReadAfterClose, http.ErrHijacked, http.ErrServerClosed, http.ErrMissingFile, errors.ErrUnsupported,
	http.ErrSkipAltProtocol, http.ErrUseLastResponse, http.ErrNotMultipart, http.ErrLineTooLong, http.ErrSchemeMismatch, http.ErrNoLocation,
	fmt.Errorf("wrapping: %w", io.EOF), fmt.Errorf("wrapping: %w", context.Canceled),
	ErrList{"not", "comparable"},
	io.EOF,
}

// Err is the i-th error somebody may fail with: def for 0.
func Err(i int, def error) error {
	if i <= 0 || i > len(errs) {
		return def
	}
	return errs[i-1]
}

// GenErr draws the number of an error; eof tells whether it may be io.EOF.
func GenErr(t *rapid.T, eof bool) int {
	if Chance(t, 2) {
		return 0
	}
	n := len(errs)
	if !eof {
		n--
	}
	return 1 + Uniform(t, n)
}

// SameErr compares errors, including those that cannot be compared with ==.
func SameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}
