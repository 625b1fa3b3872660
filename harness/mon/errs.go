package mon

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"syscall"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
)

// NetError looks like an error of package net.
type NetError struct {
	Op    string
	T, Tm bool
}

func (e *NetError) Error() string   { return e.Op + ": connection reset" }
func (e *NetError) Timeout() bool   { return e.T }
func (e *NetError) Temporary() bool { return e.Tm }

// CodeError is an error that is no pointer.
type CodeError int

func (e CodeError) Error() string { return fmt.Sprintf("code %d", int(e)) }

// ListError cannot be compared with ==.
type ListError struct{ L []int }

func (e ListError) Error() string { return fmt.Sprintf("list %v", e.L) }

// EOFLike claims to be io.EOF.
type EOFLike struct{ Op string }

func (e *EOFLike) Error() string        { return e.Op + ": end" }
func (e *EOFLike) Is(target error) bool { return target == io.EOF }

var serial int

// RandErr gives an error to inject. Every one can be told from all others.
func RandErr(r *core.Rand) error {
	serial++
	op := fmt.Sprint("fault ", serial)
	switch r.Intn(26) {
	case 0:
		return ErrStream
	case 1:
		return &NetError{op, true, false}
	case 2:
		return &NetError{op, false, true}
	case 3:
		return &NetError{op, true, true}
	case 4:
		return CodeError(serial)
	case 5:
		return io.ErrClosedPipe
	case 6:
		return fmt.Errorf("%s: %w", op, ErrStream)
	case 7:
		return errors.Join(ErrStream, io.ErrNoProgress)
	case 8:
		return io.ErrShortBuffer
	case 9:
		return os.ErrDeadlineExceeded
	case 10:
		return context.Canceled
	case 11:
		return context.DeadlineExceeded
	case 12:
		return bufio.ErrBufferFull
	case 13:
		return bufio.ErrNegativeCount
	case 14:
		return &thrift.SemanticError{Err: errors.New(op)}
	case 15:
		return fmt.Errorf("%s: %w", op, &thrift.SemanticError{})
	case 16:
		return ListError{[]int{serial}}
	case 17:
		return syscall.EINTR
	case 18:
		return syscall.EAGAIN
	case 19:
		return &net.OpError{Op: op, Net: "tcp", Err: syscall.ECONNRESET}
	case 20:
		return fmt.Errorf("%s: %w", op, io.EOF)
	case 21:
		return &EOFLike{op}
	case 22:
		return thriftwire.InvalidTypeError(byte(serial))
	case 23:
		return fmt.Errorf("%s: %w", op, io.ErrUnexpectedEOF)
	case 24:
		return &os.PathError{Op: op, Path: "p", Err: syscall.ENOSPC}
	}
	return errors.New(op)
}

// IsErr reports whether err is or wraps e, also if e cannot be compared.
func IsErr(err, e error) bool {
	if reflect.TypeOf(e).Comparable() {
		return errors.Is(err, e)
	}
	var l, want ListError
	return errors.As(err, &l) && errors.As(e, &want) && l.L[0] == want.L[0]
}
