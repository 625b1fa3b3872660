package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// tagged is a conforming protocol of our own: every call becomes a record
// (one byte for the call, eight bytes per number, length-prefixed strings), and
// the reader insists on the records it expects.
type tagged struct {
	names   bool // transmit names
	framed  bool // hold a message back until Flush, with a length in front
	trailer bool // end messages with an extra record
	ahead   int  // the reader's buffer, 0 for none
	noUUID  bool

	leaveTrailer bool // broken: the reader leaves the trailer unread
	badReset     int  // broken: Reset loses the stream (1 reader, 2 writer)
}

type twriter struct {
	p   tagged
	w   io.Writer
	buf []byte
}

func (p tagged) NewWriter(w io.Writer) thriftwire.Writer { return &twriter{p: p, w: w} }
func (p tagged) NewReader(r io.Reader) thriftwire.Reader {
	t := &treader{p: p}
	t.attach(r)
	return t
}

func (w *twriter) Reset(u io.Writer) {
	w.w, w.buf = u, w.buf[:0]
	if w.p.badReset == 2 {
		w.w = io.Discard
	}
}

func (w *twriter) rec(op byte, xs ...any) error {
	w.buf = append(w.buf, op)
	for _, x := range xs {
		switch x := x.(type) {
		case string:
			w.buf = binary.BigEndian.AppendUint64(w.buf, uint64(len(x)))
			w.buf = append(w.buf, x...)
		case int64:
			w.buf = binary.BigEndian.AppendUint64(w.buf, uint64(x))
		}
	}
	if w.p.framed {
		return nil
	}
	return w.send()
}

func (w *twriter) send() error {
	_, err := w.w.Write(w.buf)
	w.buf = w.buf[:0]
	return err
}

func (w *twriter) name(s string) string {
	if w.p.names {
		return s
	}
	return ""
}

func (w *twriter) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return w.rec('M', w.name(h.Name), int64(h.Type), int64(h.ID))
}
func (w *twriter) WriteMessageEnd() error {
	if w.p.trailer {
		w.rec('T', int64(12345))
	}
	return w.rec('m')
}
func (w *twriter) WriteStructBegin(h thriftwire.StructHeader) error {
	return w.rec('S', w.name(h.Name))
}
func (w *twriter) WriteStructEnd() error { w.rec('0'); return w.rec('s') }
func (w *twriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return w.rec('F', w.name(h.Name), int64(h.Type), int64(h.ID))
}
func (w *twriter) WriteFieldEnd() error { return w.rec('f') }
func (w *twriter) WriteMapBegin(h thriftwire.MapHeader) error {
	return w.rec('P', int64(h.Key), int64(h.Value), int64(h.Size))
}
func (w *twriter) WriteMapEnd() error { return w.rec('p') }
func (w *twriter) WriteSetBegin(h thriftwire.SetHeader) error {
	return w.rec('E', int64(h.Element), int64(h.Size))
}
func (w *twriter) WriteSetEnd() error { return w.rec('e') }
func (w *twriter) WriteListBegin(h thriftwire.ListHeader) error {
	return w.rec('L', int64(h.Element), int64(h.Size))
}
func (w *twriter) WriteListEnd() error { return w.rec('l') }
func (w *twriter) WriteBool(v bool) error {
	if v {
		return w.rec('B', int64(1))
	}
	return w.rec('B', int64(0))
}
func (w *twriter) WriteByte(v byte) error      { return w.rec('1', int64(v)) }
func (w *twriter) WriteI16(v int16) error      { return w.rec('2', int64(v)) }
func (w *twriter) WriteI32(v int32) error      { return w.rec('4', int64(v)) }
func (w *twriter) WriteI64(v int64) error      { return w.rec('8', v) }
func (w *twriter) WriteDouble(v float64) error { return w.rec('D', int64(math.Float64bits(v))) }
func (w *twriter) WriteString(v string) error  { return w.rec('R', v) }
func (w *twriter) WriteBytes(v []byte) error   { return w.rec('R', string(v)) }
func (w *twriter) WriteUUID(v *[16]byte) error {
	if w.p.noUUID {
		return errors.New("no UUIDs")
	}
	return w.rec('U', string(v[:]))
}
func (w *twriter) Flush() error {
	if w.p.framed {
		b := append([]byte(nil), w.buf...)
		w.buf = binary.BigEndian.AppendUint64(w.buf[:0], uint64(len(b)))
		w.buf = append(w.buf, b...)
		if err := w.send(); err != nil {
			return err
		}
	}
	return thriftwire.Flush(w.w)
}

type treader struct {
	p    tagged
	r    io.Reader
	left uint64 // bytes left in the frame
}

func (t *treader) attach(r io.Reader) {
	t.left = 0
	t.r = r
	if t.p.ahead > 0 {
		t.r = bufio.NewReaderSize(r, t.p.ahead)
	}
}

func (t *treader) Reset(r io.Reader) {
	t.attach(r)
	if t.p.badReset == 1 {
		t.r = eofReader{}
	}
}

type eofReader struct{}

func (eofReader) Read([]byte) (int, error) { return 0, io.EOF }

func (t *treader) bytes(n uint64) ([]byte, error) {
	if n > 1<<20 {
		return nil, errors.New("tagged: too large")
	}
	if t.p.framed && t.left == 0 {
		var b [8]byte
		if _, err := io.ReadFull(t.r, b[:]); err != nil {
			return nil, err
		}
		t.left = binary.BigEndian.Uint64(b[:])
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(t.r, b); err != nil {
		return nil, err
	}
	t.left -= n
	return b, nil
}

func (t *treader) rec(op byte) error {
	b, err := t.bytes(1)
	if err != nil {
		return err
	}
	if b[0] != op {
		return fmt.Errorf("tagged: record %q, want %q", b[0], op)
	}
	return nil
}

func (t *treader) i(err *error) int64 {
	if *err != nil {
		return 0
	}
	b, e := t.bytes(8)
	if e != nil {
		*err = e
		return 0
	}
	return int64(binary.BigEndian.Uint64(b))
}

func (t *treader) s(err *error) string {
	n := t.i(err)
	if *err != nil || n == 0 {
		return ""
	}
	b, e := t.bytes(uint64(n))
	*err = e
	return string(b)
}

func (t *treader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	err = t.rec('M')
	h.Name = t.s(&err)
	h.Type = thriftwire.MessageType(t.i(&err))
	h.ID = int32(t.i(&err))
	return
}
func (t *treader) ReadMessageEnd() error {
	if t.p.trailer && !t.p.leaveTrailer {
		err := t.rec('T')
		t.i(&err)
		if err != nil {
			return err
		}
	}
	if t.p.leaveTrailer {
		return nil
	}
	return t.rec('m')
}
func (t *treader) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	err = t.rec('S')
	h.Name = t.s(&err)
	return
}
func (t *treader) ReadStructEnd() error { return t.rec('s') }
func (t *treader) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	b, err := t.bytes(1)
	if err != nil {
		return h, err
	}
	switch b[0] {
	case '0':
		return h, nil
	case 'F':
		h.Name = t.s(&err)
		h.Type = thriftwire.Type(t.i(&err))
		h.ID = int16(t.i(&err))
		return h, err
	}
	return h, fmt.Errorf("tagged: record %q, want a field", b[0])
}
func (t *treader) ReadFieldEnd() error { return t.rec('f') }
func (t *treader) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	err = t.rec('P')
	h.Key = thriftwire.Type(t.i(&err))
	h.Value = thriftwire.Type(t.i(&err))
	h.Size = int(t.i(&err))
	return
}
func (t *treader) ReadMapEnd() error { return t.rec('p') }
func (t *treader) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	err = t.rec('E')
	h.Element = thriftwire.Type(t.i(&err))
	h.Size = int(t.i(&err))
	return
}
func (t *treader) ReadSetEnd() error { return t.rec('e') }
func (t *treader) ReadListBegin() (h thriftwire.ListHeader, err error) {
	err = t.rec('L')
	h.Element = thriftwire.Type(t.i(&err))
	h.Size = int(t.i(&err))
	return
}
func (t *treader) ReadListEnd() error { return t.rec('l') }
func (t *treader) num(op byte) (int64, error) {
	err := t.rec(op)
	i := t.i(&err)
	return i, err
}
func (t *treader) ReadBool() (bool, error) { i, err := t.num('B'); return i != 0, err }
func (t *treader) ReadByte() (byte, error) { i, err := t.num('1'); return byte(i), err }
func (t *treader) ReadI16() (int16, error) { i, err := t.num('2'); return int16(i), err }
func (t *treader) ReadI32() (int32, error) { i, err := t.num('4'); return int32(i), err }
func (t *treader) ReadI64() (int64, error) { return t.num('8') }
func (t *treader) ReadDouble() (float64, error) {
	i, err := t.num('D')
	return math.Float64frombits(uint64(i)), err
}
func (t *treader) str(op byte) (string, error) {
	err := t.rec(op)
	s := t.s(&err)
	return s, err
}
func (t *treader) ReadString() (string, error) { return t.str('R') }
func (t *treader) ReadBytes(b []byte) ([]byte, error) {
	s, err := t.str('R')
	return append(b, s...), err
}
func (t *treader) ReadUUID(u *[16]byte) error {
	if t.p.noUUID {
		return errors.New("no UUIDs")
	}
	s, err := t.str('U')
	copy(u[:], s)
	return err
}
func (t *treader) SkipString() error { _, err := t.str('R'); return err }
func (t *treader) SkipUUID() error {
	if t.p.noUUID {
		return errors.New("no UUIDs")
	}
	_, err := t.str('U')
	return err
}
