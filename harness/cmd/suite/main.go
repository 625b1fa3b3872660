// Command suite is the worker for the property of the protocol test suite: it
// runs TestProtocol on conforming and on broken protocols.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/testing/thrifttest"
	"github.com/itstarsun/go-thrift/xverif/core"
)

// The worker is a test binary (go test -c), because TestProtocol needs a
// testing.T: see suite_test.go.
func main() { panic("built with go build, want go test -c") }

// current is the test all runs are subtests of.
var current *testing.T

// run reports whether TestProtocol passes.
func run(p thriftwire.Protocol, uuid bool) bool {
	return current.Run("p", func(t *testing.T) {
		thrifttest.TestProtocol(t, p, thrifttest.ProtocolOptions{UUID: uuid})
	})
}

type base struct {
	name string
	p    thriftwire.Protocol
	uuid bool
}

func bases() []base {
	return []base{
		{"binary", thriftbinary.Protocol, true},
		{"nonstrict", thriftbinary.ProtocolNonStrict, true},
		{"compact", thriftcompact.Protocol, true},
		{"tagged", tagged{names: true}, true},
	}
}

// variant makes a conforming protocol.
func variant(r *core.Rand) base {
	var b base
	if r.P(1, 3) {
		t := tagged{names: r.Bool(), framed: r.Bool(), trailer: r.Bool(), noUUID: r.P(1, 3)}
		if r.Bool() {
			t.ahead = core.Pick(r, 16, 17, 64, 4096)
		}
		b = base{fmt.Sprintf("tagged%+v", t), t, !t.noUUID}
	} else {
		bs := bases()
		b = bs[r.Intn(3)]
		if r.P(1, 3) {
			w := b.p
			if b.name != "compact" {
				w = bs[r.Intn(2)].p
			}
			if b.name == "binary" {
				w = b.p // a strict reader takes only strict messages
			}
			b.p = thriftwire.JoinProtocol(b.p, w)
			b.name = "joined " + b.name
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		o := rebuffered{p: b.p, in: core.Pick(r, 0, 0, 1, 16, 100, 5000), out: core.Pick(r, 0, 0, 1, 16, 100, 5000), one: r.P(1, 3), eager: r.P(1, 4)}
		b.p = o
		b.name += fmt.Sprintf(" in=%d out=%d one=%v eager=%v", o.in, o.out, o.one, o.eager)
	}
	if b.uuid && r.P(1, 5) {
		b.uuid = false
		b.name += " without UUIDs"
	}
	return b
}

// rebuffered changes how a protocol sees its streams.
type rebuffered struct {
	p       thriftwire.Protocol
	in, out int
	one     bool
	eager   bool // the writer flushes by itself all the time
}

func (o rebuffered) rd(r io.Reader) io.Reader {
	if o.one {
		r = oneReader{r}
	}
	if o.in > 0 {
		r = bufio.NewReaderSize(r, o.in)
	}
	return r
}

func (o rebuffered) wr(w io.Writer) io.Writer {
	if o.out > 0 {
		return &buffered{bufio.NewWriterSize(w, o.out), w}
	}
	return w
}

// buffered passes Flush on.
type buffered struct {
	*bufio.Writer
	w io.Writer
}

func (b *buffered) Flush() error {
	if err := b.Writer.Flush(); err != nil {
		return err
	}
	return thriftwire.Flush(b.w)
}

func (o rebuffered) NewReader(r io.Reader) thriftwire.Reader {
	return &reReader{o.p.NewReader(o.rd(r)), o}
}
func (o rebuffered) NewWriter(w io.Writer) thriftwire.Writer {
	return &reWriter{o.p.NewWriter(o.wr(w)), o}
}

type reReader struct {
	thriftwire.Reader
	o rebuffered
}

func (r *reReader) Reset(u io.Reader) { r.Reader.Reset(r.o.rd(u)) }

type reWriter struct {
	thriftwire.Writer
	o rebuffered
}

func (w *reWriter) Reset(u io.Writer) { w.Writer.Reset(w.o.wr(u)) }
func (w *reWriter) WriteMessageEnd() error {
	if err := w.Writer.WriteMessageEnd(); err != nil || !w.o.eager {
		return err
	}
	return w.Writer.Flush()
}
func (w *reWriter) Flush() error {
	if w.o.eager {
		return nil
	}
	return w.Writer.Flush()
}

type oneReader struct{ r io.Reader }

func (r oneReader) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return r.r.Read(p)
}

// mutant is a protocol with a fault in the values its reader returns or the
// calls that fail.
type mutant struct {
	p      thriftwire.Protocol
	b      func(bool) bool
	mapB   func(bool) bool // inside maps
	i16    func(int16) int16
	i32    func(int32) int32
	i64    func(int64) int64
	d      func(float64) float64
	s      func(string) string
	msg    func(*thriftwire.MessageHeader)
	field  func(*thriftwire.FieldHeader)
	m      func(*thriftwire.MapHeader)
	set    func(*thriftwire.SetHeader)
	list   func(*thriftwire.ListHeader)
	u      func([16]byte) [16]byte
	skip   func(thriftwire.Reader) error
	skipU  func(thriftwire.Reader) error
	failAt int // the number of the call that fails, from 1
	calls  *int
	failed *bool
}

var errFault = errors.New("injected fault")

func (m *mutant) call() error {
	if m.calls == nil {
		return nil
	}
	*m.calls++
	if *m.calls == m.failAt {
		*m.failed = true
		return errFault
	}
	return nil
}

func (m *mutant) NewReader(r io.Reader) thriftwire.Reader { return &mReader{r: m.p.NewReader(r), m: m} }
func (m *mutant) NewWriter(w io.Writer) thriftwire.Writer { return &mWriter{m.p.NewWriter(w), m} }

type mReader struct {
	r     thriftwire.Reader
	m     *mutant
	inMap bool // the suite's maps do not nest
}

func do[T any](m *mReader, f func() (T, error), g func(T) T) (x T, err error) {
	if err := m.m.call(); err != nil {
		return x, err
	}
	x, err = f()
	if err == nil && g != nil {
		x = g(x)
	}
	return x, err
}

func ptr[T any](f func(*T)) func(T) T {
	if f == nil {
		return nil
	}
	return func(x T) T { f(&x); return x }
}

func (m *mReader) end(f func() error) error {
	if err := m.m.call(); err != nil {
		return err
	}
	return f()
}

func (m *mReader) ReadMessageBegin() (thriftwire.MessageHeader, error) {
	return do(m, m.r.ReadMessageBegin, ptr(m.m.msg))
}
func (m *mReader) ReadMessageEnd() error { return m.end(m.r.ReadMessageEnd) }
func (m *mReader) ReadStructBegin() (thriftwire.StructHeader, error) {
	return do(m, m.r.ReadStructBegin, nil)
}
func (m *mReader) ReadStructEnd() error { return m.end(m.r.ReadStructEnd) }
func (m *mReader) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	return do(m, m.r.ReadFieldBegin, func(h thriftwire.FieldHeader) thriftwire.FieldHeader {
		if m.m.field != nil && h.Type != thriftwire.Stop {
			m.m.field(&h)
		}
		return h
	})
}
func (m *mReader) ReadFieldEnd() error { return m.end(m.r.ReadFieldEnd) }
func (m *mReader) ReadMapBegin() (thriftwire.MapHeader, error) {
	m.inMap = true
	return do(m, m.r.ReadMapBegin, ptr(m.m.m))
}
func (m *mReader) ReadMapEnd() error { m.inMap = false; return m.end(m.r.ReadMapEnd) }
func (m *mReader) ReadSetBegin() (thriftwire.SetHeader, error) {
	return do(m, m.r.ReadSetBegin, ptr(m.m.set))
}
func (m *mReader) ReadSetEnd() error { return m.end(m.r.ReadSetEnd) }
func (m *mReader) ReadListBegin() (thriftwire.ListHeader, error) {
	return do(m, m.r.ReadListBegin, ptr(m.m.list))
}
func (m *mReader) ReadListEnd() error { return m.end(m.r.ReadListEnd) }
func (m *mReader) ReadBool() (bool, error) {
	if m.inMap && m.m.mapB != nil {
		return do(m, m.r.ReadBool, m.m.mapB)
	}
	return do(m, m.r.ReadBool, m.m.b)
}
func (m *mReader) ReadByte() (byte, error)      { return do(m, m.r.ReadByte, nil) }
func (m *mReader) ReadDouble() (float64, error) { return do(m, m.r.ReadDouble, m.m.d) }
func (m *mReader) ReadI16() (int16, error)      { return do(m, m.r.ReadI16, m.m.i16) }
func (m *mReader) ReadI32() (int32, error)      { return do(m, m.r.ReadI32, m.m.i32) }
func (m *mReader) ReadI64() (int64, error)      { return do(m, m.r.ReadI64, m.m.i64) }
func (m *mReader) ReadString() (string, error)  { return do(m, m.r.ReadString, m.m.s) }
func (m *mReader) ReadBytes(b []byte) ([]byte, error) {
	if err := m.m.call(); err != nil {
		return nil, err
	}
	x, err := m.r.ReadBytes(nil)
	if err != nil {
		return nil, err
	}
	if m.m.s != nil {
		x = []byte(m.m.s(string(x)))
	}
	return append(b, x...), nil
}
func (m *mReader) ReadUUID(u *[16]byte) error {
	return m.end(func() error {
		err := m.r.ReadUUID(u)
		if err == nil && m.m.u != nil {
			*u = m.m.u(*u)
		}
		return err
	})
}
func (m *mReader) SkipString() error {
	return m.end(func() error {
		if m.m.skip != nil {
			return m.m.skip(m.r)
		}
		return m.r.SkipString()
	})
}
func (m *mReader) SkipUUID() error {
	return m.end(func() error {
		if m.m.skipU != nil {
			return m.m.skipU(m.r)
		}
		return m.r.SkipUUID()
	})
}
func (m *mReader) Reset(r io.Reader) { m.r.Reset(r) }

type mWriter struct {
	w thriftwire.Writer
	m *mutant
}

func (m *mWriter) do(f func() error) error {
	if err := m.m.call(); err != nil {
		return err
	}
	return f()
}
func (m *mWriter) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return m.do(func() error { return m.w.WriteMessageBegin(h) })
}
func (m *mWriter) WriteMessageEnd() error { return m.do(m.w.WriteMessageEnd) }
func (m *mWriter) WriteStructBegin(h thriftwire.StructHeader) error {
	return m.do(func() error { return m.w.WriteStructBegin(h) })
}
func (m *mWriter) WriteStructEnd() error { return m.do(m.w.WriteStructEnd) }
func (m *mWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return m.do(func() error { return m.w.WriteFieldBegin(h) })
}
func (m *mWriter) WriteFieldEnd() error { return m.do(m.w.WriteFieldEnd) }
func (m *mWriter) WriteMapBegin(h thriftwire.MapHeader) error {
	return m.do(func() error { return m.w.WriteMapBegin(h) })
}
func (m *mWriter) WriteMapEnd() error { return m.do(m.w.WriteMapEnd) }
func (m *mWriter) WriteSetBegin(h thriftwire.SetHeader) error {
	return m.do(func() error { return m.w.WriteSetBegin(h) })
}
func (m *mWriter) WriteSetEnd() error { return m.do(m.w.WriteSetEnd) }
func (m *mWriter) WriteListBegin(h thriftwire.ListHeader) error {
	return m.do(func() error { return m.w.WriteListBegin(h) })
}
func (m *mWriter) WriteListEnd() error    { return m.do(m.w.WriteListEnd) }
func (m *mWriter) WriteBool(v bool) error { return m.do(func() error { return m.w.WriteBool(v) }) }
func (m *mWriter) WriteByte(v byte) error { return m.do(func() error { return m.w.WriteByte(v) }) }
func (m *mWriter) WriteDouble(v float64) error {
	return m.do(func() error { return m.w.WriteDouble(v) })
}
func (m *mWriter) WriteI16(v int16) error { return m.do(func() error { return m.w.WriteI16(v) }) }
func (m *mWriter) WriteI32(v int32) error { return m.do(func() error { return m.w.WriteI32(v) }) }
func (m *mWriter) WriteI64(v int64) error { return m.do(func() error { return m.w.WriteI64(v) }) }
func (m *mWriter) WriteString(v string) error {
	return m.do(func() error { return m.w.WriteString(v) })
}
func (m *mWriter) WriteBytes(v []byte) error   { return m.do(func() error { return m.w.WriteBytes(v) }) }
func (m *mWriter) WriteUUID(v *[16]byte) error { return m.do(func() error { return m.w.WriteUUID(v) }) }
func (m *mWriter) Flush() error                { return m.do(m.w.Flush) }
func (m *mWriter) Reset(w io.Writer)           { m.w.Reset(w) }

type fault struct {
	name string
	m    mutant
}

// faults are the broken readers, with r choosing the amounts.
func faults(r *core.Rand) []fault {
	var fs []fault
	add := func(m mutant, format string, args ...any) {
		fs = append(fs, fault{fmt.Sprintf(format, args...), m})
	}
	type (
		msgH   = thriftwire.MessageHeader
		fieldH = thriftwire.FieldHeader
		mapH   = thriftwire.MapHeader
		setH   = thriftwire.SetHeader
		listH  = thriftwire.ListHeader
	)
	add(mutant{b: func(bool) bool { return true }}, "bools are true")
	add(mutant{b: func(bool) bool { return false }}, "bools are false")
	add(mutant{b: func(b bool) bool { return !b }}, "bools are inverted")

	add(mutant{mapB: func(b bool) bool { return !b }}, "bools in maps are inverted")

	x16 := int16(1) << r.Intn(16)
	add(mutant{i16: func(i int16) int16 { return i ^ x16 }}, "i16 ^ %#x", x16)
	add(mutant{i16: func(i int16) int16 { return int16(int8(i)) }}, "i16 narrowed")
	add(mutant{i16: func(i int16) int16 { return i &^ -0x8000 }}, "i16 without sign")
	x32 := int32(1) << r.Intn(32)
	add(mutant{i32: func(i int32) int32 { return i ^ x32 }}, "i32 ^ %#x", x32)
	add(mutant{i32: func(i int32) int32 { return int32(int16(i)) }}, "i32 narrowed")
	add(mutant{i32: func(i int32) int32 {
		if i < 0 {
			return -i - 1
		}
		return i
	}}, "i32 without sign")
	x64 := int64(1) << r.Intn(64)
	add(mutant{i64: func(i int64) int64 { return i ^ x64 }}, "i64 ^ %#x", x64)
	add(mutant{i64: func(i int64) int64 { return int64(int32(i)) }}, "i64 narrowed")
	add(mutant{i64: func(i int64) int64 { return int64(uint64(i) << 1 >> 1) }}, "i64 without sign")
	xd := uint64(1) << r.Intn(64)
	add(mutant{d: func(f float64) float64 { return math.Float64frombits(math.Float64bits(f) ^ xd) }}, "double ^ %#x", xd)
	add(mutant{d: func(f float64) float64 { return float64(float32(f)) }}, "double narrowed")
	add(mutant{d: func(f float64) float64 { return math.Float64frombits(math.Float64bits(f) &^ 1) }}, "double without the lowest bit")
	add(mutant{d: func(f float64) float64 { return 0 }}, "doubles are zero")

	xs := byte(1) << r.Intn(8)
	add(mutant{s: func(s string) string {
		b := []byte(s)
		for i := range b {
			b[i] ^= xs
		}
		return string(b)
	}}, "string bytes ^ %#x", xs)
	add(mutant{s: func(s string) string {
		if len(s) > 0 {
			return s[1:]
		}
		return s
	}}, "strings without their first byte")
	add(mutant{s: func(s string) string { return s + "\x00" }}, "strings with a byte more")
	add(mutant{s: func(s string) string { return "" }}, "strings are empty")
	add(mutant{s: func(s string) string {
		if len(s) == 5 {
			return s[:4] + "!"
		}
		return s
	}}, "last byte of longer strings")
	prev := ""
	add(mutant{s: func(s string) string { p := prev; prev = s; return p }}, "strings are the previous ones")

	iu, xu := r.Intn(16), byte(1)<<r.Intn(8)
	add(mutant{u: func(u [16]byte) [16]byte { u[iu] ^= xu; return u }}, "UUID byte %d ^ %#x", iu, xu)
	add(mutant{u: func([16]byte) (u [16]byte) { return }}, "UUIDs are zero")
	add(mutant{u: func(u [16]byte) [16]byte {
		for i := 0; i < 8; i++ {
			u[i], u[15-i] = u[15-i], u[i]
		}
		return u
	}}, "UUIDs are reversed")

	xt := thriftwire.MessageType(1) << r.Intn(8)
	add(mutant{msg: func(h *msgH) { h.Type ^= xt }}, "message type ^ %#x", xt)
	xi := int32(1) << r.Intn(32)
	add(mutant{msg: func(h *msgH) { h.ID ^= xi }}, "message id ^ %#x", xi)
	add(mutant{msg: func(h *msgH) { h.Name += "x" }}, "message name with a byte more")
	add(mutant{msg: func(h *msgH) { h.Name = "UUID" }}, "message name is constant")
	n := 0
	add(mutant{msg: func(h *msgH) {
		if n++; n > 9 {
			h.Name = "True"
		}
	}}, "message names get stuck")

	xf := int16(1) << r.Intn(16)
	add(mutant{field: func(h *fieldH) { h.ID ^= xf }}, "field id ^ %#x", xf)
	add(mutant{field: func(h *fieldH) { h.ID = 1 }}, "field ids are 1")
	add(mutant{field: func(h *fieldH) {
		if h.ID > 15 {
			h.ID -= 16
		}
	}}, "large field ids")
	add(mutant{field: func(h *fieldH) {
		if h.ID == 0 {
			h.ID = 1
		}
	}}, "field id 0")
	types := []thriftwire.Type{thriftwire.Bool, thriftwire.Byte, thriftwire.Double, thriftwire.I16, thriftwire.I32, thriftwire.I64, thriftwire.String, thriftwire.Struct, thriftwire.Map, thriftwire.Set, thriftwire.List}
	for i, t := range types {
		if t == thriftwire.Byte {
			continue
		}
		to := types[(i+1+r.Intn(len(types)-1))%len(types)]
		from := t
		add(mutant{field: func(h *fieldH) {
			if h.Type == from {
				h.Type = to
			}
		}}, "field type %v is %v", from, to)
	}
	add(mutant{field: func(h *fieldH) { *h = fieldH{} }}, "fields are stop")

	ds := core.Pick(r, -1, 1, 2, 7)
	add(mutant{m: func(h *mapH) { h.Size += ds }}, "map size %+d", ds)
	add(mutant{set: func(h *setH) { h.Size += ds }}, "set size %+d", ds)
	add(mutant{list: func(h *listH) { h.Size += ds }}, "list size %+d", ds)
	for _, lim := range []int{1, 2, 16} {
		lim := lim
		less := 1
		add(mutant{m: func(h *mapH) {
			if h.Size >= lim && lim != 2 {
				h.Size -= less
			} else if lim == 2 && h.Size == 1 {
				h.Size = 0
			}
		}}, "map size, %d and more", lim)
		add(mutant{set: func(h *setH) {
			if h.Size >= lim {
				h.Size -= less
			}
		}}, "set size, %d and more", lim)
		add(mutant{list: func(h *listH) {
			if h.Size >= lim {
				h.Size -= less
			}
		}}, "list size, %d and more", lim)
	}
	add(mutant{m: func(h *mapH) { h.Size = 0 }}, "maps are empty")
	add(mutant{set: func(h *setH) { h.Size = 0 }}, "sets are empty")
	add(mutant{list: func(h *listH) { h.Size = 0 }}, "lists are empty")
	add(mutant{set: func(h *setH) { h.Element = thriftwire.Struct }}, "set element type")
	add(mutant{list: func(h *listH) { h.Element = thriftwire.I32 }}, "list element type")
	add(mutant{m: func(h *mapH) {
		if h.Size > 0 {
			h.Key = thriftwire.I64
		}
	}}, "map key type")
	add(mutant{m: func(h *mapH) {
		if h.Size > 0 {
			h.Value = thriftwire.Double
		}
	}}, "map value type")

	add(mutant{skip: func(thriftwire.Reader) error { return nil }}, "SkipString does nothing")
	add(mutant{skip: func(r thriftwire.Reader) error { _, err := r.ReadI64(); return err }}, "SkipString skips eight bytes")
	add(mutant{skip: func(r thriftwire.Reader) error {
		if err := r.SkipString(); err != nil {
			return err
		}
		_, err := r.ReadByte()
		return err
	}}, "SkipString skips too much")
	add(mutant{skip: func(thriftwire.Reader) error { return errFault }}, "SkipString fails")
	add(mutant{skipU: func(thriftwire.Reader) error { return nil }}, "SkipUUID does nothing")
	add(mutant{skipU: func(r thriftwire.Reader) error { _, err := r.ReadI64(); return err }}, "SkipUUID skips eight bytes")
	add(mutant{skipU: func(thriftwire.Reader) error { return errFault }}, "SkipUUID fails")
	return fs
}

func c24(c *core.Ctx) {
	c.Cases("conforming", c.N(300, 3000), func(k *core.K) {
		b := variant(k.R)
		k.Note("protocol: %s", b.name)
		if !run(b.p, b.uuid) {
			k.Fail("the suite fails for a conforming protocol: %s", b.name)
		}
		k.Count("conforming protocols", 1)
		k.Hit(b.name)
		k.Sample("%s", b.name)
	})
	c.Cases("broken", len(faults(core.NewRand(0)))*len(bases())*c.N(1, 6), func(k *core.K) {
		bs := bases()
		b := bs[k.I%len(bs)]
		fs := faults(k.R)
		f := fs[k.I/len(bs)%len(fs)]
		f.m.p = b.p
		k.Note("protocol: %s, fault: %s", b.name, f.name)
		if run(&f.m, true) {
			k.FailKey(strings.ReplaceAll(b.name+":"+f.name, " ", "-"), "the suite passes for a broken protocol: %s, %s", b.name, f.name)
		}
		k.Count("broken protocols", 1)
		k.Hit(b.name + f.name)
	})
	special := []tagged{{trailer: true, leaveTrailer: true}, {leaveTrailer: true}, {names: true, framed: true, trailer: true, leaveTrailer: true}, {badReset: 1}, {badReset: 2}, {badReset: 1, framed: true}, {badReset: 2, framed: true}, {noUUID: true}}
	c.Cases("unread", len(special), func(k *core.K) {
		if run(special[k.I], true) {
			k.Fail("the suite passes for a broken protocol: %+v", special[k.I])
		}
		k.Count("broken protocols", 1)
		k.Hit(fmt.Sprintf("%+v", special[k.I]))
	})
	// Every single failing call.
	calls := make([]int, len(bases()))
	for i, b := range bases() {
		var failed bool
		m := &mutant{p: b.p, calls: &calls[i], failed: &failed}
		if c.Group == "" || c.Group == "errors" {
			run(m, true)
		}
	}
	most := 0
	for _, n := range calls {
		if n > most {
			most = n
		}
	}
	c.Cases("errors", most*len(calls), func(k *core.K) {
		i := k.I % len(calls)
		at := k.I/len(calls) + 1
		if at > calls[i] {
			return
		}
		n, failed := 0, false
		m := &mutant{p: bases()[i].p, failAt: at, calls: &n, failed: &failed}
		pass := run(m, true)
		if pass && failed {
			k.Fail("the suite passes although call %d of protocol %s fails", at, bases()[i].name)
		}
		k.Count("failing calls", 1)
		k.Max("calls of a run", int64(calls[i]))
		k.Hit(fmt.Sprintf("err %d %d", i, at))
	})
}
