package mon

import (
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// Meter passes calls on and counts the bytes each of them has to put out,
// computed from the specifications alone. After is called after every call
// that succeeded. A field header of a boolean counts with its value where the
// protocol puts both into one.
type Meter struct {
	thriftwire.Writer
	Proto string
	N     int
	After func() error

	last []int16
	cur  int16
	bool int // size of a pending boolean field header
}

func (m *Meter) add(err error, n int) error {
	if err != nil {
		return err
	}
	m.N += n
	if m.After != nil {
		return m.After()
	}
	return nil
}

func (m *Meter) compact() bool { return m.Proto == "compact" }

func varlen(x uint64) int { return len(tm.Uvarint(nil, x)) }
func ziglen(x int64) int  { return len(tm.Zigzag(nil, x)) }

func (m *Meter) WriteMessageBegin(h thriftwire.MessageHeader) error {
	n := 12 + len(h.Name)
	switch m.Proto {
	case "compact":
		n = 2 + varlen(uint64(uint32(h.ID))) + varlen(uint64(len(h.Name))) + len(h.Name)
	case "nonstrict":
		n = 9 + len(h.Name)
	}
	return m.add(m.Writer.WriteMessageBegin(h), n)
}
func (m *Meter) WriteMessageEnd() error { return m.add(m.Writer.WriteMessageEnd(), 0) }
func (m *Meter) WriteStructBegin(h thriftwire.StructHeader) error {
	m.last = append(m.last, m.cur)
	m.cur = 0
	return m.add(m.Writer.WriteStructBegin(h), 0)
}
func (m *Meter) WriteStructEnd() error {
	m.cur = m.last[len(m.last)-1]
	m.last = m.last[:len(m.last)-1]
	return m.add(m.Writer.WriteStructEnd(), 1)
}
func (m *Meter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	n := 3
	if m.compact() {
		n = 1
		if d := int(h.ID) - int(m.cur); d < 1 || d > 15 {
			n += ziglen(int64(h.ID))
		}
		m.cur = h.ID
		if h.Type == thriftwire.Bool {
			m.bool, n = n, 0
		}
	}
	return m.add(m.Writer.WriteFieldBegin(h), n)
}
func (m *Meter) WriteFieldEnd() error { return m.add(m.Writer.WriteFieldEnd(), 0) }
func (m *Meter) WriteMapBegin(h thriftwire.MapHeader) error {
	n := 6
	if m.compact() {
		n = varlen(uint64(h.Size)) + 1
		if h.Size == 0 {
			n = 1
		}
	}
	return m.add(m.Writer.WriteMapBegin(h), n)
}
func (m *Meter) WriteMapEnd() error { return m.add(m.Writer.WriteMapEnd(), 0) }
func (m *Meter) list(size int) int {
	switch {
	case !m.compact():
		return 5
	case size < 15:
		return 1
	}
	return 1 + varlen(uint64(size))
}
func (m *Meter) WriteSetBegin(h thriftwire.SetHeader) error {
	return m.add(m.Writer.WriteSetBegin(h), m.list(h.Size))
}
func (m *Meter) WriteSetEnd() error { return m.add(m.Writer.WriteSetEnd(), 0) }
func (m *Meter) WriteListBegin(h thriftwire.ListHeader) error {
	return m.add(m.Writer.WriteListBegin(h), m.list(h.Size))
}
func (m *Meter) WriteListEnd() error { return m.add(m.Writer.WriteListEnd(), 0) }
func (m *Meter) WriteBool(v bool) error {
	n := 1
	if m.bool > 0 {
		n, m.bool = m.bool, 0
	}
	return m.add(m.Writer.WriteBool(v), n)
}
func (m *Meter) WriteByte(v byte) error { return m.add(m.Writer.WriteByte(v), 1) }
func (m *Meter) WriteI16(v int16) error {
	n := 2
	if m.compact() {
		n = ziglen(int64(v))
	}
	return m.add(m.Writer.WriteI16(v), n)
}
func (m *Meter) WriteI32(v int32) error {
	n := 4
	if m.compact() {
		n = ziglen(int64(v))
	}
	return m.add(m.Writer.WriteI32(v), n)
}
func (m *Meter) WriteI64(v int64) error {
	n := 8
	if m.compact() {
		n = ziglen(v)
	}
	return m.add(m.Writer.WriteI64(v), n)
}
func (m *Meter) WriteDouble(v float64) error { return m.add(m.Writer.WriteDouble(v), 8) }
func (m *Meter) str(n int) int {
	if m.compact() {
		return varlen(uint64(n)) + n
	}
	return 4 + n
}
func (m *Meter) WriteString(v string) error { return m.add(m.Writer.WriteString(v), m.str(len(v))) }
func (m *Meter) WriteBytes(v []byte) error  { return m.add(m.Writer.WriteBytes(v), m.str(len(v))) }
func (m *Meter) WriteUUID(v *[16]byte) error {
	return m.add(m.Writer.WriteUUID(v), 16)
}
