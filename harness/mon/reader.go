package mon

import (
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

var ErrProtocol = errors.New("reader protocol violated")

type rframe struct {
	v    tm.Val
	i    int  // struct: field index; container: value index
	open bool // struct: inside field i
	done bool // struct: value of field i was read
	stop bool // struct: the stop field was delivered
}

// RMon is a Reader that serves one value and checks that it is called in the
// order the value prescribes.
type RMon struct {
	V tm.Val

	Calls   int
	FailAt  int
	Err     error
	Junk    bool // return plausible values together with the error
	After   int
	Viol    string
	Trace   bool
	Steps   []string
	MaxSeen int

	EmptyStop bool  // empty containers have element types Stop
	StopID    int16 // id delivered with stop fields
	Names     bool  // fill in names

	Failed  bool
	started bool
	doneTop bool
	stack   []rframe
}

// Done reports whether the value was read completely and nothing is open.
func (r *RMon) Done() bool { return r.doneTop && len(r.stack) == 0 }

func (r *RMon) step(name string) error {
	r.Calls++
	if r.Failed {
		r.After++
		return r.Err
	}
	if r.Trace {
		r.Steps = append(r.Steps, name)
	}
	if r.FailAt > 0 && r.Calls == r.FailAt {
		r.Failed = true
		return r.Err
	}
	return nil
}

func (r *RMon) viol(format string, args ...any) error {
	if r.Viol == "" {
		r.Viol = fmt.Sprintf("call %d: ", r.Calls) + fmt.Sprintf(format, args...)
	}
	return ErrProtocol
}

// next is the value due at the current position, if one is.
func (r *RMon) next() (tm.Val, bool) {
	if len(r.stack) == 0 {
		return r.V, !r.started
	}
	f := &r.stack[len(r.stack)-1]
	if f.v.T == tm.Struct {
		if !f.open || f.done {
			return tm.Val{}, false
		}
		return f.v.Fs[f.i].V, true
	}
	if f.i >= len(f.v.L) {
		return tm.Val{}, false
	}
	return f.v.L[f.i], true
}

func (r *RMon) finish() {
	if len(r.stack) == 0 {
		r.doneTop = true
		return
	}
	f := &r.stack[len(r.stack)-1]
	if f.v.T == tm.Struct {
		f.done = true
	} else {
		f.i++
	}
}

// take checks that a value of type t is due; begin leaves it open.
func (r *RMon) take(name string, t tm.Type, begin bool) (tm.Val, error) {
	err := r.step(name)
	v, ok := r.next()
	if err != nil {
		if !ok || v.T != t {
			v = tm.Val{T: t}
		}
		return v, err
	}
	if !ok {
		return tm.Val{T: t}, r.viol("%s where no value is due", name)
	}
	if v.T != t {
		return tm.Val{T: t}, r.viol("%s where a %v is due", name, v.T)
	}
	r.started = true
	if begin {
		r.stack = append(r.stack, rframe{v: v})
		if len(r.stack) > r.MaxSeen {
			r.MaxSeen = len(r.stack)
		}
	} else {
		r.finish()
	}
	return v, nil
}

func (r *RMon) end(name string, t tm.Type) error {
	if err := r.step(name); err != nil {
		return err
	}
	if len(r.stack) == 0 {
		return r.viol("%s with nothing open", name)
	}
	f := &r.stack[len(r.stack)-1]
	if f.v.T != t {
		return r.viol("%s closes a %v", name, f.v.T)
	}
	if t == tm.Struct {
		if !f.stop {
			return r.viol("%s before the stop field", name)
		}
	} else if f.i != len(f.v.L) {
		return r.viol("%s after %d of %d values", name, f.i, len(f.v.L))
	}
	r.stack = r.stack[:len(r.stack)-1]
	r.finish()
	return nil
}

func (r *RMon) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	if err := r.step("MessageBegin"); err != nil {
		return h, err
	}
	return h, r.viol("ReadMessageBegin called")
}
func (r *RMon) ReadMessageEnd() error {
	if err := r.step("MessageEnd"); err != nil {
		return err
	}
	return r.viol("ReadMessageEnd called")
}
func (r *RMon) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	_, err = r.take("StructBegin", tm.Struct, true)
	if r.Names {
		h.Name = "struct"
	}
	return h, err
}
func (r *RMon) ReadStructEnd() error { return r.end("StructEnd", tm.Struct) }
func (r *RMon) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	err = r.step("FieldBegin")
	if err != nil && !r.Junk {
		return h, err
	}
	if len(r.stack) == 0 {
		return h, r.viol("ReadFieldBegin outside a struct")
	}
	f := &r.stack[len(r.stack)-1]
	if f.v.T != tm.Struct || f.open || f.stop {
		return h, r.viol("ReadFieldBegin where no field is due")
	}
	if f.i == len(f.v.Fs) {
		h.ID = r.StopID
		if err == nil {
			f.stop = true
		}
		return h, err
	}
	if r.Names {
		h.Name = "name"
	}
	h.Type, h.ID = thriftwire.Type(f.v.Fs[f.i].V.T), f.v.Fs[f.i].ID
	if err == nil {
		f.open, f.done = true, false
	}
	return h, err
}
func (r *RMon) ReadFieldEnd() error {
	if err := r.step("FieldEnd"); err != nil {
		return err
	}
	if len(r.stack) == 0 {
		return r.viol("ReadFieldEnd outside a struct")
	}
	f := &r.stack[len(r.stack)-1]
	if f.v.T != tm.Struct || !f.open || !f.done {
		return r.viol("ReadFieldEnd without a complete field")
	}
	f.open = false
	f.i++
	return nil
}
func (r *RMon) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	v, err := r.take("MapBegin", tm.Map, true)
	if err == nil || r.Junk {
		h = thriftwire.MapHeader{Key: thriftwire.Type(v.K), Value: thriftwire.Type(v.E), Size: len(v.L) / 2}
		if h.Size == 0 && r.EmptyStop {
			h.Key, h.Value = 0, 0
		}
	}
	return h, err
}
func (r *RMon) ReadMapEnd() error { return r.end("MapEnd", tm.Map) }
func (r *RMon) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	v, err := r.take("SetBegin", tm.Set, true)
	if err == nil || r.Junk {
		h = thriftwire.SetHeader{Element: thriftwire.Type(v.E), Size: len(v.L)}
		if h.Size == 0 && r.EmptyStop {
			h.Element = 0
		}
	}
	return h, err
}
func (r *RMon) ReadSetEnd() error { return r.end("SetEnd", tm.Set) }
func (r *RMon) ReadListBegin() (h thriftwire.ListHeader, err error) {
	v, err := r.take("ListBegin", tm.List, true)
	if err == nil || r.Junk {
		h = thriftwire.ListHeader{Element: thriftwire.Type(v.E), Size: len(v.L)}
		if h.Size == 0 && r.EmptyStop {
			h.Element = 0
		}
	}
	return h, err
}
func (r *RMon) ReadListEnd() error { return r.end("ListEnd", tm.List) }

func scalar[T any](r *RMon, name string, t tm.Type, f func(tm.Val) T) (x T, err error) {
	v, err := r.take(name, t, false)
	if err == nil || r.Junk {
		x = f(v)
	}
	return x, err
}
func (r *RMon) ReadBool() (bool, error) {
	return scalar(r, "Bool", tm.Bool, func(v tm.Val) bool { return v.I != 0 })
}
func (r *RMon) ReadByte() (byte, error) {
	return scalar(r, "Byte", tm.Byte, func(v tm.Val) byte { return byte(v.I) })
}
func (r *RMon) ReadDouble() (float64, error) {
	return scalar(r, "Double", tm.Double, func(v tm.Val) float64 { return math.Float64frombits(v.F) })
}
func (r *RMon) ReadI16() (int16, error) {
	return scalar(r, "I16", tm.I16, func(v tm.Val) int16 { return int16(v.I) })
}
func (r *RMon) ReadI32() (int32, error) {
	return scalar(r, "I32", tm.I32, func(v tm.Val) int32 { return int32(v.I) })
}
func (r *RMon) ReadI64() (int64, error) {
	return scalar(r, "I64", tm.I64, func(v tm.Val) int64 { return v.I })
}
func (r *RMon) ReadString() (string, error) {
	return scalar(r, "String", tm.String, func(v tm.Val) string { return string(v.S) })
}
func (r *RMon) ReadBytes(buf []byte) ([]byte, error) {
	v, err := r.take("Bytes", tm.String, false)
	if err == nil || r.Junk {
		buf = append(buf, v.S...)
	}
	return buf, err
}
func (r *RMon) ReadUUID(p *[16]byte) error {
	v, err := r.take("UUID", tm.UUID, false)
	if err == nil || r.Junk {
		*p = v.U
	}
	return err
}
func (r *RMon) SkipString() error {
	_, err := r.take("SkipString", tm.String, false)
	return err
}
func (r *RMon) SkipUUID() error {
	_, err := r.take("SkipUUID", tm.UUID, false)
	return err
}
func (r *RMon) Reset(io.Reader) { r.viol("Reset called") }

var _ thriftwire.Reader = (*RMon)(nil)
