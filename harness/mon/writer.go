// Package mon holds the monitors that watch the code under test: automata over
// Writer and Reader calls, stream monitors, and a memory-region monitor.
package mon

import (
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// frame is one open structure.
type frame struct {
	kind    tm.Type // Struct, Map, Set, List; Stop at the bottom
	v       *tm.Val
	inField bool // struct: a field is open
	done    bool // struct: the open field has its value
	want    int  // container: values left (map: two per pair)
}

// WMon is a Writer that checks the call sequence against the protocol of the
// Writer interface and rebuilds the value that was written.
type WMon struct {
	Calls   int
	FailAt  int   // 1-based call that fails; 0: none
	Err     error // what it fails with
	After   int   // calls made after the failed call
	Viol    string
	Values  []tm.Val // completed top-level values
	Steps   []string // names of the calls, if Trace
	Trace   bool
	MaxSeen int // maximum nesting depth

	OnCall func() // called at every call

	Failed bool
	stack  []frame
}

var ErrInjected = errors.New("injected failure")

func (w *WMon) step(name string) error {
	w.Calls++
	if w.OnCall != nil {
		w.OnCall()
	}
	if w.Failed {
		w.After++
		return w.Err
	}
	if w.Trace {
		w.Steps = append(w.Steps, name)
	}
	if w.FailAt > 0 && w.Calls == w.FailAt {
		w.Failed = true
		return w.Err
	}
	return nil
}

func (w *WMon) viol(format string, args ...any) {
	if w.Viol == "" {
		w.Viol = fmt.Sprintf("call %d: ", w.Calls) + fmt.Sprintf(format, args...)
	}
}

func (w *WMon) top() *frame {
	if len(w.stack) == 0 {
		return nil
	}
	return &w.stack[len(w.stack)-1]
}

// begin a value of type t: check that the position allows it.
func (w *WMon) value(name string, t tm.Type) bool {
	f := w.top()
	if f == nil {
		return true
	}
	switch f.kind {
	case tm.Struct:
		if !f.inField || f.done {
			w.viol("%s where a field header or the end of the struct is due", name)
			return false
		}
		if ft := f.v.Fs[len(f.v.Fs)-1].V.T; ft != t {
			w.viol("%s writes a %v value but the field header announced %v", name, t, ft)
			return false
		}
	default:
		if f.want <= 0 {
			w.viol("%s: more elements than the header announced", name)
			return false
		}
		et := f.v.E
		if f.kind == tm.Map && f.want%2 == 0 {
			et = f.v.K
		}
		if et != t {
			w.viol("%s writes a %v value but the container header announced %v", name, t, et)
			return false
		}
	}
	return true
}

// complete stores a finished value at the current position.
func (w *WMon) complete(v tm.Val) {
	f := w.top()
	if f == nil {
		w.Values = append(w.Values, v)
		return
	}
	switch f.kind {
	case tm.Struct:
		if len(f.v.Fs) == 0 {
			return
		}
		f.v.Fs[len(f.v.Fs)-1].V = v
		f.done = true
	default:
		f.v.L = append(f.v.L, v)
		f.want--
	}
}

func (w *WMon) push(f frame) {
	w.stack = append(w.stack, f)
	if len(w.stack) > w.MaxSeen {
		w.MaxSeen = len(w.stack)
	}
}

func (w *WMon) scalar(name string, v tm.Val) error {
	if err := w.step(name); err != nil {
		return err
	}
	w.value(name, v.T)
	w.complete(v)
	return nil
}

func (w *WMon) WriteMessageBegin(h thriftwire.MessageHeader) error {
	if err := w.step("MessageBegin"); err != nil {
		return err
	}
	w.viol("WriteMessageBegin called by Marshal")
	return nil
}
func (w *WMon) WriteMessageEnd() error {
	if err := w.step("MessageEnd"); err != nil {
		return err
	}
	w.viol("WriteMessageEnd called by Marshal")
	return nil
}
func (w *WMon) WriteStructBegin(h thriftwire.StructHeader) error {
	if err := w.step("StructBegin"); err != nil {
		return err
	}
	w.value("StructBegin", tm.Struct)
	w.push(frame{kind: tm.Struct, v: &tm.Val{T: tm.Struct}})
	return nil
}
func (w *WMon) WriteStructEnd() error {
	if err := w.step("StructEnd"); err != nil {
		return err
	}
	f := w.top()
	if f == nil || f.kind != tm.Struct || f.inField {
		w.viol("WriteStructEnd does not close a struct")
		return nil
	}
	w.stack = w.stack[:len(w.stack)-1]
	w.complete(*f.v)
	return nil
}
func (w *WMon) WriteFieldBegin(h thriftwire.FieldHeader) error {
	if err := w.step("FieldBegin"); err != nil {
		return err
	}
	f := w.top()
	if f == nil || f.kind != tm.Struct || f.inField {
		w.viol("WriteFieldBegin outside a struct or inside a field")
		return nil
	}
	if !tm.Type(h.Type).Valid() {
		w.viol("WriteFieldBegin with type %d", h.Type)
	}
	f.v.Fs = append(f.v.Fs, tm.Field{ID: h.ID, V: tm.Val{T: tm.Type(h.Type)}})
	f.inField, f.done = true, false
	return nil
}
func (w *WMon) WriteFieldEnd() error {
	if err := w.step("FieldEnd"); err != nil {
		return err
	}
	f := w.top()
	if f == nil || f.kind != tm.Struct || !f.inField || !f.done {
		w.viol("WriteFieldEnd without a complete field")
		return nil
	}
	f.inField = false
	return nil
}
func (w *WMon) container(name string, v tm.Val, n, want int) error {
	if err := w.step(name); err != nil {
		return err
	}
	w.value(name, v.T)
	if n < 0 {
		w.viol("%s with size %d", name, n)
	}
	if n > 0 {
		if !v.E.Valid() || v.T == tm.Map && !v.K.Valid() {
			w.viol("%s with element type %d %d", name, v.K, v.E)
		}
	}
	w.push(frame{kind: v.T, v: &v, want: want})
	return nil
}
func (w *WMon) containerEnd(name string, t tm.Type) error {
	if err := w.step(name); err != nil {
		return err
	}
	f := w.top()
	if f == nil || f.kind != t {
		w.viol("%s does not close a %v", name, t)
		return nil
	}
	if f.want != 0 {
		w.viol("%s: %d values missing", name, f.want)
	}
	w.stack = w.stack[:len(w.stack)-1]
	w.complete(*f.v)
	return nil
}
func (w *WMon) WriteMapBegin(h thriftwire.MapHeader) error {
	return w.container("MapBegin", tm.Val{T: tm.Map, K: tm.Type(h.Key), E: tm.Type(h.Value)}, h.Size, 2*h.Size)
}
func (w *WMon) WriteMapEnd() error { return w.containerEnd("MapEnd", tm.Map) }
func (w *WMon) WriteSetBegin(h thriftwire.SetHeader) error {
	return w.container("SetBegin", tm.Val{T: tm.Set, E: tm.Type(h.Element)}, h.Size, h.Size)
}
func (w *WMon) WriteSetEnd() error { return w.containerEnd("SetEnd", tm.Set) }
func (w *WMon) WriteListBegin(h thriftwire.ListHeader) error {
	return w.container("ListBegin", tm.Val{T: tm.List, E: tm.Type(h.Element)}, h.Size, h.Size)
}
func (w *WMon) WriteListEnd() error    { return w.containerEnd("ListEnd", tm.List) }
func (w *WMon) WriteBool(v bool) error { return w.scalar("Bool", tm.BoolV(v)) }
func (w *WMon) WriteByte(v byte) error { return w.scalar("Byte", tm.IntV(tm.Byte, int64(v))) }
func (w *WMon) WriteI16(v int16) error { return w.scalar("I16", tm.IntV(tm.I16, int64(v))) }
func (w *WMon) WriteI32(v int32) error { return w.scalar("I32", tm.IntV(tm.I32, int64(v))) }
func (w *WMon) WriteI64(v int64) error { return w.scalar("I64", tm.IntV(tm.I64, v)) }
func (w *WMon) WriteDouble(v float64) error {
	return w.scalar("Double", tm.Val{T: tm.Double, F: math.Float64bits(v)})
}
func (w *WMon) WriteString(v string) error { return w.scalar("String", tm.StringV(v)) }
func (w *WMon) WriteBytes(v []byte) error {
	return w.scalar("Bytes", tm.Val{T: tm.String, S: append([]byte{}, v...)})
}
func (w *WMon) WriteUUID(v *[16]byte) error { return w.scalar("UUID", tm.Val{T: tm.UUID, U: *v}) }
func (w *WMon) Flush() error {
	if err := w.step("Flush"); err != nil {
		return err
	}
	w.viol("Flush called by Marshal")
	return nil
}
func (w *WMon) Reset(io.Writer) {
	w.step("Reset")
	w.viol("Reset called by Marshal")
}

// Balanced reports whether nothing is open and exactly one value was written.
func (w *WMon) Balanced() bool { return len(w.stack) == 0 && len(w.Values) == 1 }

var _ thriftwire.Writer = (*WMon)(nil)
