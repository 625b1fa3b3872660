package mon

import (
	"fmt"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// Proto is one of the protocols together with its reference codec.
type Proto struct {
	Name   string
	P      thriftwire.Protocol
	Enc    func(b []byte, v tm.Val) []byte
	EncMsg func(b []byte, m tm.Msg) []byte
	Dec    func(b []byte, t tm.Type) (tm.Val, int, error)
	// EncHeader is the header of a container like v that has n elements.
	EncHeader func(b []byte, v tm.Val, n int) []byte
}

var Binary = Proto{"binary", thriftbinary.Protocol, tm.EncBinary,
	func(b []byte, m tm.Msg) []byte { return tm.EncBinaryMsg(b, m, true) }, tm.DecBinary, tm.EncBinaryHeader}
var NonStrict = Proto{"nonstrict", thriftbinary.ProtocolNonStrict, tm.EncBinary,
	func(b []byte, m tm.Msg) []byte { return tm.EncBinaryMsg(b, m, false) }, tm.DecBinary, tm.EncBinaryHeader}
var Compact = Proto{"compact", thriftcompact.Protocol,
	func(b []byte, v tm.Val) []byte { return tm.EncCompact(b, v, tm.Alt{}) }, tm.EncCompactMsg, tm.DecCompact,
	func(b []byte, v tm.Val, n int) []byte { return tm.EncCompactHeader(b, v, n, tm.Alt{}) }}

// Protos are all protocols.
var Protos = []Proto{Binary, NonStrict, Compact}

// Two are the two value encodings.
var Two = []Proto{Binary, Compact}

// WriteVal writes v through w the way a generated client would.
func WriteVal(w thriftwire.Writer, v tm.Val, r *core.Rand) error {
	switch v.T {
	case tm.Bool:
		return w.WriteBool(v.I != 0)
	case tm.Byte:
		return w.WriteByte(byte(v.I))
	case tm.I16:
		return w.WriteI16(int16(v.I))
	case tm.I32:
		return w.WriteI32(int32(v.I))
	case tm.I64:
		return w.WriteI64(v.I)
	case tm.Double:
		return w.WriteDouble(math.Float64frombits(v.F))
	case tm.String:
		if r != nil && r.Bool() {
			return w.WriteBytes(v.S)
		}
		return w.WriteString(string(v.S))
	case tm.UUID:
		u := v.U
		return w.WriteUUID(&u)
	case tm.Struct:
		if err := w.WriteStructBegin(thriftwire.StructHeader{Name: "s"}); err != nil {
			return err
		}
		for _, f := range v.Fs {
			if err := w.WriteFieldBegin(thriftwire.FieldHeader{Name: "f", Type: thriftwire.Type(f.V.T), ID: f.ID}); err != nil {
				return err
			}
			if err := WriteVal(w, f.V, r); err != nil {
				return err
			}
			if err := w.WriteFieldEnd(); err != nil {
				return err
			}
		}
		return w.WriteStructEnd()
	case tm.Map:
		if err := w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Type(v.K), Value: thriftwire.Type(v.E), Size: len(v.L) / 2}); err != nil {
			return err
		}
		for _, e := range v.L {
			if err := WriteVal(w, e, r); err != nil {
				return err
			}
		}
		return w.WriteMapEnd()
	case tm.Set:
		if err := w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(v.E), Size: len(v.L)}); err != nil {
			return err
		}
		for _, e := range v.L {
			if err := WriteVal(w, e, r); err != nil {
				return err
			}
		}
		return w.WriteSetEnd()
	case tm.List:
		if err := w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(v.E), Size: len(v.L)}); err != nil {
			return err
		}
		for _, e := range v.L {
			if err := WriteVal(w, e, r); err != nil {
				return err
			}
		}
		return w.WriteListEnd()
	}
	panic("mon: bad type")
}

// ReadVal reads a value of type t through r. If skip is set it is asked at
// every value whether to skip it instead (the result then misses that value).
func ReadVal(rd thriftwire.Reader, t tm.Type, r *core.Rand) (v tm.Val, err error) {
	v.T = t
	switch t {
	case tm.Bool:
		b, err := rd.ReadBool()
		return tm.BoolV(b), err
	case tm.Byte:
		x, err := rd.ReadByte()
		v.I = int64(x)
		return v, err
	case tm.I16:
		x, err := rd.ReadI16()
		v.I = int64(x)
		return v, err
	case tm.I32:
		x, err := rd.ReadI32()
		v.I = int64(x)
		return v, err
	case tm.I64:
		v.I, err = rd.ReadI64()
		return v, err
	case tm.Double:
		x, err := rd.ReadDouble()
		v.F = math.Float64bits(x)
		return v, err
	case tm.String:
		if r != nil && r.Bool() {
			pre := []byte("prefix")[:r.Intn(7)]
			b, err := rd.ReadBytes(append(make([]byte, 0, r.Intn(20)), pre...))
			if err != nil {
				return v, err
			}
			if len(b) < len(pre) || string(b[:len(pre)]) != string(pre) {
				return v, fmt.Errorf("ReadBytes lost its prefix %q: %.40q", pre, b)
			}
			v.S = b[len(pre):]
			return v, nil
		}
		s, err := rd.ReadString()
		v.S = []byte(s)
		return v, err
	case tm.UUID:
		err = rd.ReadUUID(&v.U)
		return v, err
	case tm.Struct:
		if _, err := rd.ReadStructBegin(); err != nil {
			return v, err
		}
		for {
			h, err := rd.ReadFieldBegin()
			if err != nil {
				return v, err
			}
			if h.Type == thriftwire.Stop {
				break
			}
			e, err := ReadVal(rd, tm.Type(h.Type), r)
			if err != nil {
				return v, err
			}
			v.Fs = append(v.Fs, tm.Field{ID: h.ID, V: e})
			if err := rd.ReadFieldEnd(); err != nil {
				return v, err
			}
		}
		return v, rd.ReadStructEnd()
	case tm.Map:
		h, err := rd.ReadMapBegin()
		if err != nil {
			return v, err
		}
		v.K, v.E = tm.Type(h.Key), tm.Type(h.Value)
		for i := 0; i < h.Size; i++ {
			k, err := ReadVal(rd, v.K, r)
			if err != nil {
				return v, err
			}
			e, err := ReadVal(rd, v.E, r)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, k, e)
		}
		return v, rd.ReadMapEnd()
	case tm.Set:
		h, err := rd.ReadSetBegin()
		if err != nil {
			return v, err
		}
		return elems(rd, v, h.Element, h.Size, rd.ReadSetEnd, r)
	case tm.List:
		h, err := rd.ReadListBegin()
		if err != nil {
			return v, err
		}
		return elems(rd, v, h.Element, h.Size, rd.ReadListEnd, r)
	}
	return v, fmt.Errorf("mon: reader announced type %d", t)
}

func elems(rd thriftwire.Reader, v tm.Val, e thriftwire.Type, n int, end func() error, r *core.Rand) (tm.Val, error) {
	v.E = tm.Type(e)
	for i := 0; i < n; i++ {
		x, err := ReadVal(rd, v.E, r)
		if err != nil {
			return v, err
		}
		v.L = append(v.L, x)
	}
	return v, end()
}
