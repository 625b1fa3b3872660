package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// spot is a place in a value: the Go type there, nil in a field nobody knows,
// and the type announced for it.
type spot struct {
	d *gg.Desc
	t tm.Type
}

type place struct {
	spot // the open structure
	kv   [2]spot
	n    int  // container: values that came
	size int  // container: values that are to come
	in   bool // struct: a field is open and its value, kv[0], is due
}

// follow knows where in the Go type the Writer or Reader calls are.
type follow struct {
	top   spot
	used  bool
	stack []place

	failed bool
	call   string // the call that failed
	at     spot   // what it was about
	err    error
}

func newFollow(d *gg.Desc) *follow { return &follow{top: spot{d.Base(), d.W}} }

// due is the value due now, or else the open structure.
func (f *follow) due() spot {
	if len(f.stack) == 0 {
		return f.top
	}
	p := &f.stack[len(f.stack)-1]
	switch {
	case p.t == tm.Struct && p.in:
		return p.kv[0]
	case p.t == tm.Map && p.n/2 < p.size:
		return p.kv[p.n%2]
	case p.t != tm.Struct && p.t != tm.Map && p.n < p.size:
		return p.kv[0]
	}
	return p.spot
}

// ran notes that call about s returned err.
func (f *follow) ran(call string, s spot, err error) bool {
	if f.failed {
		return false
	}
	if err != nil {
		f.failed, f.call, f.at, f.err = true, call, s, err
		return false
	}
	return true
}

func (f *follow) scalar(call string, err error) error {
	if f.ran(call, f.due(), err) {
		f.got()
	}
	return err
}

func (f *follow) got() {
	if len(f.stack) == 0 {
		return
	}
	p := &f.stack[len(f.stack)-1]
	p.in = false
	p.n++
}

func (f *follow) begin(call string, err error, size int, kv ...tm.Type) error {
	s := f.due()
	if f.ran(call, s, err) {
		p := place{spot: s, size: size}
		for i, t := range kv {
			p.kv[i].t = t
		}
		if d := s.d; d != nil && len(kv) > 0 {
			if d.Elem != nil {
				p.kv[len(kv)-1].d = d.Elem.Base()
			}
			if d.Key != nil {
				p.kv[0].d = d.Key.Base()
			}
		}
		f.stack = append(f.stack, p)
	}
	return err
}

// part is a call about the open structure itself.
func (f *follow) part(call string, err error) (*place, error) {
	var s spot
	if n := len(f.stack); n > 0 {
		s = f.stack[n-1].spot
	}
	if f.ran(call, s, err) && len(f.stack) > 0 {
		return &f.stack[len(f.stack)-1], nil
	}
	return nil, err
}

func (f *follow) end(call string, err error) error {
	if p, _ := f.part(call, err); p != nil {
		f.stack = f.stack[:len(f.stack)-1]
		f.got()
	}
	return err
}

func (f *follow) field(call string, err error, t tm.Type, id int16) error {
	if p, _ := f.part(call, err); p != nil && t != tm.Stop {
		p.in, p.kv[0] = true, spot{t: t}
		if p.d != nil {
			if fd := p.d.FieldByID(id); fd != nil {
				p.kv[0].d = fd.D.Base()
			}
		}
	}
	return err
}

func (f *follow) fieldEnd(call string, err error) error {
	_, err = f.part(call, err)
	return err
}

// followW and followR watch the calls on their way to a Writer or Reader.
type followW struct {
	thriftwire.Writer
	f *follow
}

func (w followW) WriteStructBegin(h thriftwire.StructHeader) error {
	return w.f.begin("WriteStructBegin", w.Writer.WriteStructBegin(h), 0)
}
func (w followW) WriteStructEnd() error {
	return w.f.end("WriteStructEnd", w.Writer.WriteStructEnd())
}
func (w followW) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return w.f.field("WriteFieldBegin", w.Writer.WriteFieldBegin(h), tm.Type(h.Type), h.ID)
}
func (w followW) WriteFieldEnd() error {
	return w.f.fieldEnd("WriteFieldEnd", w.Writer.WriteFieldEnd())
}
func (w followW) WriteMapBegin(h thriftwire.MapHeader) error {
	return w.f.begin("WriteMapBegin", w.Writer.WriteMapBegin(h), h.Size, tm.Type(h.Key), tm.Type(h.Value))
}
func (w followW) WriteMapEnd() error { return w.f.end("WriteMapEnd", w.Writer.WriteMapEnd()) }
func (w followW) WriteSetBegin(h thriftwire.SetHeader) error {
	return w.f.begin("WriteSetBegin", w.Writer.WriteSetBegin(h), h.Size, tm.Type(h.Element))
}
func (w followW) WriteSetEnd() error { return w.f.end("WriteSetEnd", w.Writer.WriteSetEnd()) }
func (w followW) WriteListBegin(h thriftwire.ListHeader) error {
	return w.f.begin("WriteListBegin", w.Writer.WriteListBegin(h), h.Size, tm.Type(h.Element))
}
func (w followW) WriteListEnd() error { return w.f.end("WriteListEnd", w.Writer.WriteListEnd()) }
func (w followW) WriteBool(v bool) error {
	return w.f.scalar("WriteBool", w.Writer.WriteBool(v))
}
func (w followW) WriteByte(v byte) error {
	return w.f.scalar("WriteByte", w.Writer.WriteByte(v))
}
func (w followW) WriteDouble(v float64) error {
	return w.f.scalar("WriteDouble", w.Writer.WriteDouble(v))
}
func (w followW) WriteI16(v int16) error { return w.f.scalar("WriteI16", w.Writer.WriteI16(v)) }
func (w followW) WriteI32(v int32) error { return w.f.scalar("WriteI32", w.Writer.WriteI32(v)) }
func (w followW) WriteI64(v int64) error { return w.f.scalar("WriteI64", w.Writer.WriteI64(v)) }
func (w followW) WriteString(v string) error {
	return w.f.scalar("WriteString", w.Writer.WriteString(v))
}
func (w followW) WriteBytes(v []byte) error {
	return w.f.scalar("WriteBytes", w.Writer.WriteBytes(v))
}
func (w followW) WriteUUID(v *[16]byte) error {
	return w.f.scalar("WriteUUID", w.Writer.WriteUUID(v))
}

type followR struct {
	thriftwire.Reader
	f *follow
}

func (r followR) ReadStructBegin() (thriftwire.StructHeader, error) {
	h, err := r.Reader.ReadStructBegin()
	return h, r.f.begin("ReadStructBegin", err, 0)
}
func (r followR) ReadStructEnd() error { return r.f.end("ReadStructEnd", r.Reader.ReadStructEnd()) }
func (r followR) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	h, err := r.Reader.ReadFieldBegin()
	return h, r.f.field("ReadFieldBegin", err, tm.Type(h.Type), h.ID)
}
func (r followR) ReadFieldEnd() error {
	return r.f.fieldEnd("ReadFieldEnd", r.Reader.ReadFieldEnd())
}
func (r followR) ReadMapBegin() (thriftwire.MapHeader, error) {
	h, err := r.Reader.ReadMapBegin()
	return h, r.f.begin("ReadMapBegin", err, h.Size, tm.Type(h.Key), tm.Type(h.Value))
}
func (r followR) ReadMapEnd() error { return r.f.end("ReadMapEnd", r.Reader.ReadMapEnd()) }
func (r followR) ReadSetBegin() (thriftwire.SetHeader, error) {
	h, err := r.Reader.ReadSetBegin()
	return h, r.f.begin("ReadSetBegin", err, h.Size, tm.Type(h.Element))
}
func (r followR) ReadSetEnd() error { return r.f.end("ReadSetEnd", r.Reader.ReadSetEnd()) }
func (r followR) ReadListBegin() (thriftwire.ListHeader, error) {
	h, err := r.Reader.ReadListBegin()
	return h, r.f.begin("ReadListBegin", err, h.Size, tm.Type(h.Element))
}
func (r followR) ReadListEnd() error { return r.f.end("ReadListEnd", r.Reader.ReadListEnd()) }
func (r followR) ReadBool() (bool, error) {
	v, err := r.Reader.ReadBool()
	return v, r.f.scalar("ReadBool", err)
}
func (r followR) ReadByte() (byte, error) {
	v, err := r.Reader.ReadByte()
	return v, r.f.scalar("ReadByte", err)
}
func (r followR) ReadDouble() (float64, error) {
	v, err := r.Reader.ReadDouble()
	return v, r.f.scalar("ReadDouble", err)
}
func (r followR) ReadI16() (int16, error) {
	v, err := r.Reader.ReadI16()
	return v, r.f.scalar("ReadI16", err)
}
func (r followR) ReadI32() (int32, error) {
	v, err := r.Reader.ReadI32()
	return v, r.f.scalar("ReadI32", err)
}
func (r followR) ReadI64() (int64, error) {
	v, err := r.Reader.ReadI64()
	return v, r.f.scalar("ReadI64", err)
}
func (r followR) ReadString() (string, error) {
	v, err := r.Reader.ReadString()
	return v, r.f.scalar("ReadString", err)
}
func (r followR) ReadBytes(b []byte) ([]byte, error) {
	v, err := r.Reader.ReadBytes(b)
	return v, r.f.scalar("ReadBytes", err)
}
func (r followR) ReadUUID(p *[16]byte) error { return r.f.scalar("ReadUUID", r.Reader.ReadUUID(p)) }
func (r followR) SkipString() error          { return r.f.scalar("SkipString", r.Reader.SkipString()) }
func (r followR) SkipUUID() error            { return r.f.scalar("SkipUUID", r.Reader.SkipUUID()) }

// told checks what an error of Marshal or Unmarshal says against where the
// calls were: at the call that failed or, if none did, at the value due then.
func told(k *core.K, f *follow, action string, err error) {
	s, call := f.at, f.call
	if !f.failed {
		s, call = f.due(), ""
	}
	if s.d == nil {
		k.Count("errors_in_unknown_fields", 1)
		return
	}
	where := fmt.Sprintf("%s failed in a %v (%v)", action, s.d.T, s.t)
	if call != "" {
		where = fmt.Sprintf("%s failed for a %v (%v)", call, s.d.T, s.t)
	}
	var se *thrift.SemanticError
	if !errors.As(err, &se) {
		k.Fail("%s: not a SemanticError: %T %v", where, err, err)
	}
	g := se.GoType
	for g != nil && g.Kind() == reflect.Pointer && g != s.d.T {
		g = g.Elem()
	}
	if g != s.d.T {
		k.Fail("%s: the error has GoType %v: %v", where, se.GoType, err)
	}
	if tm.Type(se.ThriftType) != s.t {
		k.Fail("%s: the error has ThriftType %v: %v", where, se.ThriftType, err)
	}
	text, words := says(k, where, se)
	if words["marshal"] != (action == "Marshal") || words["unmarshal"] != (action == "Unmarshal") {
		k.Fail("%s: the text does not say so: %q", where, text)
	}
	if call != "" {
		if !mon.IsErr(err, f.err) {
			k.Fail("%s: the error does not wrap %v: %v", where, f.err, err)
		}
		if !strings.Contains(text, call) || !strings.Contains(text, f.err.Error()) {
			k.Fail("%s with %q: the text does not say so: %q", where, f.err, text)
		}
		k.Count("failing_calls", 1)
	} else {
		k.Count("refusals", 1)
	}
	k.Hit(fmt.Sprint(action, call, s.t, s.d.T))
}

var thriftNames = map[tm.Type]string{
	tm.Bool: "bool", tm.Byte: "byte", tm.Double: "double", tm.I16: "i16", tm.I32: "i32", tm.I64: "i64",
	tm.String: "string", tm.Struct: "struct", tm.Map: "map", tm.Set: "set", tm.List: "list", tm.UUID: "uuid",
}

// says checks that the text of se has the types and the error in it. It
// returns the text and the words in it besides the Go type and the error.
func says(k *core.K, where string, se *thrift.SemanticError) (string, map[string]bool) {
	text := se.Error()
	rest := text
	if se.Err != nil {
		e := se.Err.Error()
		i := strings.LastIndex(rest, e)
		if i < 0 {
			k.Fail("%s: the text does not have that of %v: %q", where, se.Err, text)
		}
		rest = rest[:i] + rest[i+len(e):]
	}
	if se.GoType != nil {
		g := se.GoType.String()
		i := strings.LastIndex(rest, g)
		if i < 0 {
			k.Fail("%s: the text does not name the Go type %v: %q", where, g, text)
		}
		rest = rest[:i] + rest[i+len(g):]
	}
	words := map[string]bool{}
	for _, w := range strings.FieldsFunc(strings.ToLower(rest), func(r rune) bool {
		return !('a' <= r && r <= 'z' || '0' <= r && r <= '9')
	}) {
		words[w] = true
	}
	if n := thriftNames[tm.Type(se.ThriftType)]; n != "" && !words[n] {
		k.Fail("%s: the text does not name the Thrift type %v: %q", where, se.ThriftType, text)
	}
	return text, words
}

// blames checks that err names one of the Go types in ok and the direction.
func blames(k *core.K, where, action string, err error, ok map[reflect.Type]bool) {
	var se *thrift.SemanticError
	if !errors.As(err, &se) {
		k.Fail("%s: not a SemanticError: %T %v", where, err, err)
	}
	if !ok[se.GoType] {
		k.Fail("%s: the error has GoType %v: %v", where, se.GoType, err)
	}
	text, words := says(k, where, se)
	if words["marshal"] != (action == "Marshal") || words["unmarshal"] != (action == "Unmarshal") {
		k.Fail("%s: the text does not say so: %q", where, text)
	}
	k.Count("types_blamed", 1)
	k.Hit(fmt.Sprint(action, se.GoType))
}

// plain is an error to inject with a text that stays the same.
func plain(r *core.Rand) error {
	if r.Bool() {
		return fmt.Errorf("fault %d: %w", r.Intn(1e9), io.ErrNoProgress)
	}
	return fmt.Errorf("fault %d", r.Intn(1e9))
}

func c28(c *core.Ctx) {
	pick := func(k *core.K) *gg.Desc {
		t := typeFor(k)
		if k.R.P(1, 2) {
			t = structTypeFor(k)
		}
		k.Note("type %v", t)
		return gg.Describe(t)
	}
	c.Cases("write", c.N(30000, 500000), func(k *core.K) {
		d := pick(k)
		v := valueFor(k, d)
		count := &mon.WMon{}
		if err := thrift.Marshal(count, arg(k.R, v)); err != nil {
			k.Fail("Marshal(%v): %v", d.T, err)
		}
		for i := 0; i < 4; i++ {
			w := &mon.WMon{FailAt: 1 + k.R.Intn(count.Calls), Err: plain(k.R)}
			if i == 0 {
				w.FailAt = count.Calls
			}
			f := newFollow(d)
			err := thrift.Marshal(followW{w, f}, arg(k.R, v))
			if err == nil {
				k.Fail("Marshal(%v): call %d fails and there is no error", d.T, w.FailAt)
			}
			told(k, f, "Marshal", err)
		}
	})
	c.Cases("write-stream", c.N(4000, 60000), func(k *core.K) {
		d := pick(k)
		v := valueFor(k, d)
		p := mon.Two[k.R.Intn(2)]
		f := newFollow(d)
		w := p.P.NewWriter(&limited{n: k.R.Intn(5000), err: plain(k.R)})
		for i := 0; i < 200; i++ {
			f = newFollow(d)
			if err := thrift.Marshal(followW{w, f}, arg(k.R, v)); err != nil {
				told(k, f, "Marshal", err)
				return
			}
		}
	})
	c.Cases("read", c.N(30000, 500000), func(k *core.K) {
		d := pick(k)
		m := gg.Model(valueFor(k, d), d)
		if k.R.Bool() {
			m, _ = gg.Inject(k.R, m, d, k.R.Bool())
		}
		count := &mon.RMon{V: m}
		if err := thrift.Unmarshal(count, freshFor(k, d).Addr().Interface()); err != nil {
			k.Fail("Unmarshal(%v): %v", d.T, err)
		}
		for i := 0; i < 4; i++ {
			r := &mon.RMon{V: m, FailAt: 1 + k.R.Intn(count.Calls), Err: plain(k.R), Junk: k.R.Bool(), Names: k.R.Bool()}
			if i == 0 {
				r.FailAt = count.Calls
			}
			f := newFollow(d)
			err := thrift.Unmarshal(followR{r, f}, freshFor(k, d).Addr().Interface())
			if err == nil {
				k.Fail("Unmarshal(%v): call %d fails and there is no error", d.T, r.FailAt)
			}
			told(k, f, "Unmarshal", err)
		}
	})
	c.Cases("read-stream", c.N(12000, 200000), func(k *core.K) {
		d := pick(k)
		m := gg.Model(valueFor(k, d), d)
		p := mon.Two[k.R.Intn(2)]
		b := encRef(k.R, p, nil, m)
		if k.R.Bool() {
			b = append([]byte{}, b...)
			b[k.R.Intn(len(b))] ^= 1 << k.R.Intn(8)
		}
		for i := 0; i < 4; i++ {
			f := newFollow(d)
			r := p.P.NewReader(bytes.NewReader(b[:len(b)-k.R.Intn(len(b)+1)]))
			dst := freshFor(k, d)
			err := thrift.Unmarshal(followR{r, f}, dst.Addr().Interface())
			if err == nil {
				continue
			}
			told(k, f, "Unmarshal", err)
		}
	})
	c.Cases("mismatch", c.N(24000, 400000), func(k *core.K) {
		d := pick(k)
		m := gg.Model(valueFor(k, d), d)
		count := &mismatcher{r: k.R, target: -1}
		count.walk(m, d, nil, true)
		if count.n == 0 {
			return
		}
		x := &mismatcher{r: k.R, target: k.R.Intn(count.n)}
		m = x.walk(m, d, nil, true)
		if k.R.P(1, 3) {
			m = injectPrefix(k.R, m, d)
		}
		var r thriftwire.Reader = &mon.RMon{V: m, Names: k.R.Bool(), EmptyStop: k.R.Bool()}
		if k.R.Bool() {
			p := mon.Two[k.R.Intn(2)]
			r = p.P.NewReader(bytes.NewReader(encRef(k.R, p, nil, m)))
		}
		f := newFollow(d)
		err := thrift.Unmarshal(followR{r, f}, freshFor(k, d).Addr().Interface())
		if err == nil {
			k.Fail("%v: %s of type %v arrived as %v: no error", d.T, x.hit.what, x.hit.want, x.got)
		}
		told(k, f, "Unmarshal", err)
	})
	c.Cases("depth", c.N(24, 240), func(k *core.K) {
		v, m := chain(k.R, maxLevels+1+k.R.Intn(3), k.R.Intn(8))
		d := gg.Describe(v.Type())
		f := newFollow(d)
		err := thrift.Marshal(followW{&mon.WMon{}, f}, v.Addr().Interface())
		if err == nil {
			k.Fail("Marshal of a %v beyond the limit: no error", d.T)
		}
		told(k, f, "Marshal", err)
		f = newFollow(d)
		err = thrift.Unmarshal(followR{&mon.RMon{V: m}, f}, reflect.New(v.Type()).Interface())
		if err == nil {
			k.Fail("Unmarshal into a %v beyond the limit: no error", d.T)
		}
		told(k, f, "Unmarshal", err)
	})
	c.Cases("types", c.N(2000, 20000), func(k *core.K) { badType(k, thriftwire.Type(k.I)) })
	c.Cases("unsupported", c.N(12000, 120000), func(k *core.K) {
		t := badLeaf[k.I%len(badLeaf)]
		x, m, must, on := nest(k, t)
		// Those that may be named: the type, the container it is in, pointers to them.
		ok := map[reflect.Type]bool{}
		containers := 0
		for i, u := range on {
			if i > 0 && u.Kind() != reflect.Pointer {
				containers++
			}
			if containers < 2 {
				ok[u] = true
			}
		}
		k.Note("type %v", x.Type())
		for i := 0; i < 2; i++ {
			p := mon.Two[k.R.Intn(2)]
			err := thrift.Marshal(p.P.NewWriter(io.Discard), arg(k.R, x))
			if err == nil && must {
				k.Fail("Marshal of a %v: no error", x.Type())
			}
			if err != nil {
				blames(k, fmt.Sprintf("Marshal of a %v", x.Type()), "Marshal", err, ok)
			}
			err = thrift.Unmarshal(p.P.NewReader(bytes.NewReader(encRef(k.R, p, nil, m))), reflect.New(x.Type()).Interface())
			blames(k, fmt.Sprintf("Unmarshal of %s into a %v", short(m.Render(false)), x.Type()), "Unmarshal", err, ok)
		}
	})
	c.Cases("bad-tags", c.N(6000, 60000), func(k *core.K) {
		t := genTagged(k, 1+k.R.Intn(3))
		if tagBad(t) == "" {
			return
		}
		ok := map[reflect.Type]bool{t: true}
		var errs []error
		var actions []string
		for i := 0; i < 4; i++ {
			p := mon.Two[k.R.Intn(2)]
			if k.R.Bool() {
				errs = append(errs, thrift.Marshal(p.P.NewWriter(io.Discard), reflect.New(t).Interface()))
				actions = append(actions, "Marshal")
			} else {
				errs = append(errs, thrift.Unmarshal(p.P.NewReader(bytes.NewReader(make([]byte, 9))), reflect.New(t).Interface()))
				actions = append(actions, "Unmarshal")
			}
		}
		for i, err := range errs { // after all calls
			blames(k, fmt.Sprintf("%s of a %v", actions[i], t), actions[i], err, ok)
		}
	})
	marshalBad, unmarshalBad := nilArgs()
	c.Cases("arguments", 2*(len(marshalBad)+len(unmarshalBad)), func(k *core.K) {
		p := mon.Two[k.I%2]
		i := k.I / 2
		action, x := "Marshal", any(nil)
		var err error
		if i < len(marshalBad) {
			x = marshalBad[i]
			err = thrift.Marshal(p.P.NewWriter(io.Discard), x)
		} else {
			action, x = "Unmarshal", unmarshalBad[i-len(marshalBad)]
			err = thrift.Unmarshal(p.P.NewReader(bytes.NewReader(make([]byte, 20))), x)
		}
		ok := map[reflect.Type]bool{}
		if t := reflect.TypeOf(x); t == nil {
			ok[nil] = true
		} else {
			ok[t] = true
			if t.Kind() == reflect.Pointer {
				ok[t.Elem()] = true
			}
		}
		blames(k, fmt.Sprintf("%s with a %T", action, x), action, err, ok)
	})
	c.Cases("made", c.N(4000, 40000), func(k *core.K) {
		se := &thrift.SemanticError{ThriftType: thriftwire.Type(k.R.Intn(18))}
		if k.R.Bool() {
			se.GoType = typeFor(k)
		}
		if k.R.Bool() {
			se.Err = plain(k.R)
		}
		text, words := says(k, "a SemanticError of the caller", se)
		if text == "" || errors.Unwrap(se) != se.Err {
			k.Fail("a SemanticError of %v, %v and %v: text %q, wraps %v", se.ThriftType, se.GoType, se.Err, text, errors.Unwrap(se))
		}
		if words["marshal"] || words["unmarshal"] {
			k.Fail("a SemanticError of the caller: %q", text)
		}
		k.Count("made", 1)
		k.Hit(fmt.Sprint(se.ThriftType, se.GoType))
	})
}

// limited takes n bytes and fails.
type limited struct {
	n   int
	err error
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, l.err
	}
	l.n -= len(p)
	return len(p), nil
}

var typeNames = map[thriftwire.Type]string{
	0: "stop", 2: "bool", 3: "byte", 4: "double", 6: "i16", 8: "i32", 10: "i64", 11: "string", 12: "struct", 13: "map", 14: "set", 15: "list", 16: "uuid",
}

// badType checks how every function that can tell reports t, if it is no type.
func badType(k *core.K, t thriftwire.Type) {
	name, ok := typeNames[t]
	if !ok {
		name = fmt.Sprint(byte(t))
	}
	mname := fmt.Sprint(byte(t))
	if 1 <= t && t <= 4 {
		mname = []string{"call", "reply", "exception", "oneway"}[t-1]
	}
	for what, texts := range map[string][2]string{
		"Type.String":                   {t.String(), name},
		"InvalidTypeError.Error":        {thriftwire.InvalidTypeError(t).Error(), name},
		"MessageType.String":            {thriftwire.MessageType(t).String(), mname},
		"InvalidMessageTypeError.Error": {thriftwire.InvalidMessageTypeError(t).Error(), mname},
	} {
		found := false
		for _, w := range strings.FieldsFunc(strings.ToLower(texts[0]), func(r rune) bool {
			return !('a' <= r && r <= 'z' || '0' <= r && r <= '9')
		}) {
			found = found || w == texts[1]
		}
		if !found {
			k.Fail("%s of %d: %q does not have %q", what, byte(t), texts[0], texts[1])
		}
		k.Count("texts_of_types", 1)
	}
	if ok {
		return
	}
	refused := func(what string, err error, bad ...thriftwire.Type) {
		var it thriftwire.InvalidTypeError
		if !errors.As(err, &it) {
			k.Fail("%s with type %d: not an InvalidTypeError: %T %v", what, byte(t), err, err)
		}
		for _, b := range bad {
			if thriftwire.Type(it) == b {
				k.Count("invalid_types", 1)
				return
			}
		}
		k.Fail("%s with type %d: the error is about type %d", what, byte(t), byte(it))
	}
	good := core.Pick(k.R, thriftwire.Bool, thriftwire.I32, thriftwire.String, thriftwire.Struct, thriftwire.Map, thriftwire.UUID)
	n := 1 + gg.Len(k.R, 30)
	pre := make([]byte, k.R.Intn(4))
	last := int16(gg.Int(k.R))
	_, err := thriftcompact.AppendFieldHeader(pre, thriftwire.FieldHeader{Type: t, ID: int16(gg.Int(k.R))}, k.R.Bool(), last)
	refused("AppendFieldHeader", err, t)
	_, err = thriftcompact.AppendSetHeader(pre, thriftwire.SetHeader{Element: t, Size: n})
	refused("AppendSetHeader", err, t)
	_, err = thriftcompact.AppendListHeader(pre, thriftwire.ListHeader{Element: t, Size: n})
	refused("AppendListHeader", err, t)
	kv := [2]thriftwire.Type{t, good}
	bad := []thriftwire.Type{t}
	switch k.R.Intn(3) {
	case 0:
		kv = [2]thriftwire.Type{good, t}
	case 1:
		other := thriftwire.Type(k.R.Intn(256))
		if _, ok := typeNames[other]; !ok {
			kv, bad = [2]thriftwire.Type{t, other}, append(bad, other)
		}
	}
	_, err = thriftcompact.AppendMapHeader(pre, thriftwire.MapHeader{Key: kv[0], Value: kv[1], Size: n})
	refused("AppendMapHeader", err, bad...)
	w := thriftcompact.Protocol.NewWriter(io.Discard)
	switch k.R.Intn(4) {
	case 0:
		if err := w.WriteStructBegin(thriftwire.StructHeader{}); err != nil {
			k.Fail("WriteStructBegin: %v", err)
		}
		refused("compact WriteFieldBegin", w.WriteFieldBegin(thriftwire.FieldHeader{Type: t, ID: last}), t)
	case 1:
		refused("compact WriteSetBegin", w.WriteSetBegin(thriftwire.SetHeader{Element: t, Size: n}), t)
	case 2:
		refused("compact WriteListBegin", w.WriteListBegin(thriftwire.ListHeader{Element: t, Size: n}), t)
	default:
		refused("compact WriteMapBegin", w.WriteMapBegin(thriftwire.MapHeader{Key: kv[0], Value: kv[1], Size: n}), bad...)
	}
	if t == thriftwire.Stop {
		return
	}

	// Skip, of a value, of what is in it, and in Unmarshal.
	refused("Skip", thriftwire.Skip(&mon.RMon{V: tm.BoolV(true)}, t), t)
	inner := tm.Val{T: tm.Type(t)}
	for i := k.R.Intn(5); i > 0; i-- {
		switch k.R.Intn(5) {
		case 0:
			inner = tm.Val{T: tm.List, E: inner.T, L: []tm.Val{inner}}
		case 1:
			inner = tm.Val{T: tm.Set, E: inner.T, L: []tm.Val{inner}}
		case 2:
			inner = tm.Val{T: tm.Map, K: tm.Byte, E: inner.T, L: []tm.Val{tm.IntV(tm.Byte, 1), inner}}
		case 3:
			inner = tm.Val{T: tm.Map, K: inner.T, E: tm.Byte, L: []tm.Val{inner, tm.IntV(tm.Byte, 1)}}
		default:
			inner = tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: tm.IntV(tm.I16, 7)}, {ID: 2, V: inner}}}
		}
	}
	refused("Skip", thriftwire.Skip(&mon.RMon{V: inner}, thriftwire.Type(inner.T)), t)
	m := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 77, V: inner}}}
	var dst struct {
		A int32 `thrift:"1"`
	}
	refused("Unmarshal", thrift.Unmarshal(&mon.RMon{V: m}, &dst), t)
	k.Hit(fmt.Sprint(t, inner.Render(false)))
}
