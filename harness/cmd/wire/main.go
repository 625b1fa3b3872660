// Command wire is the worker for the properties of the thrift, thriftwire,
// thriftbinary and thriftcompact packages.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

func main() {
	props := map[string]func(*core.Ctx){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06,
		"C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12,
		"C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18,
		"C22": c22, "C26": c26, "C27": c27, "C28": c28, "C29": c29,
	}
	for id, f := range props {
		props[id] = warm(f)
	}
	core.Main(props)
}

var sentinel = [16]byte{0xde, 0xad, 0xbe, 0xef, 0x01, 0x02, 0x03, 0x04, 0xca, 0xfe, 0xba, 0xbe, 0xff, 0x80, 0x00, 0x7f}

// expectEnd reads the sentinel that follows a value and then the end of the
// stream: the value was consumed exactly.
func expectEnd(k *core.K, what string, r thriftwire.Reader) {
	var u [16]byte
	if err := r.ReadUUID(&u); err != nil {
		k.Fail("%s: consumed too much: reading what follows gives %v", what, err)
	}
	if u != sentinel {
		k.Fail("%s: not exactly the value was consumed: next bytes %x, want %x", what, u, sentinel)
	}
	expectEOF(k, what, r)
}

func expectEOF(k *core.K, what string, r thriftwire.Reader) {
	if b, err := r.ReadByte(); !errors.Is(err, io.EOF) {
		k.Fail("%s: not exactly the value was consumed: next byte %#x, %v", what, b, err)
	}
}

// typeFor picks the type of a case: first the registry in order, then random.
func typeFor(k *core.K) reflect.Type {
	if k.I < 2*len(gg.Registry) {
		return gg.Registry[k.I/2]
	}
	return gg.GenType(k.R)
}

// valueFor is a value whose parts may be the same variables.
func valueFor(k *core.K, d *gg.Desc) reflect.Value {
	v := freshFor(k, d)
	if k.R.P(1, 4) {
		k.Count("shared_parts", gg.Share(k.R, v, d))
	}
	return v
}

func freshFor(k *core.K, d *gg.Desc) reflect.Value {
	o := gg.DefaultOpts
	switch k.R.Intn(60) {
	case 0:
		o.BigBytes = 300000
		if k.R.Bool() {
			o.Size = 20
		}
	case 1:
		o.Depth, o.Size = 60, 300 // recursive types go deep
	}
	return gg.GenValue(k.R, d, o)
}

// arg is v as it may be passed to Marshal: a pointer to it or its value.
func arg(r *core.Rand, v reflect.Value) any {
	if v.Kind() != reflect.Pointer && v.Kind() != reflect.Interface && r.Bool() {
		return v.Interface()
	}
	return v.Addr().Interface()
}

func marshalTo(k *core.K, w thriftwire.Writer, v reflect.Value) {
	if err := thrift.Marshal(w, arg(k.R, v)); err != nil {
		k.Fail("Marshal(%v): %v", v.Type(), err)
	}
}

// marshal returns the bytes of v.
func marshal(k *core.K, p mon.Proto, v reflect.Value) []byte {
	var b bytes.Buffer
	w := p.P.NewWriter(&b)
	marshalTo(k, w, v)
	if err := w.Flush(); err != nil {
		k.Fail("%s: Flush: %v", p.Name, err)
	}
	return b.Bytes()
}

func nontrivial(s string) bool { return len(s) > 4 }

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// diff shows the first difference of two byte strings.
func diff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := func(x []byte) string {
		lo, hi := i-8, i+24
		if lo < 0 {
			lo = 0
		}
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("%x", x[lo:hi])
	}
	return fmt.Sprintf("first difference at %d of %d/%d bytes: got ...%s, want ...%s", i, len(a), len(b), at(a), at(b))
}

func diffs(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := func(x string) string {
		lo, hi := i-60, i+120
		if lo < 0 {
			lo = 0
		}
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			lo = hi
		}
		return x[lo:hi]
	}
	return fmt.Sprintf("got ...%q, want ...%q", at(a), at(b))
}

// mustEncode writes v through the writer of p.
func writeAll(k *core.K, p mon.Proto, vs ...tm.Val) []byte {
	var b bytes.Buffer
	w := p.P.NewWriter(&b)
	for _, v := range vs {
		if err := mon.WriteVal(w, v, k.R); err != nil {
			k.Fail("%s: writing %s: %v", p.Name, short(v.Render(false)), err)
		}
	}
	if err := w.Flush(); err != nil {
		k.Fail("%s: Flush: %v", p.Name, err)
	}
	return b.Bytes()
}

func randMsg(r *core.Rand) tm.Msg {
	m := tm.Msg{Type: byte(1 + r.Intn(4)), ID: int32(gg.Int(r))}
	n := gg.Len(r, 100)
	if r.P(1, 30) {
		n = gg.Len(r, 20000)
	}
	m.Name = gg.Str(r, n)
	return m
}

func header(m tm.Msg) thriftwire.MessageHeader {
	return thriftwire.MessageHeader{Name: string(m.Name), Type: thriftwire.MessageType(m.Type), ID: m.ID}
}

func sameHeader(h thriftwire.MessageHeader, m tm.Msg) bool {
	return h.Name == string(m.Name) && byte(h.Type) == m.Type && h.ID == m.ID
}

func rngAlt(r *core.Rand) tm.Alt {
	f := func(n int) func() bool {
		if n == 0 {
			return nil
		}
		return func() bool { return r.P(n, 4) }
	}
	return tm.Alt{LongField: f(r.Intn(5)), LongList: f(r.Intn(5)), BoolOne: f(r.Intn(5))}
}

// encRef encodes with the reference encoder, with any of the encodings the
// specification allows.
func encRef(r *core.Rand, p mon.Proto, b []byte, v tm.Val) []byte {
	if p.Name == "compact" {
		return tm.EncCompact(b, v, rngAlt(r))
	}
	return p.Enc(b, v)
}
