package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// item of a stream: a message header or a value.
type item struct {
	msg *tm.Msg
	v   tm.Val
}

func randItems(r *core.Rand) []item {
	var its []item
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		if r.P(1, 4) {
			m := randMsg(r)
			its = append(its, item{msg: &m})
		}
		depth := r.Intn(5)
		t := gg.RandType(r, depth)
		if r.P(1, 2) {
			t = tm.Struct
			depth++
		}
		its = append(its, item{v: gg.RandVal(r, t, depth)})
	}
	return its
}

func renderItems(its []item) string {
	s := ""
	for _, it := range its {
		if it.msg != nil {
			s += string(it.msg.Name) + string(rune(it.msg.ID))
		} else {
			s += it.v.Render(false)
		}
	}
	return s
}

func wireWrite(k *core.K, p mon.Proto) {
	its := randItems(k.R)
	var want []byte
	var b bytes.Buffer
	w := p.P.NewWriter(&b)
	for _, it := range its {
		if it.msg != nil {
			want = p.EncMsg(want, *it.msg)
			if err := w.WriteMessageBegin(header(*it.msg)); err != nil {
				k.Fail("%s: WriteMessageBegin: %v", p.Name, err)
			}
			k.Count("messages", 1)
			continue
		}
		want = p.Enc(want, it.v)
		if err := mon.WriteVal(w, it.v, k.R); err != nil {
			k.Fail("%s: writing %s: %v", p.Name, short(it.v.Render(false)), err)
		}
		if k.R.P(1, 4) {
			if err := w.WriteMessageEnd(); err != nil {
				k.Fail("%s: WriteMessageEnd: %v", p.Name, err)
			}
		}
		k.Count("values", 1)
	}
	if err := w.Flush(); err != nil {
		k.Fail("%s: Flush: %v", p.Name, err)
	}
	if !bytes.Equal(b.Bytes(), want) {
		k.Fail("%s: bytes differ from the specification for %s: %s", p.Name, short(renderItems(its)), diff(b.Bytes(), want))
	}
	k.Count("bytes", len(want))
	k.Hit("w" + renderItems(its))
	k.Sample("%s %s -> %s", p.Name, short(renderItems(its)), hexs(want))
}

func wireRead(k *core.K, p mon.Proto) {
	its := randItems(k.R)
	var b []byte
	for _, it := range its {
		if it.msg != nil {
			b = p.EncMsg(b, *it.msg)
		} else {
			b = encRef(k.R, p, b, it.v)
		}
	}
	full := append(append([]byte{}, b...), sentinel[:]...)
	r := p.P.NewReader(bytes.NewReader(full))
	for i, it := range its {
		if it.msg != nil {
			h, err := r.ReadMessageBegin()
			if err != nil {
				k.Fail("%s: ReadMessageBegin of a valid header: %v", p.Name, err)
			}
			if !sameHeader(h, *it.msg) {
				k.Fail("%s: header read as %+v, want %+v", p.Name, h, *it.msg)
			}
			continue
		}
		got, err := mon.ReadVal(r, it.v.T, k.R)
		if err != nil {
			k.Fail("%s: item %d: reading valid bytes: %v (%s)", p.Name, i, err, short(it.v.Render(false)))
		}
		if g, w := got.Render(false), it.v.Render(false); g != w {
			k.Fail("%s: item %d: read differently: %s", p.Name, i, diffs(g, w))
		}
		k.Count("values", 1)
	}
	expectEnd(k, p.Name, r)
	k.Count("bytes", len(b))
	k.Hit("r" + p.Name + string(b))
}

// What Marshal writes decodes, by the reference decoder, to the model of the
// value, and is its canonical encoding; what the reference encoder writes
// unmarshals to the value.
func wireGo(k *core.K, p mon.Proto) {
	t := typeFor(k)
	d := gg.Describe(t)
	v := valueFor(k, d)
	k.Note("type %v", t)
	b := marshal(k, p, v)
	m, n, err := p.Dec(b, d.W)
	if err != nil || n != len(b) {
		k.Fail("%s: Marshal of %v wrote bytes that are not valid under the specification: %v after %d of %d bytes: %s", p.Name, t, err, n, len(b), hexs(b))
	}
	model := gg.Model(v, d)
	if g, w := m.Render(true), model.Render(true); g != w {
		k.Fail("%s: Marshal of %v wrote a different value: %s", p.Name, t, diffs(g, w))
	}
	if c := p.Enc(nil, m); !bytes.Equal(c, b) {
		k.Fail("%s: Marshal of %v: bytes differ from the specification: %s", p.Name, t, diff(b, c))
	}
	got := reflect.New(t)
	r := p.P.NewReader(bytes.NewReader(append(encRef(k.R, p, nil, model), sentinel[:]...)))
	if err := thrift.Unmarshal(r, got.Interface()); err != nil {
		k.Fail("%s: Unmarshal of valid bytes into %v: %v", p.Name, t, err)
	}
	if g, w := gg.Canon(got.Elem(), d), gg.Canon(v, d); g != w {
		k.Fail("%s: Unmarshal of valid bytes into %v: %s", p.Name, t, diffs(g, w))
	}
	expectEnd(k, p.Name, r)
	k.Count("go_values", 1)
	k.Hit("g" + t.String() + gg.Canon(v, d))
}

// golden vectors, worked out by hand from the specification texts.
type golden struct {
	name  string
	write func(w thriftwire.Writer) error
	bin   string // "" if not applicable
	comp  string
}

func steps(fs ...func() error) error {
	for _, f := range fs {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

var goldens = []golden{
	{"call", func(w thriftwire.Writer) error {
		return w.WriteMessageBegin(thriftwire.MessageHeader{Name: "ab", Type: thriftwire.Call, ID: 3})
	}, "\x80\x01\x00\x01\x00\x00\x00\x02ab\x00\x00\x00\x03", "\x82\x21\x03\x02ab"},
	{"oneway", func(w thriftwire.Writer) error {
		return w.WriteMessageBegin(thriftwire.MessageHeader{Name: "", Type: thriftwire.OneWay, ID: -1})
	}, "\x80\x01\x00\x04\x00\x00\x00\x00\xff\xff\xff\xff", "\x82\x81\xff\xff\xff\xff\x0f\x00"},
	{"exception", func(w thriftwire.Writer) error {
		return w.WriteMessageBegin(thriftwire.MessageHeader{Name: "é", Type: thriftwire.Exception, ID: 300})
	}, "\x80\x01\x00\x03\x00\x00\x00\x02\xc3\xa9\x00\x00\x01\x2c", "\x82\x61\xac\x02\x02\xc3\xa9"},
	{"reply", func(w thriftwire.Writer) error {
		return w.WriteMessageBegin(thriftwire.MessageHeader{Name: "r", Type: thriftwire.Reply, ID: math.MinInt32})
	}, "\x80\x01\x00\x02\x00\x00\x00\x01r\x80\x00\x00\x00", "\x82\x41\x80\x80\x80\x80\x08\x01r"},
	{"double", func(w thriftwire.Writer) error { return w.WriteDouble(1) }, "\x3f\xf0\x00\x00\x00\x00\x00\x00", "\x00\x00\x00\x00\x00\x00\xf0\x3f"},
	{"i64", func(w thriftwire.Writer) error { return w.WriteI64(-2) }, "\xff\xff\xff\xff\xff\xff\xff\xfe", "\x03"},
	{"i32", func(w thriftwire.Writer) error { return w.WriteI32(50399) }, "\x00\x00\xc4\xdf", "\xbe\x93\x06"},
	{"i16", func(w thriftwire.Writer) error { return w.WriteI16(-32768) }, "\x80\x00", "\xff\xff\x03"},
	{"byte", func(w thriftwire.Writer) error { return w.WriteByte(0xfe) }, "\xfe", "\xfe"},
	{"true", func(w thriftwire.Writer) error { return w.WriteBool(true) }, "\x01", "\x01"},
	{"false", func(w thriftwire.Writer) error { return w.WriteBool(false) }, "\x00", "\x00"},
	{"emptymap", func(w thriftwire.Writer) error {
		return w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.I32, Value: thriftwire.String})
	}, "\x08\x0b\x00\x00\x00\x00", "\x00"},
	{"map", func(w thriftwire.Writer) error {
		return w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Bool, Value: thriftwire.Struct, Size: 200})
	}, "\x02\x0c\x00\x00\x00\xc8", "\xc8\x01\x2c"},
	{"list14", func(w thriftwire.Writer) error {
		return w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.UUID, Size: 14})
	}, "\x10\x00\x00\x00\x0e", "\xed"},
	{"set15", func(w thriftwire.Writer) error {
		return w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Double, Size: 15})
	}, "\x04\x00\x00\x00\x0f", "\xf7\x0f"},
	{"string", func(w thriftwire.Writer) error { return w.WriteString("hi") }, "\x00\x00\x00\x02hi", "\x02hi"},
	{"fields", func(w thriftwire.Writer) error {
		f := func(t thriftwire.Type, id int16, v func() error) func() error {
			return func() error {
				return steps(func() error { return w.WriteFieldBegin(thriftwire.FieldHeader{Type: t, ID: id}) }, v, w.WriteFieldEnd)
			}
		}
		tr := func() error { return w.WriteBool(true) }
		fa := func() error { return w.WriteBool(false) }
		inner := func() error {
			return steps(func() error { return w.WriteStructBegin(thriftwire.StructHeader{}) }, f(thriftwire.Bool, 2, tr), w.WriteStructEnd)
		}
		return steps(
			func() error { return w.WriteStructBegin(thriftwire.StructHeader{Name: "x"}) },
			f(thriftwire.Bool, 1, tr),
			f(thriftwire.Bool, 16, fa),
			f(thriftwire.Byte, 32, func() error { return w.WriteByte(7) }),
			f(thriftwire.Struct, 33, inner),
			f(thriftwire.I16, 34, func() error { return w.WriteI16(1) }),
			f(thriftwire.I32, 5, func() error { return w.WriteI32(-1) }),
			f(thriftwire.I64, -1, func() error { return w.WriteI64(64) }),
			w.WriteStructEnd)
	},
		"\x02\x00\x01\x01" + "\x02\x00\x10\x00" + "\x03\x00\x20\x07" + "\x0c\x00\x21" + "\x02\x00\x02\x01\x00" + "\x06\x00\x22\x00\x01" + "\x08\x00\x05\xff\xff\xff\xff" + "\x0a\xff\xff\x00\x00\x00\x00\x00\x00\x00\x40" + "\x00",
		"\x11" + "\xf2" + "\x03\x40\x07" + "\x1c" + "\x21\x00" + "\x14\x02" + "\x05\x0a\x01" + "\x06\x01\x80\x01" + "\x00"},
}

func goldenCase(k *core.K, p mon.Proto) {
	g := goldens[k.I]
	want := g.bin
	if p.Name == "compact" {
		want = g.comp
	}
	var b bytes.Buffer
	w := p.P.NewWriter(&b)
	if err := g.write(w); err != nil {
		k.Fail("%s %s: %v", p.Name, g.name, err)
	}
	if err := w.Flush(); err != nil {
		k.Fail("%s %s: %v", p.Name, g.name, err)
	}
	if b.String() != want {
		k.Fail("%s %s: got %x, want %x", p.Name, g.name, b.Bytes(), want)
	}
	k.Count("golden", 1)
}

var bigSizeList = ints(math.MaxInt32+1, math.MaxInt32+2, math.MaxInt32+15, math.MaxInt32+16, math.MaxInt32+200, math.MaxUint32-1, math.MaxUint32, math.MaxUint32+1, math.MaxUint32+2, math.MaxUint32+6, math.MaxUint32+16, 3<<31, 3<<31|3, 1<<40, 1<<40|14, 1<<62|1, math.MaxInt64-13, math.MaxInt64)

// ints drops what an int of the platform cannot hold.
func ints(xs ...int64) (out []int) {
	for _, x := range xs {
		if int64(int(x)) == x {
			out = append(out, int(x))
		}
	}
	return out
}

// claims writes and reads container headers of all sizes that fit 32 bits,
// although no such container is ever written.
func claims(c *core.Ctx, protos []mon.Proto) {
	sizes := append(powers(0, 30), math.MaxInt32-14, math.MaxInt32-1, math.MaxInt32)
	c.Cases("size-claims", 3*len(sizes)*len(protos), func(k *core.K) {
		p := protos[k.I%len(protos)]
		n := sizes[k.I/len(protos)/3]
		for _, key := range tm.Types {
			elem := core.Pick(k.R, tm.Types...)
			v := tm.Val{T: []tm.Type{tm.Map, tm.Set, tm.List}[k.I/len(protos)%3], K: key, E: elem}
			want := p.EncHeader(nil, v, n)
			var b bytes.Buffer
			w := p.P.NewWriter(&b)
			r := p.P.NewReader(bytes.NewReader(append(want[:len(want):len(want)], sentinel[:]...)))
			var err, rerr error
			var got, in any
			switch v.T {
			case tm.Map:
				h := thriftwire.MapHeader{Key: thriftwire.Type(key), Value: thriftwire.Type(elem), Size: n}
				err, in = w.WriteMapBegin(h), h
				got, rerr = r.ReadMapBegin()
			case tm.Set:
				h := thriftwire.SetHeader{Element: thriftwire.Type(elem), Size: n}
				err, in = w.WriteSetBegin(h), h
				got, rerr = r.ReadSetBegin()
			case tm.List:
				h := thriftwire.ListHeader{Element: thriftwire.Type(elem), Size: n}
				err, in = w.WriteListBegin(h), h
				got, rerr = r.ReadListBegin()
			}
			if err == nil {
				err = w.Flush()
			}
			if err != nil || !bytes.Equal(b.Bytes(), want) {
				k.Fail("%s: header %+v: %v %s", p.Name, in, err, diff(b.Bytes(), want))
			}
			if h, ok := got.(thriftwire.MapHeader); ok && rerr == nil && n == 0 && h.Size == 0 && p.Name == "compact" {
				got = in // the types of an empty map are not written
			}
			if rerr != nil || got != in {
				k.Fail("%s: header %+v read back as %+v, %v", p.Name, in, got, rerr)
			}
			expectEnd(k, p.Name, r)
			k.Count("headers", 1)
		}
		k.Max("claimed_elements", int64(n))
		k.Hit(fmt.Sprint(p.Name, k.I))
	})
}

// sizes that a 32-bit length cannot express are refused, not truncated.
func bigSizes(k *core.K, p mon.Proto) {
	sizes := bigSizeList
	n := sizes[k.I/3]
	var b bytes.Buffer
	w := p.P.NewWriter(&b)
	var err error
	switch k.I % 3 {
	case 0:
		err = w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.I32, Value: thriftwire.I32, Size: n})
	case 1:
		err = w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.I32, Size: n})
	case 2:
		err = w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.I32, Size: n})
	}
	if err == nil && p.Name != "compact" {
		w.Flush()
		k.Fail("%s: a container of %d elements was written as %x without an error", p.Name, n, b.Bytes())
	}
	if err == nil {
		// The varint of the compact protocol has room for it, and so have the
		// readers of this package; it must not become another size.
		w.Flush()
		r := p.P.NewReader(&b)
		var back int
		switch k.I % 3 {
		case 0:
			var h thriftwire.MapHeader
			h, err = r.ReadMapBegin()
			back = h.Size
		case 1:
			var h thriftwire.SetHeader
			h, err = r.ReadSetBegin()
			back = h.Size
		case 2:
			var h thriftwire.ListHeader
			h, err = r.ReadListBegin()
			back = h.Size
		}
		if err == nil && back != n {
			k.Fail("%s: the header of a container of %d elements is read back as %d elements", p.Name, n, back)
		}
	}
	k.Count("oversized", 1)
}

func c02(c *core.Ctx) {
	for _, p := range []mon.Proto{mon.Binary, mon.NonStrict} {
		p := p
		c.Cases("write-"+p.Name, c.N(16000, 300000), func(k *core.K) { wireWrite(k, p) })
		c.Cases("read-"+p.Name, c.N(16000, 300000), func(k *core.K) { wireRead(k, p) })
		c.Cases("go-"+p.Name, c.N(8000, 150000), func(k *core.K) { wireGo(k, p) })
	}
	lengths(c, mon.Protos[:2])
	c.Cases("golden", len(goldens), func(k *core.K) { goldenCase(k, mon.Binary) })
	c.Cases("oversized", 3*len(bigSizeList), func(k *core.K) { bigSizes(k, mon.Binary) })
	claims(c, []mon.Proto{mon.Binary})
	huge(c, mon.Protos[:2])
}

func c03(c *core.Ctx) {
	p := mon.Compact
	c.Cases("write", c.N(30000, 500000), func(k *core.K) { wireWrite(k, p) })
	c.Cases("read", c.N(30000, 500000), func(k *core.K) { wireRead(k, p) })
	c.Cases("go", c.N(12000, 200000), func(k *core.K) { wireGo(k, p) })
	lengths(c, []mon.Proto{p})
	c.Cases("golden", len(goldens), func(k *core.K) { goldenCase(k, p) })
	c.Cases("oversized", 3*len(bigSizeList), func(k *core.K) { bigSizes(k, p) })
	claims(c, []mon.Proto{p})
	huge(c, []mon.Proto{p})
	// Every pair of edge ids in sequence, with and without a struct between,
	// for each field type.
	ids := []int16{-32768, -32767, -20000, -16, -15, -14, -1, 0, 1, 2, 13, 14, 15, 16, 17, 30, 31, 32, 127, 128, 8191, 8192, 32751, 32752, 32753, 32766, 32767}
	c.Cases("id-pairs", len(ids)*len(ids), func(k *core.K) {
		a, b := ids[k.I/len(ids)], ids[k.I%len(ids)]
		for _, t := range tm.Types {
			inner := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: b, V: tm.BoolV(true)}, {ID: a, V: tm.BoolV(false)}}}
			v := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: a, V: gg.RandVal(k.R, t, 1)}, {ID: b, V: gg.RandVal(k.R, t, 1)}, {ID: a, V: inner}, {ID: b, V: tm.BoolV(k.R.Bool())}}}
			got := writeAll(k, p, v)
			want := p.Enc(nil, v)
			if !bytes.Equal(got, want) {
				k.Fail("compact: ids %d then %d of type %v: %s", a, b, t, diff(got, want))
			}
			for i := 0; i < 3; i++ {
				x := want
				if i > 0 {
					x = encRef(k.R, p, nil, v)
				}
				r := p.P.NewReader(bytes.NewReader(append(append([]byte{}, x...), sentinel[:]...)))
				back, err := mon.ReadVal(r, tm.Struct, k.R)
				if err != nil || back.Render(false) != v.Render(false) {
					k.Fail("compact: ids %d then %d of type %v read back: %v %s", a, b, t, err, diffs(back.Render(false), v.Render(false)))
				}
				expectEnd(k, p.Name, r)
			}
			k.Count("id_pairs", 1)
		}
		k.Hit(string(rune(a)) + "/" + string(rune(b)))
	})
	// Every container size around the short form boundary and varint boundaries.
	sizes := []int{0, 1, 2, 13, 14, 15, 16, 17, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385}
	c.Cases("sizes", len(sizes), func(k *core.K) {
		n := sizes[k.I]
		for _, t := range tm.Types {
			if n > 300 && t != tm.Bool && t != tm.I32 && t != tm.Struct {
				continue
			}
			for _, ct := range []tm.Type{tm.List, tm.Set, tm.Map} {
				v := tm.Val{T: ct, E: t}
				if ct == tm.Map {
					v.K = tm.Types[k.R.Intn(len(tm.Types))]
				}
				for i := 0; i < n; i++ {
					if ct == tm.Map {
						v.L = append(v.L, gg.RandVal(k.R, v.K, 0))
					}
					v.L = append(v.L, gg.RandVal(k.R, t, 0))
				}
				got, want := writeAll(k, p, v), p.Enc(nil, v)
				if !bytes.Equal(got, want) {
					k.Fail("compact: %v of %d %v: %s", ct, n, t, diff(got, want))
				}
				r := p.P.NewReader(bytes.NewReader(append(encRef(k.R, p, nil, v), sentinel[:]...)))
				back, err := mon.ReadVal(r, ct, k.R)
				if err != nil || back.Render(false) != v.Render(false) {
					k.Fail("compact: %v of %d %v read back: %v %s", ct, n, t, err, diffs(back.Render(false), v.Render(false)))
				}
				expectEnd(k, p.Name, r)
				k.Hit(ct.String() + t.String() + string(rune(n)))
				k.Count("containers", 1)
			}
		}
	})
}
