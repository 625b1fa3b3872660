package main

import (
	"bytes"
	"reflect"

	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// powers are the powers of two from 2^lo to 2^hi, and their neighbours.
func powers(lo, hi int) []int {
	var out []int
	for e := lo; e <= hi; e++ {
		for d := -1; d <= 1; d++ {
			out = append(out, 1<<e+d)
		}
	}
	return out
}

// lengths writes and reads strings, names and containers of all sizes around
// powers of two, through the wire interfaces and as Go values.
func lengths(c *core.Ctx, protos []mon.Proto) {
	sizes := powers(0, 22)
	c.Cases("string-sizes", len(sizes)*len(protos), func(k *core.K) {
		n, p := sizes[k.I/len(protos)], protos[k.I%len(protos)]
		s := gg.Str(k.R, n)
		v := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: tm.Val{T: tm.String, S: s}}, {ID: 2, V: tm.IntV(tm.I32, 7)}}}
		want := p.Enc(nil, v)
		for i := 0; i < 2; i++ { // WriteString and WriteBytes at random
			if got := writeAll(k, p, v); !bytes.Equal(got, want) {
				k.Fail("%s: string of %d bytes: %s", p.Name, n, diff(got, want))
			}
		}
		r := p.P.NewReader(bytes.NewReader(append(want[:len(want):len(want)], sentinel[:]...)))
		got, err := mon.ReadVal(r, tm.Struct, k.R)
		if err != nil || got.Render(false) != v.Render(false) {
			k.Fail("%s: string of %d bytes read back: %s, %v", p.Name, n, short(got.Render(false)), err)
		}
		expectEnd(k, p.Name, r)
		type both struct {
			S string           `thrift:"1"`
			N int32            `thrift:"2"`
			B []byte           `thrift:"3"`
			L []string         `thrift:"4"`
			M map[string]int32 `thrift:"5"`
		}
		x := both{S: string(s), N: 7, B: s, L: []string{"a", string(s), "b"}, M: map[string]int32{string(s): 9}}
		goSize(k, p, reflect.ValueOf(&x).Elem())
		m := tm.Msg{Name: gg.Str(k.R, n), Type: byte(1 + k.R.Intn(4)), ID: int32(gg.Int(k.R))}
		msgSize(k, p, m)
		k.Count("sizes", 1)
		k.Max("string_bytes", int64(n))
		k.Hit(p.Name + string(s))
	})
	counts := powers(1, 17)
	c.Cases("container-sizes", len(counts)*len(protos)*4, func(k *core.K) {
		n, p := counts[k.I/4/len(protos)], protos[k.I/4%len(protos)]
		type many struct {
			B []bool           `thrift:"1"`
			E thrift.Set[Unit] `thrift:"2"`
			M map[int32]int8   `thrift:"3"`
			D []float64        `thrift:"4"`
			X int32            `thrift:"5"`
		}
		x := many{X: 5}
		switch k.I % 4 {
		case 0:
			x.B = make([]bool, n)
			for i := range x.B {
				x.B[i] = k.R.Bool()
			}
		case 1:
			x.E = make([]Unit, n)
		case 2:
			x.M = map[int32]int8{}
			for i := 0; i < n; i++ {
				x.M[int32(i)] = int8(k.R.Uint64())
			}
		case 3:
			x.D = make([]float64, n)
			x.D[n-1] = 1.5
		}
		goSize(k, p, reflect.ValueOf(&x).Elem())
		k.Count("sizes", 1)
		k.Max("elements", int64(n))
		k.Hit(p.Name + string(rune(k.I)))
	})
}

// Unit is a struct without fields.
type Unit struct{}

// goSize marshals and unmarshals v and compares with the reference.
func goSize(k *core.K, p mon.Proto, v reflect.Value) {
	d := gg.Describe(v.Type())
	b := marshal(k, p, v)
	m, n, err := p.Dec(b, tm.Type(d.W))
	if err != nil || n != len(b) {
		k.Fail("%s: the reference decoder reads %d of %d bytes: %v", p.Name, n, len(b), err)
	}
	model := gg.Model(v, d)
	if g, w := m.Render(true), model.Render(true); g != w {
		k.Fail("%s: %v: %s", p.Name, v.Type(), diffs(g, w))
	}
	r := p.P.NewReader(bytes.NewReader(append(encRef(k.R, p, nil, model), sentinel[:]...)))
	got := reflect.New(v.Type())
	if err := thrift.Unmarshal(r, got.Interface()); err != nil {
		k.Fail("%s: Unmarshal of %v: %v", p.Name, v.Type(), err)
	}
	if g, w := gg.Canon(got.Elem(), d), gg.Canon(v, d); g != w {
		k.Fail("%s: %v read back: %s", p.Name, v.Type(), diffs(g, w))
	}
	expectEnd(k, p.Name, r)
}

// msgSize writes and reads a message header.
func msgSize(k *core.K, p mon.Proto, m tm.Msg) {
	var b bytes.Buffer
	w := p.P.NewWriter(&b)
	if err := w.WriteMessageBegin(header(m)); err != nil {
		k.Fail("%s: name of %d bytes: %v", p.Name, len(m.Name), err)
	}
	if err := w.Flush(); err != nil {
		k.Fail("%s: Flush: %v", p.Name, err)
	}
	want := p.EncMsg(nil, m)
	if !bytes.Equal(b.Bytes(), want) {
		k.Fail("%s: name of %d bytes: %s", p.Name, len(m.Name), diff(b.Bytes(), want))
	}
	r := p.P.NewReader(bytes.NewReader(append(want, sentinel[:]...)))
	h, err := r.ReadMessageBegin()
	if err != nil || !sameHeader(h, m) {
		k.Fail("%s: name of %d bytes read back as %.100q (%d bytes) type %d id %d, %v", p.Name, len(m.Name), h.Name, len(h.Name), h.Type, h.ID, err)
	}
	expectEnd(k, p.Name, r)
}
