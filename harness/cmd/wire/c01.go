package main

import (
	"bytes"
	"reflect"

	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
)

// C01: Marshal, Flush, Unmarshal gives the value back, byte for byte consumed.
func c01(c *core.Ctx) {
	lengths(c, mon.Protos)
	c.Cases("one", c.N(24000, 400000), func(k *core.K) {
		t := typeFor(k)
		d := gg.Describe(t)
		k.Note("type %v", t)
		v := valueFor(k, d)
		want := gg.Canon(v, d)
		for _, p := range mon.Protos {
			var b bytes.Buffer
			w := p.P.NewWriter(&b)
			marshalTo(k, w, v)
			if err := w.Flush(); err != nil {
				k.Fail("%s: Flush: %v", p.Name, err)
			}
			n := b.Len()
			b.Write(sentinel[:])
			r := p.P.NewReader(&b)
			got := reflect.New(t)
			if err := thrift.Unmarshal(r, got.Interface()); err != nil {
				k.Fail("%s: Unmarshal of what Marshal wrote: %v", p.Name, err)
			}
			if s := gg.Canon(got.Elem(), d); s != want {
				k.Fail("%s: round trip of %v changed the value: %s", p.Name, t, diffs(s, want))
			}
			expectEnd(k, p.Name, r)
			k.Count("bytes", n)
			k.Count("round_trips", 1)
			k.Max("largest", int64(n))
		}
		if nontrivial(want) {
			k.Hit(t.String() + want)
		}
		k.Sample("%v %s", t, short(want))
	})

	// Several values of different types through one writer and one reader,
	// with message headers around some of them.
	c.Cases("sequence", c.N(4000, 60000), func(k *core.K) {
		n := 2 + k.R.Intn(5)
		var vs []reflect.Value
		var ds []*gg.Desc
		for i := 0; i < n; i++ {
			d := gg.Describe(gg.GenType(k.R))
			ds = append(ds, d)
			vs = append(vs, valueFor(k, d))
		}
		msg := k.R.Bool()
		flushEach := k.R.Bool()
		for _, p := range mon.Protos {
			var b bytes.Buffer
			w := p.P.NewWriter(&b)
			for i, v := range vs {
				if msg {
					if err := w.WriteMessageBegin(header(randMsg(k.R))); err != nil {
						k.Fail("%s: WriteMessageBegin: %v", p.Name, err)
					}
				}
				marshalTo(k, w, v)
				if msg {
					if err := w.WriteMessageEnd(); err != nil {
						k.Fail("%s: WriteMessageEnd: %v", p.Name, err)
					}
				}
				if flushEach || i == n-1 {
					if err := w.Flush(); err != nil {
						k.Fail("%s: Flush: %v", p.Name, err)
					}
				}
			}
			b.Write(sentinel[:])
			r := p.P.NewReader(&b)
			for i, v := range vs {
				if msg {
					if _, err := r.ReadMessageBegin(); err != nil {
						k.Fail("%s: message %d: ReadMessageBegin: %v", p.Name, i, err)
					}
				}
				got := reflect.New(ds[i].T)
				if err := thrift.Unmarshal(r, got.Interface()); err != nil {
					k.Fail("%s: value %d (%v): Unmarshal: %v", p.Name, i, ds[i].T, err)
				}
				if s, want := gg.Canon(got.Elem(), ds[i]), gg.Canon(v, ds[i]); s != want {
					k.Fail("%s: value %d (%v) changed: %s", p.Name, i, ds[i].T, diffs(s, want))
				}
				if msg {
					if err := r.ReadMessageEnd(); err != nil {
						k.Fail("%s: message %d: ReadMessageEnd: %v", p.Name, i, err)
					}
				}
				k.Count("round_trips", 1)
			}
			expectEnd(k, p.Name, r)
		}
		for i, v := range vs {
			k.Hit(ds[i].T.String() + gg.Canon(v, ds[i]))
		}
	})
}
