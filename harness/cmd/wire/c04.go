package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

func c04(c *core.Ctx) {
	// Headers back to back, with bodies between some of them.
	c.Cases("round-trip", c.N(20000, 400000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		n := 1 + k.R.Intn(5)
		var ms []tm.Msg
		var bodies []tm.Val
		var b bytes.Buffer
		w := p.P.NewWriter(&b)
		for i := 0; i < n; i++ {
			m := randMsg(k.R)
			ms = append(ms, m)
			if err := w.WriteMessageBegin(header(m)); err != nil {
				k.Fail("%s: WriteMessageBegin: %v", p.Name, err)
			}
			body := tm.Val{T: tm.Struct}
			if k.R.Bool() {
				body = gg.RandVal(k.R, tm.Struct, 2)
			}
			bodies = append(bodies, body)
			if err := mon.WriteVal(w, body, k.R); err != nil {
				k.Fail("%s: body: %v", p.Name, err)
			}
			if err := w.WriteMessageEnd(); err != nil {
				k.Fail("%s: WriteMessageEnd: %v", p.Name, err)
			}
			if k.R.P(1, 3) {
				if err := w.Flush(); err != nil {
					k.Fail("%s: Flush: %v", p.Name, err)
				}
			}
		}
		if err := w.Flush(); err != nil {
			k.Fail("%s: Flush: %v", p.Name, err)
		}
		b.Write(sentinel[:])
		rp := p
		if p.Name == "binary" && k.R.Bool() {
			rp = mon.NonStrict // a non-strict reader takes versioned headers too
		}
		r := rp.P.NewReader(&b)
		for i, m := range ms {
			h, err := r.ReadMessageBegin()
			if err != nil {
				k.Fail("%s->%s: message %d: ReadMessageBegin: %v", p.Name, rp.Name, i, err)
			}
			if !sameHeader(h, m) {
				k.Fail("%s->%s: message %d: header %.200q read as %.200q", p.Name, rp.Name, i, fmt.Sprintf("%+v", header(m)), fmt.Sprintf("%+v", h))
			}
			if k.R.Bool() {
				if err := thriftwire.Skip(r, thriftwire.Struct); err != nil {
					k.Fail("%s: message %d: Skip: %v", p.Name, i, err)
				}
			} else {
				v, err := mon.ReadVal(r, tm.Struct, k.R)
				if err != nil || v.Render(false) != bodies[i].Render(false) {
					k.Fail("%s: message %d: body: %v, %s", p.Name, i, err, diffs(v.Render(false), bodies[i].Render(false)))
				}
			}
			if err := r.ReadMessageEnd(); err != nil {
				k.Fail("%s: message %d: ReadMessageEnd: %v", p.Name, i, err)
			}
			k.Count("headers", 1)
			k.Hit(fmt.Sprint(p.Name, string(m.Name), m.Type, m.ID))
		}
		expectEnd(k, p.Name, r)
		k.Sample("%s->%s %d messages, first %.80q type %d id %d", p.Name, rp.Name, n, ms[0].Name, ms[0].Type, ms[0].ID)
	})

	// All combinations of types and edge ids and name lengths.
	ids := []int32{0, 1, -1, 127, 128, -128, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, -1 << 31, -1<<31 + 1}
	lens := []int{0, 1, 2, 127, 128, 4080, 4081, 4082, 4083, 4084, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8192, 16384}
	names := powers(0, 23)
	c.Cases("names", len(names)*len(mon.Protos), func(k *core.K) {
		n, p := names[k.I/len(mon.Protos)], mon.Protos[k.I%len(mon.Protos)]
		m := tm.Msg{Name: gg.Str(k.R, n), Type: byte(1 + k.R.Intn(4)), ID: int32(gg.Int(k.R))}
		msgSize(k, p, m)
		k.Max("name_bytes", int64(n))
		k.Hit(p.Name + string(m.Name))
	})
	c.Cases("grid", len(ids)*len(lens), func(k *core.K) {
		for _, p := range mon.Protos {
			for t := byte(1); t <= 4; t++ {
				m := tm.Msg{Name: gg.Str(k.R, lens[k.I%len(lens)]), Type: t, ID: ids[k.I/len(lens)]}
				var b bytes.Buffer
				w := p.P.NewWriter(&b)
				err := w.WriteMessageBegin(header(m))
				if err == nil {
					err = w.Flush()
				}
				if err != nil {
					k.Fail("%s: write: %v", p.Name, err)
				}
				b.Write(sentinel[:])
				r := p.P.NewReader(&b)
				h, err := r.ReadMessageBegin()
				if err != nil || !sameHeader(h, m) {
					k.Fail("%s: header type %d id %d name of %d bytes read as type %d id %d name of %d bytes, %v", p.Name, m.Type, m.ID, len(m.Name), h.Type, h.ID, len(h.Name), err)
				}
				expectEnd(k, p.Name, r)
				k.Count("headers", 1)
			}
		}
		k.Hit(fmt.Sprint("grid", k.I))
	})

	// Binary version gate: all 65536 values of the upper half of the first word.
	c.Cases("binary-version", 65536/64, func(k *core.K) {
		for j := 0; j < 64; j++ {
			hi := uint16(k.I*64 + j)
			typ := byte(1 + k.R.Intn(4))
			id := int32(gg.Int(k.R))
			var buf []byte
			buf = binary.BigEndian.AppendUint32(buf, uint32(hi)<<16|uint32(typ))
			if hi >= 0x8000 {
				buf = binary.BigEndian.AppendUint32(buf, 3)
				buf = append(buf, "abc"...)
				buf = binary.BigEndian.AppendUint32(buf, uint32(id))
			} else {
				// an unversioned header whose name has 65536*hi+typ bytes
				if hi < 2 {
					n := int(hi)<<16 | int(typ)
					buf = append(buf, bytes.Repeat([]byte{'n'}, n)...)
				} else {
					buf = append(buf, "abc"...)
				}
				buf = append(buf, typ)
				buf = binary.BigEndian.AppendUint32(buf, uint32(id))
			}
			for _, p := range []mon.Proto{mon.Binary, mon.NonStrict} {
				h, err := p.P.NewReader(bytes.NewReader(buf)).ReadMessageBegin()
				k.Count("version_words", 1)
				ok := hi == 0x8001 || hi < 2 && p.Name == "nonstrict"
				if ok {
					if err != nil || byte(h.Type) != typ || h.ID != id {
						k.Fail("%s: first word %04x....: %+v %v", p.Name, hi, h, err)
					}
					k.Count("accepted", 1)
				} else if err == nil {
					k.Fail("%s: header with first word %04x%04x accepted as %.200q", p.Name, hi, typ, fmt.Sprintf("%+v", h))
				} else {
					k.Count("refused", 1)
				}
			}
		}
		k.Hit(fmt.Sprint("ver", k.I))
	})

	// Compact: all protocol ids and all version/type bytes.
	c.Cases("compact-version", 256, func(k *core.K) {
		pid := byte(k.I)
		for vt := 0; vt < 256; vt++ {
			buf := []byte{pid, byte(vt), 5, 2, 'h', 'i'}
			h, err := mon.Compact.P.NewReader(bytes.NewReader(buf)).ReadMessageBegin()
			k.Count("version_words", 1)
			typ := byte(vt >> 5)
			if pid == 0x82 && vt&31 == 1 {
				if typ >= 1 && typ <= 4 && (err != nil || byte(h.Type) != typ || h.ID != 5 || h.Name != "hi") {
					k.Fail("compact: %x read as %+v %v", buf, h, err)
				}
				k.Count("accepted", 1)
			} else if err == nil {
				k.Fail("compact: header %x accepted as %+v", buf, h)
			} else {
				k.Count("refused", 1)
			}
		}
		k.Hit(fmt.Sprint("compact", k.I))
	})

	// Crossing protocols: a reader of one protocol refuses or, for the versions
	// it must accept, reads the header of the other.
	c.Cases("cross", c.N(2000, 20000), func(k *core.K) {
		m := randMsg(k.R)
		for _, wp := range mon.Protos {
			for _, rp := range mon.Protos {
				buf := wp.EncMsg(nil, m)
				h, err := rp.P.NewReader(bytes.NewReader(buf)).ReadMessageBegin()
				same := wp.Name == rp.Name || wp.Name == "binary" && rp.Name == "nonstrict"
				if same && (err != nil || !sameHeader(h, m)) {
					k.Fail("%s->%s: %v", wp.Name, rp.Name, err)
				}
				if !same && err == nil && rp.Name != "nonstrict" {
					k.Fail("%s reader accepted a %s header %s as %.200q", rp.Name, wp.Name, hexs(buf), fmt.Sprintf("%+v", h))
				}
				k.Count("headers", 1)
			}
		}
		k.Hit(fmt.Sprint("cross", string(m.Name), m.ID))
	})

	// Joined protocols.
	c.Cases("join", c.N(3000, 30000), func(k *core.K) {
		rp, wp := mon.Protos[k.R.Intn(3)], mon.Protos[k.R.Intn(3)]
		j := thriftwire.JoinProtocol(rp.P, wp.P)
		if k.R.P(1, 4) { // joins of joins
			x := mon.Protos[k.R.Intn(3)].P
			j = thriftwire.JoinProtocol(thriftwire.JoinProtocol(rp.P, x), thriftwire.JoinProtocol(x, wp.P))
		}
		m := randMsg(k.R)
		v := gg.RandVal(k.R, tm.Struct, 2)
		var b bytes.Buffer
		w := j.NewWriter(&b)
		if k.R.Bool() {
			var junk bytes.Buffer
			w = j.NewWriter(&junk)
			w.WriteByte(1)
			w.Reset(&b)
		}
		err := w.WriteMessageBegin(header(m))
		if err == nil {
			err = mon.WriteVal(w, v, k.R)
		}
		if err == nil {
			err = w.Flush()
		}
		if err != nil {
			k.Fail("joined %s/%s: write: %v", rp.Name, wp.Name, err)
		}
		want := wp.Enc(wp.EncMsg(nil, m), v)
		if !bytes.Equal(b.Bytes(), want) {
			k.Fail("joined %s/%s does not write with %s: %s", rp.Name, wp.Name, wp.Name, diff(b.Bytes(), want))
		}
		in := append(rp.Enc(rp.EncMsg(nil, m), v), sentinel[:]...)
		r := j.NewReader(bytes.NewReader(in))
		if k.R.Bool() {
			r = j.NewReader(bytes.NewReader(want))
			r.ReadByte()
			r.Reset(bytes.NewReader(in))
		}
		h, err := r.ReadMessageBegin()
		if err != nil || !sameHeader(h, m) {
			k.Fail("joined %s/%s does not read with %s: %+v %v", rp.Name, wp.Name, rp.Name, h, err)
		}
		got, err := mon.ReadVal(r, tm.Struct, k.R)
		if err != nil || got.Render(false) != v.Render(false) {
			k.Fail("joined %s/%s does not read with %s: %v", rp.Name, wp.Name, rp.Name, err)
		}
		expectEnd(k, "joined", r)
		k.Count("joined", 1)
		k.Hit(fmt.Sprint("join", rp.Name, wp.Name, v.Render(false)))
	})
}
