package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// errorFor returns an error a stream may fail with.
func errorFor(r *core.Rand) error {
	return mon.RandErr(r)
}

// cuts are the offsets in [0,n) at which to cut.
func cuts(r *core.Rand, n, all, sample int) []int {
	var out []int
	if n <= all {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for _, i := range []int{0, 1, 2, 3, 4, 5, n - 1, n - 2, n - 3, n / 2, 4094, 4095, 4096, 4097, 8191, 8192, 8193} {
		add(i)
	}
	for len(out) < sample {
		add(r.Intn(n))
	}
	return out
}

// source wraps a stream the way a user might.
func source(r *core.Rand, src io.Reader) io.Reader {
	switch r.Intn(7) {
	case 6:
		return uncomparableReader{Reader: src}
	case 0:
		return bufio.NewReaderSize(src, 16)
	case 1:
		return bufio.NewReaderSize(src, 4096)
	case 2:
		return bufio.NewReaderSize(src, 5000)
	}
	return src
}

// uncomparableReader is a stream that panics when it is compared.
type uncomparableReader struct {
	io.Reader
	_ []int
}

func c08(c *core.Ctx) {
	// one cut stream read by f must give the right error
	cut := func(k *core.K, what string, b []byte, n int, f func(r io.Reader) error) {
		src := &mon.ChunkReader{Data: b[:n], With: k.R.Bool()}
		if k.R.Bool() {
			src.Plan = mon.PlanRandom(k.R)
		}
		err := f(source(k.R, src))
		if err == nil {
			k.Fail("%s: only %d of %d bytes are there, and no error; input %s", what, n, len(b), hexs(b[:n]))
		}
		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			k.Fail("%s: %d of %d bytes: the error matches neither io.EOF nor io.ErrUnexpectedEOF: %v; input %s", what, n, len(b), err, hexs(b[:n]))
		}
		k.Count("truncations", 1)
	}
	fail := func(k *core.K, what string, b []byte, n int, f func(r io.Reader) error) {
		e := errorFor(k.R)
		src := &mon.ChunkReader{Data: b[:n], End: e, With: k.R.Bool()}
		if k.R.P(1, 3) {
			// It fails once and goes on.
			src = &mon.ChunkReader{Data: b, Fault: e, FaultAt: n}
			k.Count("passing_failures", 1)
		}
		if k.R.Bool() {
			src.Plan = mon.PlanRandom(k.R)
		}
		err := f(source(k.R, src))
		if err == nil {
			k.Fail("%s: the stream fails with %q after %d of %d bytes, and no error is returned; input %s", what, e, n, len(b), hexs(b[:n]))
		}
		if !mon.IsErr(err, e) {
			k.Fail("%s: the stream fails with %q after %d of %d bytes; the error does not match it: %v; input %s", what, e, n, len(b), err, hexs(b[:n]))
		}
		k.Count("stream_failures", 1)
	}

	c.Cases("values", c.N(3600, 60000), func(k *core.K) {
		t := typeFor(k)
		d := gg.Describe(t)
		k.Note("type %v", t)
		m := gg.Model(valueFor(k, d), d)
		if k.R.P(1, 3) {
			m, _ = gg.Inject(k.R, m, d, true)
		}
		for _, p := range mon.Two {
			b := encRef(k.R, p, nil, m)
			unmarshal := func(r io.Reader) error {
				return thrift.Unmarshal(p.P.NewReader(r), reflect.New(t).Interface())
			}
			skip := func(r io.Reader) error {
				return thriftwire.Skip(p.P.NewReader(r), thriftwire.Type(m.T))
			}
			read := func(r io.Reader) error {
				_, err := mon.ReadVal(p.P.NewReader(r), m.T, k.R)
				return err
			}
			for _, n := range cuts(k.R, len(b), 120, 60) {
				cut(k, p.Name+" Unmarshal into "+t.String(), b, n, unmarshal)
				cut(k, p.Name+" Skip", b, n, skip)
				fail(k, p.Name+" Unmarshal into "+t.String(), b, n, unmarshal)
				fail(k, p.Name+" Skip", b, n, skip)
				switch k.R.Intn(4) {
				case 0:
					cut(k, p.Name+" reading", b, n, read)
				case 1:
					fail(k, p.Name+" reading", b, n, read)
				}
			}
			k.Count("bytes", len(b))
			k.Hit(p.Name + string(b))
		}
		k.Sample("%v: all prefixes of %s", t, short(m.Render(false)))
	})

	// Single values of every type: each read method of each protocol.
	c.Cases("scalars", c.N(6000, 100000), func(k *core.K) {
		t := tm.Types[k.I%len(tm.Types)]
		m := gg.RandVal(k.R, t, 2)
		for _, p := range mon.Two {
			b := encRef(k.R, p, nil, m)
			read := func(r io.Reader) error {
				_, err := mon.ReadVal(p.P.NewReader(r), m.T, k.R)
				return err
			}
			skip := func(r io.Reader) error {
				return thriftwire.Skip(p.P.NewReader(r), thriftwire.Type(t))
			}
			for _, n := range cuts(k.R, len(b), 60, 30) {
				cut(k, fmt.Sprintf("%s reading %v", p.Name, t), b, n, read)
				fail(k, fmt.Sprintf("%s reading %v", p.Name, t), b, n, read)
				cut(k, fmt.Sprintf("%s Skip %v", p.Name, t), b, n, skip)
				fail(k, fmt.Sprintf("%s Skip %v", p.Name, t), b, n, skip)
			}
			k.Hit(p.Name + m.Render(false))
		}
	})

	// Streams of messages, cut anywhere: all complete messages are read, the
	// cut one gives an error, and a cut between two messages gives io.EOF.
	c.Cases("messages", c.N(3000, 50000), func(k *core.K) {
		n := 1 + k.R.Intn(3)
		var hs []tm.Msg
		var ms []tm.Val
		for i := 0; i < n; i++ {
			hs = append(hs, randMsg(k.R))
			ms = append(ms, gg.RandVal(k.R, tm.Struct, 1+k.R.Intn(3)))
		}
		for _, p := range mon.Protos {
			var b []byte
			ends := []int{0}
			var heads []int
			for i := range hs {
				b = p.EncMsg(b, hs[i])
				heads = append(heads, len(b))
				b = encRef(k.R, p, b, ms[i])
				ends = append(ends, len(b))
			}
			at := append(cuts(k.R, len(b), 60, 30), ends...)
			for _, at := range at {
				e := error(nil)
				if k.R.P(1, 3) {
					e = errorFor(k.R)
				}
				src := &mon.ChunkReader{Data: b[:at], End: e, With: k.R.Bool()}
				if e != nil && k.R.Bool() {
					src = &mon.ChunkReader{Data: b, Fault: e, FaultAt: at}
					k.Count("passing_failures", 1)
				}
				if k.R.Bool() {
					src.Plan = mon.PlanRandom(k.R)
				}
				r := p.P.NewReader(source(k.R, src))
				clean, full := false, 0
				for i, end := range ends {
					if at >= end {
						full = i
					}
					if at == end {
						clean = true
					}
				}
				for i := 0; ; i++ {
					h, err := r.ReadMessageBegin()
					inHeader := err != nil
					if err == nil && i < full && !sameHeader(h, hs[i]) {
						k.Fail("%s: message %d: header %+v, want %+v", p.Name, i, h, hs[i])
					}
					if err == nil {
						if k.R.Bool() {
							err = thriftwire.Skip(r, thriftwire.Struct)
						} else {
							_, err = mon.ReadVal(r, tm.Struct, k.R)
						}
					}
					if err == nil {
						err = r.ReadMessageEnd()
					}
					if i == full && full < len(hs) && at < heads[i] && !inHeader {
						k.Fail("%s: message %d: the header extends to %d, the stream to %d, and the header is read as %+v", p.Name, i, heads[i], at, h)
					}
					if i < full {
						if err != nil {
							k.Fail("%s: message %d is complete (%d bytes, cut at %d): %v", p.Name, i, ends[i+1], at, err)
						}
						continue
					}
					what := fmt.Sprintf("%s: message %d, cut at %d of %d..%d", p.Name, i, at, ends[full], len(b))
					if err == nil {
						k.Fail("%s: no error", what)
					}
					switch {
					case e != nil && !mon.IsErr(err, e):
						k.Fail("%s: the stream failed with %q but the error is %v", what, e, err)
					case e == nil && clean && (!inHeader || !errors.Is(err, io.EOF)):
						k.Fail("%s: clean end between messages: error %v, want io.EOF", what, err)
					case e == nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF):
						k.Fail("%s: error %v", what, err)
					}
					break
				}
				if clean {
					k.Count("clean_ends", 1)
				}
				k.Count("message_cuts", 1)
			}
			k.Hit(p.Name + string(b))
		}
	})
}

func c09(c *core.Ctx) {
	c.Cases("items", c.N(20000, 300000), func(k *core.K) {
		its := randItems(k.R)
		p := mon.Protos[k.I%3]
		var b []byte
		var ends []int
		for i, it := range its {
			if it.msg != nil {
				b = p.EncMsg(b, *it.msg)
			} else {
				b = encRef(k.R, p, b, it.v)
			}
			// a message goes on until after the value that follows
			if it.msg == nil || i == len(its)-1 {
				ends = append(ends, len(b))
			}
		}
		for round := 0; round < 3; round++ {
			src := plan(k.R, b, ends)
			r := p.P.NewReader(source(k.R, src))
			ei := 0
			for i, it := range its {
				src.Due = ends[ei]
				if it.msg != nil {
					h, err := r.ReadMessageBegin()
					if err != nil || !sameHeader(h, *it.msg) {
						k.Fail("%s: header read as %+v, %v, want %+v", p.Name, h, err, *it.msg)
					}
					if i == len(its)-1 {
						ei++
					}
				} else {
					if k.R.P(1, 4) {
						if err := thriftwire.Skip(r, thriftwire.Type(it.v.T)); err != nil {
							k.Fail("%s: Skip: %v", p.Name, err)
						}
					} else {
						got, err := mon.ReadVal(r, it.v.T, k.R)
						if err != nil {
							k.Fail("%s: item %d: %v (%s)", p.Name, i, err, short(it.v.Render(false)))
						}
						if g, w := got.Render(false), it.v.Render(false); g != w {
							k.Fail("%s: item %d depends on the delivery: %s", p.Name, i, diffs(g, w))
						}
					}
					if err := r.ReadMessageEnd(); err != nil {
						k.Fail("ReadMessageEnd: %v", err)
					}
					ei++
				}
				if src.Over > 0 {
					k.Fail("%s: item %d (%s): the stream was asked for more although all %d bytes up to its end had been delivered", p.Name, i, renderItem(it), src.Due)
				}
				k.Count("values", 1)
			}
			expectEOF(k, p.Name, r)
			k.Count("reads", src.Reads)
			k.Hit(fmt.Sprint(p.Name, round, src.Reads) + string(b))
		}
		k.Sample("%s %s, value ends at %v", p.Name, short(renderItems(its)), ends)
	})
	c.Cases("go", c.N(12000, 200000), func(k *core.K) {
		n := 1 + k.R.Intn(3)
		p := mon.Two[k.I%2]
		var b []byte
		var ends []int
		var ds []*gg.Desc
		var want []string
		for i := 0; i < n; i++ {
			d := gg.Describe(typeFor(k))
			v := valueFor(k, d)
			m := gg.Model(v, d)
			if k.R.P(1, 3) {
				m, _ = gg.Inject(k.R, m, d, true)
			}
			ds = append(ds, d)
			want = append(want, gg.Canon(v, d))
			b = encRef(k.R, p, b, m)
			ends = append(ends, len(b))
		}
		for round := 0; round < 3; round++ {
			src := plan(k.R, b, ends)
			r := p.P.NewReader(source(k.R, src))
			for i, d := range ds {
				src.Due = ends[i]
				got := reflect.New(d.T)
				if err := thrift.Unmarshal(r, got.Interface()); err != nil {
					k.Fail("%s: value %d of type %v: %v", p.Name, i, d.T, err)
				}
				if g := gg.Canon(got.Elem(), d); g != want[i] {
					k.Fail("%s: value %d of type %v depends on the delivery: %s", p.Name, i, d.T, diffs(g, want[i]))
				}
				if src.Over > 0 {
					k.Fail("%s: value %d of type %v: the stream was asked for more although all %d bytes up to its end had been delivered", p.Name, i, d.T, src.Due)
				}
				k.Count("values", 1)
			}
			expectEOF(k, p.Name, r)
			k.Count("reads", src.Reads)
			k.Hit(fmt.Sprint(p.Name, round, src.Reads) + string(b))
		}
	})
	// Boundaries around the buffer size.
	c.Cases("aligned", c.N(3000, 30000), func(k *core.K) {
		p := mon.Two[k.I%2]
		v := gg.RandVal(k.R, tm.Struct, 2)
		target := []int{4096, 8192, 4096 * 3}[k.R.Intn(3)] - 40 + k.R.Intn(80)
		head := tm.Val{T: tm.String}
		if n := target - len(p.Enc(nil, v)); n > 0 {
			head.S = gg.Str(k.R, n)
		}
		b := p.Enc(p.Enc(nil, head), v)
		ends := []int{len(p.Enc(nil, head)), len(b)}
		src := plan(k.R, b, ends)
		r := p.P.NewReader(source(k.R, src))
		for i, x := range []tm.Val{head, v} {
			src.Due = ends[i]
			got, err := mon.ReadVal(r, x.T, k.R)
			if err != nil || got.Render(false) != x.Render(false) {
				k.Fail("%s: value at offset %d: %v %s", p.Name, ends[0], err, diffs(got.Render(false), x.Render(false)))
			}
			if src.Over > 0 {
				k.Fail("%s: the stream was asked for more although all %d bytes had been delivered", p.Name, src.Due)
			}
		}
		expectEOF(k, p.Name, r)
		k.Count("values", 2)
		k.Hit(p.Name + string(b))
	})
}

func renderItem(it item) string {
	if it.msg != nil {
		return fmt.Sprintf("message %.40q", it.msg.Name)
	}
	return short(it.v.Render(false))
}

// plan is a stream over b with a random way of delivery; half of the time no
// Read crosses the end of a value.
func plan(r *core.Rand, b []byte, ends []int) *mon.ChunkReader {
	src := &mon.ChunkReader{Data: b, With: r.Bool()}
	switch r.Intn(4) {
	case 0:
	case 1:
		src.Plan = mon.PlanOne()
	default:
		src.Plan = mon.PlanRandom(r)
	}
	if r.Bool() {
		src.Bounds = ends
	}
	return src
}

var _ = bytes.NewReader
