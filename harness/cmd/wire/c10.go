package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// outItem is something to write, with the bytes it has to become.
type outItem struct {
	it  item
	go_ reflect.Value // Go value instead, if valid
	d   *gg.Desc
}

func (o outItem) enc(p mon.Proto, b []byte) []byte {
	switch {
	case o.go_.IsValid():
		return p.Enc(b, gg.Model(o.go_, o.d))
	case o.it.msg != nil:
		return p.EncMsg(b, *o.it.msg)
	}
	return p.Enc(b, o.it.v)
}

func (o outItem) write(w thriftwire.Writer, r *core.Rand) error {
	switch {
	case o.go_.IsValid():
		return thrift.Marshal(w, arg(r, o.go_))
	case o.it.msg != nil:
		return w.WriteMessageBegin(header(*o.it.msg))
	}
	if err := mon.WriteVal(w, o.it.v, r); err != nil {
		return err
	}
	return w.WriteMessageEnd()
}

func outItems(k *core.K) []outItem {
	var out []outItem
	for _, it := range randItems(k.R) {
		out = append(out, outItem{it: it})
	}
	if k.R.P(1, 2) {
		d := gg.Describe(gg.GenType(k.R))
		v := valueFor(k, d)
		singleMaps(v)
		out = append(out, outItem{go_: v, d: d})
	}
	if k.R.P(1, 4) { // around the buffer size
		out = append(out, outItem{it: item{v: tm.Val{T: tm.String, S: gg.Str(k.R, 4060+k.R.Intn(80))}}})
	}
	p := k.R.Perm(len(out))
	q := make([]outItem, len(out))
	for i, j := range p {
		q[i] = out[j]
	}
	return q
}

// singleMaps leaves at most one entry in every map, so that the encoding is
// unique.
func singleMaps(v reflect.Value) {
	switch v.Kind() {
	case reflect.Map:
		if v.Len() > 1 {
			m := reflect.MakeMap(v.Type())
			it := v.MapRange()
			it.Next()
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			key := reflect.New(v.Type().Key()).Elem()
			key.Set(it.Key())
			m.SetMapIndex(key, e)
			v.Set(m)
		}
		for it := v.MapRange(); it.Next(); {
			key := reflect.New(v.Type().Key()).Elem()
			key.Set(it.Key())
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			singleMaps(key)
			singleMaps(e)
			m := reflect.MakeMap(v.Type())
			m.SetMapIndex(key, e)
			v.Set(m)
			return
		}
	case reflect.Pointer:
		if !v.IsNil() {
			singleMaps(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				singleMaps(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			singleMaps(v.Index(i))
		}
	}
}

// sink is an underlying writer of one of several shapes over a recorder.
type sink struct {
	rec   *mon.RecWriter
	w     io.Writer
	flush bool // rec's Flush has to be called
	buf   *bufio.Writer
	shape string
}

type readFromWriter struct{ *mon.RecWriter }

func (w readFromWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	return int64(n), err
}

type stringWriter struct{ *mon.RecWriter }

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// uncomparable is a sink that panics when it is compared.
type uncomparable struct {
	io.Writer
	_ []int
}

func newSink(r *core.Rand) *sink {
	s := &sink{rec: mon.NewRec()}
	switch n := r.Intn(9); n {
	case 0:
		s.shape, s.w = "plain", struct{ io.Writer }{s.rec}
	case 1:
		s.shape, s.w = "plain pointer", s.rec
	case 2:
		s.shape, s.w, s.flush = "flusher", mon.FlushRec{RecWriter: s.rec}, true
	case 3:
		s.shape, s.w, s.flush = "flusher pointer", &mon.FlushRec{RecWriter: s.rec}, true
	case 4:
		s.buf = bufio.NewWriterSize(struct{ io.Writer }{s.rec}, 16)
		s.shape, s.w = "bufio16", s.buf
	case 5:
		s.buf = bufio.NewWriterSize(struct{ io.Writer }{s.rec}, core.Pick(r, 4096, 4097, 9000))
		s.shape, s.w = "bufio4096", s.buf
	case 6:
		s.shape, s.w = "stringwriter", stringWriter{s.rec}
	case 7:
		s.shape, s.w = "readfrom", readFromWriter{s.rec}
	case 8:
		s.shape, s.w = "uncomparable", uncomparable{Writer: s.rec}
	}
	return s
}

func c10(c *core.Ctx) {
	c.Cases("deliver", c.N(14000, 250000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		s := newSink(k.R)
		w := p.P.NewWriter(s.w)
		var want []byte
		delivered := false
		rounds := 1 + k.R.Intn(4)
		for round := 0; round < rounds; round++ {
			if round > 0 && k.R.P(1, 3) {
				s = newSink(k.R)
				w.Reset(s.w)
				want = nil
			}
			for _, o := range outItems(k) {
				want = o.enc(p, want)
				if err := o.write(w, k.R); err != nil {
					k.Fail("%s on a %s: write: %v", p.Name, s.shape, err)
				}
				if !bytes.HasPrefix(want, s.rec.Got) {
					k.Fail("%s on a %s: before Flush: the bytes delivered are not a prefix: %s", p.Name, s.shape, diff(s.rec.Got, want))
				}
			}
			if round < rounds-1 && k.R.P(1, 4) {
				continue // no Flush in this round
			}
			for n := 1 + k.R.Intn(2); n > 0; n-- {
				if err := w.Flush(); err != nil {
					k.Fail("%s on a %s: Flush: %v", p.Name, s.shape, err)
				}
				k.Count("flushes", 1)
			}
			if !bytes.Equal(s.rec.Got, want) {
				k.Fail("%s on a %s: after Flush (round %d): %s", p.Name, s.shape, round, diff(s.rec.Got, want))
			}
			if s.flush && (len(s.rec.Flushes) == 0 || s.rec.Flushes[len(s.rec.Flushes)-1] != len(want)) {
				k.Fail("%s on a %s: Flush of the underlying writer was not called after the last of %d bytes: calls at %v", p.Name, s.shape, len(want), s.rec.Flushes)
			}
			delivered = true
		}
		if delivered {
			k.Count("bytes", len(want))
			k.Hit(p.Name + s.shape + string(want))
			k.Sample("%s on a %s: %s", p.Name, s.shape, hexs(want))
		}
	})

	// Flush in the middle of a value: everything the calls so far put out has
	// arrived, and the underlying writer was flushed after it.
	c.Cases("midway", c.N(6000, 100000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		s := newSink(k.R)
		m := &mon.Meter{Writer: p.P.NewWriter(s.w), Proto: p.Name}
		items := outItems(k)
		if k.R.Bool() {
			items = append(items, outItem{it: item{v: boolsVal(k.R)}})
		}
		var want []byte
		for _, o := range items {
			want = o.enc(p, want)
		}
		odds := core.Pick(k.R, 1, 2, 5, 20)
		m.After = func() error {
			if !k.R.P(1, odds) {
				return nil
			}
			nf := len(s.rec.Flushes)
			if err := m.Writer.Flush(); err != nil {
				k.Fail("%s on a %s: Flush after %d bytes: %v", p.Name, s.shape, m.N, err)
			}
			if m.N > len(want) || !bytes.Equal(s.rec.Got, want[:m.N]) {
				k.Fail("%s on a %s: Flush after the calls for the first %d of %d bytes: %s", p.Name, s.shape, m.N, len(want), diff(s.rec.Got, want[:min(m.N, len(want))]))
			}
			if s.flush && (len(s.rec.Flushes) == nf || s.rec.Flushes[len(s.rec.Flushes)-1] != m.N) {
				k.Fail("%s on a %s: Flush after %d bytes was not passed on: %v", p.Name, s.shape, m.N, s.rec.Flushes)
			}
			k.Count("midway_flushes", 1)
			return nil
		}
		for _, o := range items {
			if err := o.write(m, k.R); err != nil {
				k.Fail("%s on a %s: write: %v", p.Name, s.shape, err)
			}
		}
		if m.N != len(want) {
			panic(fmt.Sprintf("the meter counts %d bytes of %d", m.N, len(want)))
		}
		if err := m.Writer.Flush(); err != nil || !bytes.Equal(s.rec.Got, want) {
			k.Fail("%s on a %s: last Flush: %v, %s", p.Name, s.shape, err, diff(s.rec.Got, want))
		}
		k.Hit("midway" + p.Name + s.shape + string(want))
	})

	// A fault at every byte offset.
	c.Cases("fault", c.N(2400, 40000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		items := outItems(k)
		var want []byte
		for _, o := range items {
			want = o.enc(p, want)
		}
		for _, at := range cuts(k.R, len(want), 48, 32) {
			s := newSink(k.R)
			s.rec.Limit = at
			s.rec.Sticky = k.R.Bool()
			if k.R.P(3, 4) {
				s.rec.LimitErr = mon.RandErr(k.R)
			} else {
				// A short write without an error breaks the io.Writer
				// contract; bufio reports it or writes the rest.
				s.rec.Sticky = false
			}
			stop := k.R.Bool()
			flushMid := k.R.P(1, 4)
			w := p.P.NewWriter(s.w)
			var first error
			what := fmt.Sprintf("%s on a %s that fails at byte %d of %d (error %v, sticky %v)", p.Name, s.shape, at, len(want), s.rec.LimitErr, s.rec.Sticky)
			note := func(err error) bool {
				if err != nil && first == nil {
					first = err
				}
				return first != nil && stop
			}
			for i, o := range items {
				if note(o.write(w, k.R)) {
					break
				}
				if flushMid && i < len(items)-1 {
					if note(w.Flush()) {
						break
					}
				}
			}
			if first == nil || !stop {
				note(w.Flush())
			}
			if s.rec.Faults == 0 && first == nil {
				k.Fail("%s: no error and the fault was never reached: only %d bytes arrived", what, len(s.rec.Got))
			}
			if first == nil && (s.rec.LimitErr != nil || !bytes.Equal(s.rec.Got, want)) {
				k.Fail("%s: no call up to Flush returned an error", what)
			}
			if !bytes.HasPrefix(want, s.rec.Got) {
				k.Fail("%s: the bytes delivered are not a prefix of the output: %s", what, diff(s.rec.Got, want))
			}
			if len(s.rec.Got) > at && s.rec.Sticky {
				k.Fail("%s: %d bytes got through", what, len(s.rec.Got))
			}
			k.Count("faults", s.rec.Faults)
			k.Count("faulty_runs", 1)
			k.Hit(fmt.Sprint(p.Name, s.shape, at, s.rec.LimitErr, s.rec.Sticky, len(want), stop))
		}
	})

	// Flush of the underlying writer fails.
	c.Cases("flushfault", c.N(4000, 50000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		rec := mon.NewRec()
		rec.FlushFail = 1 + k.R.Intn(3)
		rec.FlushErr = mon.RandErr(k.R)
		w := p.P.NewWriter(mon.FlushRec{RecWriter: rec})
		var want []byte
		for round := 0; round < 4; round++ {
			var err error
			for _, o := range outItems(k) {
				want = o.enc(p, want)
				if e := o.write(w, k.R); e != nil && err == nil {
					err = e
				}
			}
			if e := w.Flush(); e != nil && err == nil {
				err = e
			}
			if rec.Faults > 0 && err == nil {
				k.Fail("%s: Flush of the underlying writer failed and no call returned an error", p.Name)
			}
			if rec.Faults > 0 {
				if !bytes.HasPrefix(want, rec.Got) {
					k.Fail("%s: bytes delivered are not a prefix: %s", p.Name, diff(rec.Got, want))
				}
				k.Count("faults", 1)
				k.Hit(fmt.Sprint(p.Name, round) + string(want))
				break
			}
			if err != nil {
				k.Fail("%s: error without a fault: %v", p.Name, err)
			}
			if !bytes.Equal(rec.Got, want) {
				k.Fail("%s: after Flush: %s", p.Name, diff(rec.Got, want))
			}
			if len(rec.Flushes) == 0 || rec.Flushes[len(rec.Flushes)-1] != len(want) {
				k.Fail("%s: Flush not passed on after the last byte: %v", p.Name, rec.Flushes)
			}
		}
		if rec.Faults == 0 {
			k.Fail("%s: 4 rounds of writes and Flush called the underlying Flush only %d times", p.Name, len(rec.Flushes))
		}
	})
}

var errStop = errors.New("stop here")

// stopReader gives up after n calls, leaving the reader in mid-air.
type stopReader struct {
	thriftwire.Reader
	n int
}

func (s *stopReader) stop() bool { s.n--; return s.n < 0 }
func (s *stopReader) ReadStructBegin() (thriftwire.StructHeader, error) {
	if s.stop() {
		return thriftwire.StructHeader{}, errStop
	}
	return s.Reader.ReadStructBegin()
}
func (s *stopReader) ReadStructEnd() error {
	if s.stop() {
		return errStop
	}
	return s.Reader.ReadStructEnd()
}
func (s *stopReader) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	if s.stop() {
		return thriftwire.FieldHeader{}, errStop
	}
	return s.Reader.ReadFieldBegin()
}
func (s *stopReader) ReadFieldEnd() error {
	if s.stop() {
		return errStop
	}
	return s.Reader.ReadFieldEnd()
}
func (s *stopReader) ReadBool() (bool, error) {
	if s.stop() {
		return false, errStop
	}
	return s.Reader.ReadBool()
}
func (s *stopReader) ReadI32() (int32, error) {
	if s.stop() {
		return 0, errStop
	}
	return s.Reader.ReadI32()
}
func (s *stopReader) ReadString() (string, error) {
	if s.stop() {
		return "", errStop
	}
	return s.Reader.ReadString()
}
func (s *stopReader) ReadListBegin() (thriftwire.ListHeader, error) {
	if s.stop() {
		return thriftwire.ListHeader{}, errStop
	}
	return s.Reader.ReadListBegin()
}
func (s *stopReader) ReadMapBegin() (thriftwire.MapHeader, error) {
	if s.stop() {
		return thriftwire.MapHeader{}, errStop
	}
	return s.Reader.ReadMapBegin()
}

type stopWriter struct {
	thriftwire.Writer
	n int
}

func (s *stopWriter) stop() bool { s.n--; return s.n < 0 }
func (s *stopWriter) WriteStructBegin(h thriftwire.StructHeader) error {
	if s.stop() {
		return errStop
	}
	return s.Writer.WriteStructBegin(h)
}
func (s *stopWriter) WriteStructEnd() error {
	if s.stop() {
		return errStop
	}
	return s.Writer.WriteStructEnd()
}
func (s *stopWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	if s.stop() {
		return errStop
	}
	return s.Writer.WriteFieldBegin(h)
}
func (s *stopWriter) WriteBool(v bool) error {
	if s.stop() {
		return errStop
	}
	return s.Writer.WriteBool(v)
}
func (s *stopWriter) WriteI32(v int32) error {
	if s.stop() {
		return errStop
	}
	return s.Writer.WriteI32(v)
}
func (s *stopWriter) WriteString(v string) error {
	if s.stop() {
		return errStop
	}
	return s.Writer.WriteString(v)
}
func (s *stopWriter) WriteListBegin(h thriftwire.ListHeader) error {
	if s.stop() {
		return errStop
	}
	return s.Writer.WriteListBegin(h)
}

// boolsVal is a struct full of boolean fields.
func boolsVal(r *core.Rand) tm.Val {
	v := tm.Val{T: tm.Struct}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		f := tm.BoolV(r.Bool())
		if r.P(1, 4) {
			f = boolsVal(r)
		}
		v.Fs = append(v.Fs, tm.Field{ID: gg.ID(r), V: f})
	}
	return v
}

// chainVal nests structs, lists and maps n levels deep.
func chainVal(r *core.Rand, n int) tm.Val {
	v := boolsVal(r)
	for ; n > 0; n-- {
		s := tm.Val{T: tm.Struct}
		if r.P(1, 4) {
			s = boolsVal(r)
		}
		switch r.Intn(6) {
		case 0:
			v = tm.Val{T: tm.List, E: v.T, L: []tm.Val{v}}
		case 1:
			v = tm.Val{T: tm.Map, K: tm.Bool, E: v.T, L: []tm.Val{tm.BoolV(true), v}}
		}
		s.Fs = append(s.Fs, tm.Field{ID: gg.ID(r), V: v})
		v = s
	}
	return v
}

// calls is a number of calls after which to stop.
func calls(r *core.Rand) int {
	switch r.Intn(8) {
	case 0, 1:
		return 1 << 30
	case 2:
		return r.Intn(1500)
	}
	return r.Intn(12)
}

func dirtyVal(r *core.Rand) tm.Val {
	if r.P(1, 16) {
		return chainVal(r, r.Intn(core.Pick(r, 40, 150, 600)))
	}
	if r.Bool() {
		return boolsVal(r)
	}
	return gg.RandVal(r, tm.Struct, 4)
}

func c11(c *core.Ctx) {
	c11raw(c)
	c11again(c)
	c.Cases("reader", c.N(16000, 300000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		var r thriftwire.Reader
		// the old stream, perhaps a bufio.Reader of the caller
		var old []byte
		var state string
		var oldBuf *bufio.Reader
		var oldSrc *mon.ChunkReader
		lives := 1 + k.R.Intn(3)
		for life := 0; life < lives; life++ {
			old = nil
			nv := k.R.Intn(3)
			var vs []tm.Val
			for i := 0; i <= nv; i++ {
				v := dirtyVal(k.R)
				vs = append(vs, v)
				if k.R.P(1, 4) {
					old = p.EncMsg(old, randMsg(k.R))
				} else {
					old = p.Enc(old, v)
				}
			}
			switch k.R.Intn(6) {
			case 0:
				old = mutate(k.R, old)
			case 1:
				old = old[:k.R.Intn(len(old)+1)]
			case 2:
				old = append(old, k.R.Bytes(k.R.Intn(9000))...)
			}
			oldSrc = &mon.ChunkReader{Data: old}
			if k.R.P(1, 3) {
				oldSrc.Plan = mon.PlanRandom(k.R)
			}
			if k.R.P(1, 5) {
				oldSrc.End = mon.ErrStream
			}
			var src io.Reader = oldSrc
			oldBuf = nil
			if k.R.Bool() {
				oldBuf = bufio.NewReaderSize(oldSrc, core.Pick(k.R, 16, 4095, 4096, 4097, 8192))
				src = oldBuf
			}
			if k.R.P(1, 12) && life < lives-1 {
				src, oldBuf = nil, nil // a pooled reader without a stream
			}
			if r == nil {
				r = p.P.NewReader(src)
			} else {
				r.Reset(src)
			}
			if src == nil {
				state += "no stream;"
				continue
			}
			for _, v := range vs {
				if k.R.P(1, 5) {
					r.ReadMessageBegin()
				}
				n := calls(k.R)
				var err error
				if k.R.P(1, 4) {
					err = thrift.Unmarshal(&stopReader{r, n}, new(gg.Bools))
				} else if k.R.P(1, 4) {
					err = thriftwire.Skip(&stopReader{r, n}, thriftwire.Type(v.T))
				} else {
					_, err = mon.ReadVal(&stopReader{r, n}, v.T, nil)
				}
				state += fmt.Sprintf("%d calls: %v;", n, err)
			}
		}
		k.Note("before Reset: %s", state)
		// what the old stream looks like
		off, reads := oldSrc.Off, oldSrc.Reads
		var buffered []byte
		if oldBuf != nil {
			b, _ := oldBuf.Peek(oldBuf.Buffered())
			buffered = append([]byte{}, b...)
		}
		// the new life
		its := randItems(k.R)
		var in []byte
		for _, it := range its {
			if it.msg != nil {
				in = p.EncMsg(in, *it.msg)
			} else {
				in = encRef(k.R, p, in, it.v)
			}
		}
		in = append(in, sentinel[:]...)
		newSrc := &mon.ChunkReader{Data: in}
		var src io.Reader = newSrc
		if k.R.P(1, 3) {
			src = bufio.NewReaderSize(newSrc, core.Pick(k.R, 16, 4096, 5000))
		}
		r.Reset(src)
		checkOld := func(when string) {
			if oldBuf != nil {
				b, _ := oldBuf.Peek(oldBuf.Buffered())
				if !bytes.Equal(b, buffered) {
					k.Fail("%s: %s altered the bufio.Reader of the old stream: it held %s and now %s", p.Name, when, hexs(buffered), hexs(b))
				}
			}
			if oldSrc.Off != off || oldSrc.Reads != reads {
				k.Fail("%s: the old stream was read %s: offset %d to %d", p.Name, when, off, oldSrc.Off)
			}
		}
		checkOld("Reset")
		for i, it := range its {
			if it.msg != nil {
				h, err := r.ReadMessageBegin()
				if err != nil || !sameHeader(h, *it.msg) {
					k.Fail("%s: after Reset: header read as %+v, %v, want %+v", p.Name, h, err, *it.msg)
				}
				continue
			}
			got, err := mon.ReadVal(r, it.v.T, k.R)
			if err != nil {
				k.Fail("%s: after Reset: item %d (%s): %v", p.Name, i, short(it.v.Render(false)), err)
			}
			if g, w := got.Render(false), it.v.Render(false); g != w {
				k.Fail("%s: after Reset: item %d: %s", p.Name, i, diffs(g, w))
			}
			k.Count("values", 1)
		}
		expectEnd(k, p.Name+" after Reset", r)
		checkOld("while the new one was read")
		if oldBuf != nil {
			rest, _ := io.ReadAll(oldBuf)
			if want := append(buffered, oldSrc.Data[off:]...); !bytes.Equal(rest, want) {
				k.Fail("%s: the bufio.Reader of the old stream now yields something else: %s", p.Name, diff(rest, want))
			}
			k.Count("old_bufio_checked", 1)
		}
		k.Hit(p.Name + state + string(in))
		k.Sample("%s reader, %s then Reset", p.Name, short(state))
	})

	c.Cases("writer", c.N(16000, 300000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		var w thriftwire.Writer
		var s *sink
		state := ""
		for life, lives := 0, 1+k.R.Intn(3); life < lives; life++ {
			s = newSink(k.R)
			if k.R.P(1, 3) {
				s.rec.Limit, s.rec.LimitErr, s.rec.Sticky = k.R.Intn(200), mon.ErrStream, k.R.Bool()
			}
			var dst io.Writer = s.w
			if k.R.P(1, 12) && life < lives-1 {
				dst = nil
			}
			if w == nil {
				w = p.P.NewWriter(dst)
			} else {
				w.Reset(dst)
			}
			if dst == nil {
				state += "no stream;"
				continue
			}
			for n := k.R.Intn(3); n >= 0; n-- {
				if k.R.P(1, 4) {
					w.WriteMessageBegin(header(randMsg(k.R)))
				}
				n := calls(k.R)
				err := mon.WriteVal(&stopWriter{w, n}, dirtyVal(k.R), k.R)
				state += fmt.Sprintf("%s, %d calls: %v;", s.shape, n, err)
				if k.R.P(1, 3) {
					err := w.Flush()
					state += fmt.Sprintf("Flush: %v;", err)
				}
			}
		}
		k.Note("before Reset: %s", state)
		oldGot, oldFl := len(s.rec.Got), len(s.rec.Flushes)
		oldN := -1
		if s.buf != nil {
			oldN = s.buf.Buffered()
		}
		old := s
		s = newSink(k.R)
		if s.buf != nil && k.R.P(1, 3) {
			s.buf.WriteString("head") // the caller's own bytes go first
		}
		var want []byte
		if s.buf != nil && s.buf.Buffered() > 0 {
			want = append(want, "head"...)
		}
		w.Reset(s.w)
		check := func(when string) {
			if len(old.rec.Got) != oldGot || len(old.rec.Flushes) != oldFl {
				k.Fail("%s: the old %s received something %s: %s", p.Name, old.shape, when, hexs(old.rec.Got[oldGot:]))
			}
			if old.buf != nil && old.buf.Buffered() != oldN {
				k.Fail("%s: the caller's bufio.Writer of the old stream was altered %s: %d bytes buffered, before %d", p.Name, when, old.buf.Buffered(), oldN)
			}
		}
		check("by Reset")
		for _, o := range outItems(k) {
			want = o.enc(p, want)
			if err := o.write(w, k.R); err != nil {
				k.Fail("%s: after Reset: write: %v", p.Name, err)
			}
		}
		if err := w.Flush(); err != nil {
			k.Fail("%s: after Reset: Flush: %v", p.Name, err)
		}
		if !bytes.Equal(s.rec.Got, want) {
			k.Fail("%s: after Reset to a %s: %s", p.Name, s.shape, diff(s.rec.Got, want))
		}
		if s.flush && (len(s.rec.Flushes) == 0 || s.rec.Flushes[len(s.rec.Flushes)-1] != len(want)) {
			k.Fail("%s: after Reset: Flush not passed on: %v", p.Name, s.rec.Flushes)
		}
		check("while the new one was written")
		if old.buf != nil && old.rec.Limit < 0 {
			old.buf.WriteString("tail")
			if err := old.buf.Flush(); err != nil {
				k.Fail("%s: the caller's bufio.Writer fails after Reset: %v", p.Name, err)
			}
			if len(old.rec.Got) != oldGot+oldN+4 || !bytes.HasSuffix(old.rec.Got, []byte("tail")) {
				k.Fail("%s: the caller's bufio.Writer lost its stream", p.Name)
			}
			if !bytes.Equal(s.rec.Got, want) {
				k.Fail("%s: bytes of the old stream reached the new one", p.Name)
			}
			k.Count("old_bufio_checked", 1)
		}
		k.Count("writers", 1)
		k.Hit(p.Name + state + string(want))
	})

	// A reset reader and a new one agree on any input, also on malformed ones.
	c.Cases("same", c.N(12000, 200000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		b := p.Enc(nil, dirtyVal(k.R))
		r := p.P.NewReader(bytes.NewReader(b))
		mon.ReadVal(&stopReader{r, calls(k.R)}, tm.Struct, nil)
		if k.R.P(1, 3) {
			r.Reset(source(k.R, bytes.NewReader(b)))
		}
		var in []byte
		msg := k.R.P(1, 3)
		if msg {
			in = core.Pick(k.R, mon.Protos[0], mon.Protos[1], mon.Protos[2], p).EncMsg(nil, randMsg(k.R))
		}
		in = p.Enc(in, dirtyVal(k.R))
		if k.R.P(3, 4) {
			in = mutate(k.R, in)
		}
		if len(in) > 3000 {
			return // a damaged size can make the generic reader slow
		}
		shape := k.R.Uint64()
		stream := func() io.Reader { return source(core.NewRand(shape), bytes.NewReader(in)) }
		r.Reset(stream())
		t := core.Pick(k.R, tm.Struct, tm.Struct, tm.List, tm.Map, tm.Bool)
		run := func(r thriftwire.Reader) string {
			var h thriftwire.MessageHeader
			var err error
			if msg {
				h, err = r.ReadMessageBegin()
			}
			if err == nil {
				err = readBounded(r, t, 0)
			}
			rest := 0
			if err == nil {
				for {
					if _, err := r.ReadByte(); err != nil {
						break
					}
					rest++
				}
			}
			return fmt.Sprintf("%+q %v, %d bytes left", h, err, rest)
		}
		got, want := run(r), run(p.P.NewReader(stream()))
		if got != want {
			k.Fail("%s: input %s: the reset reader gives %s, a new one %s", p.Name, hexs(in), got, want)
		}
		k.Count("compared", 1)
		k.Hit(p.Name + string(in))
	})
}

// c11again resets to the stream the reader or writer already has.
func c11again(c *core.Ctx) {
	c.Cases("again-reader", c.N(12000, 200000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		size := core.Pick(k.R, 0, 0, 0, 16, 100, 4095, 4096, 5000)
		var under bytes.Buffer
		var bufd *bufio.Reader
		var stream io.Reader = &under
		if size > 0 {
			bufd = bufio.NewReaderSize(&under, size)
			stream = bufd
		}
		if k.R.P(1, 6) {
			stream = struct {
				io.Reader
				_ []int
			}{Reader: stream}
		}
		r := p.P.NewReader(stream)
		state := ""
		for lives := 1 + k.R.Intn(4); lives > 0; lives-- {
			for n := k.R.Intn(3); n >= 0; n-- {
				if k.R.P(1, 4) {
					under.Write(p.EncMsg(nil, randMsg(k.R)))
				} else {
					under.Write(p.Enc(nil, dirtyVal(k.R)))
				}
			}
			if k.R.P(1, 4) {
				under.Write(k.R.Bytes(k.R.Intn(12)))
			}
			switch k.R.Intn(4) {
			case 0:
				readBounded(&stopReader{r, calls(k.R)}, tm.Struct, 0)
			case 1: // nothing
			default:
				for n := k.R.Intn(10); n > 0; n-- {
					s := rawRead(r, k.R.Intn(23))
					if strings.Contains(s, "panics") {
						break
					}
				}
			}
			r.Reset(stream)
			// What is left of the stream: the reader has taken the rest.
			var rest []byte
			if bufd != nil {
				b, _ := bufd.Peek(bufd.Buffered())
				rest = append(rest, b...)
			}
			rest = append(rest, under.Bytes()...)
			in := k.R.Bytes(k.R.Intn(20))
			if k.R.P(3, 4) {
				in = p.Enc(nil, dirtyVal(k.R))
			}
			under.Write(in)
			if k.R.P(1, 3) {
				r.Reset(stream)
			}
			f := p.P.NewReader(bytes.NewReader(append(rest, in...)))
			state += "Reset;"
			for n := k.R.Intn(30); n > 0; n-- {
				op := k.R.Intn(23)
				if k.R.Bool() {
					op = k.R.Intn(4)
				}
				got, want := rawRead(r, op), rawRead(f, op)
				if got != want {
					k.Fail("%s, stream of shape %d: after a Reset to the same stream with %s left on it: %s the reader then gives %s, a new one %s", p.Name, size, hexs(append(rest, in...)), state, got, want)
				}
				state += want + ";"
				k.Count("compared_calls", 1)
				if strings.Contains(want, "panics") {
					return
				}
			}
		}
		k.Count("same_stream", 1)
		k.Hit(p.Name + state)
	})
	c.Cases("again-writer", c.N(12000, 200000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		s := newSink(k.R)
		w := p.P.NewWriter(s.w)
		state := s.shape
		for lives := 1 + k.R.Intn(3); lives > 0; lives-- {
			fail := k.R.P(1, 6)
			if fail {
				s.rec.Limit, s.rec.LimitErr, s.rec.Sticky = len(s.rec.Got)+k.R.Intn(20), mon.ErrStream, true
				if s.buf != nil {
					s.rec.Limit = -1 // a failed bufio.Writer stays failed
				}
			}
			for n := k.R.Intn(3); n >= 0; n-- {
				switch k.R.Intn(4) {
				case 0:
					w.WriteMessageBegin(header(randMsg(k.R)))
				case 1:
					for n := k.R.Intn(8); n > 0; n-- {
						rawWrite(w, k.R.Intn(21), k.R.Uint64())
					}
				default:
					mon.WriteVal(&stopWriter{w, calls(k.R)}, dirtyVal(k.R), k.R)
				}
				if k.R.P(1, 5) {
					w.Flush()
				}
			}
			s.rec.Limit = -1
			n0 := len(s.rec.Got)
			w.Reset(s.w)
			if len(s.rec.Got) != n0 {
				k.Fail("%s: Reset to the same %s delivered %s", p.Name, s.shape, hexs(s.rec.Got[n0:]))
			}
			head := append([]byte{}, s.rec.Got...)
			held := 0
			if s.buf != nil { // what the caller's buffer holds is delivered already
				held = s.buf.Buffered()
			}
			var want []byte
			for _, o := range outItems(k) {
				want = o.enc(p, want)
				if err := o.write(w, k.R); err != nil {
					k.Fail("%s: after Reset to the same %s: write: %v", p.Name, s.shape, err)
				}
			}
			if err := w.Flush(); err != nil {
				k.Fail("%s: after Reset to the same %s: Flush: %v", p.Name, s.shape, err)
			}
			all := len(head) + held + len(want)
			if len(s.rec.Got) != all || !bytes.HasPrefix(s.rec.Got, head) || !bytes.HasSuffix(s.rec.Got, want) {
				k.Fail("%s: after Reset to the same %s, which had received %d bytes: %s", p.Name, s.shape, len(head)+held, diff(s.rec.Got[min(len(s.rec.Got), len(head)+held):], want))
			}
			if s.flush && (len(s.rec.Flushes) == 0 || s.rec.Flushes[len(s.rec.Flushes)-1] != all) {
				k.Fail("%s: after Reset to the same %s: Flush not passed on", p.Name, s.shape)
			}
			state += fmt.Sprint(len(want), ";")
			k.Hit(p.Name + state + string(want))
		}
		k.Count("same_stream", 1)
	})
}

// rawRead makes one call on a reader, without regard to what the position
// allows, and renders what it gives.
func rawRead(r thriftwire.Reader, op int) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprint(op, " panics: ", p)
		}
	}()
	var v any
	var err error
	switch op {
	case 0:
		v, err = r.ReadFieldBegin()
	case 1:
		v, err = r.ReadBool()
	case 2:
		v, err = r.ReadStructBegin()
	case 3:
		err = r.ReadStructEnd()
	case 4:
		err = r.ReadFieldEnd()
	case 5:
		v, err = r.ReadMessageBegin()
	case 6:
		err = r.ReadMessageEnd()
	case 7:
		v, err = r.ReadByte()
	case 8:
		v, err = r.ReadI16()
	case 9:
		v, err = r.ReadI32()
	case 10:
		v, err = r.ReadI64()
	case 11:
		var f float64
		f, err = r.ReadDouble()
		v = math.Float64bits(f)
	case 12:
		v, err = r.ReadString()
	case 13:
		v, err = r.ReadBytes(nil)
	case 14:
		v, err = r.ReadMapBegin()
	case 15:
		err = r.ReadMapEnd()
	case 16:
		v, err = r.ReadListBegin()
	case 17:
		err = r.ReadListEnd()
	case 18:
		v, err = r.ReadSetBegin()
	case 19:
		err = r.ReadSetEnd()
	case 20:
		var u [16]byte
		err = r.ReadUUID(&u)
		v = u
	case 21:
		err = r.SkipString()
	case 22:
		err = r.SkipUUID()
	}
	if err != nil {
		return fmt.Sprint(op, " ", err)
	}
	return fmt.Sprintf("%d %v", op, v)
}

// rawWrite makes one call on a writer, without regard to what the position
// allows.
func rawWrite(w thriftwire.Writer, op int, x uint64) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprint(op, " panics: ", p)
		}
	}()
	t := thriftwire.Type(tm.Types[x%uint64(len(tm.Types))])
	id := int16(x>>8) >> (x >> 24 & 15)
	var err error
	switch op {
	case 0:
		err = w.WriteFieldBegin(thriftwire.FieldHeader{Type: t, ID: id})
	case 1:
		err = w.WriteBool(x&1 == 1)
	case 2:
		err = w.WriteStructBegin(thriftwire.StructHeader{})
	case 3:
		err = w.WriteStructEnd()
	case 4:
		err = w.WriteFieldEnd()
	case 5:
		err = w.WriteMessageBegin(thriftwire.MessageHeader{Name: "n", Type: thriftwire.Call, ID: int32(x)})
	case 6:
		err = w.WriteMessageEnd()
	case 7:
		err = w.WriteByte(byte(x))
	case 8:
		err = w.WriteI16(int16(x))
	case 9:
		err = w.WriteI32(int32(x))
	case 10:
		err = w.WriteI64(int64(x))
	case 11:
		err = w.WriteDouble(math.Float64frombits(x))
	case 12:
		err = w.WriteString("xyz")
	case 13:
		err = w.WriteBytes([]byte("xyz"))
	case 14:
		err = w.WriteMapBegin(thriftwire.MapHeader{Key: t, Value: t, Size: int(x % 20)})
	case 15:
		err = w.WriteMapEnd()
	case 16:
		err = w.WriteListBegin(thriftwire.ListHeader{Element: t, Size: int(x % 20)})
	case 17:
		err = w.WriteListEnd()
	case 18:
		err = w.WriteSetBegin(thriftwire.SetHeader{Element: t, Size: int(x % 20)})
	case 19:
		err = w.WriteSetEnd()
	case 20:
		var u [16]byte
		u[3] = byte(x)
		err = w.WriteUUID(&u)
	}
	return fmt.Sprint(op, " ", err)
}

func c11raw(c *core.Ctx) {
	// Whatever is called first after Reset: a reset reader and a new one give
	// the same results, call by call.
	c.Cases("raw-reader", c.N(20000, 400000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		b := p.Enc(nil, dirtyVal(k.R))
		if k.R.P(1, 3) {
			b = mutate(k.R, b)
		}
		r := p.P.NewReader(bytes.NewReader(b))
		if k.R.Bool() {
			readBounded(&stopReader{r, calls(k.R)}, tm.Struct, 0)
		} else if k.R.P(1, 8) {
			// A run of one or two calls.
			a, b := k.R.Intn(23), k.R.Intn(4)
			for n := k.R.Intn(300); n > 0; n-- {
				rawRead(r, core.Pick(k.R, a, b))
			}
		} else {
			for n := k.R.Intn(12); n > 0; n-- {
				rawRead(r, k.R.Intn(23))
			}
		}
		in := k.R.Bytes(k.R.Intn(60))
		if k.R.Bool() {
			in = p.Enc(nil, boolsVal(k.R))
		} else if k.R.P(1, 3) {
			in = core.Pick(k.R, mon.Protos[0], mon.Protos[1], mon.Protos[2]).EncMsg(nil, randMsg(k.R))
		}
		shape := k.R.Uint64()
		stream := func() io.Reader { return source(core.NewRand(shape), bytes.NewReader(in)) }
		r.Reset(stream())
		f := p.P.NewReader(stream())
		sig := ""
		for n := 1 + k.R.Intn(12); n > 0; n-- {
			op := k.R.Intn(23)
			if k.R.Bool() {
				op = k.R.Intn(4)
			}
			if n == 1 && len(sig) == 0 && k.R.Bool() {
				op = 5
			}
			got, want := rawRead(r, op), rawRead(f, op)
			sig += want + ";"
			if got != want {
				k.Fail("%s: calls after Reset on %s: %s the reset reader then gives %s", p.Name, hexs(in), sig, got)
			}
			if strings.Contains(want, "panics") {
				break // no call may follow
			}
			k.Count("compared_calls", 1)
		}
		k.Hit(p.Name + sig)
	})
	c.Cases("raw-writer", c.N(20000, 400000), func(k *core.K) {
		p := mon.Protos[k.I%3]
		var old, got, want bytes.Buffer
		w := p.P.NewWriter(&old)
		if k.R.Bool() {
			mon.WriteVal(&stopWriter{w, calls(k.R)}, dirtyVal(k.R), k.R)
		} else if k.R.P(1, 8) {
			// A run of one or two calls.
			a, b := k.R.Intn(21), k.R.Intn(4)
			for n := k.R.Intn(300); n > 0; n-- {
				rawWrite(w, core.Pick(k.R, a, b), k.R.Uint64())
			}
		} else {
			for n := k.R.Intn(12); n > 0; n-- {
				rawWrite(w, k.R.Intn(21), k.R.Uint64())
			}
		}
		if k.R.P(1, 3) {
			w.Flush()
		}
		n0 := old.Len()
		w.Reset(&got)
		f := p.P.NewWriter(&want)
		sig := ""
		for n := 1 + k.R.Intn(12); n > 0; n-- {
			op, x := k.R.Intn(21), k.R.Uint64()
			if k.R.Bool() {
				op = k.R.Intn(4)
			}
			g, m := rawWrite(w, op, x), rawWrite(f, op, x)
			sig += fmt.Sprint(m, x&0xffffff, ";")
			if g != m {
				k.Fail("%s: calls after Reset: %s the reset writer then gives %s", p.Name, sig, g)
			}
			if strings.Contains(m, "panics") {
				return // no call may follow
			}
			k.Count("compared_calls", 1)
		}
		if e1, e2 := w.Flush(), f.Flush(); e1 != nil || e2 != nil {
			k.Fail("%s: Flush: %v, %v", p.Name, e1, e2)
		}
		if !bytes.Equal(got.Bytes(), want.Bytes()) || old.Len() != n0 {
			k.Fail("%s: after Reset and %s: %s", p.Name, sig, diff(got.Bytes(), want.Bytes()))
		}
		k.Hit(p.Name + sig)
	})
}
