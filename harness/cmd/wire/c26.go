package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
)

// yieldReader yields before and behind every Read.
type yieldReader struct {
	io.Reader
	t *mon.Task
}

func (y yieldReader) Read(p []byte) (int, error) {
	y.t.Yield()
	n, err := y.Reader.Read(p)
	y.t.Yield()
	return n, err
}

// lane is the work of one task: a Writer or Reader with its streams.
type lane struct {
	*core.K
	t    *mon.Task
	p    mon.Proto
	late *[]func() // what is to be checked when all tasks have ended
	typs []reflect.Type
	vals []reflect.Value
}

// value is a value of a type that the other tasks use too, or the same value.
func (l *lane) value() (reflect.Value, *gg.Desc) {
	if l.R.P(1, 4) {
		v := core.Pick(l.R, l.vals...)
		return v, gg.Describe(v.Type())
	}
	t := core.Pick(l.R, l.typs...)
	d := gg.Describe(t)
	o := gg.DefaultOpts
	if l.R.P(1, 12) {
		o.BigBytes = 9000
	}
	return gg.GenValue(l.R, d, o), d
}

// keep checks in the end that the error has not changed.
func (l *lane) keep(err, cause error) {
	if err == nil {
		return
	}
	text, is := errText(err), cause != nil && errors.Is(err, cause)
	*l.late = append(*l.late, func() {
		if now := errText(err); now != text {
			l.Fail("%s: an error says something else after the work of others: %s", l.p.Name, diffs(now, text))
		}
		if cause != nil && errors.Is(err, cause) != is {
			l.Fail("%s: %v does not match %v any more after the work of others", l.p.Name, err, cause)
		}
	})
	l.Count("errors_kept", 1)
}

func (l *lane) items() []outItem {
	var out []outItem
	for n := l.R.Intn(3); n >= 0; n-- {
		if l.R.P(3, 5) {
			v, d := l.value()
			out = append(out, outItem{go_: v, d: d})
		} else {
			for _, it := range randItems(l.R) {
				out = append(out, outItem{it: it})
			}
		}
	}
	return out
}

// take checks that b begins with the item and returns what follows it.
func (l *lane) take(o outItem, b []byte, what string) []byte {
	if o.go_.IsValid() {
		want := gg.Model(o.go_, o.d)
		m, n, err := l.p.Dec(b, o.d.W)
		if err != nil {
			l.Fail("%s %s: a %v became %s: %v", l.p.Name, what, o.go_.Type(), hexs(b), err)
		}
		if g, w := m.Render(true), want.Render(true); g != w {
			l.Fail("%s %s: a %v was written differently when others were at work: %s", l.p.Name, what, o.go_.Type(), diffs(g, w))
		}
		return b[n:]
	}
	want := o.enc(l.p, nil)
	if !bytes.HasPrefix(b, want) {
		l.Fail("%s %s: written differently when others were at work: %s", l.p.Name, what, diff(b, want))
	}
	return b[len(want):]
}

func (l *lane) writer() {
	var w thriftwire.Writer
	var used *sink // that of an abandoned Writer
	for life := l.R.Intn(4); life >= 0; life-- {
		s := newSink(l.R)
		s.rec.Hook = l.t.Yield
		if used != nil {
			s = used
			w = l.p.P.NewWriter(s.w)
			l.Count("successors", 1)
		} else if w == nil || l.R.P(1, 3) {
			w = l.p.P.NewWriter(s.w)
		} else {
			w.Reset(s.w)
		}
		if l.R.P(1, 3) {
			// abandoned in the middle, or after a failure
			used = nil
			if s.buf == nil && l.R.Bool() {
				used = s
			} else if l.R.P(1, 2) {
				s.rec.Limit, s.rec.LimitErr, s.rec.Sticky = l.R.Intn(200), mon.ErrStream, l.R.Bool()
			}
			mon.WriteVal(&stopWriter{mon.YWriter{W: w, T: l.t}, calls(l.R)}, dirtyVal(l.R), l.R)
			if l.R.P(1, 2) {
				w.Flush()
			}
			for l.R.P(1, 6) {
				w.Reset(nil)
			}
			if l.R.P(1, 40) {
				runtime.GC()
			}
			if rec, n := s.rec, len(s.rec.Got); used == nil {
				*l.late = append(*l.late, func() {
					if len(rec.Got) != n {
						l.Fail("%s: bytes of an abandoned Writer reached its stream: %s", l.p.Name, hexs(rec.Got[n:]))
					}
				})
			}
			continue
		}
		used = nil
		ws := []thriftwire.Writer{w}
		if l.R.P(1, 4) {
			ws = append(ws, l.p.P.NewWriter(s.w)) // takes turns on one stream
		}
		done := len(s.rec.Got)
		for n := l.R.Intn(3); n >= 0; n-- {
			w := core.Pick(l.R, ws...)
			its := l.items()
			for _, o := range its {
				if err := o.write(mon.YWriter{W: w, T: l.t}, l.R); err != nil {
					l.Fail("%s: writing fails when others are at work: %v", l.p.Name, err)
				}
			}
			l.t.Yield()
			if err := w.Flush(); err != nil {
				l.Fail("%s: Flush fails when others are at work: %v", l.p.Name, err)
			}
			l.t.Yield()
			if s.flush && (len(s.rec.Flushes) == 0 || s.rec.Flushes[len(s.rec.Flushes)-1] != len(s.rec.Got)) {
				l.Fail("%s: Flush not passed on: %v of %d bytes", l.p.Name, s.rec.Flushes, len(s.rec.Got))
			}
			b := s.rec.Got[done:]
			for _, o := range its {
				b = l.take(o, b, s.shape)
			}
			if len(b) > 0 {
				l.Fail("%s: %d bytes too many reached the stream: %s", l.p.Name, len(b), hexs(b))
			}
			done = len(s.rec.Got)
			l.Count("items_written", len(its))
		}
		rec := s.rec
		*l.late = append(*l.late, func() {
			if len(rec.Got) != done {
				l.Fail("%s: bytes reached a stream when its Writer was at rest: %s", l.p.Name, hexs(rec.Got[done:]))
			}
		})
	}
}

func (l *lane) encode(its []outItem) []byte {
	var b []byte
	for _, o := range its {
		if o.go_.IsValid() {
			b = encRef(l.R, l.p, b, gg.Model(o.go_, o.d))
		} else if o.it.msg != nil {
			b = l.p.EncMsg(b, *o.it.msg)
		} else {
			b = encRef(l.R, l.p, b, o.it.v)
		}
	}
	return b
}

func (l *lane) reader() {
	var r thriftwire.Reader
	for life := l.R.Intn(4); life >= 0; life-- {
		its := l.items()
		data := append(l.encode(its), sentinel[:]...)
		damaged := l.R.P(1, 4) && len(data) < 3000
		if damaged {
			data = mutate(l.R, data)
		}
		cr := &mon.ChunkReader{Data: data, With: l.R.P(1, 4)}
		if damaged && l.R.Bool() {
			cr.End = fmt.Errorf("end of stream %d", l.R.Uint64())
		}
		if l.R.P(1, 2) {
			cr.Plan = mon.PlanRandom(l.R)
		}
		src := source(l.R, yieldReader{cr, l.t})
		if r == nil || l.R.P(1, 3) {
			r = l.p.P.NewReader(src)
		} else {
			r.Reset(src)
		}
		y := mon.YReader{R: r, T: l.t}
		switch {
		case damaged:
			// The same as alone.
			run := func(r thriftwire.Reader) string {
				var errs []string
				for _, o := range its {
					var err error
					switch {
					case o.go_.IsValid():
						v := reflect.New(o.go_.Type())
						err = thrift.Unmarshal(r, v.Interface())
						errs = append(errs, gg.Canon(v.Elem(), o.d))
					case o.it.msg != nil:
						_, err = r.ReadMessageBegin()
					default:
						err = readBounded(r, o.it.v.T, 0)
					}
					errs = append(errs, errText(err))
					if err != nil {
						l.keep(err, cr.End)
						break
					}
				}
				return fmt.Sprint(errs)
			}
			alone := run(l.p.P.NewReader(&mon.ChunkReader{Data: data, End: cr.End}))
			if got := run(y); got != alone {
				l.Fail("%s: input %s: when others are at work: %s", l.p.Name, hexs(data), diffs(got, alone))
			}
			l.Count("damaged_inputs", 1)
			continue
		case l.R.P(1, 3):
			// abandoned
			if len(its) > 0 && !its[0].go_.IsValid() && its[0].it.msg == nil {
				mon.ReadVal(&stopReader{y, calls(l.R)}, its[0].it.v.T, nil)
			} else if its[0].go_.IsValid() {
				thrift.Unmarshal(&stopReader{y, calls(l.R)}, reflect.New(its[0].go_.Type()).Interface())
			}
			for l.R.P(1, 6) {
				r.Reset(nil)
			}
			if l.R.P(1, 40) {
				runtime.GC()
			}
			continue
		}
		for _, o := range its {
			switch {
			case o.go_.IsValid() && l.R.P(1, 6):
				if err := thriftwire.Skip(y, thriftwire.Type(o.d.W)); err != nil {
					l.Fail("%s: Skip of a %v fails when others are at work: %v", l.p.Name, o.go_.Type(), err)
				}
			case o.go_.IsValid():
				v := reflect.New(o.go_.Type())
				err := thrift.Unmarshal(y, v.Interface())
				if err != nil {
					l.Fail("%s: Unmarshal of a %v fails when others are at work: %v", l.p.Name, o.go_.Type(), err)
				}
				want := gg.Canon(o.go_, o.d)
				check := func(when string) {
					if got := gg.Canon(v.Elem(), o.d); got != want {
						l.Fail("%s: a %v is read differently %s: %s", l.p.Name, o.go_.Type(), when, diffs(got, want))
					}
				}
				check("when others are at work")
				*l.late = append(*l.late, func() { check("after the work of others") })
			case o.it.msg != nil:
				h, err := y.ReadMessageBegin()
				if err != nil || !sameHeader(h, *o.it.msg) {
					l.Fail("%s: header read as %+v, %v, want %+v", l.p.Name, h, err, *o.it.msg)
				}
			default:
				got, err := mon.ReadVal(y, o.it.v.T, l.R)
				if err != nil {
					l.Fail("%s: reading fails when others are at work: %v", l.p.Name, err)
				}
				want := o.it.v.Render(false)
				check := func(when string) {
					if g := got.Render(false); g != want {
						l.Fail("%s: read differently %s: %s", l.p.Name, when, diffs(g, want))
					}
				}
				check("when others are at work")
				*l.late = append(*l.late, func() { check("after the work of others") })
			}
			l.Count("items_read", 1)
		}
		expectEnd(l.K, l.p.Name, y)
	}
}

func c26(c *core.Ctx) {
	runtime.GOMAXPROCS(1) // what is pooled is handed on
	c.Cases("interleaved", c.N(5000, 80000), func(k *core.K) {
		var late []func()
		typs := []reflect.Type{typeFor(k), gg.GenStructType(k.R), core.Pick(k.R, gg.Registry...)}
		var vals []reflect.Value
		for _, t := range typs {
			vals = append(vals, gg.GenValue(k.R, gg.Describe(t), gg.DefaultOpts))
		}
		var tasks []func(*mon.Task)
		n := 2 + k.R.Intn(5)
		sig := ""
		one := k.R.Intn(6) // often all of one protocol
		for i := 0; i < n; i++ {
			kk := *k
			kk.R = core.NewRand(k.R.Uint64())
			l := &lane{K: &kk, p: mon.Protos[k.R.Intn(3)], late: &late, typs: typs, vals: vals}
			if one < 3 {
				l.p = mon.Protos[one]
			}
			if k.R.Bool() {
				sig += l.p.Name + " writer;"
				tasks = append(tasks, func(t *mon.Task) { l.t = t; l.writer() })
			} else {
				sig += l.p.Name + " reader;"
				tasks = append(tasks, func(t *mon.Task) { l.t = t; l.reader() })
			}
		}
		k.Note("tasks: %s", sig)
		defer func() { gg.ZeroHook = nil }()
		s := mon.RunTasks(k.R, core.Pick(k.R, 1, 2, 4, 16), func(s *mon.Sched) {
			gg.ZeroHook = func() {
				if t := s.Current(); t != nil {
					t.Yield()
				}
			}
		}, tasks...)
		gg.ZeroHook = nil
		for _, f := range late {
			f()
		}
		k.Count("tasks", n)
		k.Count("switches", s.Switches)
		k.Max("switches_of_a_case", int64(s.Switches))
		if s.Switches > n {
			k.Hit(fmt.Sprintf("%s %d %d", sig, s.Switches, k.I))
		}
		k.Sample("%s %d switches", sig, s.Switches)
	})
}
