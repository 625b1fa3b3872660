package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

func c12(c *core.Ctx) {
	c.Cases("marshal", c.N(40000, 700000), func(k *core.K) {
		t := typeFor(k)
		d := gg.Describe(t)
		v := valueFor(k, d)
		k.Note("type %v", t)
		w := &mon.WMon{}
		marshalTo(k, w, v)
		if w.Viol != "" {
			k.Fail("Marshal of %v: the call sequence is not well-formed: %s", t, w.Viol)
		}
		if !w.Balanced() {
			k.Fail("Marshal of %v: %d values written, something left open", t, len(w.Values))
		}
		model := gg.Model(v, d)
		if g, wnt := w.Values[0].Render(true), model.Render(true); g != wnt {
			k.Fail("Marshal of %v writes another value: %s", t, diffs(g, wnt))
		}
		k.Count("calls", w.Calls)
		k.Count("fields", countFields(model))
		k.Max("nesting", int64(w.MaxSeen))
		if w.Calls > 1 {
			k.Hit(t.String() + model.Render(true))
		}
		k.Sample("%v: %d calls: %s", t, w.Calls, short(model.Render(true)))
	})
	// Several Marshal calls into one writer do not disturb each other.
	c.Cases("sequence", c.N(4000, 50000), func(k *core.K) {
		w := &mon.WMon{}
		var models []tm.Val
		for i, n := 0, 2+k.R.Intn(4); i < n; i++ {
			d := gg.Describe(gg.GenType(k.R))
			v := valueFor(k, d)
			models = append(models, gg.Model(v, d))
			marshalTo(k, w, v)
		}
		if w.Viol != "" || len(w.Values) != len(models) {
			k.Fail("%d Marshal calls: %d values, %s", len(models), len(w.Values), w.Viol)
		}
		for i := range models {
			if g, wnt := w.Values[i].Render(true), models[i].Render(true); g != wnt {
				k.Fail("value %d: %s", i, diffs(g, wnt))
			}
			k.Hit(models[i].Render(true))
		}
		k.Count("calls", w.Calls)
	})
}

func countFields(v tm.Val) int {
	n := len(v.Fs)
	for _, f := range v.Fs {
		n += countFields(f.V)
	}
	for _, e := range v.L {
		n += countFields(e)
	}
	return n
}

func randomRMon(r *core.Rand, v tm.Val) *mon.RMon {
	m := &mon.RMon{V: v, EmptyStop: r.Bool(), Names: r.Bool()}
	if r.Bool() {
		m.StopID = gg.ID(r)
	}
	return m
}

func c13(c *core.Ctx) {
	c.Cases("unmarshal", c.N(40000, 700000), func(k *core.K) {
		t := typeFor(k)
		d := gg.Describe(t)
		k.Note("type %v", t)
		v := valueFor(k, d)
		m := gg.Model(v, d)
		extra := 0
		if k.R.P(2, 3) {
			m, extra = gg.Inject(k.R, m, d, k.R.Bool())
		}
		r := randomRMon(k.R, m)
		dst := reflect.New(t).Elem()
		if k.R.P(1, 3) {
			dst = freshFor(k, d)
			noMaps(dst)
		}
		err := thrift.Unmarshal(r, dst.Addr().Interface())
		if r.Viol != "" {
			k.Fail("Unmarshal into %v: %s; value %s", t, r.Viol, short(m.Render(false)))
		}
		if err != nil {
			k.Fail("Unmarshal into %v: %v; value %s", t, err, short(m.Render(false)))
		}
		if !r.Done() {
			k.Fail("Unmarshal into %v returned before the value was complete: %s", t, short(m.Render(false)))
		}
		k.Count("calls", r.Calls)
		k.Count("unknown_fields", extra)
		k.Max("nesting", int64(r.MaxSeen))
		if r.Calls > 1 {
			k.Hit(t.String() + m.Render(false))
		}
		k.Sample("%v: %d calls for %s", t, r.Calls, short(m.Render(false)))
	})
	// With a wrong wire type somewhere, the calls made up to the error still
	// obey the protocol.
	c.Cases("mismatch", c.N(20000, 300000), func(k *core.K) {
		t := typeFor(k)
		if k.R.P(1, 2) {
			t = structTypeFor(k)
		}
		d := gg.Describe(t)
		k.Note("type %v", t)
		m := gg.Model(valueFor(k, d), d)
		count := &mismatcher{r: k.R, target: -1}
		count.walk(m, d, nil, true)
		if count.n == 0 {
			return
		}
		x := &mismatcher{r: k.R, target: k.R.Intn(count.n)}
		m = x.walk(m, d, nil, true)
		r := randomRMon(k.R, m)
		err := thrift.Unmarshal(r, reflect.New(t).Interface())
		if r.Viol != "" {
			k.Fail("Unmarshal into %v with %s of type %v arriving as %v: %s", t, x.hit.what, x.hit.want, x.got, r.Viol)
		}
		if err == nil && !r.Done() {
			k.Fail("Unmarshal into %v succeeded before the value was complete", t)
		}
		k.Count("calls", r.Calls)
		k.Hit(t.String() + m.Render(false))
	})
	c.Cases("skip", c.N(20000, 300000), func(k *core.K) {
		t := tm.Types[k.I%len(tm.Types)]
		m := gg.RandVal(k.R, t, 1+k.R.Intn(4))
		r := randomRMon(k.R, m)
		err := thriftwire.Skip(r, thriftwire.Type(t))
		if r.Viol != "" || err != nil || !r.Done() {
			k.Fail("Skip of %s: %s, error %v, complete %v", short(m.Render(false)), r.Viol, err, r.Done())
		}
		k.Count("calls", r.Calls)
		k.Hit("skip" + m.Render(false))
	})
}

func failErr(r *core.Rand) error {
	switch r.Intn(10) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return mon.ErrInjected
	}
	return mon.RandErr(r)
}

func c14(c *core.Ctx) {
	points := func(k *core.K, n int) []int {
		at := cuts(k.R, n, 60, 45)
		for i := range at {
			at[i]++
		}
		return at
	}
	semantic := func(k *core.K, what string, err error) {
		var se *thrift.SemanticError
		if !errors.As(err, &se) {
			k.Fail("%s: not a SemanticError: %T %v", what, err, err)
		}
		if se.Error() == "" || err.Error() == "" {
			k.Fail("%s: empty error text", what)
		}
	}
	c.Cases("marshal", c.N(4000, 60000), func(k *core.K) {
		t := typeFor(k)
		d := gg.Describe(t)
		v := valueFor(k, d)
		k.Note("type %v", t)
		ok := &mon.WMon{}
		marshalTo(k, ok, v)
		for _, at := range points(k, ok.Calls) {
			e := failErr(k.R)
			w := &mon.WMon{FailAt: at, Err: e}
			err := thrift.Marshal(w, arg(k.R, v))
			what := fmt.Sprintf("Marshal of %v, call %d of %d fails with %q", t, at, ok.Calls, e)
			if !w.Failed {
				k.Fail("%s: the call was never made (%d calls)", what, w.Calls)
			}
			if err == nil {
				k.Fail("%s: no error", what)
			}
			if !mon.IsErr(err, e) {
				k.Fail("%s: the error does not match: %v", what, err)
			}
			if w.After > 0 {
				k.Fail("%s: %d more calls were made", what, w.After)
			}
			semantic(k, what, err)
			k.Count("write_faults", 1)
			k.Hit(fmt.Sprint(t, at, ok.Calls, e))
		}
		k.Sample("%v: %d calls, each failing", t, ok.Calls)
	})
	c.Cases("unmarshal", c.N(5000, 80000), func(k *core.K) {
		t := typeFor(k)
		d := gg.Describe(t)
		k.Note("type %v", t)
		m := gg.Model(valueFor(k, d), d)
		unknown := 0
		if k.R.P(1, 3) {
			m, unknown = gg.Inject(k.R, m, d, k.R.Bool())
		}
		ok := &mon.RMon{V: m}
		if err := thrift.Unmarshal(ok, reflect.New(t).Interface()); err != nil {
			k.Fail("Unmarshal into %v: %v", t, err)
		}
		for _, at := range points(k, ok.Calls) {
			e := failErr(k.R)
			r := randomRMon(k.R, m)
			r.FailAt, r.Err, r.Junk = at, e, k.R.Bool()
			err := thrift.Unmarshal(r, reflect.New(t).Interface())
			what := fmt.Sprintf("Unmarshal into %v, call %d of %d fails with %q", t, at, ok.Calls, e)
			if !r.Failed {
				k.Fail("%s: the call was never made", what)
			}
			if err == nil {
				k.Fail("%s: no error; value %s", what, short(m.Render(false)))
			}
			if !mon.IsErr(err, e) {
				k.Fail("%s: the error does not match: %v", what, err)
			}
			if r.After > 0 {
				k.Fail("%s: %d more calls were made", what, r.After)
			}
			if unknown == 0 {
				semantic(k, what, err)
			}
			_ = err.Error()
			k.Count("read_faults", 1)
			k.Hit(fmt.Sprint(t, at, ok.Calls, e))
		}
	})
	// Errors that need no failing call render as well, whatever their types.
	c.Cases("render", c.N(24000, 300000), func(k *core.K) {
		var err error
		var what string
		switch k.I % 4 {
		case 0, 1: // mismatch
			t := typeFor(k)
			d := gg.Describe(t)
			m := gg.Model(valueFor(k, d), d)
			count := &mismatcher{r: k.R, target: -1}
			count.walk(m, d, nil, true)
			if count.n == 0 {
				return
			}
			x := &mismatcher{r: k.R, target: k.R.Intn(count.n)}
			bad := x.walk(m, d, nil, true)
			what = fmt.Sprintf("Unmarshal into %v of %s", t, short(bad.Render(false)))
			err = thrift.Unmarshal(&mon.RMon{V: bad}, reflect.New(t).Interface())
		case 2: // struct types with bad tags, and values of unsupported kinds
			t := core.Pick(k.R, badLeaf...)
			if k.R.Bool() {
				if t = genTagged(k, k.R.Intn(7)); tagBad(t) == "" {
					return
				}
			}
			v := reflect.New(t)
			for k.R.P(1, 3) {
				p := reflect.New(v.Type()).Elem()
				p.Set(v)
				v = p
			}
			what = fmt.Sprintf("%v", v.Type())
			if k.R.Bool() {
				err = thrift.Marshal(&mon.WMon{}, v.Interface())
			} else {
				err = thrift.Unmarshal(&mon.RMon{V: gg.RandVal(k.R, core.Pick(k.R, tm.Types...), 1)}, v.Interface())
			}
		case 3: // a SemanticError of the caller's making
			se := &thrift.SemanticError{ThriftType: thriftwire.Type(k.R.Intn(256))}
			if k.R.P(3, 4) {
				se.GoType = typeFor(k)
				if k.R.P(1, 3) {
					se.GoType = core.Pick(k.R, badLeaf...)
				}
			}
			if k.R.Bool() {
				se.Err = failErr(k.R)
			}
			what = fmt.Sprintf("SemanticError of %v, %v, %v", se.ThriftType, se.GoType, se.Err)
			err = se
		}
		if err == nil {
			k.Fail("%s: no error", what)
		}
		if err.Error() == "" || fmt.Sprintf("%v %+v %s %q", err, err, err, err) == "" {
			k.Fail("%s: empty error text", what)
		}
		semantic(k, what, err)
		for e := err; e != nil; e = errors.Unwrap(e) {
			_ = e.Error()
		}
		k.Count("errors_rendered", 1)
		k.Hit(what)
	})
	c.Cases("skip", c.N(6000, 80000), func(k *core.K) {
		t := tm.Types[k.I%len(tm.Types)]
		m := gg.RandVal(k.R, t, 1+k.R.Intn(4))
		ok := &mon.RMon{V: m}
		if err := thriftwire.Skip(ok, thriftwire.Type(t)); err != nil {
			k.Fail("Skip of %s: %v", short(m.Render(false)), err)
		}
		for _, at := range points(k, ok.Calls) {
			e := failErr(k.R)
			r := randomRMon(k.R, m)
			r.FailAt, r.Err, r.Junk = at, e, k.R.Bool()
			err := thriftwire.Skip(r, thriftwire.Type(t))
			what := fmt.Sprintf("Skip of %s, call %d of %d fails with %q", short(m.Render(false)), at, ok.Calls, e)
			if err == nil || !mon.IsErr(err, e) || r.After > 0 || !r.Failed {
				k.Fail("%s: error %v, %d more calls, fault delivered %v", what, err, r.After, r.Failed)
			}
			k.Count("skip_faults", 1)
			k.Hit(fmt.Sprint(t, at, ok.Calls, e, m.T))
		}
	})
}
