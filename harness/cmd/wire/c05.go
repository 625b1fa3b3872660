package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

func structTypeFor(k *core.K) reflect.Type {
	if k.R.P(1, 3) {
		for {
			t := gg.Registry[k.R.Intn(len(gg.Registry))]
			if t.Kind() == reflect.Struct {
				return t
			}
		}
	}
	return gg.GenStructType(k.R)
}

func c05(c *core.Ctx) {
	// Unknown fields anywhere and any order do not change the result.
	c.Cases("unknown", c.N(16000, 300000), func(k *core.K) {
		t := typeFor(k)
		if k.R.P(2, 3) {
			t = structTypeFor(k)
		}
		d := gg.Describe(t)
		k.Note("type %v", t)
		v := valueFor(k, d)
		want := gg.Canon(v, d)
		m, extra := gg.Inject(k.R, gg.Model(v, d), d, k.R.P(3, 4))
		for _, p := range mon.Two {
			in := append(encRef(k.R, p, nil, m), sentinel[:]...)
			r := p.P.NewReader(bytes.NewReader(in))
			got := reflect.New(t)
			if err := thrift.Unmarshal(r, got.Interface()); err != nil {
				k.Fail("%s: Unmarshal with %d unknown fields into %v: %v; message %s", p.Name, extra, t, err, short(m.Render(false)))
			}
			if g := gg.Canon(got.Elem(), d); g != want {
				k.Fail("%s: %d unknown fields changed the value of %v: %s; message %s", p.Name, extra, t, diffs(g, want), short(m.Render(false)))
			}
			expectEnd(k, p.Name, r)
			k.Count("decodes", 1)
		}
		k.Count("unknown_fields", extra)
		if extra > 0 {
			k.Hit(m.Render(false))
		}
		k.Sample("%v with %d unknown fields: %s", t, extra, short(m.Render(false)))
	})

	// Absent fields keep what the destination had, at every level of nested
	// structs.
	c.Cases("absent", c.N(10000, 200000), func(k *core.K) {
		t := structTypeFor(k)
		d := gg.Describe(t)
		k.Note("type %v", t)
		v := valueFor(k, d)
		m := gg.Model(v, d)
		m = dropFields(k.R, m, d)
		m, _ = gg.Inject(k.R, m, d, k.R.Bool())
		for _, p := range mon.Two {
			dst := freshFor(k, d)
			noMaps(dst)
			before := clone(dst)
			in := append(encRef(k.R, p, nil, m), sentinel[:]...)
			r := p.P.NewReader(bytes.NewReader(in))
			if err := thrift.Unmarshal(r, dst.Addr().Interface()); err != nil {
				k.Fail("%s: Unmarshal into %v: %v", p.Name, t, err)
			}
			expectEnd(k, p.Name, r)
			want := clone(before)
			apply(want, d, m)
			if g, w := gg.Canon(dst, d), gg.Canon(want, d); g != w {
				k.Fail("%s: Unmarshal of %s into a %v that holds %s: %s", p.Name, short(m.Render(false)), t, short(gg.Canon(before, d)), diffs(g, w))
			}
			k.Count("decodes", 1)
			k.Hit(m.Render(false) + gg.Canon(before, d))
		}
	})

	// Skip of every type.
	c.Cases("skip", c.N(24000, 400000), func(k *core.K) {
		t := tm.Types[k.I%len(tm.Types)]
		v := gg.RandVal(k.R, t, 1+k.R.Intn(4))
		for _, p := range mon.Two {
			in := append(encRef(k.R, p, nil, v), sentinel[:]...)
			r := p.P.NewReader(bytes.NewReader(in))
			if err := thriftwire.Skip(r, thriftwire.Type(t)); err != nil {
				k.Fail("%s: Skip of %s: %v", p.Name, short(v.Render(false)), err)
			}
			expectEnd(k, fmt.Sprintf("%s: Skip of %s", p.Name, short(v.Render(false))), r)
			k.Count("skips", 1)
			k.Count("bytes", len(in))
		}
		k.Hit("skip" + v.Render(false))
	})

	// Deep and wide values.
	c.Cases("skip-limit", c.N(24, 200), func(k *core.K) {
		n := maxLevels - core.Pick(k.R, 0, 0, 0, 1, 2, k.R.Intn(9000))
		_, v := chain(k.R, n, k.I%7)
		if k.R.P(1, 3) { // as wide as deep
			e := tm.Val{T: tm.Map, K: tm.I16, E: tm.List}
			for i := 0; i < 2*maxLevels; i++ {
				e.L = append(e.L, tm.IntV(tm.I16, int64(i)), tm.Val{T: tm.List, E: tm.Struct, L: []tm.Val{{T: tm.Struct}}})
			}
			_, v = chain(k.R, n-2, k.I%7)
			v = tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 3, V: v}, {ID: 1, V: e}}}
			if n < 5 {
				return
			}
		}
		for _, p := range mon.Two {
			in := append(encRef(k.R, p, nil, v), sentinel[:]...)
			r := p.P.NewReader(bytes.NewReader(in))
			if err := thriftwire.Skip(r, thriftwire.Type(v.T)); err != nil {
				k.Fail("%s: Skip of %d levels: %v", p.Name, n, err)
			}
			expectEnd(k, fmt.Sprintf("%s: Skip of %d levels", p.Name, n), r)
			// As an unknown field, and behind it a known one.
			m := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 9, V: v}, {ID: 1, V: tm.StringV("x")}}}
			r = p.P.NewReader(bytes.NewReader(append(encRef(k.R, p, nil, m), sentinel[:]...)))
			var x gg.Node
			if err := thrift.Unmarshal(r, &x); err != nil || x.V != "x" || x.Next != nil {
				k.Fail("%s: Unmarshal over an unknown field of %d levels: %.100q, %v", p.Name, n, x.V, err)
			}
			expectEnd(k, fmt.Sprintf("%s: Unmarshal over %d levels", p.Name, n), r)
			k.Count("skips", 1)
			k.Count("bytes", len(in))
		}
		k.Max("levels", int64(n))
		k.Hit(string(mon.Binary.Enc(nil, v)))
	})

	// What is nested too deeply is refused, or skipped as a whole.
	c.Cases("skip-over", c.N(24, 200), func(k *core.K) {
		n := maxLevels + core.Pick(k.R, 1, 1, 2, 3, 1+k.R.Intn(3000))
		_, v := chain(k.R, n, k.I%7)
		for _, p := range mon.Two {
			in := append(encRef(k.R, p, nil, v), sentinel[:]...)
			r := p.P.NewReader(bytes.NewReader(in))
			err := thriftwire.Skip(r, thriftwire.Type(v.T))
			if err == nil {
				expectEnd(k, fmt.Sprintf("%s: Skip of %d levels", p.Name, n), r)
			}
			m := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 9, V: v}, {ID: 1, V: tm.StringV("x")}}}
			r = p.P.NewReader(bytes.NewReader(append(encRef(k.R, p, nil, m), sentinel[:]...)))
			var x gg.Node
			err = thrift.Unmarshal(r, &x)
			if err == nil {
				if x.V != "x" || x.Next != nil {
					k.Fail("%s: Unmarshal over an unknown field of %d levels: %.100q", p.Name, n, x.V)
				}
				expectEnd(k, fmt.Sprintf("%s: Unmarshal over %d levels", p.Name, n), r)
			}
			k.Count("too_deep", 1)
		}
		k.Hit(fmt.Sprint("over", n, k.I))
	})

	// A walk that skips some values and reads the others.
	c.Cases("mixed", c.N(10000, 200000), func(k *core.K) {
		v := gg.RandVal(k.R, tm.Struct, 4)
		for _, p := range mon.Two {
			in := append(encRef(k.R, p, nil, v), sentinel[:]...)
			r := p.P.NewReader(bytes.NewReader(in))
			if err := walk(k, r, v); err != nil {
				k.Fail("%s: %v in %s", p.Name, err, short(v.Render(false)))
			}
			expectEnd(k, p.Name, r)
		}
		k.Hit("mixed" + v.Render(false))
	})
}

// walk reads v, skipping random parts, and compares the parts it reads.
func walk(k *core.K, r thriftwire.Reader, v tm.Val) error {
	if k.R.P(1, 3) {
		k.Count("skips", 1)
		return thriftwire.Skip(r, thriftwire.Type(v.T))
	}
	switch v.T {
	case tm.Struct:
		if _, err := r.ReadStructBegin(); err != nil {
			return err
		}
		for _, f := range v.Fs {
			h, err := r.ReadFieldBegin()
			if err != nil {
				return err
			}
			if h.ID != f.ID || tm.Type(h.Type) != f.V.T {
				return fmt.Errorf("field header %v %d, want %v %d", h.Type, h.ID, f.V.T, f.ID)
			}
			if err := walk(k, r, f.V); err != nil {
				return err
			}
			if err := r.ReadFieldEnd(); err != nil {
				return err
			}
		}
		h, err := r.ReadFieldBegin()
		if err != nil || h.Type != thriftwire.Stop {
			return fmt.Errorf("stop field: %v %v", h, err)
		}
		return r.ReadStructEnd()
	case tm.List:
		h, err := r.ReadListBegin()
		if err != nil || h.Size != len(v.L) {
			return fmt.Errorf("list header %v %v", h, err)
		}
		for _, e := range v.L {
			if err := walk(k, r, e); err != nil {
				return err
			}
		}
		return r.ReadListEnd()
	case tm.Set:
		h, err := r.ReadSetBegin()
		if err != nil || h.Size != len(v.L) {
			return fmt.Errorf("set header %v %v", h, err)
		}
		for _, e := range v.L {
			if err := walk(k, r, e); err != nil {
				return err
			}
		}
		return r.ReadSetEnd()
	case tm.Map:
		h, err := r.ReadMapBegin()
		if err != nil || 2*h.Size != len(v.L) {
			return fmt.Errorf("map header %v %v", h, err)
		}
		for _, e := range v.L {
			if err := walk(k, r, e); err != nil {
				return err
			}
		}
		return r.ReadMapEnd()
	}
	got, err := mon.ReadVal(r, v.T, k.R)
	if err != nil {
		return err
	}
	if got.Render(false) != v.Render(false) {
		return fmt.Errorf("read %s, want %s", short(got.Render(false)), short(v.Render(false)))
	}
	return nil
}

// dropFields removes random fields of structs that are reached through struct
// fields only.
func dropFields(r *core.Rand, m tm.Val, d *gg.Desc) tm.Val {
	d = d.Base()
	if m.T != tm.Struct {
		return m
	}
	var fs []tm.Field
	for _, f := range m.Fs {
		if r.P(1, 3) {
			continue
		}
		f.V = dropFields(r, f.V, d.FieldByID(f.ID).D)
		fs = append(fs, f)
	}
	m.Fs = fs
	return m
}

// noMaps sets every map inside v to nil (merging into maps is left open by the
// property).
func noMaps(v reflect.Value) {
	switch v.Kind() {
	case reflect.Map:
		if v.CanSet() {
			v.SetZero()
		}
	case reflect.Pointer:
		if !v.IsNil() {
			noMaps(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				noMaps(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			noMaps(v.Index(i))
		}
	}
}

// clone makes a deep copy.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	copyInto(out, v)
	return out
}

func copyInto(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			copyInto(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Cap()))
			for i := 0; i < src.Len(); i++ {
				copyInto(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Map:
		if !src.IsNil() {
			dst.Set(reflect.MakeMap(src.Type()))
			for it := src.MapRange(); it.Next(); {
				dst.SetMapIndex(clone(it.Key()), clone(it.Value()))
			}
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if src.Type().Field(i).IsExported() {
				copyInto(dst.Field(i), src.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}

// apply stores m into dst the way the property says: carried fields are
// replaced, structs are merged field by field, the rest stays.
func apply(dst reflect.Value, d *gg.Desc, m tm.Val) {
	if d.Ptr {
		if dst.IsNil() {
			dst.Set(reflect.New(d.Elem.T))
		}
		apply(dst.Elem(), d.Elem, m)
		return
	}
	switch dst.Kind() {
	case reflect.Bool:
		dst.SetBool(m.I != 0)
	case reflect.Int8:
		dst.SetInt(int64(int8(m.I)))
	case reflect.Int16, reflect.Int32, reflect.Int64:
		dst.SetInt(m.I)
	case reflect.Uint8:
		dst.SetUint(uint64(uint8(m.I)))
	case reflect.Uint16:
		dst.SetUint(uint64(uint16(m.I)))
	case reflect.Uint32:
		dst.SetUint(uint64(uint32(m.I)))
	case reflect.Uint64:
		dst.SetUint(uint64(m.I))
	case reflect.Float32, reflect.Float64:
		dst.SetFloat(floatOf(m))
	case reflect.String:
		dst.SetString(string(m.S))
	case reflect.Array:
		reflect.Copy(dst, reflect.ValueOf(m.U[:]))
	case reflect.Slice:
		if d.W == tm.String {
			dst.SetBytes(append([]byte{}, m.S...))
			return
		}
		s := reflect.MakeSlice(d.T, len(m.L), len(m.L))
		for i, e := range m.L {
			apply(s.Index(i), d.Elem, e)
		}
		dst.Set(s)
	case reflect.Map:
		mm := reflect.MakeMap(d.T)
		for i := 0; i < len(m.L); i += 2 {
			kv := reflect.New(d.Key.T).Elem()
			apply(kv, d.Key, m.L[i])
			ev := reflect.New(d.Elem.T).Elem()
			apply(ev, d.Elem, m.L[i+1])
			mm.SetMapIndex(kv, ev)
		}
		dst.Set(mm)
	case reflect.Struct:
		for _, f := range m.Fs {
			if fd := d.FieldByID(f.ID); fd != nil {
				apply(dst.Field(fd.Index), fd.D, f.V)
			}
		}
	}
}
