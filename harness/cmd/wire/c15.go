package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// snap is a text of everything reachable from v: pointers, lengths,
// capacities, and what lies between length and capacity.
func snap(v reflect.Value) string {
	var sb strings.Builder
	snapTo(&sb, v, 0)
	return sb.String()
}

func snapTo(sb *strings.Builder, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		fmt.Fprintf(sb, "*%x", v.Pointer())
		if !v.IsNil() {
			snapTo(sb, v.Elem(), depth+1)
		}
	case reflect.Slice:
		fmt.Fprintf(sb, "[%x %d %d:", v.Pointer(), v.Len(), v.Cap())
		full := v
		if !v.IsNil() {
			full = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			snapTo(sb, full.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Map:
		fmt.Fprintf(sb, "m%x(", v.Pointer())
		var es []string
		for it := v.MapRange(); it.Next(); {
			es = append(es, snap(it.Key())+"="+snap(it.Value()))
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, ","))
		sb.WriteByte(')')
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			snapTo(sb, v.Field(i), depth+1)
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			snapTo(sb, v.Index(i), depth+1)
			sb.WriteByte('.')
		}
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", v.Float())
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprintf(sb, "%x", v.Pointer())
	default:
		if v.CanInt() {
			fmt.Fprintf(sb, "%d", v.Int())
		} else if v.CanUint() {
			fmt.Fprintf(sb, "%d", v.Uint())
		}
	}
}

var snapOpts = gg.Opts{Depth: 4, Size: 60, BigBytes: 5000}

func c15(c *core.Ctx) {
	c.Cases("input", c.N(16000, 300000), func(k *core.K) {
		t := typeFor(k)
		d := gg.Describe(t)
		k.Note("type %v", t)
		v := gg.GenValue(k.R, d, snapOpts)
		before := snap(v)
		if strings.Contains(before, "NaN=") {
			return // a map key NaN has no stable order in the snapshot
		}
		for _, p := range mon.Two {
			w := p.P.NewWriter(io.Discard)
			marshalTo(k, w, v)
			w.Flush()
			if after := snap(v); after != before {
				k.Fail("%s: Marshal of %v changed its input: %s", p.Name, t, diffs(after, before))
			}
			k.Count("marshals", 1)
		}
		// ... not even for a moment, as another goroutine may be reading it
		calls := 0
		every := 1 + len(before)/400
		w := &mon.WMon{}
		w.OnCall = func() {
			calls++
			if calls%every == 0 {
				if s := snap(v); s != before {
					k.Fail("Marshal of %v changed its input at call %d: %s", t, calls, diffs(s, before))
				}
				k.Count("snapshots", 1)
			}
		}
		if k.R.Bool() {
			w.FailAt, w.Err = 1+k.R.Intn(20), mon.ErrInjected // an aborted Marshal does not either
		}
		thrift.Marshal(w, arg(k.R, v))
		w.OnCall = nil
		if s := snap(v); s != before {
			k.Fail("Marshal of %v changed its input: %s", t, diffs(s, before))
		}
		k.Hit(t.String() + before)
		k.Sample("%v: %d snapshots", t, calls/every)
	})

	c.Cases("independent", c.N(14000, 250000), func(k *core.K) {
		p := mon.Two[k.I%2]
		da := gg.Describe(typeFor(k))
		db := da
		if k.R.Bool() {
			db = gg.Describe(gg.GenType(k.R))
		}
		k.Note("types %v and %v", da.T, db.T)
		va := gg.GenValue(k.R, da, snapOpts)
		vb := gg.GenValue(k.R, db, snapOpts)
		wantA, wantB := gg.Canon(va, da), gg.Canon(vb, db)
		ma := gg.Model(va, da)
		if k.R.P(1, 3) {
			ma, _ = gg.Inject(k.R, ma, da, true)
		}
		in := encRef(k.R, p, nil, ma)
		fill := tm.Val{T: tm.String, S: bytes.Repeat([]byte{0xa5}, 100+k.R.Intn(9000))}
		in = p.Enc(in, fill)
		in = encRef(k.R, p, in, gg.Model(vb, db))
		var src io.Reader = bytes.NewReader(in)
		var own *bufio.Reader
		if k.R.Bool() {
			own = bufio.NewReaderSize(src, 4096+k.R.Intn(8000))
			src = own
		}
		r := p.P.NewReader(src)
		pa, pb := reflect.New(da.T), reflect.New(db.T)
		must := func(err error) {
			if err != nil {
				k.Fail("%s: decoding: %v", p.Name, err)
			}
		}
		checkA := func(when string) {
			if g := gg.Canon(pa.Elem(), da); g != wantA {
				k.Fail("%s: the %v decoded first changed %s: %s", p.Name, da.T, when, diffs(g, wantA))
			}
		}
		must(thrift.Unmarshal(r, pa.Interface()))
		checkA("or is wrong")
		if k.R.Bool() {
			must(thriftwire.Skip(r, thriftwire.String))
		} else {
			_, err := r.ReadBytes(nil)
			must(err)
		}
		checkA("when the reader moved on")
		must(thrift.Unmarshal(r, pb.Interface()))
		checkA("when another value was decoded")
		rs := append(mon.Regions(pa.Elem(), 0), mon.Regions(pb.Elem(), 1)...)
		rs = append(rs, mon.BytesRegion(in, "the input", 2))
		if own != nil {
			own.Reset(bytes.NewReader(in))
			if b, err := own.Peek(1); err == nil {
				rs = append(rs, mon.BytesRegion(b[:1:1], "the reader's buffer", 2))
				if b, _ := own.Peek(own.Buffered()); len(b) > 0 {
					rs = append(rs[:len(rs)-1], mon.BytesRegion(b, "the reader's buffer", 2))
				}
			}
		}
		n := len(rs)
		if a, b, bad := mon.Overlap(rs); bad {
			k.Fail("%s: %v and %v: memory shared between %s and %s (owners %d, %d)", p.Name, da.T, db.T, a.What, b.What, a.Owner, b.Owner)
		}
		for i := range in {
			in[i] = 0x5a
		}
		r.Reset(bytes.NewReader(in))
		r.ReadBytes(nil)
		checkA("when the input was overwritten")
		// writing over one leaves the other alone
		scribble(pa.Elem())
		if g := gg.Canon(pb.Elem(), db); g != wantB {
			k.Fail("%s: writing to the %v decoded first changed the %v decoded second: %s", p.Name, da.T, db.T, diffs(g, wantB))
		}
		k.Count("regions", n)
		k.Count("pairs", 1)
		k.Hit(p.Name + wantA + wantB)
		k.Sample("%v then %v: %d memory regions", da.T, db.T, n)
	})

	// The reader's own methods give independent data.
	c.Cases("reader", c.N(8000, 100000), func(k *core.K) {
		p := mon.Two[k.I%2]
		n := 2 + k.R.Intn(5)
		var in []byte
		var want []string
		for i := 0; i < n; i++ {
			s := gg.Str(k.R, gg.Len(k.R, 9000))
			want = append(want, string(s))
			in = p.Enc(in, tm.Val{T: tm.String, S: s})
		}
		sig := strings.Join(want, "|")
		r := p.P.NewReader(bytes.NewReader(in))
		strs := make([]string, n)
		bufs := make([][]byte, n)
		check := func(when string) {
			for i := range strs {
				if bufs[i] != nil && string(bufs[i]) != want[i] || bufs[i] == nil && strs[i] != "" && strs[i] != want[i] {
					k.Fail("%s: string %d changed %s", p.Name, i, when)
				}
			}
		}
		for i := 0; i < n; i++ {
			if k.R.Bool() {
				s, err := r.ReadString()
				if err != nil {
					k.Fail("ReadString: %v", err)
				}
				strs[i] = s
			} else {
				var dst []byte
				if k.R.Bool() {
					dst = make([]byte, 0, k.R.Intn(100))
				}
				b, err := r.ReadBytes(dst)
				if err != nil {
					k.Fail("ReadBytes: %v", err)
				}
				bufs[i] = b
			}
			check(fmt.Sprintf("when string %d was read", i))
		}
		for i := range in {
			in[i] = 0xee
		}
		check("when the input was overwritten")
		for i := range bufs {
			if len(bufs[i]) == 0 {
				continue
			}
			n := len(bufs[i])
			bufs[i] = bufs[i][:cap(bufs[i])]
			for j := range bufs[i] {
				bufs[i][j] = 0x11
			}
			bufs[i] = append(bufs[i], "tail"...)[:n]
			want[i] = string(bytes.Repeat([]byte{0x11}, n))
			check(fmt.Sprintf("when %d was written to", i))
		}
		k.Count("strings", n)
		k.Hit(p.Name + sig)
	})

	// Lists and sets replace what the destination had.
	c.Cases("stale", c.N(16000, 300000), func(k *core.K) {
		d := gg.Describe(typeFor(k))
		if k.R.P(2, 3) {
			e := gg.GenType(k.R)
			d = gg.Describe(reflect.SliceOf(e))
			if k.R.Bool() {
				d = gg.Describe(reflect.StructOf([]reflect.StructField{{Name: "L", Type: reflect.SliceOf(e), Tag: `thrift:"1,required"`}, {Name: "P", Type: reflect.PointerTo(reflect.SliceOf(e)), Tag: `thrift:"2,required"`}}))
			}
		}
		k.Note("type %v", d.T)
		v := gg.GenValue(k.R, d, snapOpts)
		want := gg.Canon(v, d)
		for _, p := range mon.Two {
			dst := gg.GenValue(k.R, d, snapOpts)
			stale(k.R, dst, d, false)
			// what is outside lists is absent or replaced (see C05); start from
			// a destination whose other parts are zero
			old := gg.Canon(dst, d)
			r := p.P.NewReader(bytes.NewReader(append(encRef(k.R, p, nil, gg.Model(v, d)), sentinel[:]...)))
			if err := thrift.Unmarshal(r, dst.Addr().Interface()); err != nil {
				k.Fail("%s: Unmarshal into a %v with old contents: %v", p.Name, d.T, err)
			}
			if g := gg.Canon(dst, d); g != want {
				k.Fail("%s: old contents of a %v shine through: %s; old %s", p.Name, d.T, diffs(g, want), short(old))
			}
			expectEnd(k, p.Name, r)
			k.Count("decodes", 1)
			k.Hit(p.Name + want + old)
		}
	})
}

// stale keeps only what lists and sets hold (those are replaced by decoding),
// and shortens slices so that old elements hide behind their length.
func stale(r *core.Rand, v reflect.Value, d *gg.Desc, inList bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			stale(r, v.Elem(), d.Elem, inList)
			if !inList {
				return
			}
		}
	case reflect.Slice:
		if d.W == tm.String {
			if !inList && !d.Ptr {
				return // always replaced when carried, but may be absent
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			stale(r, v.Index(i), d.Elem, true)
		}
		if r.Bool() {
			v.SetLen(r.Intn(v.Len() + 1))
		}
	case reflect.Map:
		if !inList {
			v.SetZero()
		}
	case reflect.Struct:
		for i := range d.Fields {
			f := &d.Fields[i]
			if !inList && !f.Required {
				v.Field(f.Index).SetZero()
				continue
			}
			stale(r, v.Field(f.Index), f.D, inList)
		}
	}
}

// scribble overwrites everything mutable that is reachable from v.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for it := v.MapRange(); it.Next(); {
			scribble(it.Key())
			scribble(it.Value())
		}
		v.Clear()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len() && v.CanSet(); i++ {
			scribble(v.Index(i))
		}
	default:
		if !v.CanSet() {
			return
		}
		switch {
		case v.CanInt():
			v.SetInt(^v.Int())
		case v.CanUint():
			v.SetUint(^v.Uint())
		case v.CanFloat():
			v.SetFloat(v.Float() + 1)
		case v.Kind() == reflect.Bool:
			v.SetBool(!v.Bool())
		case v.Kind() == reflect.String:
			v.SetString(v.String() + "scribbled")
		}
	}
}
