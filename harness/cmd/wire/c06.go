package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// slot is one place of a model where a wire type can be wrong.
type slot struct {
	path   []int // field indexes, while only structs are passed
	direct bool  // reached through struct fields only
	what   string
	want   tm.Type
	fd     *gg.FieldDesc
}

// mismatch rewrites the target-th slot with a value of another wire type.
type mismatcher struct {
	r      *core.Rand
	n      int // slots seen
	target int // -1: only count
	hit    *slot
	got    tm.Type
}

func (x *mismatcher) other(t tm.Type) tm.Type {
	for {
		u := tm.Types[x.r.Intn(len(tm.Types))]
		if u != t {
			return u
		}
	}
}

func (x *mismatcher) at(s slot) bool {
	x.n++
	if x.n-1 == x.target {
		x.hit = &s
		x.got = x.other(s.want)
		return true
	}
	return false
}

func (x *mismatcher) walk(m tm.Val, d *gg.Desc, path []int, direct bool) tm.Val {
	d = d.Base()
	switch m.T {
	case tm.Struct:
		fs := make([]tm.Field, len(m.Fs))
		for i, f := range m.Fs {
			fd := d.FieldByID(f.ID)
			p := append(append([]int{}, path...), fd.Index)
			if x.at(slot{p, direct, fmt.Sprintf("field %d", f.ID), f.V.T, fd}) {
				f.V = gg.RandVal(x.r, x.got, 2)
			} else {
				f.V = x.walk(f.V, fd.D, p, direct)
			}
			fs[i] = f
		}
		m.Fs = fs
	case tm.List, tm.Set:
		if len(m.L) == 0 {
			break
		}
		l := make([]tm.Val, len(m.L))
		if x.at(slot{what: "element", want: m.E}) {
			m.E = x.got
			for i := range l {
				l[i] = gg.RandVal(x.r, x.got, 1)
			}
		} else {
			for i, e := range m.L {
				l[i] = x.walk(e, d.Elem, nil, false)
			}
		}
		m.L = l
	case tm.Map:
		if len(m.L) == 0 {
			break
		}
		l := append([]tm.Val{}, m.L...)
		k := x.at(slot{what: "key", want: m.K})
		if k {
			m.K = x.got
		}
		v := !k && x.at(slot{what: "value", want: m.E})
		if v {
			m.E = x.got
		}
		for i, e := range l {
			switch {
			case i%2 == 0 && k, i%2 == 1 && v:
				l[i] = gg.RandVal(x.r, x.got, 1)
			case i%2 == 0:
				l[i] = x.walk(e, d.Key, nil, false)
			default:
				l[i] = x.walk(e, d.Elem, nil, false)
			}
		}
		m.L = l
	}
	return m
}

// fieldAt follows field indexes through structs and pointers.
func fieldAt(v reflect.Value, path []int) (reflect.Value, bool) {
	for _, i := range path {
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

func c06(c *core.Ctx) {
	c.Cases("mismatch", c.N(24000, 400000), func(k *core.K) {
		t := typeFor(k)
		if k.R.P(2, 3) {
			t = structTypeFor(k)
		}
		d := gg.Describe(t)
		k.Note("type %v", t)
		m := gg.Model(valueFor(k, d), d)
		count := &mismatcher{r: k.R, target: -1}
		count.walk(m, d, nil, true)
		if count.n == 0 {
			return
		}
		x := &mismatcher{r: k.R, target: k.R.Intn(count.n)}
		bad := x.walk(m, d, nil, true)
		if k.R.Bool() {
			bad = injectPrefix(k.R, bad, d)
		}
		k.Note("message %s", bad.Render(false))
		for _, p := range mon.Two {
			dst := reflect.New(t).Elem()
			if k.R.Bool() {
				dst = freshFor(k, d)
				noMaps(dst)
			}
			var before string
			var bf reflect.Value
			if x.hit.direct && x.hit.fd != nil {
				if f, ok := fieldAt(dst, x.hit.path); ok {
					bf = clone(f)
					before = gg.Canon(bf, x.hit.fd.D)
				} else {
					before = gg.Canon(reflect.Zero(x.hit.fd.D.T), x.hit.fd.D)
				}
			}
			r := p.P.NewReader(bytes.NewReader(encRef(k.R, p, nil, bad)))
			err := thrift.Unmarshal(r, dst.Addr().Interface())
			if err == nil {
				k.Fail("%s: %v: %s of type %v arrived as %v: no error", p.Name, t, x.hit.what, x.hit.want, x.got)
			}
			var se *thrift.SemanticError
			if !errors.As(err, &se) {
				k.Fail("%s: %v: %s of type %v arrived as %v: not a SemanticError: %T %v", p.Name, t, x.hit.what, x.hit.want, x.got, err, err)
			}
			if tm.Type(se.ThriftType) != x.got {
				k.Fail("%s: %v: %s of type %v arrived as %v: the error names %v: %v", p.Name, t, x.hit.what, x.hit.want, x.got, se.ThriftType, err)
			}
			if err.Error() == "" || se.Error() == "" {
				k.Fail("empty error text")
			}
			if x.hit.direct && x.hit.fd != nil {
				f, ok := fieldAt(dst, x.hit.path)
				if !ok {
					k.Fail("%s: %v: path to the field vanished", p.Name, t)
				}
				if after := gg.Canon(f, x.hit.fd.D); after != before {
					k.Fail("%s: %v: %s of type %v arrived as %v and something was stored: %s", p.Name, t, x.hit.what, x.hit.want, x.got, diffs(after, before))
				}
				k.Count("untouched_checks", 1)
			}
			k.Count("mismatches_reported", 1)
		}
		k.Hit(fmt.Sprint(t, x.hit.what, x.hit.want, x.got, x.target))
		k.Sample("%v: %s %v arrives as %v", t, x.hit.what, x.hit.want, x.got)
	})

	for _, p := range mon.Two {
		p := p
		bad := badValues(p.Name)
		c.Cases("malformed-"+p.Name, len(bad), func(k *core.K) { malformed(k, p, bad[k.I]) })
	}
}

// injectPrefix adds unknown fields at the top level only.
func injectPrefix(r *core.Rand, m tm.Val, d *gg.Desc) tm.Val {
	if m.T != tm.Struct {
		return m
	}
	d = d.Base()
	var fs []tm.Field
	for _, f := range m.Fs {
		if id := gg.ID(r); d.FieldByID(id) == nil {
			fs = append(fs, tm.Field{ID: id, V: gg.RandVal(r, gg.RandType(r, 2), 2)})
		}
		fs = append(fs, f)
	}
	m.Fs = fs
	return m
}

// badValue is the encoding of a malformed value of type t.
type badValue struct {
	what string
	t    tm.Type
	b    []byte
}

func badValues(proto string) []badValue {
	var out []badValue
	pad := make([]byte, 64)
	add := func(t tm.Type, b []byte, format string, args ...any) {
		out = append(out, badValue{fmt.Sprintf(format, args...), t, append(append([]byte{}, b...), pad...)})
	}
	valid := map[int]bool{}
	for _, t := range tm.Types {
		valid[int(t)] = true
	}
	if proto == "binary" {
		for c := 1; c < 256; c++ {
			if valid[c] {
				continue
			}
			add(tm.Struct, []byte{byte(c), 0, 1}, "field of type code %d", c)
			add(tm.Struct, []byte{2, 0, 9, 1, byte(c), 0x7f, 1}, "second field of type code %d", c)
		}
		for c := 0; c < 256; c++ {
			if valid[c] {
				continue
			}
			for _, n := range []byte{1, 2, 16} {
				add(tm.List, []byte{byte(c), 0, 0, 0, n}, "list of %d of type code %d", n, c)
				add(tm.Set, []byte{byte(c), 0, 0, 0, n}, "set of %d of type code %d", n, c)
				add(tm.Map, []byte{byte(c), 8, 0, 0, 0, n}, "map of %d with key type code %d", n, c)
				add(tm.Map, []byte{8, byte(c), 0, 0, 0, n}, "map of %d with value type code %d", n, c)
				add(tm.Map, []byte{byte(c), byte(c), 0, 0, 0, n}, "map of %d with type codes %d", n, c)
			}
		}
		for _, n := range []uint32{0xffffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffff00, 0xc0000000} {
			be := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
			for _, e := range []byte{2, 3, 8, 11, 12, 15, 16} {
				add(tm.List, append([]byte{e}, be...), "list of size %d", int32(n))
				add(tm.Set, append([]byte{e}, be...), "set of size %d", int32(n))
				add(tm.Map, append([]byte{11, e}, be...), "map of size %d", int32(n))
				add(tm.Map, append([]byte{e, 2}, be...), "map of size %d", int32(n))
			}
			add(tm.String, be, "string of length %d", int32(n))
		}
		return out
	}
	var long [][]byte // varints of more than 64 bits
	for _, last := range []byte{0x02, 0x03, 0x7f} {
		long = append(long, append(bytes.Repeat([]byte{0xff}, 9), last), append(bytes.Repeat([]byte{0x80}, 9), last))
	}
	for _, n := range []int{10, 11, 15, 20} {
		for _, last := range []byte{0x00, 0x01} {
			long = append(long, append(bytes.Repeat([]byte{0x80}, n), last), append(bytes.Repeat([]byte{0xff}, n), last))
		}
	}
	for _, c := range []byte{14, 15} {
		add(tm.Struct, []byte{0x10 | c}, "short field of type code %d", c)
		add(tm.Struct, []byte{c, 2}, "long field of type code %d", c)
		add(tm.Struct, []byte{0x11, 0xf0 | c}, "second field of type code %d", c)
	}
	for _, c := range []byte{0, 14, 15} {
		for n := byte(1); n < 15; n++ {
			add(tm.List, []byte{n<<4 | c}, "list of %d of type code %d", n, c)
			add(tm.Set, []byte{n<<4 | c}, "set of %d of type code %d", n, c)
		}
		for _, n := range []byte{1, 15, 127} {
			add(tm.List, []byte{0xf0 | c, n}, "long list of %d of type code %d", n, c)
			add(tm.Set, []byte{0xf0 | c, n}, "long set of %d of type code %d", n, c)
			for o := byte(0); o < 16; o++ {
				add(tm.Map, []byte{n, c<<4 | o}, "map of %d with key type code %d", n, c)
				add(tm.Map, []byte{n, o<<4 | c}, "map of %d with value type code %d", n, c)
			}
		}
	}
	for _, v := range long {
		for _, t := range []tm.Type{tm.I16, tm.I32, tm.I64, tm.String} {
			add(t, v, "%v varint %x", t, v)
		}
		for _, e := range []byte{1, 2, 3, 5, 8, 12} {
			add(tm.List, append([]byte{0xf0 | e}, v...), "list size varint %x", v)
			add(tm.Set, append([]byte{0xf0 | e}, v...), "set size varint %x", v)
			add(tm.Map, append(append([]byte{}, v...), 0x80|e), "map size varint %x", v)
		}
		add(tm.Struct, append([]byte{0x05}, v...), "field id varint %x", v)
		add(tm.Struct, append([]byte{0x01}, v...), "bool field id varint %x", v)
	}
	// sizes above any int: "negative" when converted
	for _, v := range [][]byte{{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}} {
		for _, e := range []byte{1, 2, 3, 5, 8, 12} {
			add(tm.List, append([]byte{0xf0 | e}, v...), "list of negative size %x", v)
			add(tm.Set, append([]byte{0xf0 | e}, v...), "set of negative size %x", v)
			add(tm.Map, append(append([]byte{}, v...), 0x80|e), "map of negative size %x", v)
		}
		add(tm.String, v, "string of negative length %x", v)
	}
	return out
}

var goTypes = map[tm.Type][]any{
	tm.I16:    {new(int16), new(uint16), new(*int16)},
	tm.I32:    {new(int32), new(uint32), new(**int32)},
	tm.I64:    {new(int64), new(uint64)},
	tm.String: {new(string), new([]byte), new(*string), new(gg.StrT), new(gg.BinT)},
	tm.Struct: {new(gg.Empty), new(gg.Inner), new(gg.Scalars), new(gg.Pointers), new(gg.Bools), new(gg.Containers), new(gg.Wide), new(*gg.Tree), new(gg.Ids), new(gg.PointersReq)},
	tm.List:   {new([]int32), new([]bool), new([]gg.Inner), new([][]byte), new([]gg.Empty), new([]int8), new([][16]byte), new([]string), new([][]int32), new(thrift.List[float64]), new([]map[string]bool), new(gg.Forest)},
	tm.Set:    {new(thrift.Set[int32]), new(thrift.Set[bool]), new(thrift.Set[gg.Inner]), new(thrift.Set[string]), new(thrift.Set[byte]), new(thrift.Set[gg.Empty])},
	tm.Map:    {new(map[string]int32), new(map[bool]bool), new(map[int32]gg.Inner), new(map[int32]int32), new(map[gg.Inner][]byte), new(map[string][]string), new(map[string]gg.Empty), new(gg.Trie), new(map[[16]byte]float64)},
}

func malformed(k *core.K, p mon.Proto, bv badValue) {
	check := func(ctx string, f func(r thriftwire.Reader) error, in []byte) {
		if err := f(p.P.NewReader(bytes.NewReader(in))); err == nil {
			k.Fail("%s: %s (%s): no error; input %x", p.Name, bv.what, ctx, in)
		} else if err.Error() == "" {
			k.Fail("%s: %s (%s): empty error text", p.Name, bv.what, ctx)
		}
		k.Count("malformed_reported", 1)
	}
	skip := func(t tm.Type) func(thriftwire.Reader) error {
		return func(r thriftwire.Reader) error { return thriftwire.Skip(r, thriftwire.Type(t)) }
	}
	into := func(x any) func(thriftwire.Reader) error {
		return func(r thriftwire.Reader) error { return thrift.Unmarshal(r, x) }
	}
	// contexts: the value itself, as a field, as an element, as a map value
	field := func(id int16) []byte {
		if p.Name == "binary" {
			return append([]byte{byte(bv.t), byte(uint16(id) >> 8), byte(id)}, bv.b...)
		}
		return append(tm.Zigzag([]byte{tm.CompactCode(bv.t)}, int64(id)), bv.b...)
	}
	list := func() []byte {
		if p.Name == "binary" {
			return append([]byte{byte(bv.t), 0, 0, 0, 1}, bv.b...)
		}
		return append([]byte{0x10 | tm.CompactCode(bv.t)}, bv.b...)
	}
	mapv := func() []byte {
		if p.Name == "binary" {
			return append([]byte{3, byte(bv.t), 0, 0, 0, 1, 'k'}, bv.b...)
		}
		return append([]byte{1, 3<<4 | tm.CompactCode(bv.t), 'k'}, bv.b...)
	}
	check("Skip", skip(bv.t), bv.b)
	check("Skip field", skip(tm.Struct), field(1))
	check("Skip element", skip(tm.List), list())
	check("Skip set element", skip(tm.Set), list())
	check("Skip map value", skip(tm.Map), mapv())
	for _, x := range []any{new(gg.Empty), new(gg.ZNever), new(gg.Scalars)} {
		check(fmt.Sprintf("unknown field of %T", x), into(x), field(99))
	}
	for _, x := range goTypes[bv.t] {
		t := reflect.TypeOf(x).Elem()
		check(fmt.Sprintf("into %v", t), into(reflect.New(t).Interface()), bv.b)
		st := reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `thrift:"7,required"`}})
		check(fmt.Sprintf("field of type %v", t), into(reflect.New(st).Interface()), field(7))
		check(fmt.Sprintf("element of type %v", t), into(reflect.New(reflect.SliceOf(t)).Interface()), list())
		check(fmt.Sprintf("map value of type %v", t), into(reflect.New(reflect.MapOf(reflect.TypeOf(int8(0)), t)).Interface()), mapv())
		k.Hit(bv.what + t.String())
	}
	k.Hit(bv.what)
	k.Sample("%s: %s: %x", p.Name, bv.what, bv.b[:len(bv.b)-48])
}
