package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// upd is a type whose messages touch everything an update can do.
type updInner struct {
	A    int32             `thrift:"1"`
	B    string            `thrift:"2"`
	L    []string          `thrift:"3"`
	M    map[string]int32  `thrift:"4"`
	P    *int64            `thrift:"5"`
	Next *updInner         `thrift:"6"`
	Raw  []byte            `thrift:"7"`
	Set  thrift.Set[int16] `thrift:"8"`
	Keep string            `thrift:"-"`
	note []int
}

type updOuter struct {
	S  updInner                    `thrift:"1"`
	P  *updInner                   `thrift:"2"`
	Q  *updInner                   `thrift:"3"`
	PP **updInner                  `thrift:"4"`
	MS map[string]updInner         `thrift:"5"`
	MP map[int8]*updInner          `thrift:"6"`
	MM map[int8]map[int8]updInner  `thrift:"7"`
	ML map[bool][]updInner         `thrift:"8"`
	LM []map[int8]string           `thrift:"9"`
	PM *map[string]*string         `thrift:"10"`
	LP []*updInner                 `thrift:"11"`
	MK map[updKey]string           `thrift:"12"`
	MD map[float64][]byte          `thrift:"13"`
	MU map[[16]byte]*[]int32       `thrift:"14"`
	MV map[int8]thrift.Set[string] `thrift:"15"`
	MB map[uint8]bool              `thrift:"16,required"`
	MX map[string]struct{}         `thrift:"-"`
	N  int64                       `thrift:"-32768"`
}

var updTypes = []reflect.Type{
	reflect.TypeOf(updOuter{}), reflect.TypeOf(updOuter{}), reflect.TypeOf(updInner{}),
	reflect.TypeOf(map[string]updOuter(nil)), reflect.TypeOf((*updOuter)(nil)),
	reflect.TypeOf(map[int8]updInner(nil)), reflect.TypeOf(map[int8]map[int8]*updInner(nil)),
	reflect.TypeOf(map[int16]*int32(nil)), reflect.TypeOf([]map[int8]updInner(nil)),
}

type updKey struct {
	A int32    `thrift:"1"`
	B string   `thrift:"2,required"`
	C [16]byte `thrift:"3"`
}

// c27: what is decoded into a variable that holds something already.
func c27(c *core.Ctx) {
	c.Cases("update", c.N(9000, 150000), func(k *core.K) {
		var t reflect.Type
		switch k.R.Intn(4) {
		case 0:
			t = typeFor(k)
		case 1:
			t = structTypeFor(k)
		default:
			t = updTypes[k.R.Intn(len(updTypes))]
		}
		d := gg.Describe(t)
		k.Note("type %v", t)
		dst := freshFor(k, d)
		fillIgnored(k.R, dst)
		if k.R.P(1, 8) {
			dst.SetZero()
		}
		want := copyAll(dst)
		nShared := 0
		if k.R.P(1, 2) {
			nShared = share(k.R, dst, want)
		}
		p := mon.Protos[k.R.Intn(len(mon.Protos))]
		var stream []byte
		var ms []tm.Val
		n := 1 + k.R.Intn(4)
		cur := copyAll(dst)
		for i := 0; i < n; i++ {
			m := inOrder(gg.Model(valueFor(k, d), d))
			if k.R.Bool() {
				m = dropFields(k.R, m, d)
			}
			m = again(k.R, m, inOrder(gg.Model(valueFor(k, d), d)), d, 0)
			m = knownKeys(k.R, m, cur, d)
			m, _ = gg.Inject(k.R, m, d, k.R.Bool())
			merge(cur, d, m)
			ms = append(ms, m)
			stream = append(stream, encRef(k.R, p, nil, m)...)
		}
		stream = append(stream, sentinel[:]...)
		r := p.P.NewReader(bytes.NewReader(stream))
		for i, m := range ms {
			before := dump(dst)
			ptrs := map[string]uintptr{}
			pointers(dst, "", ptrs)
			if err := thrift.Unmarshal(r, dst.Addr().Interface()); err != nil {
				k.Fail("%s: message %d, %s into a %v: %v", p.Name, i, short(m.Render(false)), t, err)
			}
			merge(want, d, m)
			if g, w := dump(dst), dump(want); g != w {
				k.Fail("%s: message %d, %s into a %v that holds %s: %s", p.Name, i, short(m.Render(false)), t, short(before), diffs(g, w))
			}
			now := map[string]uintptr{}
			pointers(dst, "", now)
			for path, q := range ptrs {
				if now[path] != q {
					k.Fail("%s: message %d, %s into a %v: the pointer at %s was replaced, not followed", p.Name, i, short(m.Render(false)), t, path)
				}
			}
			k.Count("updates", 1)
			k.Count("pointers_kept", len(ptrs))
			k.Hit(m.Render(false) + before)
		}
		k.Count("shared_pointers", nShared)
		expectEnd(k, p.Name, r)
	})
}

// merge is what decoding m into dst must do.
func merge(dst reflect.Value, d *gg.Desc, m tm.Val) {
	switch {
	case d.Ptr:
		if dst.IsNil() {
			dst.Set(reflect.New(d.Elem.T))
		}
		merge(dst.Elem(), d.Elem, m)
	case dst.Kind() == reflect.Struct:
		for _, f := range m.Fs {
			if fd := d.FieldByID(f.ID); fd != nil {
				merge(dst.Field(fd.Index), fd.D, f.V)
			}
		}
	case dst.Kind() == reflect.Map:
		if len(m.L) > 0 && dst.IsNil() {
			dst.Set(reflect.MakeMap(d.T))
		}
		for i := 0; i < len(m.L); i += 2 {
			kv, ev := reflect.New(d.Key.T).Elem(), reflect.New(d.Elem.T).Elem()
			merge(kv, d.Key, m.L[i])
			if old := dst.MapIndex(kv); old.IsValid() {
				ev.Set(old)
			}
			merge(ev, d.Elem, m.L[i+1])
			dst.SetMapIndex(kv, ev)
		}
	case dst.Kind() == reflect.Slice && d.W != tm.String:
		s := reflect.MakeSlice(d.T, len(m.L), len(m.L))
		for i, e := range m.L {
			merge(s.Index(i), d.Elem, e)
		}
		dst.Set(s)
	default:
		apply(dst, d, m)
	}
}

// inOrder sorts maps, so that a case is the same in every run.
func inOrder(m tm.Val) tm.Val {
	if m.T == tm.Struct {
		for i := range m.Fs {
			m.Fs[i].V = inOrder(m.Fs[i].V)
		}
		return m
	}
	for i := range m.L {
		m.L[i] = inOrder(m.L[i])
	}
	if m.T == tm.Map {
		type pair struct {
			s    string
			k, v tm.Val
		}
		var ps []pair
		for i := 0; i < len(m.L); i += 2 {
			ps = append(ps, pair{m.L[i].Render(false) + m.L[i+1].Render(false), m.L[i], m.L[i+1]})
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].s < ps[j].s })
		for i, p := range ps {
			m.L[2*i], m.L[2*i+1] = p.k, p.v
		}
	}
	return m
}

// again repeats fields of structs and keys of maps, with values from o.
func again(r *core.Rand, m, o tm.Val, d *gg.Desc, depth int) tm.Val {
	d = d.Base()
	switch m.T {
	case tm.Struct:
		var fs []tm.Field
		for _, f := range m.Fs {
			fd := d.FieldByID(f.ID)
			for _, g := range o.Fs {
				if g.ID == f.ID {
					f.V = again(r, f.V, g.V, fd.D, depth+1)
				}
			}
			fs = append(fs, f)
		}
		for _, g := range o.Fs {
			if r.P(1, 6) {
				i := r.Intn(len(fs) + 1)
				fs = append(fs[:i:i], append([]tm.Field{g}, fs[i:]...)...)
			}
		}
		m.Fs = fs
	case tm.Map:
		if len(m.L) > 0 && len(m.L) < 40 && len(o.L) > 0 && r.P(1, 3) && m.K == o.K && m.E == o.E {
			l := append([]tm.Val(nil), m.L...)
			for n := 1 + r.Intn(3); n > 0; n-- {
				k := m.L[2*r.Intn(len(m.L)/2)]
				l = append(l, k, o.L[2*r.Intn(len(o.L)/2)+1])
			}
			m.L = l
		}
	}
	return m
}

// knownKeys makes maps in m name entries that v has.
func knownKeys(r *core.Rand, m tm.Val, v reflect.Value, d *gg.Desc) tm.Val {
	for d.Ptr {
		if v.IsNil() {
			return m
		}
		d, v = d.Elem, v.Elem()
	}
	switch m.T {
	case tm.Struct:
		fs := append([]tm.Field(nil), m.Fs...)
		for i, f := range fs {
			if fd := d.FieldByID(f.ID); fd != nil {
				fs[i].V = knownKeys(r, f.V, v.Field(fd.Index), fd.D)
			}
		}
		m.Fs = fs
	case tm.Map:
		if v.Len() == 0 || len(m.L) == 0 {
			return m
		}
		keys := sortedKeys(v)
		l := append([]tm.Val(nil), m.L...)
		for i := 0; i < len(l); i += 2 {
			if r.P(1, 2) {
				key := keys[r.Intn(len(keys))]
				l[i] = gg.Model(addr(key), d.Key)
				if e := v.MapIndex(key); e.IsValid() {
					l[i+1] = knownKeys(r, l[i+1], addr(e), d.Elem)
				}
			}
		}
		m.L = l
	}
	return m
}

func addr(v reflect.Value) reflect.Value {
	w := reflect.New(v.Type()).Elem()
	w.Set(v)
	return w
}

func sortedKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	names := make([]string, len(ks))
	for i, k := range ks {
		names[i] = dump(k)
	}
	sort.Sort(byName{names, ks})
	return ks
}

type byName struct {
	n []string
	v []reflect.Value
}

func (b byName) Len() int           { return len(b.n) }
func (b byName) Less(i, j int) bool { return b.n[i] < b.n[j] }
func (b byName) Swap(i, j int)      { b.n[i], b.n[j] = b.n[j], b.n[i]; b.v[i], b.v[j] = b.v[j], b.v[i] }

// share makes pointers of one type in a and b (equal values) point to one
// variable, never so that a cycle arises.
func share(r *core.Rand, a, b reflect.Value) (n int) {
	type pos struct {
		path string
		v    reflect.Value
	}
	var list func(v reflect.Value, path string, out *[]pos)
	list = func(v reflect.Value, path string, out *[]pos) {
		switch v.Kind() {
		case reflect.Pointer:
			*out = append(*out, pos{path, v})
			if !v.IsNil() {
				list(v.Elem(), path+"*", out)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					list(v.Field(i), fmt.Sprintf("%s.%d", path, i), out)
				}
			}
		}
	}
	for try := 0; try < 3; try++ {
		var pa, pb []pos
		list(a, "", &pa)
		list(b, "", &pb)
		if len(pa) != len(pb) || len(pa) < 2 || len(pa) > 200 {
			return n
		}
		i, j := r.Intn(len(pa)), r.Intn(len(pa))
		x, y := pa[i], pa[j]
		if x.v.Type() != y.v.Type() || x.v.IsNil() || i == j || strings.HasPrefix(y.path, x.path) || strings.HasPrefix(x.path, y.path) || holds(x.v.Elem(), y.v, 0) {
			continue
		}
		y.v.Set(x.v)
		pb[j].v.Set(pb[i].v)
		n++
	}
	return n
}

// holds reports whether the variable target lies in what v reaches.
func holds(v, target reflect.Value, depth int) bool {
	if depth > 100 {
		return true
	}
	if v.CanAddr() && target.CanAddr() && v.Type() == target.Type() && v.Addr().Pointer() == target.Addr().Pointer() {
		return true
	}
	switch v.Kind() {
	case reflect.Pointer:
		return !v.IsNil() && holds(v.Elem(), target, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if holds(v.Field(i), target, depth+1) {
				return true
			}
		}
	}
	return false
}

// pointers lists the non-nil pointers in v that decoding must follow.
func pointers(v reflect.Value, path string, out map[string]uintptr) {
	if len(path) > 2000 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			out[path] = v.Pointer()
			pointers(v.Elem(), path+"*", out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				pointers(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if hasPointer(it.Key().Type()) || v.MapIndex(it.Key()).Kind() == reflect.Invalid {
				continue // NaN
			}
			pointers(it.Value(), path+"["+strings.ReplaceAll(dump(it.Key()), "8000000000000000", "0")+"]", out) // -0 is 0
		}
	}
}

func hasPointer(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointer(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// fillIgnored puts something into fields that have no place in a message.
func fillIgnored(r *core.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			fillIgnored(r, v.Elem())
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.Struct {
			return
		}
		for i := 0; i < v.Len(); i++ {
			fillIgnored(r, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			f := v.Field(i)
			if !sf.IsExported() {
				continue
			}
			if sf.Tag.Get("thrift") != "-" {
				fillIgnored(r, f)
				continue
			}
			switch f.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				f.SetInt(int64(r.Intn(100)))
			case reflect.String:
				f.SetString(fmt.Sprint("kept ", r.Intn(1000)))
			case reflect.Map:
				f.Set(reflect.MakeMap(f.Type()))
			}
		}
	}
}

// copyAll makes a deep copy with the unexported fields as they are.
func copyAll(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	copyInto(out, v)
	return out
}

// dump writes everything v holds; nil and empty are the same.
func dump(v reflect.Value) string {
	var sb strings.Builder
	dumpTo(&sb, v)
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		dumpTo(sb, v.Elem())
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dumpTo(sb, v.Field(i))
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%q", v.Bytes())
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpTo(sb, v.Index(i))
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case reflect.Map:
		var l []string
		for it := v.MapRange(); it.Next(); {
			l = append(l, dump(it.Key())+":"+dump(it.Value()))
		}
		sort.Strings(l)
		sb.WriteString("map[" + strings.Join(l, ",") + "]")
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", math.Float64bits(v.Float()))
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dumpTo(sb, v.Index(i))
			sb.WriteByte(' ')
		}
	default:
		fmt.Fprintf(sb, "<%v>", v.Kind())
	}
}
