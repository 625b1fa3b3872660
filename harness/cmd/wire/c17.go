package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unsafe"

	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

var (
	idRE  = regexp.MustCompile(`^[+-]?[0-9]+$`)
	optRE = regexp.MustCompile(`^[_\p{L}][_\p{L}\p{N}]*$`)
)

// tagBad says why the tags of a struct type are not acceptable; "" if they are.
func tagBad(t reflect.Type) string {
	ids := map[int64]string{}
	anyTag := false
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, has := f.Tag.Lookup("thrift")
		anyTag = anyTag || has
		if tag == "-" {
			continue
		}
		exported := f.PkgPath == ""
		if !exported {
			if has {
				return "tag on unexported field " + f.Name
			}
			continue
		}
		parts := strings.Split(tag, ",")
		if !idRE.MatchString(parts[0]) {
			return fmt.Sprintf("field %s: bad or missing id %q", f.Name, parts[0])
		}
		id, err := strconv.ParseInt(parts[0], 10, 64)
		if err != nil || id < -32768 || id > 32767 {
			return fmt.Sprintf("field %s: id %s out of range", f.Name, parts[0])
		}
		seen := map[string]bool{}
		for _, o := range parts[1:] {
			if !optRE.MatchString(o) {
				return fmt.Sprintf("field %s: malformed option %q", f.Name, o)
			}
			if o != "required" && strings.ReplaceAll(strings.ToLower(o), "_", "") == "required" {
				return fmt.Sprintf("field %s: misspelled option %q", f.Name, o)
			}
			if seen[o] {
				return fmt.Sprintf("field %s: duplicate option %q", f.Name, o)
			}
			seen[o] = true
		}
		if other, dup := ids[id]; dup {
			return fmt.Sprintf("fields %s and %s share id %d", other, f.Name, id)
		}
		ids[id] = f.Name
	}
	if t.NumField() > 0 && !anyTag {
		return "nothing serializable"
	}
	return ""
}

func genTag(r *core.Rand) (string, bool) {
	if r.P(1, 25) {
		return "", false
	}
	id := strconv.Itoa(int(gg.ID(r)))
	switch r.Intn(24) {
	case 0:
		id = core.Pick(r, "", " 1", "1 ", "32768", "-32769", "99999999999999999999", "0x10", "1_0", "1.0", "1e2", "a", "--1", "+", "-", "required", "é", "٣", "0b1", "+-1")
	case 1:
		id = core.Pick(r, "+7", "007", "-0", "+0", "-007", "32767", "-32768", "00000000000000000000001")
	case 2:
		return "-", true
	}
	tag := id
	for n := r.Intn(3); n > 0 && r.P(2, 3); n-- {
		switch r.Intn(8) {
		case 0:
			tag += "," + core.Pick(r, "", " required", "required ", "Required", "REQUIRED", "re_quired", "_required", "required_", "requi red", "9x", "'required'", "a-b", "a.b", "required=true", "\x00", "é!", "\xff", "optional:", "-", "rEqUiReD", "r_e_q_u_i_r_e_d")
		case 1, 2:
			tag += "," + core.Pick(r, "optional", "x", "_", "été", "日本", "a1", "x9_y", "requiredx", "xrequired", "omitzero", "set", "require", "ok٣")
		default:
			tag += ",required"
		}
	}
	if r.P(1, 40) {
		tag += ","
	}
	return tag, true
}

func genTagged(k *core.K, n int) reflect.Type {
	var fs []reflect.StructField
	for i, m := 0, k.R.Intn(5); i < m; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("T%d_%d", n, i), Type: gg.Leaves[k.R.Intn(len(gg.Leaves))]}
		tag, has := genTag(k.R)
		if k.R.P(1, 10) {
			f.Name, f.PkgPath = "u"+f.Name, "example.com/x"
			if k.R.P(1, 2) {
				has = false
			}
		}
		if has {
			f.Tag = reflect.StructTag("thrift:" + strconv.Quote(tag))
			if k.R.P(1, 4) {
				f.Tag = `json:"thrift" ` + f.Tag + ` xml:"-"`
			}
		} else if k.R.Bool() {
			f.Tag = `json:"1"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// namesType looks for a SemanticError about t in the chain of err.
func namesType(err error, t reflect.Type) bool {
	for e := err; e != nil; e = errors.Unwrap(e) {
		if se, ok := e.(*thrift.SemanticError); ok && se.GoType == t {
			return true
		}
	}
	return false
}

var (
	badLeaf = []reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)),
		reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(),
		reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf([4]int32{}), reflect.TypeOf([15]byte{}), reflect.TypeOf([17]byte{}), reflect.TypeOf([16]int8{}),
		reflect.TypeOf([0]byte{}), reflect.TypeOf((*io.Reader)(nil)).Elem(), reflect.TypeOf((*interface{ IsZero() bool })(nil)).Elem(),
	}
)

func nonZero(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int:
		v.SetInt(5)
	case reflect.Uint, reflect.Uintptr:
		v.SetUint(5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(1)
	case reflect.Chan:
		v.Set(reflect.MakeChan(t, 1))
	case reflect.Func:
		v.Set(reflect.ValueOf(func() {}))
	case reflect.Interface:
		for _, x := range []any{bytes.NewReader(nil), errors.New("x"), gg.ZV{N: 1}} {
			if reflect.TypeOf(x).Implements(t) {
				v.Set(reflect.ValueOf(x))
			}
		}
	case reflect.Array:
		if t.Len() > 0 {
			if e := v.Index(0); e.CanInt() {
				e.SetInt(1)
			} else {
				e.SetUint(1)
			}
		}
	case reflect.UnsafePointer:
		v.SetPointer(unsafe.Pointer(new(int)))
	}
	return v
}

// checkAccepted checks that values of the type are marshaled as its tags say.
func checkAccepted(k *core.K, p mon.Proto, t reflect.Type) {
	d := gg.Describe(t)
	for i := 0; i < 2; i++ {
		v := gg.GenValue(k.R, d, snapOpts)
		w := &mon.WMon{}
		if err := thrift.Marshal(w, v.Addr().Interface()); err != nil {
			k.Fail("Marshal of %v: %v", t, err)
		}
		m := gg.Model(v, d)
		if w.Viol != "" || !w.Balanced() {
			k.Fail("Marshal of %v: %s", t, w.Viol)
		}
		if g, wnt := w.Values[0].Render(true), m.Render(true); g != wnt {
			k.Fail("Marshal of %v does not do what the tags say: %s", t, diffs(g, wnt))
		}
		got := reflect.New(t)
		if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(p.Enc(nil, m))), got.Interface()); err != nil {
			k.Fail("Unmarshal into %v: %v", t, err)
		}
		if g, wnt := gg.Canon(got.Elem(), d), gg.Canon(v, d); g != wnt {
			k.Fail("Unmarshal into %v does not do what the tags say: %s", t, diffs(g, wnt))
		}
	}
}

// nilArgs are nil values and destinations that are no pointers.
func nilArgs() (marshalBad, unmarshalBad []any) {
	type T = gg.Scalars
	var nilT *T
	var nilErr error
	marshalBad = []any{nil, nilT, (*int32)(nil), (**int32)(nil), (*[]byte)(nil), (*any)(nil), (*map[string]int32)(nil), (*error)(nil), nilErr, (*gg.Forest)(nil)}
	unmarshalBad = append(append([]any{}, marshalBad...), T{}, int32(3), "x", []byte("abc"), []int32{1}, map[string]int32{}, [16]byte{}, true, 1.5, func() {}, make(chan int), thrift.Set[string]{}, gg.Empty{}, struct{ X int }{}, 5)
	return marshalBad, unmarshalBad
}

// nest hides a value of the unsupported type t in others. It returns the
// value, a message whose decoding would reach the place of t, whether Marshal
// gets there, and the types from t to that of the value.
func nest(k *core.K, t reflect.Type) (reflect.Value, tm.Val, bool, []reflect.Type) {
	x := nonZero(t)
	depth := k.R.Intn(4)
	must := true // Marshal reaches the value
	var m tm.Val // something that would reach it in Unmarshal
	m = gg.RandVal(k.R, tm.Types[k.R.Intn(len(tm.Types))], 1)
	on := []reflect.Type{t}
	for i := 0; i < depth; i++ {
		n := k.R.Intn(6)
		if i == 0 && k.R.P(1, 3) {
			n = 6
		}
		switch n {
		case 6: // an empty or nil container of the type
			m = tm.Val{T: tm.List, E: m.T, L: []tm.Val{m}}
			var y reflect.Value
			if k.R.Bool() {
				y = reflect.New(reflect.SliceOf(x.Type())).Elem()
				if k.R.Bool() {
					y.Set(reflect.MakeSlice(y.Type(), 0, 0))
				}
			} else {
				y = reflect.New(reflect.MapOf(reflect.TypeOf(""), x.Type())).Elem()
				if k.R.Bool() {
					y.Set(reflect.MakeMap(y.Type()))
				}
				m = tm.Val{T: tm.Map, K: tm.String, E: m.L[0].T, L: []tm.Val{tm.StringV("k"), m.L[0]}}
			}
			x = y
		case 0:
			pt := reflect.PointerTo(x.Type())
			y := reflect.New(pt).Elem()
			y.Set(reflect.New(x.Type()))
			y.Elem().Set(x)
			x = y
		case 1, 2:
			st := reflect.SliceOf(x.Type())
			y := reflect.New(st).Elem()
			y.Set(reflect.MakeSlice(st, 1+k.R.Intn(2), 3))
			y.Index(0).Set(x)
			x = y
			m = tm.Val{T: tm.List, E: m.T, L: []tm.Val{m}}
		case 3:
			mt := reflect.MapOf(reflect.TypeOf(""), x.Type())
			y := reflect.New(mt).Elem()
			y.Set(reflect.MakeMap(mt))
			y.SetMapIndex(reflect.ValueOf("k"), x)
			x = y
			m = tm.Val{T: tm.Map, K: tm.String, E: m.T, L: []tm.Val{tm.StringV("k"), m}}
		default:
			tag := `thrift:"3"`
			if n == 4 {
				tag = `thrift:"3,required"`
			}
			st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(int32(0)), Tag: `thrift:"1"`}, {Name: "X", Type: x.Type(), Tag: reflect.StructTag(tag)}})
			y := reflect.New(st).Elem()
			y.Field(1).Set(x)
			if n == 5 && y.Field(1).IsZero() {
				must = false // an optional zero field is left out
			}
			x = y
			m = tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: tm.IntV(tm.I32, 5)}, {ID: 3, V: m}}}
		}
		on = append(on, x.Type())
	}
	return x, m, must, on
}

func c17(c *core.Ctx) {
	// Types that are called the same, in changing order.
	c.Cases("same-name", c.N(800, 8000), func(k *core.K) {
		p := mon.Two[k.I%2]
		for n := 1 + k.R.Intn(4); n > 0; n-- {
			if k.R.P(1, 4) {
				t := core.Pick(k.R, gg.SameBad...)
				bad := tagBad(t)
				k.Note("type %v, expected %q", t, bad)
				checkRejected(k, p, t, bad)
				k.Count("same_name_rejected", 1)
				continue
			}
			t := core.Pick(k.R, gg.SameNames...)
			k.Note("type %v", t)
			checkAccepted(k, p, t)
			k.Count("same_name_accepted", 1)
		}
	})

	c.Cases("tags", c.N(60000, 900000), func(k *core.K) {
		t := genTagged(k, k.I%7)
		bad := tagBad(t)
		k.Note("type %v, expected %q", t, bad)
		p := mon.Two[k.I%2]
		if bad != "" {
			checkRejected(k, p, t, bad)
			k.Count("rejected", 1)
			k.Hit("bad" + t.String())
			k.Sample("rejected (%s): %v", bad, t)
			return
		}
		checkAccepted(k, p, t)
		k.Count("accepted", 1)
		k.Hit("ok" + t.String())
	})

	// Values of unsupported kinds, anywhere.
	c.Cases("kinds", c.N(len(badLeaf)*60, len(badLeaf)*600), func(k *core.K) {
		t := badLeaf[k.I%len(badLeaf)]
		p := mon.Two[k.R.Intn(2)]
		x, m, must, on := nest(k, t)
		depth := len(on) - 1
		k.Note("type %v", x.Type())
		var texts [2]string
		for i := 0; i < 2; i++ {
			err := thrift.Marshal(p.P.NewWriter(io.Discard), x.Addr().Interface())
			if must && err == nil {
				k.Fail("Marshal of a %v holding a %v: no error", x.Type(), t)
			}
			if err != nil && err.Error() == "" {
				k.Fail("empty error text")
			}
			texts[i] = errText(err)
			if depth == 0 && t.Kind() != reflect.Interface && t.Kind() != reflect.Pointer {
				if err2 := thrift.Marshal(p.P.NewWriter(io.Discard), x.Interface()); err2 == nil {
					k.Fail("Marshal of a %v: no error", t)
				}
			}
		}
		if texts[0] != texts[1] {
			k.Fail("Marshal of a %v: repeated calls disagree: %s", x.Type(), diffs(texts[0], texts[1]))
		}
		for i := 0; i < 2; i++ {
			err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(p.Enc(nil, m))), reflect.New(x.Type()).Interface())
			if err == nil {
				k.Fail("Unmarshal of %s into a %v: no error", short(m.Render(false)), x.Type())
			}
			texts[i] = errText(err)
		}
		if texts[0] != texts[1] {
			k.Fail("Unmarshal into a %v: repeated calls disagree: %s", x.Type(), diffs(texts[0], texts[1]))
		}
		k.Count("unsupported", 1)
		k.Hit(x.Type().String())
	})

	// Map keys of unsupported kinds.
	c.Cases("keys", len(badLeaf), func(k *core.K) {
		t := badLeaf[k.I]
		if !t.Comparable() || t.Kind() == reflect.Func {
			return
		}
		mt := reflect.MapOf(t, reflect.TypeOf(""))
		y := reflect.New(mt).Elem()
		y.Set(reflect.MakeMap(mt))
		y.SetMapIndex(nonZero(t), reflect.ValueOf("v"))
		for i := 0; i < 2; i++ {
			for _, p := range mon.Two {
				if err := thrift.Marshal(p.P.NewWriter(io.Discard), y.Addr().Interface()); err == nil {
					k.Fail("%s: Marshal of a %v: no error", p.Name, mt)
				}
				for _, kt := range tm.Types {
					m := tm.Val{T: tm.Map, K: kt, E: tm.String, L: []tm.Val{gg.RandVal(k.R, kt, 1), tm.StringV("v")}}
					if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(p.Enc(nil, m))), reflect.New(mt).Interface()); err == nil {
						k.Fail("%s: Unmarshal of %s into a %v: no error", p.Name, short(m.Render(false)), mt)
					}
				}
			}
		}
		k.Count("unsupported", 1)
		k.Hit(mt.String())
	})

	// Declared types with embedded fields, which reflect.StructOf cannot make.
	c.Cases("embedded", len(embedded)*2*20, func(k *core.K) {
		e := embedded[k.I%len(embedded)]
		p := mon.Two[k.I/len(embedded)%2]
		t := reflect.TypeOf(e.v)
		if bad := tagBad(t); (bad != "") == e.ok {
			panic(fmt.Sprintf("%v: expected ok=%v, the oracle says %q", t, e.ok, bad))
		}
		if !e.ok {
			checkRejected(k, p, t, "embedded")
			k.Count("rejected", 1)
		} else {
			d := gg.Describe(t)
			v := gg.GenValue(k.R, d, snapOpts)
			m := gg.Model(v, d)
			b := marshal(k, p, v)
			got, _, err := p.Dec(b, tm.Struct)
			if err != nil || got.Render(true) != m.Render(true) {
				k.Fail("Marshal of %v does not do what the tags say: %v %s", t, err, diffs(got.Render(true), m.Render(true)))
			}
			out := reflect.New(t)
			if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(b)), out.Interface()); err != nil {
				k.Fail("Unmarshal into %v: %v", t, err)
			}
			if g, w := gg.Canon(out.Elem(), d), gg.Canon(v, d); g != w {
				k.Fail("Unmarshal into %v does not do what the tags say: %s", t, diffs(g, w))
			}
			k.Count("accepted", 1)
		}
		k.Hit(t.String())
	})
	marshalBad, unmarshalBad := nilArgs()
	c.Cases("nil", 2*(len(marshalBad)+len(unmarshalBad)), func(k *core.K) {
		p := mon.Two[k.I%2]
		i := k.I / 2
		in := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		var e1, e2 error
		var what string
		if i < len(marshalBad) {
			what = fmt.Sprintf("Marshal(%T nil)", marshalBad[i])
			e1 = thrift.Marshal(p.P.NewWriter(io.Discard), marshalBad[i])
			e2 = thrift.Marshal(p.P.NewWriter(io.Discard), marshalBad[i])
		} else {
			x := unmarshalBad[i-len(marshalBad)]
			what = fmt.Sprintf("Unmarshal into a %T", x)
			e1 = thrift.Unmarshal(p.P.NewReader(bytes.NewReader(in)), x)
			e2 = thrift.Unmarshal(p.P.NewReader(bytes.NewReader(in)), x)
		}
		if e1 == nil || e2 == nil {
			k.Fail("%s: no error", what)
		}
		if errText(e1) != errText(e2) || e1.Error() == "" {
			k.Fail("%s: repeated calls disagree: %v, %v", what, e1, e2)
		}
		k.Count("nil_or_non_pointer", 1)
		k.Hit(what)
	})
}

// checkRejected: every way of using the type fails and names it, each time.
func checkRejected(k *core.K, p mon.Proto, t reflect.Type, why string) {
	m := tm.Val{T: tm.Struct}
	for i := 0; i < k.R.Intn(3); i++ {
		m.Fs = append(m.Fs, tm.Field{ID: gg.ID(k.R), V: gg.RandVal(k.R, gg.RandType(k.R, 0), 0)})
	}
	v := reflect.New(t).Elem()
	slice := reflect.New(reflect.SliceOf(t)).Elem()
	slice.Set(reflect.MakeSlice(slice.Type(), 1, 1))
	ptr := reflect.New(reflect.PointerTo(t)).Elem()
	mt := reflect.MapOf(reflect.TypeOf(int32(0)), t)
	mp := reflect.New(mt).Elem()
	mp.Set(reflect.MakeMap(mt))
	mp.SetMapIndex(reflect.ValueOf(int32(1)), v)
	field := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `thrift:"1,required"`}})).Elem()
	for _, u := range []struct {
		v reflect.Value
		m tm.Val
	}{
		{v, m}, {ptr, m},
		{slice, tm.Val{T: tm.List, E: tm.Struct, L: []tm.Val{m}}},
		{mp, tm.Val{T: tm.Map, K: tm.I32, E: tm.Struct, L: []tm.Val{tm.IntV(tm.I32, 1), m}}},
		{field, tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: m}}}},
	} {
		if k.R.P(1, 3) && u.v.Type() != t {
			continue
		}
		var first [2]string
		for i := 0; i < 2; i++ {
			e1 := thrift.Marshal(p.P.NewWriter(io.Discard), u.v.Addr().Interface())
			e2 := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(p.Enc(nil, u.m))), reflect.New(u.v.Type()).Interface())
			for j, err := range []error{e1, e2} {
				what := []string{"Marshal", "Unmarshal"}[j]
				if err == nil {
					k.Fail("%s of a %v (%s): no error", what, u.v.Type(), why)
				}
				if !namesType(err, t) {
					k.Fail("%s of a %v (%s): no SemanticError naming %v: %v", what, u.v.Type(), why, t, err)
				}
				if s := errText(err); i == 0 {
					first[j] = s
				} else if s != first[j] {
					k.Fail("%s of a %v (%s): repeated calls disagree: %s", what, u.v.Type(), why, diffs(s, first[j]))
				}
			}
		}
	}
}

type (
	Emb struct {
		A int32 `thrift:"1"`
	}
	emb struct {
		A int32 `thrift:"1"`
	}
	EmbI int32
	embI int32
	EmbM map[string]int32

	e1 struct {
		Emb `thrift:"2"`
	}
	e2 struct{ Emb }
	e3 struct {
		emb `thrift:"2"`
	}
	e4 struct {
		emb
		X int32 `thrift:"1"`
	}
	e5 struct{ emb }
	e6 struct {
		*Emb `thrift:"2,required"`
	}
	e7 struct {
		*emb `thrift:"2"`
	}
	e8 struct {
		*emb
		X string `thrift:"-5"`
	}
	e9 struct {
		EmbI `thrift:"7"`
	}
	e10 struct {
		embI `thrift:"7"`
	}
	e11 struct {
		embI
		Emb `thrift:"8"`
	}
	e12 struct {
		EmbM `thrift:"7,required"`
		Emb  `thrift:"7"`
	}
	e13 struct {
		EmbM `thrift:"6,required"`
		Emb  `thrift:"7"`
		A    int64 `thrift:"1"`
	}
	e14 struct {
		emb `thrift:"-"`
		Emb `thrift:"-"`
		B   int64 `thrift:"1"`
	}
	e15 struct {
		emb `thrift:"-"`
	}
	e16 struct {
		X int32 `thrift:"1"`
		Emb
	}
	e17 struct {
		X int32 `thrift:"1"`
		EmbI
	}
	e18 struct {
		e1 `json:"x"`
		X  bool `thrift:"3,required"`
	}
	e19 struct {
		X    bool `thrift:"3,required"`
		_    int32
		_    string
		time int
	}
	e20 struct {
		X bool  `thrift:"3,required"`
		_ int32 `thrift:"4"`
	}
	e21 struct {
		X bool  `thrift:"3,required"`
		_ int32 `thrift:"-"`
	}
)

var embedded = []struct {
	v  any
	ok bool
}{{e1{}, true}, {e2{}, false}, {e3{}, false}, {e4{}, true}, {e5{}, false}, {e6{}, true}, {e7{}, false}, {e8{}, true}, {e9{}, true}, {e10{}, false},
	{e11{}, true}, {e12{}, false}, {e13{}, true}, {e14{}, true}, {e15{}, true}, {e16{}, false}, {e17{}, false}, {e18{}, true}, {e19{}, true}, {e20{}, false}, {e21{}, true}}
