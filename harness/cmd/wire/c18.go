package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"

	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// Types whose encoding is infinite for some or all values.
type (
	ptrSelf *ptrSelf
	ptrA    *ptrB
	ptrB    *ptrA
	reqSelf struct {
		S *reqSelf `thrift:"1,required"`
		N int32    `thrift:"2"`
	}
	reqA struct {
		X int8  `thrift:"3,required"`
		B *reqB `thrift:"1,required"`
	}
	reqB struct {
		A *reqA  `thrift:"7,required"`
		L []reqA `thrift:"8"`
	}
	reqHold struct {
		N string   `thrift:"1"`
		R *reqSelf `thrift:"2"`
	}
	ptrHold struct {
		P ptrSelf `thrift:"1,required"`
	}
)

// recTypes are recursive types with one slot to descend through.
var recTypes = append([]reflect.Type{rt[gg.SelfL](), rt[gg.SelfM](), rt[gg.SelfS]()}, gg.RecursiveTypes...)

// deepen builds from the innermost level outwards: each level is a small
// random value of the type with the previous one planted in it.
func deepen(r *core.Rand, d *gg.Desc, n int) reflect.Value {
	cur := gg.GenValue(r, d, gg.Opts{Depth: 2, Size: 6})
	for i := 0; i < n; i++ {
		o := gg.Opts{Depth: 1, Size: 3}
		v := gg.GenValue(r, d, o)
		if !plant(r, v, d, d, cur, map[*gg.Desc]bool{}) {
			panic("c18: " + d.T.String() + " does not contain itself")
		}
		cur = v
	}
	return cur
}

// plant stores x (of type want) somewhere below v, creating what is needed on
// the way; it reports whether d leads to want at all.
func plant(r *core.Rand, v reflect.Value, d, want *gg.Desc, x reflect.Value, busy map[*gg.Desc]bool) bool {
	if busy[d] {
		return false
	}
	busy[d] = true
	defer delete(busy, d)
	put := func(ed *gg.Desc) (reflect.Value, bool) {
		e := reflect.New(ed.T).Elem()
		if ed == want {
			e.Set(x)
			return e, true
		}
		return e, plant(r, e, ed, want, x, busy)
	}
	switch {
	case d.Ptr:
		e, ok := put(d.Elem)
		if ok {
			v.Set(e.Addr())
		}
		return ok
	case d.W == tm.List || d.W == tm.Set:
		e, ok := put(d.Elem)
		if ok {
			s := reflect.MakeSlice(d.T, 0, 2)
			if r.P(1, 4) {
				s = reflect.Append(s, reflect.Zero(d.Elem.T))
			}
			v.Set(reflect.Append(s, e))
		}
		return ok
	case d.W == tm.Map:
		e, ok := put(d.Elem)
		if ok {
			m := reflect.MakeMap(d.T)
			key := gg.GenValue(r, d.Key, gg.Opts{Depth: 1, Size: 3, NoNaNKey: true})
			m.SetMapIndex(key, e)
			v.Set(m)
		}
		return ok
	case d.W == tm.Struct:
		for _, i := range r.Perm(len(d.Fields)) {
			f := &d.Fields[i]
			e, ok := put(f.D)
			if ok {
				v.Field(f.Index).Set(e)
				return true
			}
		}
	}
	return false
}

// cycle makes v cyclic: some pointer, slice or map below becomes one of its
// own ancestors. It visits candidates in a fixed order and applies the
// target-th; with target < 0 it only counts.
type cycler struct {
	n, target int
	what      string
}

func (c *cycler) hit() bool {
	c.n++
	return c.n-1 == c.target
}

func (c *cycler) walk(v reflect.Value, d *gg.Desc, anc []reflect.Value, path string) bool {
	// v is settable. Replacing v by an ancestor of its type closes a cycle.
	for _, a := range anc {
		w := a
		if d.Ptr && a.Type() == d.Elem.T && a.CanAddr() {
			w = a.Addr()
		} else if a.Type() != d.T || (d.Ptr || d.W == tm.List || d.W == tm.Set || d.W == tm.Map) == false {
			continue
		}
		if w.Kind() == reflect.Struct || w.Type() != d.T || w.IsNil() {
			continue
		}
		if c.hit() {
			v.Set(w)
			c.what = path + " = " + a.Type().String()
			return true
		}
	}
	switch {
	case d.Ptr:
		if v.IsNil() {
			return false
		}
		return c.walk(v.Elem(), d.Elem, append(anc, v), path+"*")
	case d.W == tm.List || d.W == tm.Set:
		for i := 0; i < v.Len(); i++ {
			if c.walk(v.Index(i), d.Elem, append(anc, v), fmt.Sprintf("%s[%d]", path, i)) {
				return true
			}
		}
	case d.W == tm.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return gg.Canon(keys[i], d.Key) < gg.Canon(keys[j], d.Key) })
		for _, key := range keys {
			e := reflect.New(d.Elem.T).Elem()
			e.Set(v.MapIndex(key))
			if c.walk(e, d.Elem, append(anc, v), path+"[k]") {
				v.SetMapIndex(key, e)
				return true
			}
		}
	case d.W == tm.Struct:
		for i := range d.Fields {
			f := &d.Fields[i]
			if c.walk(v.Field(f.Index), f.D, append(anc, v), path+"."+f.Name) {
				return true
			}
		}
	}
	return false
}

func c18(c *core.Ctx) {
	limits(c)
	// Deep but finite values.
	c.Cases("deep", c.N(1500, 12000), func(k *core.K) {
		t := recTypes[k.I%len(recTypes)]
		d := gg.Describe(t)
		n := []int{1, 10, 100, 500, 1000, 1500}[k.R.Intn(6)]
		v := deepen(k.R, d, n)
		want := gg.Canon(v, d)
		k.Note("type %v, %d levels", t, n)
		k.Max("levels", int64(n))
		for _, p := range mon.Protos {
			b := marshal(k, p, v)
			rd := p.P.NewReader(bytes.NewReader(append(b, sentinel[:]...)))
			got := reflect.New(t)
			if err := thrift.Unmarshal(rd, got.Interface()); err != nil {
				k.Fail("%s: Unmarshal of %v nested %d times: %v", p.Name, t, n, err)
			}
			if s := gg.Canon(got.Elem(), d); s != want {
				k.Fail("%s: round trip of %v nested %d times changed it: %s", p.Name, t, n, diffs(s, want))
			}
			expectEnd(k, p.Name, rd)
			m, _, err := p.Dec(b, tm.Type(d.W))
			if err != nil {
				k.Fail("%s: reference decoder rejects the bytes: %v", p.Name, err)
			}
			if s, want := m.Render(true), gg.Model(v, d).Render(true); s != want {
				k.Fail("%s: wrong bytes for %v: %s", p.Name, t, diffs(s, want))
			}
			k.Count("deep_round_trips", 1)
		}
		k.Hit(t.String() + want)
		k.Sample("%v nested %d times", t, n)
	})

	// Values without a cycle in which the same variables occur several times.
	c.Cases("shared", c.N(2500, 20000), func(k *core.K) {
		t := recTypes[k.I%len(recTypes)]
		d := gg.Describe(t)
		v := deepen(k.R, d, k.R.Intn(12))
		if k.R.Bool() {
			v = gg.GenValue(k.R, d, gg.Opts{Depth: 12, Size: 60})
		}
		n := gg.Share(k.R, v, d)
		want := gg.Canon(v, d)
		k.Note("type %v, %d parts shared: %.500s", t, n, want)
		for _, p := range mon.Two {
			b := marshal(k, p, v)
			got := reflect.New(t)
			if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(b)), got.Interface()); err != nil {
				k.Fail("%s: Unmarshal of %v: %v", p.Name, t, err)
			}
			if s := gg.Canon(got.Elem(), d); s != want {
				k.Fail("%s: round trip of %v changed it: %s", p.Name, t, diffs(s, want))
			}
		}
		k.Count("shared_parts", n)
		if n > 0 {
			k.Hit(t.String() + want)
		}
	})

	// Random object graphs with a cycle.
	c.Cases("cyclic", c.N(2500, 20000), func(k *core.K) {
		t := recTypes[k.I%len(recTypes)]
		d := gg.Describe(t)
		n := k.R.Intn(6)
		v := deepen(k.R, d, 1+n)
		cc := &cycler{target: -1}
		cc.walk(v, d, nil, "v")
		if cc.n == 0 {
			k.Count("no_cycle_possible", 1)
			return
		}
		cc = &cycler{target: k.R.Intn(cc.n)}
		if !cc.walk(v, d, nil, "v") {
			panic("c18: cycle target not reached")
		}
		k.Note("type %v, %s", t, cc.what)
		for _, p := range mon.Two {
			err := thrift.Marshal(p.P.NewWriter(io.Discard), arg(k.R, v))
			if err == nil {
				k.Fail("%s: Marshal of a cyclic %v returned nil", p.Name, t)
			}
			_ = err.Error()
			k.Count("cyclic_rejected", 1)
		}
		// And with a writer that records nothing but the protocol.
		w := &mon.WMon{}
		if err := thrift.Marshal(w, v.Addr().Interface()); err == nil {
			k.Fail("Marshal of a cyclic %v returned nil", t)
		}
		if w.Viol != "" {
			k.Fail("Marshal of a cyclic %v: %s", t, w.Viol)
		}
		k.Max("calls", int64(w.Calls))
		k.Hit(t.String() + cc.what)
		k.Sample("%v: %s", t, cc.what)
	})

	// Hand-written cycles and infinite types.
	list := []func() (string, any){
		func() (string, any) { x := &gg.Tree{}; x.Kids = []*gg.Tree{nil, x}; return "Tree", x },
		func() (string, any) { x := &gg.Node{}; x.Next = x; return "Node", x },
		func() (string, any) {
			x := &gg.Node{V: "a"}
			y := &gg.Node{V: "b", Next: x}
			x.Next = y
			return "Node 2-cycle", *x
		},
		func() (string, any) { x := &gg.Bin2{}; x.R = &gg.Bin2{L: x}; return "Bin2", x },
		func() (string, any) { x := gg.Forest{nil, nil}; x[1] = x; return "Forest", x },
		func() (string, any) { x := gg.SetForest{nil}; x[0] = x; return "SetForest", x },
		func() (string, any) { x := gg.Trie{}; x[""] = x; return "Trie", x },
		func() (string, any) {
			x := gg.TreeV{Kids: make([]gg.TreeV, 1)}
			x.Kids[0].Kids = x.Kids
			return "TreeV slice", x
		},
		func() (string, any) {
			x := gg.TreeV{M: map[string]gg.TreeV{}}
			x.M["a"] = x
			return "TreeV map", &x
		},
		func() (string, any) {
			x := &gg.Mut1{}
			x.A = &gg.Mut2{B: map[int32]*gg.Mut1{1: x}}
			return "Mut1", x
		},
		func() (string, any) {
			x := gg.Mut1{L: make([]gg.Mut2, 1)}
			x.L[0].Z = []gg.Mut1{x}
			return "Mut1 slices", x
		},
		func() (string, any) { x := gg.RSet{S: make(thrift.Set[gg.RSet], 1)}; x.S[0].S = x.S; return "RSet", x },
		func() (string, any) { x := make(gg.PSlice, 1); x[0] = &x; return "PSlice", x },
		func() (string, any) { x := gg.PMap{}; x[3] = &x; return "PMap", x },
		func() (string, any) { x := gg.MixA{map[string]gg.MixA{}}; x[0]["k"] = x; return "MixA", x },
		func() (string, any) { var p ptrSelf; p = &p; return "type P *P, cyclic", p },
		func() (string, any) { var p ptrSelf; q := ptrSelf(&p); return "type P *P, finite", q },
		func() (string, any) { var p ptrSelf; return "type P *P, nil", &p },
		func() (string, any) { var p ptrA; return "mutual pointers", &p },
		func() (string, any) { return "required self", reqSelf{} },
		func() (string, any) { x := reqSelf{S: &reqSelf{S: &reqSelf{}}}; return "required self, 3 levels", x },
		func() (string, any) { x := reqSelf{}; x.S = &x; return "required self, cyclic", x },
		func() (string, any) { return "mutually required", reqA{} },
		func() (string, any) { return "mutually required 2", &reqB{L: []reqA{{}}} },
		func() (string, any) { return "optional to infinite", reqHold{R: &reqSelf{}} },
		func() (string, any) { return "required pointer to pointers", ptrHold{} },
		func() (string, any) { return "list of infinite", []reqSelf{{}} },
		func() (string, any) { return "map to infinite", map[string]*reqB{"x": nil} },
		func() (string, any) { return "set of infinite", thrift.Set[*reqA]{nil} },
	}
	c.Cases("infinite", 2*len(list), func(k *core.K) {
		name, x := list[k.I/2]()
		p := mon.Two[k.I%2]
		k.Note("%s (%T)", name, x)
		for i := 0; i < 2; i++ {
			err := thrift.Marshal(p.P.NewWriter(io.Discard), x)
			if err == nil {
				k.Fail("%s: Marshal of %s (%T) returned nil", p.Name, name, x)
			}
			_ = err.Error()
		}
		k.Count("infinite_rejected", 1)
		k.Hit(name + p.Name)
		k.Sample("%s", name)
	})

	// Types with an infinite zero value still decode what is finite.
	c.Cases("decode", 200, func(k *core.K) {
		p := mon.Two[k.I%2]
		n := 1 + k.R.Intn(300)
		m := tm.Val{T: tm.Struct}
		for i := 0; i < n; i++ {
			m = tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: m}, {ID: 2, V: tm.IntV(tm.I32, int64(n-i))}}}
		}
		var got reqSelf
		if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(p.Enc(nil, m))), &got); err != nil {
			k.Fail("%s: Unmarshal of required self, %d levels: %v", p.Name, n, err)
		}
		x := &got
		for i := n - 1; i >= 0; i-- {
			if x == nil || x.N != int32(n-i) {
				k.Fail("%s: level %d of %d decoded wrong", p.Name, i, n)
			}
			x = x.S
		}
		if x == nil || x.S != nil || x.N != 0 {
			k.Fail("%s: innermost level of %d decoded wrong", p.Name, n)
		}
		var hold reqHold
		hm := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: tm.StringV("x")}}}
		if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(p.Enc(nil, hm))), &hold); err != nil || hold.N != "x" || hold.R != nil {
			k.Fail("%s: Unmarshal of a struct with an absent infinite field: %+v, %v", p.Name, hold, err)
		}
		// A pointer type without a base has no thrift type: any answer but
		// a crash, and not success.
		var ps ptrSelf
		if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(bytes.Repeat([]byte{1}, 100))), &ps); err == nil {
			k.Fail("%s: Unmarshal into type P *P succeeded", p.Name)
		}
		var pa ptrA
		if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(bytes.Repeat([]byte{1}, 100))), &pa); err == nil {
			k.Fail("%s: Unmarshal into mutually recursive pointers succeeded", p.Name)
		}
		var se *thrift.SemanticError
		if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(bytes.Repeat([]byte{1}, 100))), &ps); !errors.As(err, &se) {
			k.Fail("%s: Unmarshal into type P *P: %v is not a SemanticError", p.Name, err)
		}
		k.Count("finite_decoded", 1)
		k.Hit(fmt.Sprint(p.Name, n))
	})
}
