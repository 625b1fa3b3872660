package main

import (
	"bytes"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// maxLevels is the documented nesting limit.
const maxLevels = 10000

// Chain leads to itself through every container.
type Chain struct {
	S *Chain            `thrift:"1"`
	L []Chain           `thrift:"2"`
	T thrift.Set[Chain] `thrift:"3"`
	M map[int8]Chain    `thrift:"4"`
	K map[*Chain]int8   `thrift:"5"`
	F []Forest          `thrift:"6"`
	V []int8            `thrift:"7"`
	N int32             `thrift:"8"`
	P map[int8]int8     `thrift:"9"`
	Q thrift.Set[int8]  `thrift:"10"`
}

// Forest is a list of lists.
type Forest []Forest

// MapForest is a map of maps.
type MapForest map[int8]MapForest

// chain builds a value with exactly n levels of containers on its longest
// path, and its model.
func chain(r *core.Rand, n int, kind int) (reflect.Value, tm.Val) {
	list := func(t tm.Type, l ...tm.Val) tm.Val { return tm.Val{T: t, E: l[0].T, L: l} }
	if kind == 0 { // lists only
		f, m := Forest{}, tm.Val{T: tm.List, E: tm.List}
		for i := 1; i < n; i++ {
			nf, nm := Forest{}, tm.Val{T: tm.List, E: tm.List}
			for j := r.Intn(2); j > 0; j-- {
				nf, nm.L = append(nf, Forest{}), append(nm.L, tm.Val{T: tm.List, E: tm.List})
			}
			f, m = append(nf, f), tm.Val{T: tm.List, E: tm.List, L: append(nm.L, m)}
		}
		v := reflect.New(reflect.TypeOf(f)).Elem()
		v.Set(reflect.ValueOf(f))
		return v, m
	}
	if kind == 7 { // maps only
		f, m := MapForest{}, tm.Val{T: tm.Map, K: tm.Byte, E: tm.Map}
		for i := 1; i < n; i++ {
			f, m = MapForest{4: f}, tm.Val{T: tm.Map, K: tm.Byte, E: tm.Map, L: []tm.Val{tm.IntV(tm.Byte, 4), m}}
		}
		v := reflect.New(reflect.TypeOf(f)).Elem()
		v.Set(reflect.ValueOf(f))
		return v, m
	}
	cur := &Chain{}
	m := tm.Val{T: tm.Struct}
	left := n - 1
	set := func(id int16, v tm.Val) { m.Fs = append(m.Fs, tm.Field{ID: id, V: v}) }
	// The innermost level may hold a list of scalars or lists.
	switch in := r.Intn(6); {
	case in == 1 && left > 0:
		cur.V, left = []int8{3, 4}, left-1
		set(7, list(tm.List, tm.IntV(tm.Byte, 3), tm.IntV(tm.Byte, 4)))
	case in == 3 && left > 0:
		cur.P, left = map[int8]int8{3: 4}, left-1
		set(9, tm.Val{T: tm.Map, K: tm.Byte, E: tm.Byte, L: []tm.Val{tm.IntV(tm.Byte, 3), tm.IntV(tm.Byte, 4)}})
	case in == 4 && left > 0:
		cur.Q, left = thrift.Set[int8]{3, 4}, left-1
		set(10, list(tm.Set, tm.IntV(tm.Byte, 3), tm.IntV(tm.Byte, 4)))
	case in == 2 && left > 1:
		d := 2 + r.Intn(min(left-1, 40))
		f, fm := Forest{}, tm.Val{T: tm.List, E: tm.List}
		for i := 2; i < d; i++ {
			f, fm = Forest{f}, list(tm.List, fm)
		}
		cur.F, left = []Forest{f}, left-d
		set(6, list(tm.List, fm))
	}
	single := kind - 1 // 0: any
	for left > 0 {
		next := &Chain{}
		nm := tm.Val{T: tm.Struct}
		step := r.Intn(5)
		if single > 0 {
			step = single - 1
		}
		if left == 1 {
			step = 0
		}
		sib := r.P(1, 3)
		add := func(id int16, v tm.Val) { nm.Fs = append(nm.Fs, tm.Field{ID: id, V: v}) }
		es := tm.Val{T: tm.Struct}
		cost := 2
		switch step {
		case 0:
			next.S, cost = cur, 1
			add(1, m)
		case 1:
			next.L = []Chain{*cur}
			ms := []tm.Val{m}
			if sib {
				next.L, ms = []Chain{{}, *cur}, []tm.Val{es, m}
			}
			add(2, list(tm.List, ms...))
		case 2:
			next.T = thrift.Set[Chain]{*cur}
			ms := []tm.Val{m}
			if sib {
				next.T, ms = thrift.Set[Chain]{*cur, {}}, []tm.Val{m, es}
			}
			add(3, list(tm.Set, ms...))
		case 3:
			next.M = map[int8]Chain{5: *cur}
			add(4, tm.Val{T: tm.Map, K: tm.Byte, E: tm.Struct, L: []tm.Val{tm.IntV(tm.Byte, 5), m}})
		case 4:
			next.K = map[*Chain]int8{cur: 6}
			add(5, tm.Val{T: tm.Map, K: tm.Struct, E: tm.Byte, L: []tm.Val{m, tm.IntV(tm.Byte, 6)}})
		}
		if sib && left > cost && step != 1 && step != 2 {
			next.V = []int8{1}
			add(7, list(tm.List, tm.IntV(tm.Byte, 1)))
		}
		if r.P(1, 3) {
			next.N = int32(left)
			add(8, tm.IntV(tm.I32, int64(left)))
		}
		cur, m, left = next, nm, left-cost
	}
	return reflect.ValueOf(cur).Elem(), m
}

// limits: values that nest exactly to the limit still work, one level more is
// refused, and breadth is no depth.
func limits(c *core.Ctx) {
	c.Cases("limit", c.N(80, 480), func(k *core.K) {
		kind := k.I % 8
		n := maxLevels - core.Pick(k.R, 0, 0, 0, 1, 2, k.R.Intn(9000))
		v, m := chain(k.R, n, kind)
		t := v.Type()
		k.Note("type %v, %d levels, kind %d", t, n, kind)
		for _, p := range mon.Two {
			b := marshal(k, p, v)
			want := p.Enc(nil, m)
			if !bytes.Equal(b, want) {
				k.Fail("%s: wrong bytes for %d levels: %s", p.Name, n, diff(b, want))
			}
			in := append(encRef(k.R, p, nil, m), sentinel[:]...)
			got := reflect.New(t)
			rd := p.P.NewReader(bytes.NewReader(in))
			if err := thrift.Unmarshal(rd, got.Interface()); err != nil {
				k.Fail("%s: Unmarshal of a %v nested %d levels: %v", p.Name, t, n, err)
			}
			expectEnd(k, p.Name, rd)
			if again := marshal(k, p, got.Elem()); !bytes.Equal(again, want) {
				k.Fail("%s: round trip of %d levels changed the value: %s", p.Name, n, diff(again, want))
			}
			rd = p.P.NewReader(bytes.NewReader(in))
			if err := thriftwire.Skip(rd, thriftwire.Type(m.T)); err != nil {
				k.Fail("%s: Skip of %d levels: %v", p.Name, n, err)
			}
			expectEnd(k, p.Name, rd)
			k.Count("limit_round_trips", 1)
		}
		k.Max("levels", int64(n))
		k.Hit(string(mon.Binary.Enc(nil, m)))
	})
	c.Cases("over", c.N(40, 240), func(k *core.K) {
		kind := k.I % 8
		n := maxLevels + 1 + core.Pick(k.R, 0, 0, 0, 1, 2, k.R.Intn(3000))
		v, m := chain(k.R, n, kind)
		k.Note("type %v, %d levels, kind %d", v.Type(), n, kind)
		for _, p := range mon.Two {
			want := p.Enc(nil, m)
			got := reflect.New(v.Type())
			r := p.P.NewReader(bytes.NewReader(append(encRef(k.R, p, nil, m), sentinel[:]...)))
			if err := thrift.Unmarshal(r, got.Interface()); err == nil {
				expectEnd(k, p.Name, r)
				if b := p.Enc(nil, gg.Model(got.Elem(), gg.Describe(v.Type()))); !bytes.Equal(b, want) {
					k.Fail("%s: %d levels are decoded to something else, without an error: %s", p.Name, n, diff(b, want))
				}
			}
			if err := thrift.Marshal(p.P.NewWriter(io.Discard), arg(k.R, v)); err == nil {
				k.Fail("%s: Marshal of %d levels returned nil", p.Name, n)
			}
			k.Count("over_rejected", 1)
		}
		k.Hit(string(rune(kind)) + string(rune(n)))
	})
	c.Cases("wide", 4*4*2, func(k *core.K) {
		p := mon.Two[k.I%2]
		n := []int{9999, 10001, 20002, 70000}[k.I/2%4]
		x := &Chain{}
		switch k.I / 8 {
		case 0:
			x.L = make([]Chain, n)
			for i := range x.L {
				x.L[i].V = []int8{1}
			}
		case 1:
			for i := 0; i < n; i++ {
				x.F = append(x.F, Forest{{}, {{}}})
			}
		case 2:
			x.T = make(thrift.Set[Chain], n)
		case 3:
			x.M = map[int8]Chain{}
			for i := 0; i < 250; i++ {
				x.M[int8(i)] = Chain{T: make(thrift.Set[Chain], n/250)}
			}
		}
		goSize(k, p, reflect.ValueOf(x).Elem())
		// As an unknown field.
		var hold struct {
			X Chain `thrift:"100"`
			N int32 `thrift:"2"`
		}
		m := tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: gg.Model(reflect.ValueOf(x).Elem(), gg.Describe(rt[Chain]()))}, {ID: 2, V: tm.IntV(tm.I32, 77)}}}
		rd := p.P.NewReader(bytes.NewReader(append(p.Enc(nil, m), sentinel[:]...)))
		if err := thrift.Unmarshal(rd, &hold); err != nil || hold.N != 77 {
			k.Fail("%s: Unmarshal over an unknown field with %d containers: N=%d, %v", p.Name, n, hold.N, err)
		}
		expectEnd(k, p.Name, rd)
		k.Max("siblings", int64(n))
		k.Hit(p.Name + string(rune(k.I)))
	})
}
