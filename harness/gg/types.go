package gg

import (
	"fmt"
	"reflect"

	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// GenType returns a random supported Go type.
func GenType(r *core.Rand) reflect.Type {
	if r.P(1, 3) {
		return Registry[r.Intn(len(Registry))]
	}
	return genType(r, r.Intn(4))
}

// GenStructType returns a random struct type.
func GenStructType(r *core.Rand) reflect.Type { return genStruct(r, 1+r.Intn(3)) }

func genType(r *core.Rand, depth int) reflect.Type {
	if depth <= 0 {
		if r.P(1, 6) {
			return Registry[r.Intn(len(Registry))]
		}
		return Leaves[r.Intn(len(Leaves))]
	}
	switch r.Intn(10) {
	case 0, 1:
		return reflect.SliceOf(genType(r, depth-1))
	case 2, 3:
		return reflect.MapOf(genKey(r, depth-1), genType(r, depth-1))
	case 4:
		return reflect.PointerTo(genType(r, depth-1))
	case 5:
		return Registry[r.Intn(len(Registry))]
	case 6:
		return Leaves[r.Intn(len(Leaves))]
	}
	return genStruct(r, depth)
}

var keyLeaves = []reflect.Type{
	typ[bool](), typ[int8](), typ[uint8](), typ[int16](), typ[uint16](), typ[int32](), typ[uint32](), typ[int64](), typ[uint64](),
	typ[float32](), typ[float64](), typ[string](), typ[string](), typ[string](), typ[[16]byte](), typ[B8](), typ[I32T](), typ[StrT](),
	typ[Inner](), typ[InnerReq](), typ[Empty](), typ[NestKey](), typ[*string](), typ[*Inner](), typ[*[]int32](),
}

// NestKey is a comparable struct with all kinds of fields.
type NestKey struct {
	A InnerReq `thrift:"1,required"`
	B Inner    `thrift:"2"`
	C bool     `thrift:"18"`
	D [16]byte `thrift:"19"`
	E float32  `thrift:"-1"`
	F *Inner   `thrift:"3"`
}

func genKey(r *core.Rand, depth int) reflect.Type { return keyLeaves[r.Intn(len(keyLeaves))] }

// ID is an edge-biased field id.
func ID(r *core.Rand) int16 {
	switch r.Intn(4) {
	case 0:
		return []int16{0, 1, -1, 14, 15, 16, 17, 30, 31, 127, 128, 63, 64, -64, -65, 8191, 8192, 32766, 32767, -32768, -32767}[r.Intn(21)]
	case 1:
		return int16(r.Uint64())
	}
	return int16(r.Intn(50)) + 1
}

func genStruct(r *core.Rand, depth int) reflect.Type {
	n := r.Intn(7)
	if r.P(1, 10) {
		n = 16 + r.Intn(6)
	}
	many := r.P(1, 80)
	if many { // as many as bit sets and bytes can count, and more
		n = []int{31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300}[r.Intn(14)]
	}
	var fs []reflect.StructField
	ids := map[int16]bool{}
	next := int16(0)
	mode := r.Intn(3) // consecutive, gaps, random
	for i := 0; i < n; i++ {
		var id int16
		switch mode {
		case 0:
			next++
			id = next
		case 1:
			next += []int16{1, 2, 14, 15, 16, 17}[r.Intn(6)]
			id = next
		default:
			id = ID(r)
		}
		if ids[id] {
			continue
		}
		ids[id] = true
		tag := fmt.Sprint(id)
		switch r.Intn(8) {
		case 0, 1, 2:
			tag += ",required"
		case 3:
			tag += ",other"
		}
		var ft reflect.Type
		if many {
			ft = Leaves[r.Intn(len(Leaves))]
		} else {
			ft = genType(r, depth-1)
		}
		fs = append(fs, reflect.StructField{
			Name: fmt.Sprintf("F%d", i),
			Type: ft,
			Tag:  reflect.StructTag(fmt.Sprintf(`thrift:"%s"`, tag)),
		})
		if r.P(1, 20) {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Ignored%d", i), Type: typ[func()](), Tag: `thrift:"-"`})
		}
		if r.P(1, 20) {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("hidden%d", i), PkgPath: "x/y", Type: typ[int]()})
		}
	}
	p := r.Perm(len(fs))
	out := make([]reflect.StructField, len(fs))
	for i, j := range p {
		out[i] = fs[j]
	}
	// An exported field must remain: a struct whose only fields are unexported
	// is rejected.
	ok := len(out) == 0
	for _, f := range out {
		if f.PkgPath == "" {
			ok = true
		}
	}
	if !ok {
		out = nil
	}
	return reflect.StructOf(out)
}

// RandVal is a random thrift value of type t, not tied to a Go type.
func RandVal(r *core.Rand, t tm.Type, depth int) tm.Val {
	n := 60
	if depth >= 2 && (t == tm.Struct || t == tm.List || t == tm.Map || t == tm.Set) && r.P(1, 60) {
		return Deep(r, t, 2+r.Intn(core.Pick(r, 10, 70, 200)))
	}
	if t == tm.String && r.P(1, 150) {
		return tm.Val{T: t, S: Str(r, HugeLen(r))}
	}
	return randVal(r, t, depth, &n)
}

// HugeLen is a length beyond all small buffers, often close to a power of two.
func HugeLen(r *core.Rand) int {
	return core.Pick(r, 1<<15, 1<<16, 1<<16, 1<<17, 1<<18, 100000, 3<<16) + r.Intn(5) - 2
}

// Deep is a value that nests n levels deep and has something before and after
// the nested value at every level.
func Deep(r *core.Rand, t tm.Type, n int) tm.Val {
	kinds := core.Pick(r, []tm.Type{tm.Struct}, []tm.Type{tm.List}, []tm.Type{tm.Struct, tm.Struct, tm.List}, []tm.Type{tm.Struct, tm.Map, tm.Set, tm.List}, []tm.Type{tm.Struct, tm.Map})
	ids := core.Pick(r, 1, 1, 2, 40)
	v := randLeaf(r)
	for i := 0; i < n; i++ {
		k := kinds[r.Intn(len(kinds))]
		if i == n-1 {
			k = t
		}
		switch k {
		case tm.Struct:
			s := tm.Val{T: tm.Struct}
			id := func() int16 {
				if ids == 40 {
					return ID(r)
				}
				return int16(1 + r.Intn(ids))
			}
			if r.P(1, 3) {
				s.Fs = append(s.Fs, tm.Field{ID: id(), V: randLeaf(r)})
			}
			s.Fs = append(s.Fs, tm.Field{ID: id(), V: v})
			for r.P(1, 2) {
				s.Fs = append(s.Fs, tm.Field{ID: id(), V: randLeaf(r)})
			}
			v = s
		case tm.Map:
			key := randLeaf(r)
			v = tm.Val{T: tm.Map, K: key.T, E: v.T, L: []tm.Val{key, v}}
		default:
			l := tm.Val{T: k, E: v.T, L: []tm.Val{v}}
			if r.P(1, 4) && v.T == tm.Struct {
				l.L = append(l.L, tm.Val{T: tm.Struct, Fs: []tm.Field{{ID: 1, V: randLeaf(r)}}})
			}
			v = l
		}
	}
	return v
}

func randLeaf(r *core.Rand) tm.Val {
	n := 1
	return randVal(r, RandType(r, 0), 0, &n)
}

// RandType is a random value type.
func RandType(r *core.Rand, depth int) tm.Type {
	if depth <= 0 {
		return tm.Scalars[r.Intn(len(tm.Scalars))]
	}
	return tm.Types[r.Intn(len(tm.Types))]
}

func randVal(r *core.Rand, t tm.Type, depth int, budget *int) tm.Val {
	*budget--
	v := tm.Val{T: t}
	cnt := func(leaf bool) int {
		if *budget <= 0 {
			return 0
		}
		if leaf && r.P(1, 15) {
			n := Len(r, 300)
			if n > 40 {
				if *budget < 30 {
					return r.Intn(3)
				}
				*budget += n - 20
			}
			return n
		}
		if r.P(1, 20) {
			return 13 + r.Intn(5)
		}
		return r.Intn(4)
	}
	switch t {
	case tm.Bool:
		v.I = int64(r.Intn(2))
	case tm.Byte:
		v.I = int64(uint8(Int(r)))
	case tm.I16:
		v.I = int64(int16(Int(r)))
	case tm.I32:
		v.I = int64(int32(Int(r)))
	case tm.I64:
		v.I = Int(r)
	case tm.Double:
		v = tm.DoubleV(Float(r))
	case tm.String:
		v.S = Str(r, Len(r, 40))
		if r.P(1, 30) && *budget > 30 {
			v.S = Str(r, Len(r, 20000))
			*budget -= 30
		}
	case tm.UUID:
		copy(v.U[:], r.Bytes(16))
	case tm.Struct:
		n := cnt(false)
		if depth <= 0 {
			n = r.Intn(3)
		}
		for i := 0; i < n; i++ {
			ft := RandType(r, depth-1)
			v.Fs = append(v.Fs, tm.Field{ID: ID(r), V: randVal(r, ft, depth-1, budget)})
		}
	case tm.Map:
		v.K, v.E = RandType(r, depth-1), RandType(r, depth-1)
		for i, n := 0, cnt(isLeaf(v.K) && isLeaf(v.E)); i < n; i++ {
			v.L = append(v.L, randVal(r, v.K, depth-1, budget), randVal(r, v.E, depth-1, budget))
		}
	case tm.Set, tm.List:
		v.E = RandType(r, depth-1)
		for i, n := 0, cnt(isLeaf(v.E)); i < n; i++ {
			v.L = append(v.L, randVal(r, v.E, depth-1, budget))
		}
	}
	return v
}

func isLeaf(t tm.Type) bool {
	return t != tm.Struct && t != tm.Map && t != tm.Set && t != tm.List
}

// Inject returns v (the model of a value of type d) with unknown fields added
// and, if permute is set, fields reordered, at every nesting level.
func Inject(r *core.Rand, v tm.Val, d *Desc, permute bool) (tm.Val, int) {
	n := 0
	return inject(r, v, d, permute, &n), n
}

func inject(r *core.Rand, v tm.Val, d *Desc, permute bool, n *int) tm.Val {
	d = d.Base()
	switch v.T {
	case tm.List, tm.Set:
		l := make([]tm.Val, len(v.L))
		for i, e := range v.L {
			l[i] = inject(r, e, d.Elem, permute, n)
		}
		v.L = l
	case tm.Map:
		l := make([]tm.Val, len(v.L))
		for i, e := range v.L {
			if i%2 == 0 {
				l[i] = inject(r, e, d.Key, permute, n)
			} else {
				l[i] = inject(r, e, d.Elem, permute, n)
			}
		}
		v.L = l
	case tm.Struct:
		var fs []tm.Field
		extra := func() {
			for *n < 40 && r.P(1, 3) {
				id := ID(r)
				if d.FieldByID(id) != nil {
					continue
				}
				depth := r.Intn(4)
				fs = append(fs, tm.Field{ID: id, V: RandVal(r, RandType(r, depth), depth)})
				*n++
			}
		}
		extra()
		for _, f := range v.Fs {
			fs = append(fs, tm.Field{ID: f.ID, V: inject(r, f.V, d.FieldByID(f.ID).D, permute, n)})
			extra()
		}
		if permute {
			p := r.Perm(len(fs))
			out := make([]tm.Field, len(fs))
			for i, j := range p {
				out[i] = fs[j]
			}
			fs = out
		}
		v.Fs = fs
	}
	return v
}
