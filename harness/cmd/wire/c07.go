package main

import (
	"fmt"
	"io"
	"reflect"
	"runtime"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// hostile runs f over in and watches memory, reads after the end, and panics
// (through the case runner).
func hostile(k *core.K, what string, in []byte, factor int64, f func(r io.Reader) error) {
	src := &mon.ChunkReader{Data: in}
	k.Note("%s over %s", what, hexs(in))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(mon.TooManyReads); ok {
					k.Fail("%s: kept reading after the input had ended (%d reads)", what, t.N)
				}
				panic(r)
			}
		}()
		return f(src)
	}()
	runtime.ReadMemStats(&m1)
	if err != nil {
		_ = err.Error()
		k.Count("errors", 1)
	} else {
		k.Count("values", 1)
	}
	alloc := int64(m1.TotalAlloc - m0.TotalAlloc)
	bound := int64(1<<20) + int64(len(in))*factor
	if alloc > bound {
		k.Fail("%s: allocated %d bytes for %d bytes of input (bound %d)", what, alloc, len(in), bound)
	}
	if src.AfterEnd > 64 {
		k.Fail("%s: %d reads after the input had ended", what, src.AfterEnd)
	}
	k.Count("inputs", 1)
	k.Count("bytes", len(in))
	k.Max("alloc_bytes", alloc)
	k.Max("reads_after_end", int64(src.AfterEnd))
	k.Max("alloc_permille_of_bound", alloc*1000/bound)
}

// mutate damages a valid encoding.
func mutate(r *core.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(4); n > 0; n-- {
		if len(b) == 0 {
			b = r.Bytes(1 + r.Intn(8))
		}
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[i] ^= 1 << r.Intn(8)
		case 1:
			b[i] = byte(r.Uint64())
		case 2:
			b[i] = []byte{0, 1, 2, 0x7f, 0x80, 0xff, 0xf0, 0x0f, 15, 12}[r.Intn(10)]
		case 3:
			b = b[:i]
		case 4:
			b = append(b[:i:i], append(r.Bytes(1+r.Intn(5)), b[i:]...)...)
		case 5:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 6: // a huge 32-bit length
			x := []uint32{0x7fffffff, 0x7ffffffe, 0x40000000, 0x10000000, 0xffffffff, 0x80000000, 0x00ffffff}[r.Intn(7)]
			for j := 0; j < 4 && i+j < len(b); j++ {
				b[i+j] = byte(x >> (24 - 8*j))
			}
		case 7: // a huge varint
			v := tm.Uvarint(nil, []uint64{1<<31 - 1, 1<<32 - 1, 1 << 40, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1 << 28, 1 << 24}[r.Intn(9)])
			b = append(b[:i:i], append(v, b[i+1:]...)...)
		case 8: // repeat a part
			j := i + r.Intn(len(b)-i)
			b = append(b[:j:j], b[i:]...)
		}
		if len(b) > 200000 {
			b = b[:200000]
		}
	}
	return b
}

type bomb struct {
	name string
	p    mon.Proto
	head []byte
	rep  []byte
	tail []byte
	t    tm.Type
}

// Deep nesting in every combination of containers.
func bombs() []bomb {
	var out []bomb
	for _, p := range mon.Two {
		b := p.Name == "binary"
		one := func(t, k, e tm.Type) []byte { // header of a container with one element of type e
			switch {
			case t == tm.Struct && b:
				return []byte{byte(e), 0, 1}
			case t == tm.Struct:
				return []byte{0x10 | tm.CompactCode(e)}
			case t == tm.Map && b:
				if k != tm.Bool {
					return []byte{byte(k), byte(e), 0, 0, 0, 1}
				}
				return []byte{2, byte(e), 0, 0, 0, 1, 1}
			case t == tm.Map:
				if k != tm.Bool {
					return []byte{1, tm.CompactCode(k)<<4 | tm.CompactCode(e)}
				}
				return []byte{1, 2<<4 | tm.CompactCode(e), 1}
			case b:
				return []byte{byte(e), 0, 0, 0, 1}
			}
			return []byte{0x10 | tm.CompactCode(e)}
		}
		for _, x := range []tm.Type{tm.Struct, tm.List, tm.Set, tm.Map} {
			for _, y := range []tm.Type{tm.Struct, tm.List, tm.Set, tm.Map} {
				// x of y of x of ...
				unit := append(one(x, tm.Bool, y), one(y, tm.Bool, x)...)
				out = append(out, bomb{fmt.Sprintf("%s %v of %v", p.Name, x, y), p, nil, unit, nil, x})
			}
			// maps nested in their keys
			if x != tm.Struct {
				unit := append(one(tm.Map, x, tm.Byte), one(x, tm.Map, tm.Map)...)
				if x == tm.Map {
					unit = one(tm.Map, tm.Map, tm.Byte)
				}
				out = append(out, bomb{fmt.Sprintf("%s map key %v", p.Name, x), p, nil, unit, nil, tm.Map})
			}
		}
	}
	return out
}

var deepTypes = []reflect.Type{
	reflect.TypeOf(gg.Node{}), reflect.TypeOf(gg.Tree{}), reflect.TypeOf(gg.Bin2{}), reflect.TypeOf(gg.Forest{}), reflect.TypeOf(gg.Trie{}),
	reflect.TypeOf(gg.TreeV{}), reflect.TypeOf(gg.Mut1{}), reflect.TypeOf(gg.Mut2{}), reflect.TypeOf(gg.RSet{}), reflect.TypeOf(gg.PSlice{}),
	reflect.TypeOf(gg.PMap{}), reflect.TypeOf(gg.MixA{}), reflect.TypeOf(gg.Empty{}), reflect.TypeOf(gg.SelfL{}), reflect.TypeOf(gg.SelfM{}), reflect.TypeOf(gg.SelfS{}),
}

func factorFor(d *gg.Desc) int64 { return 512 + 24*d.MaxSize() }

func c07(c *core.Ctx) {
	c.Cases("random", c.N(12000, 400000), func(k *core.K) {
		in := k.R.Bytes(gg.Len(k.R, 20000))
		if k.R.Bool() { // low entropy: many valid codes
			for i := range in {
				in[i] = []byte{0, 0, 0, 1, 2, 3, 8, 11, 12, 13, 14, 15, 16, 0x19, 0x1c, 0x18, 0x15, 0xff, 0x80, 0x7f}[in[i]%20]
			}
		}
		hostileAll(k, in)
	})
	c.Cases("mutated", c.N(30000, 800000), func(k *core.K) {
		d := gg.Describe(typeFor(k))
		m := gg.Model(valueFor(k, d), d)
		if k.R.P(1, 3) {
			m, _ = gg.Inject(k.R, m, d, false)
		}
		for _, p := range mon.Two {
			in := mutate(k.R, encRef(k.R, p, nil, m))
			hostile(k, p.Name+" Unmarshal", in, factorFor(d), func(r io.Reader) error {
				return thrift.Unmarshal(p.P.NewReader(r), reflect.New(d.T).Interface())
			})
			hostile(k, p.Name+" Skip", in, 512, func(r io.Reader) error {
				return thriftwire.Skip(p.P.NewReader(r), thriftwire.Type(d.W))
			})
			k.Hit(p.Name + string(in))
		}
		k.Sample("%v mutated", d.T)
	})
	c.Cases("messages", c.N(8000, 200000), func(k *core.K) {
		for _, p := range mon.Protos {
			in := mutate(k.R, p.EncMsg(nil, randMsg(k.R)))
			hostile(k, p.Name+" ReadMessageBegin", in, 512, func(r io.Reader) error {
				_, err := p.P.NewReader(r).ReadMessageBegin()
				return err
			})
			k.Hit(p.Name + string(in))
		}
	})
	// Claims of huge sizes with little or no data behind them.
	c.Cases("claims", c.N(3000, 60000), func(k *core.K) {
		for _, p := range mon.Two {
			d := gg.Describe(typeFor(k))
			v := gg.RandVal(k.R, d.W, 3)
			if k.R.Bool() {
				v = gg.Model(valueFor(k, d), d)
			}
			in := claim(k.R, p, v)
			hostile(k, p.Name+" Unmarshal", in, factorFor(d), func(r io.Reader) error {
				return thrift.Unmarshal(p.P.NewReader(r), reflect.New(d.T).Interface())
			})
			hostile(k, p.Name+" Skip", in, 512, func(r io.Reader) error {
				return thriftwire.Skip(p.P.NewReader(r), thriftwire.Type(d.W))
			})
			k.Hit(p.Name + string(in))
		}
	})
	bs := bombs()
	c.Cases("deep", len(bs), func(k *core.K) {
		b := bs[k.I]
		for _, n := range []int{100, 9000, 20000, 3 << 20} {
			in := append([]byte{}, b.head...)
			for len(in) < n*len(b.rep)/2 {
				in = append(in, b.rep...)
			}
			note := in
			if len(note) > 100 {
				note = note[:100]
			}
			k.Note("%s, %d bytes like %x", b.name, len(in), note)
			// The input alone bounds the memory: no stack growth by nesting is
			// counted in TotalAlloc, but the stack limit of the worker is 160 MB.
			deep(k, "Skip "+b.name, in, func(r io.Reader) error {
				return thriftwire.Skip(b.p.P.NewReader(r), thriftwire.Type(b.t))
			})
			for _, t := range deepTypes {
				if gg.Describe(t).W != b.t {
					continue
				}
				deep(k, fmt.Sprintf("Unmarshal %s into %v", b.name, t), in, func(r io.Reader) error {
					return thrift.Unmarshal(b.p.P.NewReader(r), reflect.New(t).Interface())
				})
			}
			k.Max("nesting", int64(n))
		}
		k.Hit(b.name)
		k.Sample("deep %s, unit %x", b.name, b.rep)
	})
	// The same with random units: several containers, with siblings before the
	// nested one.
	c.Cases("deep-random", c.N(50, 1000), func(k *core.K) {
		p := mon.Two[k.I%2]
		start, units := randomBomb(k.R, p)
		for _, n := range []int{9000, 3 << 20} {
			var in []byte
			if n > 10000 {
				unit := units()
				for len(in) < n {
					in = append(in, unit...)
				}
			} else {
				for len(in) < n {
					in = append(in, units()...)
				}
			}
			note := in
			if len(note) > 100 {
				note = note[:100]
			}
			k.Note("%s %v, %d bytes like %x", p.Name, start, len(in), note)
			deep(k, p.Name+" Skip random", in, func(r io.Reader) error {
				return thriftwire.Skip(p.P.NewReader(r), thriftwire.Type(start))
			})
			// As an unknown field, element and value of a Go value.
			for _, t := range deepTypes {
				d := gg.Describe(t)
				in2, ok := wrapUnknown(k.R, p, d, start, in)
				if !ok {
					continue
				}
				deep(k, fmt.Sprintf("%s Unmarshal random into %v", p.Name, t), in2, func(r io.Reader) error {
					return thrift.Unmarshal(p.P.NewReader(r), reflect.New(t).Interface())
				})
			}
			k.Hit(p.Name + string(note))
		}
	})
	c.Cases("deep-known", 2*len(deepTypes), func(k *core.K) {
		t := deepTypes[k.I/2]
		p := mon.Two[k.I%2]
		d := gg.Describe(t)
		for _, n := range []int{50, 3000, 1 << 20} {
			for variant := 0; variant < 12; variant++ {
				in := deepEncoding(k.R, p, d, n, variant)
				if in == nil {
					continue
				}
				deep(k, fmt.Sprintf("%s Unmarshal into %v, %d levels", p.Name, t, n), in, func(r io.Reader) error {
					return thrift.Unmarshal(p.P.NewReader(r), reflect.New(t).Interface())
				})
				k.Hit(fmt.Sprint(t, p.Name, n, variant))
			}
		}
	})
}

// randomBomb picks a cycle of one to four container types and gives, on every
// call, one turn of it: headers, each followed by finished siblings and then
// the next container as a later field, element, key or value.
func randomBomb(r *core.Rand, p mon.Proto) (tm.Type, func() []byte) {
	cs := []tm.Type{tm.Struct, tm.Map, tm.List, tm.Set}
	cycle := make([]tm.Type, 1+r.Intn(4))
	for i := range cycle {
		cycle[i] = cs[r.Intn(4)]
	}
	asKey := make([]bool, len(cycle))
	for i := range asKey {
		asKey[i] = r.P(1, 3)
	}
	bin := p.Name == "binary"
	code := func(t tm.Type) byte {
		if bin {
			return byte(t)
		}
		return tm.CompactCode(t)
	}
	size := func(b []byte, n int) []byte {
		if bin {
			return append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		return tm.Uvarint(b, uint64(n))
	}
	small := func(t tm.Type) tm.Val {
		for {
			v := gg.RandVal(r, t, r.Intn(2))
			if len(p.Enc(nil, v)) < 20 {
				return v
			}
		}
	}
	return cycle[0], func() []byte {
		var b []byte
		for i, t := range cycle {
			next := cycle[(i+1)%len(cycle)]
			sib := r.Intn(3)
			switch t {
			case tm.Struct:
				for j := 0; j < sib; j++ {
					f := small(tm.Types[r.Intn(len(tm.Types))])
					if f.T == tm.Bool {
						f = small(tm.I32)
					}
					if bin {
						b = append(b, byte(f.T), 0, byte(j+1))
					} else {
						b = append(b, 0x10|code(f.T))
					}
					b = p.Enc(b, f)
				}
				if bin {
					b = append(b, byte(next), 0, byte(sib+1))
				} else {
					b = append(b, 0x10|code(next))
				}
			case tm.List, tm.Set:
				n := sib + 1 + r.Intn(2)
				if bin {
					b = size(append(b, byte(next)), n)
				} else {
					b = append(b, byte(n)<<4|code(next))
				}
				for j := 0; j < sib; j++ {
					b = p.Enc(b, small(next))
				}
			case tm.Map:
				other := tm.Types[r.Intn(len(tm.Types))]
				kt, vt := other, next
				if asKey[i] {
					kt, vt = next, other
				}
				n := sib + 1 + r.Intn(2)
				if bin {
					b = size(append(b, byte(kt), byte(vt)), n)
				} else {
					b = append(size(b, n), code(kt)<<4|code(vt))
				}
				for j := 0; j < sib; j++ {
					b = p.Enc(p.Enc(b, small(kt)), small(vt))
				}
				if !asKey[i] {
					b = p.Enc(b, small(kt))
				}
			}
		}
		return b
	}
}

// wrapUnknown puts an encoding of type t where the Go type d does not know it:
// as an unknown field of a struct.
func wrapUnknown(r *core.Rand, p mon.Proto, d *gg.Desc, t tm.Type, in []byte) ([]byte, bool) {
	if d.Base().W != tm.Struct {
		return nil, false
	}
	id := int16(20000 + r.Intn(1000))
	var b []byte
	if p.Name == "binary" {
		b = append(b, byte(t), byte(uint16(id)>>8), byte(id))
	} else {
		b = tm.Zigzag(append(b, tm.CompactCode(t)), int64(id))
	}
	return append(b, in...), true
}

func deep(k *core.K, what string, in []byte, f func(io.Reader) error) {
	src := &mon.ChunkReader{Data: in}
	err := f(src)
	if err != nil {
		_ = err.Error()
		k.Count("errors", 1)
	} else {
		k.Count("values", 1)
	}
	if src.AfterEnd > 64 {
		k.Fail("%s: %d reads after the input had ended", what, src.AfterEnd)
	}
	k.Count("deep_inputs", 1)
	k.Count("bytes", len(in))
}

// deepEncoding follows recursive fields, elements and values of d downwards n
// times, giving an encoding prefix that stays valid for the type all the way.
func deepEncoding(r *core.Rand, p mon.Proto, d *gg.Desc, n, variant int) []byte {
	var b []byte
	bin := p.Name == "binary"
	sib := variant >> 2 // siblings before the nested value
	for i := 0; i < n; i++ {
		d = d.Base()
		switch d.W {
		case tm.Struct:
			var cand []*gg.FieldDesc
			for j := range d.Fields {
				switch d.Fields[j].D.Base().W {
				case tm.Struct, tm.Map, tm.List, tm.Set:
					cand = append(cand, &d.Fields[j])
				}
			}
			if len(cand) == 0 {
				return nil
			}
			f := cand[(variant+i*(variant&1))%len(cand)]
			for j := 0; j < sib; j++ { // an unknown field first
				if bin {
					b = append(b, byte(tm.List), 0x70, byte(j), byte(tm.Byte), 0, 0, 0, 0)
				} else {
					b = append(tm.Zigzag(append(b, tm.CompactCode(tm.List)), int64(0x7000+j)), 3)
				}
			}
			if bin {
				b = append(b, byte(f.D.W), byte(uint16(f.ID)>>8), byte(f.ID))
			} else {
				b = append(b, tm.CompactCode(f.D.W))
				b = tm.Zigzag(b, int64(f.ID))
			}
			d = f.D
		case tm.List, tm.Set:
			if bin {
				b = append(b, byte(d.Elem.W), 0, 0, 0, byte(1+sib))
			} else {
				b = append(b, byte(1+sib)<<4|tm.CompactCode(d.Elem.W))
			}
			for j := 0; j < sib; j++ {
				b = p.Enc(b, emptyOf(d.Elem))
			}
			d = d.Elem
		case tm.Map:
			key := gg.RandVal(r, d.Key.W, 0)
			if bin {
				b = append(b, byte(d.Key.W), byte(d.Elem.W), 0, 0, 0, byte(1+sib))
			} else {
				b = append(b, byte(1+sib), tm.CompactCode(d.Key.W)<<4|tm.CompactCode(d.Elem.W))
			}
			if len(key.S) > 4 {
				key.S = key.S[:4]
			}
			for j := 0; j < sib; j++ {
				b = p.Enc(p.Enc(b, emptyOf(d.Key)), emptyOf(d.Elem))
			}
			b = p.Enc(b, key)
			d = d.Elem
		default:
			return b
		}
	}
	return b
}

// emptyOf is the shortest value d can hold.
func emptyOf(d *gg.Desc) tm.Val {
	d = d.Base()
	v := tm.Val{T: d.W}
	switch d.W {
	case tm.List, tm.Set:
		v.E = d.Elem.W
	case tm.Map:
		v.K, v.E = d.Key.W, d.Elem.W
	}
	return v
}

// claim encodes v with one size or length replaced by a huge one.
func claim(r *core.Rand, p mon.Proto, v tm.Val) []byte {
	b := p.Enc(nil, v)
	if p.Name == "binary" {
		var at []int
		for i := 0; i+4 <= len(b) && i < 4000; i++ {
			if b[i] == 0 && b[i+1] == 0 && b[i+2] < 2 {
				at = append(at, i)
			}
		}
		x := []uint32{0x7fffffff, 0x7fffffff, 0x60000000, 0x20000000, 1 << 24, 0xffffffff}[r.Intn(6)]
		i := 0
		if len(at) > 0 {
			i = at[r.Intn(len(at))]
		}
		for j := 0; j < 4 && i+j < len(b); j++ {
			b[i+j] = byte(x >> (24 - 8*j))
		}
		return b
	}
	if len(b) == 0 {
		return b
	}
	i := r.Intn(len(b))
	if r.Bool() {
		i = r.Intn(1 + len(b)/8)
	}
	h := tm.Uvarint(nil, []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1 << 24}[r.Intn(9)])
	out := append([]byte{}, b[:i]...)
	if r.Bool() {
		out = append(out, 0xf0|b[i]&15) // long list header
	}
	out = append(out, h...)
	return append(out, b[i+1:]...)
}

func hostileAll(k *core.K, in []byte) {
	for _, p := range mon.Protos {
		t := tm.Types[k.R.Intn(len(tm.Types))]
		hostile(k, fmt.Sprintf("%s Skip %v", p.Name, t), in, 512, func(r io.Reader) error {
			return thriftwire.Skip(p.P.NewReader(r), thriftwire.Type(t))
		})
		d := gg.Describe(gg.GenType(k.R))
		hostile(k, fmt.Sprintf("%s Unmarshal %v", p.Name, d.T), in, factorFor(d), func(r io.Reader) error {
			return thrift.Unmarshal(p.P.NewReader(r), reflect.New(d.T).Interface())
		})
		hostile(k, p.Name+" ReadMessageBegin", in, 512, func(r io.Reader) error {
			_, err := p.P.NewReader(r).ReadMessageBegin()
			return err
		})
		hostile(k, p.Name+" ReadVal", in, 4096, func(r io.Reader) error {
			return readBounded(p.P.NewReader(r), t, 0)
		})
	}
	k.Hit("random" + string(in))
}

// readBounded is a generic reader that stops at the first error.
func readBounded(r thriftwire.Reader, t tm.Type, depth int) error {
	if depth > 2000 {
		return fmt.Errorf("deep")
	}
	switch t {
	case tm.Struct:
		if _, err := r.ReadStructBegin(); err != nil {
			return err
		}
		for {
			h, err := r.ReadFieldBegin()
			if err != nil || h.Type == thriftwire.Stop {
				return err
			}
			if err := readBounded(r, tm.Type(h.Type), depth+1); err != nil {
				return err
			}
		}
	case tm.Map:
		h, err := r.ReadMapBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := readBounded(r, tm.Type(h.Key), depth+1); err != nil {
				return err
			}
			if err := readBounded(r, tm.Type(h.Value), depth+1); err != nil {
				return err
			}
		}
		return nil
	case tm.List, tm.Set:
		h, err := r.ReadListBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := readBounded(r, tm.Type(h.Element), depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	_, err := mon.ReadVal(r, t, nil)
	return err
}
