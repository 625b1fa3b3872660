package gg

import (
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// Model is the thrift value Marshal has to produce for v.
func Model(v reflect.Value, d *Desc) tm.Val {
	if d.Ptr {
		if v.IsNil() {
			return Model(reflect.Zero(d.Elem.T), d.Elem)
		}
		return Model(v.Elem(), d.Elem)
	}
	m := tm.Val{T: d.W}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			m.I = 1
		}
	case reflect.Int8:
		m.I = int64(uint8(v.Int()))
	case reflect.Int16, reflect.Int32, reflect.Int64:
		m.I = v.Int()
	case reflect.Uint8:
		m.I = int64(v.Uint())
	case reflect.Uint16:
		m.I = int64(int16(v.Uint()))
	case reflect.Uint32:
		m.I = int64(int32(v.Uint()))
	case reflect.Uint64:
		m.I = int64(v.Uint())
	case reflect.Float32, reflect.Float64:
		m.F = math.Float64bits(v.Float())
	case reflect.String:
		m.S = []byte(v.String())
	case reflect.Array:
		reflect.Copy(reflect.ValueOf(m.U[:]), v)
	case reflect.Slice:
		if d.W == tm.String {
			m.S = append([]byte{}, v.Bytes()...)
			break
		}
		m.E = d.Elem.W
		for i := 0; i < v.Len(); i++ {
			m.L = append(m.L, Model(v.Index(i), d.Elem))
		}
	case reflect.Map:
		m.K, m.E = d.Key.W, d.Elem.W
		for it := v.MapRange(); it.Next(); {
			m.L = append(m.L, Model(it.Key(), d.Key), Model(it.Value(), d.Elem))
		}
	case reflect.Struct:
		for i := range d.Fields {
			f := &d.Fields[i]
			fv := v.Field(f.Index)
			if f.Dropped(fv) {
				continue
			}
			m.Fs = append(m.Fs, tm.Field{ID: f.ID, V: Model(fv, f.D)})
		}
	default:
		panic("gg: unsupported kind " + v.Kind().String())
	}
	return m
}

// Canon is a text that is the same for two values exactly if a round trip may
// turn one into the other (see property C01).
func Canon(v reflect.Value, d *Desc) string {
	var sb strings.Builder
	canon(&sb, v, d)
	return sb.String()
}

func canon(sb *strings.Builder, v reflect.Value, d *Desc) {
	if d.Ptr {
		if v.IsNil() {
			canon(sb, reflect.Zero(d.Elem.T), d.Elem)
			return
		}
		canon(sb, v.Elem(), d.Elem)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%d", v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(sb, "%d", v.Uint())
	case reflect.Float32:
		f := v.Float()
		if f != f {
			sb.WriteString("NaN32")
			break
		}
		fmt.Fprintf(sb, "f%016x", math.Float64bits(f))
	case reflect.Float64:
		fmt.Fprintf(sb, "f%016x", math.Float64bits(v.Float()))
	case reflect.String:
		sb.WriteString("s")
		sb.WriteString(hex.EncodeToString([]byte(v.String())))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fmt.Fprintf(sb, "%02x", v.Index(i).Uint())
		}
	case reflect.Slice:
		if d.W == tm.String {
			sb.WriteString("b")
			sb.WriteString(hex.EncodeToString(v.Bytes()))
			break
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canon(sb, v.Index(i), d.Elem)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Map:
		var ps []string
		for it := v.MapRange(); it.Next(); {
			ps = append(ps, Canon(it.Key(), d.Key)+"=>"+Canon(it.Value(), d.Elem))
		}
		sort.Strings(ps)
		sb.WriteString("map[")
		sb.WriteString(strings.Join(ps, " "))
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString("{")
		for i := range d.Fields {
			f := &d.Fields[i]
			fv := v.Field(f.Index)
			if f.Dropped(fv) {
				fv = reflect.Zero(f.D.T)
			}
			fmt.Fprintf(sb, "%d:", f.ID)
			if f.D.Ptr && !f.Required {
				if fv.IsNil() {
					sb.WriteString("nil,")
					continue
				}
				sb.WriteString("&")
			}
			if fv.Kind() == reflect.Struct && !f.Required {
				// A struct of empty containers and negative zeros may
				// come back as the zero struct, which is left out.
				s := Canon(fv, f.D)
				if strings.Contains(s, "f8000000000000000") {
					if z := Canon(reflect.Zero(f.D.T), f.D); strings.ReplaceAll(s, "f8000000000000000", "f0000000000000000") == z {
						s = z
					}
				}
				sb.WriteString(s)
			} else {
				canon(sb, fv, f.D)
			}
			sb.WriteString(",")
		}
		sb.WriteString("}")
	default:
		panic("gg: unsupported kind " + v.Kind().String())
	}
}

// Opts bounds generation.
type Opts struct {
	Depth    int // maximum nesting depth
	Size     int // rough budget of leaves
	BigBytes int // bound of rare long strings (0: none)
	BigLens  bool
	NoNaNKey bool
}

var DefaultOpts = Opts{Depth: 5, Size: 120, BigBytes: 9000, BigLens: true}

type gen struct {
	r *core.Rand
	o Opts
	n int // leaves left
}

// GenValue returns an addressable random value of the type.
func GenValue(r *core.Rand, d *Desc, o Opts) reflect.Value {
	g := &gen{r: r, o: o, n: o.Size}
	v := reflect.New(d.T).Elem()
	g.value(v, d, 0, false)
	return v
}

var edgeInts = []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, -8192, -8193, 32767, -32768, 65535, 1 << 20, 1<<31 - 1, -1 << 31, 1 << 31, 1<<35 - 1, 1 << 35, 1 << 42, 1 << 49, 1<<56 - 1, 1 << 62, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

var edgeFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.Pi, math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e-310}

// Int is an edge-biased integer.
func Int(r *core.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return edgeInts[r.Intn(len(edgeInts))]
	case 1:
		return int64(r.Intn(40)) - 8
	case 2:
		return int64(r.Uint64()) >> r.Intn(64)
	}
	return int64(r.Uint64())
}

// Float is an edge-biased float; any bit pattern can occur.
func Float(r *core.Rand) float64 {
	switch r.Intn(3) {
	case 0:
		return edgeFloats[r.Intn(len(edgeFloats))]
	case 1:
		return float64(Int(r))
	}
	return math.Float64frombits(r.Uint64())
}

// Len is an edge-biased length up to about max.
func Len(r *core.Rand, max int) int {
	edges := []int{0, 1, 2, 3, 7, 13, 14, 15, 16, 17, 31, 63, 64, 126, 127, 128, 129, 255, 256, 300, 1000, 4080, 4088, 4094, 4095, 4096, 4097, 4100, 5000, 8192, 8193, 16383, 16384, 20000}
	var n int
	if r.P(2, 3) {
		n = r.Intn(6)
	} else {
		n = edges[r.Intn(len(edges))]
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

// Str is a random byte string.
func Str(r *core.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		for i := range b {
			b[i] = byte('a' + i%26)
		}
	case 1:
		b = r.Bytes(n)
	default:
		s := []byte("héllo, wörld — \x00\xff\xfe日本語")
		for i := range b {
			b[i] = s[i%len(s)]
		}
	}
	return b
}

func (g *gen) strLen() int {
	if g.o.BigBytes > 100000 && g.r.P(1, 8) {
		g.o.BigBytes = 300
		return HugeLen(g.r)
	}
	if g.o.BigBytes > 300 && g.r.P(1, 25) {
		n := Len(g.r, g.o.BigBytes)
		if n > 300 {
			// only a few long strings per value
			if g.n < g.o.Size/4 {
				return g.r.Intn(20)
			}
			g.n -= g.o.Size / 6
		}
		return n
	}
	return Len(g.r, 20)
}

func (g *gen) value(v reflect.Value, d *Desc, depth int, key bool) {
	g.n--
	r := g.r
	if d.Ptr {
		stop := depth >= g.o.Depth || g.n < 0
		if (stop && !key) || r.P(1, 4) {
			return // nil
		}
		v.Set(reflect.New(d.Elem.T))
		g.value(v.Elem(), d.Elem, depth, key)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(truncInt(Int(r), v.Type().Bits()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(Int(r)) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Float32, reflect.Float64:
		f := Float(r)
		if key && f != f && g.o.NoNaNKey {
			f = 2
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(string(Str(r, g.strLen())))
	case reflect.Array:
		reflect.Copy(v, reflect.ValueOf(r.Bytes(v.Len())))
		if r.P(1, 4) {
			v.SetZero()
		}
	case reflect.Slice:
		if r.P(1, 6) {
			return
		}
		if d.W == tm.String {
			b := Str(r, g.strLen())
			v.SetBytes(b)
			return
		}
		n := g.count(d.Elem, depth)
		s := reflect.MakeSlice(d.T, n, n+r.Intn(3))
		for i := 0; i < n; i++ {
			g.value(s.Index(i), d.Elem, depth+1, false)
		}
		v.Set(s)
	case reflect.Map:
		if r.P(1, 6) {
			return
		}
		n := g.count(d.Elem, depth)
		m := reflect.MakeMap(d.T)
		for i := 0; i < n; i++ {
			k := reflect.New(d.Key.T).Elem()
			g.value(k, d.Key, depth+1, true)
			e := reflect.New(d.Elem.T).Elem()
			g.value(e, d.Elem, depth+1, false)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		sparse := r.P(1, 3)
		for i := range d.Fields {
			f := &d.Fields[i]
			if (sparse && r.P(2, 3)) || (depth >= g.o.Depth && !f.Required) {
				continue
			}
			g.value(v.Field(f.Index), f.D, depth+1, key)
		}
	default:
		panic("gg: cannot generate " + v.Type().String())
	}
}

func truncInt(i int64, bits int) int64 { return i << (64 - bits) >> (64 - bits) }

func (g *gen) count(e *Desc, depth int) int {
	if depth >= g.o.Depth || g.n <= 0 {
		return 0
	}
	b := e.Base()
	leaf := b.W != tm.Struct && b.W != tm.Map && b.W != tm.List && b.W != tm.Set
	if leaf && g.o.BigLens && g.r.P(1, 12) {
		n := Len(g.r, 5000)
		if n > 40 {
			if g.n < g.o.Size/2 {
				return g.r.Intn(5)
			}
			g.n += n
		}
		return n
	}
	if g.o.BigLens && g.r.P(1, 15) {
		return []int{13, 14, 15, 16, 17}[g.r.Intn(5)]
	}
	return g.r.Intn(5)
}
