// Package tm is an independent model of Thrift values with reference encoders
// and decoders for the binary and compact protocols, written from the Apache
// specifications. Nothing here uses code from /repo.
package tm

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Type is a type code of the Thrift binary protocol (TType).
type Type byte

const (
	Stop   Type = 0
	Bool   Type = 2
	Byte   Type = 3
	Double Type = 4
	I16    Type = 6
	I32    Type = 8
	I64    Type = 10
	String Type = 11
	Struct Type = 12
	Map    Type = 13
	Set    Type = 14
	List   Type = 15
	UUID   Type = 16
)

// Types are all value types.
var Types = []Type{Bool, Byte, Double, I16, I32, I64, String, Struct, Map, Set, List, UUID}

// Scalars are the types without nested values.
var Scalars = []Type{Bool, Byte, Double, I16, I32, I64, String, UUID}

func (t Type) Valid() bool {
	for _, u := range Types {
		if t == u {
			return true
		}
	}
	return false
}

var typeNames = map[Type]string{Stop: "stop", Bool: "bool", Byte: "byte", Double: "double", I16: "i16", I32: "i32", I64: "i64", String: "string", Struct: "struct", Map: "map", Set: "set", List: "list", UUID: "uuid"}

func (t Type) String() string {
	if s, ok := typeNames[t]; ok {
		return s
	}
	return fmt.Sprintf("type%d", byte(t))
}

// Val is a Thrift value.
type Val struct {
	T    Type
	I    int64  // Bool (0, 1), Byte (0..255), I16, I32, I64
	F    uint64 // Double bits
	S    []byte // String
	U    [16]byte
	Fs   []Field // Struct, in wire order
	K, E Type    // Map key and value; Set and List element in E
	L    []Val   // elements; Map: key, value, key, value...
}

type Field struct {
	ID int16
	V  Val
}

// Msg is a message header.
type Msg struct {
	Name []byte
	Type byte
	ID   int32
}

func BoolV(b bool) Val {
	if b {
		return Val{T: Bool, I: 1}
	}
	return Val{T: Bool}
}
func IntV(t Type, i int64) Val { return Val{T: t, I: i} }
func DoubleV(f float64) Val    { return Val{T: Double, F: math.Float64bits(f)} }
func StringV(s string) Val     { return Val{T: String, S: []byte(s)} }
func (v Val) Size() int {
	if v.T == Map {
		return len(v.L) / 2
	}
	return len(v.L)
}

// Render gives a text form that is equal exactly for equal values. With sortMaps,
// maps are compared as multisets of pairs.
func (v Val) Render(sortMaps bool) string {
	var sb strings.Builder
	v.render(&sb, sortMaps)
	return sb.String()
}

func (v Val) render(sb *strings.Builder, sm bool) {
	switch v.T {
	case Bool, Byte, I16, I32, I64:
		fmt.Fprintf(sb, "%v:%d", v.T, v.I)
	case Double:
		fmt.Fprintf(sb, "d:%016x", v.F)
	case String:
		sb.WriteString("s:")
		sb.WriteString(hex.EncodeToString(v.S))
	case UUID:
		fmt.Fprintf(sb, "u:%x", v.U[:])
	case Struct:
		sb.WriteString("{")
		for _, f := range v.Fs {
			fmt.Fprintf(sb, "%d=", f.ID)
			f.V.render(sb, sm)
			sb.WriteString(",")
		}
		sb.WriteString("}")
	case List, Set:
		fmt.Fprintf(sb, "%v<", v.T)
		if len(v.L) > 0 {
			fmt.Fprintf(sb, "%v:", v.E)
		}
		for _, e := range v.L {
			e.render(sb, sm)
			sb.WriteString(",")
		}
		sb.WriteString(">")
	case Map:
		sb.WriteString("map<")
		if len(v.L) > 0 {
			fmt.Fprintf(sb, "%v-%v:", v.K, v.E)
		}
		var ps []string
		for i := 0; i+1 < len(v.L); i += 2 {
			var b strings.Builder
			v.L[i].render(&b, sm)
			b.WriteString("=>")
			v.L[i+1].render(&b, sm)
			ps = append(ps, b.String())
		}
		if sm {
			sort.Strings(ps)
		}
		sb.WriteString(strings.Join(ps, ","))
		sb.WriteString(">")
	default:
		fmt.Fprintf(sb, "?%d", v.T)
	}
}

// ---- binary protocol ----

func be16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func be32(b []byte, v uint32) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func be64(b []byte, v uint64) []byte { return be32(be32(b, uint32(v>>32)), uint32(v)) }

// EncBinary appends the binary protocol encoding of v.
func EncBinary(b []byte, v Val) []byte {
	switch v.T {
	case Bool, Byte:
		return append(b, byte(v.I))
	case I16:
		return be16(b, uint16(v.I))
	case I32:
		return be32(b, uint32(v.I))
	case I64:
		return be64(b, uint64(v.I))
	case Double:
		return be64(b, v.F)
	case String:
		return append(be32(b, uint32(len(v.S))), v.S...)
	case UUID:
		return append(b, v.U[:]...)
	case Struct:
		for _, f := range v.Fs {
			b = append(b, byte(f.V.T))
			b = be16(b, uint16(f.ID))
			b = EncBinary(b, f.V)
		}
		return append(b, 0)
	}
	b = EncBinaryHeader(b, v, v.Size())
	for _, e := range v.L {
		b = EncBinary(b, e)
	}
	return b
}

// EncBinaryHeader appends the header of a container like v that has n elements.
func EncBinaryHeader(b []byte, v Val, n int) []byte {
	switch v.T {
	case Map:
		b = append(b, byte(v.K), byte(v.E))
	case List, Set:
		b = append(b, byte(v.E))
	default:
		panic("tm: bad type")
	}
	return be32(b, uint32(n))
}

// EncBinaryMsg appends a message header.
func EncBinaryMsg(b []byte, m Msg, strict bool) []byte {
	if strict {
		b = append(b, 0x80, 0x01, 0x00, m.Type)
		b = append(be32(b, uint32(len(m.Name))), m.Name...)
	} else {
		b = append(be32(b, uint32(len(m.Name))), m.Name...)
		b = append(b, m.Type)
	}
	return be32(b, uint32(m.ID))
}

var ErrShort = errors.New("tm: short input")
var ErrBad = errors.New("tm: malformed input")

type dec struct {
	b   []byte
	off int
}

func (d *dec) take(n int) []byte {
	if n < 0 {
		panic(ErrBad)
	}
	if len(d.b)-d.off < n {
		panic(ErrShort)
	}
	x := d.b[d.off : d.off+n]
	d.off += n
	return x
}
func (d *dec) be(n int) (v uint64) {
	for _, c := range d.take(n) {
		v = v<<8 | uint64(c)
	}
	return
}

func guard(err *error) {
	if r := recover(); r != nil {
		e, ok := r.(error)
		if !ok || (e != ErrShort && e != ErrBad) {
			panic(r)
		}
		*err = e
	}
}

// DecBinary decodes one value of type t and returns the bytes consumed.
func DecBinary(b []byte, t Type) (v Val, n int, err error) {
	defer guard(&err)
	d := &dec{b: b}
	v = d.binary(t)
	return v, d.off, nil
}

func (d *dec) binary(t Type) Val {
	v := Val{T: t}
	switch t {
	case Bool:
		v.I = int64(d.be(1))
		if v.I > 1 {
			panic(ErrBad)
		}
	case Byte:
		v.I = int64(d.be(1))
	case I16:
		v.I = int64(int16(d.be(2)))
	case I32:
		v.I = int64(int32(d.be(4)))
	case I64:
		v.I = int64(d.be(8))
	case Double:
		v.F = d.be(8)
	case String:
		v.S = append([]byte{}, d.take(int(int32(d.be(4))))...)
	case UUID:
		copy(v.U[:], d.take(16))
	case Struct:
		for {
			ft := Type(d.be(1))
			if ft == Stop {
				break
			}
			id := int16(d.be(2))
			v.Fs = append(v.Fs, Field{id, d.binary(ft)})
		}
	case Map:
		v.K = Type(d.be(1))
		v.E = Type(d.be(1))
		n := int(int32(d.be(4)))
		if n < 0 {
			panic(ErrBad)
		}
		for i := 0; i < n; i++ {
			v.L = append(v.L, d.binary(v.K))
			v.L = append(v.L, d.binary(v.E))
		}
	case List, Set:
		v.E = Type(d.be(1))
		n := int(int32(d.be(4)))
		if n < 0 {
			panic(ErrBad)
		}
		for i := 0; i < n; i++ {
			v.L = append(v.L, d.binary(v.E))
		}
	default:
		panic(ErrBad)
	}
	return v
}

// DecBinaryMsg decodes a message header of either form.
func DecBinaryMsg(b []byte) (m Msg, strict bool, n int, err error) {
	defer guard(&err)
	d := &dec{b: b}
	w := uint32(d.be(4))
	if w&0x80000000 != 0 {
		if w>>16 != 0x8001 {
			panic(ErrBad)
		}
		strict = true
		m.Type = byte(w)
		m.Name = append([]byte{}, d.take(int(int32(d.be(4))))...)
	} else {
		m.Name = append([]byte{}, d.take(int(w))...)
		m.Type = byte(d.be(1))
	}
	m.ID = int32(d.be(4))
	return m, strict, d.off, nil
}

// ---- compact protocol ----

// compact type codes
var compactCode = map[Type]byte{Bool: 2, Byte: 3, I16: 4, I32: 5, I64: 6, Double: 7, String: 8, List: 9, Set: 10, Map: 11, Struct: 12, UUID: 13}
var compactType = map[byte]Type{1: Bool, 2: Bool, 3: Byte, 4: I16, 5: I32, 6: I64, 7: Double, 8: String, 9: List, 10: Set, 11: Map, 12: Struct, 13: UUID}

// CompactCode returns the container element code of t.
func CompactCode(t Type) byte { return compactCode[t] }

// Alt chooses among the encodings the compact specification allows a writer
// to use; the zero Alt is the canonical one.
type Alt struct {
	LongField func() bool // use the long field header although the delta fits
	LongList  func() bool // use the long list header although the size fits
	BoolOne   func() bool // element type code 1 instead of 2 for booleans
}

func yes(f func() bool) bool { return f != nil && f() }

func Uvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// Zigzag appends a signed varint.
func Zigzag(b []byte, v int64) []byte {
	return Uvarint(b, uint64(v)<<1^uint64(v>>63))
}

// EncCompact appends the compact protocol encoding of v as a stand-alone value.
func EncCompact(b []byte, v Val, alt Alt) []byte {
	switch v.T {
	case Bool:
		if v.I != 0 {
			return append(b, 1)
		}
		return append(b, 0)
	case Byte:
		return append(b, byte(v.I))
	case I16, I32, I64:
		return Zigzag(b, v.I)
	case Double:
		for i := 0; i < 8; i++ {
			b = append(b, byte(v.F>>(8*i)))
		}
		return b
	case String:
		return append(Uvarint(b, uint64(len(v.S))), v.S...)
	case UUID:
		return append(b, v.U[:]...)
	case Struct:
		last := int64(0)
		for _, f := range v.Fs {
			code := compactCode[f.V.T]
			if f.V.T == Bool && f.V.I != 0 {
				code = 1
			}
			d := int64(f.ID) - last
			if d >= 1 && d <= 15 && !yes(alt.LongField) {
				b = append(b, byte(d)<<4|code)
			} else {
				b = append(b, code)
				b = Zigzag(b, int64(f.ID))
			}
			last = int64(f.ID)
			if f.V.T != Bool {
				b = EncCompact(b, f.V, alt)
			}
		}
		return append(b, 0)
	}
	b = EncCompactHeader(b, v, v.Size(), alt)
	for _, e := range v.L {
		b = EncCompact(b, e, alt)
	}
	return b
}

// EncCompactHeader appends the header of a container like v that has n elements.
func EncCompactHeader(b []byte, v Val, n int, alt Alt) []byte {
	switch v.T {
	case Map:
		if n == 0 {
			return append(b, 0)
		}
		b = Uvarint(b, uint64(n))
		return append(b, alt.code(v.K)<<4|alt.code(v.E))
	case List, Set:
		if n < 15 && !yes(alt.LongList) {
			return append(b, byte(n)<<4|alt.code(v.E))
		}
		b = append(b, 0xf0|alt.code(v.E))
		return Uvarint(b, uint64(n))
	}
	panic("tm: bad type")
}

func (a Alt) code(t Type) byte {
	if t == Bool && yes(a.BoolOne) {
		return 1
	}
	return compactCode[t]
}

// EncCompactMsg appends a message header.
func EncCompactMsg(b []byte, m Msg) []byte {
	b = append(b, 0x82, 1|m.Type<<5)
	b = Uvarint(b, uint64(uint32(m.ID)))
	return append(Uvarint(b, uint64(len(m.Name))), m.Name...)
}

func (d *dec) uvarint() (v uint64) {
	for i := 0; ; i++ {
		c := d.be(1)
		if i == 9 && c > 1 {
			panic(ErrBad)
		}
		v |= c & 0x7f << (7 * i)
		if c&0x80 == 0 {
			return v
		}
	}
}

func (d *dec) zigzag() int64 {
	u := d.uvarint()
	return int64(u>>1) ^ -int64(u&1)
}

func (d *dec) size() int {
	u := d.uvarint()
	if u > math.MaxInt32 {
		panic(ErrBad)
	}
	return int(u)
}

// DecCompact decodes one stand-alone value of type t.
func DecCompact(b []byte, t Type) (v Val, n int, err error) {
	defer guard(&err)
	d := &dec{b: b}
	v = d.compact(t)
	return v, d.off, nil
}

func (d *dec) compactElem(code byte) Type {
	t, ok := compactType[code]
	if !ok {
		panic(ErrBad)
	}
	return t
}

func (d *dec) compact(t Type) Val {
	v := Val{T: t}
	switch t {
	case Bool:
		v.I = int64(d.be(1))
		if v.I > 1 {
			panic(ErrBad)
		}
	case Byte:
		v.I = int64(d.be(1))
	case I16, I32, I64:
		v.I = d.zigzag()
		if t == I16 && int64(int16(v.I)) != v.I || t == I32 && int64(int32(v.I)) != v.I {
			panic(ErrBad)
		}
	case Double:
		for i := 0; i < 8; i++ {
			v.F |= d.be(1) << (8 * i)
		}
	case String:
		v.S = append([]byte{}, d.take(d.size())...)
	case UUID:
		copy(v.U[:], d.take(16))
	case Struct:
		last := int64(0)
		for {
			c := byte(d.be(1))
			if c&15 == 0 {
				if c != 0 {
					panic(ErrBad)
				}
				break
			}
			ft := d.compactElem(c & 15)
			var id int64
			if c>>4 != 0 {
				id = last + int64(c>>4)
			} else {
				id = d.zigzag()
			}
			if id != int64(int16(id)) {
				panic(ErrBad)
			}
			last = id
			var fv Val
			if ft == Bool {
				fv = BoolV(c&15 == 1)
			} else {
				fv = d.compact(ft)
			}
			v.Fs = append(v.Fs, Field{int16(id), fv})
		}
	case Map:
		n := d.size()
		if n == 0 {
			break
		}
		kv := byte(d.be(1))
		v.K, v.E = d.compactElem(kv>>4), d.compactElem(kv&15)
		for i := 0; i < n; i++ {
			v.L = append(v.L, d.compact(v.K))
			v.L = append(v.L, d.compact(v.E))
		}
	case List, Set:
		h := byte(d.be(1))
		v.E = d.compactElem(h & 15)
		n := int(h >> 4)
		if n == 15 {
			n = d.size()
		}
		for i := 0; i < n; i++ {
			v.L = append(v.L, d.compact(v.E))
		}
	default:
		panic(ErrBad)
	}
	return v
}

// DecCompactMsg decodes a message header.
func DecCompactMsg(b []byte) (m Msg, n int, err error) {
	defer guard(&err)
	d := &dec{b: b}
	if d.be(1) != 0x82 {
		panic(ErrBad)
	}
	c := byte(d.be(1))
	if c&0x1f != 1 {
		panic(ErrBad)
	}
	m.Type = c >> 5
	u := d.uvarint()
	if u > math.MaxUint32 {
		panic(ErrBad)
	}
	m.ID = int32(uint32(u))
	m.Name = append([]byte{}, d.take(d.size())...)
	return m, d.off, nil
}
