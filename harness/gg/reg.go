// Package gg generates Go types and values, and maps them independently of
// the code under test to the thrift model in package tm.
package gg

import (
	"reflect"

	"github.com/itstarsun/go-thrift/thrift"
)

type (
	B8   bool
	MyI8 int8
	I16T int16
	I32T int32
	I64T int64
	U8T  uint8
	U16T uint16
	U32T uint32
	U64T uint64
	F32T float32
	F64T float64
	StrT string
	BinT []byte
	// L32 loses nothing: a named slice is a list.
	L32 []int32
	// NamedSet is a plain named slice whose methods are gone: a list.
	NamedSet thrift.Set[int32]
	M1       map[string]int32
	M2       map[I32T]StrT
	ByteList []U8T // not assignable to []byte: a list of bytes
)

type Empty struct{}

type Inner struct {
	A int32  `thrift:"1"`
	B string `thrift:"2"`
}

type InnerReq struct {
	A int32  `thrift:"1,required"`
	B string `thrift:"2,required"`
	C bool   `thrift:"3,required"`
}

type Scalars struct {
	Bool bool     `thrift:"1"`
	I8   int8     `thrift:"2"`
	U8   uint8    `thrift:"3"`
	I16  int16    `thrift:"4"`
	U16  uint16   `thrift:"5"`
	I32  int32    `thrift:"6"`
	U32  uint32   `thrift:"7"`
	I64  int64    `thrift:"8"`
	U64  uint64   `thrift:"9"`
	F32  float32  `thrift:"10"`
	F64  float64  `thrift:"11"`
	Str  string   `thrift:"12"`
	Bin  []byte   `thrift:"13"`
	UUID [16]byte `thrift:"14"`
}

type ScalarsReq struct {
	UUID [16]byte `thrift:"14,required"`
	Bin  []byte   `thrift:"13,required"`
	Str  string   `thrift:"12,required"`
	F64  float64  `thrift:"11,required"`
	F32  float32  `thrift:"10,required"`
	U64  uint64   `thrift:"9,required"`
	I64  int64    `thrift:"8,required"`
	U32  uint32   `thrift:"7,required"`
	I32  int32    `thrift:"6,required"`
	U16  uint16   `thrift:"5,required"`
	I16  int16    `thrift:"4,required"`
	U8   uint8    `thrift:"3,required"`
	I8   int8     `thrift:"2,required"`
	Bool bool     `thrift:"1,required"`
}

type NamedScalars struct {
	Bool B8   `thrift:"1"`
	I8   MyI8 `thrift:"2,required"`
	U8   U8T  `thrift:"3"`
	I16  I16T `thrift:"4,required"`
	U16  U16T `thrift:"5"`
	I32  I32T `thrift:"6,required"`
	U32  U32T `thrift:"7"`
	I64  I64T `thrift:"8,required"`
	U64  U64T `thrift:"9"`
	F32  F32T `thrift:"10,required"`
	F64  F64T `thrift:"11"`
	Str  StrT `thrift:"12,required"`
	Bin  BinT `thrift:"13"`
}

type Pointers struct {
	Bool *bool     `thrift:"1"`
	I8   *int8     `thrift:"2"`
	I16  *int16    `thrift:"3"`
	I32  *int32    `thrift:"4"`
	I64  *int64    `thrift:"5"`
	F64  *float64  `thrift:"6"`
	Str  *string   `thrift:"7"`
	Bin  *[]byte   `thrift:"8"`
	UUID *[16]byte `thrift:"9"`
	In   *Inner    `thrift:"10"`
	L    *[]int32  `thrift:"11"`
	M    *M1       `thrift:"12"`
	PP   **int32   `thrift:"13"`
	PI   **Inner   `thrift:"14"`
}

type PointersReq struct {
	Bool *bool     `thrift:"1,required"`
	I32  *int32    `thrift:"-4,required"`
	Str  *string   `thrift:"7,required"`
	Bin  *[]byte   `thrift:"8,required"`
	UUID *[16]byte `thrift:"9,required"`
	In   *Inner    `thrift:"10,required"`
	L    *[]int32  `thrift:"11,required"`
	M    *M1       `thrift:"12,required"`
	PP   **int32   `thrift:"13,required"`
	PI   **Inner   `thrift:"14,required"`
}

type Containers struct {
	L   []int32                    `thrift:"1"`
	S   thrift.Set[string]         `thrift:"2"`
	M   map[string]int64           `thrift:"3"`
	LL  [][]bool                   `thrift:"4"`
	ML  map[int32][]string         `thrift:"5"`
	LM  []map[string]bool          `thrift:"6"`
	SS  thrift.Set[Inner]          `thrift:"7"`
	MS  map[Inner]Inner            `thrift:"8"`
	LP  []*Inner                   `thrift:"9"`
	MP  map[string]*Inner          `thrift:"10"`
	EL  thrift.List[float64]       `thrift:"11"`
	LB  [][]byte                   `thrift:"12"`
	LU  [][16]byte                 `thrift:"13"`
	MU  map[[16]byte]uint64        `thrift:"14"`
	MB  map[bool]bool              `thrift:"15"`
	LE  []Empty                    `thrift:"16"`
	MM  map[int8]map[string]string `thrift:"17"`
	BL  ByteList                   `thrift:"18"`
	LPP []**int16                  `thrift:"19"`
}

type ContainersReq struct {
	L  []int32            `thrift:"1,required"`
	S  thrift.Set[string] `thrift:"2,required"`
	M  map[string]int64   `thrift:"3,required"`
	LL [][]bool           `thrift:"4,required"`
	LP []*Inner           `thrift:"9,required"`
	MB map[bool]bool      `thrift:"15,required"`
}

// Boundary ids, out of order.
type Ids struct {
	Max   int32 `thrift:"32767,required"`
	Min   bool  `thrift:"-32768,required"`
	Zero  bool  `thrift:"0"`
	One   int64 `thrift:"1"`
	N1    bool  `thrift:"-1,required"`
	D15   int8  `thrift:"16"`
	D16   bool  `thrift:"32"`
	D17   bool  `thrift:"47,required"`
	D30   int16 `thrift:"63"`
	Plus  bool  `thrift:"+100"`
	Lead0 int32 `thrift:"00101"`
}

type Bools struct {
	A bool   `thrift:"1,required"`
	B bool   `thrift:"2"`
	C bool   `thrift:"20,required"`
	D *bool  `thrift:"21"`
	E []bool `thrift:"22"`
	F *struct {
		X bool `thrift:"1,required"`
		Y bool `thrift:"30,required"`
	} `thrift:"23"`
	G bool            `thrift:"24,required"`
	H map[string]bool `thrift:"25"`
	I bool            `thrift:"26,required"`
}

// Nested structs with field ids around the inner ones.
type Nest struct {
	A int8  `thrift:"1,required"`
	B Nest2 `thrift:"2,required"`
	C int8  `thrift:"3,required"`
	D Nest2 `thrift:"4"`
	E bool  `thrift:"19,required"`
}
type Nest2 struct {
	A bool    `thrift:"14,required"`
	B []Nest3 `thrift:"15"`
	C Nest3   `thrift:"16,required"`
	D bool    `thrift:"31"`
}
type Nest3 struct {
	X bool  `thrift:"-1,required"`
	Y int16 `thrift:"14"`
	Z Empty `thrift:"15,required"`
}

// Skipped fields.
type Skipped struct {
	A      int32 `thrift:"1"`
	Secret chan int
	B      string `thrift:"2"`
	hidden int
	C      func() `thrift:"-"`
	D      bool   `thrift:"3,required"`
}

func init() { _ = Skipped{}.hidden }

type SkippedOK struct {
	A      int32  `thrift:"1"`
	C      func() `thrift:"-"`
	hidden int
	B      string   `thrift:"2"`
	Chan   chan int `thrift:"-"`
	D      bool     `thrift:"3,required"`
	E      int      `json:"e" thrift:"-"`
}

func init() { _ = SkippedOK{}.hidden }

type AllIgnored struct {
	A int `thrift:"-"`
	B int `thrift:"-"`
}

type OtherTags struct {
	A int32  `json:"a" thrift:"1,required" xml:"x"`
	B string `thrift:"2,opt,foo9,_bar"`
	C bool   `thrift:"3,été,required"`
}

type EmbedOK struct {
	Inner `thrift:"1"`
	X     int32 `thrift:"2"`
}

type embedded struct{ A int32 }

type EmbedHidden struct {
	embedded
	X int32 `thrift:"2"`
}

// ZeroHook is called by the IsZero methods, if it is set.
var ZeroHook func()

func zeroed() {
	if ZeroHook != nil {
		ZeroHook()
	}
}

// IsZero flavours.
type ZV struct { // value receiver
	N int32 `thrift:"1"`
}

func (z ZV) IsZero() bool { zeroed(); return z.N%3 == 0 }

type ZP struct { // pointer receiver
	N int32 `thrift:"1"`
}

func (z *ZP) IsZero() bool { zeroed(); return z.N%3 == 0 }

type ZInt int32

func (z ZInt) IsZero() bool { zeroed(); return z == 7 }

type ZStr string

func (z *ZStr) IsZero() bool { zeroed(); return *z == "zero" }

type ZSlice []int32

func (z ZSlice) IsZero() bool { zeroed(); return len(z) == 0 }

type ZMap map[string]int32

func (z ZMap) IsZero() bool { zeroed(); return len(z) < 2 }

type ZNever struct {
	N int8 `thrift:"1"`
}

func (ZNever) IsZero() bool { zeroed(); return false }

type Zeros struct {
	V  ZV     `thrift:"1"`
	P  ZP     `thrift:"2"`
	PV *ZV    `thrift:"3"`
	PP *ZP    `thrift:"4"`
	I  ZInt   `thrift:"5"`
	S  ZStr   `thrift:"6"`
	L  ZSlice `thrift:"7"`
	M  ZMap   `thrift:"8"`
	N  ZNever `thrift:"9"`
	RV ZV     `thrift:"10,required"`
	RI ZInt   `thrift:"11,required"`
	RP *ZP    `thrift:"12,required"`
	PS *ZStr  `thrift:"13"`
	LV []ZV   `thrift:"14"`
	PI *ZInt  `thrift:"15"`
}

// Recursive types.
type Tree struct {
	V    int32   `thrift:"1"`
	Kids []*Tree `thrift:"2"`
}
type Node struct {
	V    string `thrift:"1"`
	Next *Node  `thrift:"2"`
}
type Bin2 struct {
	L *Bin2 `thrift:"1"`
	V bool  `thrift:"2,required"`
	R *Bin2 `thrift:"3"`
}
type Forest []Forest
type SetForest thrift.Set[SetForest] // a named slice: list
type Trie map[string]Trie
type TreeV struct {
	Kids []TreeV          `thrift:"1,required"`
	M    map[string]TreeV `thrift:"2"`
	B    bool             `thrift:"3,required"`
}
type Mut1 struct {
	A *Mut2  `thrift:"1"`
	X int64  `thrift:"2"`
	L []Mut2 `thrift:"3"`
}
type Mut2 struct {
	B map[int32]*Mut1 `thrift:"1"`
	Y string          `thrift:"17"`
	Z []Mut1          `thrift:"16"`
}
type RSet struct {
	S thrift.Set[RSet] `thrift:"1"`
	N int16            `thrift:"2"`
}
type PSlice []*PSlice
type PMap map[int32]*PMap
type MixA []map[string]MixA

// Wide has more than 15 fields and mixed order.
type Wide struct {
	F20 int32              `thrift:"20"`
	F1  bool               `thrift:"1"`
	F3  string             `thrift:"3"`
	F2  bool               `thrift:"2"`
	F40 []Inner            `thrift:"40"`
	F39 *Inner             `thrift:"39"`
	F56 thrift.Set[int8]   `thrift:"56"`
	F71 map[string][]byte  `thrift:"71"`
	F87 [16]byte           `thrift:"87"`
	F88 uint64             `thrift:"88"`
	Fm5 float64            `thrift:"-5"`
	F0  float32            `thrift:"0"`
	F9  map[int16]Inner    `thrift:"9"`
	F10 thrift.List[Inner] `thrift:"10"`
}

// Large elements, for growth of slices.
type Big struct {
	A [16]byte `thrift:"1"`
	B [16]byte `thrift:"2"`
	S Scalars  `thrift:"3"`
	T Scalars  `thrift:"4"`
}

type Call struct {
	Method string           `thrift:"1,required"`
	Args   map[string]Inner `thrift:"2"`
	Ex     *Inner           `thrift:"3"`
	Ids    []int64          `thrift:"4"`
	Blob   []byte           `thrift:"5"`
	OneWay bool             `thrift:"6"`
}

func typ[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// Registry is every declared type that Marshal supports.
var Registry = []reflect.Type{
	typ[B8](), typ[MyI8](), typ[I16T](), typ[I32T](), typ[I64T](), typ[U8T](), typ[U16T](), typ[U32T](), typ[U64T](),
	typ[F32T](), typ[F64T](), typ[StrT](), typ[BinT](), typ[L32](), typ[NamedSet](), typ[M1](), typ[M2](), typ[ByteList](),
	typ[Empty](), typ[Inner](), typ[InnerReq](), typ[Scalars](), typ[ScalarsReq](), typ[NamedScalars](),
	typ[Pointers](), typ[PointersReq](), typ[Containers](), typ[ContainersReq](), typ[Ids](), typ[Bools](), typ[Nest](),
	typ[SkippedOK](), typ[AllIgnored](), typ[OtherTags](), typ[EmbedOK](), typ[EmbedHidden](), typ[Zeros](),
	typ[Tree](), typ[Node](), typ[Bin2](), typ[Forest](), typ[SetForest](), typ[Trie](), typ[TreeV](), typ[Mut1](), typ[Mut2](),
	typ[RSet](), typ[PSlice](), typ[PMap](), typ[MixA](), typ[Wide](), typ[Big](), typ[Call](),
	typ[thrift.Set[int32]](), typ[thrift.Set[string]](), typ[thrift.Set[bool]](), typ[thrift.Set[byte]](), typ[thrift.Set[Inner]](),
	typ[thrift.Set[*Inner]](), typ[thrift.Set[[]byte]](), typ[thrift.Set[[16]byte]](), typ[thrift.Set[float64]](),
	typ[thrift.Set[thrift.List[string]]](), typ[thrift.Set[thrift.Set[int64]]](), typ[thrift.Set[map[string]int32]](),
	typ[thrift.List[byte]](), typ[thrift.List[bool]](), typ[thrift.List[Tree]](), typ[thrift.List[thrift.Set[int16]]](),
	typ[thrift.List[*int32]](), typ[thrift.List[Empty]](), typ[thrift.List[map[int32]thrift.Set[string]]](),
	typ[map[string]thrift.Set[Inner]](), typ[map[*string]int32](), typ[map[InnerReq]thrift.List[bool]](),
	typ[[]thrift.Set[uint16]](), typ[***int32](), typ[*[]*string](), typ[map[float64]string](), typ[map[F32T]bool](),
	typ[[]ZV](), typ[map[string]ZP](), typ[[16]byte](), typ[[]byte](), typ[[][]byte](),
}

func init() {
	Registry = append(Registry, SameNames...)
}

// Leaves are the scalar Go types.
var Leaves = []reflect.Type{
	typ[bool](), typ[int8](), typ[uint8](), typ[int16](), typ[uint16](), typ[int32](), typ[uint32](), typ[int64](), typ[uint64](),
	typ[float32](), typ[float64](), typ[string](), typ[[]byte](), typ[[16]byte](), typ[B8](), typ[I32T](), typ[StrT](), typ[BinT](),
}

// RecursiveTypes are the recursive entries of the registry.
var RecursiveTypes = []reflect.Type{
	typ[Tree](), typ[Node](), typ[Bin2](), typ[Forest](), typ[SetForest](), typ[Trie](), typ[TreeV](), typ[Mut1](), typ[Mut2](),
	typ[RSet](), typ[PSlice](), typ[PMap](), typ[MixA](),
}

// Self-recursive through one field only, for deep input.
type SelfL struct {
	L []SelfL `thrift:"1"`
}
type SelfM struct {
	M map[bool]SelfM `thrift:"1"`
}
type SelfS struct {
	S *SelfS `thrift:"1"`
}
