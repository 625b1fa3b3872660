package gg

import (
	"reflect"

	"github.com/itstarsun/go-thrift/thrift"
	other "github.com/itstarsun/go-thrift/xverif/other/gg"
)

// Different types of one name: declared in different functions or packages,
// and instances of generic types with them.

type same[T any] struct {
	V T   `thrift:"1"`
	L []T `thrift:"2"`
}

func same0() []reflect.Type {
	type Rec struct {
		A int32  `thrift:"1"`
		B string `thrift:"2"`
	}
	return sameTypes[Rec]()
}

func same1() []reflect.Type {
	type Rec struct {
		B string `thrift:"1,required"`
		C []Rec  `thrift:"3"`
	}
	return sameTypes[Rec]()
}

func same2() []reflect.Type {
	type Rec []byte
	return sameTypes[Rec]()
}

func same3() []reflect.Type {
	type Rec map[string]Rec
	return sameTypes[Rec]()
}

func same4() []reflect.Type {
	type Rec = int64
	type R2 Rec
	return sameTypes[R2]()
}

func same5() []reflect.Type {
	type R2 struct {
		Z ZV  `thrift:"9"`
		P *R2 `thrift:"10"`
	}
	return sameTypes[R2]()
}

func sameTypes[T any]() []reflect.Type {
	return []reflect.Type{typ[T](), typ[[]T](), typ[thrift.Set[T]](), typ[map[int32]T](), typ[same[T]](), typ[*T]()}
}

// SameNames are the types that share a name with another.
var SameNames = func() (out []reflect.Type) {
	for _, f := range []func() []reflect.Type{same0, same1, same2, same3, same4, same5} {
		out = append(out, f()...)
	}
	return append(out,
		typ[other.Inner](), typ[other.Empty](), typ[other.Tree](), typ[other.MyI8](), typ[other.Zeros](), typ[other.L32](),
		typ[[]other.Inner](), typ[thrift.Set[other.Inner]](), typ[thrift.List[other.Tree]](), typ[same[other.Inner]](), typ[same[Inner]](),
		typ[same[other.L32]](), typ[same[L32]]())
}()

// SameBad are types that share the name of one of SameNames, but have
// malformed tags.
var SameBad = []reflect.Type{bad0(), bad1(), bad2(), bad3()}

func bad0() reflect.Type {
	type Rec struct {
		A int32 `thrift:"1"`
		B int32 `thrift:"1"`
	}
	return typ[Rec]()
}

func bad1() reflect.Type {
	type Rec struct {
		A int32
	}
	return typ[Rec]()
}

func bad2() reflect.Type {
	type R2 struct {
		A int32 `thrift:"1,Required"`
	}
	return typ[R2]()
}

func bad3() reflect.Type {
	type R2 struct {
		a int32 `thrift:"1"`
	}
	return typ[R2]()
}
