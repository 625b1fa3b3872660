// Package gg declares types of the names of others in the other package gg.
package gg

import "github.com/itstarsun/go-thrift/thrift"

type (
	Inner struct {
		B string            `thrift:"1"`
		C map[string][]bool `thrift:"7,required"`
	}
	Empty struct {
		A int64 `thrift:"-3"`
	}
	Tree  map[int32]Tree
	MyI8  string
	Zeros []thrift.Set[Inner]
	L32   struct {
		L []int64 `thrift:"5"`
	}
)
