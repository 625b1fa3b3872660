package main

import (
	"math"

	"github.com/itstarsun/go-thrift/xverif/tm"
)

func floatOf(m tm.Val) float64 { return math.Float64frombits(m.F) }
