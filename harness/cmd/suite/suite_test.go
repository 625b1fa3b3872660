package main

import (
	"os"
	"testing"

	"github.com/itstarsun/go-thrift/xverif/core"
)

var args = os.Args

func TestMain(m *testing.M) {
	os.Args = args[:1]
	m.Run() // its failures are those of the broken protocols
	os.Exit(0)
}

func TestSuite(t *testing.T) {
	current = t
	os.Args = args
	core.Main(map[string]func(*core.Ctx){"C24": c24})
}
