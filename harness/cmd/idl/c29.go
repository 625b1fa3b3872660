package main

import (
	"fmt"
	gotoken "go/token"
	"reflect"
	"runtime"
	"unsafe"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/idl"
	"github.com/itstarsun/go-thrift/xverif/mon"
)

// c29: parsed documents, trees and errors are given up.
func c29(c *core.Ctx) {
	text := func(r *core.Rand, n int) []byte {
		src := idl.Layout(r, idl.Gen(r, 1+r.Intn(n)).Toks, r.Bool())
		switch r.Intn(4) {
		case 0:
			src = src[:r.Intn(len(src)+1)]
		case 1:
			if len(src) > 0 {
				src[r.Intn(len(src))] = "{}();,\"#\x00x\xff"[r.Intn(11)]
			}
		}
		return src
	}
	c.Cases("parsed", c.N(400, 6000), func(k *core.K) {
		fset := fileSet(k.R)
		var live mon.Live
		for i := 0; i < 20; i++ {
			var src []byte
			for len(src) < 16 {
				src = append(text(k.R, 60), " /* */ "...)
			}
			mon.Apart(func() {
				src := append([]byte{}, src...)
				f, err := tf.Parse(fset, fmt.Sprintf("%d.thrift", i), src)
				if f == nil {
					return
				}
				live.Add("the source", unsafe.Pointer(&src[0]))
				live.AddValue("the tree", reflect.ValueOf(f), false)
				if err != nil {
					live.AddValue("the error", reflect.ValueOf(err), false)
				}
			})
		}
		if kept := live.Kept(); len(kept) > 0 {
			k.Fail("%d of %d allocations of parsed documents stay in memory after they were dropped: %s, ...", len(kept), live.Len(), kept[0])
		}
		k.Count("allocations_given_up", live.Len())
		k.Hit(fmt.Sprint(k.I))
		runtime.KeepAlive(fset)
	})
	c.Cases("growth", c.N(24, 240), func(k *core.K) {
		var docs [][]byte
		for i := 0; i < 20; i++ {
			docs = append(docs, text(k.R, 12))
		}
		n := 0
		run := func() {
			mon.Apart(func() {
				for i := 0; i < 500; i++ {
					n++
					src := fmt.Appendf(nil, "struct N%d { 1: i32 f%d (a%d = \"%d\") }\n%s", n, n, n, n, docs[n%len(docs)])
					_, err := tf.Parse(gotoken.NewFileSet(), "f.thrift", src)
					if err != nil {
						_ = err.Error()
					}
				}
			})
		}
		run()
		gs := runtime.NumGoroutine()
		o0, b0 := mon.Heap()
		for i := 0; i < 4; i++ {
			run()
		}
		o1, b1 := mon.Heap()
		if o1-o0 > 250 || b1-b0 > 64<<10 {
			k.Fail("2000 parsed documents leave %d allocations, %d bytes", o1-o0, b1-b0)
		}
		for i := 0; i < 1000 && runtime.NumGoroutine() > gs; i++ {
			runtime.Gosched()
		}
		if g := runtime.NumGoroutine(); g > gs {
			k.Fail("%d goroutines more than before", g-gs)
		}
		k.Max("kept_allocations", o1-o0)
		k.Max("kept_bytes", b1-b0)
		k.Count("rounds", 2500)
		k.Hit(fmt.Sprint(k.I))
	})
}
