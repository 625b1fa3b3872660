package main

import (
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/mon"
)

// warm gives every other process a history before its first case: thousands
// of types (structs, lists, maps, pointers) have been used, and thousands of
// Readers and Writers made, so that what a long-running program would see (a
// full cache, a counter that wraps) is seen here.
func warm(f func(*core.Ctx)) func(*core.Ctx) {
	return func(c *core.Ctx) {
		if c.Shard%2 == 1 || c.Shards == 1 && c.Case >= 0 && c.Case%2 == 1 {
			warmUp()
			c.Res.Counters["processes with a history"]++
		}
		f(c)
	}
}

func warmUp() {
	prev := reflect.TypeOf(int32(0))
	for i := 0; i < 1500; i++ {
		if i%8 == 0 {
			prev = reflect.TypeOf(int32(0))
		}
		t := reflect.StructOf([]reflect.StructField{
			{Name: fmt.Sprintf("L%d", i), Type: reflect.SliceOf(prev), Tag: `thrift:"1"`},
			{Name: "M", Type: reflect.MapOf(reflect.TypeOf(""), prev), Tag: `thrift:"2"`},
			{Name: "P", Type: reflect.PointerTo(prev), Tag: `thrift:"3"`},
		})
		v := reflect.New(t)
		e := v.Elem()
		e.Field(0).Set(reflect.MakeSlice(e.Field(0).Type(), 1, 1))
		e.Field(1).Set(reflect.MakeMap(e.Field(1).Type()))
		e.Field(1).SetMapIndex(reflect.ValueOf("k"), reflect.Zero(prev))
		e.Field(2).Set(reflect.New(prev))
		pr := mon.Protos[i%len(mon.Protos)].P
		pipe := &pipeBuf{}
		w := pr.NewWriter(pipe)
		_ = thrift.Marshal(w, v.Interface())
		_ = w.Flush()
		_ = thrift.Unmarshal(pr.NewReader(pipe), v.Interface())
		prev = t
	}
	// One Writer and one Reader with a long life.
	p := thriftbinary.Protocol
	pipe := &pipeBuf{}
	w, r := p.NewWriter(pipe), p.NewReader(pipe)
	for i := 0; i < 70000; i++ {
		_ = w.WriteMessageBegin(thriftwire.MessageHeader{Name: "m", ID: int32(i)})
		_ = w.WriteMessageEnd()
		if i%1000 == 0 {
			_ = w.Flush()
			for {
				if _, err := r.ReadMessageBegin(); err != nil {
					break
				}
				_ = r.ReadMessageEnd()
			}
			w.Reset(pipe)
			r.Reset(pipe)
		}
	}
}

type pipeBuf struct{ b []byte }

func (p *pipeBuf) Write(b []byte) (int, error) { p.b = append(p.b, b...); return len(b), nil }
func (p *pipeBuf) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.b)
	p.b = p.b[n:]
	return n, nil
}
