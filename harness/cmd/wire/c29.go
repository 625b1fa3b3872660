package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// thing is a stream of which one can tell whether it is still referred to.
type thing struct {
	r   io.Reader
	n   int64 // bytes it takes
	err error
	pad [4]*int
}

func (t *thing) Read(b []byte) (int, error) {
	n, err := t.r.Read(b)
	if err == io.EOF && t.err != nil {
		err = t.err
	}
	return n, err
}

func (t *thing) Write(b []byte) (int, error) {
	if t.n -= int64(len(b)); t.n < 0 {
		return 0, t.err
	}
	return len(b), nil
}

// damage is b whole, cut or with a bit changed.
func damage(r *core.Rand, b []byte) []byte {
	switch r.Intn(4) {
	case 0:
		return b[:r.Intn(len(b)+1)]
	case 1:
		b = append([]byte{}, b...)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	}
	return b
}

func c29(c *core.Ctx) {
	c.Cases("retained", c.N(600, 9000), func(k *core.K) {
		p := mon.Protos[k.R.Intn(len(mon.Protos))]
		rd, wr := p.P.NewReader(bytes.NewReader(nil)), p.P.NewWriter(io.Discard)
		var live mon.Live
		var fail any
		for i := 0; i < 40; i++ {
			t := typeFor(k)
			if k.R.Bool() {
				t = structTypeFor(k)
			}
			d := gg.Describe(t)
			mon.Apart(func() {
				defer func() { fail = recover() }()
				once(k, p, d, rd, wr, &live)
			})
			if fail != nil {
				panic(fail)
			}
		}
		if kept := live.Kept(); len(kept) > 0 {
			k.Fail("%s: %d of %d allocations stay in memory after everything was dropped or reset: %s, ...", p.Name, len(kept), live.Len(), kept[0])
		}
		k.Count("allocations_given_up", live.Len())
		k.Hit(fmt.Sprint(k.I))
		runtime.KeepAlive(rd)
		runtime.KeepAlive(wr)
	})
	c.Cases("growth", c.N(32, 320), func(k *core.K) { growth(k) })
	c.Cases("large", c.N(48, 480), func(k *core.K) {
		p := mon.Protos[k.R.Intn(len(mon.Protos))]
		rd, wr := p.P.NewReader(bytes.NewReader(nil)), p.P.NewWriter(io.Discard)
		_, before := mon.Heap()
		for i := 0; i < 3; i++ {
			mon.Apart(func() {
				n := 1 << (20 + k.R.Intn(5))
				var v any = string(make([]byte, n))
				switch k.R.Intn(4) {
				case 0:
					v = make([]byte, n)
				case 1:
					v = make([]int64, n/16)
				case 2:
					m := map[int32]string{}
					for len(m) < n/256 {
						m[int32(len(m))] = "some string"
					}
					v = m
				}
				var b bytes.Buffer
				wr.Reset(&b)
				if err := thrift.Marshal(wr, v); err != nil {
					k.Fail("Marshal: %v", err)
				}
				if err := wr.Flush(); err != nil {
					k.Fail("Flush: %v", err)
				}
				in := b.Bytes()
				if k.R.Bool() {
					in = in[:len(in)-1-k.R.Intn(100)]
				}
				rd.Reset(bytes.NewReader(in))
				_ = thrift.Unmarshal(rd, reflect.New(reflect.TypeOf(v)).Interface())
				wr.Reset(nil)
				rd.Reset(nil)
			})
		}
		_, after := mon.Heap()
		if after-before > 4<<20 {
			k.Fail("%s: after large messages a Reader and a Writer that were Reset keep %d bytes", p.Name, after-before)
		}
		k.Max("kept_bytes_large", after-before)
		k.Hit(fmt.Sprint(k.I))
		runtime.KeepAlive(rd)
		runtime.KeepAlive(wr)
	})
}

// once does one thing, good or bad, and leaves rd and wr to other streams.
func once(k *core.K, p mon.Proto, d *gg.Desc, rd thriftwire.Reader, wr thriftwire.Writer, live *mon.Live) {
	r := k.R
	name := fmt.Sprintf("%s: ", p.Name)
	boxed := func(s io.Reader) *thing {
		t := &thing{r: s, n: 1 << 40}
		if r.P(1, 3) {
			t.err = errors.New("stream failure")
		}
		return t
	}
	after := func(s *thing) {
		live.Add(name+"the stream", unsafe.Pointer(s))
		switch r.Intn(3) {
		case 0:
			rd.Reset(nil)
			wr.Reset(nil)
		case 1:
			rd.Reset(bytes.NewReader(nil))
			wr.Reset(io.Discard)
		default:
			rd.Reset(small)
			wr.Reset(io.Discard)
		}
	}
	switch r.Intn(5) {
	case 0, 1: // Marshal
		name += fmt.Sprintf("Marshal of a %v", d.T)
		v := valueFor(k, d)
		live.AddValue(name, v.Addr(), false)
		s := boxed(nil)
		if r.Bool() {
			s.n, s.err = int64(r.Intn(6000)), errors.New("stream failure")
		}
		wr.Reset(s)
		for i := 1 + r.Intn(4); i > 0; i-- {
			_ = thrift.Marshal(wr, arg(r, v))
		}
		if r.Bool() {
			_ = wr.Flush()
		}
		after(s)
	case 2, 3: // Unmarshal
		name += fmt.Sprintf("Unmarshal into a %v", d.T)
		m := gg.Model(valueFor(k, d), d)
		if r.Bool() {
			m, _ = gg.Inject(r, m, d, true)
		}
		in := damage(r, encRef(r, p, nil, m))
		s := boxed(bytes.NewReader(in))
		rd.Reset(s)
		dst := freshFor(k, d)
		live.AddValue(name+", before", dst.Addr(), false)
		_ = thrift.Unmarshal(rd, dst.Addr().Interface())
		live.AddValue(name+", after", dst.Addr(), true)
		if len(in) >= 16 {
			live.Add(name+": the input", unsafe.Pointer(&in[0]))
		}
		after(s)
	default: // wire calls
		name += "wire calls"
		t := tm.Types[r.Intn(len(tm.Types))]
		s := boxed(bytes.NewReader(damage(r, encRef(r, p, nil, gg.RandVal(r, t, 3)))))
		rd.Reset(s)
		if r.Bool() {
			_ = thriftwire.Skip(rd, thriftwire.Type(t))
		} else {
			_, _ = mon.ReadVal(rd, t, r)
		}
		s2 := boxed(nil)
		wr.Reset(s2)
		_ = wr.WriteMessageBegin(header(randMsg(r)))
		_ = mon.WriteVal(wr, gg.RandVal(r, t, 3), r)
		live.Add(name+": the sink", unsafe.Pointer(s2))
		after(s)
	}
}

var small = bytes.NewReader([]byte{1, 2, 3})

// growth does the same kinds of things again and again, with ever new
// contents, and compares the heaps.
func growth(k *core.K) {
	r := k.R
	type job struct {
		d *gg.Desc
		v reflect.Value
		b [4][]byte
	}
	var jobs []job
	for len(jobs) < 12 {
		t := typeFor(k)
		if r.Bool() {
			t = structTypeFor(k)
		}
		d := gg.Describe(t)
		j := job{d: d, v: gg.GenValue(r, d, gg.DefaultOpts)}
		m := gg.Model(j.v, d)
		if r.Bool() {
			m, _ = gg.Inject(r, m, d, true)
		}
		for i := range mon.Protos {
			j.b[i%len(j.b)] = encRef(r, mon.Protos[i], nil, m)
		}
		jobs = append(jobs, j)
	}
	pi := r.Intn(len(mon.Protos))
	p := mon.Protos[pi]
	rd, wr := p.P.NewReader(bytes.NewReader(nil)), p.P.NewWriter(io.Discard)
	fresh := r.Bool() // Readers and Writers, too
	noReset := r.P(1, 3)
	var names [][]byte
	for i := 0; i < 16; i++ {
		names = append(names, gg.Str(r, 24+r.Intn(20)))
	}
	src := bytes.NewReader(nil)
	var mb bytes.Buffer
	wm := p.P.NewWriter(&mb)
	type msg struct {
		A int32  `thrift:"1"`
		S string `thrift:"2"`
	}
	n := 0
	step := func() {
		n++
		j := &jobs[n%len(jobs)]
		if fresh {
			rd, wr = p.P.NewReader(src), p.P.NewWriter(io.Discard)
		}
		_ = thrift.Marshal(wr, j.v.Addr().Interface())
		if n%3 == 0 {
			_ = thrift.Marshal(&mon.WMon{FailAt: 1 + n%7, Err: io.ErrClosedPipe}, j.v.Addr().Interface())
		}
		if n%5 == 0 {
			_ = wr.WriteStructBegin(thriftwire.StructHeader{})
			_ = wr.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.List, ID: int16(n)})
		}
		name := names[n%len(names)]
		name[n%16], name[16] = byte(n>>8), byte(n>>16)
		_ = wr.WriteMessageBegin(thriftwire.MessageHeader{Name: string(name), Type: thriftwire.Call, ID: int32(n)})
		_ = wr.WriteMessageEnd()
		_ = thrift.Marshal(wr, &msg{A: int32(n), S: string(name)})
		_ = wr.Flush()
		if n%5 == 0 || !noReset {
			wr.Reset(io.Discard)
		}
		if fresh {
			wm = p.P.NewWriter(&mb)
		}
		mb.Reset()
		wm.Reset(&mb)
		h := thriftwire.MessageHeader{Name: string(name), Type: thriftwire.Call, ID: int32(n)}
		_ = wm.WriteMessageBegin(h)
		_ = thrift.Marshal(wm, &msg{A: int32(n), S: string(name)})
		_ = wm.Flush()
		src.Reset(mb.Bytes())
		rd.Reset(src)
		var got msg
		if g, err := rd.ReadMessageBegin(); err != nil || g.Name != h.Name {
			k.Fail("%s: ReadMessageBegin: %q, %v, want %q", p.Name, g.Name, err, h.Name)
		}
		if n%7 == 0 {
			_ = thriftwire.Skip(rd, thriftwire.Struct)
		} else if err := thrift.Unmarshal(rd, &got); err != nil || got.S != h.Name {
			k.Fail("%s: Unmarshal: %v, %v", p.Name, got, err)
		}
		in := j.b[pi%len(j.b)]
		if n%4 == 1 {
			in = in[:n%(len(in)+1)]
		}
		src.Reset(in)
		rd.Reset(src)
		_ = thrift.Unmarshal(rd, reflect.New(j.d.T).Interface())
		src.Reset(in)
		rd.Reset(src)
		_ = thriftwire.Skip(rd, thriftwire.Type(j.d.W))
		if n%3 == 1 {
			_ = thrift.Unmarshal(rd, nil)
			_ = thriftwire.Skip(rd, thriftwire.Type(n))
		}
	}
	const per = 3000
	run := func() {
		mon.Apart(func() {
			for i := 0; i < per; i++ {
				step()
			}
		})
	}
	run()
	run()
	gs := runtime.NumGoroutine()
	o0, b0 := mon.Heap()
	for i := 0; i < 4; i++ {
		run()
	}
	o1, b1 := mon.Heap()
	if o1-o0 > per/5 || b1-b0 > per*20 {
		k.Fail("%s: %d rounds leave %d allocations, %d bytes", p.Name, 4*per, o1-o0, b1-b0)
	}
	for i := 0; i < 1000 && runtime.NumGoroutine() > gs; i++ {
		runtime.Gosched()
	}
	if g := runtime.NumGoroutine(); g > gs {
		k.Fail("%s: %d goroutines more than before", p.Name, g-gs)
	}
	k.Max("kept_allocations", o1-o0)
	k.Max("kept_bytes", b1-b0)
	k.Count("rounds", 6*per)
	k.Hit(fmt.Sprint(k.I))
	runtime.KeepAlive(rd)
	runtime.KeepAlive(wr)
	runtime.KeepAlive(wm)
}
