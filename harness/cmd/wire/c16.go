package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// outcome of one operation: the error if there is one, otherwise what was read
// or written.
func errText(err error) string {
	if err == nil {
		return "ok"
	}
	s := strings.ReplaceAll(err.Error(), "unable to", "cannot")
	var se *thrift.SemanticError
	if errors.As(err, &se) {
		s = fmt.Sprintf("%s [%v %v]", s, se.ThriftType, se.GoType)
	}
	return s
}

// job is something a goroutine does with its own reader or writer.
type job struct {
	name string
	run  func() string
}

func marshalJob(r *core.Rand, p mon.Proto, v reflect.Value, d *gg.Desc) job {
	in := arg(r, v)
	return job{p.Name + " Marshal", func() string {
		var b bytes.Buffer
		w := p.P.NewWriter(&b)
		if err := thrift.Marshal(w, in); err != nil {
			return errText(err)
		}
		w.Flush()
		if d == nil {
			return "ok"
		}
		m, n, err := p.Dec(b.Bytes(), d.W)
		if err != nil || n != b.Len() {
			return fmt.Sprintf("undecodable bytes %s", hexs(b.Bytes()))
		}
		return m.Render(true)
	}}
}

func unmarshalJob(p mon.Proto, b []byte, t reflect.Type, d *gg.Desc) job {
	return job{p.Name + " Unmarshal", func() string {
		got := reflect.New(t)
		if err := thrift.Unmarshal(p.P.NewReader(bytes.NewReader(b)), got.Interface()); err != nil {
			return errText(err)
		}
		if d == nil {
			return "ok"
		}
		return gg.Canon(got.Elem(), d)
	}}
}

func skipJob(p mon.Proto, b []byte, t tm.Type) job {
	return job{p.Name + " Skip", func() string {
		return errText(thriftwire.Skip(p.P.NewReader(bytes.NewReader(b)), thriftwire.Type(t)))
	}}
}

var running, maxRunning atomic.Int64

// together runs every job several times at once, all released by a barrier,
// and compares with the expected result (or with a later run alone).
func together(k *core.K, jobs []job, want []string) {
	type res struct {
		j int
		s string
	}
	const copies = 3
	out := make([]res, len(jobs)*copies)
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	panics := make(chan any, len(out))
	for i := range out {
		i := i
		j := i % len(jobs)
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if r := recover(); r != nil {
					panics <- r
				}
			}()
			ready.Done()
			<-start
			n := running.Add(1)
			for m := maxRunning.Load(); n > m && !maxRunning.CompareAndSwap(m, n); m = maxRunning.Load() {
			}
			out[i] = res{j, jobs[j].run()}
			running.Add(-1)
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	select {
	case r := <-panics:
		panic(r)
	default:
	}
	for _, r := range out {
		w := want[r.j]
		if w == "" {
			want[r.j] = jobs[r.j].run()
			w = want[r.j]
		}
		if r.s != w {
			k.Fail("%s at the same time as others gives another result than alone: %s", jobs[r.j].name, diffs(r.s, w))
		}
		k.Count("operations", 1)
	}
	k.Max("running_at_once", maxRunning.Load())
}

// freshStruct is a struct type no one has used before.
func freshStruct(k *core.K, n int, bad string) reflect.Type {
	var fs []reflect.StructField
	name := fmt.Sprintf("F%s_%d_%d_%d", k.Group, k.C.Seed, k.I, n)
	name = strings.ReplaceAll(name, "-", "_")
	for i, m := 0, 1+k.R.Intn(4); i < m; i++ {
		tag := fmt.Sprintf(`thrift:"%d"`, i+1)
		if k.R.Bool() {
			tag = fmt.Sprintf(`thrift:"%d,required"`, i+1)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("%s_%d", name, i), Type: gg.GenType(k.R), Tag: reflect.StructTag(tag)})
	}
	switch bad {
	case "dup":
		fs = append(fs, reflect.StructField{Name: name + "_dup", Type: reflect.TypeOf(int32(0)), Tag: `thrift:"1"`})
	case "tag":
		fs = append(fs, reflect.StructField{Name: name + "_tag", Type: reflect.TypeOf(int32(0)), Tag: `thrift:"x"`})
	case "kind":
		fs = append(fs, reflect.StructField{Name: name + "_kind", Type: reflect.TypeOf(0), Tag: `thrift:"99,required"`})
	}
	return reflect.StructOf(fs)
}

func c16(c *core.Ctx) {
	// First uses of types nobody has used: valid ones, invalid ones, and
	// containers of them, from many goroutines at once.
	c.Cases("fresh", c.N(1600, 20000), func(k *core.K) {
		bad := core.Pick(k.R, "", "", "", "dup", "tag", "kind")
		inner := freshStruct(k, 0, bad)
		types := []reflect.Type{inner, reflect.SliceOf(inner), reflect.PointerTo(inner), reflect.MapOf(reflect.TypeOf(""), inner)}
		outer := reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: inner, Tag: `thrift:"1,required"`},
			{Name: "B", Type: reflect.SliceOf(reflect.PointerTo(inner)), Tag: `thrift:"2"`},
		})
		types = append(types, outer)
		var jobs []job
		var want []string
		for i, n := 0, 3+k.R.Intn(4); i < n; i++ {
			t := types[k.R.Intn(len(types))]
			p := mon.Two[k.R.Intn(2)]
			if bad != "" {
				v := reflect.New(t).Elem()
				if v.Kind() == reflect.Slice {
					v.Set(reflect.MakeSlice(t, 1, 1))
				}
				if v.Kind() == reflect.Map {
					v.Set(reflect.MakeMap(t))
					v.SetMapIndex(reflect.ValueOf("k"), reflect.Zero(inner))
				}
				jobs = append(jobs, marshalJob(k.R, p, v, nil))
				want = append(want, "")
				continue
			}
			d := gg.Describe(t)
			v := gg.GenValue(k.R, d, snapOpts)
			m := gg.Model(v, d)
			if k.R.Bool() {
				jobs = append(jobs, marshalJob(k.R, p, v, d))
				want = append(want, m.Render(true))
			} else {
				jobs = append(jobs, unmarshalJob(p, p.Enc(nil, m), t, d))
				want = append(want, gg.Canon(v, d))
			}
		}
		together(k, jobs, want)
		if bad != "" {
			k.Count("invalid_types", 1)
			for i, s := range want {
				if s == "ok" {
					k.Fail("job %d: a value of an invalid type (%s) was accepted", i, bad)
				}
			}
		}
		k.Count("first_uses", 1)
		k.Hit(inner.String())
		k.Sample("%d goroutines, first use of %s", 3*len(jobs), short(inner.String()))
	})

	// Declared types, the first time in each process concurrently.
	n := len(gg.Registry)
	c.Cases("registry", c.N(6*n, 60*n), func(k *core.K) {
		t := gg.Registry[k.I%n]
		d := gg.Describe(t)
		var jobs []job
		var want []string
		shared := gg.GenValue(k.R, d, snapOpts)
		for i := 0; i < 4; i++ {
			p := mon.Two[i%2]
			jobs = append(jobs, marshalJob(k.R, p, shared, d)) // Marshal may share its input
			want = append(want, gg.Model(shared, d).Render(true))
			v := gg.GenValue(k.R, d, snapOpts)
			b := p.Enc(nil, gg.Model(v, d))
			jobs = append(jobs, unmarshalJob(p, b, t, d))
			want = append(want, gg.Canon(v, d))
			if k.R.Bool() {
				mb := mutate(k.R, b)
				if len(mb) < 5000 {
					jobs = append(jobs, unmarshalJob(p, mb, t, nil))
					want = append(want, "")
				}
			}
			jobs = append(jobs, skipJob(p, b, d.W))
			want = append(want, "ok")
		}
		together(k, jobs, want)
		k.Hit(t.String() + fmt.Sprint(k.I))
	})

	// Different types at once, mutually recursive ones among them.
	c.Cases("mixed", c.N(800, 20000), func(k *core.K) {
		var jobs []job
		var want []string
		sig := ""
		for i, n := 0, 4+k.R.Intn(5); i < n; i++ {
			d := gg.Describe(gg.GenType(k.R))
			p := mon.Protos[k.R.Intn(3)]
			v := gg.GenValue(k.R, d, snapOpts)
			m, _ := gg.Inject(k.R, gg.Model(v, d), d, true)
			jobs = append(jobs, marshalJob(k.R, p, v, d), unmarshalJob(p, p.Enc(nil, m), d.T, d))
			want = append(want, gg.Model(v, d).Render(true), gg.Canon(v, d))
			sig += want[len(want)-1]
		}
		together(k, jobs, want)
		k.Hit(sig)
	})
}
