// Command memo is the worker for the property of the recording memo.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
)

func main() {
	core.Main(map[string]func(*core.Ctx){"C23": c23})
}

// call is one write call: its name and the value written.
type call struct {
	name string
	v    any
}

// step is one expected step.
type step struct {
	name string
	v    any
}

var names = []string{"MessageBegin", "MessageEnd", "StructBegin", "StructEnd", "FieldBegin", "FieldEnd", "MapBegin", "MapEnd",
	"SetBegin", "SetEnd", "ListBegin", "ListEnd", "Bool", "Byte", "Double", "I16", "I32", "I64", "String", "Bytes", "UUID"}

func genCall(r *core.Rand) call {
	c := call{name: names[r.Intn(len(names))]}
	str := func() string { return string(gg.Str(r, gg.Len(r, 300))) }
	typ := func() thriftwire.Type { return thriftwire.Type(r.Intn(18)) }
	size := func() int { return int(gg.Int(r)) }
	switch c.name {
	case "MessageBegin":
		c.v = thriftwire.MessageHeader{Name: str(), Type: thriftwire.MessageType(r.Intn(6)), ID: int32(gg.Int(r))}
	case "StructBegin":
		c.v = thriftwire.StructHeader{Name: str()}
	case "FieldBegin":
		c.v = thriftwire.FieldHeader{Name: str(), Type: typ(), ID: int16(gg.Int(r))}
	case "MapBegin":
		c.v = thriftwire.MapHeader{Key: typ(), Value: typ(), Size: size()}
	case "SetBegin":
		c.v = thriftwire.SetHeader{Element: typ(), Size: size()}
	case "ListBegin":
		c.v = thriftwire.ListHeader{Element: typ(), Size: size()}
	case "Bool":
		c.v = r.Bool()
	case "Byte":
		c.v = byte(r.Uint64())
	case "Double":
		c.v = gg.Float(r)
	case "I16":
		c.v = int16(gg.Int(r))
	case "I32":
		c.v = int32(gg.Int(r))
	case "I64":
		c.v = gg.Int(r)
	case "String":
		c.v = str()
	case "Bytes":
		c.v = []byte(str())
		if r.P(1, 4) {
			c.v = []byte(nil)
		}
	case "UUID":
		var u [16]byte
		copy(u[:], r.Bytes(16))
		c.v = u
	}
	return c
}

// write makes the call, and then spoils the memory it passed.
func write(w thriftwire.Writer, c call) error {
	switch c.name {
	case "MessageBegin":
		return w.WriteMessageBegin(c.v.(thriftwire.MessageHeader))
	case "MessageEnd":
		return w.WriteMessageEnd()
	case "StructBegin":
		return w.WriteStructBegin(c.v.(thriftwire.StructHeader))
	case "StructEnd":
		return w.WriteStructEnd()
	case "FieldBegin":
		return w.WriteFieldBegin(c.v.(thriftwire.FieldHeader))
	case "FieldEnd":
		return w.WriteFieldEnd()
	case "MapBegin":
		return w.WriteMapBegin(c.v.(thriftwire.MapHeader))
	case "MapEnd":
		return w.WriteMapEnd()
	case "SetBegin":
		return w.WriteSetBegin(c.v.(thriftwire.SetHeader))
	case "SetEnd":
		return w.WriteSetEnd()
	case "ListBegin":
		return w.WriteListBegin(c.v.(thriftwire.ListHeader))
	case "ListEnd":
		return w.WriteListEnd()
	case "Bool":
		return w.WriteBool(c.v.(bool))
	case "Byte":
		return w.WriteByte(c.v.(byte))
	case "Double":
		return w.WriteDouble(c.v.(float64))
	case "I16":
		return w.WriteI16(c.v.(int16))
	case "I32":
		return w.WriteI32(c.v.(int32))
	case "I64":
		return w.WriteI64(c.v.(int64))
	case "String":
		return w.WriteString(c.v.(string))
	case "Bytes":
		b := append([]byte(nil), c.v.([]byte)...)
		err := w.WriteBytes(b)
		for i := range b {
			b[i] ^= 0xa5
		}
		return err
	case "UUID":
		u := c.v.([16]byte)
		err := w.WriteUUID(&u)
		for i := range u {
			u[i] ^= 0xa5
		}
		return err
	}
	panic(c.name)
}

// read makes the read call for a step; skip asks for the skipping variant.
func read(r thriftwire.Reader, s step, rnd *core.Rand) (v any, skipped bool, err error) {
	switch s.name {
	case "MessageBegin":
		v, err = r.ReadMessageBegin()
	case "MessageEnd":
		err = r.ReadMessageEnd()
	case "StructBegin":
		v, err = r.ReadStructBegin()
	case "StructEnd":
		err = r.ReadStructEnd()
	case "FieldBegin":
		v, err = r.ReadFieldBegin()
	case "FieldEnd":
		err = r.ReadFieldEnd()
	case "MapBegin":
		v, err = r.ReadMapBegin()
	case "MapEnd":
		err = r.ReadMapEnd()
	case "SetBegin":
		v, err = r.ReadSetBegin()
	case "SetEnd":
		err = r.ReadSetEnd()
	case "ListBegin":
		v, err = r.ReadListBegin()
	case "ListEnd":
		err = r.ReadListEnd()
	case "Bool":
		v, err = r.ReadBool()
	case "Byte":
		v, err = r.ReadByte()
	case "Double":
		v, err = r.ReadDouble()
	case "I16":
		v, err = r.ReadI16()
	case "I32":
		v, err = r.ReadI32()
	case "I64":
		v, err = r.ReadI64()
	case "String":
		if rnd.P(1, 4) {
			return nil, true, r.SkipString()
		}
		v, err = r.ReadString()
	case "Bytes":
		pre := rnd.Bytes(rnd.Intn(5))
		buf := append(make([]byte, 0, len(pre)+rnd.Intn(400)), pre...)
		var b []byte
		b, err = r.ReadBytes(buf)
		if err == nil {
			if !bytes.HasPrefix(b, pre) {
				return nil, false, fmt.Errorf("ReadBytes(%x) returns %x: the prefix is gone", pre, b)
			}
			v = append([]byte(nil), b[len(pre):]...)
			for i := range b {
				b[i] ^= 0x3c
			}
		}
	case "UUID":
		if rnd.P(1, 4) {
			return nil, true, r.SkipUUID()
		}
		var u [16]byte
		err = r.ReadUUID(&u)
		v = u
	default:
		panic(s.name)
	}
	return v, false, err
}

func same(a, b any) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return reflect.DeepEqual(a, b)
}

// expand is the steps of the calls.
func expand(calls []call) []step {
	var ss []step
	for _, c := range calls {
		if c.name == "StructEnd" {
			ss = append(ss, step{"FieldBegin", thriftwire.FieldHeader{}})
		}
		ss = append(ss, step{c.name, c.v})
	}
	return ss
}

func stepNames(ss []step) []string {
	var out []string
	for _, s := range ss {
		out = append(out, s.name)
	}
	return out
}

func checkSteps(k *core.K, what string, m *thriftmemo.Memo, want []string) {
	got := m.Steps()
	if strings.Join(got, " ") != strings.Join(want, " ") {
		k.Fail("%s: Steps() = %q, want %q", what, got, want)
	}
	for i := range got {
		got[i] = "spoiled"
	}
	if again := m.Steps(); strings.Join(again, " ") != strings.Join(want, " ") {
		k.Fail("%s: Steps() changes when its result is modified", what)
	}
}

func c23(c *core.Ctx) {
	c.Cases("history", c.N(6000, 60000), func(k *core.K) {
		var m thriftmemo.Memo
		var kept []string // an earlier result of Steps, and what it was
		var keptWas string
		for round := k.R.Range(1, 3); round > 0; round-- {
			oneHistory(k, &m)
			if kept != nil && strings.Join(kept, " ") != keptWas {
				k.Fail("a result of Steps changed after Reset and new calls")
			}
			if k.R.Bool() {
				kept = m.Steps()
				keptWas = strings.Join(kept, " ")
			}
			m.Reset()
			if len(m.Steps()) != 0 {
				k.Fail("Steps() after Reset = %q", m.Steps())
			}
			if m.Breakpoint != 0 {
				k.Fail("Breakpoint after Reset = %d", m.Breakpoint)
			}
		}
	})
	// Every breakpoint of a history, in writing and in reading.
	c.Cases("breakpoints", c.N(200, 2000), func(k *core.K) {
		calls := genCalls(k.R, k.R.Intn(25))
		steps := expand(calls)
		for n := -1; n <= len(steps)+2; n++ {
			var m thriftmemo.Memo
			m.Breakpoint = n
			record(k, &m, calls, steps)
			m.Reset()
			record(k, &m, calls, steps)
			m.Breakpoint = n
			replay(k, &m, steps, stepNames(steps))
			k.Count("breakpoints", 1)
		}
		if len(steps) > 1 {
			k.Hit(fmt.Sprintf("%v", steps))
		}
	})
	// The use the memo has: record Marshal, replay Unmarshal and Skip.
	c.Cases("marshal", c.N(1500, 15000), func(k *core.K) {
		t := gg.GenType(k.R)
		if k.I < len(gg.Registry) {
			t = gg.Registry[k.I]
		}
		d := gg.Describe(t)
		v := gg.GenValue(k.R, d, gg.DefaultOpts)
		var m thriftmemo.Memo
		if err := thrift.Marshal(m.Writer(), v.Addr().Interface()); err != nil {
			k.Fail("Marshal(%v) to a memo: %v", t, err)
		}
		wrote := m.Steps()
		// The memo takes SkipString only for what WriteString recorded.
		if k.R.P(1, 3) && !strings.Contains(" "+strings.Join(wrote, " ")+" ", " Bytes ") {
			if err := thriftwire.Skip(m.Reader(), thriftwire.Type(gg.Model(v, d).T)); err != nil {
				k.Fail("Skip(%v) from a memo: %v", t, err)
			}
		} else {
			out := reflect.New(t)
			if err := thrift.Unmarshal(m.Reader(), out.Interface()); err != nil {
				k.Fail("Unmarshal(%v) from a memo: %v", t, err)
			}
			if got, want := gg.Canon(out.Elem(), d), gg.Canon(v, d); got != want {
				k.FailD("got  "+got+"\nwant "+want, "a memo gives another value of %v back", t)
			}
		}
		checkSteps(k, "after reading", &m, append(wrote[:len(wrote):len(wrote)], wrote...))
		k.Count("steps", len(wrote))
		k.Count("histories", 1)
		if len(wrote) > 3 {
			k.Hit(fmt.Sprintf("%v %s", t, gg.Canon(v, d)))
		}
	})
}

func genCalls(r *core.Rand, n int) []call {
	calls := make([]call, n)
	for i := range calls {
		calls[i] = genCall(r)
	}
	return calls
}

// record writes the calls and checks which succeed; it returns the steps that
// must have been recorded.
func record(k *core.K, m *thriftmemo.Memo, calls []call, steps []step) []step {
	w := m.Writer()
	limit := len(steps)
	if m.Breakpoint > 0 && m.Breakpoint-1 < limit {
		limit = m.Breakpoint - 1
	}
	at := 0
	for i, c := range calls {
		if k.R.P(1, 10) {
			w = m.Writer()
		}
		err := write(w, c)
		at += len(expand([]call{c}))
		if at <= limit {
			if err != nil {
				k.Fail("call %d (%s), breakpoint %d: %v", i, c.name, m.Breakpoint, err)
			}
		} else if !errors.Is(err, thriftmemo.ErrBreak) {
			k.Fail("call %d (%s), at or after breakpoint %d: error %v, want ErrBreak", i, c.name, m.Breakpoint, err)
		}
		k.Count("calls", 1)
	}
	checkSteps(k, "after writing", m, stepNames(steps[:limit]))
	return steps[:limit]
}

// replay reads the recorded steps back. before are the names recorded so far.
func replay(k *core.K, m *thriftmemo.Memo, steps []step, before []string) {
	limit := len(steps)
	if m.Breakpoint > 0 && m.Breakpoint-1 < limit {
		limit = m.Breakpoint - 1
	}
	want := append([]string(nil), before...)
	r := m.Reader()
	for i, s := range steps {
		if k.R.P(1, 10) {
			r = m.Reader()
		}
		got, skipped, err := read(r, s, k.R)
		if i >= limit {
			if !errors.Is(err, thriftmemo.ErrBreak) {
				k.Fail("read %d (%s), at or after breakpoint %d: error %v, want ErrBreak", i, s.name, m.Breakpoint, err)
			}
			continue
		}
		if err != nil {
			k.Fail("read %d (%s), breakpoint %d: %v", i, s.name, m.Breakpoint, err)
		}
		if !skipped && !same(got, s.v) {
			k.Fail("read %d (%s) = %#v, written %#v", i, s.name, got, s.v)
		}
		want = append(want, s.name)
		k.Count("reads", 1)
	}
	checkSteps(k, "after reading", m, want)
}

func oneHistory(k *core.K, m *thriftmemo.Memo) {
	n := k.R.Intn(core.Pick(k.R, 5, 30, 200))
	calls := genCalls(k.R, n)
	steps := expand(calls)
	if k.R.P(1, 3) {
		m.Breakpoint = k.R.Intn(len(steps) + 4)
	}
	got := record(k, m, calls, steps)
	m.Breakpoint = 0
	if k.R.P(1, 3) {
		m.Breakpoint = k.R.Intn(len(steps) + 4)
	}
	if k.R.P(1, 4) && len(got) > 0 {
		got = got[:k.R.Intn(len(got))] // abandon the reading
		before := m.Steps()
		replay(k, m, got, before)
	} else {
		replay(k, m, got, stepNames(got))
	}
	k.Count("histories", 1)
	if n > 0 {
		k.Hit(fmt.Sprintf("%v", steps))
	}
	k.Sample("%v", stepNames(steps))
}
