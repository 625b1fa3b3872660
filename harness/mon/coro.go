package mon

import (
	"fmt"
	"io"
	"runtime"
	"runtime/debug"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/xverif/core"
)

// Sched runs tasks one at a time and changes from one to another only where
// they yield, as its random numbers say: every interleaving can be repeated.
type Sched struct {
	Switches int // times another task went on

	r    *core.Rand
	back chan any // what a task that ended in a panic panicked with
	cur  *Task
	keep int // n-1 of n yields go on with the same task
}

// Task is one of the tasks of a Sched.
type Task struct {
	s    *Sched
	wake chan bool
	Step int
}

type taskEnd struct {
	t *Task
	p any
}

// TaskPanic is what Run panics with if a task did, other than by failing.
type TaskPanic struct {
	V     any
	Stack string
}

func (p TaskPanic) Error() string   { return fmt.Sprint(p.V) }
func (p TaskPanic) StackOf() string { return p.Stack }

// Yield lets other tasks go on.
func (t *Task) Yield() {
	t.Step++
	if t.s.cur != t {
		// called for something else, like the setting up of an expectation
		return
	}
	if t.s.r.Intn(t.s.keep) != 0 {
		return
	}
	t.s.back <- nil
	if !<-t.wake {
		runtime.Goexit()
	}
}

// Current is the task that is running, if any.
func (s *Sched) Current() *Task { return s.cur }

// RunTasks runs the tasks to their ends. fail tells a failure of a task, which is
// passed on, from a panic.
func RunTasks(r *core.Rand, keep int, started func(*Sched), tasks ...func(*Task)) *Sched {
	s := &Sched{r: r, back: make(chan any), keep: keep}
	started(s)
	var live []*Task
	for _, f := range tasks {
		t := &Task{s: s, wake: make(chan bool)}
		live = append(live, t)
		go func() {
			if !<-t.wake {
				return
			}
			ok := false
			defer func() {
				if ok {
					s.back <- taskEnd{t, nil}
				} else if p := recover(); p != nil {
					if !core.IsFailure(p) {
						p = TaskPanic{p, string(debug.Stack())}
					}
					s.back <- taskEnd{t, p}
				}
			}()
			f(t)
			ok = true
		}()
	}
	var last *Task
	for len(live) > 0 {
		t := live[r.Intn(len(live))]
		if t != last {
			s.Switches++
		}
		last, s.cur = t, t
		t.wake <- true
		end, ok := (<-s.back).(taskEnd)
		s.cur = nil
		if !ok {
			continue
		}
		for i := range live {
			if live[i] == t {
				live = append(live[:i], live[i+1:]...)
				break
			}
		}
		if end.p != nil {
			for _, t := range live {
				t.wake <- false
			}
			panic(end.p)
		}
	}
	return s
}

// YReader yields at every call.
type YReader struct {
	R thriftwire.Reader
	T *Task
}

// YWriter yields at every call.
type YWriter struct {
	W thriftwire.Writer
	T *Task
}

func (y YReader) ReadMessageBegin() (thriftwire.MessageHeader, error) {
	y.T.Yield()
	return y.R.ReadMessageBegin()
}
func (y YReader) ReadMessageEnd() error { y.T.Yield(); return y.R.ReadMessageEnd() }
func (y YReader) ReadStructBegin() (thriftwire.StructHeader, error) {
	y.T.Yield()
	return y.R.ReadStructBegin()
}
func (y YReader) ReadStructEnd() error { y.T.Yield(); return y.R.ReadStructEnd() }
func (y YReader) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	y.T.Yield()
	return y.R.ReadFieldBegin()
}
func (y YReader) ReadFieldEnd() error                         { y.T.Yield(); return y.R.ReadFieldEnd() }
func (y YReader) ReadMapBegin() (thriftwire.MapHeader, error) { y.T.Yield(); return y.R.ReadMapBegin() }
func (y YReader) ReadMapEnd() error                           { y.T.Yield(); return y.R.ReadMapEnd() }
func (y YReader) ReadSetBegin() (thriftwire.SetHeader, error) { y.T.Yield(); return y.R.ReadSetBegin() }
func (y YReader) ReadSetEnd() error                           { y.T.Yield(); return y.R.ReadSetEnd() }
func (y YReader) ReadListBegin() (thriftwire.ListHeader, error) {
	y.T.Yield()
	return y.R.ReadListBegin()
}
func (y YReader) ReadListEnd() error                 { y.T.Yield(); return y.R.ReadListEnd() }
func (y YReader) ReadBool() (bool, error)            { y.T.Yield(); return y.R.ReadBool() }
func (y YReader) ReadByte() (byte, error)            { y.T.Yield(); return y.R.ReadByte() }
func (y YReader) ReadDouble() (float64, error)       { y.T.Yield(); return y.R.ReadDouble() }
func (y YReader) ReadI16() (int16, error)            { y.T.Yield(); return y.R.ReadI16() }
func (y YReader) ReadI32() (int32, error)            { y.T.Yield(); return y.R.ReadI32() }
func (y YReader) ReadI64() (int64, error)            { y.T.Yield(); return y.R.ReadI64() }
func (y YReader) ReadString() (string, error)        { y.T.Yield(); return y.R.ReadString() }
func (y YReader) ReadBytes(x []byte) ([]byte, error) { y.T.Yield(); return y.R.ReadBytes(x) }
func (y YReader) ReadUUID(x *[16]byte) error         { y.T.Yield(); return y.R.ReadUUID(x) }
func (y YReader) SkipString() error                  { y.T.Yield(); return y.R.SkipString() }
func (y YReader) SkipUUID() error                    { y.T.Yield(); return y.R.SkipUUID() }
func (y YReader) Reset(x io.Reader)                  { y.T.Yield(); y.R.Reset(x) }
func (y YWriter) WriteMessageBegin(x thriftwire.MessageHeader) error {
	y.T.Yield()
	return y.W.WriteMessageBegin(x)
}
func (y YWriter) WriteMessageEnd() error { y.T.Yield(); return y.W.WriteMessageEnd() }
func (y YWriter) WriteStructBegin(x thriftwire.StructHeader) error {
	y.T.Yield()
	return y.W.WriteStructBegin(x)
}
func (y YWriter) WriteStructEnd() error { y.T.Yield(); return y.W.WriteStructEnd() }
func (y YWriter) WriteFieldBegin(x thriftwire.FieldHeader) error {
	y.T.Yield()
	return y.W.WriteFieldBegin(x)
}
func (y YWriter) WriteFieldEnd() error { y.T.Yield(); return y.W.WriteFieldEnd() }
func (y YWriter) WriteMapBegin(x thriftwire.MapHeader) error {
	y.T.Yield()
	return y.W.WriteMapBegin(x)
}
func (y YWriter) WriteMapEnd() error { y.T.Yield(); return y.W.WriteMapEnd() }
func (y YWriter) WriteSetBegin(x thriftwire.SetHeader) error {
	y.T.Yield()
	return y.W.WriteSetBegin(x)
}
func (y YWriter) WriteSetEnd() error { y.T.Yield(); return y.W.WriteSetEnd() }
func (y YWriter) WriteListBegin(x thriftwire.ListHeader) error {
	y.T.Yield()
	return y.W.WriteListBegin(x)
}
func (y YWriter) WriteListEnd() error         { y.T.Yield(); return y.W.WriteListEnd() }
func (y YWriter) WriteBool(x bool) error      { y.T.Yield(); return y.W.WriteBool(x) }
func (y YWriter) WriteByte(x byte) error      { y.T.Yield(); return y.W.WriteByte(x) }
func (y YWriter) WriteDouble(x float64) error { y.T.Yield(); return y.W.WriteDouble(x) }
func (y YWriter) WriteI16(x int16) error      { y.T.Yield(); return y.W.WriteI16(x) }
func (y YWriter) WriteI32(x int32) error      { y.T.Yield(); return y.W.WriteI32(x) }
func (y YWriter) WriteI64(x int64) error      { y.T.Yield(); return y.W.WriteI64(x) }
func (y YWriter) WriteString(x string) error  { y.T.Yield(); return y.W.WriteString(x) }
func (y YWriter) WriteBytes(x []byte) error   { y.T.Yield(); return y.W.WriteBytes(x) }
func (y YWriter) WriteUUID(x *[16]byte) error { y.T.Yield(); return y.W.WriteUUID(x) }
func (y YWriter) Flush() error                { y.T.Yield(); return y.W.Flush() }
func (y YWriter) Reset(x io.Writer)           { y.T.Yield(); y.W.Reset(x) }
