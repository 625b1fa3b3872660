package mon

import (
	"reflect"
	"runtime"
	"unsafe"
	"weak"
)

// Live watches memory that should be given up.
type Live struct {
	what []string
	ptrs []weak.Pointer[byte]
}

// Add watches the allocation p points into. It must be one of 16 bytes or
// more, or with pointers: smaller ones share allocations with others.
func (l *Live) Add(what string, p unsafe.Pointer) {
	l.what = append(l.what, what)
	l.ptrs = append(l.ptrs, weak.Make((*byte)(p)))
}

// AddValue watches what v refers to, and the strings in it if strings is set.
func (l *Live) AddValue(what string, v reflect.Value, strings bool) {
	budget := 100
	l.value(what, v, strings, &budget)
}

func (l *Live) value(what string, v reflect.Value, strings bool, budget *int) {
	if *budget--; *budget < 0 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			if v.Type().Elem().Size() >= 16 {
				l.Add(what+": a variable behind a pointer", v.UnsafePointer())
			}
			l.value(what, v.Elem(), strings, budget)
		}
	case reflect.Slice:
		if uintptr(v.Len())*v.Type().Elem().Size() >= 16 {
			l.Add(what+": the elements of a slice", v.UnsafePointer())
		}
		for i := 0; i < v.Len() && *budget > 0 && v.Type().Elem().Kind() > reflect.Complex128; i++ {
			l.value(what, v.Index(i), strings, budget)
		}
	case reflect.Map:
		if !v.IsNil() {
			l.Add(what+": a map", v.UnsafePointer())
			for it := v.MapRange(); it.Next() && *budget > 0; {
				l.value(what, it.Key(), strings, budget)
				l.value(what, it.Value(), strings, budget)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				l.value(what, v.Field(i), strings, budget)
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			l.value(what, v.Elem(), strings, budget)
		}
	case reflect.String:
		if strings && v.Len() >= 16 {
			l.Add(what+": a string", unsafe.Pointer(unsafe.StringData(v.String())))
		}
	}
}

// Len is the number of allocations watched.
func (l *Live) Len() int { return len(l.ptrs) }

// Kept collects garbage and returns what is still there.
func (l *Live) Kept() []string {
	var kept []string
	for round := 0; round < 5; round++ {
		Collect()
		kept = kept[:0]
		for i, p := range l.ptrs {
			if p.Value() != nil {
				kept = append(kept, l.what[i])
			}
		}
		if len(kept) == 0 {
			return nil
		}
		scrub(200)
	}
	return kept
}

// Collect frees what can be freed, pools included.
func Collect() {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
}

//go:noinline
func scrub(n int) byte {
	var b [512]byte
	for i := range b {
		b[i] = byte(n + i)
	}
	if n == 0 {
		return b[7]
	}
	return b[n%len(b)] ^ scrub(n-1)
}

// Apart runs f on a stack of its own, which is gone when it returns.
func Apart(f func()) {
	var p any
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f()
	}()
	<-done
	if p != nil {
		panic(p)
	}
}

// Heap is what is in use after everything that can be freed was.
func Heap() (objects, bytes int64) {
	Collect()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapObjects), int64(m.HeapAlloc)
}
