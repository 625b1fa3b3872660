package mon

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Region is a piece of memory a Go value refers to.
type Region struct {
	Lo, Hi uintptr
	What   string
	Str    bool // immutable string data
	Owner  int
}

// Regions lists the memory reachable from v: backing arrays (whole capacity),
// pointees, maps and string data. Zero-sized objects are left out.
func Regions(v reflect.Value, owner int) []Region {
	var rs []Region
	regions(v, "v", owner, &rs, 0)
	return rs
}

func regions(v reflect.Value, path string, owner int, rs *[]Region, depth int) {
	if depth > 60 {
		return
	}
	add := func(p unsafe.Pointer, n uintptr, str bool) {
		if n > 0 && p != nil {
			*rs = append(*rs, Region{uintptr(p), uintptr(p) + n, path, str, owner})
		}
	}
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		if len(s) > 0 {
			add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), true)
		}
	case reflect.Slice:
		add(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size(), false)
		for i := 0; i < v.Len(); i++ {
			if k := v.Type().Elem().Kind(); k <= reflect.Complex128 {
				break
			}
			regions(v.Index(i), fmt.Sprintf("%s[%d]", path, i), owner, rs, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		add(v.UnsafePointer(), 8, false)
		i := 0
		for it := v.MapRange(); it.Next(); {
			regions(it.Key(), fmt.Sprintf("%s.key%d", path, i), owner, rs, depth+1)
			regions(it.Value(), fmt.Sprintf("%s.val%d", path, i), owner, rs, depth+1)
			i++
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		add(v.UnsafePointer(), v.Type().Elem().Size(), false)
		regions(v.Elem(), "*"+path, owner, rs, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			regions(v.Field(i), path+"."+v.Type().Field(i).Name, owner, rs, depth+1)
		}
	}
}

// BytesRegion is the memory of a byte slice.
func BytesRegion(b []byte, what string, owner int) Region {
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return Region{p, p + uintptr(cap(b)), what, false, owner}
}

// Overlap returns the first two regions that overlap; two pieces of string data
// may share memory, as strings are immutable.
func Overlap(rs []Region) (a, b Region, found bool) {
	sort.Slice(rs, func(i, j int) bool { return rs[i].Lo < rs[j].Lo })
	var mut, str Region // region with the greatest end so far, by kind
	for _, r := range rs {
		if mut.Hi > r.Lo {
			return mut, r, true
		}
		if !r.Str && str.Hi > r.Lo {
			return str, r, true
		}
		if r.Str {
			if r.Hi > str.Hi {
				str = r
			}
		} else if r.Hi > mut.Hi {
			mut = r
		}
	}
	return a, b, false
}
