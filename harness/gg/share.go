package gg

import (
	"reflect"
	"sort"

	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// Share makes parts of v the same variables: pointers, slices and maps become
// others of their type that occur elsewhere in v, pointers point to elements
// and fields of other parts, and slices become pieces of others, even of one
// that contains them. The value stays acyclic if
// none of it was shared before. It returns the number of
// changes.
func Share(r *core.Rand, v reflect.Value, d *Desc) int {
	s := sharer{r: r, done: map[reflect.Type][]shared{}, left: 3000}
	s.walk(v, d, nil)
	return s.n
}

type shared struct {
	v      reflect.Value
	weight int
}

type sharer struct {
	r    *core.Rand
	done map[reflect.Type][]shared
	left int
	n    int
}

// open is a slice whose element i is being visited; those before are finished.
type open struct {
	v      reflect.Value
	i      int
	weight int
}

func (s *sharer) add(v reflect.Value, weight int) {
	l := s.done[v.Type()]
	if len(l) < 50 {
		s.done[v.Type()] = append(l, shared{v, weight})
	}
}

func (s *sharer) take(v reflect.Value, weight int, from reflect.Value) int {
	v.Set(from.Convert(v.Type()))
	s.left -= weight
	s.n++
	return weight
}

func (s *sharer) walk(v reflect.Value, d *Desc, up []open) int {
	list := (d.W == tm.List || d.W == tm.Set) && !d.Ptr
	if (d.Ptr || list || d.W == tm.Map) && !v.IsNil() && s.r.P(1, 4) {
		if l := s.done[d.T]; len(l) > 0 && s.r.P(2, 3) {
			if c := core.Pick(s.r, l...); c.weight <= s.left {
				if list && c.v.Len() > 0 && s.r.P(1, 3) {
					n := s.r.Intn(c.v.Len() + 1)
					return s.take(v, c.weight, c.v.Slice(0, n))
				}
				return s.take(v, c.weight, c.v)
			}
		}
		if d.Ptr {
			for _, c := range s.done[d.Elem.T] {
				if c.v.CanAddr() && c.weight+1 <= s.left && s.r.P(1, 4) {
					return s.take(v, c.weight+1, c.v.Addr())
				}
			}
		}
		if list {
			for _, o := range up {
				if o.v.Type() == d.T && o.weight <= s.left && s.r.Bool() {
					n := o.i
					if s.r.P(1, 3) {
						n = 0
					}
					return s.take(v, o.weight, o.v.Slice(0, n))
				}
			}
		}
	}
	w := 1
	switch {
	case d.Ptr:
		if !v.IsNil() {
			w += s.walk(v.Elem(), d.Elem, up)
		}
	case list:
		for i := 0; i < v.Len(); i++ {
			w += s.walk(v.Index(i), d.Elem, append(up, open{v, i, w}))
		}
	case d.W == tm.Map:
		keys := v.MapKeys()
		text := make(map[reflect.Value]string, len(keys))
		for _, key := range keys {
			text[key] = Canon(key, d.Key)
		}
		sort.Slice(keys, func(i, j int) bool { return text[keys[i]] < text[keys[j]] })
		for _, key := range keys {
			e := reflect.New(d.Elem.T).Elem()
			if x := v.MapIndex(key); x.IsValid() {
				e.Set(x)
				w += 1 + s.walk(e, d.Elem, up)
				v.SetMapIndex(key, e)
			} else {
				w += 500 // a key that is not equal to itself
			}
		}
	case d.W == tm.Struct:
		for i := range d.Fields {
			f := &d.Fields[i]
			w += s.walk(v.Field(f.Index), f.D, up)
		}
	case d.W == tm.String:
		w += v.Len() / 50
	}
	s.add(v, w)
	return w
}
