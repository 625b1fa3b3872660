package gg

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/itstarsun/go-thrift/xverif/tm"
)

// Desc is what a Go type means in thrift, derived independently.
type Desc struct {
	T      reflect.Type
	W      tm.Type // Stop if unsupported
	Ptr    bool
	Elem   *Desc // pointer, list, set: element; map: value
	Key    *Desc
	Fields []FieldDesc // sorted by id
}

type FieldDesc struct {
	Index    int
	Name     string
	ID       int16
	Required bool
	D        *Desc
	zero     zeroKind
}

type zeroKind int

const (
	zeroReflect zeroKind = iota
	zeroMethod           // method in the method set of the field type
	zeroPtrMethod
)

var (
	descMu sync.Mutex
	descs  = map[reflect.Type]*Desc{}
)

var zeroer = reflect.TypeOf((*interface{ IsZero() bool })(nil)).Elem()

// Describe returns the descriptor of t.
func Describe(t reflect.Type) *Desc {
	descMu.Lock()
	defer descMu.Unlock()
	return describe(t)
}

const thriftPkg = "github.com/itstarsun/go-thrift/thrift"

func describe(t reflect.Type) *Desc {
	if d, ok := descs[t]; ok {
		return d
	}
	d := &Desc{T: t}
	descs[t] = d
	switch t.Kind() {
	case reflect.Bool:
		d.W = tm.Bool
	case reflect.Int8, reflect.Uint8:
		d.W = tm.Byte
	case reflect.Int16, reflect.Uint16:
		d.W = tm.I16
	case reflect.Int32, reflect.Uint32:
		d.W = tm.I32
	case reflect.Int64, reflect.Uint64:
		d.W = tm.I64
	case reflect.Float32, reflect.Float64:
		d.W = tm.Double
	case reflect.String:
		d.W = tm.String
	case reflect.Array:
		if t == reflect.TypeOf([16]byte{}) {
			d.W = tm.UUID
		}
	case reflect.Slice:
		switch {
		case t.PkgPath() == thriftPkg && strings.HasPrefix(t.Name(), "Set["):
			d.W = tm.Set
		case t.PkgPath() == thriftPkg && strings.HasPrefix(t.Name(), "List["):
			d.W = tm.List
		case t.Elem() == reflect.TypeOf(byte(0)):
			d.W = tm.String
		default:
			d.W = tm.List
		}
		if d.W != tm.String {
			d.Elem = describe(t.Elem())
		}
	case reflect.Map:
		d.W = tm.Map
		d.Key = describe(t.Key())
		d.Elem = describe(t.Elem())
	case reflect.Pointer:
		d.Ptr = true
		d.Elem = describe(t.Elem())
		u := t
		for i := 0; u.Kind() == reflect.Pointer && i < 100; i++ {
			u = u.Elem()
		}
		if u.Kind() != reflect.Pointer {
			d.W = describe(u).W
		}
	case reflect.Struct:
		d.W = tm.Struct
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			tag, ok := sf.Tag.Lookup("thrift")
			if tag == "-" || !sf.IsExported() || !ok {
				continue
			}
			parts := strings.Split(tag, ",")
			id, err := strconv.ParseInt(parts[0], 10, 16)
			if err != nil {
				continue
			}
			f := FieldDesc{Index: i, Name: sf.Name, ID: int16(id), D: describe(sf.Type)}
			for _, p := range parts[1:] {
				if p == "required" {
					f.Required = true
				}
			}
			switch {
			case sf.Type.Implements(zeroer):
				f.zero = zeroMethod
			case reflect.PointerTo(sf.Type).Implements(zeroer):
				f.zero = zeroPtrMethod
			}
			d.Fields = append(d.Fields, f)
		}
		sort.Slice(d.Fields, func(i, j int) bool { return d.Fields[i].ID < d.Fields[j].ID })
	}
	return d
}

// FieldByID returns the field of a struct descriptor.
func (d *Desc) FieldByID(id int16) *FieldDesc {
	for i := range d.Fields {
		if d.Fields[i].ID == id {
			return &d.Fields[i]
		}
	}
	return nil
}

// Base strips pointers.
func (d *Desc) Base() *Desc {
	for d.Ptr {
		d = d.Elem
	}
	return d
}

// Dropped reports whether the optional field value v (addressable) is zero,
// that is, whether Marshal must leave it out.
func (f *FieldDesc) Dropped(v reflect.Value) bool {
	if f.Required {
		return false
	}
	switch f.zero {
	case zeroMethod:
		if v.Kind() == reflect.Pointer && v.IsNil() {
			return true
		}
		return v.Interface().(interface{ IsZero() bool }).IsZero()
	case zeroPtrMethod:
		if !v.CanAddr() {
			w := reflect.New(v.Type()).Elem()
			w.Set(v)
			v = w
		}
		return v.Addr().Interface().(interface{ IsZero() bool }).IsZero()
	}
	return v.IsZero()
}

// Seen collects all types reachable from t.
func (d *Desc) Seen(m map[*Desc]bool) {
	if d == nil || m[d] {
		return
	}
	m[d] = true
	d.Elem.Seen(m)
	d.Key.Seen(m)
	for _, f := range d.Fields {
		f.D.Seen(m)
	}
}

// MaxSize is the largest in-memory size of any type reachable from d.
func (d *Desc) MaxSize() int64 {
	m := map[*Desc]bool{}
	d.Seen(m)
	var n int64
	for x := range m {
		if s := int64(x.T.Size()); s > n {
			n = s
		}
	}
	return n
}
