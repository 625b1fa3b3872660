package idl

import (
	"fmt"
	gotoken "go/token"
	"reflect"
	"sort"
	"strings"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/xverif/core"
)

// Doc is a generated document: its tokens and the tree it spells.
type Doc struct {
	File *tf.File
	Toks []Tok
	Ends []int // for every definition, the number of tokens up to its end
	// Fixed holds the indices of the commas that are not separators.
	Fixed map[int]bool
	R     *core.Rand
	n     int // budget of nodes
}

func (d *Doc) tok(kind, text string) { d.Toks = append(d.Toks, Tok{Kind: kind, Text: text}) }
func (d *Doc) p(texts ...string) {
	for _, t := range texts {
		d.tok(t, t)
	}
}

// Gen generates a document of about n nodes.
func Gen(r *core.Rand, n int) *Doc {
	d := &Doc{R: r, File: &tf.File{}, n: n, Fixed: map[int]bool{}}
	for r.P(1, 2) && len(d.File.Headers) < 6 {
		d.File.Headers = append(d.File.Headers, d.header())
	}
	for d.n > 0 {
		d.File.Defs = append(d.File.Defs, d.def())
		d.Ends = append(d.Ends, len(d.Toks))
		if r.P(1, 12) {
			break
		}
	}
	return d
}

var baseNames = []string{"bool", "byte", "i8", "i16", "i32", "i64", "double", "string", "binary", "uuid", "slist", "void_", "Shared.Type", "a.b.c"}
var oddNames = []string{"_", "__x__", "x9", "é", "日本語", "naïve.Type", "a.", "a..b", "if", "Map", "LIST", "Struct", "includes", "const_", "oneways", "e5", "E", "x", "String", "π2", "ñ٣", "true", "false", "async", "required1", "i", "ma", "se", "lists"}

func (d *Doc) ident() *tf.Ident {
	s := d.name()
	d.tok("IDENT", s)
	return &tf.Ident{Name: s}
}

var keywordList = func() []string {
	l := append([]string(nil), Keywords...)
	sort.Strings(l)
	return l
}()

// nearKeyword is almost a keyword.
func nearKeyword(r *core.Rand) string {
	s := keywordList[r.Intn(len(keywordList))]
	switch r.Intn(7) {
	case 0:
		s += core.Pick(r, ".", "_", "0", "s", "é", "..", ".x", "1")
	case 1:
		s = core.Pick(r, "_", "x", "a.", "é") + s
	case 2:
		s = s[:len(s)-1]
	case 3:
		s = strings.ToUpper(s)
	case 4:
		i := r.Intn(len(s))
		s = s[:i] + strings.ToUpper(s[i:i+1]) + s[i+1:]
	case 5:
		s += "." + keywordList[r.Intn(len(keywordList))]
	case 6:
		i := r.Intn(len(s))
		s = s[:i] + s[i:i+1] + s[i:]
	}
	if keywordSet[s] || s == "" {
		return "k_" + s
	}
	return s
}

func (d *Doc) name() string {
	if d.R.P(1, 8) {
		return nearKeyword(d.R)
	}
	switch d.R.Intn(4) {
	case 0:
		return oddNames[d.R.Intn(len(oddNames))]
	case 1:
		return baseNames[d.R.Intn(len(baseNames))]
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	const more = first + "0123456789."
	n := d.R.Intn(8)
	b := []byte{first[d.R.Intn(len(first))]}
	for i := 0; i < n; i++ {
		b = append(b, more[d.R.Intn(len(more))])
	}
	if keywordSet[string(b)] {
		b = append(b, '_')
	}
	return string(b)
}

func (d *Doc) int() *tf.Int {
	s := core.Pick(d.R, "", "", "", "-", "+")
	switch d.R.Intn(5) {
	case 0:
		s += core.Pick(d.R, "0", "00", "007", "32767", "99999999999999999999", "0x0", "0xDEADbeef", "0X1aF", "0xe5")
	case 1:
		s += fmt.Sprint(d.R.Uint64() >> d.R.Intn(64))
	case 2:
		s += fmt.Sprintf("0x%x", d.R.Uint64()>>d.R.Intn(64))
	default:
		s += fmt.Sprint(d.R.Intn(100))
	}
	d.tok("INT", s)
	return &tf.Int{Value: s}
}

func (d *Doc) float() *tf.Float {
	s := core.Pick(d.R, "", "", "-", "+") + fmt.Sprint(d.R.Intn(1000))
	switch d.R.Intn(4) {
	case 0:
		s += fmt.Sprintf(".%d", d.R.Intn(1000))
	case 1:
		s += fmt.Sprintf("%s%s%d", core.Pick(d.R, "e", "E"), core.Pick(d.R, "", "+", "-"), d.R.Intn(300))
	case 2:
		s += fmt.Sprintf(".%d%s%s%d", d.R.Intn(1000), core.Pick(d.R, "e", "E"), core.Pick(d.R, "", "+", "-"), d.R.Intn(300))
	default:
		s += "."
	}
	d.tok("FLOAT", s)
	return &tf.Float{Value: s}
}

func (d *Doc) str() *tf.String {
	q := core.Pick(d.R, `"`, `'`)
	var sb strings.Builder
	sb.WriteString(q)
	for i, n := 0, d.R.Intn(6); i < n; i++ {
		switch d.R.Intn(8) {
		case 0:
			sb.WriteString(`\` + core.Pick(d.R, q, `\`, "n", "r", "t"))
		case 1:
			if q == `"` {
				sb.WriteString("'")
			} else {
				sb.WriteString(`"`)
			}
		case 2:
			sb.WriteString(core.Pick(d.R, "// not a comment", "/* */", "#", "{", "}", "struct X {}", "é日本語", "\t", "\r", "\x01\x7f", "�", ";"))
		default:
			sb.WriteString(core.Pick(d.R, "a", "thrift", " ", "x y", "0", "."))
		}
	}
	sb.WriteString(q)
	d.tok("STRING", sb.String())
	return &tf.String{Value: sb.String()}
}

// sep writes optional separators after a list item.
func (d *Doc) sep() {
	switch d.R.Intn(6) {
	case 0, 1, 2:
		d.p(core.Pick(d.R, ",", ";"))
	case 3:
		for i, n := 0, d.R.Intn(4); i < n; i++ {
			d.p(core.Pick(d.R, ",", ";"))
		}
	}
}

func (d *Doc) count() int {
	if d.n <= 0 {
		return 0
	}
	return d.R.Intn(5)
}

func (d *Doc) ann() *tf.AnnotationList {
	if !d.R.P(1, 5) {
		return nil
	}
	x := &tf.AnnotationList{}
	d.p("(")
	for i, n := 0, d.R.Intn(4); i < n; i++ {
		a := &tf.Annotation{Name: d.ident()}
		if d.R.P(2, 3) {
			d.p("=")
			a.Value = d.str()
		}
		d.sep()
		x.List = append(x.List, a)
	}
	d.p(")")
	return x
}

func (d *Doc) header() tf.Header {
	d.n--
	if d.R.Bool() {
		d.p("include")
		return &tf.Include{Path: d.str()}
	}
	d.p("namespace")
	x := &tf.Namespace{}
	if d.R.P(1, 3) {
		d.p("*")
	} else {
		x.Scope = d.ident()
	}
	x.Name = d.ident()
	x.Annotations = d.ann()
	return x
}

func (d *Doc) def() tf.Def {
	d.n--
	switch d.R.Intn(7) {
	case 0:
		d.p("const")
		x := &tf.Const{Type: d.typ(0)}
		x.Name = d.ident()
		d.p("=")
		x.Value = d.value(0)
		d.sep()
		return x
	case 1:
		d.p("typedef")
		x := &tf.Typedef{Type: d.typ(0)}
		x.Name = d.ident()
		x.Annotations = d.ann()
		d.sep()
		return x
	case 2:
		d.p("enum")
		x := &tf.Enum{Name: d.ident(), Values: &tf.EnumValueList{}}
		d.p("{")
		for i, n := 0, d.count(); i < n; i++ {
			d.n--
			v := &tf.EnumValue{Name: d.ident()}
			if d.R.Bool() {
				d.p("=")
				v.Value = d.int()
			}
			v.Annotations = d.ann()
			d.sep()
			x.Values.List = append(x.Values.List, v)
		}
		d.p("}")
		x.Annotations = d.ann()
		return x
	case 3:
		d.p("service")
		x := &tf.Service{Name: d.ident(), Methods: &tf.MethodList{}}
		if d.R.Bool() {
			d.p("extends")
			x.Extends = d.ident()
		}
		d.p("{")
		for i, n := 0, d.count(); i < n; i++ {
			x.Methods.List = append(x.Methods.List, d.method())
			d.sep()
		}
		d.p("}")
		x.Annotations = d.ann()
		return x
	}
	x := &tf.Struct{}
	switch d.R.Intn(3) {
	case 0:
		d.p("struct")
	case 1:
		d.p("union")
		x.Union = true
	case 2:
		d.p("exception")
		x.Exception = true
	}
	x.Name = d.ident()
	x.Fields = d.fields("{", "}", d.count())
	x.Annotations = d.ann()
	return x
}

func (d *Doc) fields(open, close string, n int) *tf.FieldList {
	x := &tf.FieldList{}
	d.p(open)
	for i := 0; i < n; i++ {
		x.List = append(x.List, d.field())
		d.sep()
	}
	d.p(close)
	return x
}

func (d *Doc) field() *tf.Field {
	d.n--
	x := &tf.Field{}
	if d.R.P(3, 4) {
		x.ID = d.int()
		d.p(":")
	}
	switch d.R.Intn(3) {
	case 0:
		d.p("required")
		x.Required = true
	case 1:
		d.p("optional")
		x.Optional = true
	}
	x.Type = d.typ(0)
	if d.R.P(1, 6) {
		d.p("&")
		x.Reference = true
	}
	if d.R.P(1, 4) {
		k := Keywords[d.R.Intn(len(Keywords))]
		d.p(k)
		x.Name = &tf.Ident{Name: k}
	} else {
		x.Name = d.ident()
	}
	if d.R.P(1, 3) {
		d.p("=")
		x.Default = d.value(0)
	}
	x.Annotations = d.ann()
	return x
}

func (d *Doc) method() *tf.Method {
	d.n--
	x := &tf.Method{}
	if d.R.P(1, 4) {
		d.p("oneway")
		x.OneWay = true
	}
	if d.R.P(1, 3) {
		d.p("void")
		x.Void = true
	} else {
		x.Return = d.typ(0)
	}
	x.Name = d.ident()
	x.Arguments = d.fields("(", ")", d.R.Intn(4))
	if d.R.P(1, 3) {
		d.p("throws")
		x.Throws = d.fields("(", ")", d.R.Intn(3))
	}
	x.Annotations = d.ann()
	return x
}

func (d *Doc) typ(depth int) tf.Type {
	d.n--
	k := d.R.Intn(6)
	if depth > 4 {
		k = 5
	}
	switch k {
	case 0:
		d.p("map", "<")
		x := &tf.Map{Key: d.typ(depth + 1)}
		d.Fixed[len(d.Toks)] = true
		d.p(",")
		x.Value = d.typ(depth + 1)
		d.p(">")
		x.Annotations = d.ann()
		return x
	case 1:
		d.p("set", "<")
		x := &tf.Set{Element: d.typ(depth + 1)}
		d.p(">")
		x.Annotations = d.ann()
		return x
	case 2:
		d.p("list", "<")
		x := &tf.List{Element: d.typ(depth + 1)}
		d.p(">")
		x.Annotations = d.ann()
		return x
	}
	x := &tf.TypeRef{Name: d.ident()}
	x.Annotations = d.ann()
	return x
}

func (d *Doc) value(depth int) tf.Value {
	d.n--
	k := d.R.Intn(6)
	if depth > 4 {
		k = d.R.Intn(4)
	}
	switch k {
	case 0:
		return d.ident()
	case 1:
		return d.int()
	case 2:
		return d.float()
	case 3:
		return d.str()
	case 4:
		x := &tf.ValueList{}
		d.p("[")
		for i, n := 0, d.count(); i < n; i++ {
			x.List = append(x.List, d.value(depth+1))
			d.sep()
		}
		d.p("]")
		return x
	}
	x := &tf.KeyValuePairList{}
	d.p("{")
	for i, n := 0, d.count(); i < n; i++ {
		kv := &tf.KeyValuePair{Key: d.value(depth + 1)}
		d.p(":")
		kv.Value = d.value(depth + 1)
		x.List = append(x.List, kv)
		d.sep()
	}
	d.p("}")
	return x
}

// wordy tells whether c at the edge of a token would merge with a neighbour.
func wordy(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// separate tells whether a and b are still two tokens without a blank
// between them: as a number is followed by a name, say.
func separate(a, b Tok) bool {
	l, err := Lex([]byte(a.Text + b.Text))
	return err == nil && len(l) == 2 && l[0].Text == a.Text && l[1].Text == b.Text && l[0].Kind == a.Kind && l[1].Kind == b.Kind
}

// Layout writes the tokens with random white space and comments. With rich
// false it only puts single spaces.
func Layout(r *core.Rand, toks []Tok, rich bool) []byte {
	var b []byte
	if rich && r.P(1, 6) {
		b = append(b, "\ufeff"...)
	}
	nl := core.Pick(r, "\n", "\r\n", "\r\n", "\n")
	blank := func() {
		switch r.Intn(8) {
		case 0:
			b = append(b, nl...)
		case 1:
			b = append(b, '\t')
		case 2:
			b = append(b, "//"+comment(r)+nl...)
		case 3:
			b = append(b, "#"+comment(r)+"\n"...)
		case 4:
			in := core.Pick(r, "", "*", "**", "\n * ", "//", "'", `"`) + comment(r) + core.Pick(r, "", "*", "\n", "***", "/")
			b = append(b, "/*"+strings.ReplaceAll(in, "*/", "* ")+"*/"...)
		default:
			b = append(b, ' ')
		}
	}
	dense := r.P(1, 4)
	for i, t := range toks {
		if i > 0 && len(b) > 0 {
			prev := b[len(b)-1]
			need := wordy(prev) && (wordy(t.Text[0]) || t.Text[0] == '+' || t.Text[0] == '-') ||
				strings.IndexByte("+-/=", prev) >= 0 || prev == '/' && (t.Text[0] == '/' || t.Text[0] == '*')
			if need && dense && r.P(1, 3) {
				need = !separate(toks[i-1], t)
			}
			if need || !dense && r.P(4, 5) {
				if !rich {
					b = append(b, ' ')
				} else {
					n := 1 + r.Intn(2)
					if r.P(1, 10) {
						n += r.Intn(5)
					}
					// The first blank must separate: a '#' or '/' does.
					for j := 0; j < n; j++ {
						blank()
					}
				}
			}
		}
		b = append(b, t.Text...)
	}
	if rich {
		for i, n := 0, r.Intn(3); i < n; i++ {
			blank()
		}
		if r.P(1, 10) {
			b = append(b, "// no newline at the end"...)
		}
	}
	return b
}

func comment(r *core.Rand) string {
	return core.Pick(r, "", " x", " struct X { 1: i32 a }", "///", " */ x"[3:], "é 日本語", " \"unbalanced", " 'q", "\t#", " /* nested", "\\", "\r", "@$`~?", "\x01")
}

// AllTokens has one of every token and a few of the classes.
var AllTokens []Tok

func init() {
	for _, k := range Keywords {
		AllTokens = append(AllTokens, Tok{Kind: k, Text: k})
	}
	for _, k := range strings.Fields("== - + * / % & | ^ < > = ! ( [ { , . ) ] } ; :") {
		AllTokens = append(AllTokens, Tok{Kind: k, Text: k})
	}
	for _, k := range []Tok{{Kind: "IDENT", Text: "x"}, {Kind: "IDENT", Text: "a.b"}, {Kind: "IDENT", Text: "é"}, {Kind: "INT", Text: "0"}, {Kind: "INT", Text: "-12"}, {Kind: "INT", Text: "0xfF"},
		{Kind: "FLOAT", Text: "1.5"}, {Kind: "FLOAT", Text: "+2e9"}, {Kind: "STRING", Text: `"s"`}, {Kind: "STRING", Text: "''"}} {
		AllTokens = append(AllTokens, k)
	}
}

// Deep is a document with a type or value of n levels, and its rendering.
func Deep(r *core.Rand, n int) (src []byte, want string) {
	f := &tf.File{}
	open, close := make([]string, 0, n), make([]string, 0, n)
	if r.Bool() {
		var t tf.Type = &tf.TypeRef{Name: &tf.Ident{Name: "x"}}
		for i := 0; i < n; i++ {
			switch r.Intn(4) {
			case 0:
				t = &tf.List{Element: t}
				open, close = append(open, "list<"), append(close, ">")
			case 1:
				t = &tf.Set{Element: t}
				open, close = append(open, "set<"), append(close, ">")
			case 2:
				t = &tf.Map{Key: &tf.TypeRef{Name: &tf.Ident{Name: "k"}}, Value: t}
				open, close = append(open, "map<k,"), append(close, ">")
			case 3:
				t = &tf.Map{Key: t, Value: &tf.TypeRef{Name: &tf.Ident{Name: "v"}}}
				open, close = append(open, "map<"), append(close, ",v>")
			}
		}
		f.Defs = append(f.Defs, &tf.Typedef{Type: t, Name: &tf.Ident{Name: "T"}})
		src = []byte("typedef ")
		for i := n - 1; i >= 0; i-- {
			src = append(src, open[i]...)
		}
		src = append(src, 'x')
		for _, s := range close {
			src = append(src, s...)
		}
		src = append(src, " T"...)
		return src, Render(f)
	}
	var v tf.Value = &tf.Ident{Name: "x"}
	for i := 0; i < n; i++ {
		switch r.Intn(3) {
		case 0:
			if r.P(1, 4) { // siblings
				v = &tf.ValueList{List: []tf.Value{&tf.ValueList{}, v, &tf.Ident{Name: "y"}}}
				open, close = append(open, "[[],"), append(close, core.Pick(r, ",y]", " y]", ";y]"))
				break
			}
			v = &tf.ValueList{List: []tf.Value{v}}
			open, close = append(open, "["), append(close, "]")
		case 1:
			v = &tf.KeyValuePairList{List: []*tf.KeyValuePair{{Key: &tf.Int{Value: "1"}, Value: v}}}
			open, close = append(open, "{1:"), append(close, "}")
		case 2:
			v = &tf.KeyValuePairList{List: []*tf.KeyValuePair{{Key: v, Value: &tf.String{Value: "'v'"}}}}
			open, close = append(open, "{"), append(close, ":'v'}")
		}
	}
	f.Defs = append(f.Defs, &tf.Const{Type: &tf.TypeRef{Name: &tf.Ident{Name: "t"}}, Name: &tf.Ident{Name: "C"}, Value: v})
	src = []byte("const t C=")
	for i := n - 1; i >= 0; i-- {
		src = append(src, open[i]...)
	}
	src = append(src, 'x')
	for _, s := range close {
		src = append(src, s...)
	}
	return src, Render(f)
}

// Wide is a document with n siblings of one kind at one place.
func Wide(r *core.Rand, kind, n int) (src []byte, want string) {
	f := &tf.File{}
	id := func(s string) *tf.Ident { return &tf.Ident{Name: s} }
	ref := func(s string) tf.Type { return &tf.TypeRef{Name: id(s)} }
	typ := func(i int) (string, tf.Type) {
		switch i % 4 {
		case 0:
			return "list<x>", &tf.List{Element: ref("x")}
		case 1:
			return "map<k,set<v>>", &tf.Map{Key: ref("k"), Value: &tf.Set{Element: ref("v")}}
		case 2:
			return "set<list<x>>", &tf.Set{Element: &tf.List{Element: ref("x")}}
		}
		return "t", ref("t")
	}
	var b []byte
	add := func(format string, args ...any) { b = fmt.Appendf(b, format, args...) }
	switch kind {
	case 0: // values of a list
		v := &tf.ValueList{}
		add("const t C=[")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				add("[x]")
				v.List = append(v.List, &tf.ValueList{List: []tf.Value{id("x")}})
			} else {
				add("{1:[]},")
				v.List = append(v.List, &tf.KeyValuePairList{List: []*tf.KeyValuePair{{Key: &tf.Int{Value: "1"}, Value: &tf.ValueList{}}}})
			}
		}
		add("]")
		f.Defs = append(f.Defs, &tf.Const{Type: ref("t"), Name: id("C"), Value: v})
	case 1: // pairs of a map
		v := &tf.KeyValuePairList{}
		add("const t C={")
		for i := 0; i < n; i++ {
			add("[%d]:[[]];", i)
			v.List = append(v.List, &tf.KeyValuePair{Key: &tf.ValueList{List: []tf.Value{&tf.Int{Value: fmt.Sprint(i)}}}, Value: &tf.ValueList{List: []tf.Value{&tf.ValueList{}}}})
		}
		add("}")
		f.Defs = append(f.Defs, &tf.Const{Type: ref("t"), Name: id("C"), Value: v})
	case 2: // typedefs
		for i := 0; i < n; i++ {
			s, t := typ(i)
			add("typedef %s T%d\n", s, i)
			f.Defs = append(f.Defs, &tf.Typedef{Type: t, Name: id(fmt.Sprint("T", i))})
		}
	case 3: // fields
		x := &tf.Struct{Name: id("X"), Fields: &tf.FieldList{}}
		add("struct X {")
		for i := 0; i < n; i++ {
			s, t := typ(i)
			add("%d: %s f%d,", i, s, i)
			x.Fields.List = append(x.Fields.List, &tf.Field{ID: &tf.Int{Value: fmt.Sprint(i)}, Type: t, Name: id(fmt.Sprint("f", i))})
		}
		add("}")
		f.Defs = append(f.Defs, x)
	case 4: // constants
		for i := 0; i < n; i++ {
			s, t := typ(i)
			add("const %s C=[[%d]]\n", s, i)
			f.Defs = append(f.Defs, &tf.Const{Type: t, Name: id("C"), Value: &tf.ValueList{List: []tf.Value{&tf.ValueList{List: []tf.Value{&tf.Int{Value: fmt.Sprint(i)}}}}}})
		}
	}
	return b, Render(f)
}

// Render writes a tree as text; positions are left out.
func Render(x any) string {
	var sb strings.Builder
	render(&sb, reflect.ValueOf(x))
	return sb.String()
}

var posType = reflect.TypeOf(gotoken.Pos(0))

func render(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		render(sb, v.Elem())
	case reflect.Slice:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			render(sb, v.Index(i))
		}
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Type == posType {
				continue
			}
			sb.WriteString(f.Name + ":")
			render(sb, v.Field(i))
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}
