package main

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"strings"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/idl"
)

var defKeywords = []string{"const", "typedef", "enum", "struct", "union", "exception", "service"}

// startsDef tells whether src begins with a definition keyword.
func startsDef(src []byte) bool {
	n := 0
	for n < len(src) && wordByte(src[n]) {
		n++
	}
	for _, w := range defKeywords {
		if string(src[:n]) == w {
			return true
		}
	}
	return false
}

func wordByte(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// extents returns the offsets of the bad definitions of f, whatever fset holds.
func extents(k *core.K, fset *gotoken.FileSet, f *tf.File, src []byte) (out [][2]int) {
	for i, d := range f.Defs {
		b, ok := d.(*tf.BadDef)
		if !ok {
			continue
		}
		if !b.From.IsValid() || !b.To.IsValid() {
			k.FailD(string(src), "bad definition %d has no position: %d, %d", i, b.From, b.To)
		}
		file := fset.File(b.From)
		if file == nil || fset.File(b.To) != file || file.Size() != len(src) {
			k.FailD(string(src), "bad definition %d does not lie in the file: %d, %d", i, b.From, b.To)
		}
		from, to := file.Offset(b.From), file.Offset(b.To)
		if n := len(out); from >= to || n > 0 && from < out[n-1][1] {
			k.FailD(string(src), "bad definition %d extends from %d to %d, after %v", i, from, to, out)
		}
		for _, o := range []gotoken.Pos{b.From, b.To} {
			off := file.Offset(o)
			if off == len(src) && bytes.HasSuffix(src, []byte("\n")) {
				continue // go/token knows no line that begins at the end
			}
			line := bytes.Count(src[:off], []byte("\n")) + 1
			col := off - bytes.LastIndexByte(src[:off], '\n')
			if p := fset.Position(o); p.Line != line || p.Column != col || p.Offset != off {
				k.FailD(string(src), "offset %d of bad definition %d is said to be line %d column %d, want %d, %d", off, i, p.Line, p.Column, line, col)
			}
		}
		out = append(out, [2]int{from, to})
	}
	return out
}

func renderDefs(defs []tf.Def) string {
	var sb strings.Builder
	for _, d := range defs {
		sb.WriteString(idl.Render(d))
		sb.WriteString("\n")
	}
	return sb.String()
}

// recovery checks that every bad definition ends where the next definition
// begins, and that what follows it is what the rest of the document means.
func recovery(k *core.K, src []byte) {
	k.Note("input %d bytes: %.2000q", len(src), src)
	fset := fileSet(k.R)
	f, _, err := parse(k, fset, "f.thrift", src)
	ext := extents(k, fset, f, src)
	if len(ext) > 0 && err == nil {
		k.FailD(string(src), "no error, although the tree has %d bad definitions", len(ext))
	}
	at := 0
	for i, e := range ext {
		for at < len(f.Defs) {
			at++
			if _, ok := f.Defs[at-1].(*tf.BadDef); ok {
				break
			}
		}
		from, to := e[0], e[1]
		if to < len(src) && !startsDef(src[to:]) {
			k.FailD(string(src), "bad definition %d extends from %d to %d, where no definition begins: %.40q", at-1, from, to, src[to:])
		}
		if to < len(src) && to > 0 && (wordByte(src[to-1]) && !wordEnds(src[:to])) {
			k.FailD(string(src), "bad definition %d ends at %d within a word", at-1, to)
		}
		if i > 3 && i < len(ext)-2 && !k.R.P(1, 8) {
			continue
		}
		rest, _, restErr := parse(k, gotoken.NewFileSet(), "rest", src[to:])
		if len(rest.Headers) != 0 {
			k.FailD(string(src), "the rest at %d has headers", to)
		}
		got, want := renderDefs(f.Defs[at:]), renderDefs(rest.Defs)
		if got != want {
			k.FailD(firstDiff(got, want)+"\ndocument:\n"+string(src), "what follows the bad definition at %d..%d is not what the rest of the document means on its own", from, to)
		}
		if restErr == nil {
			for _, d := range rest.Defs {
				if _, ok := d.(*tf.BadDef); ok {
					k.FailD(string(src[to:]), "no error, although the tree has a bad definition")
				}
			}
		}
		k.Count("recoveries", 1)
		k.Count("definitions after a bad one", len(rest.Defs))
		k.Hit(string(src[from:]))
	}
	k.Count("documents", 1)
}

// wordEnds tells whether the last word of b is a number, which may be followed
// by a word without a blank between them.
func wordEnds(b []byte) bool {
	n := len(b)
	for n > 0 && wordByte(b[n-1]) {
		n--
	}
	return n < len(b) && (b[n] >= '0' && b[n] <= '9' || b[n] == '.')
}

// stems are beginnings of definitions that go on with a type or value.
var stems = []string{
	"const", "const list<", "const map<i32,", "const map<", "const set<list<", "const i32 x =", "const i32 x = [1,", "const i32 x = [1 2", "const i32 x = {1:", "const i32 x = {", "const i32 x = [[], {",
	"typedef", "typedef set<", "typedef map<list<i32>,",
	"struct X { 1:", "struct X { 1: i32 a, 2: required", "struct X { 1: i32 a =", "struct X { 1: i32 a = [", "struct X { 1: i32 a (x=\"y\") 2: list<", "union U {", "union U { a b; 7:", "exception E { 1: optional", "exception E { 1: i32 a = {2: {3:",
	"service S {", "service S extends T { void f(1:", "service S { oneway", "service S { i32 f() throws (1:", "service S { void f(), i32 g(1: i32 a =", "service S { void f() throws () void g(1: map<",
}

// wrongs can begin neither a definition nor a type, value, separator or end.
var wrongs = []string{"&", ":", "=", "==", "%", "^", "!", "|", "/", "<", ".", "throws", "extends", "include", "namespace"}

// fill is what may follow a fault up to the next definition.
var fill = []string{"x", "i32", "7", "0.5", "\"s\"", "'struct X {}'", "(", ")", "[", "]", "{", "}", "<", ">", ",", ";", ":", "=", "list", "map", "set", "void", "throws", "required", "include", "namespace", "/* struct X {} */", "// const i32 x = 1\n", "# enum E {}\n", "structs", "Struct", "const_", "my.struct", "struct.x", "enum2", "+", "-", "*", "éstruct"}

func c25(c *core.Ctx) {
	// A fault at a known place: the definition it is in is bad up to the next
	// one, and everything else is there.
	c.Cases("planted", c.N(8000, 80000), func(k *core.K) {
		var src bytes.Buffer
		var want []string
		var ext [][2]int
		bad := false
		for n := 1 + k.R.Intn(6); n > 0; n-- {
			if src.Len() > 0 {
				src.WriteString(core.Pick(k.R, " ", "\n", "\t", "\n\n", " /* x */ ", "\r\n"))
			}
			at := src.Len()
			if bad {
				ext[len(ext)-1][1] = at
			}
			if k.R.Bool() {
				d := idl.Gen(k.R, 1+k.R.Intn(8))
				if len(d.File.Headers) > 0 || len(d.File.Defs) == 0 {
					continue
				}
				src.Write(idl.Layout(k.R, d.Toks, false))
				for _, x := range d.File.Defs {
					want = append(want, idl.Render(x))
				}
				bad = false
				continue
			}
			if k.R.P(1, 4) && !bad {
				// No definition at all.
				w := core.Pick(k.R, "x", "7", "\"s\"", "(", ")", "[", "]", "{", "}", "<", "list", "map<i32,i32>", "void", ":", "&")
				// What may follow the definition before it would extend it.
				if len(want) == 0 || strings.Contains("x7\"sbmv:&", w[:1]) {
					src.WriteString(w)
				} else {
					src.WriteString("=")
				}
			} else {
				src.WriteString(core.Pick(k.R, stems...))
				if k.R.P(1, 3) {
					// What is wrong is that the next definition begins.
					want, ext, bad = append(want, "BadDef{}"), append(ext, [2]int{at, 0}), true
					continue
				}
				src.WriteString(" ")
				src.WriteString(core.Pick(k.R, wrongs...))
			}
			for j := k.R.Intn(5); j > 0; j-- {
				src.WriteString(core.Pick(k.R, " ", "\n") + core.Pick(k.R, fill...))
			}
			want = append(want, "BadDef{}")
			ext = append(ext, [2]int{at, 0})
			bad = true
		}
		if bad {
			src.WriteString(" &")
			ext[len(ext)-1][1] = src.Len()
		}
		doc := src.Bytes()
		k.Note("%.2000q", doc)
		fset := fileSet(k.R)
		f, _, err := parse(k, fset, "f.thrift", doc)
		var got []string
		for _, d := range f.Defs {
			got = append(got, idl.Render(d))
		}
		if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
			k.FailD(firstDiff(g, w)+"\ndocument:\n"+string(doc), "the definitions around a fault are not what the document spells")
		}
		if (err != nil) != (len(ext) > 0) {
			k.FailD(string(doc), "%d faults, error %v", len(ext), err)
		}
		if g := extents(k, fset, f, doc); fmt.Sprint(g) != fmt.Sprint(ext) {
			k.FailD(string(doc), "the bad definitions extend over %v, want %v", g, ext)
		}
		recovery(k, doc)
	})
	c.Cases("tokens", c.N(8000, 80000), func(k *core.K) {
		d := idl.Gen(k.R, 3+k.R.Intn(60))
		toks := d.Toks
		for n := 1 + k.R.Intn(core.Pick(k.R, 1, 3, 8)); n > 0; n-- {
			toks = mutateTokens(k.R, toks)
		}
		recovery(k, idl.Layout(k.R, toks, k.R.Bool()))
	})
	c.Cases("chars", c.N(8000, 80000), func(k *core.K) {
		d := idl.Gen(k.R, 3+k.R.Intn(60))
		src := idl.Layout(k.R, d.Toks, true)
		for n := 1 + k.R.Intn(core.Pick(k.R, 1, 3, 8)); n > 0; n-- {
			src = mutateChars(k.R, src)
		}
		recovery(k, src)
	})
	// Strings that end too early, in front of or behind anything.
	c.Cases("strings", c.N(4000, 40000), func(k *core.K) {
		d := idl.Gen(k.R, 3+k.R.Intn(30))
		var toks []idl.Tok
		for _, t := range d.Toks {
			toks = append(toks, t)
			if k.R.P(1, 30) || startsDef([]byte(t.Text)) && k.R.P(1, 6) {
				s := core.Pick(k.R, `"\q"`, `"\q`, "\"a\n", `'\x41'`, "'\n", `"\'`, `'\"'`, "\"\\\n", `"`)
				toks = append(toks, idl.Tok{Kind: "STRING", Text: s})
			}
		}
		recovery(k, idl.Layout(k.R, toks, k.R.Bool()))
	})
	c.Cases("hostile", c.N(6000, 60000), func(k *core.K) { recovery(k, hostile(k.R, 400)) })
	// Definitions nested too deeply do not change how deeply later ones may.
	c.Cases("deep", c.N(16, 64), func(k *core.K) {
		var src []byte
		for n := 1 + k.R.Intn(4); n > 0; n-- {
			stem, unit := core.Pick(k.R, "typedef ", "const ", "struct X { 1: "), core.Pick(k.R, "list<", "set<", "map<x,")
			if k.R.Bool() {
				stem, unit = "const x y = ", core.Pick(k.R, "[", "{1:", "{")
			}
			src = append(src, stem...)
			levels := 9997 + k.R.Intn(8)
			if n == 1 {
				// For certain too deep, so that what is behind it stands alone.
				levels = 10002 + k.R.Intn(3)
			}
			src = append(src, bytes.Repeat([]byte(unit), levels)...)
			src = append(src, core.Pick(k.R, " ", " x ", " x >>>", " 1 ", " & ")...)
		}
		doc, want := idl.Deep(k.R, 9999-k.R.Intn(2))
		at := len(src)
		src = append(src, doc...)
		f, _, _ := parse(k, gotoken.NewFileSet(), "f", src)
		rest, _, err := parse(k, gotoken.NewFileSet(), "f", doc)
		if err != nil || idl.Render(rest) != want {
			k.Fail("a definition within the depth limit is refused: %v", err)
		}
		if n := len(f.Defs) - len(rest.Defs); n < 0 || renderDefs(f.Defs[n:]) != renderDefs(rest.Defs) {
			k.FailD(firstDiff(renderDefs(f.Defs), renderDefs(rest.Defs)), "a definition nested too deeply changes those at %d, behind it", at)
		}
		recovery(k, src)
	})
}
