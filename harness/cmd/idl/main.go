// Command idl is the worker for the properties of the IDL parser.
package main

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"regexp"
	"strconv"
	"strings"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/idl"
)

func main() {
	core.Main(map[string]func(*core.Ctx){"C19": c19, "C20": c20, "C21": c21, "C25": c25, "C29": c29})
}

// fileSet is a file set that may already hold other files.
func fileSet(r *core.Rand) *gotoken.FileSet {
	fset := gotoken.NewFileSet()
	switch r.Intn(4) {
	case 0:
		fset.AddFile("other.thrift", -1, r.Intn(1000))
	case 1:
		fset.AddFile("f.thrift", -1, r.Intn(10))
		tf.Parse(fset, "f.thrift", []byte("struct X {\n\n 1: i32 x }\n const"))
	case 2:
		fset.AddFile("", 1<<20, 1<<20)
	}
	return fset
}

func fileName(r *core.Rand) string {
	return core.Pick(r, "f.thrift", "f.thrift", "", "a:b 1:2.thrift", "dir/é.thrift", "x")
}

// parse parses src and checks what must hold whatever src is: the input is
// left alone and the tree shares nothing with it.
func parse(k *core.K, fset *gotoken.FileSet, name string, src []byte) (*tf.File, string, error) {
	in := append(make([]byte, 0, len(src)+8), src...)
	f, err := tf.Parse(fset, name, in)
	if f == nil {
		k.Fail("Parse returned no tree (error %v)", err)
	}
	if !bytes.Equal(in, src) {
		k.Fail("Parse modified its input")
	}
	tree := idl.Render(f)
	text := fmt.Sprint(err)
	for i := range in {
		in[i] ^= 0x55
	}
	if again := fmt.Sprint(err); again != text {
		k.Fail("the error changes when the input buffer is reused: %q, then %q", text, again)
	}
	if tail := in[len(in):cap(in)]; len(bytes.Trim(tail, "\x00")) > 0 {
		k.Fail("Parse wrote behind the end of its input")
	}
	if again := idl.Render(f); again != tree {
		k.FailD("tree "+tree+"\nthen "+again, "the tree changes when the input buffer is reused")
	}
	if err != nil && err.Error() == "" {
		k.Fail("empty error text")
	}
	return f, tree, err
}

func nodes(k *core.K) int {
	switch k.R.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1 + k.R.Intn(3)
	case 2:
		return 100 + k.R.Intn(200)
	}
	return 5 + k.R.Intn(40)
}

func sameToks(a, b []idl.Tok) int {
	n := 0
	for n < len(a) && n < len(b) && a[n].Kind == b[n].Kind && a[n].Text == b[n].Text {
		n++
	}
	return n
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 200
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if hi := i + 200; hi < len(s) {
			s = s[:hi]
		}
		return s[lo:]
	}
	return fmt.Sprintf("got  …%s\nwant …%s", cut(a), cut(b))
}

func c19(c *core.Ctx) {
	c.Cases("docs", c.N(3000, 30000), func(k *core.K) {
		d := idl.Gen(k.R, nodes(k))
		want := idl.Render(d.File)
		if idl.Recognise(d.Toks) != -1 {
			panic(fmt.Sprintf("generated document is not in the grammar: %v", d.Toks))
		}
		for i, n := 0, 3; i < n; i++ {
			src := idl.Layout(k.R, d.Toks, i > 0)
			toks, lerr := idl.Lex(src)
			if lerr != nil || len(toks) != len(d.Toks) || sameToks(toks, d.Toks) != len(toks) {
				panic(fmt.Sprintf("reference lexer disagrees with the generator: %v\n%s", lerr, src))
			}
			checkDoc(k, src, want)
			k.Count("documents", 1)
			k.Count("tokens", len(toks))
		}
		k.Count("definitions", len(d.File.Defs))
		k.Max("tokens", int64(len(d.Toks)))
		if len(d.Toks) > 3 {
			k.Hit(want)
		}
		k.Sample("%s", idl.Layout(k.R, d.Toks, false))
	})
	// Separators and comments are optional everywhere the grammar says so:
	// dropping or adding them changes nothing.
	c.Cases("separators", c.N(1500, 15000), func(k *core.K) {
		d := idl.Gen(k.R, nodes(k))
		want := idl.Render(d.File)
		var toks []idl.Tok
		drop := k.R.Bool()
		for i, t := range d.Toks {
			sep := t.Kind == ";" || t.Kind == "," && !d.Fixed[i]
			if sep && drop {
				continue
			}
			toks = append(toks, t)
			if sep {
				for j := k.R.Intn(3); j > 0; j-- {
					s := core.Pick(k.R, ",", ";")
					toks = append(toks, idl.Tok{Kind: s, Text: s})
				}
			}
		}
		checkDoc(k, idl.Layout(k.R, toks, true), want)
		k.Count("documents", 1)
		if len(toks) > 3 {
			k.Hit("sep" + want)
		}
	})
	c.Cases("deep", c.N(24, 100), func(k *core.K) {
		n := 1 + k.R.Intn(core.Pick(k.R, 50, 1000, 9000))
		if k.I%3 == 0 {
			n = 9999 - k.R.Intn(3) // what is innermost counts as a level
		}
		src, want := idl.Deep(k.R, n)
		checkDoc(k, src, want)
		k.Max("nesting", int64(n))
		k.Hit(fmt.Sprintf("%d %.100s", n, src))
	})
	// Breadth is no depth.
	c.Cases("wide", 5*3, func(k *core.K) {
		n := []int{9999, 10002, 35000}[k.I/5]
		src, want := idl.Wide(k.R, k.I%5, n)
		checkDoc(k, src, want)
		k.Max("siblings", int64(n))
		k.Hit(fmt.Sprintf("%d %.100s", n, src))
	})
	// Sizes: long identifiers, strings, comments, many definitions.
	c.Cases("long", c.N(40, 200), func(k *core.K) {
		n := 1 << k.R.Range(3, 16)
		n += k.R.Intn(5) - 2
		id := strings.Repeat("a", n)
		src := core.Pick(k.R,
			"struct "+id+" {}", "/*"+id+"*/ struct X {}", "//"+id+"\nstruct X {}", "#"+id+"\nstruct X {}", "const i32 a = \""+id+"\"",
			"const i32 a = "+strings.Repeat("7", n), "struct X {}"+strings.Repeat(" ", n), strings.Repeat("\n", n)+"struct X {}",
			"const i32 a = "+strings.Repeat("7", n)+"."+strings.Repeat("1", n)+"e"+strings.Repeat("1", n), "const i32 a = 0x"+strings.Repeat("f", n))
		var want string
		switch {
		case strings.HasPrefix(src, "struct "+id):
			want = idl.Render(&tf.File{Defs: []tf.Def{&tf.Struct{Name: &tf.Ident{Name: id}, Fields: &tf.FieldList{}}}})
		case strings.Contains(src, "struct X"):
			want = idl.Render(&tf.File{Defs: []tf.Def{&tf.Struct{Name: &tf.Ident{Name: "X"}, Fields: &tf.FieldList{}}}})
		default:
			lit := src[len("const i32 a = "):]
			var v tf.Value = &tf.Int{Value: lit}
			if lit[0] == '"' {
				v = &tf.String{Value: lit}
			} else if strings.Contains(lit, ".") {
				v = &tf.Float{Value: lit}
			}
			want = idl.Render(&tf.File{Defs: []tf.Def{&tf.Const{Type: &tf.TypeRef{Name: &tf.Ident{Name: "i32"}}, Name: &tf.Ident{Name: "a"}, Value: v}}})
		}
		checkDoc(k, []byte(src), want)
		k.Hit(src)
		k.Max("bytes", int64(len(src)))
	})
}

func checkDoc(k *core.K, src []byte, want string) {
	_, tree, err := parse(k, fileSet(k.R), fileName(k.R), src)
	if err != nil {
		k.FailD(string(src), "a document of the grammar is refused: %v", err)
	}
	if tree != want {
		k.FailD(firstDiff(tree, want)+"\ndocument:\n"+string(src), "the tree is not what the document spells")
	}
}

var posRE = regexp.MustCompile(`(\d+):(\d+): `)

// verdict is what must be reported about src: the offsets of which one must be
// the first reported position, none if src is valid.
func verdict(src []byte) (toks []idl.Tok, offs []int, why string) {
	toks, lerr := idl.Lex(src)
	i := idl.Recognise(toks)
	switch {
	case i >= 0 && i < len(toks):
		return toks, []int{toks[i].Off}, fmt.Sprintf("token %q", toks[i].Text)
	case lerr != nil:
		return toks, []int{lerr.Off, lerr.Start}, "lexical: " + lerr.What
	case i == len(toks):
		return toks, []int{len(src)}, "premature end"
	}
	return toks, nil, ""
}

// checkVerdict parses src and compares the error with the reference.
func checkVerdict(k *core.K, src []byte) (f *tf.File, tree string, toks []idl.Tok, why string) {
	toks, offs, why := verdict(src)
	name := fileName(k.R)
	f, tree, err := parse(k, fileSet(k.R), name, src)
	if offs == nil {
		if err != nil {
			k.FailD(string(src), "a document of the grammar is refused: %v", err)
		}
		k.Count("still valid", 1)
		return f, tree, toks, ""
	}
	if err == nil {
		k.FailD(string(src), "an ill-formed document is accepted; it stops being valid at offset %d (%s)", offs[0], why)
	}
	text := err.Error()
	if name != "" {
		if !strings.HasPrefix(text, name+":") {
			k.Fail("error %q does not name the file %q", text, name)
		}
		text = text[len(name)+1:]
	}
	m := posRE.FindStringSubmatchIndex(text)
	if m == nil || m[0] != 0 {
		k.Fail("error %q has no position", err)
	}
	line, _ := strconv.Atoi(text[m[2]:m[3]])
	col, _ := strconv.Atoi(text[m[4]:m[5]])
	for _, off := range offs {
		if idl.SameLineCol(src, off, line, col) {
			k.Count("ill-formed: "+strings.SplitN(why, " ", 2)[0], 1)
			return f, tree, toks, why
		}
	}
	l, c := idl.LineCol(src, offs[0])
	k.FailD(string(src), "first reported position is %d:%d, the document stops being valid at %d:%d (%s); error %v", line, col, l, c, why, err)
	return
}

// intact checks that the definitions that end before the fault are unchanged.
func intact(k *core.K, d *idl.Doc, toks []idl.Tok, f *tf.File, tree, why string, src []byte) {
	if why == "" && len(toks) == len(d.Toks) && sameToks(toks, d.Toks) == len(toks) {
		if want := idl.Render(d.File); tree != want {
			k.FailD(firstDiff(tree, want)+"\ndocument:\n"+string(src), "the tree is not what the document spells")
		}
		return
	}
	m := sameToks(toks, d.Toks)
	for i, end := range d.Ends {
		if end > m-1 {
			break
		}
		if i >= len(f.Defs) {
			k.FailD(string(src), "definition %d, before the fault, is missing: %d definitions", i, len(f.Defs))
		}
		got, want := idl.Render(f.Defs[i]), idl.Render(d.File.Defs[i])
		if got != want {
			k.FailD(firstDiff(got, want)+"\ndocument:\n"+string(src), "definition %d, before the fault, is changed", i)
		}
		k.Count("definitions before a fault", 1)
	}
	if len(d.Ends) > 0 && m > d.Ends[0] && len(f.Headers) != len(d.File.Headers) {
		k.FailD(string(src), "%d headers, want %d", len(f.Headers), len(d.File.Headers))
	}
}

func c20(c *core.Ctx) {
	c.Cases("tokens", c.N(6000, 60000), func(k *core.K) {
		d := idl.Gen(k.R, 3+k.R.Intn(40))
		for rep := 0; rep < 4; rep++ {
			toks := append([]idl.Tok(nil), d.Toks...)
			for n := 1 + k.R.Intn(core.Pick(k.R, 1, 1, 3)); n > 0; n-- {
				toks = mutateTokens(k.R, toks)
			}
			src := idl.Layout(k.R, toks, k.R.Bool())
			f, tree, got, why := checkVerdict(k, src)
			intact(k, d, got, f, tree, why, src)
			k.Count("documents", 1)
			if why != "" {
				k.Hit(string(src))
			}
		}
		if k.I < 20 {
			k.Sample("%q", idl.Layout(k.R, mutateTokens(k.R, d.Toks), false))
		}
	})
	c.Cases("chars", c.N(6000, 60000), func(k *core.K) {
		d := idl.Gen(k.R, 3+k.R.Intn(30))
		base := idl.Layout(k.R, d.Toks, true)
		for rep := 0; rep < 4; rep++ {
			src := append([]byte(nil), base...)
			for n := 1 + k.R.Intn(core.Pick(k.R, 1, 1, 3)); n > 0; n-- {
				src = mutateChars(k.R, src)
			}
			f, tree, got, why := checkVerdict(k, src)
			intact(k, d, got, f, tree, why, src)
			k.Count("documents", 1)
			if why != "" {
				k.Hit(string(src))
			}
		}
	})
	// Every cut of a document.
	c.Cases("cuts", c.N(150, 1500), func(k *core.K) {
		d := idl.Gen(k.R, 3+k.R.Intn(12))
		base := idl.Layout(k.R, d.Toks, true)
		step := 1 + len(base)/400
		for n := k.R.Intn(step); n <= len(base); n += step {
			src := base[:n:n]
			f, tree, got, why := checkVerdict(k, src)
			intact(k, d, got, f, tree, why, src)
			k.Count("documents", 1)
			if why != "" {
				k.Hit(string(src))
			}
		}
	})
	// Short token sequences: every place of the grammar meets every token.
	c.Cases("pairs", len(idl.AllTokens), func(k *core.K) {
		d := idl.Gen(k.R, 60)
		for i := 0; i <= len(d.Toks); i++ {
			toks := append([]idl.Tok(nil), d.Toks[:i]...)
			toks = append(toks, idl.AllTokens[k.I])
			if k.R.Bool() && i < len(d.Toks) {
				toks = append(toks, d.Toks[i+1:]...)
			} else {
				toks = append(toks, d.Toks[i:]...)
			}
			src := idl.Layout(k.R, toks, false)
			f, tree, got, why := checkVerdict(k, src)
			intact(k, d, got, f, tree, why, src)
			k.Count("documents", 1)
			if why != "" {
				k.Hit(string(src))
			}
		}
	})
	// Small documents from raw tokens and raw characters.
	c.Cases("soup", c.N(10000, 100000), func(k *core.K) {
		var src []byte
		if k.R.Bool() {
			var toks []idl.Tok
			for n := k.R.Intn(12); n >= 0; n-- {
				toks = append(toks, idl.AllTokens[k.R.Intn(len(idl.AllTokens))])
			}
			src = idl.Layout(k.R, toks, k.R.Bool())
		} else {
			for n := k.R.Intn(30); n >= 0; n-- {
				src = append(src, chars[k.R.Intn(len(chars))]...)
			}
		}
		_, _, _, why := checkVerdict(k, src)
		k.Count("documents", 1)
		if why != "" {
			k.Hit(string(src))
		}
	})
}

var chars = []string{"\ufffd", "\ufffd\xff", "\xff\xff", "\xff\ufffd", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xef\xbf", "/*\xff*/", "//\xff\n", "\"\xff\"", "\"\x00\"", "/*\x00*/", "\x00", "\xff", "\xc3", "\xe6\x97", "\"", "'", "\\", "\ufeff", "\n", "\r", "/", "*", "/*", "*/", "//", "#", " ", "\t", "@", "$", "`", "~", "?", "é", "日", "0", "9", "e", "x", ".", "-", "+", "=", "==", "{", "}", "(", ")", "<", ">", "[", "]", ",", ";", ":", "&", "|", "^", "%", "!", "_", "a", "\\n", "\\x", "\\'", "\\\"", "\U0001F600", "٣", "\u00a0", "\v", "\f", "\x7f", "struct X {}", "list<", "const i32 a = ", "\u2028"}

func mutateChars(r *core.Rand, src []byte) []byte {
	at := r.Intn(len(src) + 1)
	out := append([]byte(nil), src[:at]...)
	switch r.Intn(6) {
	case 0: // delete
		return append(out, src[clamp(at+1, len(src)):]...)
	case 1: // cut
		return out
	case 2: // replace
		out = append(out, chars[r.Intn(len(chars))]...)
		return append(out, src[clamp(at+1, len(src)):]...)
	case 3: // delete a range
		return append(out, src[clamp(at+r.Intn(12), len(src)):]...)
	}
	out = append(out, chars[r.Intn(len(chars))]...)
	return append(out, src[at:]...)
}

func clamp(a, n int) int {
	if a > n {
		return n
	}
	return a
}

func mutateTokens(r *core.Rand, toks []idl.Tok) []idl.Tok {
	n := len(toks)
	at := r.Intn(n + 1)
	out := append([]idl.Tok(nil), toks[:at]...)
	tok := idl.AllTokens[r.Intn(len(idl.AllTokens))]
	if n > 0 && r.P(1, 3) {
		tok = toks[r.Intn(n)]
	}
	switch r.Intn(6) {
	case 0:
		return append(out, toks[clamp(at+1, n):]...)
	case 1:
		return out
	case 2:
		return append(append(out, tok), toks[clamp(at+1, n):]...)
	case 3:
		if at+1 < n {
			return append(append(out, toks[at+1], toks[at]), toks[at+2:]...)
		}
	case 4:
		if at < n {
			return append(append(out, toks[at]), toks[at:]...)
		}
	}
	return append(append(out, tok), toks[at:]...)
}
