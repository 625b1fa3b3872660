package main

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"runtime"
	"strings"
	"sync"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/idl"
)

const (
	allocConst  = 1 << 20
	allocFactor = 4000
)

func c21(c *core.Ctx) {
	if c.Part == "race" {
		c21race(c)
		return
	}
	c.Cases("bytes", c.N(6000, 60000), func(k *core.K) { survive(k, hostile(k.R, 400)) })
	c.Cases("large", c.N(40, 200), func(k *core.K) { survive(k, hostile(k.R, 1<<17)) })
	ns := nests()
	c.Cases("nest", len(ns), func(k *core.K) {
		pre, unit := ns[k.I][0], ns[k.I][1]
		src := append([]byte(pre), bytes.Repeat([]byte(unit), 2<<20/len(unit))...)
		fset := gotoken.NewFileSet()
		k.Note("%q and then many of %q", pre, unit)
		f, err := tf.Parse(fset, "f", src)
		if f == nil || err == nil {
			k.Fail("%q and then %q all the way: tree %v, error %v", pre, unit, f != nil, err)
		}
		_ = err.Error()
		k.Count("inputs", 1)
		k.Count("nests", 1)
		k.Count("bytes", len(src))
		k.Hit(pre + unit)
	})
	c.Cases("deep", c.N(48, 200), func(k *core.K) {
		n := 1 << k.R.Range(8, 21)
		unit := []string{"list<", "set<", "map<", "map<x,", "[", "{", "{1:", "(", "{x:[", "[{", "<", "list", "&", "struct X {", "struct X { 1: list<", "=", "x(", "\"", "/*", "//", "service X {", "0", "-", "e", ".", "x", "é", "#\n", ",", ";", ":", ")", "}", "\\", "\x00", "\xff", "@", "\n", " ", "const list<", "const x y = [", "'", "typedef map<", "union U {1:list<", "!", "==", "* "}[k.I%47]
		pre := core.Pick(k.R, "", "", "const x y = ", "const ", "struct X { 1: ", "typedef ", "service S { void f(", "struct X {} (a=", "struct X {", "namespace ", "include ", "exception E {x y = ")
		var b bytes.Buffer
		b.WriteString(pre)
		for b.Len() < n {
			b.WriteString(unit)
		}
		if k.R.Bool() {
			post := core.Pick(k.R, ">", "]", "}", ":1}", "*/", ")")
			for b.Len() < 2*n {
				b.WriteString(post)
			}
		}
		src := b.Bytes()
		survive(k, src)
		k.Max("nesting units", int64(n/len(unit)))
	})
}

// nests are all ways to nest: a beginning and a unit to repeat.
func nests() (out [][2]string) {
	types := []string{"typedef ", "const ", "struct X { 1: ", "union X { required ", "exception X { ", "service S { ", "service S { oneway ", "service S { void f(1: ", "service S { void f() throws (1: ", "struct X { 1: i32 a = [], 2: optional "}
	for _, pre := range types {
		for _, unit := range []string{"list<", "set<", "map<", "map<x,", "list<set<", "map<list<", "map<x,map<", "map<set<x>,list<", "map<map<a,b>,", "list<map<"} {
			out = append(out, [2]string{pre, unit})
		}
	}
	values := []string{"const x y = ", "struct X { 1: i32 a = ", "union X { i32 a = ", "service S { void f(1: i32 a = ", "const list<x> y = ", "const x y = 1, const x y = "}
	for _, pre := range values {
		for _, unit := range []string{"[", "{", "{1:", "{x:[", "[{", "{[:", "{[]:{", "[1,", "[[],[", "{1:2,3:", "{'a':1 'b':", "{{}:", "[{},{1:"} {
			out = append(out, [2]string{pre, unit})
		}
	}
	return out
}

// hostile makes bytes that are a document, damaged or not at all one.
func hostile(r *core.Rand, n int) []byte {
	var src []byte
	switch r.Intn(6) {
	case 0:
		return r.Bytes(r.Intn(n))
	case 1:
		for len(src) < r.Intn(n)+1 {
			src = append(src, chars[r.Intn(len(chars))]...)
		}
		return src
	case 2:
		var toks []idl.Tok
		for i := r.Intn(n/4 + 1); i >= 0; i-- {
			toks = append(toks, idl.AllTokens[r.Intn(len(idl.AllTokens))])
		}
		return idl.Layout(r, toks, r.Bool())
	case 3:
		unit := r.Bytes(1 + r.Intn(4))
		return bytes.Repeat(unit, r.Intn(n/4+1))
	}
	d := idl.Gen(r, r.Intn(n/4+1))
	src = idl.Layout(r, d.Toks, r.Bool())
	for i := r.Intn(8); i > 0; i-- {
		src = mutateChars(r, src)
	}
	return src
}

func survive(k *core.K, src []byte) {
	k.Note("input %d bytes: %.2000q", len(src), src)
	fset := gotoken.NewFileSet()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	f, err := tf.Parse(fset, "f", src)
	runtime.ReadMemStats(&after)
	if f == nil {
		k.Fail("Parse returned no tree (error %v)", err)
	}
	used := int64(after.TotalAlloc - before.TotalAlloc)
	if used > allocConst+allocFactor*int64(len(src)) {
		k.Fail("Parse of %d bytes allocated %d bytes", len(src), used)
	}
	if len(src) > 100 {
		k.Max("allocated bytes per input byte", used/int64(len(src)))
	}
	deep := len(src) > 1<<19
	tree := idl.Render(f)
	text := errText(err)
	g, err2 := tf.Parse(core.Pick(k.R, fset, gotoken.NewFileSet()), "f", src)
	if t := errText(err2); t != text {
		k.Fail("parsing the same bytes again gives error %q, before %q", t, text)
	}
	if again := idl.Render(g); again != tree {
		k.FailD(firstDiff(again, tree), "parsing the same bytes again gives another tree")
	}
	k.Count("inputs", 1)
	k.Count("bytes", len(src))
	if err != nil {
		k.Count("refused", 1)
	} else {
		k.Count("accepted", 1)
	}
	if deep {
		k.Hit(fmt.Sprintf("%d %.200q", len(src), src))
	} else if len(src) > 2 {
		k.Hit(string(src))
	}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func c21race(c *core.Ctx) {
	c.Cases("concurrent", c.N(150, 1500), func(k *core.K) {
		n := 2 + k.R.Intn(23)
		srcs := make([][]byte, n)
		names := make([]string, n)
		trees := make([]string, n)
		errs := make([]string, n)
		for i := range srcs {
			if i > 0 && k.R.P(1, 5) {
				srcs[i] = srcs[i-1] // the same bytes, only read
			} else {
				srcs[i] = hostile(k.R, core.Pick(k.R, 100, 1000, 4000))
			}
			names[i] = fmt.Sprintf("f%d", i/core.Pick(k.R, 1, 3))
		}
		// What each gives alone is found out afterwards for most batches: a
		// parse must not depend on an earlier one having prepared something.
		alone := func() {
			for i := range srcs {
				f, err := tf.Parse(gotoken.NewFileSet(), names[i], srcs[i])
				trees[i], errs[i] = idl.Render(f), errText(err)
			}
		}
		first := k.I%4 == 3
		if first {
			alone()
		}
		shared := gotoken.NewFileSet()
		split := k.R.P(1, 4)
		type res struct{ tree, err, panic string }
		got := make([][3]res, n)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range srcs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for rep := range got[i] {
					func() {
						defer func() {
							if r := recover(); r != nil {
								got[i][rep].panic = fmt.Sprint(r)
							}
						}()
						fset := shared
						if split {
							fset = gotoken.NewFileSet()
						}
						f, err := tf.Parse(fset, names[i], srcs[i])
						got[i][rep] = res{idl.Render(f), errText(err), ""}
					}()
				}
			}(i)
		}
		close(start)
		wg.Wait()
		if !first {
			alone()
		}
		for i := range got {
			for _, g := range got[i] {
				if g.panic != "" {
					k.Fail("concurrent Parse of %.500q panics: %s", srcs[i], g.panic)
				}
				if g.err != errs[i] {
					k.Fail("concurrent Parse of %.500q gives error %q, alone %q", srcs[i], g.err, errs[i])
				}
				if g.tree != trees[i] {
					k.FailD(firstDiff(g.tree, trees[i]), "concurrent Parse of %.500q gives another tree", srcs[i])
				}
				k.Count("concurrent parses", 1)
			}
		}
		k.Max("goroutines", int64(n))
		k.Hit(strings.Join(trees, "\n"))
	})
}
