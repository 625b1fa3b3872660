// Package idl is an independent model of the Thrift IDL: a reference lexer, a
// grammar with an Earley recogniser, and a generator of documents with their
// trees. Only the node types come from the code under test.
package idl

import (
	"regexp"
	"unicode/utf8"
)

// Tok is a token. Kind is IDENT, INT, FLOAT, STRING or, for keywords and
// punctuation, the text itself.
type Tok struct {
	Kind string
	Text string
	Off  int
}

var keywordSet = map[string]bool{}

// Keywords of the language.
var Keywords = []string{"include", "namespace", "const", "typedef", "enum", "struct", "union", "exception", "service",
	"required", "optional", "extends", "oneway", "void", "throws", "map", "set", "list"}

func init() {
	for _, k := range Keywords {
		keywordSet[k] = true
	}
}

var (
	reSpace  = regexp.MustCompile(`^[ \t\r\n]+`)
	reLine   = regexp.MustCompile(`^(//|#)[^\n]*`)
	reFull   = regexp.MustCompile(`^/\*(?s:.*?)\*/`)
	reFull0  = regexp.MustCompile(`^/\*`)
	reIdent  = regexp.MustCompile(`^[\p{L}_][\p{L}\p{Nd}_.]*`)
	reNumber = regexp.MustCompile(`^[+-]?(0[xX][0-9a-fA-F]*|[0-9]+(\.[0-9]*)?([eE][+-]?[0-9]*)?)`)
	reFloat  = regexp.MustCompile(`^[+-]?[0-9]+(\.[0-9]*([eE][+-]?[0-9]*)?|[eE][+-]?[0-9]*)$`)
	rePunct  = regexp.MustCompile(`^(==|[-+*/%&|^<>=!(\[{,.)\]};:])`)
)

// LexError is the first lexical fault of a document.
type LexError struct {
	Off   int // the character
	Start int // the token it is in, or Off
	What  string
}

// Lex splits src into tokens up to the first lexical fault.
func Lex(src []byte) (toks []Tok, lexErr *LexError) {
	off := 0
	if len(src) >= 3 && string(src[:3]) == "\ufeff" {
		off = 3
	}
	// badChar is the first character in src[from:to] that may occur nowhere.
	badChar := func(from, to int) (int, string) {
		for i := from; i < to; {
			r, w := utf8.DecodeRune(src[i:])
			switch {
			case src[i] == 0:
				return i, "NUL"
			case r == utf8.RuneError && w == 1:
				return i, "UTF-8"
			case r == 0xfeff && i > 0:
				return i, "BOM"
			}
			i += w
		}
		return -1, ""
	}
	for off < len(src) {
		rest := src[off:]
		if m := reSpace.Find(rest); m != nil {
			off += len(m)
			continue
		}
		m := reLine.Find(rest)
		if m == nil {
			m = reFull.Find(rest)
		}
		if m == nil && reFull0.Match(rest) {
			if i, what := badChar(off, len(src)); i >= 0 {
				return toks, &LexError{i, off, what}
			}
			return toks, &LexError{len(src), off, "comment not terminated"}
		}
		if m != nil {
			if i, what := badChar(off, off+len(m)); i >= 0 {
				return toks, &LexError{i, i, what}
			}
			off += len(m)
			continue
		}
		if i, what := badChar(off, min(off+utf8.UTFMax, len(src))); i == off {
			return toks, &LexError{i, i, what}
		}
		if m = reIdent.Find(rest); m != nil {
			k := "IDENT"
			if keywordSet[string(m)] {
				k = string(m)
			}
			toks = append(toks, Tok{k, string(m), off})
		} else if m = reNumber.Find(rest); m != nil {
			k := "INT"
			if reFloat.Match(m) {
				k = "FLOAT"
			}
			toks = append(toks, Tok{k, string(m), off})
		} else if rest[0] == '"' || rest[0] == '\'' {
			i := off + 1
			for {
				if i >= len(src) {
					return toks, &LexError{len(src), off, "string not terminated"}
				}
				if j, what := badChar(i, min(i+utf8.UTFMax, len(src))); j == i {
					return toks, &LexError{i, off, what}
				}
				c := src[i]
				if c == rest[0] {
					break
				}
				if c == '\n' {
					return toks, &LexError{i, off, "newline in string"}
				}
				if c == '\\' && i+1 < len(src) {
					i++
					switch src[i] {
					case rest[0], '\\', 'n', 'r', 't':
					default:
						return toks, &LexError{i, off, "escape"}
					}
				}
				_, w := utf8.DecodeRune(src[i:])
				i += w
			}
			m = src[off : i+1]
			toks = append(toks, Tok{"STRING", string(m), off})
		} else if m = rePunct.Find(rest); m != nil {
			toks = append(toks, Tok{string(m), string(m), off})
		} else {
			return toks, &LexError{off, off, "character"}
		}
		off += len(m)
	}
	return toks, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// SameLineCol tells whether line:col is the byte offset off. The end of a
// document that ends in a line feed may also be named as the place behind it on
// the last line, as go/token does.
func SameLineCol(src []byte, off, line, col int) bool {
	l, c := LineCol(src, off)
	if l == line && c == col {
		return true
	}
	if off == len(src) && off > 0 && src[off-1] == '\n' {
		l, c = LineCol(src, off-1)
		return l == line && c+1 == col
	}
	return false
}

// LineCol is the position of a byte offset.
func LineCol(src []byte, off int) (line, col int) {
	line, col = 1, 1
	for _, c := range src[:off] {
		if c == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}
