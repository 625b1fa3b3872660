package idl

import "strings"

// The grammar of the Thrift IDL as the package documents it, in BNF. Upper
// case words are token classes; KEYWORD is any keyword.
const grammarText = `
file     : headers defs
headers  : | headers header
header   : include STRING | namespace scope IDENT ann
scope    : * | IDENT
defs     : | defs def
def      : const type IDENT = value seps
         | typedef type IDENT ann seps
         | enum IDENT { evals } ann
         | sword IDENT { fields } ann
         | service IDENT ext { methods } ann
sword    : struct | union | exception
ext      : | extends IDENT
evals    : | evals IDENT einit ann seps
einit    : | = INT
fields   : | fields field seps
field    : fid freq type ref fname default ann
fid      : | INT :
freq     : | required | optional
ref      : | &
fname    : IDENT | KEYWORD
default  : | = value
methods  : | methods method seps
method   : oneway0 ret IDENT ( fields ) throws0 ann
oneway0  : | oneway
ret      : void | type
throws0  : | throws ( fields )
type     : map < type , type > ann | set < type > ann | list < type > ann | IDENT ann
value    : IDENT | INT | FLOAT | STRING | [ values ] | { pairs }
values   : | values value seps
pairs    : | pairs value : value seps
ann      : | ( annots )
annots   : | annots IDENT aval seps
aval     : | = STRING
seps     : | seps , | seps ;
`

type rule struct {
	lhs int
	rhs []int // >= 0: nonterminal, < 0: terminal -1-index
}

var (
	rules    []rule
	byLHS    [][]int
	terms    = map[string]int{}
	nonterms = map[string]int{}
	nullable []bool
)

func init() {
	var lines []string
	for _, l := range strings.Split(strings.TrimSpace(grammarText), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "|") {
			lines[len(lines)-1] += " " + l
		} else {
			lines = append(lines, l)
		}
	}
	for _, l := range lines {
		nonterms[strings.Fields(l)[0]] = len(nonterms)
	}
	byLHS = make([][]int, len(nonterms))
	for _, l := range lines {
		lhs := nonterms[strings.Fields(l)[0]]
		body := l[strings.Index(l, ":")+1:]
		for _, alt := range strings.Split(body, "|") {
			r := rule{lhs: lhs}
			for _, s := range strings.Fields(alt) {
				if n, ok := nonterms[s]; ok {
					r.rhs = append(r.rhs, n)
				} else {
					if _, ok := terms[s]; !ok {
						terms[s] = len(terms)
					}
					r.rhs = append(r.rhs, -1-terms[s])
				}
			}
			byLHS[lhs] = append(byLHS[lhs], len(rules))
			rules = append(rules, r)
		}
	}
	nullable = make([]bool, len(nonterms))
	for changed := true; changed; {
		changed = false
		for _, r := range rules {
			ok := true
			for _, s := range r.rhs {
				if s < 0 || !nullable[s] {
					ok = false
				}
			}
			if ok && !nullable[r.lhs] {
				nullable[r.lhs] = true
				changed = true
			}
		}
	}
}

type item struct{ rule, dot, origin int32 }

type set struct {
	items []item
	have  map[item]bool
	// wait lists, per nonterminal, the items with it after the dot.
	wait map[int][]item
}

func (s *set) add(it item) {
	if !s.have[it] {
		s.have[it] = true
		s.items = append(s.items, it)
	}
}

// Recognise runs an Earley recogniser over the tokens. It returns the index of
// the first token that no valid document can have at its place: len(toks) if
// the tokens are a proper prefix of valid documents only, -1 if they are a
// valid document.
func Recognise(toks []Tok) int {
	start := nonterms["file"]
	var sets []*set
	cur := newSet()
	for _, r := range byLHS[start] {
		cur.add(item{int32(r), 0, 0})
	}
	sets = append(sets, cur)
	for i := 0; ; i++ {
		// close
		for n := 0; n < len(cur.items); n++ {
			it := cur.items[n]
			rhs := rules[it.rule].rhs
			if int(it.dot) == len(rhs) {
				lhs := rules[it.rule].lhs
				from := sets[it.origin]
				for _, w := range from.wait[lhs] {
					cur.add(item{w.rule, w.dot + 1, w.origin})
				}
				continue
			}
			s := rhs[it.dot]
			if s < 0 {
				continue
			}
			if cur.wait[s] == nil {
				for _, r := range byLHS[s] {
					cur.add(item{int32(r), 0, int32(i)})
				}
			}
			cur.wait[s] = append(cur.wait[s], it)
			if nullable[s] {
				cur.add(item{it.rule, it.dot + 1, it.origin})
			}
		}
		if i == len(toks) {
			for _, it := range cur.items {
				if it.origin == 0 && rules[it.rule].lhs == start && int(it.dot) == len(rules[it.rule].rhs) {
					return -1
				}
			}
			return len(toks)
		}
		next := newSet()
		for _, it := range cur.items {
			rhs := rules[it.rule].rhs
			if int(it.dot) < len(rhs) && rhs[it.dot] < 0 && matches(-1-rhs[it.dot], toks[i]) {
				next.add(item{it.rule, it.dot + 1, it.origin})
			}
		}
		if len(next.items) == 0 {
			return i
		}
		sets = append(sets, next)
		cur = next
	}
}

func newSet() *set { return &set{have: map[item]bool{}, wait: map[int][]item{}} }

func matches(term int, t Tok) bool {
	if n, ok := terms[t.Kind]; ok && n == term {
		return true
	}
	return term == terms["KEYWORD"] && keywordSet[t.Kind]
}
