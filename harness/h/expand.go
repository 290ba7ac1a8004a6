package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// templates to expand
var expSets = [][]string{
	0: {"a", "{a,b}", "{a,bc,}", "{a}", "{}", "[X]", "[XY]", "[X-Y]", "[]", "*", "?", "a.b"},
	1: {"{a,b}{c,d}e", "a{b,c}*{d,e}", "[XY]{a,b}", "{a,b}.[XY].{c,d}", "{a,,b}", "x[X-YZ]", "{a,b}{c*,d}{e,f}", "{a,[XY]}b", "a?{b,c}", "{a,b}?c", "[XYZ]", "[X-ZY]", "{a,b,c}{d,e}", "{,a}{,b}", "{a}{b}[X]", "{a,b}*", "*{a,b}", "a{b", "a}b"},
	2: {"[1]", "[12]", "{1,a}", "[1X]", "1{a,1}", "[3X]"},
	3: {"{a,b}.{c,d}.e", "{a,b}.{c,d}.{e,f}", "a.{b,c}.[XY].d", "{a.b,c}.{d,e}", "[XY].*.{a,b}", "{a,b}{c,d}{e,f}", "{a,b}[XY]{c,d,e}", "{a,b,c,d}", "a.b.{c,d}.{e,f}"},
	5: {"[12]", "[21]", "[1-12-2]", "[1-1]{a,[12]}", "[12]*[1-12-2]", "[X12]b"},
	6: {"[1-2]", "[1-2a]", "[11-22]", "[1-2]{a,b}"},
	// symbols which mean something outside of a class
	8: {"[a]b", "[ab]{c,d}", "[a-b]{c,d}", "{a,b}[c-d]e", "[a-bc]*", "[a-b]"},
	// with const=1
	10: {"[)-+]b", "[9-@]{a,b}", "[@-\\]b", "[\\-^]{a,b}", "[z-|]b", "[|-~]{a,b}", "{a,b}[)-+]", "[ab-~]"},
	9:  {"[a-b]{X,Y}", "X[a-bX]", "[X-YZ]a"},
	7:  {"[4]", "[44]", "[4a]", "[a4]{a,b}"},
	4:  {"{a,b}.{c,d}", "a{b,c}*{d,e}", "[XY]{a,b}", "x[X-Y]{a,b}", "{a,b}?c", "{a*,b}{c,d}", "{a,[XY]}{b,c}", "{,a}{,b}", "{a}[X]", "[1]{a,b}", "[1X]", "{a}", "[]a{b,c}", "{}a{b,c}"},
}

func expSet() []string {
	set := expSets[sym.Param("eset", 0)]
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	return set
}

// expPat: a template, its class letters are few and close to each other
func expPat() *pat {
	set := expSet()
	k := 1
	if n := sym.Param("pieces", 1); n > 1 {
		k = 1 + sym.Choice("pieces", n)
	}
	p := &pat{dom: dPart}
	for i := 0; i < k; i++ {
		t := set[sym.Choice("piece", len(set))]
		if t == "a{b" || t == "a}b" {
			// malformed: not expanded
			b := t[1:2]
			p.add("a")
			at := len(p.text)
			p.text = append(p.text, b...)
			p.toks = append(p.toks, Tok{K: '!', At: at})
			p.add("a")
			continue
		}
		p.add(t)
	}
	return p
}

// stops says that nothing is expanded from this token on
func stops(t Tok) bool {
	if t.K == '*' || t.K == '?' || t.K == '!' {
		return true
	}
	for _, alt := range t.Alts {
		for _, x := range alt {
			if x.K != 'l' {
				return true
			}
		}
	}
	for _, x := range t.Set {
		for _, c := range special {
			if x[0].V == int(c) || x[1].V == int(c) {
				return true
			}
		}
	}
	return false
}

const special = "*?[]{}"

// kept says that a class has a range over brackets or wildcards, and is not expanded.
func kept(t Tok) bool {
	for _, x := range t.Set {
		for _, c := range special {
			if sym.And(x[0].V <= int(c), int(c) <= x[1].V) {
				return true
			}
		}
	}
	return false
}

// members of a class in order, each one once
func members(set [][2]Ru) []string {
	if len(set) == 0 {
		return []string{""}
	}
	for _, x := range set {
		sym.Assume(len(x[0].B) == len(x[1].B))
	}
	if len(set) == 1 && set[0][0].V == set[0][1].V {
		return []string{ruStr([]Ru{set[0][0]})}
	}
	var vs []int
	for _, x := range set {
		lo, hi := sym.Concrete(x[0].V), sym.Concrete(x[1].V)
		for v := lo; v <= hi; v++ {
			if v == 0xD800 {
				// surrogates are no symbols
				v = 0xE000
			}
			i := 0
			for i < len(vs) && vs[i] < v {
				i++
			}
			if i == len(vs) || vs[i] != v {
				vs = append(vs, 0)
				copy(vs[i+1:], vs[i:])
				vs[i] = v
			}
		}
	}
	var out []string
	for _, v := range vs {
		out = append(out, string(rune(v)))
	}
	return out
}

// refExpand is the list of strings meant, in order.
func refExpand(p *pat) []string {
	out := []string{""}
	for _, t := range p.toks {
		if stops(t) {
			for k := range out {
				out[k] += string(p.text[t.At:])
			}
			return out
		}
		var vals []string
		switch t.K {
		case 'l':
			vals = []string{ruStr([]Ru{t.R})}
		case '[':
			if kept(t) {
				end := t.At
				for p.text[end] != ']' {
					end++
				}
				vals = []string{string(p.text[t.At : end+1])}
				break
			}
			vals = members(t.Set)
		case '{':
			for _, alt := range t.Alts {
				v := ""
				for _, x := range alt {
					v += ruStr([]Ru{x.R})
				}
				vals = append(vals, v)
			}
		}
		var next []string
		for _, o := range out {
			for _, v := range vals {
				next = append(next, o+v)
			}
		}
		out = next
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, strEq(a[i], b[i]))
	}
	return r
}

// strEq compares without a fork for each byte.
func strEq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// Expand: the full expansion is the list of strings meant by the glob, in order.
func Expand() {
	p := expPat()
	got, err := expand.Expand(p.str(), -1, 0)
	sym.Assert(err == nil, "a glob is not expanded")
	want := refExpand(p)
	sym.ObserveInt("count", len(got))
	if len(want) > 1 {
		sym.Cover("many")
	} else {
		sym.Cover("one")
	}
	sym.Assert(sameStrings(got, want), "expanded to other strings")
	e := expand.ParseExpr(p.str())
	try, err := e.Expand(-1, 0, true)
	sym.Assert(err == nil && len(try) == 1 && strEq(try[0], want[0]), "a try is not the first string")
	again, err := e.Expand(-1, 0, false)
	sym.Assert(err == nil && sameStrings(again, want), "expanded to other strings after a try")
	again, err = e.Expand(-1, 0, false)
	sym.Assert(err == nil && sameStrings(again, want), "expanded to other strings for the second time")
	one, err := expand.ExpandTry(p.str(), -1, 0)
	sym.Assert(err == nil && sameStrings(one, want[:1]), "ExpandTry is not the first string")
}

// ExpandLimits: limits restrict the count of strings, not what they mean.
func ExpandLimits() {
	p := expPat()
	max := sym.Choice("max", sym.Param("max", 5)+2) - 1
	depth := sym.Choice("depth", sym.Param("depth", 3)+1)
	got, err := expand.Expand(p.str(), max, depth)
	sym.Assert(err == nil && len(got) > 0, "a glob is not expanded")
	sym.ObserveInt("count", len(got))
	full := refExpand(p)
	if max > 0 {
		sym.Assert(len(got) <= max, "more strings than the limit")
	} else if max == 0 {
		sym.Assert(len(got) == 1, "expanded when the expansion is disabled")
	} else if depth == 0 {
		sym.Assert(sameStrings(got, full), "expanded to other strings")
	}
	if max >= len(full) && depth == 0 {
		sym.Cover("fits")
		sym.Assert(sameStrings(got, full), "not expanded when the limit allows")
	}
	if len(got) < len(full) {
		sym.Cover("limited")
	}
	s := symLen()
	str := ruStr(s)
	m := false
	for _, x := range got {
		g, err := glob.Parse(x)
		sym.Assert(err == nil, "expanded to a malformed glob")
		if g.Match(str) {
			m = true
		}
	}
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == refMatch(p.toks, s), "the expanded globs match other strings")
	try, err := expand.ExpandTry(p.str(), max, depth)
	sym.Assert(err == nil && len(try) == 1, "a try is not one string")
	sym.Assert(strEq(try[0], got[0]), "a try is not the first string")
}

// ExpandDepth: levels of a path below the limit are expanded, others are kept.
func ExpandDepth() {
	p := expPat()
	depth := 1 + sym.Choice("depth", sym.Param("depth", 3))
	got, err := expand.Expand(p.str(), -1, depth)
	sym.Assert(err == nil, "a glob is not expanded")
	// the text of the first levels is expanded
	n, cut := 0, len(p.toks)
	for i, t := range p.toks {
		if t.K == 'l' && t.R.B[0] == '.' && len(t.R.B) == 1 {
			n++
			if n == depth {
				cut = i
				break
			}
		}
	}
	q := &pat{text: p.text, toks: p.toks[:cut]}
	want := refExpand(q)
	if cut < len(p.toks) {
		for k := range want {
			stopped := false
			for _, t := range q.toks {
				stopped = stopped || stops(t)
			}
			if !stopped {
				want[k] += string(p.text[p.toks[cut].At:])
			}
		}
		sym.Cover("cut")
	}
	sym.Assert(sameStrings(got, want), "other levels are expanded")
}

// rawExpand is what any text is expanded to, not known for reversed ranges and classes of bytes.
func rawExpand(t string) (out []string, ok bool) {
	b := make([]byte, len(t))
	for i := range b {
		b[i] = byte(sym.Concrete(int(t[i])))
	}
	t = string(b)
	out = []string{""}
	all := func(vals ...string) {
		var next []string
		for _, o := range out {
			for _, v := range vals {
				next = append(next, o+v)
			}
		}
		out = next
	}
	for i := 0; i < len(t); i++ {
		stop := i
		if t[i] == '[' || t[i] == '{' {
			stop = i + 1
			for stop < len(t) && strings.IndexByte("[]{}*?", t[stop]) < 0 {
				stop++
			}
		}
		switch body := t[i:]; {
		case strings.IndexByte("*?]}", t[i]) >= 0, stop == len(t), stop > i && t[stop] != t[i]+2:
			// nothing is expanded from here on
			all(body)
			return out, true
		case t[i] == '{':
			all(strings.Split(t[i+1:stop], ",")...)
			i = stop
		case t[i] == '[':
			// a - is the mark of a range, and no symbol
			set, last, dash := map[byte]bool{}, -1, false
			for j := i + 1; j < stop; j++ {
				switch c := t[j]; {
				case c >= 0x80:
					return nil, false
				case c == '-':
					dash = true
				case dash && int(c) < last:
					return nil, false
				case dash && last >= 0:
					for k := last; k <= int(c); k++ {
						set[byte(k)] = true
					}
					last, dash = -1, false
				default:
					set[c] = true
					last, dash = int(c), false
				}
			}
			var vals []string
			for c := 0; c < 0x80; c++ {
				if set[byte(c)] && strings.IndexByte(special, byte(c)) >= 0 {
					vals = []string{t[i : stop+1]}
					break
				}
				if set[byte(c)] {
					vals = append(vals, string(rune(c)))
				}
			}
			if len(vals) == 0 {
				vals = []string{""}
			}
			all(vals...)
			i = stop
		default:
			all(t[i : i+1])
		}
	}
	return out, true
}

// ExpandRaw: any text is expanded, not to more than the limit, and keeps its plain parts.
func ExpandRaw() {
	t := symRaw(sym.Choice("gn", sym.Param("gn", 4)+1))
	got, err := expand.Expand(t, -1, 0)
	if err != nil {
		sym.Cover("rejected")
		return
	}
	sym.Assert(len(got) > 0, "expanded to nothing")
	sym.ObserveInt("count", len(got))
	if strings.IndexAny(t, "[]{}*?") == -1 {
		sym.Cover("plain")
		sym.Assert(len(got) == 1 && got[0] == t, "a plain string is changed")
	}
	if want, ok := rawExpand(t); ok {
		sym.Cover("known")
		sym.Assert(sameStrings(got, want), "expanded to other strings")
	}
	again, err := expand.Expand(t, -1, 0)
	sym.Assert(err == nil && sameStrings(again, got), "expanded to other strings for the second time")
	if len(t) > 0 {
		max := sym.Choice("max", 3) + 1
		part, err := expand.Expand(t, max, 0)
		sym.Assert(err == nil && len(part) > 0 && len(part) <= max, "more strings than the limit")
	}
}
