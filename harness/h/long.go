package h

import (
	"bytes"
	"strings"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// Inputs far longer than those that are symbolic as a whole: long fixed runs with
// symbolic symbols between them.

var longSizes = []int{9, 17, 33, 65, 129, 257, 513, 1025, 4097}

// aSize is one of the sizes.
func aSize() int {
	lo := sym.Param("lo", 0)
	return longSizes[lo+sym.Choice("size", sym.Param("hi", 3)-lo+1)]
}

// run is a fixed text of n symbols.
func run(n, kind int) string {
	var b []byte
	for i := 0; i < n; i++ {
		switch {
		case kind == 0:
			b = append(b, "adbec"[(i*i+i/3)%5])
		case kind == 1:
			b = append(b, 'a')
		case kind == 3: // no symbol of the fixed ones
			b = append(b, 'y')
		case i%3 == 1:
			b = append(b, "\xd0\x94"...)
		default:
			b = append(b, "abe"[i*i%3])
		}
	}
	return string(b)
}

// long is a family of globs and strings over one run
type long struct {
	root *pat
	runs [3][]Ru // the run, without the last symbol, without the first
}

func newLong(n, kind int) *long {
	l := &long{root: &pat{dom: dName}}
	rs := splitRus(run(n, kind))
	l.runs = [3][]Ru{rs, rs[:n-1], rs[1:]}
	return l
}

// glob of a template: ~ is the run, other symbols as usual
func (l *long) glob(t string) *pat {
	q := &pat{dom: l.root.dom, vars: l.root.vars}
	if q.vars == nil {
		q.vars = map[byte]Ru{}
		l.root.vars = q.vars
	}
	q.long = l.runs[0]
	q.add(t)
	return q
}

// str of a template: ~ the run, < without the last one, > without the first one,
// A-V a letter of the globs, s any symbol, . a dot
func (l *long) str(t string) (rs []Ru) {
	for i := 0; i < len(t); i++ {
		switch c := t[i]; {
		case c == '~':
			rs = append(rs, l.runs[0]...)
		case c == '<':
			rs = append(rs, l.runs[1]...)
		case c == '>':
			rs = append(rs, l.runs[2]...)
		case c == '.':
			rs = append(rs, Ru{B: []byte{'.'}, V: '.'})
		case c == 's':
			rs = append(rs, symRu("s", sym.Choice("shape", sym.Param("shapes", 2)), dPath))
		default:
			rs = append(rs, l.root.letter(c, dName))
		}
	}
	return
}

var longGlobs = []string{"~", "~*", "*~", "~*~", "*~*", "{~,b}~", "~?~", "~[ac]~", "{~A,~b}*", "~{A,b}~*", "*{~,A~}*~", "?~", "*A~", "~A*B", "*{~*,b}A", "~{,A}", "*~?", "{~?,~A~}"}

var longStrs = []string{"~", "<", ">", "s~", "~s", "~~", "~s~", "~ss", "s~s", "<~", "~<", "s<", ">s", "<s>", "~sA", "~s~s", "s~s~"}

func longKind() int { return sym.Choice("kind", sym.Param("kinds", 3)) }

// GlobLong: long globs and strings.
func GlobLong() {
	l := newLong(aSize(), longKind())
	p := l.glob(longGlobs[sym.Choice("glob", len(longGlobs))])
	g, err := glob.Parse(p.str())
	sym.Assert(err == nil, "a well-formed glob is rejected")
	s := l.str(longStrs[sym.Choice("str", sym.Param("strs", len(longStrs)))])
	ref := refMatch(p.toks, s)
	str := ruStr(s)
	m := g.Match(str)
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == ref, "Match disagrees with the meaning of the glob")
	if sym.Param("normal", 0) == 1 {
		g2, err := glob.Parse(g.Node)
		sym.Assert(err == nil, "the normalized glob is rejected")
		sym.Assert(g2.Match(str) == ref, "the normalized glob matches other strings")
		if plainLists(p.toks) {
			sym.Assert(g2.Node == g.Node, "normalization is not idempotent")
		}
	}
	if sym.Param("size", 0) == 0 {
		return
	}
	if n := len(str); n < g.MinLen || g.MaxLen >= 0 && n > g.MaxLen {
		sym.Cover("outside")
		sym.Assert(sym.Not(ref), "a string out of the bounds is meant by the glob")
	}
	min := 0
	for _, it := range g.Items {
		min += it.MinLen()
	}
	if len(g.Items) > 0 {
		sym.Assert(g.MinLen == min+len(g.Prefix)+len(g.Suffix), "MinLen is not the sum of the items")
	}
}

// GlobTreeLong: long globs in a tree, in one of some orders.
func GlobTreeLong() {
	l := newLong(aSize(), longKind())
	tree := glob.NewTree()
	var es []entry
	var ps []*pat
	for i, k := range chosen(2, len(longGlobs)) {
		p := l.glob(longGlobs[k])
		node, n, err := tree.Add(p.str(), theIndex(i))
		if err != nil {
			sym.Assert(err == errExist, "a well-formed glob is rejected")
			continue
		}
		es = append(es, entry{raw: p.str(), node: node, index: n})
		ps = append(ps, p)
	}
	s := l.str(longStrs[sym.Choice("str", sym.Param("strs", len(longStrs)))])
	for i := range es {
		es[i].want = refMatch(ps[i].toks, s)
	}
	r := &rec{}
	checkReports(es, r, tree.Match(ruStr(s), r))
}

// number is three letters k..t
func number(n int) string {
	return string([]byte{byte('k' + n/100), byte('k' + n/10%10), byte('k' + n%10)})
}

func fixedRus(s string) []Ru { return splitRus(s) }

// fixedPat is a fixed text and what it means, without wildcards.
func fixedPat(s string) *pat {
	p := &pat{text: []byte(s)}
	for _, r := range fixedRus(s) {
		p.toks = append(p.toks, Tok{K: 'l', R: r})
	}
	return p
}

// many globs which differ by a number, and how
var manyGlobs = []string{"#", "#*", "*#", "a#b", "a#*b", "{a,b}#", "a{#,c}", "a*#?", "[ab]#"}

// GlobTreeMany: a tree of many globs.
func GlobTreeMany() {
	t := manyGlobs[sym.Choice("glob", len(manyGlobs))]
	n := sym.Param("globs", 40)
	tree := glob.NewTree()
	var es []entry
	var ps []*pat
	dir := sym.Choice("dir", 3)
	for i := 0; i < n; i++ {
		k := i
		switch dir {
		case 1:
			k = n - 1 - i
		case 2:
			k = i * 7 % n
		}
		p := newPat(strings.Replace(t, "#", number(k), 1), dName)
		node, ix, err := tree.Add(p.str(), theIndex(i))
		sym.Assert(err == nil && ix == theIndex(i), "a new glob is rejected")
		es = append(es, entry{raw: p.str(), node: node, index: ix})
		ps = append(ps, p)
	}
	// a string which may be meant by any of them
	var s []Ru
	for _, c := range []byte(t) {
		switch c {
		case '#':
			s = append(s, Ru{B: []byte{'k'}, V: 'k'})
			for i := 0; i < 2; i++ {
				s = append(s, symRu("s", 0, dASCII))
			}
		case '{', ',', '}', '[', ']':
		case '*', '?':
			s = append(s, Ru{B: []byte{'x'}, V: 'x'})
		default:
			if c != 'b' || strings.Contains(t, "#*b") || strings.Contains(t, "#b") {
				if c != 'c' {
					s = append(s, Ru{B: []byte{c}, V: int(c)})
				}
			}
		}
	}
	for i := range es {
		es[i].want = refMatch(ps[i].toks, s)
	}
	r := &rec{}
	checkReports(es, r, tree.Match(ruStr(s), r))
	for i := range es {
		sym.Assert(tree.Globs[es[i].raw] == es[i].index && tree.GlobsIndex[es[i].index] == es[i].node, "a glob is not known")
	}
}

// deep is a dotted text of n levels; hole is put at the level h (no level: -1)
func deep(n, h int, hole string) string {
	t := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			t += "."
		}
		if i == h {
			t += hole
		} else {
			t += string([]byte{"abcd"[i*i%4], 'e'})
		}
	}
	return t
}

var levelCounts = []int{5, 9, 10, 11, 17, 33, 65, 129, 300}

// deepPath is a path for a dotted glob of n levels: levels are missing or added,
// one of them is symbolic.
func deepPath(n int, at []int) (rs []Ru) {
	k := n - 1 + sym.Choice("levels", 3)
	h := at[sym.Choice("hole", len(at))]
	rs = fixedRus(deep(k, h, "<"))
	for i := range rs {
		if rs[i].B[0] == '<' {
			rest := append([]Ru{}, rs[i+1:]...)
			rs = append(rs[:i], symRus("s", sym.Choice("holelen", 3), sym.Param("shapes", 1), dPath)...)
			rs = append(rs, rest...)
			break
		}
	}
	if sym.Choice("dot", 2) == 1 {
		rs = append(rs, Ru{B: []byte{'.'}, V: '.'})
	}
	return
}

var deepHoles = []string{"*", "A*", "{A,AB}", "[ac]e", "A"}

// GGlobLong: dotted globs of many levels, paths of many levels.
func GGlobLong() {
	lo := sym.Param("lo", 0)
	n := levelCounts[lo+sym.Choice("depth", sym.Param("hi", 4)-lo+1)]
	at := []int{n / 2, n - 1}
	h := at[sym.Choice("at", 2)]
	root := &pat{dom: dName}
	var (
		texts []string
		gs    [][]*pat
	)
	k := 1
	if sym.Param("tree", 0) == 1 {
		k = 3
	}
	for i := 0; i < k; i++ {
		var t string
		switch i {
		case 0:
			t = deep(n, h, deepHoles[sym.Choice("glob", sym.Param("holes", len(deepHoles)))])
		case 1:
			t = deep(n, -1, "") // the same levels, no wildcard
		case 2:
			t = deep(n-1, h, "*") // a level less
		}
		text, g := root.dotPat(t)
		texts = append(texts, text)
		gs = append(gs, g)
	}
	s := deepPath(n, at)
	str := ruStr(s)
	if k == 1 {
		g, err := gglob.Parse(texts[0])
		sym.Assert(err == nil && len(g.Parts) == n, "a well-formed glob is rejected")
		want := refDot(gs[0], s)
		m := g.Match(str)
		sym.ObserveBool("m", m)
		coverIf(m, "match", "miss")
		if sym.Param("parts", 0) == 0 {
			sym.Assert(m == want, "Match disagrees with the meaning of the levels")
			return
		}
		if _, ok := refPath(s); ok {
			length := len(str)
			if str[length-1] == '.' {
				length--
			}
			sym.Assert(g.MatchByParts(gglob.PathSplit(str), length) == want, "MatchByParts disagrees")
			var buf []string
			sym.Assert(gglob.PathSplitB(str, &buf) && g.MatchByParts(buf, 0) == want, "MatchByParts of PathSplitB disagrees")
		}
		return
	}
	tree := gglob.NewTree()
	var es []entry
	for i := range texts {
		node, ix, err := tree.Add(texts[i], theIndex(i))
		if err != nil {
			sym.Assert(err == errExist, "a well-formed glob is rejected")
			continue
		}
		es = append(es, entry{raw: texts[i], node: node, index: ix, want: refDot(gs[i], s)})
	}
	r := &rec{}
	checkReports(es, r, tree.Match(str, r))
	if _, ok := refPath(s); ok {
		r = &rec{}
		checkReports(es, r, tree.MatchByParts(gglob.PathSplit(str), r))
	}
}

// PathLong: the ways to split a path of many levels agree.
func PathLong() {
	lo := sym.Param("lo", 0)
	n := levelCounts[lo+sym.Choice("depth", sym.Param("hi", 5)-lo+1)]
	s := deepPath(n, []int{0, n / 2, n - 1, n, -1})
	str := ruStr(s)
	want, ok := refPath(s)
	_, k := gglob.PathLevel(str)
	sym.Assert(k == len(want), "PathLevel counts other levels")
	parts := gglob.PathSplit(str)
	buf := make([]string, sym.Choice("buf", 3)*n/2, n)
	okB := gglob.PathSplitB(str, &buf)
	sym.Assert(okB == ok, "PathSplitB: empty levels")
	sym.Assert(len(parts) == len(want), "PathSplit finds other levels")
	sym.Assert(gglob.HasEmptyParts(parts) == !ok, "HasEmptyParts: empty levels")
	coverIf(ok, "split", "empty level")
	sym.Assert(!ok || len(buf) == len(want), "PathSplitB finds other levels")
	for i := range want {
		sym.Assert(parts[i] == ruStr(want[i]), "PathSplit finds another level")
		sym.Assert(i >= len(buf) || buf[i] == parts[i], "PathSplitB finds another level")
	}
}

// GGlobTreeMany: a tree of many dotted globs.
func GGlobTreeMany() {
	t := []string{"a.#", "#.b", "a.#.c", "a.*.#", "#.*", "{a,b}.#", "a.{#,c}.#", "a#*.b"}[sym.Choice("glob", 8)]
	n := sym.Param("globs", 40)
	tree := gglob.NewTree()
	var es []entry
	var gs [][]*pat
	root := &pat{dom: dName}
	down := sym.Choice("dir", 2) == 1
	for i := 0; i < n; i++ {
		k := i
		if down {
			k = n - 1 - i
		}
		text, g := root.dotPat(strings.Replace(t, "#", number(k), 2))
		node, ix, err := tree.Add(text, theIndex(i))
		sym.Assert(err == nil && ix == theIndex(i), "a new glob is rejected")
		es = append(es, entry{raw: text, node: node, index: ix})
		gs = append(gs, g)
	}
	var s []Ru
	var num []Ru
	for _, c := range []byte(strings.Replace(strings.Replace(t, "{a,b}", "b", 1), "{#,c}", "c", 1)) {
		switch c {
		case '#':
			if num == nil {
				num = []Ru{{B: []byte{'k'}, V: 'k'}, symRu("s", 0, dPath), symRu("s", 0, dPath)}
			}
			s = append(s, num...)
		case '*':
			s = append(s, Ru{B: []byte{'x'}, V: 'x'})
		default:
			s = append(s, Ru{B: []byte{c}, V: int(c)})
		}
	}
	for i := range es {
		es[i].want = refDot(gs[i], s)
	}
	r := &rec{}
	checkReports(es, r, tree.Match(ruStr(s), r))
}

// ExpandLong: more than a thousand strings.
func ExpandLong() {
	root := &pat{dom: dPart}
	var t string
	switch sym.Choice("glob", 5) {
	case 3:
		// one long list
		t = "x{"
		for i := 0; i < 300; i++ {
			t += number(i*37%300) + ","
		}
		t += "A}"
	case 4:
		// values of different sizes
		t = "{"
		for i := 0; i < 60; i++ {
			t += run(i, 0) + ","
		}
		t += "A}{" + run(70, 0) + ",B}"
	case 0:
		// 2048 strings
		t = strings.Repeat("{a,b}", 5) + "c{A,B}" + strings.Repeat("{d,e}", 5)
	case 1:
		// 1100 strings
		t = "{"
		for i := 0; i < 100; i++ {
			t += number(i*37%100) + ","
		}
		t += "A}.{a,b,c,B,d,e,f,g,h,i,j}"
	case 2:
		// 26 * 64 = 1664 strings
		t = "[a-z].A{b,}" + strings.Repeat("{c,}", 5)
	}
	p := root.sub(t)
	got, err := expand.Expand(p.str(), -1, 0)
	sym.Assert(err == nil, "a glob is not expanded")
	want := refExpand(p)
	sym.ObserveInt("count", len(got))
	sym.Assert(sameStrings(got, want), "expanded to other strings")
	if sym.Param("limits", 0) == 0 {
		return
	}
	n := len(want)
	max := []int{1, 2, 31, 100, 1000, 1024, n - 1, n, n + 1, 100000}[sym.Choice("max", 10)]
	got, err = expand.Expand(p.str(), max, 0)
	sym.Assert(err == nil && len(got) > 0 && len(got) <= max, "more strings than the limit")
	if max >= n {
		sym.Cover("fits")
		sym.Assert(sameStrings(got, want), "not expanded when the limit allows")
		return
	}
	sym.Cover("limited")
	// one of the full list is matched by one of the limited
	w := want[[]int{0, n / 2, n - 1}[sym.Choice("which", 3)]]
	sym.Assume(!items.HasWildcard(w))
	m := false
	for _, x := range got {
		g, err := glob.Parse(x)
		sym.Assert(err == nil, "expanded to a malformed glob")
		m = m || g.Match(w)
	}
	sym.Assert(m, "the expanded globs match other strings")
}

// UnescapeLong: long texts with escapes between.
func UnescapeLong() {
	n := aSize()
	pad := []byte(run(n, longKind()))
	a, x := symHex("h")
	c := sym.Byte("c")
	sym.Assume(c != '%' && c != '+')
	units := [][2][]byte{{{'%', a, '1'}, {x<<4 | 1}}, {{c}, {c}}, {{'+'}, {' '}}, {{}, {}}}
	var s, want []byte
	for i := 0; i < 3; i++ {
		u := units[sym.Choice("unit", len(units))]
		s = append(s, u[0]...)
		want = append(want, u[1]...)
		if i < 2 {
			s = append(s, pad[i:]...)
			want = append(want, pad[i:]...)
		}
	}
	got := escape.Unescape(string(s))
	sym.Assert(got == string(want), "Unescape")
	var sb strings.Builder
	sb.WriteString("prefix")
	to := escape.UnescapeTo(string(s), &sb)
	name, tag := escape.UnescapeNameTo(string(s), &sb)
	sym.Assert(to == string(want) && name == string(want) && tag == "__name__="+string(want), "UnescapeTo")
	sym.Assert(got == to && strings.HasPrefix(sb.String(), "prefix"), "the buffer is changed")
}

// EscapeLong: long texts are escaped, and back.
func EscapeLong() {
	n := aSize()
	pad := []byte(run(n, longKind()))
	b := []byte{sym.Byte("s")}
	b = append(b, pad...)
	if sym.Choice("mid", 2) == 1 {
		b = append(b, sym.Byte("s"))
		b = append(b, pad[1:]...)
	}
	for mode := 0; mode < 2; mode++ {
		want := string(refEscape(b, mode))
		var buf bytes.Buffer
		buf.WriteString("x")
		var got string
		if mode == 1 {
			got = escape.Query(string(b))
			escape.QueryTo(string(b), &buf)
			sym.Assert(escape.Unescape(got) == string(b), "Query is not reverted")
		} else {
			got = escape.Path(string(b))
			escape.PathTo(string(b), &buf)
		}
		sym.Assert(got == want, "escaped to another text")
		sym.Assert(buf.String() == "x"+want, "escaped to another text in a buffer")
	}
}

var tagCounts = []int{9, 10, 17, 33, 65, 300, 16, 129, 513}

// PathTagsLong: a path of many tags.
func PathTagsLong() {
	n := tagCounts[sym.Choice("tags", sym.Param("counts", len(tagCounts)))]
	graphite := sym.Choice("format", 2) == 1
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	name := run(sym.Choice("long", 3)*40+1, 0)
	first, next := "?", "&"
	if graphite {
		first, next = ";", ";"
	}
	path := name + first
	want := []gtags.Tag{{Key: "__name__", Value: name}}
	for i := 0; i < n; i++ {
		k, v := "k"+number(i), "v"+number(n-i)
		if i == at {
			k, v = string([]byte{'a', symByte("k", dSep)}), name+string([]byte{sym.Byte("v")})
		}
		if i > 0 {
			path += next
		}
		path += escape.Query(k) + "=" + escape.Query(v)
		want = append(want, gtags.Tag{Key: k, Value: v})
	}
	var (
		tags       []gtags.Tag
		m          map[string]string
		err1, err2 error
	)
	if graphite {
		tags, err1 = gtags.GraphitePathTags(path)
		m, err2 = gtags.GraphitePathTagsMap(path)
	} else {
		tags, err1 = gtags.PathTags(path)
		m, err2 = gtags.PathTagsMap(path)
	}
	sym.Assert(err1 == nil && err2 == nil, "a well-formed path is rejected")
	sym.Assert(len(tags) == len(want) && len(m) == len(want), "another number of tags")
	for i := range want {
		sym.Assert(tags[i].Key == want[i].Key && tags[i].Value == want[i].Value, "another tag")
		sym.Assert(m[want[i].Key] == want[i].Value, "another map of tags")
	}
}

// TagsLong: long keys and values.
func TagsLong() {
	l := newLong(aSize(), longKind())
	var cs []*cond
	long := ruStr(l.runs[0])
	key := [2]string{"k", long}[sym.Choice("key", 2)] + string([]byte{symByte("k", dName)})
	k := 1 + sym.Choice("conds", sym.Param("conds", 1))
	for i := 0; i < k; i++ {
		op := []int{1, 3, 2, 4}[sym.Choice("op", 4)]
		c := &cond{key: key, op: op}
		if op == 2 || op == 4 {
			c.p = &pat{text: []byte("^" + long), toks: append(toksOf(l.runs[0]), Tok{K: '*'})}
			c.text = c.p.str()
			c.node = c.text
		} else {
			c.p = l.glob([]string{"~", "~A", "~*", "*~", "{~A,A}", "~?*", "*A"}[sym.Choice("val", 7)])
			c.text = c.p.str()
			c.node = c.text
			if g, err := glob.Parse(c.text); err == nil && items.HasWildcard(c.text) {
				c.node = g.Node
			}
		}
		cs = append(cs, c)
	}
	q := plainQuery(cs)
	terms, err := gtags.ParseSeriesByTag(q)
	sym.Assert(err == nil, "a well-formed query is rejected")
	what := sym.Param("what", 0)
	if what == 0 {
		checkTerms(terms, cs)
		again, err := gtags.ParseSeriesByTag(terms.String())
		sym.Assert(err == nil && sameTerms(terms, again), "the normal form is parsed to other terms")
		return
	}
	tkey := key
	if sym.Choice("other", 2) == 1 {
		tkey = key[:len(key)-1] + string([]byte{symByte("t", dName)})
	}
	val := l.str([]string{"~", "<", "~s", "s~", "~s~", "s"}[sym.Choice("str", 6)])
	ts := []symTag{{key: "__name__"}, {key: tkey, val: val}}
	tags := []gtags.Tag{{Key: "__name__"}, {Key: tkey, Value: ruStr(val)}}
	want := refTags(cs, ts)
	if what == 1 {
		m := terms.MatchByTags(tags)
		coverIf(m, "match", "miss")
		sym.Assert(m == want, "MatchByTags disagrees with the conditions")
		sym.Assert(terms.MatchByTagsMap(gtags.TagsMap(tags)) == want, "MatchByTagsMap disagrees with the conditions")
		return
	}
	tree := gtags.NewTree()
	node, ix, err := tree.Add(q, 5)
	sym.Assert(err == nil && ix == 5, "a well-formed query is rejected")
	es := []entry{{raw: q, node: node, index: 5, want: want}}
	r := &rec{}
	checkReports(es, r, tree.MatchByTags(tags, r))
	r = &rec{}
	checkReports(es, r, tree.MatchByTagsMap(gtags.TagsMap(tags), r))
}

func toksOf(rs []Ru) (toks []Tok) {
	for _, r := range rs {
		toks = append(toks, Tok{K: 'l', R: r})
	}
	return
}

// TagsTreeMany: many queries, which differ by a value, by a key, or by the second condition.
func TagsTreeMany() {
	n := sym.Param("queries", 30)
	how := sym.Choice("how", 7)
	tree := gtags.NewTree()
	var es []entry
	var css [][]*cond
	down := sym.Choice("dir", 2) == 1
	for i := 0; i < n; i++ {
		k := i
		if down {
			k = n - 1 - i
		}
		num := number(k)
		eq := func(key, val string, op int) *cond {
			c := &cond{key: key, op: op, text: val, node: val, p: fixedPat(val)}
			if strings.HasSuffix(val, "*") {
				c.p.toks[len(c.p.toks)-1].K = '*'
			}
			return c
		}
		var cs []*cond
		switch how {
		case 0:
			cs = []*cond{eq("k", num, 1)}
		case 1:
			cs = []*cond{eq("k", num, 3)}
		case 2:
			cs = []*cond{eq("k"+num, number(5), 1)}
		case 3:
			cs = []*cond{eq("j", number(5), 1), eq("k", num, 1+k%2*2)}
		case 4:
			cs = []*cond{eq("j", num[:2]+"*", 1), eq("k", num, 1)}
		case 5, 6:
			// other keys around the name, which is the last or in the middle
			if i == n/2 && how == 5 || i == n-1 && how == 6 {
				cs = []*cond{eq("__name__", number(5), 1)}
			} else {
				cs = []*cond{eq("k"+num, number(5), 1)}
			}
		}
		q := plainQuery(cs)
		node, ix, err := tree.Add(q, theIndex(i))
		sym.Assert(err == nil && ix == theIndex(i), "a new query is rejected")
		es = append(es, entry{raw: q, node: node, index: ix})
		css = append(css, cs)
	}
	val := []Ru{{B: []byte{'k'}, V: 'k'}, symRu("v", 0, dName), symRu("v", 0, dName)}
	var ts []symTag
	switch how {
	case 5, 6:
		ts = []symTag{{key: "__name__", val: fixedRus(number(5))}, {key: "k" + ruStr(val), val: fixedRus(number(5))}}
	case 2:
		ts = []symTag{{key: "k" + ruStr(val), val: fixedRus(number(5))}}
	case 3:
		ts = []symTag{{key: "j", val: fixedRus(number(5))}, {key: "k", val: val}}
	case 4:
		ts = []symTag{{key: "j", val: val}, {key: "k", val: val}}
	default:
		ts = []symTag{{key: "k", val: val}}
	}
	var tags []gtags.Tag
	for _, t := range ts {
		tags = append(tags, gtags.Tag{Key: t.key, Value: ruStr(t.val)})
	}
	for i := range es {
		es[i].want = refTags(css[i], ts)
	}
	r := &rec{}
	checkReports(es, r, tree.MatchByTags(tags, r))
	r = &rec{}
	checkReports(es, r, tree.MatchByTagsMap(gtags.TagsMap(tags), r))
}

// StoresLong keep many reports.
func StoresLong() {
	k := []int{7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 257, 1025, 4097}[sym.Choice("reports", sym.Param("sizes", 12))]
	min, idx, str, all := items.NewMinStore(), items.NewIndexStore(), items.NewStringStore(), items.NewAllStore()
	at := []int{0, k / 2, k - 1}[sym.Choice("at", 3)]
	grow := []int{0, 1, k / 2, k - 1, k}[sym.Choice("grow", 5)]
	var want []int
	var names []string
	low := -1
	for i := 0; i < k; i++ {
		if i == grow {
			g := []int{1, 5, 64, 100}[sym.Choice("by", 4)]
			idx.Grow(g)
			str.Grow(g)
			all.Grow(g)
		}
		n, name := 5000-i*3%k, number(i)
		if i == at {
			n, name = sym.Int("index"), symStr("s", 1, dAny)
			sym.Assume(n >= 0)
		}
		for _, st := range []items.Store{min, idx, str, all} {
			st.Store(name, n)
		}
		want = append(want, n)
		names = append(names, name)
		if low == -1 || n < low {
			low = n
		}
	}
	sym.Assert(min.Min == low && all.Min.Min == low, "MinStore")
	sym.Assert(len(idx.N) == k && len(all.Index.N) == k && len(str.S) == k && len(all.S.S) == k, "another number of reports")
	for i := range want {
		sym.Assert(idx.N[i] == want[i] && all.Index.N[i] == want[i], "IndexStore")
		sym.Assert(str.S[i] == names[i] && all.S.S[i] == names[i], "StringStore")
	}
	min.Init()
	idx.Init()
	str.Init()
	all.Init()
	sym.Assert(len(idx.N) == 0 && len(all.Index.N) == 0 && len(str.S) == 0 && len(all.S.S) == 0, "Init keeps reports")
	for _, st := range []items.Store{min, idx, str, all} {
		st.Store("again", 3)
	}
	sym.Assert(min.Min == 3 && all.Min.Min == 3 && len(idx.N) == 1 && idx.N[0] == 3 && len(str.S) == 1 && str.S[0] == "again", "reports after Init")
	sym.Assert(len(all.Index.N) == 1 && all.Index.N[0] == 3 && len(all.S.S) == 1 && all.S.S[0] == "again", "reports after Init")
}

// AsciiSetLong: sets of many members, long strings.
func AsciiSetLong() {
	members := []string{"", "bdfhjlnprtvxz", "02468ACEGIKMOQSUWYacegikmoqsuwy", " !#$%&()*+,./:;<=>?@_`{|}~"}[sym.Choice("set", 4)]
	c := byte('k')
	if sym.Param("fixed", 0) == 0 {
		c = sym.Byte("c")
	}
	set, ok := utils.MakeASCIISet(members + string([]byte{c}) + members)
	sym.Assert(ok == (c < 0x80), "MakeASCIISet")
	if !ok {
		return
	}
	has := func(x byte) bool { return sym.Or(x == c, strings.IndexByte(members, x) >= 0) }
	// no member, except for c
	pad := byte('\n')
	n := aSize()
	at := []int{0, n / 2, n - 2, n - 1}
	t := bytes.Repeat([]byte{pad}, n)
	i, j := at[sym.Choice("i", 3)], at[1+sym.Choice("j", 3)]
	t[i], t[j] = sym.Byte("t"), sym.Byte("t")
	first, last := -1, -1
	for k := range t {
		if has(t[k]) {
			if first == -1 {
				first = k
			}
			last = k
		}
	}
	str := string(t)
	sym.ObserveInt("first", first)
	sym.Assert(set.Index(str) == first && set.IndexByte(t) == first, "Index")
	sym.Assert(set.LastIndex(str) == last && set.LastIndexByte(t) == last, "LastIndex")
}

// ClassLong: a class looked for in a long string.
func ClassLong() {
	rs, p := symClass()
	set := p.toks[0].Set
	pad := fixedRus([]string{"~", "\xd1\x8f", "\xe9\xbf\xbf"}[sym.Choice("pad", 3)])[0]
	n := aSize()
	var s []Ru
	for i := 0; i < n; i++ {
		s = append(s, pad)
	}
	i, j := []int{0, n / 2, n - 2}[sym.Choice("i", 3)], []int{n / 2, n - 1}[sym.Choice("j", 2)]
	s[i] = symRu("s", sym.Choice("shape", sym.Param("shapes", 2)), dASCII)
	s[j] = symRu("s", sym.Choice("shape", sym.Param("shapes", 2)), dASCII)
	str := ruStr(s)
	pos, c, w := rs.Index(str)
	pos2, c2, w2 := rs.IndexByte([]byte(str))
	sym.Assert(pos == pos2 && c == c2 && w == w2, "Index and IndexByte differ")
	at, found := 0, false
	for _, r := range s {
		if found {
			break
		}
		in := inSet(set, r)
		if pos == at {
			found = true
			sym.Assert(in && int(c) == r.V && w == len(r.B), "the index of a symbol out of the class")
		} else {
			sym.Assert(sym.Not(in), "a symbol of the class is skipped")
		}
		at += len(r.B)
	}
	coverIf(found, "found", "none")
	sym.Assert(found || pos == -1, "the index is out of the symbols")
	_, w = rs.EndsWith(str)
	sym.Assert((w >= 0) == inSet(set, s[n-1]), "EndsWith")
	_, w = rs.StartsWith(str)
	sym.Assert((w >= 0) == inSet(set, s[0]), "StartsWith")
}

// SkipLong: steps over many symbols.
func SkipLong() {
	n := aSize()
	s := fixedRus(run(n, longKind()))
	i := []int{0, n / 2, n - 1}[sym.Choice("i", 3)]
	shape := []int{0, 1, 2, 3, 7, 8}[sym.Choice("shape", sym.Param("kindsof", 6))]
	if shape == 8 { // a leading byte without the others
		b := sym.Byte("s")
		sym.Assume(b >= 0xC0)
		s[i] = Ru{B: []byte{b}, V: -1}
		if i+1 < n {
			s[i+1] = Ru{B: []byte{'a'}, V: 'a'}
		}
	} else {
		s[i] = symRu("s", shape, dASCII)
	}
	str := ruStr(s)
	k := []int{1, 7, 8, n / 2, n - 1, n, n + 1}[sym.Choice("skip", 7)]
	a, b := utils.StringSkipRunes(str, k), utils.StringSkipRunesLast(str, k)
	off, _ := items.Any(k).Match(str)
	off2, _ := items.Star(k).Match(str)
	if k > n {
		sym.Cover("short")
		sym.Assert(a == -1 && b == -1 && off == -1 && off2 == -1, "symbols out of the string are skipped")
		return
	}
	sym.Cover("skipped")
	want := len(ruStr(s[:k]))
	sym.Assert(a == want && off == want && off2 == want, "StringSkipRunes")
	sym.Assert(b == len(ruStr(s[:n-k])), "StringSkipRunesLast")
}

// PrefixLong: a long common start, many globs.
func PrefixLong() {
	long := run(aSize(), longKind())
	n := []int{2, 3, 9, 33}[sym.Choice("globs", 4)]
	k := sym.Choice("which", 3) * (n - 1) / 2
	x, y := symRu("g", sym.Choice("shape", 3), dLit), symRu("g", sym.Choice("shape", 3), dLit)
	cut := []int{0, len(long) / 2, len(long)}[sym.Choice("cut", 3)]
	for cut > 0 && cut < len(long) && long[cut] >= 0x80 {
		cut++
	}
	tail := []string{"", "*", "{a,b}", "?x", "x"}[sym.Choice("tail", 5)]
	base := long[:cut] + ruStr([]Ru{x}) + long[cut:] + tail
	other := long[:cut] + ruStr([]Ru{y}) + long[cut:] + tail
	var texts []string
	for i := 0; i < n; i++ {
		if i == k {
			texts = append(texts, other)
		} else {
			texts = append(texts, base)
		}
	}
	plain := base[:len(base)-len(tail)]
	if tail == "x" {
		plain = base
	}
	got := items.IntersectGlobs(texts)
	if ruEq(x, y) {
		sym.Cover("same")
		sym.Assert(got == plain, "the common start is not found")
		return
	}
	sym.Cover("differ")
	sym.Assert(len(got) >= cut && len(got) < cut+4 && got[:cut] == long[:cut], "the common start is not found")
	for _, t := range texts {
		sym.Assert(len(t) >= len(got) && t[:len(got)] == got, "not a prefix of a glob")
	}
	if len(x.B) == 1 && len(y.B) == 1 {
		sym.Assert(len(got) == cut, "a prefix beyond the common start")
	}
}

// ItemLong: an item found far from the start.
func ItemLong() {
	item, p := oneItem()
	k := len(p.toks)
	n := aSize()
	pad := fixedRus([]string{"~", "\xd1\x8f"}[sym.Choice("pad", 2)])[0]
	var s []Ru
	i := []int{0, n / 2, n}[sym.Choice("i", 3)]
	for j := 0; j <= n; j++ {
		if i == j {
			s = append(s, symRus("s", k, sym.Param("shapes", 2), dASCII)...)
		}
		if j < n {
			s = append(s, pad)
		}
	}
	str := ruStr(s)
	idx, length, _ := item.Find(str)
	sym.ObserveInt("find", idx)
	off := 0
	for j := 0; j < len(s); j++ {
		at := false
		if j+k <= len(s) {
			at = refMatch(p.toks, s[j:j+k])
		}
		if off == idx {
			sym.Cover("found")
			sym.Assert(at && length == len(ruStr(s[j:j+k])), "Find returns another place")
			return
		}
		sym.Assert(sym.Not(at), "Find misses the item")
		off += len(s[j].B)
	}
	sym.Cover("not found")
	sym.Assert(idx == -1, "Find returns a place out of the symbols")
}

// wideGlobs are dotted globs for levels of many symbols, < is the run.
var wideGlobs = []string{"c.*", "*.c", "c.<A", "<A.c", "*.*", "c.<*", "*A.c", "c.*.<", "c.{<A,A<}", "<.c*"}

// GGlobWide: dotted globs and paths with levels of many symbols, alone and in a tree.
func GGlobWide() {
	n := aSize()
	text := run(n, sym.Param("kind", 0))
	root := &pat{dom: dName}
	var (
		texts []string
		gs    [][]*pat
	)
	k := sym.Param("globs", 1)
	for i := 0; i < k; i++ {
		t := wideGlobs[(sym.Choice("glob", len(wideGlobs))+3*i)%len(wideGlobs)]
		// the run is added after the letters are known
		text, g := root.dotPat(strings.ReplaceAll(t, "<", text))
		texts = append(texts, text)
		gs = append(gs, g)
	}
	levels := [][]Ru{fixedRus("c"), fixedRus(text)}
	if m := sym.Choice("tail", 3); m > 0 {
		x := symRus("s", 1, sym.Param("shapes", 1), dName)
		if m == 1 {
			levels[1] = append(levels[1], x...)
		} else {
			levels[1] = append(x, levels[1]...)
		}
	}
	switch sym.Choice("place", 3) {
	case 1:
		levels[0], levels[1] = levels[1], levels[0]
	case 2:
		levels = append(levels, fixedRus(text))
	}
	var s []Ru
	for i, l := range levels {
		if i > 0 {
			s = append(s, Ru{B: []byte{'.'}, V: '.'})
		}
		s = append(s, l...)
	}
	str := ruStr(s)
	if sym.Param("tree", 0) == 0 {
		g, err := gglob.Parse(texts[0])
		sym.Assert(err == nil && len(g.Parts) == len(gs[0]), "a well-formed glob is rejected")
		want := refDot(gs[0], s)
		m := g.Match(str)
		coverIf(m, "match", "miss")
		sym.Assert(m == want, "Match disagrees with the meaning of the levels")
		sym.Assert(g.MatchByParts(gglob.PathSplit(str), len(str)) == want, "MatchByParts disagrees")
		return
	}
	tree := gglob.NewTree()
	var es []entry
	for i := range texts {
		node, ix, err := tree.Add(texts[i], theIndex(i))
		if err != nil {
			sym.Assert(err == errExist, "a well-formed glob is rejected")
			continue
		}
		es = append(es, entry{raw: texts[i], node: node, index: ix, want: refDot(gs[i], s)})
	}
	r := &rec{}
	checkReports(es, r, tree.Match(str, r))
	r = &rec{}
	checkReports(es, r, tree.MatchByParts(gglob.PathSplit(str), r))
}

// manyVals is a list of n values and one more of them, in some order.
func manyVals(n, order int, last string) string {
	var vs []string
	for i := 0; i < n; i++ {
		v := number(i)
		if order/4 == 1 {
			v = v[:1+i%3]
		}
		if sym.Param("wild", 0) == 1 && i%4 != 2 {
			v += "?"
		}
		vs = append(vs, v)
	}
	switch order % 4 {
	case 1:
		for i := 0; i < n/2; i++ {
			vs[i], vs[n-1-i] = vs[n-1-i], vs[i]
		}
	case 2:
		vs[n-1], vs[n-2] = vs[n-2], vs[n-1]
	case 3:
		for i := range vs {
			j := i * 37 % n
			vs[i], vs[j] = vs[j], vs[i]
		}
	}
	k := []int{n, 0, n / 2}[order%3]
	vs = append(vs[:k], append([]string{last}, vs[k:]...)...)
	return "{" + strings.Join(vs, ",") + "}"
}

// GlobManyVals: lists of many values, alone, in a tree, and written in another order.
func GlobManyVals() {
	n := []int{15, 33, 66, 130, 300}[sym.Choice("vals", sym.Param("vals", 4))]
	root := &pat{dom: dName}
	order := 0
	if sym.Param("spell", 0) == 1 {
		order = sym.Choice("order", 8)
	} else {
		order = 5 * sym.Choice("order", 2)
	}
	ctx := [][2]string{{"", ""}, {"*", ""}, {"c", ""}, {"", "*"}, {"", "c"}, {"c", "?"}}[sym.Choice("around", sym.Param("around", 4))]
	last := []string{"A", "", "cA"}[sym.Choice("last", 3)]
	if sym.Param("wild", 0) == 1 && last != "" {
		last = []string{"A?", "?"}[len(last)-1]
	}
	p := root.sub(ctx[0] + manyVals(n, order, last) + ctx[1])
	g, err := glob.Parse(p.str())
	sym.Assert(err == nil, "a well-formed glob is rejected")
	if sym.Param("spell", 0) == 1 {
		q := root.sub(ctx[0] + manyVals(n, order/4*4+sym.Choice("order2", 4), last) + ctx[1])
		g2, err := glob.Parse(q.str())
		sym.Assert(err == nil, "a well-formed glob is rejected")
		sym.Assert(g.Node == g2.Node && g.MinLen == g2.MinLen && g.MaxLen == g2.MaxLen, "another order of values has another normal form")
		tree := glob.NewTree()
		_, _, err = tree.Add(p.str(), 3)
		sym.Assert(err == nil, "a well-formed glob is rejected")
		_, ix, err := tree.AddGlob(g2, 5)
		sym.Assert(err == errExist && ix == 3, "another spelling is added to a tree")
		return
	}
	if last == "" || last == "?" {
		root.letter('A', dName)
	}
	// a value with one or two symbols changed
	v := fixedRus(number([]int{0, n / 2, n - 1}[sym.Choice("of", 3)]))
	v[2*sym.Choice("i", 2)] = symRu("s", sym.Choice("shape", sym.Param("shapes", 2)), dName)
	if sym.Param("wild", 0) == 1 {
		v = append(v, fixedRus("z")...)
		v = v[:1+sym.Choice("len", 4)]
	} else {
		v = v[:2+sym.Choice("len", 2)]
	}
	c := [][2]string{{"", ""}, {"c", ""}, {"", "c"}}[sym.Choice("with", 3)]
	s := append(fixedRus(c[0]), v...)
	s = append(s, fixedRus(c[1])...)
	want := refMatch(p.toks, s)
	m := g.Match(ruStr(s))
	coverIf(m, "match", "miss")
	sym.Assert(m == want, "Match disagrees with the meaning of the glob")
	if sym.Param("tree", 0) == 1 {
		tree := glob.NewTree()
		node, ix, err := tree.Add(p.str(), 7)
		sym.Assert(err == nil && ix == 7, "a well-formed glob is rejected")
		r := &rec{}
		checkReports([]entry{{raw: p.str(), node: node, index: 7, want: want}}, r, tree.Match(ruStr(s), r))
	}
}
