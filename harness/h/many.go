package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

var manyCounts = []int{17, 65, 130, 257, 300}

// a part of a glob, and what it matches
var manyUnits = [][3]string{
	{"?", "c", "c"},
	{"d", "d", "d"},
	{"[ab]", "a", "b"},
	{"{a,bc}", "bc", "a"},
	{"?a", "ca", "aa"},
	{"{a?,b}", "ac", "b"},
}

// what is around of many parts, and what this matches
var manyAround = [][4]string{
	{"", "", "", ""},
	{"a", "b", "a", "b"},
	{"?", "?", "e", "e"},
	{"*", "", "e", ""},
	{"a", "*b", "a", "ecb"},
}

func manyCount() int {
	lo := sym.Param("lo", 0)
	return manyCounts[lo+sym.Choice("count", sym.Param("hi", 4)-lo+1)]
}

// manyParts is a glob of n parts, and a string of about n such ones.
func manyParts(n int) (p *pat, s []Ru) {
	root := &pat{dom: dName}
	u := manyUnits[sym.Choice("unit", sym.Param("units", len(manyUnits)))]
	a := manyAround[sym.Choice("around", sym.Param("around", len(manyAround)))]
	p = root.sub(a[0] + strings.Repeat(u[0], n) + a[1])
	m := n + []int{0, -1, 1}[sym.Choice("more", 3)]
	b := []byte(a[2])
	for i := 0; i < m; i++ {
		b = append(b, u[1+i%2]...)
	}
	b = append(b, a[3]...)
	s = fixedRus(string(b))
	i := []int{len(s) - 1, 0, len(s) / 2}[sym.Choice("at", 3)]
	s[i] = symRu("s", sym.Choice("shape", sym.Param("shapes", 1)), dName)
	return
}

// GlobMany: globs of many parts.
func GlobMany() {
	if sym.Param("bad", 0) == 1 {
		manyBad(manyCount())
		return
	}
	p, s := manyParts(manyCount())
	text := p.str()
	g, err := glob.Parse(text)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	ref := refMatch(p.toks, s)
	str := ruStr(s)
	m := g.Match(str)
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == ref, "Match disagrees with the meaning of the glob")
	switch sym.Param("what", 0) {
	case 1:
		g2, err := glob.Parse(g.Node)
		sym.Assert(err == nil, "the normalized glob is rejected")
		sym.Assert(g2.Match(str) == ref, "the normalized glob matches other strings")
		sym.Assert(g2.MinLen == g.MinLen && g2.MaxLen == g.MaxLen, "the normalized glob has other bounds")
		if plainLists(p.toks) {
			sym.Assert(g2.Node == g.Node, "normalization is not idempotent")
		}
	case 2:
		if n := len(str); n < g.MinLen || g.MaxLen >= 0 && n > g.MaxLen {
			sym.Cover("outside")
			sym.Assert(sym.Not(ref), "a string out of the bounds is meant by the glob")
		}
	case 3:
		tree := glob.NewTree()
		node, ix, err := tree.Add(text, 7)
		sym.Assert(err == nil && ix == 7, "a well-formed glob is rejected")
		_, ix, err = tree.Add(text+"z", 9)
		sym.Assert(err == nil && ix == 9, "a well-formed glob is rejected")
		last := s[len(s)-1]
		z := glob.ParseMust(text + "z").Node
		r := &rec{}
		es := []entry{
			{raw: text, node: node, index: 7, want: ref},
			{raw: text + "z", node: z, index: 9, want: sym.And(is(last, 'z'), refMatch(p.toks, s[:len(s)-1]))},
		}
		checkReports(es, r, tree.Match(str, r))
	case 4:
		// as levels
		gg, err := gglob.Parse("a." + text + ".*")
		sym.Assert(err == nil, "a well-formed glob is rejected")
		sym.Assert(gg.Match("a."+str+".c") == ref, "Match disagrees with the meaning of the levels")
		sym.Assert(gg.MatchByParts([]string{"a", str, "c"}, len(str)+4) == ref, "MatchByParts disagrees")
		tree := gglob.NewTree()
		node, _, err := tree.Add("a."+text+".*", 3)
		sym.Assert(err == nil, "a well-formed glob is rejected")
		r := &rec{}
		checkReports([]entry{{raw: "a." + text + ".*", node: node, index: 3, want: ref}}, r, tree.Match("a."+str+".c", r))
	}
}

// manyBad: a malformed part before or after of many good ones.
func manyBad(n int) {
	good := strings.Repeat(manyUnits[sym.Choice("unit", len(manyUnits))][0], n)
	bad := []string{"[A", "{A", "]A", "}A", "A]", "{A,*", "[A*", "*]A", "{A?"}[sym.Choice("bad", 9)]
	bad = strings.Replace(bad, "A", string([]byte{symByte("g", dName)}), 1)
	open := strings.ContainsAny(bad, "[{")
	text := good + bad
	switch sym.Choice("badat", 3) {
	case 1:
		text = bad + "?c"
		if !open {
			text += good
		}
	case 2:
		text = good + "*" + bad + "*"
		if !open {
			text += good
		}
	}
	_, err := glob.Parse(text)
	sym.Assert(err != nil, "a malformed glob is accepted")
	_, err = gglob.Parse("a." + text + ".b")
	sym.Assert(err != nil, "a malformed dotted glob is accepted")
	_, _, err = glob.NewTree().Add(text, 1)
	sym.Assert(err != nil, "a tree accepts a malformed glob")
}

// WildcardsMany: many wildcards are counted and found.
func WildcardsMany() {
	n := manyCount()
	u := []string{"*", "?", "a*", "[a]", "{a}", "\xd1\x8f?", "}", "a]"}[sym.Choice("unit", 8)]
	b := []byte(strings.Repeat(u, n))
	i, j := []int{0, n / 2, len(b) - 2}[sym.Choice("i", 3)], len(b)-1
	if b[i] < 0x80 {
		b[i] = sym.Byte("c")
		sym.Assume(b[i] < 0x80)
	}
	b[j] = sym.Byte("c")
	sym.Assume(b[j] < 0x80)
	count, first, last := 0, -1, -1
	for k, c := range b {
		open := sym.Or(sym.Or(c == '[', c == '{'), sym.Or(c == '*', c == '?'))
		if open {
			count++
		}
		if sym.Or(open, sym.Or(c == ']', c == '}')) {
			if first == -1 {
				first = k
			}
			last = k
		}
	}
	t := string(b)
	sym.ObserveInt("count", count)
	sym.Assert(items.WildcardCount(t) == count && gglob.WildcardCount(t) == count, "WildcardCount")
	sym.Assert(items.IndexWildcard(t) == first && gglob.IndexWildcard(t) == first, "IndexWildcard")
	sym.Assert(items.IndexLastWildcard(t) == last && gglob.IndexLastWildcard(t) == last, "IndexLastWildcard")
	sym.Assert(items.HasWildcard(t) == (first >= 0) && gglob.HasWildcard(t) == (first >= 0), "HasWildcard")
}

// SpellMany: spellings of a glob with many wildcards or values.
func SpellMany() {
	n := manyCount()
	root := &pat{dom: dName}
	l := string(root.letter('A', dName).B)
	kind := sym.Choice("kind", 4)
	spell := func() string {
		i := []int{0, 1, n / 2, n - 1, n}[sym.Choice("i", 5)]
		switch kind {
		case 0: // one star and n ?
			return strings.Repeat("?", i) + "*" + strings.Repeat("?", n-i)
		case 1: // many stars
			return strings.Repeat("*", i+1) + "?" + strings.Repeat("*", n-i)
		case 2: // repeated values
			return "{" + strings.Repeat("ab,", i) + l + strings.Repeat(",ab", n-i) + ",ab,c}"
		default: // repeated symbols
			return "[" + strings.Repeat("d", i) + "a" + l + strings.Repeat("ad", n-i) + "d]"
		}
	}
	a, b := spell(), spell()
	c := [][2]string{{"", ""}, {l, ""}, {"", l}}[sym.Choice("around", 3)]
	g, err := glob.Parse(c[0] + a + c[1])
	sym.Assert(err == nil, "a well-formed glob is rejected")
	g2, err := glob.Parse(c[0] + b + c[1])
	sym.Assert(err == nil, "a well-formed glob is rejected")
	sym.Assert(g.Node == g2.Node && g.MinLen == g2.MinLen && g.MaxLen == g2.MaxLen, "two spellings of one glob differ")
	if a == b {
		return
	}
	tree := glob.NewTree()
	_, _, err = tree.Add(c[0]+a+c[1], 3)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	_, ix, err := tree.Add(c[0]+b+c[1], 5)
	sym.Assert(err == errExist && ix == 3, "another spelling is added to a tree")
}

// CondsMany: queries of many conditions, and as many tags.
func CondsMany() {
	n := []int{9, 17, 33, 65, 128}[sym.Param("lo", 0)+sym.Choice("conds", sym.Param("hi", 4)-sym.Param("lo", 0)+1)]
	root := &pat{dom: dName}
	order := sym.Choice("order", sym.Param("orders", 3))
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	op := sym.Choice("op", sym.Param("ops", 4))
	var cs []*cond
	for i := 0; i < n; i++ {
		j := i
		switch order {
		case 1:
			j = n - 1 - i
		case 2:
			j = (i*37 + 5) % n
		}
		k := number(j)
		t := []string{k + "=v", k + "!=w", k + "=v*", k + "=~6"}[(j+op)%4]
		if t[3:] == "=~6" {
			t = k + "!=~6"
		}
		c := root.cond(t)
		if i == at {
			// a key which may be another one
			c.key = k[:2] + string([]byte{symByte("k", dName)})
		}
		cs = append(cs, c)
	}
	q := plainQuery(cs)
	terms, err := gtags.ParseSeriesByTag(q)
	sym.Assert(err == nil, "a well-formed query is rejected")
	what := sym.Param("what", 0)
	if what == 0 {
		checkTerms(terms, cs)
		again, err := gtags.ParseSeriesByTag(terms.String())
		sym.Assert(err == nil && sameTerms(terms, again), "the normal form is parsed to other terms")
		for i := range cs[:n/2] {
			cs[i], cs[n-1-i] = cs[n-1-i], cs[i]
		}
		again, err = gtags.ParseSeriesByTag(plainQuery(cs))
		sym.Assert(err == nil && again.String() == terms.String(), "another order of conditions has another normal form")
		return
	}
	var ts []symTag
	ts = append(ts, symTag{key: "__name__"})
	drop := []int{-1, 0, n / 2, n - 1}[sym.Choice("drop", 4)]
	change := []int{0, n / 2, n - 1}[sym.Choice("change", 3)]
	for i := 0; i < n; i++ {
		if i == drop {
			continue
		}
		v := fixedRus("v")
		if i == change {
			v = symRus("v", 1, 1, dName)
		}
		ts = append(ts, symTag{key: number(i), val: v})
	}
	var tags []gtags.Tag
	for _, t := range ts {
		tags = append(tags, gtags.Tag{Key: t.key, Value: ruStr(t.val)})
	}
	want := refTags(cs, ts)
	if what == 1 {
		m := terms.MatchByTags(tags)
		coverIf(m, "match", "miss")
		sym.Assert(m == want, "MatchByTags disagrees with the conditions")
		sym.Assert(terms.MatchByTagsMap(gtags.TagsMap(tags)) == want, "MatchByTagsMap disagrees with the conditions")
		return
	}
	tree := gtags.NewTree()
	node, ix, err := tree.Add(q, 5)
	sym.Assert(err == nil && ix == 5, "a well-formed query is rejected")
	es := []entry{{raw: q, node: node, index: 5, want: want}}
	r := &rec{}
	checkReports(es, r, tree.MatchByTags(tags, r))
	r = &rec{}
	checkReports(es, r, tree.MatchByTagsMap(gtags.TagsMap(tags), r))
}

// ErrorsLong: errors of long texts.
func ErrorsLong() {
	n := manyCount()
	l := string([]byte{symByte("g", dName)})
	long := run(n, 0) + l + run(n, 1)
	fails := func(err error, f func(), add func() error) {
		sym.Assert(err != nil, "what is malformed is accepted")
		if f != nil {
			e := caught(f)
			perr, ok := e.(error)
			sym.Assert(ok && perr == err, "ParseMust does not panic with the error")
		}
		sym.Assert(add() == err, "a tree gives another error")
	}
	switch sym.Choice("kind", 6) {
	case 0:
		t := long + []string{"[", "{", "]", "}", "?[", "*}", "*{a"}[sym.Choice("bad", 7)] + run(n, 0)
		_, err := glob.Parse(t)
		sym.Assert(bracketErr(err, t), "an error of another kind")
		fails(err, func() { glob.ParseMust(t) }, func() error { _, _, err := glob.NewTree().Add(t, 1); return err })
	case 1:
		t := []string{long + "..a", long + ".b..c", "a." + strings.Repeat("bc.", n) + l + "..a", ".." + long}[sym.Choice("empty", 4)]
		_, err := gglob.Parse(t)
		x, ok := err.(items.ErrNodeEmpty)
		sym.Assert(ok && x.Path == t && textHas(err, t), "an empty level has another error")
		fails(err, func() { gglob.ParseMust(t) }, func() error { _, _, err := gglob.NewTree().Add(t, 1); return err })
	case 2:
		t := []string{"byTag('a=" + long + "')", "seriesByTag('a=" + long + "'", long}[sym.Choice("call", 3)]
		_, err := gtags.ParseSeriesByTag(t)
		x, ok := err.(gtags.ErrQueryInvalid)
		sym.Assert(ok && x.Query == t && textHas(err, t), "what is not a call has another error")
		fails(err, nil, func() error { _, _, err := gtags.NewTree().Add(t, 1); return err })
	case 3:
		t := []string{"seriesByTag('a=" + long + ")", "seriesByTag('a=b', " + long + ")", "seriesByTag(" + long + "'a=b')"}[sym.Choice("quote", 3)]
		_, err := gtags.ParseSeriesByTag(t)
		x, ok := err.(gtags.ErrNodeNotTerminated)
		sym.Assert(ok && x.Node != "" && strings.Contains(t, x.Node) && textHas(err, x.Node), "what is not quoted has another error")
		fails(err, nil, func() error { _, _, err := gtags.NewTree().Add(t, 1); return err })
	case 4:
		c := []string{long, long + "!a", "=" + long, "a=~(" + long, " =" + long}[sym.Choice("cond", 5)]
		t := "seriesByTag('a=b','" + c + "','c=d')"
		_, err := gtags.ParseSeriesByTag(t)
		x, ok := err.(gtags.ErrExprInvalid)
		sym.Assert(ok && x.Node != "" && strings.Contains(c, x.Node) && textHas(err, x.Node), "what is not a condition has another error")
		fails(err, nil, func() error { _, _, err := gtags.NewTree().Add(t, 1); return err })
	case 5:
		t := []string{long, long + "?a=b&" + l, "a?b=" + long + "&" + l, "a?b=c&" + long}[sym.Choice("path", 4)]
		_, err := gtags.PathTags(t)
		x, ok := err.(gtags.ErrPathInvalid)
		sym.Assert(ok && textHas(err, x.Node) && (x.Node == "name" || x.Node != "" && strings.HasSuffix(t, x.Node)), "a broken path has another error")
		_, err2 := gtags.PathTagsMap(t)
		_, ok = err2.(gtags.ErrPathInvalid)
		sym.Assert(ok, "a broken path has another error")
		err2 = gtags.PathTagsMapB(t, map[string]string{})
		_, ok = err2.(gtags.ErrPathInvalid)
		sym.Assert(ok, "a broken path has another error")
	}
}

// ReadLong: calls with long inputs share nothing.
func ReadLong() {
	n := manyCount()
	l := string([]byte{symByte("g", dName)})
	long := run(n, 0) + l + run(n, 2)
	p := (&pat{dom: dName}).sub(manyUnits[sym.Choice("unit", len(manyUnits))][0])
	many := "a*" + strings.Repeat(p.str(), n) + l + "*"
	g, err := glob.Parse(many)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	tree := glob.NewTree()
	tree.Add(many, 1)
	gtree := gglob.NewTree()
	gtree.Add("a."+many, 1)
	path := strings.Repeat("b.", n) + l
	esc := long + "%" + strings.Repeat("%41+", n) + l
	tagged := long + "?a=" + strings.Repeat("b%20", n) + "&" + l + "=c"
	calls := func() []string {
		m := g.Match("a" + long)
		k := tree.Match("a"+long, &rec{}) + gtree.Match("a.a"+long, &rec{})
		tags, _ := gtags.PathTags(tagged)
		r := []string{escape.Query(esc), escape.Path(esc), escape.Unescape(esc), gtags.TagsMap(tags)["a"], strings.Join(gglob.PathSplit(path), ","), "f"}
		if m || k > 0 {
			r[5] = "t"
		}
		x, _ := glob.Parse(many)
		terms, _ := gtags.ParseSeriesByTag("seriesByTag('a=" + long + "*', 'b!=c')")
		return append(r, x.Node, terms.String())
	}
	var one []string
	sym.ReadOnly(func() { calls() })
	one = calls()
	two := calls()
	for i := range one {
		sym.Assert(one[i] == two[i], "an answer after another call differs")
	}
}

// RandomMany: a random example of a glob of many parts or values.
func RandomMany() {
	n := manyCount()
	root := &pat{dom: dName}
	var t string
	switch sym.Choice("kind", 5) {
	case 0:
		t = strings.Repeat("?", n)
	case 1:
		t = "?" + strings.Repeat("d", n) + "A?"
	case 2:
		t = manyVals(n, 0, "A")
	case 3:
		t = "{" + strings.Repeat("?", n) + ",A*}"
	case 4:
		t = "[A" + strings.Repeat("d", n) + "]"
	}
	a := [][2]string{{"", ""}, {"*", "c"}, {"A", "*"}}[sym.Choice("around", 3)]
	p := root.sub(a[0] + t + a[1])
	g, err := glob.Parse(p.str())
	sym.Assert(err == nil, "a well-formed glob is rejected")
	for _, t := range p.toks {
		sym.Assume(t.K != '[' || len(t.Set) > 0)
	}
	sym.Often(func() {
		var buf strings.Builder
		g.WriteRandom(&buf)
		s := buf.String()
		sym.Cover("example")
		sym.Assert(g.Match(s), "the glob does not match its random example")
		sym.Assert(refMatch(p.toks, splitRus(s)), "a random example is not meant by the glob")
	})
}
