package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// dotted templates; the letters are not dots
var dotSets = [][]string{
	0: {"a", "a.b", "*", "a*", "*.a", "a.*", "?.a", "{a,bc}.d", "a.{b,c}", "a.[bc]", "*.*", "a*.?b", "a.b.c", "a.*.b", "*.*.*", "[a].b", "{a,b,c}.*d", "a.b.", "*.", "a{,b}.c", "a.{,b}", "[].a"},
	1: {"A.B", "A.*", "*.A", "A*.B", "*.*", "A.?", "{A,B}.A", "A.{B,C}", "A", "*", "A.B.C", "A.*.C", "*.B.*", "A.*B", "?*.A"},
	2: {"1.a", "*1.?", "{1,a}.b", "a.1*", "?.[1a]"},
	3: {"a*.b*", "*.b.c", "a.*.{b,c}.d", "*.*.?.*", "a?.?b.c*d", "{a,bc}.{d,ef}.*"},
	4: {"X.Y", "[XY].X", "X.[XY]", "{X,Y}.X", "{X,Y}.[XY]", "X.*", "*.Y", "{X}.{Y}", "[X].Y", "X.Y.", "*.*", "X**.Y", "{Y,X}.X"},
	5: {"a", "a.b", "*", "a*.b", "{a,b}.c", ".a", "a..b", "a..", ".", "..", "a.b..", "*..*", ".*", "{a.b,c}", "a{b.c", "a.b{c", "[a.b]", "a]", "{a,b}.}", "a.[b"},
}

func dotSet() []string {
	set := dotSets[sym.Param("set", 0)]
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	return set
}

// levels of a template, without the trailing dot
func levels(t string) []string {
	if t != "" && t[len(t)-1] == '.' {
		t = t[:len(t)-1]
	}
	return strings.Split(t, ".")
}

// dotPat parses a dotted template to its text and the meaning of the levels.
func (p *pat) dotPat(t string) (text string, parts []*pat) {
	for i, l := range levels(t) {
		if i > 0 {
			text += "."
		}
		q := p.sub(l)
		text += q.str()
		parts = append(parts, q)
	}
	if t[len(t)-1] == '.' {
		text += "."
	}
	return
}

// refPath is the path split to levels, ok if no level is empty.
func refPath(s []Ru) (parts [][]Ru, ok bool) {
	if n := len(s); n > 0 && len(s[n-1].B) == 1 && s[n-1].B[0] == '.' {
		s = s[:n-1]
	}
	var cur []Ru
	ok = true
	for _, r := range s {
		if len(r.B) == 1 && r.B[0] == '.' {
			ok = ok && len(cur) > 0
			parts = append(parts, cur)
			cur = nil
		} else {
			cur = append(cur, r)
		}
	}
	ok = ok && len(cur) > 0
	parts = append(parts, cur)
	return
}

// refDot is the meaning of a dotted glob.
func refDot(gs []*pat, s []Ru) bool {
	parts, ok := refPath(s)
	if !ok || len(parts) != len(gs) {
		return false
	}
	m := true
	for i := range gs {
		m = sym.And(m, refMatch(gs[i].toks, parts[i]))
	}
	return m
}

// symPath is a path of 0..n symbols: a dot or any other.
func symPath() []Ru {
	n := sym.Param("min", 0) + sym.Choice("n", sym.Param("n", 4)-sym.Param("min", 0)+1)
	k := sym.Param("shapes", 1)
	rs := make([]Ru, n)
	for i := range rs {
		c := sym.Choice("dot", k+1)
		if c == 0 {
			rs[i] = Ru{B: []byte{'.'}, V: '.'}
		} else {
			rs[i] = symRu("s", c-1, dPath)
		}
	}
	return rs
}

// GGlobMatch: a dotted glob matches level by level.
func GGlobMatch() {
	set := dotSet()
	t := set[sym.Choice("glob", len(set))]
	root := &pat{dom: dPart}
	text, gs := root.dotPat(t)
	g, err := gglob.Parse(text)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	sym.Assert(len(g.Parts) == len(gs), "another number of levels")
	s := symPath()
	m := g.Match(ruStr(s))
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == refDot(gs, s), "Match disagrees with the meaning of the levels")
}

// GGlobNormal: the normalized dotted glob means the same.
func GGlobNormal() {
	set := dotSet()
	t := set[sym.Choice("glob", len(set))]
	root := &pat{dom: dPart}
	text, gs := root.dotPat(t)
	g, err := gglob.Parse(text)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	for _, l := range g.Parts {
		if l.Node == "" {
			// a level of empty brackets only: matches nothing
			sym.Cover("empty level")
			return
		}
	}
	g2, err := gglob.Parse(g.Node)
	sym.Assert(err == nil, "the normalized glob is rejected")
	plain := true
	for i := range gs {
		plain = plain && plainLists(gs[i].toks)
	}
	if plain {
		sym.Assert(g2.Node == g.Node, "normalization is not idempotent")
	}
	s := symPath()
	m := g2.Match(ruStr(s))
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == refDot(gs, s), "the normalized glob matches other paths")
}

// GGlobSize: what a dotted glob means fits the bounds of its length.
func GGlobSize() {
	set := dotSet()
	t := set[sym.Choice("glob", len(set))]
	root := &pat{dom: dPart}
	text, gs := root.dotPat(t)
	g, err := gglob.Parse(text)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	min, max := 0, 0
	for _, p := range g.Parts {
		min += p.MinLen
		if p.MaxLen < 0 || max < 0 {
			max = -1
		} else {
			max += p.MaxLen
		}
	}
	sym.Assert(g.MinLen == min && g.MaxLen == max, "the bounds are not the sums of the levels")
	s := symPath()
	ref := refDot(gs, s)
	n := 0
	for _, r := range s {
		if len(r.B) != 1 || r.B[0] != '.' {
			n += len(r.B)
		}
	}
	if n < g.MinLen || g.MaxLen >= 0 && n > g.MaxLen {
		sym.Cover("outside")
		sym.Assert(sym.Not(ref), "a path out of the bounds is meant by the glob")
	} else {
		sym.Cover("inside")
	}
}

// GGlobReject: an empty level or a malformed level is rejected.
func GGlobReject() {
	n := sym.Choice("n", sym.Param("n", 4)) + 1
	b := make([]byte, n)
	for i := range b {
		if sym.Bool("dot") {
			b[i] = '.'
		} else {
			b[i] = symByte("g", dRaw)
		}
	}
	s := string(b)
	g, err := gglob.Parse(s)
	t := s
	if b[n-1] == '.' {
		t = s[:n-1]
	}
	start, ok := 0, true
	count := 0
	for i := 0; i <= len(t); i++ {
		if i == len(t) || t[i] == '.' {
			count++
			ok = ok && i > start && balanced(t[start:i])
			start = i + 1
		}
	}
	if !ok {
		sym.Cover("malformed")
		sym.Assert(err != nil, "a glob with an empty or malformed level is accepted")
	} else if err == nil {
		sym.Cover("accepted")
		sym.Assert(len(g.Parts) == count, "another number of levels")
	} else {
		sym.Cover("rejected")
	}
}

// GGlobParts: every way to split a path leads to the same answer.
func GGlobParts() {
	set := dotSet()
	t := set[sym.Choice("glob", len(set))]
	root := &pat{dom: dPart}
	text, gs := root.dotPat(t)
	g, err := gglob.Parse(text)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	rs := symPath()
	s := ruStr(rs)
	if _, ok := refPath(rs); !ok {
		sym.Cover("empty level")
		sym.Assert(!g.Match(s), "a path with an empty level is matched")
		return
	}
	want := refDot(gs, rs)
	length := len(s)
	if s[length-1] == '.' {
		length--
	}
	parts := gglob.PathSplit(s)
	buf := []string{"x", "yy"}[:sym.Choice("buf", 3)]
	ok := gglob.PathSplitB(s, &buf)
	sym.Assert(ok, "a path is not split")
	m := g.MatchByParts(parts, 0)
	coverIf(m, "match", "miss")
	sym.Assert(m == want, "MatchByParts disagrees")
	sym.Assert(g.MatchByParts(parts, length) == want, "MatchByParts with the length disagrees")
	sym.Assert(g.MatchByParts(buf, length) == want, "MatchByParts of PathSplitB disagrees")
}

// PathSplits: the ways to split a path agree with each other.
func PathSplits() {
	rs := symPath()
	s := ruStr(rs)
	want, ok := refPath(rs)
	if len(rs) == 0 {
		ok = false
		want = nil
	}
	path, n := gglob.PathLevel(s)
	sym.Assert(n == len(want), "PathLevel counts other levels")
	if l := len(s); l > 0 && s[l-1] == '.' {
		sym.Assert(path == s[:l-1], "PathLevel")
	} else {
		sym.Assert(path == s, "PathLevel")
	}
	parts := gglob.PathSplit(s)
	sym.Assert(len(parts) == len(want), "PathSplit finds other levels")
	for i := range want {
		sym.Assert(parts[i] == ruStr(want[i]), "PathSplit finds another level")
	}
	buf := make([]string, sym.Choice("buf", 3), 2)
	okB := gglob.PathSplitB(s, &buf)
	coverIf(okB, "split", "empty level")
	sym.Assert(okB == ok, "PathSplitB: empty levels")
	if len(rs) > 0 {
		sym.Assert(gglob.HasEmptyParts(parts) == !ok, "HasEmptyParts: empty levels")
	}
	if !okB {
		// the levels before the empty one, and nothing older
		sym.Assert(len(buf) < len(want) || len(want) == 0 && len(buf) == 0, "PathSplitB keeps old levels")
		for i := range buf {
			sym.Assert(buf[i] == parts[i], "PathSplitB finds another level")
		}
	} else {
		sym.Assert(len(buf) == len(want), "PathSplitB finds other levels")
		for i := range want {
			sym.Assert(buf[i] == parts[i], "PathSplitB finds another level")
		}
	}
}

func gglobTree(count int) (*gglob.GGlobTree, []entry, [][]*pat) {
	set := dotSet()
	if sym.Param("anyset", 0) > 0 {
		set = theTreeSet(dotSets[:5])
	}
	tree := gglob.NewTree()
	var es []entry
	var gs [][]*pat
	root := &pat{dom: dName}
	for i, k := range chosen(count, len(set)) {
		text, g := root.dotPat(set[k])
		var (
			node string
			n    int
			err  error
		)
		if sym.Param("addglob", 0) == 1 {
			pg, perr := gglob.Parse(text)
			sym.Assert(perr == nil, "a well-formed glob is rejected")
			node, n, err = tree.AddGlob(pg, theIndex(i))
		} else {
			node, n, err = tree.Add(text, theIndex(i))
		}
		if err != nil {
			sym.Assert(err == errExist, "a well-formed glob is rejected")
			sym.Cover("exists")
			continue
		}
		sym.Assert(n == theIndex(i), "another index is returned")
		es = append(es, entry{raw: text, node: node, index: n})
		gs = append(gs, g)
	}
	return tree, es, gs
}

// GGlobTree: a tree reports the dotted globs that match on their own.
func GGlobTree() {
	tree, es, gs := gglobTree(sym.Param("globs", 2))
	s := symPath()
	for i := range es {
		es[i].want = refDot(gs[i], s)
	}
	r := &rec{}
	checkReports(es, r, tree.Match(ruStr(s), r))
}

// GGlobTreeParts: the same by the levels of a path.
func GGlobTreeParts() {
	tree, es, gs := gglobTree(sym.Param("globs", 2))
	s := symPath()
	if _, ok := refPath(s); !ok {
		return
	}
	for i := range es {
		es[i].want = refDot(gs[i], s)
	}
	r := &rec{}
	checkReports(es, r, tree.MatchByParts(gglob.PathSplit(ruStr(s)), r))
}

// GGlobTreeStores: the stores of the library get the same reports.
func GGlobTreeStores() {
	tree, _, _ := gglobTree(sym.Param("globs", 2))
	s := ruStr(symPath())
	r, min, all := &rec{}, items.NewMinStore(), items.NewAllStore()
	all.Init()
	tree.Match(s, r)
	tree.Match(s, min)
	checkStores(r, all, min, tree.Match(s, all))
}
