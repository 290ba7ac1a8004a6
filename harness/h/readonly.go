package h

import (
	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// ReadGlob: Match of a glob writes to nothing shared, and repeats its answer.
func ReadGlob() {
	g, p := globSetup()
	s := symLen()
	str := ruStr(s)
	sym.ReadOnly(func() { g.Match(str) })
	m := g.Match(str)
	coverIf(m, "match", "miss")
	sym.Assert(m == refMatch(p.toks, s), "an answer after another call differs")
	sym.Assert(g.Raw() == p.str(), "the glob was changed")
}

// ReadTree: the same of a tree.
func ReadTree() {
	tree, es, ps := treeGlobs(sym.Param("globs", 2))
	s := symLen()
	str := ruStr(s)
	for i := range es {
		es[i].want = refMatch(ps[i].toks, s)
	}
	sym.ReadOnly(func() { tree.Match(str, &rec{}) })
	r := &rec{}
	checkReports(es, r, tree.Match(str, r))
}

// ReadGGlob: the same of a dotted glob and a tree of them.
func ReadGGlob() {
	tree, es, gs := gglobTree(sym.Param("globs", 2))
	s := symPath()
	str := ruStr(s)
	parts := gglob.PathSplit(str)
	_, full := refPath(s)
	for i := range es {
		es[i].want = refDot(gs[i], s)
	}
	g, err := gglob.Parse(es[0].raw)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	sym.ReadOnly(func() {
		tree.Match(str, &rec{})
		g.Match(str)
		if full {
			tree.MatchByParts(parts, &rec{})
			g.MatchByParts(parts, 0)
		}
	})
	r := &rec{}
	checkReports(es, r, tree.Match(str, r))
	sym.Assert(g.Match(str) == es[0].want, "an answer after another call differs")
}

// ReadTags: the same of queries by tags.
func ReadTags() {
	root := &pat{dom: dName}
	tree, es, css := tagsTree(root, sym.Param("queries", 2))
	ts, tags := root.symTags(sym.Choice("tags", sym.Param("tags", 2)+1), sym.Param("val", 1))
	m := gtags.TagsMap(tags)
	for i := range es {
		es[i].want = refTags(css[i], ts)
	}
	terms, err := gtags.ParseSeriesByTag(es[0].raw)
	sym.Assert(err == nil, "a well-formed query is rejected")
	sym.ReadOnly(func() {
		tree.MatchByTags(tags, &rec{})
		tree.MatchByTagsMap(m, &rec{})
		terms.MatchByTags(tags)
		terms.MatchByTagsMap(m)
	})
	r := &rec{}
	checkReports(es, r, tree.MatchByTags(tags, r))
	sym.Assert(terms.MatchByTags(tags) == es[0].want, "an answer after another call differs")
}

// ReadParse: parsing, expansion and escaping share nothing between calls.
func ReadParse() {
	p := pick(theSet(), sym.Param("pieces", 1), dName)
	t := p.str()
	b := string(symBytes("b", sym.Param("n", 1)))
	sym.ReadOnly(func() {
		glob.Parse(t)
		gglob.Parse(t + "." + t)
		gtags.ParseSeriesByTag("seriesByTag('a=" + t + "', 'b!=c')")
		expand.Expand(t, 5, 2)
		escape.Query(b)
		escape.Path(b)
		escape.Unescape(b)
		gtags.PathTags(b + "?a=b")
		gtags.GraphitePathTagsMap(b + ";a=b")
	})
	g, err := glob.Parse(t)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	s := symLen()
	sym.Assert(g.Match(ruStr(s)) == refMatch(p.toks, s), "an answer after another call differs")
}
