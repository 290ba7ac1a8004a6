package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// regular expressions, and globs which together mean the same
var reGlobs = []struct {
	re    string
	globs []string
}{
	{"^a|b", []string{"a*", "*b*"}},
	{"a|b$", []string{"*a*", "*b"}},
	{"^ab$", []string{"ab"}},
	{"^ab", []string{"ab*"}},
	{"ab$", []string{"*ab"}},
	{"^a.*", []string{"a*"}},
	{"^a.*b$", []string{"a*b"}},
	{"^.*b$", []string{"*b"}},
	{"^.*$", []string{"*"}},
	{".*", []string{"*"}},
	{".+", []string{"?*"}},
	{"^$", []string{""}},
	{"^a.c$", []string{"a?c"}},
	{"^a?b", []string{"ab*", "b*"}},
	{"^(ab|c)$", []string{"ab", "c"}},
	{"^(ab|c)", []string{"ab*", "c*"}},
	{"^ab|c$", []string{"ab*", "*c"}},
	{"(a|b)c", []string{"*ac*", "*bc*"}},
	{"a|b|cd", []string{"*a*", "*b*", "*cd*"}},
	{"a+", []string{"*a*"}},
	{"a{2}", []string{"*aa*"}},
	{"[ab]c", []string{"*[ab]c*"}},
	{"^[a-c]+$", []string{"[a-c]", "[a-c][a-c]", "[a-c][a-c][a-c]", "[a-c][a-c][a-c][a-c]"}},
	// of values in lower case
	{"(?i)ab", []string{"*ab*"}},
	{"(?i)^A", []string{"a*"}},
	{"^a$|^b", []string{"a", "b*"}},
	{"a*", []string{"*"}},
	{"^a*$", []string{"", "a", "aa", "aaa", "aaaa"}},
	{"^a|", []string{"*"}},
}

// TagsRegexp: =~ and !=~ by some regular expressions.
func TagsRegexp() {
	root := &pat{dom: dName}
	k := sym.Choice("re", len(reGlobs))
	x := reGlobs[k]
	neg := sym.Bool("not")
	op := "=~"
	if neg {
		op = "!=~"
	}
	q := "seriesByTag(\"k" + op + x.re + "\")"
	terms, err := gtags.ParseSeriesByTag(q)
	sym.Assert(err == nil && len(terms) == 1, "a well-formed query is rejected")
	sym.Assert(terms[0].Key == "k" && terms[0].Value == x.re, "another condition")
	n := sym.Choice("n", sym.Param("n", 3)+1)
	var v, lower []Ru
	for i := 0; i < n; i++ {
		r := symRu("v", sym.Choice("shape", sym.Param("shapes", 1)), dName)
		l := r
		if strings.HasPrefix(x.re, "(?i)") && len(r.B) == 1 {
			if sym.Bool("upper") {
				sym.Assume(sym.And('a' <= r.B[0], r.B[0] <= 'z'))
				r = Ru{B: []byte{r.B[0] - 32}, V: r.V - 32}
			} else {
				sym.Assume(sym.Not(sym.And('A' <= r.B[0], r.B[0] <= 'Z')))
			}
		}
		v = append(v, r)
		lower = append(lower, l)
	}
	want := false
	for _, g := range x.globs {
		want = sym.Or(want, refMatch(root.sub(g).toks, lower))
	}
	if neg {
		want = sym.Not(want)
	}
	tags := []gtags.Tag{{Key: "a", Value: "ab"}, {Key: "k", Value: ruStr(v)}, {Key: "z", Value: ""}}
	m := terms.MatchByTags(tags)
	coverIf(m, "match", "miss")
	sym.Assert(m == want, "MatchByTags disagrees with the regular expression")
	sym.Assert(terms.MatchByTagsMap(gtags.TagsMap(tags)) == want, "MatchByTagsMap disagrees with the regular expression")
	tree := gtags.NewTree()
	node, ix, err := tree.Add(q, 3)
	sym.Assert(err == nil && ix == 3 && node == terms.String(), "a tree rejects the query")
	r := &rec{}
	checkReports([]entry{{raw: q, node: node, index: 3, want: want}}, r, tree.MatchByTags(tags, r))
	// the normal form means the same
	again, err := gtags.ParseSeriesByTag(node)
	sym.Assert(err == nil && len(again) == 1 && again[0].Key == "k" && again[0].Op == terms[0].Op && again[0].Value == x.re, "the normal form has another condition")
}
