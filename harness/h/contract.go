package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// target is a tree of any kind.
type target interface {
	add(text string, index int) (string, int, error)
	addParsed(text string, index int) (string, int, error)
	node(text string) (string, bool)
	// raw is the text as a parsed one keeps it
	raw(text string) string
	known() map[string]int
	indexed() map[int]string
	// the tree reports exactly the given entries for everything they match
	check(texts []string, es []entry)
	// find matches what manyText with this number means
	find(num string, r *rec) int
}

type globTarget struct{ t *glob.GlobTree }

func (x globTarget) add(text string, index int) (string, int, error) { return x.t.Add(text, index) }
func (x globTarget) addParsed(text string, index int) (string, int, error) {
	g, _ := glob.Parse(text)
	return x.t.AddGlob(g, index)
}
func (x globTarget) node(text string) (string, bool) {
	g, err := glob.Parse(text)
	if err != nil {
		return "", false
	}
	return g.Node, true
}
func (x globTarget) raw(text string) string  { return glob.ParseMust(text).Glob }
func (x globTarget) known() map[string]int   { return x.t.Globs }
func (x globTarget) indexed() map[int]string { return x.t.GlobsIndex }
func (x globTarget) check(texts []string, es []entry) {
	for _, s := range []string{"", "a", "`", "a`", "x", "y", "xy"} {
		for i := range es {
			es[i].want = glob.ParseMust(es[i].raw).Match(s)
		}
		r := &rec{}
		checkReports(es, r, x.t.Match(s, r))
	}
}

func (x globTarget) find(num string, r *rec) int { return x.t.Match("a"+num, r) }

type gglobTarget struct{ t *gglob.GGlobTree }

func (x gglobTarget) add(text string, index int) (string, int, error) { return x.t.Add(text, index) }
func (x gglobTarget) addParsed(text string, index int) (string, int, error) {
	g, _ := gglob.Parse(text)
	return x.t.AddGlob(g, index)
}
func (x gglobTarget) node(text string) (string, bool) {
	g, err := gglob.Parse(text)
	if err != nil {
		return "", false
	}
	return g.Node, true
}
func (x gglobTarget) raw(text string) string  { return gglob.ParseMust(text).Glob }
func (x gglobTarget) known() map[string]int   { return x.t.Globs }
func (x gglobTarget) indexed() map[int]string { return x.t.GlobsIndex }
func (x gglobTarget) check(texts []string, es []entry) {
	for _, s := range []string{"", "a", "a.a", "a.`", "`.a.a", "x.y", "y.x"} {
		for i := range es {
			es[i].want = gglob.ParseMust(es[i].raw).Match(s)
		}
		r := &rec{}
		checkReports(es, r, x.t.Match(s, r))
	}
}

func (x gglobTarget) find(num string, r *rec) int { return x.t.Match("b.a"+num+".c", r) }

type tagsTarget struct{ t *gtags.GTagsTree }

func (x tagsTarget) add(text string, index int) (string, int, error) { return x.t.Add(text, index) }
func (x tagsTarget) addParsed(text string, index int) (string, int, error) {
	terms, _ := gtags.ParseSeriesByTag(text)
	return x.t.AddTerms(terms, index)
}
func (x tagsTarget) node(text string) (string, bool) {
	terms, err := gtags.ParseSeriesByTag(text)
	if err != nil {
		return "", false
	}
	return terms.String(), true
}
func (x tagsTarget) raw(text string) string  { n, _ := x.node(text); return n }
func (x tagsTarget) known() map[string]int   { return x.t.Queries }
func (x tagsTarget) indexed() map[int]string { return x.t.QueryIndex }
func (x tagsTarget) check(texts []string, es []entry) {
	for _, tags := range [][]gtags.Tag{nil, {{Key: "k", Value: "a"}}, {{Key: "k", Value: "a"}, {Key: "l", Value: "`"}}, {{Key: "k", Value: "x"}, {Key: "l", Value: "y"}}, {{Key: "l", Value: "a"}}, {{Key: "__name__", Value: "a"}, {Key: "k", Value: "b"}}} {
		for i := range es {
			terms, err := gtags.ParseSeriesByTag(es[i].raw)
			sym.Assert(err == nil, "a well-formed query is rejected")
			es[i].want = terms.MatchByTags(tags)
		}
		r := &rec{}
		checkReports(es, r, x.t.MatchByTags(tags, r))
		r = &rec{}
		checkReports(es, r, x.t.MatchByTagsMap(gtags.TagsMap(tags), r))
	}
}

func (x tagsTarget) find(num string, r *rec) int {
	return x.t.MatchByTags([]gtags.Tag{{Key: "a", Value: num}, {Key: "x", Value: num}}, r)
}

var addSets = [][]string{
	0: {"", "X", "X*", "{X,Y}", "{Y,X}", "X**", "{X", "[XY]", "[YX]"},
	1: {"", "X.Y", "{X,Y}.X", "{Y,X}.X", "X.Y.", "X.**", "X.*", "X..Y", "[YX.Y", "X"},
	2: {"", "'k=X'", "\"k=X\"", "'k=X', 'l=Y'", "'l=Y','k=X'", "", "'k'", "'k={X,Y}'", "'k={Y,X}'", "'l!=X'", "'k=X", "'name=X'"},
}

func addTarget() (target, string) {
	kind := sym.Param("tree", 0)
	set := addSets[kind]
	_ = set
	switch kind {
	case 1:
		return gglobTarget{gglob.NewTree()}, "glob"
	case 2:
		return tagsTarget{gtags.NewTree()}, "query"
	}
	return globTarget{glob.NewTree()}, "glob"
}

// addText: what is added, the text is over shared letters
func addText(root *pat) string {
	kind := sym.Param("tree", 0)
	set := addSets[kind]
	k := sym.Choice("text", len(set))
	b := []byte{}
	for i := 0; i < len(set[k]); i++ {
		c := set[k][i]
		if c == 'X' || c == 'Y' {
			b = append(b, root.letter(c, dTiny).B...)
		} else {
			b = append(b, c)
		}
	}
	t := string(b)
	if kind == 2 && k > 0 {
		t = "seriesByTag(" + t + ")"
		if k == 5 {
			t = []string{"seriesByTag()", " seriesByTag() ", "seriesByTag", "byTag('k=a')"}[sym.Choice("plain", 4)]
		}
	}
	return t
}

// indexes of longer histories, shorter ones have arbitrary indexes
var errIndexes = []int{3, 0, -1, 7, -1 << 63}

// manyText is one of many texts, in one of three spellings, or malformed
func manyText(i, spell int) string {
	t := [][]string{
		{"{x#,a#}", "{a#,x#}", "{a#,x#,a#}", "{a#,x#"},
		{"b.{x#,a#}.*", "b.{a#,x#}.*", "b.{a#,x#,a#}.*", "b..{x#,a#}.*"},
		{"seriesByTag('x=#','a=#')", "seriesByTag('a=#','x=#')", "seriesByTag(\"a=#\", 'x= #')", "seriesByTag('x=#','a')"},
	}[sym.Param("tree", 0)][spell]
	return strings.Replace(t, "#", number(i), -1)
}

// AddContract: what Add returns, and what it leaves in the tree.
func AddContract() {
	tg, _ := addTarget()
	root := &pat{dom: dTiny}
	var es []entry
	known := map[string]int{}
	ops := sym.Param("ops", 2)
	idxs := errIndexes[:sym.Param("idx", 0)]
	before := sym.Param("before", 0)
	var nums []int
	for i := 0; i < before; i++ {
		text := manyText(i, 0)
		node, ok := tg.node(text)
		norm, n, err := tg.add(text, 3*i)
		sym.Assert(ok && err == nil && norm == node && n == 3*i, "a new one is rejected")
		es = append(es, entry{raw: text, node: node, index: 3 * i})
		known[text] = 3 * i
		known[node] = 3 * i
	}
	for op := 0; op < ops; op++ {
		text, i := "", 0
		if before > 0 {
			i = []int{0, before / 2, before - 1, before, before + 1}[sym.Choice("of", 5)]
			text = manyText(i, sym.Choice("spell", 4))
		} else {
			text = addText(root)
		}
		index := 0
		if before > 0 {
			d := sym.Byte("index")
			sym.Assume(d < 5)
			index = []int{-2, 3 * (before / 2), 3*before - 4}[sym.Choice("near", 3)] + int(d)
		} else if len(idxs) > 0 {
			index = idxs[sym.Choice("index", len(idxs))]
		} else {
			index = sym.Int("index")
		}
		node, ok := tg.node(text)
		parsed := ok && text != "" && sym.Choice("parsed", 2) == 1
		if parsed && sym.Param("tree", 0) == 2 && node == "seriesByTag()" {
			parsed = false // no terms: AddTerms does nothing
			n, i, err := tg.addParsed(text, index)
			sym.Assert(n == "" && i == 0 && err == nil, "AddTerms without terms")
		}
		var (
			norm string
			n    int
			err  error
		)
		if parsed {
			norm, n, err = tg.addParsed(text, index)
		} else {
			norm, n, err = tg.add(text, index)
		}
		sym.ObserveStr("norm", norm)
		sym.ObserveInt("n", n)
		if text == "" {
			sym.Cover("nothing")
			sym.Assert(norm == "" && n == 0 && err == nil, "adding nothing")
		} else {
			raw := text
			if parsed {
				raw = tg.raw(text)
			}
			at, exists := known[raw]
			if !exists && ok {
				at, exists = known[node]
			}
			dup := ""
			isDup := false
			for _, e := range es {
				if e.index == index {
					isDup = true
					dup = e.node
				}
			}
			switch {
			case err == nil:
				sym.Cover("added")
				sym.Assert(ok, "malformed is added")
				sym.Assert(index >= 0, "a negative index is added")
				sym.Assert(!exists, "the same is added twice")
				sym.Assert(!isDup, "an index is used twice")
				sym.Assert(norm == node, "another normalized form is returned")
				sym.Assert(n == index, "another index is returned")
				es = append(es, entry{raw: text, node: node, index: index})
				nums = append(nums, i)
				known[raw] = index
				known[node] = index
			case err == glob.ErrIndexInvalid:
				sym.Cover("invalid index")
				sym.Assert(index < 0, "a valid index is rejected")
			case err == glob.ErrGlobExist:
				sym.Cover("exists")
				sym.Assert(exists, "a new one is rejected as known")
				sym.Assert(n == at, "another index is returned for the existing one")
				sym.Assert(norm == text || norm == node, "not the existing one is returned")
			case err == glob.ErrIndexDup:
				sym.Cover("duplicate index")
				sym.Assert(isDup, "a free index is rejected")
				sym.Assert(norm == dup, "not the owner of the index is returned")
			default:
				sym.Cover("malformed")
				sym.Assert(!ok, "a well-formed one is rejected")
			}
		}
		// the tree knows what was added, and nothing else
		sym.Assert(len(tg.known()) == len(known), "the count of known names")
		for k, v := range known {
			x, ok := tg.known()[k]
			sym.Assert(ok && x == v, "a name is lost")
		}
		sym.Assert(len(tg.indexed()) == len(es), "the count of indexes")
		for _, e := range es {
			x, ok := tg.indexed()[e.index]
			sym.Assert(ok && x == e.node, "an index is lost")
		}
	}
	if before == 0 {
		tg.check(nil, es)
		return
	}
	// some of them are found, and no others with them
	for _, i := range []int{0, 1, before / 2, before - 1, len(es) - 1} {
		num := number(i)
		if i >= before {
			num = number(nums[i-before])
		}
		es[i].want = true
		r := &rec{}
		checkReports(es[i:i+1], r, tg.find(num, r))
	}
}
