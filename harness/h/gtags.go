package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// cond is one condition of seriesByTag.
type cond struct {
	key  string
	op   int    // as TaggedTermOp
	text string // the value as written
	p    *pat   // the value as a glob, nil for a regular expression
	re   int
	node string // normalized value
}

var opText = []string{"", "=", "=~", "!=", "!=~"}

// regular expressions and what they mean
var reTexts = []string{"^a", "b$", "c", "", "^(a|b)$", "a.*b", "a"}

func is(r Ru, c byte) bool {
	if len(r.B) != 1 {
		return false
	}
	return r.B[0] == c
}

func refRe(k int, s []Ru) bool {
	n := len(s)
	switch k {
	case 0:
		return n > 0 && is(s[0], 'a')
	case 1:
		return n > 0 && is(s[n-1], 'b')
	case 2:
		m := false
		for _, r := range s {
			m = sym.Or(m, is(r, 'c'))
		}
		return m
	case 3:
		return true
	case 6:
		m := false
		for _, r := range s {
			m = sym.Or(m, is(r, 'a'))
		}
		return m
	case 4:
		return n == 1 && sym.Or(is(s[0], 'a'), is(s[0], 'b'))
	case 5:
		m := false
		for i := range s {
			for j := i + 1; j < n; j++ {
				m = sym.Or(m, sym.And(is(s[i], 'a'), is(s[j], 'b')))
			}
		}
		return m
	}
	return false
}

// condition templates: key, operation, value (or number of a regular expression).
// Key letters: A-Z symbolic and shared, "name" and "__name__".
var condSets = [][]string{
	0: {"K=A", "K=", "K!=A", "K!=", "K=A*", "K!=*A", "K={A,B}", "K=[XY]", "L=A", "L!=A*", "name=A", "__name__=B", "name!=A*", "K=~0", "K!=~2", "L=~3", "name=~1", "K!=*"},
	1: {"K=A", "K!=A", "L=A", "L!=B", "M=A*", "M!=*B", "name=A", "name!=A", "K=*", "K!=*"},
	2: {"K=A", "K!=A", "L=~4", "M!=~0", "name=~5", "K={A,B}*"},
	3: {"K=A", "L=B", "M!=A", "name=A", "name=A*"},
	4: {"K=A", "K=*", "K!=A", "L={A}", "L=[X]", "L={B,A}", "L={A,B}", "L=[YX]", "L=[XY]", "K=A**", "KL=A", "K=AB"},
	5: {"K=A", "K!=B", "L=A*", "L!=", "name=A", "K=~0"},
	6: {"K=A", "K!=A", "K=B*", "K!={A,B}", "K=", "K!=", "K=~0", "K!=~4", "name=A"},
	7: {"K=A", "K!=A", "name=A"},
	8: {"K=A", "L!=A", "M=A", "name=A"},
	// the same text in all operations
	10: {"K=A", "K!=A", "K=~6", "K!=~6", "name=A", "name=~6"},
	9:  {"K=A", "L=A", "M=A", "N=A", "O!=A", "name=A"},
}

func (p *pat) cond(t string) *cond {
	i := strings.IndexAny(t, "=!")
	c := &cond{}
	key := t[:i]
	if key[0] >= 'A' && key[0] <= 'Z' {
		c.key = p.sub(key).str()
	} else {
		c.key = key
	}
	t = t[i:]
	for op := 4; op > 0; op-- {
		if strings.HasPrefix(t, opText[op]) {
			c.op = op
			t = t[len(opText[op]):]
			break
		}
	}
	if c.op == 2 || c.op == 4 {
		c.re = int(t[0] - '0')
		c.text = reTexts[c.re]
		c.node = c.text
		return c
	}
	c.p = p.sub(t)
	c.text = c.p.str()
	c.node = c.text
	if strings.ContainsAny(t, "[]{}*?") {
		g, err := glob.Parse(c.text)
		sym.Assert(err == nil, "a well-formed glob is rejected")
		c.node = g.Node
	}
	return c
}

// normKey is the key as the parser knows it.
func (c *cond) normKey() string {
	if c.key == "name" {
		return "__name__"
	}
	return c.key
}

// value says what the condition means for the value of an existing tag.
func (c *cond) value(s []Ru) bool {
	var m bool
	if c.p != nil {
		m = refMatch(c.p.toks, s)
	} else {
		m = refRe(c.re, s)
	}
	if c.op > 2 {
		m = sym.Not(m)
	}
	return m
}

func (c *cond) String() string { return c.key + opText[c.op] + c.text }

func condSet() []string {
	set := condSets[sym.Param("cset", 0)]
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	return set
}

func (p *pat) conds(n int) []*cond {
	set := condSet()
	var cs []*cond
	for i := 0; i < n; i++ {
		cs = append(cs, p.cond(set[sym.Choice("cond", len(set))]))
	}
	return cs
}

// plainQuery writes conditions without decorations.
func plainQuery(cs []*cond) string {
	q := "seriesByTag("
	for i, c := range cs {
		if i > 0 {
			q += ","
		}
		q += "'" + c.String() + "'"
	}
	return q + ")"
}

// keyLess is the order of keys: __name__ is the first.
func keyLess(a, b string) bool {
	if a == "__name__" {
		return b != "__name__"
	}
	if b == "__name__" {
		return false
	}
	return a < b
}

// checkTerms: the terms are the conditions, ordered.
func checkTerms(terms gtags.TaggedTermList, cs []*cond) {
	sym.Assert(len(terms) == len(cs), "another number of terms")
	used := make([]bool, len(cs))
	for i := range terms {
		found := false
		for j, c := range cs {
			if !used[j] && !found && int(terms[i].Op) == c.op && terms[i].Key == c.normKey() && terms[i].Value == c.node {
				used[j] = true
				found = true
			}
		}
		sym.Assert(found, "a term that is not written in the query")
		if i > 0 {
			a, b := &terms[i-1], &terms[i]
			ok := keyLess(a.Key, b.Key)
			if !ok && a.Key == b.Key {
				ok = a.Op < b.Op || a.Op == b.Op && a.Value <= b.Value
			}
			sym.Assert(ok, "the terms are not ordered")
		}
	}
}

// TagsParse: a query is parsed to its conditions, however it is written.
func TagsParse() {
	root := &pat{dom: dName}
	cs := root.conds(1 + sym.Choice("conds", sym.Param("conds", 2)))
	q := []string{"", " "}[sym.Choice("lead", 2)] + "seriesByTag("
	deco := sym.Param("deco", 1)
	for i, c := range cs {
		if i > 0 {
			q += []string{",", ", ", " , ", ",,"}[sym.Choice("sep", 1+3*deco)]
		}
		quote := "'"
		if sym.Choice("quote", 2) == 1 {
			quote = "\""
		}
		// blanks around the key and the value mean nothing
		d := sym.Choice("blank", 1+2*deco)
		k, v := []string{"", " ", ""}[d], []string{"", "", " "}[d]
		q += quote + k + c.key + k + opText[c.op] + v + c.text + v + quote
	}
	q += ")" + []string{"", " "}[sym.Choice("tail", 2)]
	terms, err := gtags.ParseSeriesByTag(q)
	sym.Assert(err == nil, "a well-formed query is rejected")
	checkTerms(terms, cs)
}

// sameTerms compares two lists.
func sameTerms(a, b gtags.TaggedTermList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Op != b[i].Op || a[i].HasWildcard != b[i].HasWildcard || a[i].Key != b[i].Key || a[i].Value != b[i].Value {
			return false
		}
	}
	return true
}

// TagsNormal: the normal form is parsed to the same terms, and does not
// depend on the order of the conditions.
func TagsNormal() {
	root := &pat{dom: dName}
	cs := root.conds(1 + sym.Choice("conds", sym.Param("conds", 2)))
	terms, err := gtags.ParseSeriesByTag(plainQuery(cs))
	sym.Assert(err == nil, "a well-formed query is rejected")
	norm := terms.String()
	sym.ObserveStr("norm", norm)
	again, err := gtags.ParseSeriesByTag(norm)
	sym.Assert(err == nil, "the normal form is rejected")
	sym.Assert(sameTerms(terms, again), "the normal form is parsed to other terms")
	sym.Assert(again.String() == norm, "the normal form of the normal form is another one")
	if len(cs) > 1 {
		i := sym.Choice("swap", len(cs)-1)
		cs[i], cs[len(cs)-1] = cs[len(cs)-1], cs[i]
		other, err := gtags.ParseSeriesByTag(plainQuery(cs))
		sym.Assert(err == nil, "a well-formed query is rejected")
		sym.Assert(other.String() == norm, "the normal form depends on the order of conditions")
		sym.Cover("swapped")
	}
}

// TagsQuote: values with quotes, a leading ~ or = inside survive the normal form.
func TagsQuote() {
	val := ""
	n := sym.Choice("n", sym.Param("n", 2)+1)
	for i := 0; i < n; i++ {
		b := sym.Byte("v")
		sym.Assume(b > ' ' && b < 127 && b != '[' && b != ']' && b != '{' && b != '}' && b != '*' && b != '?' && b != '"')
		val += string([]byte{b})
	}
	op := []int{1, 3}[sym.Choice("op", 2)]
	q := "seriesByTag(\"k" + opText[op] + " " + val + "\")"
	terms, err := gtags.ParseSeriesByTag(q)
	sym.Assert(err == nil, "a well-formed query is rejected")
	sym.Assert(len(terms) == 1 && int(terms[0].Op) == op && terms[0].Key == "k" && terms[0].Value == val, "another condition is parsed")
	again, err := gtags.ParseSeriesByTag(terms.String())
	sym.Assert(err == nil, "the normal form is rejected")
	sym.Assert(sameTerms(terms, again), "the normal form is parsed to other terms")
}

// TagsRaw: any text is either parsed to ordered terms or rejected.
func TagsRaw() {
	set := []byte{'\'', '"', '=', '~', '!', ',', ' ', 'a', 'b', '(', ')', '*', '['}
	n := sym.Choice("n", sym.Param("n", 4)+1)
	b := make([]byte, n)
	for i := range b {
		c := sym.Byte("q")
		ok := false
		for _, x := range set {
			ok = sym.Or(ok, c == x)
		}
		sym.Assume(ok)
		b[i] = c
	}
	q := string(b)
	switch sym.Choice("wrap", 3) {
	case 0:
		q = "seriesByTag(" + q + ")"
	case 1:
		q = "seriesByTag('" + q + "')"
	}
	terms, err := gtags.ParseSeriesByTag(q)
	if err != nil {
		sym.Cover("rejected")
		return
	}
	sym.Cover("accepted")
	for i := range terms {
		sym.Assert(terms[i].Key != "" && terms[i].Op >= 1 && terms[i].Op <= 4, "a term without key or operation")
		if i > 0 {
			sym.Assert(terms[i-1].Key == terms[i].Key || keyLess(terms[i-1].Key, terms[i].Key), "the terms are not ordered")
		}
	}
	terms.MatchByTagsMap(map[string]string{"a": "b"})
}

// symTag is one tag with a value of 0..k symbols.
type symTag struct {
	key string
	val []Ru
}

// symTags is a list of tags in order: a name, and keys a < b < ...
func (p *pat) symTags(n, k int) (ts []symTag, tags []gtags.Tag) {
	if sym.Param("noname", 0) == 0 || sym.Bool("named") {
		ts = append(ts, symTag{key: "__name__", val: symRus("v", sym.Choice("vn", k+1), 1, dName)})
	}
	prev := ""
	for i := 0; i < n; i++ {
		var key string
		if sym.Param("fixkeys", 0) == 1 {
			key = string([]byte{byte('b' + 2*i)})
		} else {
			key = symStr("k", 1, dName)
		}
		sym.Assume(prev < key)
		prev = key
		kk := k
		if sym.Param("fixvals", 0) == 1 {
			ts = append(ts, symTag{key: key, val: symRus("v", 1, 1, dName)})
			continue
		}
		ts = append(ts, symTag{key: key, val: symRus("v", sym.Choice("vn", kk+1), 1, dName)})
	}
	for _, t := range ts {
		tags = append(tags, gtags.Tag{Key: t.key, Value: ruStr(t.val)})
	}
	return
}

// refTags is the meaning of all conditions for the tags.
func refTags(cs []*cond, ts []symTag) bool {
	m := true
	for _, c := range cs {
		found := false
		v := false
		key := c.normKey()
		for _, t := range ts {
			eq := len(t.key) == len(key)
			for i := 0; eq && i < len(key); i++ {
				eq = sym.And(eq, t.key[i] == key[i])
			}
			if len(t.key) != len(key) {
				continue
			}
			found = sym.Or(found, eq)
			v = sym.Or(v, sym.And(eq, c.value(t.val)))
		}
		if c.op > 2 {
			v = sym.Or(v, sym.Not(found))
		}
		m = sym.And(m, v)
	}
	return m
}

// TagsMatch: a query matches when all its conditions hold, by slice and by map.
func TagsMatch() {
	root := &pat{dom: dName}
	cs := root.conds(sym.Param("min", 0) + sym.Choice("conds", sym.Param("conds", 2)+1-sym.Param("min", 0)))
	terms, err := gtags.ParseSeriesByTag(plainQuery(cs))
	sym.Assert(err == nil, "a well-formed query is rejected")
	ts, tags := root.symTags(sym.Choice("tags", sym.Param("tags", 2)+1), sym.Param("val", 1))
	want := refTags(cs, ts)
	m := terms.MatchByTags(tags)
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == want, "MatchByTags disagrees with the conditions")
	sym.Assert(terms.MatchByTagsMap(gtags.TagsMap(tags)) == want, "MatchByTagsMap disagrees with the conditions")
}

func tagsTree(root *pat, count int) (*gtags.GTagsTree, []entry, [][]*cond) {
	tree := gtags.NewTree()
	var es []entry
	var css [][]*cond
	var lists [][]*cond
	if sym.Param("all", 0) == 1 {
		// every condition, alone and with others
		set := condSet()
		for _, k := range chosen(0, len(set)) {
			lists = append(lists, []*cond{root.cond(set[k])})
			for d := 1; d <= sym.Param("more", 1); d++ {
				lists = append(lists, []*cond{root.cond(set[k]), root.cond(set[(k+d)%len(set)])})
			}
		}
	} else {
		for i := 0; i < count; i++ {
			lists = append(lists, root.conds(sym.Param("min", 0)+sym.Choice("conds", sym.Param("conds", 2)+1-sym.Param("min", 0))))
		}
	}
	for i, cs := range lists {
		q := plainQuery(cs)
		var (
			node string
			n    int
			err  error
		)
		if sym.Param("addterms", 0) == 1 && len(cs) > 0 {
			terms, perr := gtags.ParseSeriesByTag(q)
			sym.Assert(perr == nil, "a well-formed query is rejected")
			node, n, err = tree.AddTerms(terms, theIndex(i))
		} else {
			node, n, err = tree.Add(q, theIndex(i))
		}
		if err != nil {
			sym.Assert(err == errExist, "a well-formed query is rejected")
			sym.Cover("exists")
			continue
		}
		sym.Assert(n == theIndex(i), "another index is returned")
		es = append(es, entry{raw: q, node: node, index: n})
		css = append(css, cs)
	}
	return tree, es, css
}

// TagsTree: a tree reports the queries that match on their own.
func TagsTree() {
	root := &pat{dom: dName}
	tree, es, css := tagsTree(root, sym.Param("queries", 2))
	ts, tags := root.symTags(sym.Param("mintags", 0)+sym.Choice("tags", sym.Param("tags", 2)+1-sym.Param("mintags", 0)), sym.Param("val", 1))
	for i := range es {
		es[i].want = refTags(css[i], ts)
	}
	r := &rec{}
	if sym.Param("map", 0) == 1 {
		checkReports(es, r, tree.MatchByTagsMap(gtags.TagsMap(tags), r))
	} else {
		checkReports(es, r, tree.MatchByTags(tags, r))
	}
}

// TagsTreeStores: the stores of the library get the same reports.
func TagsTreeStores() {
	root := &pat{dom: dName}
	tree, _, _ := tagsTree(root, sym.Param("queries", 2))
	_, tags := root.symTags(sym.Choice("tags", sym.Param("tags", 2)+1), sym.Param("val", 1))
	r, min, all := &rec{}, items.NewMinStore(), items.NewAllStore()
	all.Init()
	tree.MatchByTags(tags, r)
	tree.MatchByTags(tags, min)
	checkStores(r, all, min, tree.MatchByTags(tags, all))
}

// orders in which keys may be added
var keyOrders = [][]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {9, 8, 7, 6, 5, 4, 3, 2, 1, 0}, {4, 0, 9, 2, 7, 1, 8, 3, 6, 5}, {0, 9, 1, 8, 2, 7, 3, 6, 4, 5},
	{5, 4, 6, 3, 7, 2, 8, 1, 9, 0}, {1, 0, 3, 2, 5, 4, 7, 6, 9, 8}, {7, 3, 1, 0, 2, 5, 4, 6, 9, 8}, {8, 6, 4, 2, 0, 1, 3, 5, 7, 9},
}

// TagsWide: many keys in a tree, many tags: every key is found where it is.
func TagsWide() {
	k := sym.Param("keys", 5)
	root := &pat{dom: dName}
	tree := gtags.NewTree()
	var (
		es  []entry
		css [][]*cond
	)
	var keys []string
	if sym.Param("symkeys", 0) == 1 {
		for i := 0; i < k; i++ {
			keys = append(keys, symStr("key", 1, dName))
		}
	} else {
		for _, i := range keyOrders[sym.Choice("order", sym.Param("orders", len(keyOrders)))] {
			if i < k {
				keys = append(keys, string([]byte{byte('c' + 2*i)}))
			}
		}
	}
	// where the query of the name is added, if it is
	name := sym.Choice("name", 4) - 1
	if name > 0 {
		name = (name - 1) * k
	} else if name == 0 {
		name = k / 2
	}
	for i := 0; i <= k; i++ {
		var cs []*cond
		if i == name {
			cs = append(cs, root.cond("name=a"))
			cs[0].p = newPat("*", dName)
			cs[0].text, cs[0].node = "*", "*"
		} else if i == k {
			break
		}
		for j := 0; j < 2; j++ {
			if len(cs) == 0 {
				// a value of one symbol, or another one
				cs = []*cond{{key: keys[i], op: 1 + i%2*2, text: "?", node: "?", p: newPat("?", dName)}}
			}
			q := plainQuery(cs)
			node, n, err := tree.Add(q, len(es))
			if err != nil {
				sym.Assert(err == errExist, "a well-formed query is rejected")
			} else {
				sym.Assert(n == len(es), "another index is returned")
				es = append(es, entry{raw: q, node: node, index: n})
				css = append(css, cs)
			}
			if i != name || i == k {
				break
			}
			cs = nil
		}
	}
	var (
		ts   []symTag
		tags []gtags.Tag
	)
	if sym.Bool("named") {
		ts = append(ts, symTag{key: "__name__"})
	}
	prev := ""
	for i, m := 0, sym.Param("mintags", 0)+sym.Choice("tags", sym.Param("tags", 3)+1-sym.Param("mintags", 0)); i < m; i++ {
		var key string
		if sym.Param("fixtags", 0) == 1 {
			key = string([]byte{byte('b' + i)})
		} else {
			key = symStr("k", 1, dName)
			sym.Assume(prev < key)
			prev = key
		}
		t := symTag{key: key}
		if i%3 != 2 {
			t.val = []Ru{{B: []byte{'a'}, V: 'a'}}
		}
		ts = append(ts, t)
	}
	for _, t := range ts {
		tags = append(tags, gtags.Tag{Key: t.key, Value: ruStr(t.val)})
	}
	for i := range es {
		es[i].want = refTags(css[i], ts)
	}
	r := &rec{}
	checkReports(es, r, tree.MatchByTags(tags, r))
	r = &rec{}
	checkReports(es, r, tree.MatchByTagsMap(gtags.TagsMap(tags), r))
	for i := range es {
		terms, err := gtags.ParseSeriesByTag(es[i].raw)
		sym.Assert(err == nil, "a well-formed query is rejected")
		sym.Assert(terms.MatchByTags(tags) == es[i].want, "MatchByTags disagrees with the conditions")
	}
}

// TagsLimit: as many conditions as the limit are accepted, more are refused.
func TagsLimit() {
	n := 126 + sym.Choice("n", 5)
	key, val := symStr("k", 1, dName), symStr("v", 1, dName)
	at := sym.Choice("at", 3) * (n - 1) / 2
	q := "seriesByTag("
	for i := 0; i < n; i++ {
		if i > 0 {
			q += ","
		}
		if i == at {
			q += "'" + key + "=" + val + "'"
		} else {
			q += "'k" + string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)}) + "!=b'"
		}
	}
	terms, err := gtags.ParseSeriesByTag(q + ")")
	if n > 128 {
		sym.Cover("refused")
		sym.Assert(err != nil, "conditions are dropped without an error")
		if sym.Param("kind", 0) == 1 {
			x, ok := err.(gtags.ErrExprOverflow)
			sym.Assert(ok && x.Node == q+")", "too many conditions have another error")
		}
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil && len(terms) == n, "another number of terms")
	found := false
	for i := range terms {
		if i > 0 {
			sym.Assert(terms[i-1].Key < terms[i].Key || terms[i-1].Key == "__name__", "the terms are not ordered")
		}
		found = found || terms[i].Key == key && terms[i].Value == val && terms[i].Op == 1
	}
	sym.Assert(found, "a condition is lost")
	sym.Assert(terms.MatchByTags([]gtags.Tag{{Key: key, Value: val}}), "MatchByTags disagrees with the conditions")
}
