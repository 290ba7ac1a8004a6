package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// class templates
var classSets = [][]string{
	0: {"[a]", "[ab]", "[a-b]", "[abc]", "[a-bc]", "[a-bc-d]"},
	1: {"[1]", "[a1]", "[1-1]", "[a1-1]", "[12]", "[1-12]", "[a-b1]", "[2-2]", "[3]", "[13]", "[5-5]"},
	2: {"[156]", "[1-156]", "[15623]", "[a1-156-623]"},
	3: {"[111]", "[11-1]", "[1-11-1]"},
	// around U+FFFD
	5: {"[4]", "[44]", "[4a]", "[4-4]", "[a4-4]", "[4-41]", "[44-4]"},
	// neighbours over a boundary (edge=)
	7: {"[1-2]", "[1-2a]", "[11-2]"},
	6: {"[12]", "[21]", "[1-12-2]", "[2-21-1]", "[a12]", "[11-12]", "[122]"},
	4: {"[X-YZ]", "[XYZ]", "[X-ZY]", "[XY]"},
}

func symClass() (utils.RunesRanges, *pat) {
	set := classSets[sym.Param("kset", 0)]
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	p := newPat(set[sym.Choice("class", len(set))], dFew)
	rs, ok := utils.RunesRangeExpand(p.str())
	sym.Assert(ok, "a well-formed class is rejected")
	return rs, p
}

// Class: a class contains its members only, wherever they are looked for.
func Class() {
	rs, p := symClass()
	set := p.toks[0].Set
	s := symRus("s", sym.Choice("n", sym.Param("n", 2)+1), sym.Param("shapes", 1), dASCII)
	str := ruStr(s)
	// what each of the symbols means
	in := make([]bool, len(s))
	for i := range s {
		in[i] = inSet(set, s[i])
		sym.Assert(rs.Contains(rune(s[i].V)) == in[i], "Contains")
	}
	pos, c, n := rs.Index(str)
	pos2, c2, n2 := rs.IndexByte([]byte(str))
	sym.ObserveInt("pos", pos)
	sym.Assert(pos == pos2 && c == c2 && n == n2, "Index and IndexByte differ")
	at := 0
	found := false
	for i := range s {
		if pos == at && !found {
			found = true
			sym.Cover("found")
			sym.Assert(in[i], "the index of a symbol out of the class")
			sym.Assert(int(c) == s[i].V && n == len(s[i].B), "another symbol is found")
		} else if !found {
			sym.Assert(sym.Not(in[i]), "a symbol of the class is skipped")
		}
		at += len(s[i].B)
	}
	if !found {
		sym.Cover("none")
		sym.Assert(pos == -1, "the index is out of the symbols")
	}
	c, n = rs.StartsWith(str)
	if n >= 0 {
		sym.Assert(len(s) > 0 && in[0] && n == len(s[0].B) && int(c) == s[0].V, "StartsWith")
	} else {
		sym.Assert(len(s) == 0 || !in[0], "StartsWith misses")
	}
	c, n = rs.EndsWith(str)
	last := len(s) - 1
	if n >= 0 {
		sym.Assert(last >= 0 && in[last] && n == len(str)-len(s[last].B) && int(c) == s[last].V, "EndsWith")
	} else {
		sym.Assert(last < 0 || !in[last], "EndsWith misses")
	}
}

// classes with ranges of any ends: different widths, not ordered
var mixedSet = []string{"[a-5]", "[5-a]", "[1-2]", "[5-1]", "[1-5]", "[a-b]", "[1-1]", "[a-5b]", "[1b-2]", "[b-ac]", "[5-2a]", "[a1-3]"}

// ClassMixed: a class with a range of arbitrary ends is rejected, or contains
// what is between the ends.
func ClassMixed() {
	set := mixedSet
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	p := &pat{dom: dFew, loose: true}
	p.add(set[sym.Choice("class", len(set))])
	plain := true
	for _, x := range p.toks[0].Set {
		plain = sym.And(plain, sym.And(len(x[0].B) == len(x[1].B), x[0].V <= x[1].V))
	}
	rs, ok := utils.RunesRangeExpand(p.str())
	if !ok {
		sym.Cover("rejected")
		sym.Assert(sym.Not(plain), "a well-formed class is rejected")
	}
	g, err := glob.Parse(p.str() + "*")
	sym.Assert((err == nil) == ok, "the class is accepted in a glob only, or not there")
	if !ok {
		return
	}
	sym.Cover("accepted")
	s := symRu("s", sym.Choice("shape", sym.Param("shapes", 6)), dASCII)
	in := false
	for _, x := range p.toks[0].Set {
		in = sym.Or(in, sym.And(x[0].V <= s.V, s.V <= x[1].V))
	}
	sym.Assert(rs.Contains(rune(s.V)) == in, "Contains")
	sym.Assert(g.Match(ruStr([]Ru{s})) == in, "Match of a class")
}

// ClassDash: a - between two symbols is the mark of a range, elsewhere it adds
// nothing.
func ClassDash() {
	n := 1 + sym.Choice("n", sym.Param("n", 4))
	sh := sym.Choice("cshape", sym.Param("shapes", 2))
	dom := sym.Param("dom", dTiny)
	text := []byte{'['}
	var set [][2]int
	pend, dash := -1, false
	for i := 0; i < n; i++ {
		if sym.Choice("dash", 2) == 1 {
			text = append(text, '-')
			dash = true
			continue
		}
		r := symRu("c", sh, dom)
		text = append(text, r.B...)
		if dash && pend >= 0 {
			sym.Assume(pend <= r.V)
			set = append(set, [2]int{pend, r.V})
			pend = -1
		} else {
			if pend >= 0 {
				set = append(set, [2]int{pend, pend})
			}
			pend = r.V
		}
		dash = false
	}
	if pend >= 0 {
		set = append(set, [2]int{pend, pend})
	}
	text = append(text, ']')
	rs, ok := utils.RunesRangeExpand(string(text))
	sym.Assert(ok, "a well-formed class is rejected")
	s := symRu("s", sh, dASCII)
	in := false
	for _, x := range set {
		in = sym.Or(in, sym.And(x[0] <= s.V, s.V <= x[1]))
	}
	coverIf(in, "in", "out")
	sym.Assert(rs.Contains(rune(s.V)) == in, "Contains")
	g, err := glob.Parse("x" + string(text) + "*")
	sym.Assert(err == nil, "a well-formed glob is rejected")
	if len(set) == 0 {
		in = true
	}
	sym.Assert(g.Match("x"+ruStr([]Ru{s})) == in, "Match of a class")
}

// large classes, their ranges are fixed
var largeClasses = []string{"[а-ве-жй-лр-тц-шэ]", "[а-вдж-ий-лнпрт-уц-шы]", "[bdfh-jmp-rtvxz]", "[a-cе-и你-佾世]", "[0-9A-Z_a-z]", "[世а-вb-d]", "[яюэьыъщшч]", "[ac-eге-ии]", "[а-иб-вг-д]", "[а-бв-гд-е]", "[п-яа-нм-пк-л]", "[你-佢佀佦-佾]"}

// sameClasses are the classes above (and more) written in another way.
var sameClasses = [][2]string{
	{"[а-яббвг]", "[а-я]"}, {"[а-вббдгае-ж]", "[а-ж]"}, {"[абвгд]", "[а-д]"}, {"[да-гв]", "[а-д]"},
	{"[а-иб-вг-д]", "[а-и]"}, {"[а-бв-гд-е]", "[е-еа-д]"}, {"[п-яа-нм-пк-л]", "[а-я]"}, {"[你-佢佀佦-佾]", "[佾佦-佽佀佡-佢你]"},
	{"[я-яюэа-аб]", "[юэ-яаб]"}, {"[а-яб-вг-де-жз-ик-л]", "[а-я]"}, {"[bdbfhfb]", "[hfdb]"}, {"[a-zb-dаa-cба]", "[baа-бa-z]"},
	{"[а-пб-вг-дп-я]", "[а-я]"}, {"[бвбг-джга-я]", "[а-я]"}, {"[а-яа-яа-яа-я]", "[а-я]"}, {"[ббббв]", "[б-в]"},
}

// ClassSame: a class has one form.
func ClassSame() {
	p := sameClasses[sym.Choice("class", len(sameClasses))]
	if sym.Choice("swap", 2) == 1 {
		p[0], p[1] = p[1], p[0]
	}
	a, ok := utils.RunesRangeExpand(p[0])
	sym.Assert(ok, "a well-formed class is rejected")
	b, ok := utils.RunesRangeExpand(p[1])
	sym.Assert(ok, "a well-formed class is rejected")
	sym.Assert(a.Equal(&b), "the same class written in another way is another one")
	sym.Assert(a.String() == b.String(), "the same class has another string form")
	x := symRu("s", sym.Choice("shape", 3), dASCII)
	sym.Assert(a.Contains(rune(x.V)) == b.Contains(rune(x.V)), "the same class has other members")
}

// ClassLarge: a class of many symbols and ranges contains these.
func ClassLarge() {
	k := sym.Choice("class", len(largeClasses)+3)
	t := "["
	if k < len(largeClasses) {
		t = largeClasses[k]
	} else {
		// every second, third, fourth symbol
		k -= len(largeClasses) - 2
		for i, c := 0, rune(0x402); c < 0x440; i++ {
			t += string(c)
			if i%3 == 2 && k > 2 {
				t += "-" + string(c+1)
			}
			c += rune(k)
		}
		for c := rune(0x4F41); c < 0x4F9F; c += rune(k) {
			t += string(c)
		}
		t += "]"
	}
	rs, ok := utils.RunesRangeExpand(t)
	sym.Assert(ok, "a well-formed class is rejected")
	again, ok := utils.RunesRangeExpand(rs.String())
	sym.Assert(ok && again.Equal(&rs), "the string form is another class")
	var (
		s Ru
		c rune
	)
	switch sh := sym.Choice("shape", 4); sh {
	case 3:
		s = symRu("s", 6, dASCII)
	case 2:
		// U+4F60..U+4F9F
		b := sym.Byte("s")
		sym.Assume(b >= 0x80 && b <= 0xBF)
		s = Ru{B: []byte{0xE4, 0xBD, b}, V: 0x4F40 + int(b&0x3f)}
	default:
		s = symRu("s", sh, dASCII)
	}
	in := false
	var prev rune = -1
	ranged := false
	for _, c = range t[1 : len(t)-1] {
		if c == '-' {
			ranged = true
			continue
		}
		if ranged {
			in = sym.Or(in, sym.And(int(prev) <= s.V, s.V <= int(c)))
			ranged = false
		} else {
			in = sym.Or(in, int(c) == s.V)
		}
		prev = c
	}
	coverIf(rs.Contains(rune(s.V)), "in", "out")
	sym.Assert(rs.Contains(rune(s.V)) == in, "Contains")
	str := ruStr([]Ru{s})
	pos, _, _ := rs.Index("~" + str)
	sym.Assert(sym.Or(pos == 1, sym.Not(in)), "Index")
	sym.Assert(again.Contains(rune(s.V)) == in, "the string form contains others")
}

// ClassBytes: an invalid byte is in no class.
func ClassBytes() {
	rs, _ := symClass()
	b := symBytes("s", sym.Param("n", 2))
	s := string(b)
	pos, c, n := rs.Index(s)
	pos2, c2, n2 := rs.IndexByte(b)
	sym.Assert(pos == pos2 && c == c2 && n == n2, "Index and IndexByte differ")
	sym.ObserveInt("pos", pos)
	if pos != -1 {
		sym.Cover("found")
		sym.Assert(pos >= 0 && n > 0 && pos+n <= len(s) && rs.Contains(c), "Index")
		sym.Assert(string(c) == s[pos:pos+n], "Index finds another symbol")
	}
	c, n = rs.StartsWith(s)
	if n != -1 {
		sym.Assert(n > 0 && n <= len(s) && string(c) == s[:n] && rs.Contains(c) && pos == 0, "StartsWith")
	} else {
		sym.Assert(pos != 0, "StartsWith misses")
	}
	c, n = rs.EndsWith(s)
	if n != -1 {
		sym.Assert(n >= 0 && n < len(s) && string(c) == s[n:] && rs.Contains(c) && pos != -1, "EndsWith")
	}
}

// ClassString: the string form of a class is the same class, in one form.
func ClassString() {
	rs, p := symClass()
	again, ok := utils.RunesRangeExpand(rs.String())
	sym.Assert(ok, "the string form is rejected")
	sym.Assert(again.Equal(&rs) && rs.Equal(&again), "the string form is another class")
	sym.Assert(again.String() == rs.String(), "the string form is not stable")
	r := symRu("s", sym.Choice("shape", sym.Param("shapes", 1)), dASCII)
	sym.Assert(again.Contains(rune(r.V)) == inSet(p.toks[0].Set, r), "the string form contains others")
	// added one by one
	var one utils.RunesRanges
	single := true
	for _, x := range p.toks[0].Set {
		if len(x[0].B) != len(x[1].B) || x[0].V != x[1].V {
			single = false
			break
		}
		one.Adds(ruStr([]Ru{x[0]}))
	}
	if single {
		sym.Cover("added")
		one.Merge()
		sym.Assert(one.Equal(&rs), "added one by one is another class")
	}
}

// AsciiSet: contains what was added.
func AsciiSet() {
	b := symBytes("c", sym.Param("n", 2))
	set, ok := utils.MakeASCIISet(string(b))
	ascii := true
	for _, c := range b {
		ascii = sym.And(ascii, c < 0x80)
	}
	sym.Assert(ok == ascii, "MakeASCIISet")
	var add utils.ASCIISet
	for _, c := range b {
		sym.Assert(add.Add(c) == (c < 0x80), "Add")
	}
	has := func(x byte) bool {
		m := false
		for _, c := range b {
			m = sym.Or(m, sym.And(c == x, x < 0x80))
		}
		return m
	}
	x := sym.Byte("x")
	sym.Assert(add.Contains(x) == has(x), "Contains")
	none := true
	for _, c := range b {
		none = sym.And(none, c >= 0x80)
	}
	sym.Assert(add.IsEmpty() == none, "IsEmpty")
	if !ok {
		sym.Cover("invalid")
		return
	}
	sym.Assert(set == add, "MakeASCIISet differs from Add")
	t := symBytes("t", sym.Param("t", 2))
	i, j := set.Index(string(t)), set.LastIndex(string(t))
	sym.Assert(i == set.IndexByte(t) && j == set.LastIndexByte(t), "the variants of Index differ")
	first, last := -1, -1
	for k := range t {
		if has(t[k]) {
			if first == -1 {
				first = k
			}
			last = k
		}
	}
	sym.Assert(i == first, "Index")
	sym.Assert(j == last, "LastIndex")
	set.Clear()
	sym.Assert(set.IsEmpty() && !set.Contains(x), "Clear")
}

// AsciiSetString: the string forms list the members.
func AsciiSetString() {
	b := make([]byte, sym.Choice("n", sym.Param("n", 2)+1))
	for i := range b {
		b[i] = symByte("c", dFew)
	}
	set, _ := utils.MakeASCIISet(string(b))
	all := set.StringAll()
	n, first := set.Count()
	sym.Assert(n == len(all), "Count")
	for i := 0; i < len(all); i++ {
		sym.Assert(set.Contains(all[i]), "StringAll has a symbol out of the set")
		if i > 0 {
			sym.Assert(all[i-1] < all[i], "StringAll is not ordered")
		} else {
			sym.Assert(first == all[0], "the first one")
		}
	}
	for _, c := range b {
		sym.Assert(strings.IndexByte(all, c) >= 0, "StringAll misses a symbol")
	}
	if set.Contains('-') || set.Contains(']') {
		return
	}
	rs, ok := utils.RunesRangeExpand("[" + set.String() + "]")
	sym.Assert(ok && rs.ASCII == set, "the string form is another set")
}

// SkipRunes: steps over whole symbols only.
func SkipRunes() {
	s := symRus("s", sym.Choice("n", sym.Param("n", 3)+1), 4, dAny)
	for i := range s {
		if len(s[i].B) == 1 {
			sym.Assume(s[i].B[0] < 0x80)
		}
	}
	str := ruStr(s)
	k := sym.Choice("skip", len(s)+2)
	a, b := utils.StringSkipRunes(str, k), utils.StringSkipRunesLast(str, k)
	if k > len(s) {
		sym.Cover("short")
		sym.Assert(a == -1 && b == -1, "symbols out of the string are skipped")
		return
	}
	sym.Assert(a == len(ruStr(s[:k])), "StringSkipRunes")
	sym.Assert(b == len(ruStr(s[:len(s)-k])), "StringSkipRunesLast")
	x, y := utils.SplitString(str, a)
	sym.Assert(x+y == str && x == ruStr(s[:k]), "SplitString")
	sym.Assert(utils.CloneString(str) == str, "CloneString")
}

// SkipRunesBytes: an invalid byte is one symbol.
func SkipRunesBytes() {
	b := symBytes("s", sym.Param("n", 3))
	pad := run(sym.Param("pad", 0), 0)
	str := pad[:len(pad)/2] + string(b) + pad[len(pad)/2:]
	n := 0
	var at []int // where the symbols start
	for i := range str {
		at = append(at, i)
		n++
	}
	at = append(at, len(str))
	k := sym.Choice("skip", len(str)+2)
	a, z := utils.StringSkipRunes(str, k), utils.StringSkipRunesLast(str, k)
	sym.ObserveInt("a", a)
	if k > n {
		sym.Cover("short")
		sym.Assert(a == -1, "symbols out of the string are skipped")
	} else {
		sym.Assert(a >= k && a <= len(str), "StringSkipRunes")
		cnt := 0
		for range str[:a] {
			cnt++
		}
		sym.Assert(cnt == k, "StringSkipRunes steps over another count of symbols")
	}
	if k > n {
		sym.Assert(z == -1, "symbols out of the string are skipped from the end")
	} else {
		sym.Assert(z == at[n-k], "StringSkipRunesLast steps over another count of symbols")
	}
}

// Stores keep all reports, and nothing of the previous use.
func Stores() {
	k := sym.Choice("reports", sym.Param("reports", 3)+1)
	min, idx, str, all := items.NewMinStore(), items.NewIndexStore(), items.NewStringStore(), items.NewAllStore()
	if sym.Bool("used") {
		min.Store("old", 0)
		idx.Store("old", 0)
		str.Store("old", 0)
		all.Store("old", 0)
		sym.Cover("used")
		min.Init()
		idx.Init()
		str.Init()
		all.Init()
	}
	var want []int
	var names []string
	low := -1
	grow := sym.Choice("grow", k+1)
	for i := 0; i < k; i++ {
		if i == grow {
			g := sym.Choice("size", 4)
			idx.Grow(g)
			str.Grow(g)
			all.Grow(g)
		}
		n := sym.Int("index")
		sym.Assume(n >= 0)
		name := symStr("s", 1, dAny)
		for _, st := range []items.Store{min, idx, str, all} {
			st.Store(name, n)
		}
		want = append(want, n)
		names = append(names, name)
		if low == -1 || n < low {
			low = n
		}
	}
	sym.Assert(min.Min == low && all.Min.Min == low, "MinStore")
	sym.Assert(len(idx.N) == k && len(all.Index.N) == k && len(str.S) == k && len(all.S.S) == k, "another number of reports")
	for i := range want {
		sym.Assert(idx.N[i] == want[i] && all.Index.N[i] == want[i], "IndexStore")
		sym.Assert(str.S[i] == names[i] && all.S.S[i] == names[i], "StringStore")
	}
}

// globs with a common start
var prefixSet = []string{"AB*", "AB", "A?", "A{B,C}", "ABC", "*A", "A", "[AB]", "A1", "A12", "", "AB.C", "1A", "{A}B", "AB]", "AB}", "A5", "A5*", "5B", "A4", "A4B", "44"}

// Prefix: the common prefix of globs starts each string they match, and is the longest.
func Prefix() {
	n := sym.Choice("globs", sym.Param("globs", 2)+1)
	root := &pat{dom: dName}
	var texts []string
	var pats []*pat
	for i := 0; i < n; i++ {
		t := prefixSet[sym.Choice("glob", len(prefixSet))]
		end := ""
		if k := len(t); k > 1 && (t[k-1] == ']' && t[0] != '[' || t[k-1] == '}' && strings.IndexByte(t, '{') < 0) {
			end = t[k-1:]
			t = t[:k-1]
		}
		p := root.sub(t)
		pats = append(pats, p)
		texts = append(texts, p.str()+end)
	}
	got := items.IntersectGlobs(texts)
	sym.ObserveStr("prefix", got)
	sym.Assert(!items.HasWildcard(got), "a wildcard in the prefix")
	if n == 0 {
		sym.Assert(got == "", "a prefix of nothing")
		return
	}
	wholeStart(texts, got)
	if len(got) > 0 {
		sym.Cover("common")
		s := symLen()
		str := ruStr(s)
		if len(str) < len(got) || str[:len(got)] != got {
			for _, p := range pats {
				sym.Assert(sym.Not(refMatch(p.toks, s)), "a glob matches without the prefix")
			}
		}
	}
}

// PrefixRaw: the common start of arbitrary texts.
func PrefixRaw() {
	n := 1 + sym.Choice("globs", sym.Param("globs", 2))
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, symRaw(sym.Choice("n", sym.Param("n", 2)+1)))
	}
	got := items.IntersectGlobs(texts)
	sym.ObserveStr("prefix", got)
	sym.Assert(!items.HasWildcard(got), "a wildcard in the prefix")
	wholeStart(texts, got)
}

// wholeStart checks that texts start the same way, and their next symbols differ, or are wildcards.
func wholeStart(texts []string, got string) {
	for _, t := range texts {
		sym.Assert(len(t) >= len(got) && t[:len(got)] == got, "not a prefix of a glob")
	}
	first := nextSymbol(texts[0][len(got):])
	same := first != "" && !items.HasWildcard(first)
	for _, t := range texts[1:] {
		same = same && nextSymbol(t[len(got):]) == first
	}
	coverIf(first == "", "whole", "part")
	sym.Assert(!same, "the prefix is too short")
}

// nextSymbol is the first symbol of a text, or a byte which is no symbol.
func nextSymbol(s string) string {
	if s == "" {
		return s
	}
	n := 1
	switch c := s[0]; {
	case c >= 0xC2 && c <= 0xDF:
		n = 2
	case c >= 0xE0 && c <= 0xEF:
		n = 3
	case c >= 0xF0 && c <= 0xF4:
		n = 4
	}
	if n > len(s) {
		return s[:1]
	}
	for i := 1; i < n; i++ {
		if s[i] < 0x80 || s[i] > 0xBF {
			return s[:1]
		}
	}
	if c, d := s[0], s[1%n]; c == 0xE0 && d < 0xA0 || c == 0xED && d > 0x9F || c == 0xF0 && d < 0x90 || c == 0xF4 && d > 0x8F {
		return s[:1]
	}
	return s[:n]
}

// Wildcards: the helpers see every wildcard symbol.
func Wildcards() {
	b := make([]byte, sym.Choice("n", sym.Param("n", 3)+1))
	for i := range b {
		b[i] = sym.Byte("s")
	}
	s := string(b)
	first, last, count := -1, -1, 0
	for i, c := range b {
		if c == '[' || c == ']' || c == '{' || c == '}' || c == '*' || c == '?' {
			if first == -1 {
				first = i
			}
			last = i
			if c != ']' && c != '}' {
				count++
			}
		}
	}
	sym.Assert(items.IndexWildcard(s) == first, "IndexWildcard")
	sym.Assert(items.IndexLastWildcard(s) == last, "IndexLastWildcard")
	sym.Assert(items.HasWildcard(s) == (first != -1), "HasWildcard")
	sym.Assert(items.WildcardCount(s) == count, "WildcardCount")
	sym.Assert(gglob.IndexWildcard(s) == first, "IndexWildcard of gglob")
	sym.Assert(gglob.IndexLastWildcard(s) == last, "IndexLastWildcard of gglob")
	sym.Assert(gglob.HasWildcard(s) == (first != -1), "HasWildcard of gglob")
	sym.Assert(gglob.WildcardCount(s) == count, "WildcardCount of gglob")
	sym.ObserveInt("first", first)
}
