package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// template sets
var sets = [][]string{
	0: {"a", "?", "*", "[a-b]", "{a,b}", "{a,bc}", "{,a}", "{a*,b}", "{?,b}", "{*a,b}", "{a?,}", "{[a-b],c}", "{a,b,c}"},
	1: {"a", "ab", "1", "?", "*", "[ab]", "[a-b]", "[a1]", "[1-1]", "{a}", "{a,b}", "{a,bc}", "{,a}", "{a,b,c}", "{,ab,c,de}", "{1,a}",
		"{a*,b}", "{?,b}", "{*,a}", "{*a,b}", "{a?,}", "{[a-b],cd}", "{a*b,c}", "{?a,b}", "{*}", "{a*}", "{?}", "{*?,a}", "{}", "[]", "[a]", "[1]", "{a?,b[cd]}", "{,?}", "{**,a}", "{[],a}", "{[a],b}", "{a[],b}", "{*?*,a}", "{a,*}"},
	2: {"a", "*", "?", "{a,bc}", "{,a}", "{a?,b}"},
	3: {"a", "1", "2", "3", "?", "*", "[a1]", "[1-1]", "[2-2]", "[4-4]", "{1,2}", "{1,ab,c}", "{1?,a}", "{a1,2*}", "[3]", "4"},
	// whole globs: a star, what follows it, and what can be retried
	4: {"*a*b", "a*b*c", "*{a,bc}*d", "*{,a}b", "*{a,ab}*", "a*{b,c}", "*[a-b]*c", "*?a", "?*a", "*{a*,b}c", "*{a?,b}?", "*{?,ab}c", "{a,b}*{c,d}",
		"*{a,b,c}d", "{a,*b}c", "{a*,b}{c,d}", "*{a,b}{c,d}", "{a,ab}{c,bc}", "{,a}{,b}", "*a?b", "a?*b", "*{a,}", "*{a*,}b", "**a", "?{,a}?", "a{b*c,d}e"},
	5: {"a1*", "*1a", "1*2", "*[a1]b", "{1,2}*", "*{1,ab}?", "?1?", "*[1-1]*", "{1?,a}2", "*{1a,a}1", "[a1][b2]", "?*1", "*4", "4?", "{4,a}*"},
	// any other place of the same letter
	6: {"*A*A", "A*A", "*AB*A", "{A,AA}A", "*{A,AB}B", "A{A,B}*B", "*A?A", "{AB,A}{B,BB}", "*{AB,A}B*", "*[AB]A", "A*{A,B}A"},
	// what is found after a star overlaps with itself; repeated values
	// several wildcards in one value
	8: {"{??*,b}", "{1?*,a}", "{?*?,b}c", "{*??,a}", "{a??,1}", "{a*b*,c}", "{*?*?,b}", "{a?*?b,c}", "{[a1]*?,b}?", "{?a?*,b}", "*{??*,a}b", "*{a*?,b}c", "{?*a*?,b}", "{a[bc]?*,d}", "??{?*,a}", "*?{?*?,ab}", "{**?*,ab}", "{?[ab]*[cd],a}", "{*a*b,c}?", "{ab??,?1}"},
	// many values; with lower=1
	11: {"{p,c,o,A,e,n,h,m,b,k,d,l,f,i,g,j}", "{pp,cx,A,oo,e,nn,hh,mm,bB,kk,dd,ll,ff,ii,gg,jj}", "{p?,c,o?,A?,e,n?,h?,m,b*,k?,d?,l,f,i,g?,j?B}", "[pcoAenhmbkdlfigj]", "[a-cA-Ak-mx-zg-i]",
		"*{pp,cx,A,oo,e,nn,hh,mm,bB,kk,dd,ll,ff,ii,gg,jj}*", "{,A,a,B,b,a,c,b,A,d,B,e,c,f,a,g}B", "{aA,aab,aac,aB,a,aad,abc,aae,ab,abb,abd,abe,abA,b}c"},
	// more than a few ? at once
	12: {"????*", "a*????b", "{*????,a}", "??????????*", "*??????????b", "{a??????????,b}", "[a-b]???????????b", "{?*????????,a}b", "*[a-b]?????????"},
	// values of one symbol, joined with what follows
	13: {"?[1]a?", "?{1}{a}?", "?[a]1?", "?[1][2]?", "?[a][b]?", "?{ab}1?", "?1{a}?", "?{a}{bc}?", "*{1}{2}?", "*{a}{1}{b}?", "{a}b{1}?", "?[1][a][2]*", "?{ab}{c}?", "?{ab}{cd}?", "{1}{2}", "?{1}ab?", "?a[b]1?"},
	// for strings with bytes which are no symbols
	14: {"1*", "?", "??", "*?", "?*a", "*?a", "[a1]", "[a-b]?", "*[a1]", "{1}", "{1}?", "*{1}", "?{1}", "{1,a}", "{?,a}a", "{?a,b}?", "*{1,a}?", "{4}", "4?", "*{4}?", "*4", "?4", "{4,a}", "[4]", "*[4]?", "{??,a}1", "*[1-1]a"},
	// an empty value beside of symbols which are not ASCII
	15: {"{,1}", "{,1,2}", "a{,1,ab}*", "*{,1}b", "?{,2}?", "{,1a}{,1}", "{,4}a", "{1,,1}?", "*{,3,12}"},
	// strings of several symbols, which are found after a star
	16: {"*aa*a*", "*ab*a*", "*aab*b*", "a*aa*a*", "*{ab,ac}*a*", "*?aa*a*", "*[ab]a*a*", "*aa{b,}*a*", "*aa*ab", "*11*1*", "*{aa}*{a,b}*", "*aa?a*", "{aa*,b}a*"},
	// for edge=
	17: {"[12]", "?[1-12-2]", "[12]*", "*[2-21]a", "{[12],a}", "[a12]?", "*[12]?"},
	18: {"[1-2]", "*[1-2]?", "[1-2a]*", "{[11-2],a}"},
	7:  {"*ABA?", "*AAB[AB]", "*ABA*B", "A*BAB?", "*{ABA,AB}?", "*ABA{B,C}", "{A,B,A,C,B}C", "{C,A,B,AB,A}*", "{A,A,A}B", "{,B,A,B,}A"},
}

func theSet() []string {
	set := sets[sym.Param("set", 0)]
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	return set
}

func globSetup() (*glob.Glob, *pat) {
	p := pick(theSet(), sym.Param("pieces", 2), dLit)
	g, err := glob.Parse(p.str())
	sym.Assert(err == nil, "a well-formed glob is rejected")
	return g, p
}

// symLen is a string of 0..n runes, with far=k of them inside of a long fixed text.
func symLen() []Ru {
	s := symSome()
	if k := sym.Param("far", -1); k >= 0 {
		pad := fixedRus(run(longSizes[k], []int{3, 0, 1}[sym.Choice("pad", sym.Param("pads", 3))]))
		if where := sym.Choice("where", 3); where == 0 {
			return append(s, pad...)
		} else if where == 1 {
			return append(pad, s...)
		}
		return append(append(append([]Ru{}, pad...), s...), pad...)
	}
	return s
}

func symSome() []Ru {
	return symRus("s", sym.Param("min", 0)+sym.Choice("n", sym.Param("n", 3)-sym.Param("min", 0)+1), sym.Param("shapes", 1), dASCII)
}

func coverIf(c bool, yes, no string) {
	if c {
		sym.Cover(yes)
	} else {
		sym.Cover(no)
	}
}

// GlobMatch: Match agrees with the meaning of the glob.
func GlobMatch() {
	g, p := globSetup()
	s := symLen()
	m := g.Match(ruStr(s))
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == refMatch(p.toks, s), "Match disagrees with the meaning of the glob")
}

// symbols that mean something to the parser, and others
var rawBytes = []byte{'*', '?', '[', ']', '{', '}', ',', '-', 'a', 'b'}

func symRaw(n int) string {
	b := make([]byte, n)
	if sym.Param("raw", 0) == 1 {
		for i := range b {
			b[i] = sym.Byte("g")
		}
		return string(b)
	}
	for i := range b {
		b[i] = symByte("g", dRaw)
	}
	return string(b)
}

// balanced: every bracket is closed, none is closed twice, none is nested
func balanced(s string) bool {
	open := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch open {
		case 0:
			if c == '[' || c == '{' {
				open = c
			} else if c == ']' || c == '}' {
				return false
			}
		case '[':
			if c == ']' {
				open = 0
			}
		case '{':
			if c == '}' {
				open = 0
			} else if c == '[' {
				open = 'c'
			} else if c == '{' || c == ']' {
				return false
			}
		case 'c': // a class inside of alternatives
			if c == ']' {
				open = '{'
			}
		}
	}
	return open == 0
}

// GlobRaw: Parse and Match finish on any text.
func GlobRaw() {
	t := symRaw(sym.Choice("gn", sym.Param("gn", 4)) + 1)
	g, err := glob.Parse(t)
	if err != nil {
		sym.Cover("rejected")
		return
	}
	sym.Cover("accepted")
	b := make([]byte, sym.Choice("n", sym.Param("n", 2)+1))
	for i := range b {
		b[i] = sym.Byte("s")
	}
	m := g.Match(string(b))
	sym.ObserveBool("m", m)
	sym.ObserveStr("node", g.Node)
}

// GlobBytes: Match finishes on any bytes, also if they are not UTF-8.
func GlobBytes() {
	g, _ := globSetup()
	b := make([]byte, sym.Choice("n", sym.Param("n", 3)+1))
	for i := range b {
		b[i] = sym.Byte("s")
	}
	m := g.Match(string(b))
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
}

// GlobMalformed: a glob with a bracket left open or never opened is rejected.
func GlobMalformed() {
	t := symRaw(sym.Choice("gn", sym.Param("gn", 4)) + 1)
	g, err := glob.Parse(t)
	ok := balanced(t)
	if !ok {
		sym.Cover("malformed")
		sym.Assert(err != nil, "a malformed glob is accepted")
	} else if err == nil {
		sym.Cover("accepted")
		sym.Assert(g.Glob == t, "the raw glob is not kept")
	}
}

// plainLists: no wildcard inside of braces
func plainLists(toks []Tok) bool {
	for _, t := range toks {
		for _, alt := range t.Alts {
			for _, x := range alt {
				if x.K != 'l' {
					return false
				}
			}
		}
	}
	return true
}

// GlobNormal: the normalized glob means the same and is its own normal form.
func GlobNormal() {
	g, p := globSetup()
	g2, err := glob.Parse(g.Node)
	sym.Assert(err == nil, "the normalized glob is rejected")
	if plainLists(p.toks) {
		sym.Assert(g2.Node == g.Node, "normalization is not idempotent")
	}
	sym.Assert(g.Raw() == p.str() && g.String() == g.Node, "Raw or String differ")
	s := symLen()
	m2 := g2.Match(ruStr(s))
	sym.ObserveBool("m", m2)
	coverIf(m2, "match", "miss")
	sym.Assert(m2 == refMatch(p.toks, s), "the normalized glob matches other strings")
}

// GlobRandom: a random example of a glob is matched by it.
func GlobRandom() {
	g, p := globSetup()
	for _, t := range p.toks {
		sym.Assume(t.K != '[' || len(t.Set) > 0)
	}
	sym.Often(func() {
		var buf strings.Builder
		g.WriteRandom(&buf)
		s := buf.String()
		sym.Cover("example")
		sym.Assert(g.Match(s), "the glob does not match its random example")
		sym.Assert(refMatch(p.toks, splitRus(s)), "a random example is not meant by the glob")
	})
}

// spellings of the same glob
var spellings = [][]string{
	{"{A,B}", "{B,A}", "{A,B,A}", "{B,A,B,A}"},
	{"{A,B,C}", "{C,B,A}", "{B,C,A,C}", "{C,A,B}"},
	{"{,A}", "{A,}", "{A,,A}", "{,A,}"},
	{"{AB,A,C}", "{C,AB,A}", "{A,C,AB,A}"},
	{"{A*,B}", "{B,A*}", "{A*,B,A*}"},
	{"{A?,B,CD}", "{CD,A?,B}", "{B,CD,A?,B}"},
	{"{[XY],A}", "{A,[XY]}", "{A,[XY],A}"},
	{"{*?,A}", "{A,*?}", "{*?,A,*?}"},
	{"[XY]", "[YX]", "[XYX]", "[X-XY]"},
	{"[XU]", "[UX]", "[XUX]", "[UUX]"},
	{"[UV]", "[VU]", "[U-UV]", "[UVU]"},
	{"[UVT]", "[TUV]", "[VTU]"},
	{"{U,VA,T}", "{T,VA,U}", "{VA,U,T,U}"},
	{"[X-Y]", "[X-YX]", "[YX-Y]", "[XX-YY]"},
	{"*", "**", "***", "*{}*", "*[]"},
	{"*?", "?*", "*?*", "**?", "?**", "*{}?"},
	{"*??", "?*?", "??*", "?**?*"},
	{"A", "{A}", "[A]", "A{}", "[]A", "{A,A}", "[AA]", "{}A[]"},
	{"AB", "{AB}", "[A]B", "A[B]", "{A}{B}", "A{}B", "{AB,AB}"},
	{"U", "{U}", "[U]", "[U-U]", "{U,U}"},
	{"A?", "A{}?", "{A}?", "[A]?"},
	{"[U-V]", "[U-VU]", "[UU-V]", "[VU-V]", "[U-VV]", "[U-VU-V]", "[U-UU-V]"},
	{"[U-V]", "[U-VS]", "[SU-V]", "[U-SS-V]", "[S-VU-V]", "[SVU-V]", "[U-SU-V]"},
	{"[X-Y]", "[X-YW]", "[WX-Y]", "[X-WW-Y]", "[WYX-Y]"},
}

// with lower=1
var manySpellings = [][]string{
	{"{p,c,o,A,e,n,h,m,b,k,d,l,f,i,g,j}", "{A,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p}", "{p,o,n,m,l,k,j,i,h,g,f,e,d,c,b,A,p,o,n,m,l}", "{b,d,f,h,j,l,n,p,A,c,e,g,i,k,m,o}"},
	{"{pp,cc,oo,Ax,e,nn,hh,mm,bb,kk,dd,ll,ff}", "{Ax,bb,cc,dd,e,ff,hh,kk,ll,mm,nn,oo,pp}", "{pp,oo,nn,mm,ll,kk,hh,ff,e,dd,cc,bb,Ax}"},
	{"{p?,c,o*,A?,e,n?,h?,m,b?,k?,d?,l,f}", "{A?,b?,c,d?,e,f,h?,k?,l,m,n?,o*,p?}", "{p?,o*,n?,m,l,k?,h?,f,e,d?,c,b?,A?,p?}"},
	{"[pcoAenhmbkdlfigj]", "[Abcdefghijklmnop]", "[A-Ab-dnmoe-lp]", "[ponmlkjihgfedcbA]"},
	{"[a-cAk-mx-zg-i]", "[x-zk-mg-ia-cA]", "[Ax-zyzk-mlmg-ia-cb]"},
}

// GlobSpelling: the spelling of a glob does not change its normal form.
func GlobSpelling() {
	all := spellings
	if sym.Param("many", 0) == 1 {
		all = manySpellings
	}
	set := all[sym.Choice("spelling", len(all))]
	k := 1 + sym.Choice("other", len(set)-1)
	ctx := [][2]string{{"", ""}, {"A", ""}, {"", "A"}, {"*", ""}, {"", "*"}, {"?", "V"}, {"", "{A*,}C"}, {"[AB]", "{A,B}"}}
	c := ctx[sym.Choice("around", sym.Param("around", len(ctx)))]
	root := &pat{dom: dName}
	switch {
	case strings.Contains(set[1]+set[len(set)-1], "S"):
		u, s, v := root.letter('U', dName), root.letter('S', dName), root.letter('V', dName)
		sym.Assume(u.V <= s.V && s.V <= v.V)
	case strings.Contains(set[1], "W"):
		x, w, y := root.letter('X', dName), root.letter('W', dName), root.letter('Y', dName)
		sym.Assume(x.V <= w.V && w.V <= y.V)
	}
	var texts [2]string
	var gs [2]*glob.Glob
	for i, t := range []string{set[0], set[k]} {
		before, p, after := root.sub(c[0]), root.sub(t), root.sub(c[1])
		texts[i] = before.str() + p.str() + after.str()
		g, err := glob.Parse(texts[i])
		sym.Assert(err == nil, "a well-formed glob is rejected")
		gs[i] = g
	}
	sym.ObserveStr("node", gs[0].Node)
	sym.Assert(gs[0].Node == gs[1].Node, "another spelling has another normal form")
	sym.Assert(gs[0].MinLen == gs[1].MinLen && gs[0].MaxLen == gs[1].MaxLen, "another spelling has other bounds")
	if gs[0].Node == "" {
		return
	}
	tree := glob.NewTree()
	_, _, err := tree.Add(texts[0], 3)
	sym.Assert(err == nil, "a well-formed glob is rejected")
	_, n, err := tree.Add(texts[1], 5)
	sym.Assert(err == errExist && n == 3, "another spelling is added to a tree")
	if sym.Param("dots", 1) == 1 {
		d, err := gglob.Parse("A." + texts[0])
		sym.Assert(err == nil, "a well-formed glob is rejected")
		e, err := gglob.Parse("A." + texts[1] + []string{"", "."}[sym.Choice("dot", 2)])
		sym.Assert(err == nil, "a well-formed glob is rejected")
		sym.Assert(d.Node == e.Node, "another spelling of a level has another normal form")
	}
}

// GlobSize: everything a glob means fits its length bounds.
func GlobSize() {
	g, p := globSetup()
	s := symLen()
	n := len(ruStr(s))
	ref := refMatch(p.toks, s)
	sym.ObserveInt("min", g.MinLen)
	sym.ObserveInt("max", g.MaxLen)
	if n < g.MinLen {
		sym.Cover("below")
		sym.Assert(!ref, "a string shorter than MinLen is meant by the glob")
	} else if g.MaxLen >= 0 && n > g.MaxLen {
		sym.Cover("above")
		sym.Assert(!ref, "a string longer than MaxLen is meant by the glob")
	} else {
		sym.Cover("inside")
	}
	min, max := 0, 0
	for _, it := range g.Items {
		min += it.MinLen()
		if max >= 0 {
			if it.MaxLen() < 0 {
				max = -1
			} else {
				max += it.MaxLen()
			}
		}
	}
	if len(g.Items) > 0 {
		sym.Assert(g.MinLen == min+len(g.Prefix)+len(g.Suffix), "MinLen is not the sum of the items")
		if max < 0 {
			sym.Assert(g.MaxLen == -1, "MaxLen of a glob with a star")
		} else {
			sym.Assert(g.MaxLen == max+len(g.Prefix)+len(g.Suffix), "MaxLen is not the sum of the items")
		}
	}
}
