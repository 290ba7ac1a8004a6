package h

import (
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

var errExist = glob.ErrGlobExist

// rec is a store that keeps every report.
type rec struct {
	q []string
	n []int
}

func (r *rec) Store(s string, index int) {
	r.q = append(r.q, s)
	r.n = append(r.n, index)
}

// entry is what a tree must know.
type entry struct {
	raw, node string
	index     int
	want      bool // must be reported
}

// indexes of the trees: not in the order of addition, with zero
var someIndexes = []int{4, 0, 9, 2, 7, 1}

// checkReports compares the reports of a tree with what is expected.
func checkReports(es []entry, r *rec, matched int) {
	sym.ObserveInt("matched", matched)
	sym.Assert(matched == len(r.n), "the returned count is not the count of reports")
	for i := range r.n {
		known := false
		for _, e := range es {
			if e.index == r.n[i] {
				known = true
				sym.Assert(e.node == r.q[i], "a report with the query of another glob")
				sym.Assert(e.want, "a glob that does not match is reported")
			}
		}
		sym.Assert(known, "a report with an unknown index")
	}
	for _, e := range es {
		got := false
		for i := range r.n {
			got = got || r.n[i] == e.index
		}
		if !got {
			sym.Assert(sym.Not(e.want), "a glob that matches is not reported")
			sym.Cover("silent")
		} else {
			sym.Cover("reported")
		}
	}
}

// checkStores: the other stores agree with the reports.
func checkStores(r *rec, all *items.AllStore, min *items.MinStore, n int) {
	m := -1
	for _, i := range r.n {
		if m == -1 || i < m {
			m = i
		}
	}
	sym.Assert(min.Min == m, "MinStore does not keep the lowest index")
	sym.Assert(n == len(r.n) && len(all.Index.N) == n && len(all.S.S) == n && all.Min.Min == m, "AllStore differs")
	for i := range r.n {
		sym.Assert(all.Index.N[i] == r.n[i] && all.S.S[i] == r.q[i], "AllStore keeps other reports")
	}
}

// treeSets of globs, which share the letters
var treeSets = [][]string{
	0: {"A", "A*", "*A", "A*B", "AB", "?", "A?", "{A,B}", "A{B,C}", "*"},
	1: {"A*B", "A*C", "A*", "*B", "A*B*", "*A*B", "*{A,B}", "A{,B}*", "*{A,B}C", "*?B", "A{B*,C}", "*{A*,B}", "*{A?,}"},
	2: {"X", "X*", "X*Y", "{X,Y}X", "[XY]X", "X?", "?X", "X{,Y}", "XY", "[XY]", "*[XY]"},
	3: {"A{B,C}D", "A{B,C}E", "A*{B,C}D", "A*{B,C}", "*{A,B}*C", "{A*,B}C", "{A*,B}D", "A*{B*,C}D", "{A,B}{C,D}", "{A,B}{C,D}E", "{,A}B*", "{,A}*B"},
	4: {"1A", "1*", "*1", "A1*", "[X1]", "{1,A}", "{1,A}B", "*[1X]B", "?1", "*A", "A*1B"},
	5: {"X", "{X}", "[X]", "X{}", "X*", "X**", "{X,Y}", "{Y,X}", "[XY]", "[YX]", "?*X", "*?X", "[]X"},
	// wildcards in braces with an empty value, at the end
	6: {"{A?,}", "A{B?,}", "{,A*}", "{B?,}A", "{B?,}?", "?{B*,}", "{A,B*,}C", "{A,B*,}?C", "{[AB]C,}", "{A,?B,}", "[AB]{A*C,}", "{A?,}{B*,}"},
	7: {"[1-1]", "[1-1]A", "[1-1]*", "[11]A", "*[1-1]", "[X-Y]A", "[X-Y]*"},
	8: {"{AB,C}D", "{AB,B}D", "{A,B,C}", "{A,B,CD}*", "{,A,B}C", "{A?,B}C", "{A?,C}C", "{?A,C}B", "[AB]*D", "[AC]*D", "[A-B]D"},
	// wildcards inside of braces, followed by what is not a suffix
	9:  {"{A*,B}?", "{A*,B}[AB]", "{A?,B}*", "{A?,B}*?", "{A*B,C}{A,B}", "{A*,}?", "{*A,B}?", "{?A,B}{A,BC}", "{A,B}{C*,A}?", "{A*,B}{C,A}", "{A?,}{B,}"},
	10: {"*{A*,B}?", "*{A?B,C}*", "*{?A,B}{A,B}", "*{A*,}[AB]", "*{*A,B}?", "*{A,B}?", "*{,A}?", "?{A*,B}?", "*?{A?,B}?", "*[AB]{A,B}", "*{A[BC],B}?", "*{A?,}?"},
	// lists and groups of the same size
	11: {"{A,B,D}*", "{A,C,D}*", "{A,B,D,E}?", "{A,C,D,E}?", "{A?,B,D}?", "{A?,C,D}?", "[ABD]?", "[ACD]?", "{A?,?B}*", "{A?,?C}*"},
	// a value is the start of another one
	12: {"{A*,C}?", "{A*B,C}?", "{A*B?,C}?", "{A?,C}*", "{A?B,C}*", "{A,C*}?", "{AB,C*}?", "{[AB],?}C", "{[AB]C,?}C", "{,A*}?", "{,A*B}?"},
}

// theTreeSet: the set, with anyset=1 any one, with anyset=2 all in one.
func theTreeSet(sets [][]string) []string {
	switch sym.Param("anyset", 0) {
	case 1:
		set := sets[sym.Choice("set", len(sets))]
		sym.Assume(len(set) > 0)
		return set
	case 2:
		var set []string
		for _, s := range sets {
			set = append(set, s...)
		}
		return set
	}
	return sets[sym.Param("set", 0)]
}

// chosen numbers below n: each sequence without repetitions side by side (order=1: growing),
// or with all=1 every number, in one of some orders.
func chosen(count, n int) (ks []int) {
	if sym.Param("all", 0) == 1 {
		d := sym.Choice("dir", 4)
		for i := 0; i < n; i++ {
			switch d {
			case 0:
				ks = append(ks, i)
			case 1:
				ks = append(ks, n-1-i)
			case 2:
				ks = append(ks, (i+n/2)%n)
			case 3:
				if j := 2 * i; j < n {
					ks = append(ks, j)
				} else {
					ks = append(ks, 2*(n-1-i)+1)
				}
			}
		}
		return
	}
	last := -1
	for i := 0; i < count; i++ {
		k := sym.Choice("glob", n)
		if sym.Param("order", 0) == 0 {
			sym.Assume(k != last)
		} else {
			sym.Assume(k > last)
		}
		last = k
		ks = append(ks, k)
	}
	return
}

func theIndex(i int) int {
	if i < len(someIndexes) {
		return someIndexes[i]
	}
	return 10 + i
}

func treeGlobs(count int) (*glob.GlobTree, []entry, []*pat) {
	set := theTreeSet(treeSets)
	tree := glob.NewTree()
	var es []entry
	var ps []*pat
	root := &pat{dom: dName}
	for i, k := range chosen(count, len(set)) {
		p := root.sub(set[k])
		var (
			node string
			n    int
			err  error
		)
		if sym.Param("addglob", 0) == 1 {
			g, perr := glob.Parse(p.str())
			sym.Assert(perr == nil, "a well-formed glob is rejected")
			node, n, err = tree.AddGlob(g, theIndex(i))
		} else {
			node, n, err = tree.Add(p.str(), theIndex(i))
		}
		if err != nil {
			sym.Assert(err == errExist, "a well-formed glob is rejected")
			sym.Cover("exists")
			continue
		}
		sym.Assert(n == theIndex(i), "another index is returned")
		es = append(es, entry{raw: p.str(), node: node, index: n})
		ps = append(ps, p)
	}
	return tree, es, ps
}

// GlobTree: a tree reports the globs that match on their own.
func GlobTree() {
	tree, es, ps := treeGlobs(sym.Param("globs", 2))
	s := symLen()
	for i := range es {
		es[i].want = refMatch(ps[i].toks, s)
	}
	r := &rec{}
	checkReports(es, r, tree.Match(ruStr(s), r))
}

// GlobTreeStores: the stores of the library get the same reports.
func GlobTreeStores() {
	tree, _, _ := treeGlobs(sym.Param("globs", 2))
	s := ruStr(symLen())
	r, min, all := &rec{}, items.NewMinStore(), items.NewAllStore()
	all.Init()
	all.Grow(2)
	tree.Match(s, r)
	tree.Match(s, min)
	checkStores(r, all, min, tree.Match(s, all))
}

// GlobTreeBytes: Match of a tree finishes on any bytes.
func GlobTreeBytes() {
	tree, es, ps := treeGlobs(sym.Param("globs", 2))
	b := make([]byte, sym.Choice("n", sym.Param("n", 2)+1))
	for i := range b {
		b[i] = sym.Byte("s")
	}
	s := string(b)
	for i := range es {
		g, err := glob.Parse(ps[i].str())
		sym.Assert(err == nil, "a well-formed glob is rejected")
		es[i].want = g.Match(s)
	}
	r := &rec{}
	checkReports(es, r, tree.Match(s, r))
}
