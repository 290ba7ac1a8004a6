package h

import (
	"strings"

	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// templates of one item, whose length in symbols is fixed
var itemSets = [][]string{
	0: {"a", "1", "2", "4", "ab", "1a", "a1", "12", "abc", "14", "[ab]", "[a-b]", "[a1]", "[1-1]", "[3]", "[12]", "[ab1]"},
	1: {"AA", "AB", "AAB", "1", "B1"},
	2: {"{a,b}", "{a,bc}", "{,a}", "{1,a}", "{1,2b}", "{,ab,c}", "{ab,ac,b}", "{A,AB}", "{,A,BA}"},
	// items to be joined
	3: {"a", "ab", "1", "a1", "?", "*", "[ab]", "{a,bc}", "12"},
}

func itemSet() []string {
	set := itemSets[sym.Param("iset", 0)]
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	return set
}

// oneItem is the single item of a template.
func oneItem() (items.Item, *pat) {
	set := itemSet()
	p := newPat(set[sym.Choice("item", len(set))], dLit)
	if HasSpecial(p) {
		item, next, err := items.NextWildcardItem(p.str())
		sym.Assert(err == nil && next == "" && item != nil, "a well-formed item is rejected")
		return item, p
	}
	// the constructors
	r := p.toks[0].R
	switch k := len(p.toks); {
	case k == 1 && len(r.B) == 1 && sym.Choice("as", 2) == 0:
		return items.Byte(r.B[0]), p
	case k == 1 && len(r.B) > 1 && sym.Choice("as", 2) == 0:
		// the only place where an encoded rune is needed as a number
		for _, c := range p.str() {
			return items.Rune(c), p
		}
	}
	return items.NewString(p.str()), p
}

// HasSpecial says that the pattern is a class or a list.
func HasSpecial(p *pat) bool { return p.toks[0].K == '[' || p.toks[0].K == '{' }

// ItemFind: an item finds the first place where its meaning starts, and matches
// at the start and at the end.
func ItemFind() {
	item, p := oneItem()
	s := symLen()
	str := ruStr(s)
	k := len(p.toks)
	offs := []int{0}
	for _, r := range s {
		offs = append(offs, offs[len(offs)-1]+len(r.B))
	}
	at := func(i int) bool {
		if i < 0 || i+k > len(s) {
			return false
		}
		return refMatch(p.toks, s[i:i+k])
	}

	off, flag := item.Match(str)
	sym.Assert(flag == items.FindDone, "the flag of Match")
	sym.ObserveInt("match", off)
	if off != -1 {
		sym.Cover("match")
		sym.Assert(k <= len(s) && off == offs[k], "the offset of Match")
	}
	sym.Assert((off != -1) == at(0), "Match disagrees with the meaning of the item")

	idx, length, flag := item.Find(str)
	sym.Assert(flag == items.FindDone, "the flag of Find")
	sym.ObserveInt("find", idx)
	if idx == -1 {
		sym.Cover("not found")
		for i := range s {
			sym.Assert(sym.Not(at(i)), "Find misses the item")
		}
	} else {
		n := -1
		for i := range s {
			if offs[i] == idx {
				n = i
			}
		}
		sym.Assert(n >= 0 && n+k <= len(s), "Find returns a place inside of a symbol")
		sym.Assert(at(n), "Find returns another place")
		sym.Assert(length == offs[n+k]-offs[n], "Find returns another length")
		for i := 0; i < n; i++ {
			sym.Assert(sym.Not(at(i)), "Find returns not the first place")
		}
		if n > 0 {
			sym.Cover("found later")
		}
	}

	off, flag = item.MatchLast(str)
	sym.ObserveInt("last", off)
	if flag == items.FindDone {
		if off != -1 {
			sym.Cover("last")
			sym.Assert(k <= len(s) && off == offs[len(s)-k], "the offset of MatchLast")
		}
		sym.Assert((off != -1) == at(len(s)-k), "MatchLast disagrees with the meaning of the item")
	}

	w := len(str)
	if at(0) && k == len(s) {
		sym.Assert(item.MinLen() <= w && w <= item.MaxLen(), "the bounds of the item")
	}
}

// ItemSkip: ? and * step over whole symbols.
func ItemSkip() {
	n := sym.Choice("skip", sym.Param("skip", 3)+1)
	s := symLen()
	str := ruStr(s)
	want := -1
	if n <= len(s) {
		want = len(ruStr(s[:n]))
	}
	any, star := items.Any(n), items.Star(n)
	if n > 0 {
		off, flag := any.Match(str)
		sym.Assert(flag == items.FindDone && off == want, "Match of ?")
		idx, l, flag := any.Find(str)
		sym.Assert(flag == items.FindForwarded && l == want && (idx == -1) == (want == -1), "Find of ?")
		sym.Assert(idx <= 0, "Find of ? skips symbols")
		sym.Assert(any.String() == strings.Repeat("?", n), "the string form of ?")
	}
	off, flag := star.Match(str)
	sym.Assert(flag == items.FindStar && off == want, "Match of *")
	idx, l, flag := star.Find(str)
	sym.Assert(flag == items.FindStar && idx == 0 && l == want, "Find of *")
	sym.Assert(star.String() == "*"+strings.Repeat("?", n), "the string form of *")
	if n > 0 && n == len(s) {
		w := len(str)
		sym.Assert(any.MinLen() <= w && w <= any.MaxLen() && star.MinLen() <= w, "the bounds of ? or *")
	}
	sym.Assert(star.MaxLen() == -1, "a star is bounded")
	coverIf(want == -1, "short", "skipped")
}

// ItemList: a list finds its values.
func ItemList() {
	set := itemSets[2]
	if k := sym.Param("only", -1); k >= 0 {
		set = set[k : k+1]
	}
	p := newPat(set[sym.Choice("item", len(set))], dName)
	item, next, err := items.NextWildcardItem(p.str())
	sym.Assert(err == nil && next == "" && item != nil, "a well-formed list is rejected")
	list, ok := item.(items.ItemList)
	if !ok {
		sym.Cover("no list")
		return
	}
	alts := p.toks[0].Alts
	str := ruStr(symLen())
	m := list.Map()
	empty := false
	for _, alt := range alts {
		var v []byte
		for _, t := range alt {
			v = append(v, t.R.B...)
		}
		_, ok := m[string(v)]
		sym.Assert(ok, "a value is lost")
		empty = empty || len(v) == 0
		sym.Assert(list.MinLen() <= len(v) && len(v) <= list.MaxLen(), "a value does not fit the bounds")
	}
	sym.Assert(list.IsOptional() == empty, "IsOptional")
	if empty {
		sym.Assert(list.Len() == len(m)-1, "the count of values")
	} else {
		sym.Assert(list.Len() == len(m), "the count of values")
	}
	sl, ok := item.(*items.StringList)
	sym.Assert(ok, "not a list of strings")
	first, supported := list.FindFirst(str)
	okFirst, supported2 := list.MatchFirst(str)
	for i := 0; i < list.Len(); i++ {
		v := sl.Vals[i]
		_, ok := m[v]
		sym.Assert(ok && v != "", "an unknown value")
		if i > 0 {
			sym.Assert(sl.Vals[i-1] < v, "the values are not ordered")
		}
		off := list.MatchN(str, i)
		idx, l := list.FindN(str, i)
		// reference: the first place of the value
		want := -1
		for j := 0; j+len(v) <= len(str) && want < 0; j++ {
			if str[j:j+len(v)] == v {
				want = j
			}
		}
		sym.ObserveInt("idx", idx)
		sym.Assert(idx == want, "FindN finds another place")
		if idx != -1 {
			sym.Cover("found")
			sym.Assert(l == len(v), "the length of FindN")
			if supported {
				sym.Assert(first != -1 && first <= idx, "FindFirst is after the value")
			}
		}
		if want == 0 {
			sym.Assert(off == len(v), "MatchN misses the value")
			if supported2 {
				sym.Assert(okFirst, "MatchFirst misses the value")
			}
		} else {
			sym.Assert(off == -1, "MatchN matches another value")
		}
	}
}

// ItemsAppend: items joined to a list mean the sequence.
func ItemsAppend() {
	set := itemSets[3]
	k := 1 + sym.Choice("pieces", sym.Param("pieces", 2))
	var list []items.Item
	p := &pat{dom: dLit}
	for i := 0; i < k; i++ {
		q := p.sub(set[sym.Choice("item", len(set))])
		rest := q.str()
		if q.toks[0].K == 'l' {
			switch r := q.toks[0].R; {
			case len(q.toks) == 1 && len(r.B) == 1 && sym.Choice("as", 2) == 0:
				list = items.AppendItem(list, items.Byte(r.B[0]))
			case len(q.toks) == 1 && len(r.B) > 1 && sym.Choice("as", 2) == 0:
				for _, c := range rest {
					list = items.AppendItem(list, items.Rune(c))
				}
			default:
				list = items.AppendItem(list, items.NewString(rest))
			}
		} else {
			for rest != "" {
				var (
					item items.Item
					err  error
				)
				item, rest, err = items.NextWildcardItem(rest)
				sym.Assert(err == nil, "a well-formed item is rejected")
				list = items.AppendItem(list, item)
			}
		}
		p.toks = append(p.toks, q.toks...)
	}
	for i := 1; i < len(list); i++ {
		_, a := list[i-1].(*items.String)
		_, b := list[i].(*items.String)
		sym.Assert(!(a && b), "strings are not joined")
	}
	s := symLen()
	m := items.MatchItems(ruStr(s), list)
	sym.ObserveBool("m", m)
	coverIf(m, "match", "miss")
	sym.Assert(m == refMatch(p.toks, s), "the joined items match other strings")
}

// ItemEqual: items are equal only if they are written the same way.
func ItemEqual() {
	var its [2]items.Item
	sets := []string{"X", "1", "XY", "?", "??", "*", "*?", "[XY]", "[X-Y]", "[1X]", "{X,Y}", "{X,YX}", "{,X}", "{X*,Y}", "{X?,Y}", "{?,X}", "[X]Z", "{X,Y}*", "{X*1,Y}", "{X*Y,Y}", "{X?*,Y}", "{X*,Y,1}", "{X??,Y}", "{[XY]*,Y}"}
	p := &pat{dom: dTiny}
	for i := range its {
		q := p.sub(sets[sym.Choice("item", len(sets))])
		item, next, err := items.NextWildcardItem(q.str())
		sym.Assert(err == nil, "a well-formed item is rejected")
		if item == nil {
			return
		}
		_ = next
		its[i] = item
	}
	eq := its[0].Equal(its[1])
	coverIf(eq, "equal", "differ")
	sym.Assert(eq == its[1].Equal(its[0]), "Equal is not symmetric")
	sym.Assert(its[0].Equal(its[0]), "an item is not equal to itself")
	a, b := its[0].String(), its[1].String()
	sym.ObserveStr("a", a)
	sym.ObserveStr("b", b)
	if eq {
		sym.Assert(a == b, "equal items are written differently")
		sym.Assert(items.ItemsEqual([]items.Item{its[0]}, []items.Item{its[1]}), "ItemsEqual")
	} else {
		_, s0 := its[0].(*items.String)
		_, s1 := its[1].(*items.String)
		if s0 == s1 {
			sym.Assert(a != b, "items written the same way are not equal")
		}
		sym.Assert(!items.ItemsEqual([]items.Item{its[0]}, []items.Item{its[1]}), "ItemsEqual")
	}
	sym.Assert(!items.ItemsEqual([]items.Item{its[0]}, nil), "ItemsEqual of another length")
	for i := 0; i < 2; i++ {
		one, two := []items.Item{its[i]}, []items.Item{its[i], its[1-i]}
		sym.Assert(!items.ItemsEqual(one, two) && !items.ItemsEqual(two, one) && !items.ItemsEqual(nil, one), "ItemsEqual of another length")
		sym.Assert(items.ItemsEqual(two, []items.Item{its[i], its[1-i]}), "ItemsEqual of the same items")
		sym.Assert(items.ItemsEqual(two, []items.Item{its[1-i], its[i]}) == eq, "ItemsEqual of another order")
	}
}
