package h

import (
	"regexp"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// caught is what f panics with, or nil.
func caught(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return nil
}

// textHas: the text of an error has this part, and more.
func textHas(err error, part string) bool {
	s := err.Error()
	return len(s) > len(part) && strings.Contains(s, part)
}

// bracketErr: an error about brackets with a part of the text
func bracketErr(err error, t string) bool {
	switch e := err.(type) {
	case items.ErrNodeUnclosed:
		return strings.Contains(t, e.Segment) && textHas(err, e.Segment)
	case items.ErrNodeMissmatch:
		kind := "list"
		if e.Node[0] == '[' {
			kind = "rune"
		}
		return e.Type == kind && strings.Contains(t, e.Node) && textHas(err, e.Node) && textHas(err, kind)
	}
	return false
}

// GlobErrors: a glob is rejected because of its brackets, ParseMust panics exactly then.
func GlobErrors() {
	t := symRaw(sym.Choice("gn", sym.Param("gn", 4)+1))
	g, err := glob.Parse(t)
	var must *glob.Glob
	e := caught(func() { must = glob.ParseMust(t) })
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(e == nil, "ParseMust panics for an accepted glob")
		sym.Assert(must.Glob == g.Glob && must.Node == g.Node && len(must.Items) == len(g.Items), "ParseMust gives another glob")
		return
	}
	sym.Cover("rejected")
	sym.Assert(bracketErr(err, t), "an error of another kind")
	sym.Assert(err.Error() != "", "an error without a text")
	perr, ok := e.(error)
	sym.Assert(ok && perr == err, "ParseMust does not panic with the error")
	tree := glob.NewTree()
	_, _, err2 := tree.Add(t, 1)
	sym.Assert(err2 == err, "a tree gives another error")
}

// GGlobErrors: the same for dotted globs, an empty level is told.
func GGlobErrors() {
	n := sym.Choice("n", sym.Param("n", 4)) + 1
	b := make([]byte, n)
	for i := range b {
		if sym.Bool("dot") {
			b[i] = '.'
		} else {
			b[i] = symByte("g", dRaw)
		}
	}
	t := string(b)
	g, err := gglob.Parse(t)
	var must *gglob.GGlob
	e := caught(func() { must = gglob.ParseMust(t) })
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(e == nil, "ParseMust panics for an accepted glob")
		sym.Assert(must.Glob == g.Glob && must.Node == g.Node && len(must.Parts) == len(g.Parts), "ParseMust gives another glob")
		return
	}
	perr, ok := e.(error)
	sym.Assert(ok && perr == err, "ParseMust does not panic with the error")
	sym.Assert(err.Error() != "", "an error without a text")
	tree := gglob.NewTree()
	_, _, err2 := tree.Add(t, 1)
	sym.Assert(err2 == err, "a tree gives another error")
	// the first level that is empty or malformed
	s := t
	if s[n-1] == '.' {
		s = s[:n-1]
	}
	start := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '.' {
			continue
		}
		part := s[start:i]
		start = i + 1
		if part == "" {
			sym.Cover("empty")
			x, ok := err.(items.ErrNodeEmpty)
			sym.Assert(ok && x.Path == s && textHas(err, s), "an empty level has another error")
			return
		}
		if _, perr := glob.Parse(part); perr != nil {
			sym.Cover("brackets")
			sym.Assert(perr == err, "a malformed level has another error")
			return
		}
	}
	sym.Assert(false, "a glob of accepted levels is rejected")
}

// what is wrong with a query
const (
	wellFormed = iota
	notCall
	notQuoted
	noCondition
)

// refQuery says what a query means: its conditions, and what is wrong with it first.
func refQuery(q string) (conds []string, kind int) {
	t := q
	for len(t) > 0 && t[0] == ' ' {
		t = t[1:]
	}
	for len(t) > 0 && t[len(t)-1] == ' ' {
		t = t[:len(t)-1]
	}
	if len(t) < 13 || t[:12] != "seriesByTag(" || t[len(t)-1] != ')' {
		return nil, notCall
	}
	t = t[12 : len(t)-1]
	for i := 0; i < len(t); i++ {
		if t[i] == ' ' || t[i] == ',' {
			continue
		}
		if t[i] != '\'' && t[i] != '"' {
			return nil, notQuoted
		}
		end := i + 1
		for end < len(t) && t[end] != t[i] {
			end++
		}
		if end == len(t) {
			return nil, notQuoted
		}
		if end > i+1 {
			conds = append(conds, t[i+1:end])
		}
		i = end
	}
	return conds, wellFormed
}

// refCond splits a condition, ok if it is one.
func refCond(c string) (key, op, value string, ok bool) {
	at := 0
	for at < len(c) && c[at] != '=' && c[at] != '!' && c[at] != '~' {
		at++
	}
	if at == len(c) || c[at] == '~' || c[at] == '!' && (at+1 == len(c) || c[at+1] != '=') {
		return
	}
	key = strings.Trim(c[:at], " ")
	n := at + 1
	if c[at] == '!' {
		n++
	}
	if n < len(c) && c[n] == '~' {
		n++
	}
	if key == "name" {
		key = "__name__"
	}
	return key, c[at:n], strings.Trim(c[n:], " "), key != ""
}

// QueryErrors: a query is accepted exactly if it is well-formed, with its
// conditions as terms; otherwise the error tells what is wrong.
func QueryErrors() {
	n := sym.Choice("n", sym.Param("n", 4)+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = symByte("q", dQuery)
	}
	q := string(b)
	switch sym.Choice("wrap", 6) {
	case 4:
		q = "seriesByTag(" + q
	case 5:
		q = "seriesByTag('b=c'" + q
	case 0:
		q = "seriesByTag(" + q + ")"
	case 1:
		q = "seriesByTag('" + q + "')"
	case 2:
		q = "seriesByTag('b=c'," + q + "\"d=e\")"
	}
	terms, err := gtags.ParseSeriesByTag(q)
	conds, kind := refQuery(q)
	switch kind {
	case notCall:
		sym.Cover("not a call")
		x, ok := err.(gtags.ErrQueryInvalid)
		sym.Assert(ok && x.Query == q && textHas(err, q), "what is not a call has another error")
	case notQuoted:
		sym.Cover("not quoted")
		x, ok := err.(gtags.ErrNodeNotTerminated)
		sym.Assert(ok && strings.Contains(q, x.Node) && textHas(err, x.Node), "what is not quoted has another error")
	}
	if kind == wellFormed {
		// the first condition that is not one
		for _, c := range conds {
			_, op, value, ok := refCond(c)
			if !ok {
				sym.Cover("not a condition")
				x, ok := err.(gtags.ErrExprInvalid)
				sym.Assert(ok && x.Node != "" && strings.Contains(c, x.Node) && textHas(err, x.Node), "what is not a condition has another error")
				kind = noCondition
				break
			}
			if op[len(op)-1] == '~' {
				if _, rerr := regexp.Compile(value); rerr != nil {
					sym.Cover("not a regular expression")
					x, ok := err.(gtags.ErrExprInvalid)
					sym.Assert(ok && x.Node != "" && strings.Contains(c, x.Node) && textHas(err, x.Node), "a broken regular expression has another error")
					kind = noCondition
					break
				}
			} else if _, gerr := glob.Parse(value); gerr != nil {
				sym.Cover("not a glob")
				sym.Assert(err == gerr, "a broken glob has another error")
				kind = noCondition
				break
			}
		}
	}
	tree := gtags.NewTree()
	norm, at, err2 := tree.Add(q, 1)
	if q == "" {
		sym.Assert(norm == "" && at == 0 && err2 == nil, "adding nothing")
		err2 = err
	}
	if kind != wellFormed {
		sym.Assert(err != nil && err.Error() != "", "an error without a text")
		sym.Assert(err2 == err, "a tree gives another error")
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil, "a well-formed query is rejected")
	sym.Assert(len(terms) == len(conds), "another number of terms")
	sym.Assert(err2 == nil && at == 1 && norm == terms.String(), "a tree rejects the query")
	opName := []string{"", "=", "=~", "!=", "!=~"}
	for i, c := range conds {
		key, op, value, _ := refCond(c)
		if op[len(op)-1] != '~' {
			value = glob.ParseMust(value).Node
		}
		found := 0
		for j := range terms {
			if terms[j].Key == key && opName[terms[j].Op] == op && terms[j].Value == value {
				found++
			}
		}
		same := 0
		for _, d := range conds[:i+1] {
			if d == c {
				same++
			}
		}
		sym.Assert(found >= same, "a condition is lost")
	}
}

// PathErrors: what is not a tagged path is told so.
func PathErrors() {
	b := make([]byte, sym.Choice("n", sym.Param("n", 4)+1))
	for i := range b {
		b[i] = symByte("s", dSep)
	}
	path := string(b)
	var err error
	first, sep := "?", "&"
	switch sym.Choice("variant", 6) {
	case 0:
		_, err = gtags.PathTags(path)
	case 1:
		_, err = gtags.PathTagsMap(path)
	case 2:
		err = gtags.PathTagsMapB(path, map[string]string{})
	case 3:
		first, sep = ";", ";"
		_, err = gtags.GraphitePathTags(path)
	case 4:
		first, sep = ";", ";"
		_, err = gtags.GraphitePathTagsMap(path)
	case 5:
		first, sep = ";", ";"
		err = gtags.GraphitePathTagsMapB(path, map[string]string{})
	}
	i := strings.Index(path, first)
	bad := i < 0 || strings.Contains(path[:i], "=")
	if !bad && i+1 < len(path) {
		// what is left after the last tag
		rest := path[i+1:]
		if k := strings.LastIndex(rest, "="); k >= 0 {
			_, rest, _ = strings.Cut(rest[k+1:], sep)
		}
		bad = rest != ""
	}
	if bad {
		sym.Cover("rejected")
		x, ok := err.(gtags.ErrPathInvalid)
		sym.Assert(ok && textHas(err, x.Node) && textHas(err, x.Reason), "a broken path has another error")
		name := i < 0 || strings.Contains(path[:i], "=")
		tag := x.Node != "" && i >= 0 && strings.HasSuffix(path[i:], x.Node) && !strings.Contains(x.Node, "=")
		sym.Assert(name && x.Node == "name" || tag, "an error about another part of the path")
		sym.Assert(err.Error() != "", "an error without a text")
	} else {
		sym.Cover("accepted")
		sym.Assert(err == nil, "a well-formed path is rejected")
	}
}
