package h

import (
	"bytes"
	"strings"

	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

const hexDigits = "0123456789ABCDEF"

// escTab: which bytes stay as they are
var escTab [2][256]bool

func init() {
	for i := 0; i < 256; i++ {
		keep := i >= 'a' && i <= 'z' || i >= 'A' && i <= 'Z' || i >= '0' && i <= '9' || i == '-' || i == '_' || i == '.' || i == '~'
		escTab[1][i] = keep
		for _, c := range []byte("$&+,/:;=@") {
			keep = keep || i == int(c)
		}
		escTab[0][i] = keep
	}
}

// refEscape: mode 1 for a query, 0 for a path
func refEscape(b []byte, mode int) []byte {
	var out []byte
	for _, c := range b {
		if escTab[mode][c] {
			out = append(out, c)
		} else if mode == 1 && c == ' ' {
			out = append(out, '+')
		} else {
			out = append(out, '%', hexDigits[c>>4], hexDigits[c&15])
		}
	}
	return out
}

// pad is a string around the size of the local buffer
func pad() string {
	n := sym.Param("pad", 0)
	if n == 0 {
		return ""
	}
	return strings.Repeat("a", n+sym.Choice("pad", 3))
}

func symBytes(name string, n int) []byte {
	b := make([]byte, sym.Choice("n", n+1))
	for i := range b {
		b[i] = sym.Byte(name)
		if sym.Param("few", 0) == 1 {
			// a letter, and what means something to a path
			sym.Assume(strings.IndexByte("a=&;", b[i]) >= 0)
		}
	}
	return b
}

// Escape: only the allowed bytes stay, the other are %XX (or + for a blank of a query).
func Escape() {
	p := pad()
	b := append([]byte(p), symBytes("s", sym.Param("n", 2))...)
	s := string(b)
	for mode := 0; mode < 2; mode++ {
		want := string(refEscape(b, mode))
		var buf bytes.Buffer
		buf.WriteString("x")
		var got string
		if mode == 1 {
			got = escape.Query(s)
			escape.QueryTo(s, &buf)
		} else {
			got = escape.Path(s)
			escape.PathTo(s, &buf)
		}
		sym.ObserveStr("got", got)
		sym.Assert(got == want, "escaped to another text")
		sym.Assert(buf.String() == "x"+want, "escaped to another text in a buffer")
	}
	sym.Assert(string(b) == s, "the source is changed")
}

// EscapeBack: unescaping gives the escaped string back.
func EscapeBack() {
	p := pad()
	b := append([]byte(p), symBytes("s", sym.Param("n", 2))...)
	s := string(b)
	sym.Assert(escape.Unescape(escape.Query(s)) == s, "Query is not reverted")
	plus := false
	for _, c := range b {
		plus = sym.Or(plus, c == '+')
	}
	if !plus {
		sym.Assert(escape.Unescape(escape.Path(s)) == s, "Path is not reverted")
	} else {
		sym.Cover("plus")
	}
	var sb strings.Builder
	first := escape.UnescapeTo("%41+", &sb)
	got := escape.UnescapeTo(escape.Query(s), &sb)
	name, tag := escape.UnescapeNameTo(escape.Query(s), &sb)
	last := escape.UnescapeTo("+%7e", &sb)
	sym.Assert(got == s, "UnescapeTo")
	sym.Assert(name == s && tag == "__name__="+s, "UnescapeNameTo")
	sym.Assert(first == "A " && last == " ~", "UnescapeTo spoils other results")
}

func symHex(name string) (byte, byte) {
	b := sym.Byte(name)
	var v byte
	if b >= '0' && b <= '9' {
		v = b - '0'
	} else if b >= 'a' && b <= 'f' {
		v = b - 'a' + 10
	} else {
		sym.Assume(b >= 'A' && b <= 'F')
		v = b - 'A' + 10
	}
	return b, v
}

// symEscaped is an escaped text, and what it means.
func symEscaped(n int) (s []byte, want []byte) {
	for i := sym.Choice("units", n+1); i > 0; i-- {
		switch sym.Choice("unit", 3) {
		case 0:
			c := sym.Byte("c")
			sym.Assume(c != '%' && c != '+')
			s = append(s, c)
			want = append(want, c)
		case 1:
			s = append(s, '+')
			want = append(want, ' ')
		case 2:
			a, x := symHex("h")
			b, y := symHex("h")
			s = append(s, '%', a, b)
			want = append(want, x<<4|y)
		}
	}
	switch sym.Choice("tail", 3) {
	case 1:
		s = append(s, '%')
		want = append(want, '%')
	case 2:
		c := sym.Byte("c")
		s = append(s, '%', c)
		if c == '+' {
			c = ' '
		}
		want = append(want, '%', c)
	}
	return
}

// Unescape decodes %XX and +, and keeps all other bytes.
func Unescape() {
	s, want := symEscaped(sym.Param("n", 2))
	got := escape.Unescape(string(s))
	sym.ObserveStr("got", got)
	sym.Assert(got == string(want), "Unescape")
	var sb strings.Builder
	sb.WriteString("prefix")
	got = escape.UnescapeTo(string(s), &sb)
	sym.Assert(got == string(want), "UnescapeTo")
	name, tag := escape.UnescapeNameTo(string(s), &sb)
	sym.Assert(name == string(want) && tag == "__name__="+string(want), "UnescapeNameTo")
	sym.Assert(got == string(want), "an earlier result is changed")
	sym.Assert(strings.HasPrefix(sb.String(), "prefix"), "the buffer is changed")
}

// hexOf is the value of a hex digit.
func hexOf(c byte) (v byte, ok bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// refUnescape decodes the escapes from the start of a text.
func refUnescape(b []byte) (want []byte) {
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c == '+' {
			c = ' '
		} else if c == '%' && i+2 < len(b) {
			x, ok := hexOf(b[i+1])
			if ok {
				y, ok := hexOf(b[i+2])
				if ok {
					c = x<<4 | y
					i += 2
				}
			}
		}
		want = append(want, c)
	}
	return
}

// UnescapeRaw: in any bytes the escapes, and only these, are decoded, by all
// variants, and the result is never longer.
func UnescapeRaw() {
	b := symBytes("s", sym.Param("n", 3))
	s := string(b)
	got := escape.Unescape(s)
	sym.ObserveStr("got", got)
	sym.Assert(len(got) <= len(s), "longer than the source")
	sym.Assert(got == string(refUnescape(b)), "Unescape")
	var sb strings.Builder
	sb.WriteString("prefix")
	to := escape.UnescapeTo(s, &sb)
	name, tag := escape.UnescapeNameTo(s, &sb)
	sym.Assert(to == got && name == got && tag == "__name__="+got, "the variants differ")
	has := false
	for _, c := range b {
		has = sym.Or(has, sym.Or(c == '%', c == '+'))
	}
	if !has {
		sym.Cover("plain")
		sym.Assert(got == s, "a plain text is changed")
	}
}

func sameMap(m map[string]string, tags []gtags.Tag) bool {
	w := gtags.TagsMap(tags)
	if len(w) != len(m) {
		return false
	}
	for i := range tags {
		v, ok := m[tags[i].Key]
		if !ok || v != w[tags[i].Key] {
			return false
		}
	}
	return true
}

// PathTagsBack: an escaped tagged path is split to what it was made of.
func PathTagsBack() {
	n := sym.Param("n", 1)
	graphite := sym.Choice("format", 2) == 1
	first, next := "?", "&"
	if graphite {
		first, next = ";", ";"
	}
	name := string(symBytes("s", n))
	path := escape.Query(name) + first
	want := []gtags.Tag{{Key: "__name__", Value: name}}
	for i := sym.Choice("tags", sym.Param("tags", 2)+1); i > 0; i-- {
		if len(want) > 1 {
			path += next
		}
		k, v := string(symBytes("k", n)), string(symBytes("v", n))
		path += escape.Query(k) + "=" + escape.Query(v)
		want = append(want, gtags.Tag{Key: k, Value: v})
	}
	old := map[string]string{"old": "tag", "__name__": "old"}
	if sym.Param("oldkey", 0) > 0 {
		old[string(symBytes("o", sym.Param("oldkey", 0)))] = "x"
	}
	var (
		tags       []gtags.Tag
		m          map[string]string
		err1, err2 error
		err3       error
	)
	if graphite {
		tags, err1 = gtags.GraphitePathTags(path)
		m, err2 = gtags.GraphitePathTagsMap(path)
		err3 = gtags.GraphitePathTagsMapB(path, old)
	} else {
		tags, err1 = gtags.PathTags(path)
		m, err2 = gtags.PathTagsMap(path)
		err3 = gtags.PathTagsMapB(path, old)
	}
	sym.Assert(err1 == nil && err2 == nil && err3 == nil, "a well-formed path is rejected")
	sym.Assert(len(tags) == len(want), "another number of tags")
	for i := range want {
		sym.Assert(tags[i].Key == want[i].Key && tags[i].Value == want[i].Value, "another tag")
	}
	sym.Assert(sameMap(m, want), "another map of tags")
	sym.Assert(sameMap(old, want), "another map of tags in a prepared map")
}

// PathTagsRaw: the variants agree with each other on any path.
func PathTagsRaw() {
	graphite := sym.Choice("format", 2) == 1
	b := make([]byte, sym.Choice("n", sym.Param("n", 4)+1))
	for i := range b {
		c := sym.Byte("s")
		sym.Assume(c == '?' || c == '&' || c == ';' || c == '=' || c == 'a' || c == '%' || c == '+' || c == '4')
		b[i] = c
	}
	path := string(b)
	old := map[string]string{"old": "tag", "__name__": "", "__old__": "x", "": "y"}
	if sym.Param("oldkey", 0) > 0 {
		old[string(symBytes("o", sym.Param("oldkey", 0)))] = "x"
	}
	var (
		tags       []gtags.Tag
		m          map[string]string
		err1, err2 error
		err3       error
	)
	first := byte('?')
	if graphite {
		first = ';'
		tags, err1 = gtags.GraphitePathTags(path)
		m, err2 = gtags.GraphitePathTagsMap(path)
		err3 = gtags.GraphitePathTagsMapB(path, old)
	} else {
		tags, err1 = gtags.PathTags(path)
		m, err2 = gtags.PathTagsMap(path)
		err3 = gtags.PathTagsMapB(path, old)
	}
	sym.Assert((err1 == nil) == (err2 == nil) && (err2 == nil) == (err3 == nil), "only one of the variants rejects a path")
	sym.Assert(sameMap(m, tags) && sameMap(old, tags), "the variants find other tags")
	if err1 == nil {
		sym.Cover("accepted")
		i := bytes.IndexByte(b, first)
		sym.Assert(i >= 0, "a path without tags is accepted")
		sym.Assert(bytes.IndexByte(b[:i], '=') < 0, "a name with = is accepted")
		sym.Assert(tags[0].Key == "__name__" && tags[0].Value == escape.Unescape(path[:i]), "another name")
	} else {
		sym.Cover("rejected")
	}
}
