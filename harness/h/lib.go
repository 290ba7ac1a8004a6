// Package h holds the verification harnesses. Each harness is executed
// symbolically by the engine and natively for replay.
package h

import "github.com/msaf1980/go-matcher/zzverif/sym"

// byte classes: what a symbolic byte may be
const (
	dAny   = 0
	dASCII = 1  // 1..127
	dLit   = 2  // ASCII without wildcard symbols and ','
	dClass = 3  // may be listed in [...]
	dPart  = 4  // dLit without '.'
	dPath  = 5  // ASCII without '.'
	dFew   = 7  // a few class symbols around the 32-bit word borders
	dRaw   = 8  // parser symbols, and others
	dTiny  = 9  // four letters around a 32-bit word border
	dQuery = 10 // what means something to a query, and others
	dSep   = 11 // what means something to a tagged path, and a letter
	dName  = 6  // tag names and values: printable, no quote, operator, wildcard, ',', ';', '&', '?' or blank
)

var domTab [12][256]bool

func init() {
	for i := 0; i < 256; i++ {
		domTab[dAny][i] = true
		for _, c := range rawBytes {
			if i == int(c) {
				domTab[dRaw][i] = true
			}
		}
		domTab[dRaw][i] = domTab[dRaw][i] || i == 0xD0 || i == 0x90 || i == 0xFF
		if i > 127 {
			continue
		}
		domTab[dASCII][i] = true
		for _, c := range []byte("'\"=~!, a()*[") {
			domTab[dQuery][i] = domTab[dQuery][i] || i == int(c)
		}
		domTab[dSep][i] = i == '?' || i == '&' || i == ';' || i == '=' || i == 'a' || i == '%'
		sp := i == '[' || i == ']' || i == '{' || i == '}' || i == '*' || i == '?' || i == ','
		domTab[dLit][i] = !sp
		domTab[dClass][i] = i != ']' && i != '-' && i != ',' && i != '{' && i != '}'
		domTab[dFew][i] = i == 0 || i == 0x1f || i == ' ' || i == '*' || i == '?' || i == '@' || i == '_' || i == '`' || i == 'b' || i == 0x7f
		domTab[dTiny][i] = i == '_' || i == '`' || i == 'a' || i == 'b'
		domTab[dPart][i] = !sp && i != '.'
		domTab[dPath][i] = i != '.'
		domTab[dName][i] = !sp && i > ' ' && i < 127 && i != '\'' && i != '"' && i != '=' && i != '~' && i != '!' && i != ';' && i != '&' && i != '%' && i != '+' && i != '(' && i != ')' && i != '-' && i != '.'
	}
}

func symByte(name string, dom int) byte {
	b := sym.Byte(name)
	sym.Assume(domTab[dom][b])
	return b
}

// Ru is one encoded rune (or an arbitrary byte).
type Ru struct {
	B []byte
	V int // code point
}

// rune shapes: the leading bytes are fixed, the last byte is symbolic
var shapes = [][]byte{
	nil,                // ASCII
	{0xD0},             // U+0400..U+043F
	{0xE4, 0xB8},       // U+4E00..U+4E3F
	{0xF0, 0x9F, 0x98}, // U+1F600..U+1F63F
	{0xEF, 0xBF},       // U+FFC0..U+FFFF, with U+FFFD
	{0xC3},             // U+00C0..U+00FF
	{0xD1},
	nil, // a byte which is no symbol
}

// edges: neighbour symbols, which stand on both sides of a boundary (edge=)
var edges = [][2][]byte{
	{{0xDF}, {0xE0, 0xA0}},             // U+07FF, U+0800
	{{0xEF, 0xBF}, {0xF0, 0x90, 0x80}}, // U+FFFF, U+10000
	{{0xED, 0x9F}, {0xEE, 0x80}},       // surrogates in between
}

// leadOf is the leading bytes of a shape.
func leadOf(shape int) []byte {
	if e := sym.Param("edge", -1); e >= 0 && (shape == 1 || shape == 2) {
		return edges[e][shape-1]
	}
	return shapes[shape]
}

// shapeOf the i-th of k shapes; 10: ASCII and broken bytes, 11: with one multibyte shape
func shapeOf(i, k int) int {
	if k >= 10 && i == k-9 {
		return 7
	}
	return i
}

func choiceShape(name string, k int) int {
	if k >= 10 {
		return shapeOf(sym.Choice(name, k-8), k)
	}
	return sym.Choice(name, k)
}

func symRu(name string, shape int, dom int) Ru {
	if shape == 0 {
		b := symByte(name, dom)
		return Ru{B: []byte{b}, V: int(b)}
	}
	lead := leadOf(shape)
	b := sym.Byte(name)
	if shape == 7 {
		sym.Assume(b >= 0x80 && (b <= 0xBF || b >= 0xF8))
		return Ru{B: []byte{b}, V: -1}
	}
	sym.Assume(b >= 0x80 && b <= 0xBF)
	r := Ru{}
	r.B = append(r.B, lead...)
	r.B = append(r.B, b)
	v := 0
	switch len(lead) {
	case 1:
		v = int(lead[0]) & 0x1f
	case 2:
		v = (int(lead[0])&0x0f)<<6 | int(lead[1])&0x3f
	case 3:
		v = (int(lead[0])&0x07)<<12 | (int(lead[1])&0x3f)<<6 | int(lead[2])&0x3f
	}
	r.V = v<<6 | int(b&0x3f)
	return r
}

// fixedRu decodes a concrete symbol.
func fixedRu(r Ru) Ru {
	for _, c := range string(r.B) {
		r.V = int(c)
		break
	}
	return r
}

func ruEq(a, b Ru) bool {
	if len(a.B) != len(b.B) {
		return false
	}
	r := true
	for i := range a.B {
		r = sym.And(r, a.B[i] == b.B[i])
	}
	return r
}

func ruStr(rs []Ru) string {
	var b []byte
	for _, r := range rs {
		b = append(b, r.B...)
	}
	return string(b)
}

// splitRus splits a string to its symbols, which must be valid.
func splitRus(s string) (rs []Ru) {
	for i := 0; i < len(s); {
		n, v := 1, int(s[i])
		switch b := s[i]; {
		case b >= 0xF0:
			n, v = 4, int(b&0x07)
		case b >= 0xE0:
			n, v = 3, int(b&0x0f)
		case b >= 0xC0:
			n, v = 2, int(b&0x1f)
		}
		sym.Assert(i+n <= len(s), "a broken symbol")
		for j := 1; j < n; j++ {
			v = v<<6 | int(s[i+j]&0x3f)
		}
		rs = append(rs, Ru{B: []byte(s[i : i+n]), V: v})
		i += n
	}
	return
}

// symRus is a string of n runes of arbitrary shapes (of the first k).
func symRus(name string, n, k, dom int) []Ru {
	rs := make([]Ru, n)
	for i := range rs {
		sh := 0
		if k > 1 {
			sh = choiceShape(name+"shape", k)
		}
		rs[i] = symRu(name, sh, dom)
	}
	return rs
}

func symStr(name string, n, dom int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = symByte(name, dom)
	}
	return string(b)
}

// Tok is one element of the reference pattern.
type Tok struct {
	K    byte // 'l' literal, '?', '*', '[' class, '{' alternatives
	R    Ru
	Set  [][2]Ru
	Alts [][]Tok
	At   int // where it starts in the text
}

// pat is a glob under construction: its text and its meaning.
type pat struct {
	text []byte
	toks []Tok
	dom  int
	vars map[byte]Ru
	// ranges may have any ends
	loose bool
	// what ~ stands for
	long []Ru
}

func (p *pat) letter(c byte, dom int) Ru {
	// const=1: the letters of a glob are fixed, only the strings are arbitrary
	if sym.Param("const", 0) == 1 {
		if c == 'S' {
			c = 'U'
		}
		if c == '7' {
			return Ru{B: []byte{0xB7}, V: -1}
		}
		if c >= '1' && c <= '6' {
			r := Ru{}
			r.B = append(append(r.B, shapes[c-'0']...), 0x80+c)
			return fixedRu(r)
		}
		if c >= 'T' && c <= 'V' {
			r := Ru{}
			r.B = append(append(r.B, shapes[1+('V'-c)/2]...), 0x5A+c)
			return fixedRu(r)
		}
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		return Ru{B: []byte{c}, V: int(c)}
	}
	// lower=1: only lower case letters are fixed
	if c >= 'a' && c <= 'z' && sym.Param("lower", 0) == 1 {
		return Ru{B: []byte{c}, V: int(c)}
	}
	// upper case letters of a template name a symbol used again
	if c >= 'A' && c <= 'Z' {
		if r, ok := p.vars[c]; ok {
			return r
		}
	}
	var r Ru
	if c >= 'W' && c <= 'Z' {
		dom = dTiny
	} else if c >= 'A' && c <= 'Z' {
		dom = dName
	}
	switch {
	case c >= '1' && c <= '7':
		r = symRu("g", int(c-'0'), dom)
		if sym.Param("edge", -1) >= 0 {
			// up to 3 steps from the boundary
			b := r.B[len(r.B)-1]
			sym.Assume(c == '1' && b >= 0xBD || c == '2' && b <= 0x82)
		}
	case c == 'T':
		r = symRu("g", 2, dom)
	case c == 'S' || c == 'U' || c == 'V':
		r = symRu("g", 1, dom)
	default:
		r = symRu("g", 0, dom)
	}
	if c >= 'A' && c <= 'Z' {
		if p.vars == nil {
			p.vars = map[byte]Ru{}
		}
		p.vars[c] = r
	}
	return r
}

func classDom() int {
	if sym.Param("cfull", 0) == 1 {
		return dClass
	}
	return dFew
}

// simple parses template tokens up to a stop symbol.
// a-z: a fresh symbolic ASCII letter, A-V: the same letter each time, W-Z: of a few,
// 1-6: a symbolic multibyte rune, '.' itself; [ab], [a-b]; * and ?.
func (p *pat) simple(t string, i int) ([]Tok, int) {
	var toks []Tok
	for i < len(t) && t[i] != ',' && t[i] != '}' && t[i] != '{' {
		c := t[i]
		at := len(p.text)
		if c == '~' && p.long != nil {
			for _, r := range p.long {
				toks = append(toks, Tok{K: 'l', R: r, At: len(p.text)})
				p.text = append(p.text, r.B...)
			}
			i++
			continue
		}
		switch c {
		case '*', '?':
			p.text = append(p.text, c)
			toks = append(toks, Tok{K: c, At: at})
			i++
		case '.':
			p.text = append(p.text, c)
			toks = append(toks, Tok{K: 'l', R: Ru{B: []byte{'.'}, V: '.'}, At: at})
			i++
		case '[':
			p.text = append(p.text, c)
			i++
			tk := Tok{K: '[', At: at}
			for t[i] != ']' {
				a := p.letter(t[i], classDom())
				p.text = append(p.text, a.B...)
				i++
				if t[i] == '-' {
					b := p.letter(t[i+1], classDom())
					p.text = append(p.text, '-')
					p.text = append(p.text, b.B...)
					i += 2
					sym.Assume(p.loose || a.V <= b.V)
					tk.Set = append(tk.Set, [2]Ru{a, b})
				} else {
					tk.Set = append(tk.Set, [2]Ru{a, a})
				}
			}
			p.text = append(p.text, ']')
			i++
			toks = append(toks, tk)
		default:
			r := p.letter(c, p.dom)
			p.text = append(p.text, r.B...)
			toks = append(toks, Tok{K: 'l', R: r, At: at})
			i++
		}
	}
	return toks, i
}

func (p *pat) add(t string) {
	i := 0
	for i < len(t) {
		if t[i] != '{' {
			var toks []Tok
			toks, i = p.simple(t, i)
			p.toks = append(p.toks, toks...)
			continue
		}
		tk := Tok{K: '{', At: len(p.text)}
		p.text = append(p.text, '{')
		i++
		for {
			var alt []Tok
			alt, i = p.simple(t, i)
			tk.Alts = append(tk.Alts, alt)
			if t[i] == '}' {
				break
			}
			p.text = append(p.text, ',')
			i++
		}
		p.text = append(p.text, '}')
		i++
		p.toks = append(p.toks, tk)
	}
}

func newPat(t string, dom int) *pat {
	p := &pat{dom: dom}
	p.add(t)
	return p
}

func inSet(set [][2]Ru, r Ru) bool {
	m := false
	for _, x := range set {
		if len(x[0].B) != len(r.B) {
			continue
		}
		m = sym.Or(m, sym.And(x[0].V <= r.V, r.V <= x[1].V))
	}
	return m
}

// reach is a set of positions in a string, and when each of them is reached.
type reach struct {
	at []int // growing
	c  []bool
}

func (r *reach) add(i int, c bool) {
	if !sym.Never(c) {
		r.at = append(r.at, i)
		r.c = append(r.c, c)
	}
}

// or joins two sets.
func (r reach) or(b reach) (u reach) {
	i, j := 0, 0
	for i < len(r.at) || j < len(b.at) {
		switch {
		case j == len(b.at) || i < len(r.at) && r.at[i] < b.at[j]:
			u.add(r.at[i], r.c[i])
			i++
		case i == len(r.at) || b.at[j] < r.at[i]:
			u.add(b.at[j], b.c[j])
			j++
		default:
			u.add(r.at[i], sym.Or(r.c[i], b.c[j]))
			i++
			j++
		}
	}
	return
}

// step advances the set of positions reached in s by tokens.
func step(cur reach, toks []Tok, s []Ru) reach {
	for _, t := range toks {
		var next reach
		switch t.K {
		case '*':
			acc := false
			k := 0
			for i := 0; i <= len(s); i++ {
				if k < len(cur.at) && cur.at[k] == i {
					acc = sym.Or(acc, cur.c[k])
					k++
				}
				next.add(i, acc)
			}
		case '{':
			for _, alt := range t.Alts {
				next = next.or(step(cur, alt, s))
			}
		default:
			if t.K == '[' && len(t.Set) == 0 {
				next = cur
				break
			}
			for k, i := range cur.at {
				if i >= len(s) {
					continue
				}
				c := cur.c[k]
				switch t.K {
				case '?':
				case 'l':
					c = sym.And(c, ruEq(t.R, s[i]))
				case '[':
					c = sym.And(c, inSet(t.Set, s[i]))
				default:
					c = false
				}
				next.add(i+1, c)
			}
		}
		cur = next
	}
	return cur
}

// refMatch is the meaning of a glob.
func refMatch(toks []Tok, s []Ru) bool {
	r := step(reach{at: []int{0}, c: []bool{true}}, toks, s)
	if n := len(r.at); n > 0 && r.at[n-1] == len(s) {
		return r.c[n-1]
	}
	return false
}

func (p *pat) str() string { return string(p.text) }

// sub is another glob over the same named letters.
func (p *pat) sub(t string) *pat {
	q := &pat{dom: p.dom, vars: p.vars}
	if q.vars == nil {
		q.vars = map[byte]Ru{}
		p.vars = q.vars
	}
	q.add(t)
	return q
}

// pick builds a glob from 1..n templates of the set.
func pick(set []string, n, dom int) *pat {
	k := 1
	if n > 1 {
		k = 1 + sym.Choice("pieces", n)
	}
	p := &pat{dom: dom}
	for i := 0; i < k; i++ {
		p.add(set[sym.Choice("piece", len(set))])
	}
	return p
}
