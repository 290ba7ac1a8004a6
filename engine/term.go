package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Term is a hash-consed SMT term: bool (w==0) or bit-vector (w in 1..64).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OZExt
	OSExt
	OTrunc
)

var opName = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "zext", "sext", "trunc"}

const maxVars = 192

type VarSet [3]uint64

func (v VarSet) or(o VarSet) VarSet { return VarSet{v[0] | o[0], v[1] | o[1], v[2] | o[2]} }
func (v VarSet) meets(o VarSet) bool {
	return v[0]&o[0] != 0 || v[1]&o[1] != 0 || v[2]&o[2] != 0
}
func (v VarSet) empty() bool { return v[0]|v[1]|v[2] == 0 }
func (v VarSet) has(i int) bool {
	return v[i>>6]&(1<<(uint(i)&63)) != 0
}
func (v *VarSet) set(i int) { v[i>>6] |= 1 << (uint(i) & 63) }
func (v VarSet) count() int {
	return bits.OnesCount64(v[0]) + bits.OnesCount64(v[1]) + bits.OnesCount64(v[2])
}
func (v VarSet) each(f func(int)) {
	for k := 0; k < len(v); k++ {
		for x := v[k]; x != 0; x &= x - 1 {
			f(k*64 + bits.TrailingZeros64(x))
		}
	}
}

type Dom [4]uint64

func (d Dom) and(o Dom) Dom {
	return Dom{d[0] & o[0], d[1] & o[1], d[2] & o[2], d[3] & o[3]}
}
func (d Dom) not(o Dom) Dom {
	return Dom{d[0] &^ o[0], d[1] &^ o[1], d[2] &^ o[2], d[3] &^ o[3]}
}
func (d Dom) empty() bool       { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d Dom) has(v uint64) bool { return d[v>>6]&(1<<(v&63)) != 0 }
func (d Dom) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d Dom) first() uint64 {
	for k := 0; k < 4; k++ {
		if d[k] != 0 {
			return uint64(k*64 + bits.TrailingZeros64(d[k]))
		}
	}
	return 0
}

func fullDom(w uint8) Dom {
	if w == 0 {
		return Dom{3}
	}
	if w == 8 {
		return Dom{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	}
	n := uint64(1) << w
	return Dom{1<<n - 1}
}

type Term struct {
	id      int32
	op      Op
	w       uint8
	sized   bool // dom computed
	isIteC  bool // ite tree with constant leaves
	k       uint64
	a, b, c *Term
	vars    VarSet
	unary   int16 // index of only var if exactly one var with width<=8, else -1
	nleaf   int16
	dom     *Dom
	egen    uint32
	ev      uint64
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type VarInfo struct {
	name string
	w    uint8
}

type Ctx struct {
	tab    map[tkey]*Term
	ctab   map[tkey]*Term
	nextID int32
	vars   []*Term
	vinfo  []VarInfo
	T, F   *Term
	gen    uint32
	bytes  [256]*Term
	model  []uint64 // scratch for dom eval
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, ctab: map[tkey]*Term{}}
	c.F = c.Const(0, 0)
	c.T = c.Const(1, 0)
	for i := range c.bytes {
		c.bytes[i] = c.Const(uint64(i), 8)
	}
	return c
}

func maskw(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *Ctx) Const(k uint64, w uint8) *Term {
	k &= maskw(w)
	key := tkey{op: OConst, w: w, k: k}
	if t, ok := c.ctab[key]; ok {
		return t
	}
	c.nextID++
	t := &Term{id: c.nextID, op: OConst, w: w, k: k, unary: -1, nleaf: 1}
	c.ctab[key] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// Var returns variable number i (created in order).
func (c *Ctx) Var(i int, name string, w uint8) *Term {
	if i >= maxVars {
		panic(unsup("too many symbolic variables"))
	}
	for len(c.vars) <= i {
		c.vars = append(c.vars, nil)
		c.vinfo = append(c.vinfo, VarInfo{})
	}
	if t := c.vars[i]; t != nil && t.w == w {
		c.vinfo[i].name = name
		return t
	}
	key := tkey{op: OVar, w: w, k: uint64(i)}
	t, ok := c.ctab[key]
	if !ok {
		c.nextID++
		t = &Term{id: c.nextID, op: OVar, w: w, k: uint64(i), unary: -1}
		t.vars.set(i)
		if w <= 8 {
			t.unary = int16(i)
		}
		c.ctab[key] = t
	}
	c.vars[i] = t
	c.vinfo[i] = VarInfo{name, w}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func foldOp(op Op, w uint8, aw uint8, a, b uint64) (uint64, bool) {
	m := maskw(w)
	bb := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case ONot:
		return a ^ 1, true
	case OAnd:
		return a & b, true
	case OOr:
		return a | b, true
	case OEq:
		return bb(a == b), true
	case OUlt:
		return bb(a < b), true
	case OUle:
		return bb(a <= b), true
	case OSlt:
		return bb(sx(a, aw) < sx(b, aw)), true
	case OSle:
		return bb(sx(a, aw) <= sx(b, aw)), true
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OBNot:
		return ^a & m, true
	case ONeg:
		return -a & m, true
	case OZExt:
		return a, true
	case OSExt:
		return uint64(sx(a, aw)) & m, true
	case OTrunc:
		return a & m, true
	}
	return 0, false
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Term) *Term {
	key := tkey{op: op, w: w, a: a.id}
	if b != nil {
		key.b = b.id
	}
	if d != nil {
		key.c = d.id
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.nextID++
	t := &Term{id: c.nextID, op: op, w: w, a: a, b: b, c: d, unary: -1}
	t.vars = a.vars
	if b != nil {
		t.vars = t.vars.or(b.vars)
	}
	if d != nil {
		t.vars = t.vars.or(d.vars)
	}
	if op == OIte && (b.isConst() || b.isIteC) && (d.isConst() || d.isIteC) && int(b.nleaf)+int(d.nleaf) <= 24 {
		t.isIteC = true
		t.nleaf = b.nleaf + d.nleaf
	}
	if t.vars.count() == 1 {
		t.vars.each(func(i int) {
			if c.vinfo[i].w <= 8 {
				t.unary = int16(i)
			}
		})
	}
	// a unary boolean with full/empty domain is a constant
	if w == 0 && t.unary >= 0 {
		dm := c.domOf(t)
		if dm.empty() {
			c.tab[key] = c.F
			return c.F
		}
		if *dm == fullDom(c.vinfo[t.unary].w) {
			c.tab[key] = c.T
			return c.T
		}
	}
	c.tab[key] = t
	return t
}

// domOf returns the set of values of the only variable for which the boolean term holds.
func (c *Ctx) domOf(t *Term) *Dom {
	if t.dom != nil {
		return t.dom
	}
	v := int(t.unary)
	w := c.vinfo[v].w
	n := uint64(256)
	if w < 8 {
		n = 1 << w
	}
	if w == 0 {
		n = 2
	}
	d := &Dom{}
	// structural shortcuts
	switch t.op {
	case ONot:
		if t.a.unary >= 0 {
			*d = fullDom(w).not(*c.domOf(t.a))
			t.dom = d
			return d
		}
	case OAnd:
		if t.a.unary >= 0 && t.b.unary >= 0 {
			*d = c.domOf(t.a).and(*c.domOf(t.b))
			t.dom = d
			return d
		}
	case OOr:
		if t.a.unary >= 0 && t.b.unary >= 0 {
			x, y := c.domOf(t.a), c.domOf(t.b)
			*d = Dom{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
			t.dom = d
			return d
		}
	}
	if len(c.model) < maxVars {
		c.model = make([]uint64, maxVars)
	}
	save := c.model[v]
	for x := uint64(0); x < n; x++ {
		c.model[v] = x
		if c.Eval(t, c.model) != 0 {
			d[x>>6] |= 1 << (x & 63)
		}
	}
	c.model[v] = save
	t.dom = d
	return d
}

func (c *Ctx) Eval(t *Term, model []uint64) uint64 {
	c.gen++
	if c.gen == 0 {
		c.gen = 1
	}
	return c.eval(t, model)
}

func (c *Ctx) eval(t *Term, model []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if int(t.k) < len(model) {
			return model[t.k] & maskw(t.w)
		}
		return 0
	}
	if t.egen == c.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OIte:
		if c.eval(t.a, model) != 0 {
			r = c.eval(t.b, model)
		} else {
			r = c.eval(t.c, model)
		}
	case OAnd:
		r = c.eval(t.a, model)
		if r != 0 {
			r = c.eval(t.b, model)
		}
	case OOr:
		r = c.eval(t.a, model)
		if r == 0 {
			r = c.eval(t.b, model)
		}
	default:
		a := c.eval(t.a, model)
		var b uint64
		if t.b != nil {
			b = c.eval(t.b, model)
		}
		r, _ = foldOp(t.op, t.w, t.a.w, a, b)
	}
	t.egen = c.gen
	t.ev = r
	return r
}

// ---- constructors with simplification

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.T {
		return a
	}
	if g == c.F {
		return b
	}
	if a == b {
		return a
	}
	if g.op == ONot {
		return c.Ite(g.a, b, a)
	}
	if a.w == 0 {
		if a == c.T {
			return c.Or(g, b)
		}
		if a == c.F {
			return c.And(c.Not(g), b)
		}
		if b == c.T {
			return c.Or(c.Not(g), a)
		}
		if b == c.F {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.a == g {
		a = a.b
	}
	if b.op == OIte && b.a == g {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, g, a, b)
}

// mapIte pushes f into an ite tree with constant leaves.
func (c *Ctx) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte && t.isIteC {
		return c.Ite(t.a, c.mapIte(t.b, f), c.mapIte(t.c, f))
	}
	return f(t)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == c.T {
			return a
		}
		if b == c.F {
			return c.Not(a)
		}
	}
	return c.Bin(OEq, a, b)
}

// Bin builds a binary operation; comparison results are bool.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle:
		w = 0
	}
	if a.isConst() && b.isConst() {
		r, _ := foldOp(op, w, a.w, a.k, b.k)
		return c.Const(r, w)
	}
	if a.isIteC && b.isConst() {
		return c.mapIte(a, func(x *Term) *Term { return c.Bin(op, x, b) })
	}
	if b.isIteC && a.isConst() {
		return c.mapIte(b, func(x *Term) *Term { return c.Bin(op, a, x) })
	}
	switch op {
	case OEq:
		if a == b {
			return c.T
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 && a.op == OBAnd {
				if r := c.bitTest(a.a, a.b); r != nil {
					return r
				}
				if r := c.bitTest(a.b, a.a); r != nil {
					return r
				}
			}
			switch a.op {
			case OZExt:
				if b.k > maskw(a.a.w) {
					return c.F
				}
				return c.Bin(OEq, a.a, c.Const(b.k, a.a.w))
			}
		} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Bin(OEq, a.a, b.a)
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OUlt, OSlt:
		if a == b {
			return c.F
		}
	case OUle, OSle:
		if a == b {
			return c.T
		}
	case OAdd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if op == OAdd && b.isConst() && a.op == OAdd && a.b.isConst() {
			return c.Bin(OAdd, a.a, c.Const(a.b.k+b.k, w))
		}
	case OSub:
		if a == b {
			return c.Const(0, w)
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			return c.Bin(OAdd, a, c.Const(-b.k, w))
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == maskw(w) {
				return a
			}
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OURem:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Bin(OBAnd, a, c.Const(b.k-1, w))
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.k == 0 {
			return a
		}
	}
	// comparisons of zero-extended narrow values with constants
	if (op == OUlt || op == OUle || op == OSlt || op == OSle) && a.w > 8 {
		if r := c.narrowCmp(op, a, b); r != nil {
			return r
		}
	}
	return c.mk(op, w, a, b, nil)
}

// oneBit reports the bit number of 1<<n with n known to be less than the width.
func (c *Ctx) oneBit(t *Term) *Term {
	if t.op != OShl || !t.a.isConst() || t.a.k != 1 || t.b.isConst() {
		return nil
	}
	n := t.b
	for n.op == OZExt {
		n = n.a
	}
	if n.op == OBAnd && n.b.isConst() && n.b.k < uint64(t.w) {
		return n
	}
	return nil
}

// bitTest simplifies (x & bit) == 0.
func (c *Ctx) bitTest(x, bit *Term) *Term {
	if x.op != OBOr && x.op != OIte && x.op != OShl && x.op != OConst {
		return nil
	}
	b := bitTester{c: c, left: 400}
	if bit.isConst() {
		if bit.k == 0 || bit.k&(bit.k-1) != 0 || x.op == OConst {
			return nil
		}
		b.konst = true
		b.k = uint64(bits.TrailingZeros64(bit.k))
	} else if b.n = c.oneBit(bit); b.n == nil {
		return nil
	}
	return b.test(x)
}

type bitTester struct {
	c     *Ctx
	n     *Term // number of the bit
	konst bool
	k     uint64 // or the number
	memo  map[*Term]*Term
	left  int
}

func (b *bitTester) test(x *Term) *Term {
	c := b.c
	switch x.op {
	case OBOr, OIte:
		if r, ok := b.memo[x]; ok {
			return r
		}
		if b.left--; b.left < 0 {
			return nil
		}
		var r *Term
		if x.op == OBOr {
			if p := b.test(x.a); p != nil {
				if q := b.test(x.b); q != nil {
					r = c.And(p, q)
				}
			}
		} else if p := b.test(x.b); p != nil {
			if q := b.test(x.c); q != nil {
				r = c.Ite(x.a, p, q)
			}
		}
		if b.memo == nil {
			b.memo = map[*Term]*Term{}
		}
		b.memo[x] = r
		return r
	case OShl:
		k := c.oneBit(x)
		if k == nil {
			return nil
		}
		if b.konst {
			if b.k > maskw(k.w) {
				return c.T
			}
			return c.Not(c.Eq(k, c.Const(b.k, k.w)))
		}
		if k.w == b.n.w {
			return c.Not(c.Eq(k, b.n))
		}
	case OConst:
		if b.konst {
			return c.Bool(x.k&(1<<b.k) == 0)
		}
		r := c.T
		for i := uint64(0); i < uint64(x.w); i++ {
			if x.k&(1<<i) != 0 {
				r = c.And(r, c.Not(c.Bin(OEq, b.n, c.Const(i, b.n.w))))
			}
		}
		return r
	}
	return nil
}

func (c *Ctx) narrowCmp(op Op, a, b *Term) *Term {
	signed := op == OSlt || op == OSle
	uop := op
	if op == OSlt {
		uop = OUlt
	} else if op == OSle {
		uop = OUle
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Bin(uop, a.a, b.a)
	}
	if a.op == OZExt && b.isConst() {
		n := a.a.w
		if signed && sx(b.k, b.w) < 0 {
			return c.F // a >= 0 > b
		}
		if b.k > maskw(n) {
			return c.T
		}
		return c.Bin(uop, a.a, c.Const(b.k, n))
	}
	if b.op == OZExt && a.isConst() {
		n := b.a.w
		if signed && sx(a.k, a.w) < 0 {
			return c.T
		}
		if a.k > maskw(n) {
			return c.F
		}
		return c.Bin(uop, c.Const(a.k, n), b.a)
	}
	return nil
}

func (c *Ctx) Un(op Op, a *Term) *Term {
	if a.isConst() {
		r, _ := foldOp(op, a.w, a.w, a.k, 0)
		return c.Const(r, a.w)
	}
	if a.isIteC {
		return c.mapIte(a, func(x *Term) *Term { return c.Un(op, x) })
	}
	return c.mk(op, a.w, a, nil, nil)
}

func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return c.Const(uint64(sx(a.k, a.w)), w)
		}
		return c.Const(a.k, w)
	}
	if a.isIteC {
		return c.mapIte(a, func(x *Term) *Term { return c.Resize(x, w, signed) })
	}
	if w < a.w {
		if a.op == OZExt {
			return c.Resize(a.a, w, false)
		}
		return c.mk(OTrunc, w, a, nil, nil)
	}
	if a.op == OZExt {
		return c.Resize(a.a, w, false)
	}
	if signed {
		return c.mk(OSExt, w, a, nil, nil)
	}
	return c.mk(OZExt, w, a, nil, nil)
}

// ---- printing

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, depth int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.k != 0)
		} else {
			fmt.Fprintf(sb, "%d", sx(t.k, t.w))
		}
		return
	case OVar:
		fmt.Fprintf(sb, "v%d", t.k)
		return
	}
	if depth > 6 {
		sb.WriteString("..")
		return
	}
	sb.WriteString("(" + opName[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, depth+1)
		}
	}
	sb.WriteString(")")
}

func bvlit(k uint64, w uint8) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), k)
	}
	return fmt.Sprintf("#b%0*b", int(w), k)
}

// smtPrinter prints a DAG with let-bindings through per-query definitions.
type smtPrinter struct {
	sb    *strings.Builder
	seen  map[*Term]string
	count map[*Term]int
	n     int
	lets  int
}

func (p *smtPrinter) refs(t *Term) {
	if t.op == OConst || t.op == OVar {
		return
	}
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	p.refs(t.a)
	if t.b != nil {
		p.refs(t.b)
	}
	if t.c != nil {
		p.refs(t.c)
	}
}

// expr returns an s-expression for t, emitting let bindings for shared nodes.
func (p *smtPrinter) expr(t *Term) string {
	switch t.op {
	case OConst:
		return bvlit(t.k, t.w)
	case OVar:
		return fmt.Sprintf("v%d_%d", t.k, t.w)
	}
	if s, ok := p.seen[t]; ok {
		return s
	}
	a := p.expr(t.a)
	var b, d string
	if t.b != nil {
		b = p.expr(t.b)
	}
	if t.c != nil {
		d = p.expr(t.c)
	}
	var s string
	switch t.op {
	case OZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OTrunc:
		s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a)
	default:
		s = "(" + opName[t.op] + " " + a
		if b != "" {
			s += " " + b
		}
		if d != "" {
			s += " " + d
		}
		s += ")"
	}
	if p.count[t] > 1 {
		p.n++
		name := fmt.Sprintf("t%d", p.n)
		fmt.Fprintf(p.sb, "(let ((%s %s)) ", name, s)
		p.lets++
		p.seen[t] = name
		return name
	}
	p.seen[t] = s
	return s
}

func smtAssert(t *Term) string {
	var sb strings.Builder
	sb.WriteString("(assert ")
	p := &smtPrinter{sb: &sb, seen: map[*Term]string{}, count: map[*Term]int{}}
	p.refs(t)
	e := p.expr(t)
	sb.WriteString(e)
	for i := 0; i < p.lets; i++ {
		sb.WriteByte(')')
	}
	sb.WriteString(")")
	return sb.String()
}
