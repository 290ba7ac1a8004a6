package main

import (
	"fmt"
	"go/types"
)

type Value interface{}

type unsupErr struct{ msg string }

func unsup(f string, a ...interface{}) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }

// Str is an immutable string of byte terms with a concrete length.
type Str struct {
	b    []*Term
	conc string
	isC  bool
}

// Obj is a heap object: a flat list of slots.
type Obj struct {
	s   []Value
	seq int64
}

type SymIdx struct {
	idx    *Term
	n      int
	stride int
}

type Ptr struct {
	o   *Obj
	off int
	sym *SymIdx
}

type Slice struct {
	o             *Obj
	off, len, cap int
	esz           int
}

type mapEntry struct{ k, v Value }

type MapObj struct {
	e    []mapEntry          // insertion order; deleted entries have k == nil
	idx  map[interface{}]int // entries with concrete scalar keys
	nsym int                 // entries with other keys
	seq  int64
}

type Iface struct {
	t *TI
	v Value
}

type Closure struct {
	fn   *Fn
	bind []Value
}

type Agg []Value   // flattened struct/array value
type Tuple []Value // multi-value results

type Float float64

type Opaque struct{ name string }

type mapIter struct {
	m *MapObj
	e []mapEntry
	p int
}
type strIter struct {
	s *Str
	p int
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KIface
	KFunc
	KStruct
	KArray
	KTuple
	KChan
	KOther
)

type TI struct {
	t      types.Type
	u      types.Type
	kind   Kind
	w      uint8
	signed bool
	size   int
	fields []fieldInfo
	elem   *TI
	key    *TI
	n      int
	id     int
	impl   map[*TI]bool
	meth   map[string]*Fn
}

type fieldInfo struct {
	off int
	ti  *TI
}

func (ti *TI) agg() bool { return ti.kind == KStruct || ti.kind == KArray }

func (m *Machine) typ(t types.Type) *TI {
	if ti, ok := m.tiFast[t]; ok {
		return ti
	}
	if x := m.tis.At(t); x != nil {
		ti := x.(*TI)
		m.tiFast[t] = ti
		return ti
	}
	ti := &TI{t: t, u: t.Underlying(), size: 1, id: m.tis.Len()}
	m.tis.Set(t, ti)
	m.tiFast[t] = ti
	switch u := ti.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32, types.Float64, types.UntypedFloat:
			ti.kind = KFloat
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = m.typ(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = m.typ(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.key = m.typ(u.Key())
		ti.elem = m.typ(u.Elem())
	case *types.Interface:
		ti.kind = KIface
	case *types.Signature:
		ti.kind = KFunc
	case *types.Struct:
		ti.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := m.typ(u.Field(i).Type())
			ti.fields = append(ti.fields, fieldInfo{off, f})
			off += f.size
		}
		ti.size = off
	case *types.Array:
		ti.kind = KArray
		ti.elem = m.typ(u.Elem())
		ti.n = int(u.Len())
		ti.size = ti.n * ti.elem.size
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, fieldInfo{i, m.typ(u.At(i).Type())})
		}
	case *types.Chan:
		ti.kind = KChan
	default:
		ti.kind = KOther
	}
	return ti
}

func (m *Machine) zeroInto(ti *TI, out []Value) []Value {
	switch ti.kind {
	case KStruct:
		for _, f := range ti.fields {
			out = m.zeroInto(f.ti, out)
		}
		return out
	case KArray:
		if ti.n == 0 {
			return out
		}
		one := m.zeroInto(ti.elem, nil)
		for i := 0; i < ti.n; i++ {
			out = append(out, one...)
		}
		return out
	}
	return append(out, m.zero(ti))
}

func (m *Machine) zero(ti *TI) Value {
	switch ti.kind {
	case KBool:
		return m.c.F
	case KInt:
		return m.c.Const(0, ti.w)
	case KFloat:
		return Float(0)
	case KString:
		return emptyStr
	case KPtr, KUnsafe:
		return nilPtr
	case KSlice:
		return &Slice{esz: ti.elem.size}
	case KMap:
		return (*MapObj)(nil)
	case KIface:
		return nilIface
	case KFunc:
		return (*Closure)(nil)
	case KStruct, KArray:
		return Agg(m.zeroInto(ti, make([]Value, 0, ti.size)))
	case KTuple:
		r := make(Tuple, len(ti.fields))
		for i, f := range ti.fields {
			r[i] = m.zero(f.ti)
		}
		return r
	case KChan:
		return Opaque{"nilchan"}
	}
	return Opaque{"zero " + ti.t.String()}
}

var emptyStr = &Str{isC: true}
var nilPtr = &Ptr{}
var nilIface = &Iface{}

func (m *Machine) str(s string) *Str {
	if s == "" {
		return emptyStr
	}
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = m.c.bytes[s[i]]
	}
	return &Str{b: b, conc: s, isC: true}
}

func (m *Machine) mkStr(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if t.op != OConst {
			return &Str{b: b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.k)
	}
	return &Str{b: b, conc: string(x), isC: true}
}

func (s *Str) sub(lo, hi int) *Str {
	if lo == hi {
		return emptyStr
	}
	if lo == 0 && hi == len(s.b) {
		return s
	}
	if s.isC {
		return &Str{b: s.b[lo:hi:hi], conc: s.conc[lo:hi], isC: true}
	}
	return &Str{b: s.b[lo:hi:hi]}
}

func (m *Machine) concat(a, b *Str) *Str {
	if len(a.b) == 0 {
		return b
	}
	if len(b.b) == 0 {
		return a
	}
	x := make([]*Term, 0, len(a.b)+len(b.b))
	x = append(append(x, a.b...), b.b...)
	if a.isC && b.isC {
		return &Str{b: x, conc: a.conc + b.conc, isC: true}
	}
	return m.mkStr(x)
}

func (m *Machine) strEq(a, b *Str) *Term {
	if len(a.b) != len(b.b) {
		return m.c.F
	}
	if a.isC && b.isC {
		return m.c.Bool(a.conc == b.conc)
	}
	r := m.c.T
	for i := range a.b {
		r = m.c.And(r, m.c.Eq(a.b[i], b.b[i]))
		if r == m.c.F {
			return r
		}
	}
	return r
}

func (m *Machine) strLess(a, b *Str, orEq bool) *Term {
	if a.isC && b.isC {
		if orEq {
			return m.c.Bool(a.conc <= b.conc)
		}
		return m.c.Bool(a.conc < b.conc)
	}
	n := len(a.b)
	if len(b.b) < n {
		n = len(b.b)
	}
	var r *Term
	if len(a.b) == len(b.b) {
		r = m.c.Bool(orEq)
	} else {
		r = m.c.Bool(len(a.b) < len(b.b))
	}
	for i := n - 1; i >= 0; i-- {
		r = m.c.Or(m.c.Bin(OUlt, a.b[i], b.b[i]), m.c.And(m.c.Eq(a.b[i], b.b[i]), r))
	}
	return r
}

// eq compares two values of the same static type; returns a bool term.
func (m *Machine) eq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return m.c.Eq(x, b.(*Term))
	case *Str:
		return m.strEq(x, b.(*Str))
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			return m.c.F
		}
		if x.sym != nil || y.sym != nil {
			panic(unsup("comparison of symbolic pointers"))
		}
		return m.c.Bool(x.o == y.o && x.off == y.off)
	case *Iface:
		y := b.(*Iface)
		if x.t != y.t {
			return m.c.F
		}
		if x.t == nil {
			return m.c.T
		}
		switch x.t.kind {
		case KSlice, KMap, KFunc:
			panic(m.goPanic("runtime error: comparing uncomparable type " + x.t.t.String()))
		}
		return m.eq(x.v, y.v)
	case Agg:
		y := b.(Agg)
		r := m.c.T
		for i := range x {
			r = m.c.And(r, m.eq(x[i], y[i]))
		}
		return r
	case *Slice:
		y := b.(*Slice)
		return m.c.Bool(x.o == nil && y.o == nil)
	case *MapObj:
		return m.c.Bool(x == b.(*MapObj))
	case *Closure:
		return m.c.Bool(x == b.(*Closure))
	case Float:
		return m.c.Bool(x == b.(Float))
	case Opaque:
		return m.c.Bool(x == b)
	}
	panic(unsup("eq on %T", a))
}

// iteVal merges two values under guard g, or reports failure.
func (m *Machine) iteVal(g *Term, a, b Value) (Value, bool) {
	if g == m.c.T {
		return a, true
	}
	if g == m.c.F {
		return b, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return m.c.Ite(g, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok || len(x.b) != len(y.b) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := make([]*Term, len(x.b))
		for i := range r {
			r[i] = m.c.Ite(g, x.b[i], y.b[i])
		}
		return m.mkStr(r), true
	case *Ptr:
		y, ok := b.(*Ptr)
		if ok && x.o == y.o && x.off == y.off && x.sym == y.sym {
			return x, true
		}
	case *Slice:
		y, ok := b.(*Slice)
		if ok && *x == *y {
			return x, true
		}
	case *Iface:
		y, ok := b.(*Iface)
		if ok && x.t == y.t {
			if x.t == nil {
				return x, true
			}
			v, ok := m.iteVal(g, x.v, y.v)
			if ok {
				return &Iface{x.t, v}, true
			}
		}
	case *MapObj:
		if y, ok := b.(*MapObj); ok && x == y {
			return x, true
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return x, true
		}
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			v, ok := m.iteVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := m.iteVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case nil:
		if b == nil {
			return nil, true
		}
	}
	return nil, false
}
