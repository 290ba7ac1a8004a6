package main

import (
	"fmt"
	"go/types"
	"strings"
)

// concVal is a concrete value as Go knows it, if it is of a simple type.
func concVal(v Value) (interface{}, bool) {
	x, ok := v.(*Iface)
	if !ok || x.t == nil {
		return nil, false
	}
	b, ok := x.t.u.(*types.Basic)
	if !ok || x.t.t != b && types.NewMethodSet(x.t.t).Len() > 0 {
		return nil, false
	}
	switch y := x.v.(type) {
	case *Str:
		if y.isC || len(y.b) == 0 {
			return y.conc, true
		}
	case *Term:
		if y.op != OConst {
			return nil, false
		}
		k := y.k
		switch b.Kind() {
		case types.Bool:
			return k != 0, true
		case types.Int:
			return int(k), true
		case types.Int8:
			return int8(k), true
		case types.Int16:
			return int16(k), true
		case types.Int32:
			return int32(k), true
		case types.Int64:
			return int64(k), true
		case types.Uint:
			return uint(k), true
		case types.Uint8:
			return uint8(k), true
		case types.Uint16:
			return uint16(k), true
		case types.Uint32:
			return uint32(k), true
		case types.Uint64:
			return k, true
		}
	}
	return nil, false
}

// sprintf formats what is concrete, and symbolic strings as they are.
func sprintf(m *Machine, a []Value) Value {
	f, ok := a[0].(*Str)
	if !ok || !f.isC && len(f.b) > 0 {
		return m.str("<fmt>")
	}
	var args []Value
	if s, ok := a[1].(*Slice); ok && s != nil {
		for i := 0; i < s.len; i++ {
			args = append(args, s.o.s[s.off+i*s.esz])
		}
	}
	r := emptyStr
	t := f.conc
	for t != "" {
		i := strings.IndexByte(t, '%')
		if i < 0 {
			return m.concat(r, m.str(t))
		}
		r = m.concat(r, m.str(t[:i]))
		t = t[i:]
		j := 1
		for j < len(t) && strings.IndexByte("+-# 0123456789.", t[j]) >= 0 {
			j++
		}
		if j == len(t) {
			return m.str("<fmt>")
		}
		verb := t[:j+1]
		t = t[j+1:]
		if verb == "%%" {
			r = m.concat(r, m.str("%"))
			continue
		}
		if len(args) == 0 {
			return m.str("<fmt>")
		}
		v := args[0]
		args = args[1:]
		if x, ok := concVal(v); ok {
			r = m.concat(r, m.str(fmt.Sprintf(verb, x)))
			continue
		}
		if x, ok := v.(*Iface); ok && x.t != nil && (verb == "%s" || verb == "%v") {
			if s, ok := x.v.(*Str); ok && types.NewMethodSet(x.t.t).Len() == 0 {
				r = m.concat(r, s)
				continue
			}
		}
		return m.str("<fmt>")
	}
	if len(args) > 0 {
		return m.str("<fmt>")
	}
	return r
}

func sprint(m *Machine, a []Value) Value {
	s, ok := a[0].(*Slice)
	if !ok || s == nil || s.len != 1 {
		return m.str("<fmt>")
	}
	return sprintf(m, []Value{m.str("%v"), a[0]})
}

// errorf makes an error with the formatted text, %w is what it wraps.
func errorf(m *Machine, a []Value) Value {
	var inner Value
	f, ok := a[0].(*Str)
	if s, ok2 := a[1].(*Slice); ok && ok2 && s != nil && strings.Contains(f.conc, "%w") {
		for i := 0; i < s.len; i++ {
			if x, ok := s.o.s[s.off+i*s.esz].(*Iface); ok && x.t != nil && types.NewMethodSet(x.t.t).Lookup(nil, "Error") != nil {
				inner = x
			}
		}
	}
	text, ok := sprintf(m, a).(*Str)
	if !ok || inner != nil {
		text = m.str("<fmt>")
	}
	if m.errStrTI == nil {
		return &Iface{m.strTI, text}
	}
	o := m.objOf([]Value{text})
	if inner != nil {
		if m.wraps == nil {
			m.wraps = map[*Obj]Value{}
		}
		m.wraps[o] = inner
	}
	return &Iface{m.errStrTI, &Ptr{o: o}}
}

func errorsIs(m *Machine, a []Value) Value {
	err, target := a[0], a[1]
	for n := 0; n < 20; n++ {
		if m.decide(m.eq(err, target)) {
			return m.c.Bool(true)
		}
		x, ok := err.(*Iface)
		if !ok || x.t == nil {
			break
		}
		p, ok := x.v.(*Ptr)
		if !ok || p == nil || m.wraps[p.o] == nil {
			break
		}
		err = m.wraps[p.o]
	}
	return m.c.Bool(false)
}
