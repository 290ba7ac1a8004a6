package main

import (
	"math/bits"
	"strings"
)

// eqSolver is a small decision procedure for boolean combinations of
// equalities between byte variables and of one-variable constraints (domains).
// It gives up (Unknown) on anything else that matters; every SAT answer is a
// checked model, and every UNSAT answer on an assertion is confirmed by z3.
type eqSolver struct {
	m     *Machine
	nodes int
	all   []*Term // everything a model has to satisfy
	vs    VarSet
	mod   []uint64
	vars  []int
}

type eqState struct {
	par  [maxVars]int16
	dom  map[int16]Dom
	ne   [][2]int16
	ors  []orTerm
	hard bool // has atoms that are not understood
}

type orTerm struct {
	t   *Term
	neg bool
}

func (s *eqState) find(x int16) int16 {
	for s.par[x] != x {
		x = s.par[x]
	}
	return x
}

func (s *eqState) clone() *eqState {
	n := &eqState{par: s.par, dom: make(map[int16]Dom, len(s.dom)), hard: s.hard}
	for k, v := range s.dom {
		n.dom[k] = v
	}
	n.ne = append([][2]int16(nil), s.ne...)
	n.ors = append([]orTerm(nil), s.ors...)
	return n
}

func byteVar(t *Term) bool { return t.op == OVar && t.w > 0 && t.w <= 8 }

// add asserts t (or its negation); false if contradictory.
func (e *eqSolver) add(s *eqState, t *Term, neg bool) bool {
	switch t.op {
	case OConst:
		return (t.k != 0) != neg
	case ONot:
		return e.add(s, t.a, !neg)
	}
	if t.w == 0 && t.unary >= 0 {
		d := *e.m.c.domOf(t)
		v := int16(t.unary)
		r := s.find(v)
		cur := s.dom[r]
		if neg {
			cur = cur.not(d)
		} else {
			cur = cur.and(d)
		}
		if cur.empty() {
			return false
		}
		s.dom[r] = cur
		return true
	}
	switch t.op {
	case OAnd:
		if !neg {
			return e.add(s, t.a, false) && e.add(s, t.b, false)
		}
		s.ors = append(s.ors, orTerm{t, true})
		return true
	case OOr:
		if neg {
			return e.add(s, t.a, true) && e.add(s, t.b, true)
		}
		s.ors = append(s.ors, orTerm{t, false})
		return true
	case OEq:
		if byteVar(t.a) && byteVar(t.b) && t.a.w == t.b.w {
			x, y := s.find(int16(t.a.k)), s.find(int16(t.b.k))
			if neg {
				if x == y {
					return false
				}
				s.ne = append(s.ne, [2]int16{x, y})
				return true
			}
			if x != y {
				d := s.dom[x].and(s.dom[y])
				if d.empty() {
					return false
				}
				s.par[y] = x
				s.dom[x] = d
			}
			return true
		}
		if t.a.w == 0 {
			s.ors = append(s.ors, orTerm{t, neg})
			return true
		}
	case OIte:
		s.ors = append(s.ors, orTerm{t, neg})
		return true
	}
	s.hard = true
	return true
}

func (e *eqSolver) check(s *eqState) bool {
	for _, p := range s.ne {
		x, y := s.find(p[0]), s.find(p[1])
		if x == y {
			return false
		}
		dx, dy := s.dom[x], s.dom[y]
		if dx.count() == 1 && dx == dy {
			return false
		}
	}
	return true
}

// val evaluates t under what is known: 1 true, 0 false, -1 unknown.
func (e *eqSolver) val(s *eqState, t *Term) int {
	switch t.op {
	case OConst:
		return int(t.k)
	case ONot:
		if v := e.val(s, t.a); v >= 0 {
			return 1 - v
		}
		return -1
	}
	if t.w == 0 && t.unary >= 0 {
		cur := s.dom[s.find(int16(t.unary))]
		x := cur.and(*e.m.c.domOf(t))
		if x == cur {
			return 1
		}
		if x.empty() {
			return 0
		}
		return -1
	}
	switch t.op {
	case OAnd:
		a := e.val(s, t.a)
		if a == 0 {
			return 0
		}
		b := e.val(s, t.b)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OOr:
		a := e.val(s, t.a)
		if a == 1 {
			return 1
		}
		b := e.val(s, t.b)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	case OEq:
		if byteVar(t.a) && byteVar(t.b) {
			x, y := s.find(int16(t.a.k)), s.find(int16(t.b.k))
			if x == y {
				return 1
			}
			if s.dom[x].and(s.dom[y]).empty() {
				return 0
			}
			for _, p := range s.ne {
				a, b := s.find(p[0]), s.find(p[1])
				if a == x && b == y || a == y && b == x {
					return 0
				}
			}
		}
	}
	return -1
}

// solve: SatYes with a model in e.mod, Unsat, or Unknown.
func (e *eqSolver) solve(s *eqState) Sat {
	e.nodes++
	if e.nodes > 300 {
		return Unknown
	}
	for {
		if !e.check(s) {
			return Unsat
		}
		// simplify pending disjunctions
		changed := false
		ors := s.ors
		s.ors = nil
		for _, o := range ors {
			v := e.val(s, o.t)
			if v >= 0 {
				if (v == 1) == o.neg {
					return Unsat
				}
				continue
			}
			// unit propagation
			if o.t.op == OAnd || o.t.op == OOr {
				a, b := e.val(s, o.t.a), e.val(s, o.t.b)
				skip := 0 // value of an operand that does not decide
				if o.t.op == OAnd {
					skip = 1
				}
				if a == skip {
					changed = true
					if !e.add(s, o.t.b, o.neg) {
						return Unsat
					}
					continue
				}
				if b == skip {
					changed = true
					if !e.add(s, o.t.a, o.neg) {
						return Unsat
					}
					continue
				}
			}
			s.ors = append(s.ors, o)
		}
		if !changed {
			break
		}
	}
	if e.model(s) {
		return SatYes
	}
	if len(s.ors) == 0 {
		return Unknown
	}
	// split
	o := s.ors[0]
	s.ors = s.ors[1:]
	type lit struct {
		t   *Term
		neg bool
	}
	var alts [2][]lit
	switch o.t.op {
	case OAnd, OOr:
		alts[0] = []lit{{o.t.a, o.neg}}
		alts[1] = []lit{{o.t.a, !o.neg}, {o.t.b, o.neg}}
	case OEq:
		alts[0] = []lit{{o.t.a, false}, {o.t.b, o.neg}}
		alts[1] = []lit{{o.t.a, true}, {o.t.b, !o.neg}}
	case OIte:
		alts[0] = []lit{{o.t.a, false}, {o.t.b, o.neg}}
		alts[1] = []lit{{o.t.a, true}, {o.t.c, o.neg}}
	default:
		return Unknown
	}
	res := Unsat
	for k := 0; k < 2; k++ {
		n := s
		if k == 0 {
			n = s.clone()
		}
		ok := true
		for _, l := range alts[k] {
			if !e.add(n, l.t, l.neg) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		switch e.solve(n) {
		case SatYes:
			return SatYes
		case Unknown:
			res = Unknown
			if e.nodes > 300 {
				return Unknown
			}
		}
	}
	return res
}

// model tries to build a model greedily and evaluates everything under it.
func (e *eqSolver) model(s *eqState) bool {
	m := e.m
	var val [maxVars]uint64
	var has [maxVars]bool
	// smallest domains first
	var reps [maxVars]int16
	n := 0
	for _, v := range e.vars {
		if s.find(int16(v)) == int16(v) {
			reps[n] = int16(v)
			n++
		}
	}
	r := reps[:n]
	for i := 1; i < n; i++ {
		for j := i; j > 0 && s.dom[r[j]].count() < s.dom[r[j-1]].count(); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	for _, x := range r {
		d := s.dom[x]
		for _, p := range s.ne {
			a, b := s.find(p[0]), s.find(p[1])
			if a == x && has[b] {
				d[val[b]>>6] &^= 1 << (val[b] & 63)
			} else if b == x && has[a] {
				d[val[a]>>6] &^= 1 << (val[a] & 63)
			}
		}
		if d.empty() {
			return false
		}
		// keep the current value if possible
		if d.has(m.model[x]) {
			val[x] = m.model[x]
		} else {
			val[x] = uint64(0)
			for k := 0; k < 4; k++ {
				if d[k] != 0 {
					val[x] = uint64(k*64 + bits.TrailingZeros64(d[k]))
					break
				}
			}
		}
		has[x] = true
	}
	for _, v := range e.vars {
		e.mod[v] = val[s.find(int16(v))]
	}
	for _, t := range e.all {
		if m.c.Eval(t, e.mod) == 0 {
			return false
		}
	}
	return true
}

// eqSolve decides the conjunction of as over the current domains.
func (m *Machine) eqSolve(as []*Term, vs VarSet, mod []uint64) Sat {
	e := &eqSolver{m: m, all: as, vs: vs, mod: mod}
	s := &eqState{dom: map[int16]Dom{}}
	ok := true
	vs.each(func(i int) {
		if m.c.vinfo[i].w > 8 {
			ok = false
			return
		}
		e.vars = append(e.vars, i)
		s.par[i] = int16(i)
		s.dom[int16(i)] = m.dom[i]
	})
	if !ok {
		return Unknown
	}
	for _, t := range as {
		if !e.add(s, t, false) {
			return Unsat
		}
	}
	return e.solve(s)
}

// ---- confirmation of assertions in batches

type pendingQ struct {
	smt   string
	decls VarSet
}

const batchSize = 48

// defer1 queues an assertion found to hold, for confirmation by the solver.
func (m *Machine) defer1(as []*Term, vs VarSet) {
	var sb strings.Builder
	sb.WriteString("(and true")
	for _, t := range as {
		s := smtAssert(t)
		// (assert X)
		sb.WriteByte(' ')
		sb.WriteString(s[len("(assert ") : len(s)-1])
	}
	for _, x := range m.domAsserts(vs) {
		sb.WriteByte(' ')
		sb.WriteString(x[len("(assert ") : len(x)-1])
	}
	sb.WriteByte(')')
	m.pend = append(m.pend, sb.String())
	m.pendVars = m.pendVars.or(vs)
	vs.each(func(i int) {
		w := m.c.vinfo[i].w
		m.pendW[i] |= 1 << w
	})
	if len(m.pend) >= batchSize {
		m.flushPend()
	}
}

func (m *Machine) flushPend() {
	if len(m.pend) == 0 {
		return
	}
	q := "(assert (or false " + strings.Join(m.pend, "\n") + "))"
	r := m.solver.CheckRaw(q, m.pendW[:])
	n := int64(len(m.pend))
	m.pend = m.pend[:0]
	m.pendVars = VarSet{}
	m.pendW = [maxVars]uint16{}
	switch r {
	case Unsat:
		m.St.AssertsSolver += n
	case SatYes:
		m.St.CrossBad += n
		m.Unsup["the solver disagrees with the built-in equality procedure on an assertion"] += n
	default:
		m.St.UnknownN += n
		m.Unsup["solver gave no answer on assertions"] += n
	}
}
