package main

import (
	"fmt"
	"go/types"
	"hash/maphash"
	"math/bits"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// decNode is one decision of a path; paths share prefixes.
type decNode struct {
	parent  *decNode
	v       int32
	implied bool
	n       int
	k       uint64
}

type task struct {
	node  *decNode
	model []uint64
}

type undoEnt struct {
	o    *Obj
	i    int
	v    Value
	m    *MapObj
	e    []mapEntry
	idx  map[interface{}]int
	nsym int
}

type inputRec struct {
	name string
	v    int // variable index or -1
	k    int64
	kind byte // 'b' byte,'o' bool,'i' int,'r' rune,'c' choice
}

type obsRec struct {
	name string
	v    Value
}

// reasons a path ends early
type pathEnd struct {
	why string // "assume", "violation", "unsupported", "deadline", "steps", "depth", "unknown"
	msg string
}

type goPanic struct {
	val *Iface
	msg string
}

func (g *goPanic) Error() string { return g.msg }

type PathStats struct {
	Paths, Assumed, Completed, Unsupported, StepLimit, UnknownN int64
	Decisions, Forks                                            int64
	Steps                                                       int64
	AssertsTotal, AssertsTrivial, AssertsSolver                 int64
	DomQ, CacheQ, ModelQ, EqQ, SmtQ                             int64
	CrossChecked, CrossBad                                      int64
}

type Machine struct {
	c      *Ctx
	solver *Solver
	cross  *Solver
	L      *Loaded
	cfg    *RunCfg
	ex     *Explorer

	tiFast  map[types.Type]*TI
	tis     typeutil.Map
	fns     map[*ssa.Function]*Fn
	fnList  []*Fn
	globals map[*ssa.Global]*Ptr
	inited  map[*ssa.Package]int

	seq     int64
	initSeq int64
	undo    []undoEnt
	initing bool

	// path state
	forced []*decNode
	pos    int
	last   *decNode
	task   *task
	dom    [maxVars]Dom
	domVer int32
	pc     []*Term
	multi  VarSet
	fixed  VarSet // variables with only one value left, substituted in pc
	model  []uint64
	nvar   int
	inputs []inputRec
	obs    []obsRec
	covers []string
	steps  int64
	limit  int64
	depth  int
	frozen int64
	pools  map[poolKey][]Value // what is put in pools
	wraps  map[*Obj]Value      // errors in errors
	ghosts int

	simpMemo map[*Term]*Term
	simpVer  int32
	qcache   map[uint64]*qres
	hseed    maphash.Seed

	St     PathStats
	Unsup  map[string]int64
	Covers map[string]int64

	curFrame *Frame
	ncross   int64
	forks    map[string]int
	pend     []string
	pendVars VarSet
	pendW    [maxVars]uint16

	decodeRune *Fn
	errStrTI   *TI
	rtErrTI    *TI
	strTI      *TI
}

type qres struct {
	sat bool
	idx []int
	val []uint64
}

func NewMachine(L *Loaded, cfg *RunCfg, ex *Explorer) *Machine {
	m := &Machine{
		c: NewCtx(), L: L, cfg: cfg, ex: ex,
		tiFast:  map[types.Type]*TI{},
		fns:     map[*ssa.Function]*Fn{},
		globals: map[*ssa.Global]*Ptr{},
		inited:  map[*ssa.Package]int{},
		qcache:  map[uint64]*qres{},
		hseed:   maphash.MakeSeed(),
		Unsup:   map[string]int64{},
		Covers:  map[string]int64{},
		frozen:  -1,
	}
	if os.Getenv("VERIF_FORKS") != "" {
		m.forks = map[string]int{}
	}
	m.tis.SetHasher(typeutil.MakeHasher())
	m.strTI = m.typ(types.Typ[types.String])
	if p := L.prog.ImportedPackage("unicode/utf8"); p != nil {
		m.decodeRune = m.fn(p.Func("DecodeRuneInString"))
	}
	if p := L.prog.ImportedPackage("errors"); p != nil {
		m.errStrTI = m.typ(types.NewPointer(p.Type("errorString").Type()))
	}
	return m
}

func (m *Machine) goPanic(msg string) *goPanic {
	return &goPanic{val: &Iface{m.strTI, m.str(msg)}, msg: msg}
}

// ---- heap

func (m *Machine) newObj(n int) *Obj {
	m.seq++
	return &Obj{s: make([]Value, n), seq: m.seq}
}

func (m *Machine) objOf(s []Value) *Obj {
	m.seq++
	return &Obj{s: s, seq: m.seq}
}

func (m *Machine) set(o *Obj, i int, v Value) {
	if o.seq <= m.frozen {
		m.checkFrozen("a store")
	}
	if o.seq <= m.initSeq {
		m.undo = append(m.undo, undoEnt{o: o, i: i, v: o.s[i]})
	}
	o.s[i] = v
}

func (m *Machine) checkFrozen(what string) {
	if m.ghosts > 0 {
		return
	}
	m.violation("shared state written during a read-only operation (" + what + " in " + m.where() + ")")
}

func (m *Machine) where() string {
	if m.curFrame != nil {
		return m.curFrame.fn.f.String()
	}
	return "?"
}

func (m *Machine) mapTouch(mo *MapObj) {
	if mo.seq <= m.frozen {
		m.checkFrozen("a map update")
	}
	if mo.seq <= m.initSeq {
		e := append([]mapEntry(nil), mo.e...)
		idx := make(map[interface{}]int, len(mo.idx))
		for k, v := range mo.idx {
			idx[k] = v
		}
		m.undo = append(m.undo, undoEnt{m: mo, e: e, idx: idx, nsym: mo.nsym})
	}
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.m != nil {
			u.m.e, u.m.idx, u.m.nsym = u.e, u.idx, u.nsym
		} else {
			u.o.s[u.i] = u.v
		}
	}
	m.undo = m.undo[:0]
}

// ---- decisions

func (m *Machine) record(v int32, implied bool, k uint64) {
	n := &decNode{parent: m.last, v: v, implied: implied, k: k}
	if m.last != nil {
		n.n = m.last.n + 1
	} else {
		n.n = 1
	}
	m.last = n
}

func (m *Machine) decide(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	return m.decideK(c, 0)
}

func (m *Machine) decideK(c *Term, k uint64) bool {
	if m.initing {
		panic(unsup("symbolic decision during init"))
	}
	m.St.Decisions++
	if m.pos < len(m.forced) {
		n := m.forced[m.pos]
		m.pos++
		m.last = n
		if !n.implied {
			if n.v != 0 {
				m.addPC(c)
			} else {
				m.addPC(m.c.Not(c))
			}
		}
		if m.pos == len(m.forced) {
			m.checkModel()
		}
		return n.v != 0
	}
	if d := m.simp(c); d.op == OConst {
		m.record(int32(d.k), true, k)
		return d.k != 0
	} else {
		c = d
	}
	v := m.c.Eval(c, m.model) != 0
	taken, other := c, m.c.Not(c)
	var vi, oi int32 = 1, 0
	if !v {
		taken, other = other, taken
		vi, oi = 0, 1
	}
	r, mod := m.feas(other)
	switch r {
	case Unsat:
		m.record(vi, true, k)
		return v
	case Unknown:
		m.St.UnknownN++
		m.Unsup["solver gave no answer on a branch in "+m.where()]++
	case SatYes:
		m.St.Forks++
		if m.forks != nil {
			m.forks[m.where()]++
		}
		n := &decNode{parent: m.last, v: oi, n: 1, k: k}
		if m.last != nil {
			n.n = m.last.n + 1
		}
		m.ex.push(task{n, mod})
	}
	m.record(vi, false, k)
	m.addPC(taken)
	return v
}

// choose makes an n-way decision without a solver variable.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.initing {
		panic(unsup("choice during init"))
	}
	if m.pos < len(m.forced) {
		nd := m.forced[m.pos]
		m.pos++
		m.last = nd
		if m.pos == len(m.forced) {
			m.checkModel()
		}
		return int(nd.v)
	}
	m.St.Forks += int64(n - 1)
	for k := n - 1; k >= 1; k-- {
		nd := &decNode{parent: m.last, v: int32(k), n: 1}
		if m.last != nil {
			nd.n = m.last.n + 1
		}
		m.ex.push(task{nd, append([]uint64(nil), m.model[:m.nvar]...)})
	}
	m.record(0, false, 0)
	return 0
}

func (m *Machine) checkModel() {
	for _, t := range m.pc {
		if m.c.Eval(t, m.model) == 0 {
			panic(fmt.Sprintf("engine: model does not satisfy the path condition: %v", t))
		}
	}
	for i := 0; i < m.nvar; i++ {
		if m.c.vinfo[i].w <= 8 && !m.dom[i].has(m.model[i]) {
			panic("engine: model outside domain")
		}
	}
}

func (m *Machine) addPC(c *Term) {
	if c.op == OConst {
		if c.k == 0 {
			panic("engine: false added to path condition")
		}
		return
	}
	if c.op == OAnd {
		m.addPC(c.a)
		m.addPC(c.b)
		return
	}
	if c.op == ONot && c.a.op == OOr {
		m.addPC(m.c.Not(c.a.a))
		m.addPC(m.c.Not(c.a.b))
		return
	}
	if c.unary >= 0 {
		d := m.dom[c.unary].and(*m.c.domOf(c))
		if d != m.dom[c.unary] {
			m.dom[c.unary] = d
			m.domVer++
			if d.count() == 1 {
				m.substitute(int(c.unary))
			}
		}
		return
	}
	if !m.fixed.meets(c.vars) {
		m.addMulti(c)
		return
	}
	if d := m.simp1x(c); d != c {
		m.addPC(d)
		return
	}
	m.addMulti(c)
}

// simp1x substitutes the variables with only one value left.
func (m *Machine) simp1x(t *Term) *Term {
	if m.simpVer != m.domVer || m.simpMemo == nil {
		m.simpMemo = map[*Term]*Term{}
		m.simpVer = m.domVer
	}
	return m.simp1(t)
}

// substitute replaces a variable with only one value left in the constraints.
func (m *Machine) substitute(v int) {
	m.fixed.set(v)
	old := m.pc
	m.pc = make([]*Term, 0, cap(old))
	m.multi = VarSet{}
	var again []*Term
	for _, p := range old {
		if p.vars.has(v) {
			again = append(again, p)
		} else {
			m.pc = append(m.pc, p)
			m.multi = m.multi.or(p.vars)
		}
	}
	for _, p := range again {
		m.addPC(m.simp1x(p))
	}
}

func (m *Machine) addMulti(c *Term) {
	for _, x := range m.pc {
		if x == c {
			return
		}
	}
	m.pc = append(m.pc, c)
	m.multi = m.multi.or(c.vars)
}

// simp simplifies a boolean term under the current variable domains and known constraints.
func (m *Machine) simp(t *Term) *Term {
	if t.unary >= 0 && t.w == 0 {
		d := m.c.domOf(t)
		cur := m.dom[t.unary]
		x := cur.and(*d)
		if x == cur {
			return m.c.T
		}
		if x.empty() {
			return m.c.F
		}
		return t
	}
	if m.simpVer != m.domVer || m.simpMemo == nil {
		m.simpMemo = map[*Term]*Term{}
		m.simpVer = m.domVer
	}
	for _, x := range m.pc {
		if x == t {
			return m.c.T
		}
		if (x.op == ONot && x.a == t) || (t.op == ONot && t.a == x) {
			return m.c.F
		}
	}
	return m.simp1(t)
}

func (m *Machine) simp1(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if t.op == OVar && t.w != 0 {
		if v := int(t.k); t.w <= 8 && m.fixed.has(v) {
			return m.c.Const(m.dom[v].first(), t.w)
		}
		return t
	}
	if t.w == 0 && t.unary >= 0 {
		d := m.c.domOf(t)
		cur := m.dom[t.unary]
		x := cur.and(*d)
		if x == cur {
			return m.c.T
		}
		if x.empty() {
			return m.c.F
		}
		return t
	}
	if t.op == OVar {
		return t
	}
	if r, ok := m.simpMemo[t]; ok {
		return r
	}
	a := m.simp1(t.a)
	var r *Term
	switch t.op {
	case ONot:
		r = m.c.Not(a)
	case OAnd:
		if a == m.c.F {
			r = a
		} else {
			r = m.c.And(a, m.simp1(t.b))
		}
	case OOr:
		if a == m.c.T {
			r = a
		} else {
			r = m.c.Or(a, m.simp1(t.b))
		}
	case OIte:
		if a == m.c.T {
			r = m.simp1(t.b)
		} else if a == m.c.F {
			r = m.simp1(t.c)
		} else {
			r = m.c.Ite(a, m.simp1(t.b), m.simp1(t.c))
		}
	default:
		if t.b == nil {
			if a == t.a {
				r = t
			} else {
				switch t.op {
				case OZExt:
					r = m.c.Resize(a, t.w, false)
				case OSExt:
					r = m.c.Resize(a, t.w, true)
				case OTrunc:
					r = m.c.Resize(a, t.w, false)
				default:
					r = m.c.Un(t.op, a)
				}
			}
		} else {
			b := m.simp1(t.b)
			if a == t.a && b == t.b {
				r = t
			} else {
				r = m.c.Bin(t.op, a, b)
			}
		}
		if r.w == 0 && r.unary >= 0 && r != t {
			r = m.simp1(r)
		}
	}
	m.simpMemo[t] = r
	return r
}

// feas decides whether PC && c is satisfiable; returns a full model if so.
func (m *Machine) feas(c *Term) (Sat, []uint64) { return m.feasible(c, false) }

func (m *Machine) feasible(c *Term, isAssert bool) (Sat, []uint64) {
	if c.op == OConst {
		if c.k == 0 {
			return Unsat, nil
		}
		return SatYes, append([]uint64(nil), m.model[:m.nvar]...)
	}
	mod := append([]uint64(nil), m.model[:m.nvar]...)
	if c.unary >= 0 {
		v := int(c.unary)
		d := m.dom[v].and(*m.c.domOf(c))
		if d.empty() {
			m.St.DomQ++
			m.crossCheck(c, false)
			return Unsat, nil
		}
		if !m.multi.has(v) {
			m.St.DomQ++
			mod[v] = d.first()
			m.crossCheck(c, true)
			return SatYes, mod
		}
		// try a few values against the constraints mentioning v
		tries := 0
		for k := 0; k < 4 && tries < 6; k++ {
			for x := d[k]; x != 0 && tries < 6; x &= x - 1 {
				tries++
				val := uint64(k*64) + uint64(trailing(x))
				mod[v] = val
				ok := true
				for _, p := range m.pc {
					if p.vars.has(v) && m.c.Eval(p, mod) == 0 {
						ok = false
						break
					}
				}
				if ok {
					m.St.ModelQ++
					return SatYes, mod
				}
			}
		}
		mod[v] = m.model[v]
	} else {
		// single-variable perturbations of the current model
		if md := m.perturb(c, mod); md != nil {
			m.St.ModelQ++
			return SatYes, md
		}
	}
	// slice
	vs := c.vars
	var sl []*Term
	used := make([]bool, len(m.pc))
	for ch := true; ch; {
		ch = false
		for i, p := range m.pc {
			if !used[i] && p.vars.meets(vs) {
				used[i] = true
				vs = vs.or(p.vars)
				sl = append(sl, p)
				ch = true
			}
		}
	}
	sort.Slice(sl, func(i, j int) bool { return sl[i].id < sl[j].id })
	var h maphash.Hash
	h.SetSeed(m.hseed)
	w32 := func(x uint64) {
		var b [8]byte
		for i := range b {
			b[i] = byte(x >> (8 * i))
		}
		h.Write(b[:])
	}
	w32(uint64(c.id))
	for _, p := range sl {
		w32(uint64(p.id))
	}
	vs.each(func(i int) {
		if m.c.vinfo[i].w <= 8 {
			w32(uint64(i))
			for _, x := range m.dom[i] {
				w32(x)
			}
		}
	})
	key := h.Sum64()
	if q, ok := m.qcache[key]; ok {
		m.St.CacheQ++
		if !q.sat {
			return Unsat, nil
		}
		for i, x := range q.idx {
			mod[x] = q.val[i]
		}
		return SatYes, mod
	}
	as := append(sl, c)
	switch m.eqSolve(as, vs, mod) {
	case SatYes:
		m.St.EqQ++
		return SatYes, mod
	case Unsat:
		m.St.EqQ++
		m.qcache[key] = &qres{}
		if isAssert {
			m.defer1(as, vs)
		} else {
			m.ncross++
			if m.sampled() {
				r, _ := m.solver.Check(m.c, as, m.domAsserts(vs), vs)
				m.St.CrossChecked++
				if r == SatYes {
					m.St.CrossBad++
				}
			}
		}
		return Unsat, nil
	}
	copy(mod, m.model[:m.nvar])
	m.St.SmtQ++
	if m.forks != nil {
		m.forks["smt "+m.where()]++
	}
	ex := m.domAsserts(vs)
	r, vals := m.solver.Check(m.c, as, ex, vs)
	if r == Unknown {
		return r, nil
	}
	if m.cross != nil {
		m.ncross++
		if m.ncross%m.cfg.crossEvery() == 0 {
			r2, _ := m.cross.Check(m.c, as, ex, vs)
			m.St.CrossChecked++
			if r2 != Unknown && r2 != r {
				m.St.CrossBad++
			}
		}
	}
	q := &qres{sat: r == SatYes}
	if q.sat {
		for i, v := range vals {
			q.idx = append(q.idx, i)
			q.val = append(q.val, v)
			mod[i] = v
		}
	}
	if len(m.qcache) > 2000000 {
		m.qcache = map[uint64]*qres{}
	}
	m.qcache[key] = q
	if q.sat {
		return SatYes, mod
	}
	return Unsat, nil
}

func (m *Machine) perturb(c *Term, mod []uint64) []uint64 {
	if c.op == OEq || (c.op == ONot && c.a.op == OEq) {
		e := c
		if c.op == ONot {
			e = c.a
		}
		if e.a.op == OVar && e.b.op == OVar {
			for k := 0; k < 2; k++ {
				x, y := int(e.a.k), int(e.b.k)
				if k == 1 {
					x, y = y, x
				}
				old := mod[x]
				try := func(v uint64) bool {
					if m.c.vinfo[x].w <= 8 && !m.dom[x].has(v) {
						return false
					}
					mod[x] = v
					if m.c.Eval(c, mod) == 0 {
						return false
					}
					for _, p := range m.pc {
						if p.vars.has(x) && m.c.Eval(p, mod) == 0 {
							return false
						}
					}
					return true
				}
				if c == e {
					if try(mod[y]) {
						return mod
					}
				} else {
					n := 0
					for q := 0; q < 4 && n < 8; q++ {
						for b := m.dom[x][q]; b != 0 && n < 8; b &= b - 1 {
							n++
							if try(uint64(q*64) + uint64(trailing(b))) {
								return mod
							}
						}
					}
				}
				mod[x] = old
			}
		}
	}
	return nil
}

func (m *Machine) domAsserts(vs VarSet) []string {
	var ex []string
	vs.each(func(i int) {
		w := m.c.vinfo[i].w
		if w > 8 {
			return
		}
		d := m.dom[i]
		if d == fullDom(w) {
			return
		}
		n := fmt.Sprintf("v%d_%d", i, w)
		if w == 0 {
			if d.has(1) {
				ex = append(ex, "(assert "+n+")")
			} else {
				ex = append(ex, "(assert (not "+n+"))")
			}
			return
		}
		max := uint64(255)
		if w < 8 {
			max = 1<<w - 1
		}
		var parts []string
		for x := uint64(0); x <= max; {
			if !d.has(x) {
				x++
				continue
			}
			y := x
			for y+1 <= max && d.has(y+1) {
				y++
			}
			if x == y {
				parts = append(parts, fmt.Sprintf("(= %s %s)", n, bvlit(x, w)))
			} else {
				parts = append(parts, fmt.Sprintf("(and (bvule %s %s) (bvule %s %s))", bvlit(x, w), n, n, bvlit(y, w)))
			}
			x = y + 1
		}
		ex = append(ex, "(assert (or false "+strings.Join(parts, " ")+"))")
	})
	return ex
}

// sampled says that the verdict now counted is one of those to confirm: the first ones of a worker, and then some.
func (m *Machine) sampled() bool {
	return m.ncross <= 100 || m.ncross%m.cfg.domCross() == 0
}

// crossCheck confirms a sample of finite-domain verdicts with the SMT solver.
func (m *Machine) crossCheck(c *Term, want bool) {
	m.ncross++
	if !m.sampled() {
		return
	}
	vs := c.vars
	r, _ := m.solver.Check(m.c, []*Term{c}, m.domAsserts(vs), vs)
	m.St.CrossChecked++
	if r != Unknown && (r == SatYes) != want {
		m.St.CrossBad++
	}
}

func (m *Machine) assume(c *Term) {
	if c.op == OConst {
		if c.k == 0 {
			panic(pathEnd{why: "assume"})
		}
		return
	}
	c = m.simp(c)
	if c.op == OConst {
		if c.k == 0 {
			panic(pathEnd{why: "assume"})
		}
		return
	}
	if m.c.Eval(c, m.model) != 0 {
		m.addPC(c)
		return
	}
	if m.pos < len(m.forced) {
		// a model of the full prefix satisfies every earlier assumption
		panic("engine: assumption fails under a forced model")
	}
	r, mod := m.feas(c)
	switch r {
	case Unsat:
		panic(pathEnd{why: "assume"})
	case Unknown:
		m.St.UnknownN++
		panic(pathEnd{why: "unknown", msg: "solver gave no answer on an assumption"})
	}
	m.setModel(mod)
	m.addPC(c)
}

func (m *Machine) setModel(mod []uint64) {
	copy(m.model, mod)
}

func (m *Machine) assert(c *Term, msg string) {
	m.St.AssertsTotal++
	c = m.simp(c)
	if c.op == OConst {
		if c.k != 0 {
			m.St.AssertsTrivial++
			return
		}
		m.violation(msg)
	}
	nc := m.c.Not(c)
	if m.c.Eval(nc, m.model) != 0 {
		m.violation(msg)
	}
	if m.pos < len(m.forced) {
		// already decided on the path that forked here, under weaker constraints
		return
	}
	np, nq := len(m.pend), m.St.SmtQ
	r, mod := m.feasible(nc, true)
	switch r {
	case SatYes:
		m.setModel(mod)
		m.violation(msg)
	case Unknown:
		m.St.UnknownN++
		m.Unsup["solver gave no answer on an assertion: "+msg]++
		return
	}
	if len(m.pend) == np && m.St.SmtQ == nq {
		m.St.AssertsTrivial++ // decided by domains or the query cache
	} else if m.St.SmtQ != nq {
		m.St.AssertsSolver++
	}
}

func (m *Machine) violation(msg string) {
	m.ex.report(m, "assert", msg)
	panic(pathEnd{why: "violation", msg: msg})
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.w == 0 {
		if m.decide(t) {
			return 1
		}
		return 0
	}
	for n := 0; n < 300; n++ {
		v := m.c.Eval(t, m.model)
		if m.pos < len(m.forced) {
			v = m.forced[m.pos].k
		}
		if m.decideK(m.c.Eq(t, m.c.Const(v, t.w)), v) {
			return v
		}
	}
	panic(unsup("too many values to concretize"))
}

func (m *Machine) tick(n int) {
	m.steps += int64(n)
	if m.steps >= m.limit {
		m.slowTick()
	}
}

func (m *Machine) slowTick() {
	if m.initing {
		m.limit = m.steps + 1<<40
		return
	}
	if m.steps > m.cfg.maxSteps() {
		panic(pathEnd{why: "steps"})
	}
	if atomic.LoadInt32(&m.ex.stop) != 0 || time.Now().After(m.ex.deadline) {
		panic(pathEnd{why: "deadline"})
	}
	m.limit = m.steps + 20000
}

func trailing(x uint64) int { return bits.TrailingZeros64(x) }

func (m *Machine) newVar(name string, w uint8) *Term {
	i := m.nvar
	t := m.c.Var(i, name, w)
	m.nvar++
	m.dom[i] = Dom{}
	if w <= 8 {
		m.dom[i] = fullDom(w)
	}
	for len(m.model) < m.nvar {
		m.model = append(m.model, 0)
	}
	return t
}
