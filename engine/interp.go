package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fn struct {
	f      *ssa.Function
	name   string
	native func(m *Machine, args []Value) Value
	built  bool
	blocks []blk
	nreg   int
	nparam int
	fv0    int // first free variable register
	hasDef bool
	repo   bool
	hit    []bool
	rec    int
	res    *TI
	pkg    *ssa.Package
	free   [][]Value // register files for reuse
	hasG   int
}

type opnd struct {
	r int
	v Value
}

type move struct {
	dst int
	src opnd
}

type instr func(m *Machine, fr *Frame)

type blk struct {
	ins   []instr
	kind  uint8 // 0 jump 1 if 2 return 3 panic 4 unreachable
	cond  opnd
	res   []opnd
	succ  [2]int
	moves [2][]move
	n     int
}

type deferred struct {
	fn   *Closure
	nat  func(m *Machine, args []Value) Value
	args []Value
}

type Frame struct {
	fn        *Fn
	r         []Value
	caller    *Frame
	defers    []deferred
	panicking *goPanic
	recovered bool
	isDefer   bool
}

func (fr *Frame) get(o *opnd) Value {
	if o.r >= 0 {
		return fr.r[o.r]
	}
	return o.v
}

func (m *Machine) fn(f *ssa.Function) *Fn {
	if x, ok := m.fns[f]; ok {
		return x
	}
	x := &Fn{f: f, name: f.String(), pkg: f.Pkg}
	if f.Origin() != nil {
		x.pkg = f.Origin().Pkg
	}
	m.fns[f] = x
	m.fnList = append(m.fnList, x)
	if n, ok := natives[x.name]; ok {
		x.native = n
	} else if f.Origin() != nil {
		if n, ok := natives[f.Origin().String()]; ok {
			x.native = n
		}
	}
	if x.native == nil {
		if k := strings.Index(x.name, "/"+overlayDir+"/sym."); k >= 0 {
			nm := x.name[k+len("/"+overlayDir+"/sym."):]
			if n, ok := symNatives[nm]; ok {
				x.native = n
			}
		}
	}
	x.repo = x.pkg != nil && strings.HasPrefix(x.pkg.Pkg.Path(), m.L.modpath) && !strings.Contains(x.pkg.Pkg.Path(), "/"+overlayDir+"/")
	return x
}

func (m *Machine) closure(f *ssa.Function) *Closure { return &Closure{fn: m.fn(f)} }

func (m *Machine) global(g *ssa.Global) *Ptr {
	if p, ok := m.globals[g]; ok {
		return p
	}
	ti := m.typ(g.Type().Underlying().(*types.Pointer).Elem())
	o := m.objOf(m.zeroInto(ti, nil))
	if !m.initing {
		o.seq = 0 // belongs to the initial state
	}
	p := &Ptr{o: o}
	m.globals[g] = p
	return p
}

func (m *Machine) constVal(c *ssa.Const) Value {
	ti := m.typ(c.Type())
	if c.Value == nil {
		return m.zero(ti)
	}
	switch ti.kind {
	case KBool:
		return m.c.Bool(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return m.c.Const(uint64(i), ti.w)
		}
		u, _ := constant.Uint64Val(v)
		return m.c.Const(u, ti.w)
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return Float(f)
	case KString:
		if c.Value.Kind() == constant.String {
			return m.str(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return m.str(string(rune(i)))
	case KUnsafe, KPtr:
		return nilPtr
	}
	return Opaque{"const " + c.String()}
}

type compiler struct {
	m    *Machine
	fn   *Fn
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.m.constVal(x)}
	case *ssa.Function:
		return opnd{-1, c.m.closure(x)}
	case *ssa.Global:
		return opnd{-1, c.m.global(x)}
	case *ssa.Builtin:
		return opnd{-1, Opaque{"builtin"}}
	}
	return opnd{c.reg(v), nil}
}

func (m *Machine) build(fn *Fn) {
	fn.built = true
	f := fn.f
	if f.Blocks == nil {
		return
	}
	c := &compiler{m: m, fn: fn, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		c.reg(p)
	}
	fn.nparam = len(f.Params)
	fn.fv0 = fn.nparam
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	fn.blocks = make([]blk, len(f.Blocks))
	fn.hit = make([]bool, len(f.Blocks))
	fn.rec = -1
	if f.Recover != nil {
		fn.rec = f.Recover.Index
	}
	res := f.Signature.Results()
	if res.Len() == 1 {
		fn.res = m.typ(res.At(0).Type())
	} else if res.Len() > 1 {
		fn.res = m.typ(res)
	}
	for i, b := range f.Blocks {
		bk := &fn.blocks[i]
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				bk.kind = 1
				bk.cond = c.op(x.Cond)
			case *ssa.Jump:
				bk.kind = 0
			case *ssa.Return:
				bk.kind = 2
				for _, r := range x.Results {
					bk.res = append(bk.res, c.op(r))
				}
			case *ssa.Panic:
				bk.kind = 3
				bk.cond = c.op(x.X)
			default:
				bk.ins = append(bk.ins, c.instr(in))
			}
		}
		for k, s := range b.Succs {
			bk.succ[k] = s.Index
			// which predecessor edge
			e := -1
			seen := 0
			for pi, p := range s.Preds {
				if p == b {
					if seen == k || (len(b.Succs) == 2 && b.Succs[0] != b.Succs[1]) || len(b.Succs) == 1 {
						e = pi
						break
					}
					seen++
				}
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				bk.moves[k] = append(bk.moves[k], move{c.reg(ph), c.op(ph.Edges[e])})
			}
		}
		bk.n = len(bk.ins) + 1
	}
	fn.nreg = len(c.regs)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDef = true
			}
		}
	}
}

func (m *Machine) callC(cl *Closure, args []Value) Value {
	if cl == nil {
		panic(m.goPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	return m.call(cl.fn, args, cl.bind, false)
}

func (m *Machine) call(fn *Fn, args []Value, bind []Value, isDefer bool) Value {
	if fn.native != nil {
		return fn.native(m, args)
	}
	if !fn.built {
		m.build(fn)
	}
	if fn.blocks == nil {
		panic(unsup("function without body: %s", fn.name))
	}
	if m.initing && fn.f.Name() == "init" && fn.f.Synthetic != "" && fn.f.Parent() == nil && fn.f.Signature.Recv() == nil {
		if fn.pkg != nil && fn.pkg.Func("init") == fn.f && !m.initAllowed(fn.pkg) {
			return nil
		}
	}
	if !m.initing && fn.pkg != nil && !m.initAllowed(fn.pkg) && m.usesGlobals(fn) {
		panic(unsup("function of a package that is not modelled: %s", fn.name))
	}
	m.depth++
	if m.depth > 1500 {
		m.depth = 0
		panic(pathEnd{why: "depth"})
	}
	fr := &Frame{fn: fn, caller: m.curFrame, isDefer: isDefer}
	if n := len(fn.free); n > 0 {
		fr.r = fn.free[n-1]
		fn.free = fn.free[:n-1]
	} else {
		fr.r = make([]Value, fn.nreg)
	}
	copy(fr.r, args)
	copy(fr.r[fn.fv0:], bind)
	save, sd := m.curFrame, m.depth-1
	m.curFrame = fr
	var res Value
	if fn.hasDef {
		res = m.runDef(fr)
	} else {
		res = m.exec(fr, 0)
	}
	m.curFrame = save
	m.depth = sd
	fn.free = append(fn.free, fr.r)
	return res
}

func (m *Machine) runDef(fr *Frame) (res Value) {
	depth := m.depth
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		gp, ok := x.(*goPanic)
		if !ok {
			panic(x)
		}
		for {
			fr.panicking = gp
			fr.recovered = false
			m.curFrame, m.depth = fr, depth
			gp = m.runDefersCatch(fr)
			if gp == nil {
				break
			}
		}
		if !fr.recovered {
			panic(fr.panicking)
		}
		fr.panicking = nil
		m.curFrame, m.depth = fr, depth
		if fr.fn.rec >= 0 {
			res = m.exec(fr, fr.fn.rec)
		} else if fr.fn.res != nil {
			res = m.zero(fr.fn.res)
		}
	}()
	return m.exec(fr, 0)
}

// runDefersCatch runs pending deferred calls; returns a new panic if one occurs.
func (m *Machine) runDefersCatch(fr *Frame) (gp *goPanic) {
	defer func() {
		if x := recover(); x != nil {
			g, ok := x.(*goPanic)
			if !ok {
				panic(x)
			}
			gp = g
		}
	}()
	m.runDefers(fr)
	return nil
}

func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.nat != nil {
			d.nat(m, d.args)
		} else if d.fn == nil {
			panic(m.goPanic("runtime error: invalid memory address or nil pointer dereference"))
		} else {
			m.call(d.fn.fn, d.args, d.fn.bind, true)
		}
		m.curFrame = fr
	}
}

func (m *Machine) exec(fr *Frame, b int) Value {
	fn := fr.fn
	var tmp [8]Value
	for {
		bk := &fn.blocks[b]
		fn.hit[b] = true
		m.tick(bk.n)
		for _, in := range bk.ins {
			in(m, fr)
		}
		k := 0
		switch bk.kind {
		case 1:
			if !m.decide(fr.get(&bk.cond).(*Term)) {
				k = 1
			}
		case 2:
			switch len(bk.res) {
			case 0:
				return nil
			case 1:
				return fr.get(&bk.res[0])
			}
			t := make(Tuple, len(bk.res))
			for i := range t {
				t[i] = fr.get(&bk.res[i])
			}
			return t
		case 3:
			v := fr.get(&bk.cond).(*Iface)
			msg := "panic"
			if v.t == nil {
				msg = "panic called with nil argument"
			} else if s, ok := v.v.(*Str); ok {
				msg = "panic: " + m.showStr(s)
			} else {
				msg = "panic of type " + v.t.t.String()
			}
			panic(&goPanic{val: v, msg: msg})
		}
		mv := bk.moves[k]
		switch len(mv) {
		case 0:
		case 1:
			fr.r[mv[0].dst] = fr.get(&mv[0].src)
		default:
			t := tmp[:0]
			for i := range mv {
				t = append(t, fr.get(&mv[i].src))
			}
			for i := range mv {
				fr.r[mv[i].dst] = t[i]
			}
		}
		b = bk.succ[k]
	}
}

func (m *Machine) showStr(s *Str) string {
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(m.c.Eval(t, m.model))
	}
	return string(b)
}

func (m *Machine) nilDeref() *goPanic {
	return m.goPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (m *Machine) load(p *Ptr, ti *TI) Value {
	if p.o == nil {
		panic(m.nilDeref())
	}
	if p.sym != nil {
		return m.loadSym(p, ti)
	}
	if ti.agg() {
		a := make(Agg, ti.size)
		if p.off+ti.size > len(p.o.s) {
			panic(unsup("load outside object"))
		}
		copy(a, p.o.s[p.off:])
		return a
	}
	if p.off >= len(p.o.s) {
		panic(unsup("load outside object"))
	}
	v := p.o.s[p.off]
	switch ti.kind {
	case KString:
		if sl, ok := v.(*Slice); ok { // *(*string)(unsafe.Pointer(&bytes))
			return m.bytesToStr(sl)
		}
		if v == nil {
			panic(unsup("load of uninitialised slot"))
		}
	case KSlice:
		if s, ok := v.(*Str); ok {
			return m.strToBytes(s)
		}
	case KInt, KBool:
		t, ok := v.(*Term)
		if !ok || t.w != ti.w {
			panic(unsup("type-punned load of %s in %s", ti.t, m.where()))
		}
	}
	return v
}

func (m *Machine) loadSym(p *Ptr, ti *TI) Value {
	s := p.sym
	get := func(i int) Value {
		off := p.off + i*s.stride
		if ti.agg() {
			a := make(Agg, ti.size)
			copy(a, p.o.s[off:off+ti.size])
			return a
		}
		return p.o.s[off]
	}
	// runs of equal values
	type run struct {
		lo int
		v  Value
	}
	var rs []run
	for i := 0; i < s.n; i++ {
		v := get(i)
		if len(rs) > 0 {
			l := rs[len(rs)-1].v
			if a, ok := v.(*Term); ok {
				if b, ok := l.(*Term); ok && a == b {
					continue
				}
			} else if a, ok := v.(Agg); ok {
				b := l.(Agg)
				same := true
				for j := range a {
					x, o1 := a[j].(*Term)
					y, o2 := b[j].(*Term)
					if !o1 || !o2 || x != y {
						same = false
						break
					}
				}
				if same {
					continue
				}
			}
		}
		rs = append(rs, run{i, v})
	}
	r := rs[len(rs)-1].v
	for k := len(rs) - 2; k >= 0; k-- {
		g := m.c.Bin(OUlt, s.idx, m.c.Const(uint64(rs[k+1].lo), s.idx.w))
		v, ok := m.iteVal(g, rs[k].v, r)
		if !ok {
			i := m.concretize(s.idx)
			return get(int(i))
		}
		r = v
	}
	return r
}

func (m *Machine) store(p *Ptr, ti *TI, v Value) {
	if p.o == nil {
		panic(m.nilDeref())
	}
	if p.sym != nil {
		i := int(m.concretize(p.sym.idx))
		m.store(&Ptr{o: p.o, off: p.off + i*p.sym.stride}, ti, v)
		return
	}
	if ti.agg() {
		a := v.(Agg)
		for i, x := range a {
			m.set(p.o, p.off+i, x)
		}
		return
	}
	m.set(p.o, p.off, v)
}

func (m *Machine) bytesToStr(sl *Slice) *Str {
	if sl.len == 0 {
		return emptyStr
	}
	b := make([]*Term, sl.len)
	for i := range b {
		b[i] = sl.o.s[sl.off+i].(*Term)
	}
	return m.mkStr(b)
}

func (m *Machine) strToBytes(s *Str) *Slice {
	v := make([]Value, len(s.b))
	for i, t := range s.b {
		v[i] = t
	}
	return &Slice{o: m.objOf(v), len: len(v), cap: len(v), esz: 1}
}

// index resolves an index value against length n; panics in the target if out of range.
func (m *Machine) index(t *Term, n int, signed bool) (int, *Term) {
	if signed && t.w < 64 {
		t = m.c.Resize(t, 64, true)
	}
	if t.op == OConst {
		i := int64(t.k)
		if signed {
			i = sx(t.k, t.w)
		}
		if i < 0 || i >= int64(n) {
			panic(m.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	}
	var in *Term
	if t.w < 64 && maskw(t.w) < uint64(n) {
		in = m.c.T
	} else {
		in = m.c.Bin(OUlt, t, m.c.Const(uint64(n), t.w))
	}
	if !m.decide(in) {
		panic(m.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n)))
	}
	return -1, t
}

func (m *Machine) intArg(v Value) int {
	t := v.(*Term)
	return int(sx(m.concretize(t), t.w))
}

func tInt(m *Machine, i int) *Term { return m.c.Const(uint64(int64(i)), 64) }

func (c *compiler) instr(in ssa.Instruction) instr {
	m := c.m
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg(v)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		ti := m.typ(x.Type().Underlying().(*types.Pointer).Elem())
		if ti.size == 1 && !ti.agg() {
			z := m.zero(ti)
			return func(m *Machine, fr *Frame) {
				fr.r[dst] = &Ptr{o: m.objOf([]Value{z})}
			}
		}
		z := m.zeroInto(ti, nil)
		return func(m *Machine, fr *Frame) {
			s := make([]Value, len(z))
			copy(s, z)
			fr.r[dst] = &Ptr{o: m.objOf(s)}
		}
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		a := c.op(x.X)
		switch x.Op {
		case token.MUL:
			ti := m.typ(x.Type())
			return func(m *Machine, fr *Frame) {
				fr.r[dst] = m.load(fr.get(&a).(*Ptr), ti)
			}
		case token.NOT:
			return func(m *Machine, fr *Frame) { fr.r[dst] = m.c.Not(fr.get(&a).(*Term)) }
		case token.SUB:
			return func(m *Machine, fr *Frame) {
				switch v := fr.get(&a).(type) {
				case *Term:
					fr.r[dst] = m.c.Un(ONeg, v)
				case Float:
					fr.r[dst] = -v
				default:
					panic(unsup("negate %T", v))
				}
			}
		case token.XOR:
			return func(m *Machine, fr *Frame) { fr.r[dst] = m.c.Un(OBNot, fr.get(&a).(*Term)) }
		}
		return unsupInstr(in)
	case *ssa.Call:
		f := c.call(&x.Call)
		return func(m *Machine, fr *Frame) { fr.r[dst] = f(m, fr) }
	case *ssa.ChangeType:
		a := c.op(x.X)
		return func(m *Machine, fr *Frame) { fr.r[dst] = fr.get(&a) }
	case *ssa.ChangeInterface:
		a := c.op(x.X)
		return func(m *Machine, fr *Frame) { fr.r[dst] = fr.get(&a) }
	case *ssa.Convert:
		return c.convert(x, dst)
	case *ssa.MultiConvert:
		return unsupInstr(in)
	case *ssa.Extract:
		a := c.op(x.Tuple)
		i := x.Index
		return func(m *Machine, fr *Frame) { fr.r[dst] = fr.get(&a).(Tuple)[i] }
	case *ssa.Field:
		a := c.op(x.X)
		st := m.typ(x.X.Type())
		fi := st.fields[x.Field]
		if fi.ti.agg() {
			return func(m *Machine, fr *Frame) {
				fr.r[dst] = Agg(fr.get(&a).(Agg)[fi.off : fi.off+fi.ti.size : fi.off+fi.ti.size])
			}
		}
		return func(m *Machine, fr *Frame) { fr.r[dst] = fr.get(&a).(Agg)[fi.off] }
	case *ssa.FieldAddr:
		a := c.op(x.X)
		st := m.typ(x.X.Type().Underlying().(*types.Pointer).Elem())
		fi := st.fields[x.Field]
		return func(m *Machine, fr *Frame) {
			p := fr.get(&a).(*Ptr)
			if p.o == nil {
				panic(m.nilDeref())
			}
			fr.r[dst] = &Ptr{o: p.o, off: p.off + fi.off, sym: p.sym}
		}
	case *ssa.Index:
		a, ix := c.op(x.X), c.op(x.Index)
		sg := m.typ(x.Index.Type()).signed
		ti := m.typ(x.X.Type())
		if ti.kind == KString {
			return func(m *Machine, fr *Frame) {
				fr.r[dst] = m.strIndex(fr.get(&a).(*Str), fr.get(&ix).(*Term), sg)
			}
		}
		if ti.kind != KArray {
			return unsupInstr(in)
		}
		return func(m *Machine, fr *Frame) {
			ag := fr.get(&a).(Agg)
			p := m.elemPtr(&Obj{s: ag}, 0, ti.n, ti.elem.size, fr.get(&ix).(*Term), sg)
			fr.r[dst] = m.load(p, ti.elem)
		}
	case *ssa.IndexAddr:
		a, ix := c.op(x.X), c.op(x.Index)
		sg := m.typ(x.Index.Type()).signed
		ti := m.typ(x.X.Type())
		if ti.kind == KSlice {
			return func(m *Machine, fr *Frame) {
				s := fr.get(&a).(*Slice)
				fr.r[dst] = m.elemPtr(s.o, s.off, s.len, s.esz, fr.get(&ix).(*Term), sg)
			}
		}
		at := ti.elem
		return func(m *Machine, fr *Frame) {
			p := fr.get(&a).(*Ptr)
			if p.o == nil {
				panic(m.nilDeref())
			}
			if p.sym != nil {
				i := int(m.concretize(p.sym.idx))
				p = &Ptr{o: p.o, off: p.off + i*p.sym.stride}
			}
			fr.r[dst] = m.elemPtr(p.o, p.off, at.n, at.elem.size, fr.get(&ix).(*Term), sg)
		}
	case *ssa.Lookup:
		a, k := c.op(x.X), c.op(x.Index)
		ti := m.typ(x.X.Type())
		sg := m.typ(x.Index.Type()).signed
		if ti.kind == KString {
			return func(m *Machine, fr *Frame) {
				fr.r[dst] = m.strIndex(fr.get(&a).(*Str), fr.get(&k).(*Term), sg)
			}
		}
		et := ti.elem
		return func(m *Machine, fr *Frame) {
			mo, _ := fr.get(&a).(*MapObj)
			i := m.mapFind(mo, fr.get(&k))
			var v Value
			if i >= 0 {
				v = mo.e[i].v
			} else {
				v = m.zero(et)
			}
			if x.CommaOk {
				fr.r[dst] = Tuple{v, m.c.Bool(i >= 0)}
			} else {
				fr.r[dst] = v
			}
		}
	case *ssa.MakeClosure:
		f := m.fn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(m *Machine, fr *Frame) {
			cl := &Closure{fn: f, bind: make([]Value, len(bs))}
			for i := range bs {
				cl.bind[i] = fr.get(&bs[i])
			}
			fr.r[dst] = cl
		}
	case *ssa.MakeInterface:
		a := c.op(x.X)
		ti := m.typ(x.X.Type())
		return func(m *Machine, fr *Frame) { fr.r[dst] = &Iface{ti, fr.get(&a)} }
	case *ssa.MakeMap:
		return func(m *Machine, fr *Frame) {
			m.seq++
			fr.r[dst] = &MapObj{idx: map[interface{}]int{}, seq: m.seq}
		}
	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		ti := m.typ(x.Type())
		return func(m *Machine, fr *Frame) {
			n, k := m.intArg(fr.get(&l)), m.intArg(fr.get(&cp))
			fr.r[dst] = m.makeSlice(ti.elem, n, k)
		}
	case *ssa.MapUpdate:
		a, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(m *Machine, fr *Frame) {
			mo, _ := fr.get(&a).(*MapObj)
			m.mapSet(mo, fr.get(&k), fr.get(&v))
		}
	case *ssa.Range:
		a := c.op(x.X)
		ti := m.typ(x.X.Type())
		if ti.kind == KString {
			return func(m *Machine, fr *Frame) {
				fr.r[dst] = &strIter{s: fr.get(&a).(*Str)}
			}
		}
		return func(m *Machine, fr *Frame) {
			mo, _ := fr.get(&a).(*MapObj)
			it := &mapIter{m: mo}
			if mo != nil {
				it.e = append(it.e, mo.e...)
			}
			fr.r[dst] = it
		}
	case *ssa.Next:
		a := c.op(x.Iter)
		if x.IsString {
			return func(m *Machine, fr *Frame) { fr.r[dst] = m.nextRune(fr.get(&a).(*strIter)) }
		}
		tt := x.Type().(*types.Tuple)
		kt, vt := m.typ(tt.At(1).Type()), m.typ(tt.At(2).Type())
		return func(m *Machine, fr *Frame) {
			it := fr.get(&a).(*mapIter)
			for it.p < len(it.e) {
				e := it.e[it.p]
				i := it.p
				it.p++
				if e.k == nil || (i < len(it.m.e) && it.m.e[i].k == nil) {
					continue
				}
				if i < len(it.m.e) {
					e = it.m.e[i]
				}
				fr.r[dst] = Tuple{m.c.T, e.k, e.v}
				return
			}
			fr.r[dst] = Tuple{m.c.F, zeroOrNil(m, kt), zeroOrNil(m, vt)}
		}
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.SliceToArrayPointer:
		a := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(m *Machine, fr *Frame) {
			s := fr.get(&a).(*Slice)
			if s.len < n {
				panic(m.goPanic("runtime error: cannot convert slice to array pointer"))
			}
			fr.r[dst] = &Ptr{o: s.o, off: s.off}
		}
	case *ssa.Store:
		p, v := c.op(x.Addr), c.op(x.Val)
		ti := m.typ(x.Val.Type())
		return func(m *Machine, fr *Frame) {
			m.store(fr.get(&p).(*Ptr), ti, fr.get(&v))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.RunDefers:
		return func(m *Machine, fr *Frame) { m.runDefers(fr) }
	}
	return unsupInstr(in)
}

func zeroOrNil(m *Machine, ti *TI) Value {
	if ti.kind == KOther {
		return nil
	}
	return m.zero(ti)
}

func unsupInstr(in ssa.Instruction) instr {
	s := fmt.Sprintf("instruction %T in %s", in, in.Parent())
	return func(m *Machine, fr *Frame) { panic(unsup("%s", s)) }
}

func (m *Machine) makeSlice(et *TI, n, k int) *Slice {
	if n < 0 || k < n {
		panic(m.goPanic("runtime error: makeslice: len out of range"))
	}
	if k*et.size > 1<<20 {
		if k > 1<<40 {
			panic(m.goPanic("runtime error: makeslice: len out of range"))
		}
		panic(unsup("allocation of %d elements", k))
	}
	s := make([]Value, 0, k*et.size)
	if et.agg() {
		for i := 0; i < k; i++ {
			s = m.zeroInto(et, s)
		}
	} else {
		z := m.zero(et)
		for i := 0; i < k; i++ {
			s = append(s, z)
		}
	}
	return &Slice{o: m.objOf(s), len: n, cap: k, esz: et.size}
}

func (m *Machine) elemPtr(o *Obj, off, n, esz int, t *Term, signed bool) *Ptr {
	i, st := m.index(t, n, signed)
	if st == nil {
		return &Ptr{o: o, off: off + i*esz}
	}
	return &Ptr{o: o, off: off, sym: &SymIdx{idx: st, n: n, stride: esz}}
}

func (m *Machine) strIndex(s *Str, t *Term, signed bool) Value {
	i, st := m.index(t, len(s.b), signed)
	if st == nil {
		return s.b[i]
	}
	v := make([]Value, len(s.b))
	for j, b := range s.b {
		v[j] = b
	}
	return m.loadSym(&Ptr{o: &Obj{s: v}, sym: &SymIdx{idx: st, n: len(v), stride: 1}}, m.typ(types.Typ[types.Uint8]))
}

func (m *Machine) nextRune(it *strIter) Value {
	n := len(it.s.b)
	if it.p >= n {
		return Tuple{m.c.F, tInt(m, 0), m.c.Const(0, 32)}
	}
	p := it.p
	r, sz := m.decRune(it.s.sub(p, n))
	it.p += sz
	return Tuple{m.c.T, tInt(m, p), r}
}

func (m *Machine) decRune(s *Str) (*Term, int) {
	b := s.b[0]
	if m.decide(m.c.Bin(OUlt, b, m.c.bytes[0x80])) {
		return m.c.Resize(b, 32, false), 1
	}
	res := m.call(m.decodeRune, []Value{s}, nil, false).(Tuple)
	return res[0].(*Term), m.intArg(res[1])
}

type mkey struct {
	t *TI
	k interface{}
}

// scalarKey returns a Go map key for concrete scalar values.
func (m *Machine) scalarKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Str:
		if len(x.b) == 0 {
			return "", true
		}
		if x.isC {
			return x.conc, true
		}
	case *Term:
		if x.op == OConst {
			return x.k, true
		}
	case *Ptr:
		if x.sym == nil {
			return Ptr{o: x.o, off: x.off}, true
		}
	case *Iface:
		if x.t == nil {
			return mkey{}, true
		}
		if k, ok := m.scalarKey(x.v); ok {
			return mkey{x.t, k}, true
		}
	}
	return nil, false
}

func (m *Machine) mapFind(mo *MapObj, k Value) int {
	if mo == nil {
		return -1
	}
	sk, ok := m.scalarKey(k)
	if ok {
		if i, ok := mo.idx[sk]; ok {
			return i
		}
		if mo.nsym == 0 {
			return -1
		}
	}
	for i := range mo.e {
		e := &mo.e[i]
		if e.k == nil {
			continue
		}
		if ok {
			if _, c := m.scalarKey(e.k); c {
				continue
			}
		}
		if m.decide(m.eq(e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mo *MapObj, k, v Value) {
	if mo == nil {
		panic(m.goPanic("assignment to entry in nil map"))
	}
	i := m.mapFind(mo, k)
	m.mapTouch(mo)
	if i >= 0 {
		mo.e[i].v = v
		return
	}
	if sk, ok := m.scalarKey(k); ok {
		mo.idx[sk] = len(mo.e)
	} else {
		mo.nsym++
	}
	mo.e = append(mo.e, mapEntry{k, v})
}

func (m *Machine) mapDelete(mo *MapObj, k Value) {
	i := m.mapFind(mo, k)
	if i < 0 {
		return
	}
	m.mapTouch(mo)
	if sk, ok := m.scalarKey(mo.e[i].k); ok {
		delete(mo.idx, sk)
	} else {
		mo.nsym--
	}
	mo.e[i] = mapEntry{}
}

func (mo *MapObj) count() int {
	if mo == nil {
		return 0
	}
	return len(mo.idx) + mo.nsym
}

func (c *compiler) slice(x *ssa.Slice, dst int) instr {
	m := c.m
	a := c.op(x.X)
	var lo, hi, mx *opnd
	set := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = set(x.Low), set(x.High), set(x.Max)
	ti := m.typ(x.X.Type())
	return func(m *Machine, fr *Frame) {
		v := fr.get(&a)
		var n, cp int
		switch ti.kind {
		case KString:
			n = len(v.(*Str).b)
			cp = n
		case KSlice:
			n, cp = v.(*Slice).len, v.(*Slice).cap
		default:
			if v.(*Ptr).o == nil {
				panic(m.nilDeref())
			}
			n = ti.elem.n
			cp = n
		}
		l, h, k := 0, n, cp
		bound := func(o *opnd, limit int) int {
			t := fr.get(o).(*Term)
			if t.op == OConst {
				return int(sx(t.k, t.w))
			}
			t = m.c.Resize(t, 64, true)
			if !m.decide(m.c.Bin(OUle, t, tInt(m, limit))) {
				panic(m.goPanic("runtime error: slice bounds out of range"))
			}
			return int(m.concretize(t))
		}
		if mx != nil {
			k = bound(mx, cp)
			if k < 0 || k > cp {
				panic(m.goPanic("runtime error: slice bounds out of range"))
			}
		}
		if hi != nil {
			h = bound(hi, k)
		}
		if lo != nil {
			l = bound(lo, h)
		}
		if h < 0 || h > k || l < 0 || l > h {
			panic(m.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, k)))
		}
		switch ti.kind {
		case KString:
			fr.r[dst] = v.(*Str).sub(l, h)
		case KSlice:
			s := v.(*Slice)
			if s.o == nil {
				fr.r[dst] = s
				return
			}
			fr.r[dst] = &Slice{o: s.o, off: s.off + l*s.esz, len: h - l, cap: k - l, esz: s.esz}
		default:
			p := v.(*Ptr)
			if p.sym != nil {
				panic(unsup("slice of symbolic array pointer"))
			}
			es := ti.elem.elem.size
			fr.r[dst] = &Slice{o: p.o, off: p.off + l*es, len: h - l, cap: k - l, esz: es}
		}
	}
}

func (m *Machine) implements(t *TI, it *TI) bool {
	if r, ok := t.impl[it]; ok {
		return r
	}
	r := types.Implements(t.t, it.u.(*types.Interface))
	if t.impl == nil {
		t.impl = map[*TI]bool{}
	}
	t.impl[it] = r
	return r
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) instr {
	m := c.m
	a := c.op(x.X)
	at := m.typ(x.AssertedType)
	isI := at.kind == KIface
	return func(m *Machine, fr *Frame) {
		v, isf := fr.get(&a).(*Iface)
		if !isf {
			panic(unsup("type assertion on %T", fr.get(&a)))
		}
		ok := false
		if v.t != nil {
			if isI {
				ok = m.implements(v.t, at)
			} else {
				ok = v.t == at
			}
		}
		var r Value
		if ok {
			if isI {
				r = v
			} else {
				r = v.v
			}
		} else {
			if !x.CommaOk {
				panic(m.goPanic("interface conversion: " + at.t.String()))
			}
			r = m.zero(at)
		}
		if x.CommaOk {
			fr.r[dst] = Tuple{r, m.c.Bool(ok)}
		} else {
			fr.r[dst] = r
		}
	}
}

func (m *Machine) lookupMethod(t *TI, f *types.Func) *Fn {
	if t.meth == nil {
		t.meth = map[string]*Fn{}
	}
	id := f.Id()
	if x, ok := t.meth[id]; ok {
		return x
	}
	sf := m.L.prog.LookupMethod(t.t, f.Pkg(), f.Name())
	var x *Fn
	if sf != nil {
		x = m.fn(sf)
	}
	t.meth[id] = x
	return x
}

type callFn func(m *Machine, fr *Frame) Value

func (c *compiler) call(cc *ssa.CallCommon) callFn {
	m := c.m
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(m *Machine, fr *Frame) Value {
			v, ok := fr.get(&recv).(*Iface)
			if !ok {
				panic(unsup("invoke on %T", fr.get(&recv)))
			}
			if v.t == nil {
				panic(m.nilDeref())
			}
			f := m.lookupMethod(v.t, meth)
			if f == nil {
				panic(unsup("method %s not found on %s", meth.Name(), v.t.t))
			}
			av := make([]Value, len(args)+1)
			av[0] = v.v
			for i := range args {
				av[i+1] = fr.get(&args[i])
			}
			return m.call(f, av, nil, false)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := m.builtin(b, cc)
		return func(m *Machine, fr *Frame) Value {
			av := make([]Value, len(args))
			for i := range args {
				av[i] = fr.get(&args[i])
			}
			return f(m, av)
		}
	}
	if f := cc.StaticCallee(); f != nil {
		if _, isMC := cc.Value.(*ssa.MakeClosure); !isMC {
			fn := m.fn(f)
			return func(m *Machine, fr *Frame) Value {
				var buf [8]Value
				av := buf[:0]
				if len(args) > len(buf) || fn.native != nil {
					av = make([]Value, 0, len(args))
				}
				for i := range args {
					av = append(av, fr.get(&args[i]))
				}
				return m.call(fn, av, nil, false)
			}
		}
	}
	fv := c.op(cc.Value)
	return func(m *Machine, fr *Frame) Value {
		cl, ok := fr.get(&fv).(*Closure)
		if !ok {
			panic(unsup("call of %T", fr.get(&fv)))
		}
		av := make([]Value, len(args))
		for i := range args {
			av[i] = fr.get(&args[i])
		}
		return m.callC(cl, av)
	}
}

func (c *compiler) deferInstr(x *ssa.Defer) instr {
	m := c.m
	cc := &x.Call
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	get := func(fr *Frame) []Value {
		av := make([]Value, len(args))
		for i := range args {
			av[i] = fr.get(&args[i])
		}
		return av
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		return func(m *Machine, fr *Frame) {
			v := fr.get(&recv).(*Iface)
			if v.t == nil {
				panic(m.nilDeref())
			}
			f := m.lookupMethod(v.t, cc.Method)
			fr.defers = append(fr.defers, deferred{fn: &Closure{fn: f}, args: append([]Value{v.v}, get(fr)...)})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := m.builtin(b, cc)
		return func(m *Machine, fr *Frame) {
			fr.defers = append(fr.defers, deferred{nat: f, args: get(fr)})
		}
	}
	fv := c.op(cc.Value)
	return func(m *Machine, fr *Frame) {
		cl := fr.get(&fv).(*Closure)
		fr.defers = append(fr.defers, deferred{fn: cl, args: get(fr)})
	}
}

func (c *compiler) binop(x *ssa.BinOp, dst int) instr {
	m := c.m
	a, b := c.op(x.X), c.op(x.Y)
	ti := m.typ(x.X.Type())
	un := func(f func(m *Machine, p, q Value) Value) instr {
		return func(m *Machine, fr *Frame) { fr.r[dst] = f(m, fr.get(&a), fr.get(&b)) }
	}
	switch x.Op {
	case token.EQL:
		if ti.kind == KInt || ti.kind == KBool {
			return func(m *Machine, fr *Frame) { fr.r[dst] = m.c.Eq(fr.get(&a).(*Term), fr.get(&b).(*Term)) }
		}
		return un(func(m *Machine, p, q Value) Value { return m.eq(p, q) })
	case token.NEQ:
		if ti.kind == KInt || ti.kind == KBool {
			return func(m *Machine, fr *Frame) {
				fr.r[dst] = m.c.Not(m.c.Eq(fr.get(&a).(*Term), fr.get(&b).(*Term)))
			}
		}
		return un(func(m *Machine, p, q Value) Value { return m.c.Not(m.eq(p, q)) })
	}
	switch ti.kind {
	case KString:
		switch x.Op {
		case token.ADD:
			return un(func(m *Machine, p, q Value) Value { return m.concat(p.(*Str), q.(*Str)) })
		case token.LSS:
			return un(func(m *Machine, p, q Value) Value { return m.strLess(p.(*Str), q.(*Str), false) })
		case token.LEQ:
			return un(func(m *Machine, p, q Value) Value { return m.strLess(p.(*Str), q.(*Str), true) })
		case token.GTR:
			return un(func(m *Machine, p, q Value) Value { return m.strLess(q.(*Str), p.(*Str), false) })
		case token.GEQ:
			return un(func(m *Machine, p, q Value) Value { return m.strLess(q.(*Str), p.(*Str), true) })
		}
	case KFloat:
		op := x.Op
		return un(func(m *Machine, p, q Value) Value {
			f, g := p.(Float), q.(Float)
			switch op {
			case token.ADD:
				return f + g
			case token.SUB:
				return f - g
			case token.MUL:
				return f * g
			case token.QUO:
				return f / g
			case token.LSS:
				return m.c.Bool(f < g)
			case token.LEQ:
				return m.c.Bool(f <= g)
			case token.GTR:
				return m.c.Bool(f > g)
			case token.GEQ:
				return m.c.Bool(f >= g)
			}
			panic(unsup("float op %s", op))
		})
	case KInt:
		var op Op
		swap, chk, shift := false, false, false
		s := ti.signed
		pick := func(a, b Op) Op {
			if s {
				return a
			}
			return b
		}
		switch x.Op {
		case token.ADD:
			op = OAdd
		case token.SUB:
			op = OSub
		case token.MUL:
			op = OMul
		case token.QUO:
			op, chk = pick(OSDiv, OUDiv), true
		case token.REM:
			op, chk = pick(OSRem, OURem), true
		case token.AND:
			op = OBAnd
		case token.OR:
			op = OBOr
		case token.XOR:
			op = OBXor
		case token.SHL:
			op, shift = OShl, true
		case token.SHR:
			op, shift = pick(OAShr, OLShr), true
		case token.AND_NOT:
			return un(func(m *Machine, p, q Value) Value {
				return m.c.Bin(OBAnd, p.(*Term), m.c.Un(OBNot, q.(*Term)))
			})
		case token.LSS:
			op = pick(OSlt, OUlt)
		case token.LEQ:
			op = pick(OSle, OUle)
		case token.GTR:
			op, swap = pick(OSlt, OUlt), true
		case token.GEQ:
			op, swap = pick(OSle, OUle), true
		default:
			return unsupInstr(x)
		}
		if shift {
			sh := m.typ(x.Y.Type())
			w := ti.w
			return un(func(m *Machine, p, q Value) Value {
				t, n := p.(*Term), q.(*Term)
				if sh.signed {
					if !m.decide(m.c.Not(m.c.Bin(OSlt, n, m.c.Const(0, n.w)))) {
						panic(m.goPanic("runtime error: negative shift amount"))
					}
				}
				if n.w > w {
					big := m.c.Not(m.c.Bin(OUlt, n, m.c.Const(uint64(w), n.w)))
					n = m.c.Ite(big, m.c.Const(uint64(w), w), m.c.Resize(n, w, false))
				} else {
					n = m.c.Resize(n, w, false)
				}
				return m.c.Bin(op, t, n)
			})
		}
		if chk {
			return un(func(m *Machine, p, q Value) Value {
				d := q.(*Term)
				if m.decide(m.c.Eq(d, m.c.Const(0, d.w))) {
					panic(m.goPanic("runtime error: integer divide by zero"))
				}
				return m.c.Bin(op, p.(*Term), d)
			})
		}
		if swap {
			a, b = b, a
		}
		return func(m *Machine, fr *Frame) {
			p, ok1 := fr.get(&a).(*Term)
			q, ok2 := fr.get(&b).(*Term)
			if !ok1 || !ok2 {
				panic(unsup("integer op on non-integers in %s", fr.fn.name))
			}
			fr.r[dst] = m.c.Bin(op, p, q)
		}
	}
	return unsupInstr(x)
}

func (c *compiler) convert(x *ssa.Convert, dst int) instr {
	m := c.m
	a := c.op(x.X)
	from, to := m.typ(x.X.Type()), m.typ(x.Type())
	set := func(f func(m *Machine, v Value) Value) instr {
		return func(m *Machine, fr *Frame) { fr.r[dst] = f(m, fr.get(&a)) }
	}
	switch {
	case from.kind == KInt && to.kind == KInt:
		w, s := to.w, from.signed
		return set(func(m *Machine, v Value) Value {
			t, ok := v.(*Term)
			if !ok {
				panic(unsup("conversion of %T", v))
			}
			return m.c.Resize(t, w, s)
		})
	case from.kind == KInt && to.kind == KFloat:
		return set(func(m *Machine, v Value) Value {
			t := v.(*Term)
			if t.op != OConst {
				panic(unsup("symbolic int to float"))
			}
			if from.signed {
				return Float(sx(t.k, t.w))
			}
			return Float(t.k)
		})
	case from.kind == KFloat && to.kind == KInt:
		return set(func(m *Machine, v Value) Value { return m.c.Const(uint64(int64(v.(Float))), to.w) })
	case from.kind == KFloat && to.kind == KFloat:
		return set(func(m *Machine, v Value) Value { return v })
	case from.kind == KInt && to.kind == KString:
		return set(func(m *Machine, v Value) Value {
			return m.runeToStr(m.c.Resize(v.(*Term), 32, from.signed))
		})
	case from.kind == KString && to.kind == KSlice:
		if to.elem.w == 8 {
			return set(func(m *Machine, v Value) Value { return m.strToBytes(v.(*Str)) })
		}
		return set(func(m *Machine, v Value) Value {
			it := &strIter{s: v.(*Str)}
			var s []Value
			for it.p < len(it.s.b) {
				s = append(s, m.nextRune(it).(Tuple)[2])
			}
			return &Slice{o: m.objOf(s), len: len(s), cap: len(s), esz: 1}
		})
	case from.kind == KSlice && to.kind == KString:
		if from.elem.w == 8 {
			return set(func(m *Machine, v Value) Value { return m.bytesToStr(v.(*Slice)) })
		}
		return set(func(m *Machine, v Value) Value {
			sl := v.(*Slice)
			r := emptyStr
			for i := 0; i < sl.len; i++ {
				r = m.concat(r, m.runeToStr(sl.o.s[sl.off+i].(*Term)))
			}
			return r
		})
	case (from.kind == KPtr || from.kind == KUnsafe) && (to.kind == KPtr || to.kind == KUnsafe):
		return set(func(m *Machine, v Value) Value { return v })
	case from.kind == to.kind && from.kind != KInt && from.kind != KKindUnsafeInt:
		return set(func(m *Machine, v Value) Value { return v })
	}
	return unsupInstr(x)
}

const KKindUnsafeInt = Kind(255)

// runeToStr encodes a (possibly symbolic) rune, forking over its encoded length.
func (m *Machine) runeToStr(r *Term) *Str {
	if r.op == OConst {
		return m.str(string(rune(int32(sx(r.k, r.w)))))
	}
	c := m.c
	k := func(v uint64) *Term { return c.Const(v, 32) }
	byt := func(t *Term) *Term { return c.Resize(t, 8, false) }
	cont := func(sh uint64) *Term {
		return byt(c.Bin(OBOr, c.Bin(OBAnd, c.Bin(OLShr, r, k(sh)), k(0x3f)), k(0x80)))
	}
	if m.decide(c.Bin(OUlt, r, k(0x80))) {
		return m.mkStr([]*Term{byt(r)})
	}
	if m.decide(c.Bin(OUlt, r, k(0x800))) {
		return m.mkStr([]*Term{byt(c.Bin(OBOr, c.Bin(OLShr, r, k(6)), k(0xc0))), cont(0)})
	}
	bad := c.Or(c.Bin(OUlt, k(0x10ffff), r), c.And(c.Bin(OUle, k(0xd800), r), c.Bin(OUle, r, k(0xdfff))))
	if m.decide(bad) {
		return m.str("\uFFFD")
	}
	if m.decide(c.Bin(OUlt, r, k(0x10000))) {
		return m.mkStr([]*Term{byt(c.Bin(OBOr, c.Bin(OLShr, r, k(12)), k(0xe0))), cont(6), cont(0)})
	}
	return m.mkStr([]*Term{byt(c.Bin(OBOr, c.Bin(OLShr, r, k(18)), k(0xf0))), cont(12), cont(6), cont(0)})
}
