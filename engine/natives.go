package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var gcSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(size int, noscan bool) int {
	req := size
	if !noscan && size > 512 {
		size += 8
	}
	if size <= 32768 {
		for _, c := range sizeClasses {
			if c >= size {
				return c - (size - req)
			}
		}
	}
	return (req + 8191) &^ 8191
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPtr(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func growCap(newLen, oldCap int, et types.Type) int {
	newcap := oldCap
	if newLen > 2*oldCap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = 2 * oldCap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	sz := int(gcSizes.Sizeof(et))
	if sz == 0 {
		return newLen
	}
	return roundup(newcap*sz, !hasPtr(et)) / sz
}

func (m *Machine) appendVals(s *Slice, et *TI, vals []Value, n int) *Slice {
	if n == 0 {
		return s
	}
	esz := et.size
	nl := s.len + n
	if nl <= s.cap {
		base := s.off + s.len*esz
		for i, v := range vals {
			m.set(s.o, base+i, v)
		}
		return &Slice{o: s.o, off: s.off, len: nl, cap: s.cap, esz: esz}
	}
	k := growCap(nl, s.cap, et.t)
	x := make([]Value, 0, k*esz)
	if s.len > 0 {
		x = append(x, s.o.s[s.off:s.off+s.len*esz]...)
	}
	x = append(x, vals...)
	if k > nl {
		if et.agg() {
			one := m.zeroInto(et, nil)
			for i := nl; i < k; i++ {
				x = append(x, one...)
			}
		} else {
			z := m.zero(et)
			for i := nl; i < k; i++ {
				x = append(x, z)
			}
		}
	}
	return &Slice{o: m.objOf(x), len: nl, cap: k, esz: esz}
}

func (m *Machine) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(m *Machine, a []Value) Value {
	at := func(i int) *TI { return m.typ(cc.Args[i].Type()) }
	switch b.Name() {
	case "len":
		switch ti := at(0); ti.kind {
		case KArray:
			return func(m *Machine, a []Value) Value { return tInt(m, ti.n) }
		case KPtr:
			return func(m *Machine, a []Value) Value { return tInt(m, ti.elem.n) }
		}
		return func(m *Machine, a []Value) Value {
			switch x := a[0].(type) {
			case *Str:
				return tInt(m, len(x.b))
			case *Slice:
				return tInt(m, x.len)
			case *MapObj:
				return tInt(m, x.count())
			}
			panic(unsup("len of %T", a[0]))
		}
	case "cap":
		return func(m *Machine, a []Value) Value {
			switch x := a[0].(type) {
			case *Slice:
				return tInt(m, x.cap)
			}
			panic(unsup("cap of %T", a[0]))
		}
	case "append":
		et := at(0).elem
		return func(m *Machine, a []Value) Value {
			s := a[0].(*Slice)
			switch y := a[1].(type) {
			case *Slice:
				if y.len == 0 {
					return s
				}
				v := append([]Value(nil), y.o.s[y.off:y.off+y.len*y.esz]...)
				return m.appendVals(s, et, v, y.len)
			case *Str:
				v := make([]Value, len(y.b))
				for i, t := range y.b {
					v[i] = t
				}
				return m.appendVals(s, et, v, len(v))
			}
			panic(unsup("append of %T", a[1]))
		}
	case "copy":
		return func(m *Machine, a []Value) Value {
			d := a[0].(*Slice)
			switch y := a[1].(type) {
			case *Slice:
				n := d.len
				if y.len < n {
					n = y.len
				}
				if n == 0 {
					return tInt(m, 0)
				}
				v := append([]Value(nil), y.o.s[y.off:y.off+n*y.esz]...)
				for i, x := range v {
					m.set(d.o, d.off+i, x)
				}
				return tInt(m, n)
			case *Str:
				n := d.len
				if len(y.b) < n {
					n = len(y.b)
				}
				for i := 0; i < n; i++ {
					m.set(d.o, d.off+i, y.b[i])
				}
				return tInt(m, n)
			}
			panic(unsup("copy from %T", a[1]))
		}
	case "delete":
		return func(m *Machine, a []Value) Value {
			if mo, _ := a[0].(*MapObj); mo != nil {
				m.mapDelete(mo, a[1])
			}
			return nil
		}
	case "clear":
		ti := at(0)
		return func(m *Machine, a []Value) Value {
			switch x := a[0].(type) {
			case *MapObj:
				if x != nil {
					m.mapTouch(x)
					x.e, x.idx, x.nsym = nil, map[interface{}]int{}, 0
				}
			case *Slice:
				for i := 0; i < x.len; i++ {
					m.store(&Ptr{o: x.o, off: x.off + i*x.esz}, ti.elem, m.zero(ti.elem))
				}
			}
			return nil
		}
	case "min", "max":
		ti := at(0)
		mx := b.Name() == "max"
		return func(m *Machine, a []Value) Value {
			r := a[0]
			for _, v := range a[1:] {
				switch ti.kind {
				case KInt:
					op := OUlt
					if ti.signed {
						op = OSlt
					}
					p, q := v.(*Term), r.(*Term)
					g := m.c.Bin(op, p, q)
					if mx {
						g = m.c.Bin(op, q, p)
					}
					r = m.c.Ite(g, p, q)
				default:
					panic(unsup("min/max"))
				}
			}
			return r
		}
	case "recover":
		return func(m *Machine, a []Value) Value {
			fr := m.curFrame
			if fr != nil && fr.isDefer && fr.caller != nil && fr.caller.panicking != nil && !fr.caller.recovered {
				fr.caller.recovered = true
				return fr.caller.panicking.val
			}
			return nilIface
		}
	case "print", "println":
		return func(m *Machine, a []Value) Value { return nil }
	case "ssa:wrapnilchk":
		return func(m *Machine, a []Value) Value {
			if p, ok := a[0].(*Ptr); ok && p.o == nil {
				panic(m.nilDeref())
			}
			return a[0]
		}
	case "String":
		return func(m *Machine, a []Value) Value {
			p := a[0].(*Ptr)
			n := m.intArg(a[1])
			if n == 0 {
				return emptyStr
			}
			return m.bytesToStr(&Slice{o: p.o, off: p.off, len: n, cap: n, esz: 1})
		}
	case "StringData":
		return func(m *Machine, a []Value) Value {
			s := m.strToBytes(a[0].(*Str))
			return &Ptr{o: s.o}
		}
	case "SliceData":
		return func(m *Machine, a []Value) Value {
			s := a[0].(*Slice)
			return &Ptr{o: s.o, off: s.off}
		}
	case "Slice":
		es := at(0).elem.size
		return func(m *Machine, a []Value) Value {
			p := a[0].(*Ptr)
			n := m.intArg(a[1])
			return &Slice{o: p.o, off: p.off, len: n, cap: n, esz: es}
		}
	}
	nm := b.Name()
	return func(m *Machine, a []Value) Value { panic(unsup("builtin %s", nm)) }
}

// ---- native models of library functions without a Go body or with an unsuitable one

func bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return x.b
	case *Slice:
		b := make([]*Term, x.len)
		for i := range b {
			b[i] = x.o.s[x.off+i].(*Term)
		}
		return b
	}
	panic(unsup("bytes of %T", v))
}

func (m *Machine) indexByte(b []*Term, c *Term) Value {
	for i, t := range b {
		if m.decide(m.c.Eq(t, c)) {
			return tInt(m, i)
		}
	}
	return tInt(m, -1)
}

func (m *Machine) indexSub(b, sub []*Term) Value {
	n := len(sub)
	for i := 0; i+n <= len(b); i++ {
		if m.decide(m.strEq(m.mkStr(b[i:i+n]), m.mkStr(sub))) {
			return tInt(m, i)
		}
	}
	return tInt(m, -1)
}

func (m *Machine) lastIndexSub(b, sub []*Term) Value {
	n := len(sub)
	for i := len(b) - n; i >= 0; i-- {
		if m.decide(m.strEq(m.mkStr(b[i:i+n]), m.mkStr(sub))) {
			return tInt(m, i)
		}
	}
	return tInt(m, -1)
}

func (m *Machine) compare(a, b *Str) Value {
	if m.decide(m.strEq(a, b)) {
		return tInt(m, 0)
	}
	if m.decide(m.strLess(a, b, false)) {
		return tInt(m, -1)
	}
	return tInt(m, 1)
}

func (m *Machine) opaqueErr() Value {
	if m.errStrTI == nil {
		return &Iface{m.strTI, m.str("<fmt>")}
	}
	return &Iface{m.errStrTI, &Ptr{o: m.objOf([]Value{m.str("<fmt>")})}}
}

var natives map[string]func(m *Machine, a []Value) Value

func noop(m *Machine, a []Value) Value  { return nil }
func ident(m *Machine, a []Value) Value { return a[0] }

func (m *Machine) insertionSort(s *Slice, less *Closure, max int) {
	if s.len > max {
		panic(unsup("sort of more than %d elements", max))
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			r := m.callC(less, []Value{tInt(m, j), tInt(m, j-1)})
			if !m.decide(r.(*Term)) {
				break
			}
			for k := 0; k < s.esz; k++ {
				x, y := s.off+j*s.esz+k, s.off+(j-1)*s.esz+k
				p, q := s.o.s[x], s.o.s[y]
				m.set(s.o, x, q)
				m.set(s.o, y, p)
			}
		}
	}
}

func init() {
	natives = map[string]func(m *Machine, a []Value) Value{
		"internal/bytealg.IndexByte":       func(m *Machine, a []Value) Value { return m.indexByte(bytesOf(a[0]), a[1].(*Term)) },
		"internal/bytealg.IndexByteString": func(m *Machine, a []Value) Value { return m.indexByte(bytesOf(a[0]), a[1].(*Term)) },
		"internal/bytealg.Count":           countNative,
		"internal/bytealg.CountString":     countNative,
		"internal/bytealg.Compare": func(m *Machine, a []Value) Value {
			return m.compare(m.mkStr(bytesOf(a[0])), m.mkStr(bytesOf(a[1])))
		},
		"internal/bytealg.CompareString": func(m *Machine, a []Value) Value { return m.compare(a[0].(*Str), a[1].(*Str)) },
		"internal/bytealg.Equal": func(m *Machine, a []Value) Value {
			return m.strEq(m.mkStr(bytesOf(a[0])), m.mkStr(bytesOf(a[1])))
		},
		"bytes.Equal": func(m *Machine, a []Value) Value {
			return m.strEq(m.mkStr(bytesOf(a[0])), m.mkStr(bytesOf(a[1])))
		},
		"internal/bytealg.Index":       func(m *Machine, a []Value) Value { return m.indexSub(bytesOf(a[0]), bytesOf(a[1])) },
		"internal/bytealg.IndexString": func(m *Machine, a []Value) Value { return m.indexSub(bytesOf(a[0]), bytesOf(a[1])) },
		"internal/stringslite.Index":   func(m *Machine, a []Value) Value { return m.indexSub(bytesOf(a[0]), bytesOf(a[1])) },
		"math/rand.Intn":               randNative(64),
		"math/rand.Int31n":             randNative(32),
		"math/rand.Int63n":             randNative(64),
		"strings.Index":                func(m *Machine, a []Value) Value { return m.indexSub(bytesOf(a[0]), bytesOf(a[1])) },
		"bytes.Index":                  func(m *Machine, a []Value) Value { return m.indexSub(bytesOf(a[0]), bytesOf(a[1])) },
		"strings.LastIndex":            func(m *Machine, a []Value) Value { return m.lastIndexSub(bytesOf(a[0]), bytesOf(a[1])) },
		"bytes.LastIndex":              func(m *Machine, a []Value) Value { return m.lastIndexSub(bytesOf(a[0]), bytesOf(a[1])) },
		"strings.IndexRune":            indexRuneNative,
		"internal/bytealg.MakeNoZero": func(m *Machine, a []Value) Value {
			n := m.intArg(a[0])
			c := roundup(n, true)
			s := m.makeSlice(m.typ(types.Typ[types.Uint8]), c, c)
			s.len = n
			return s
		},
		"internal/abi.NoEscape":            ident,
		"internal/abi.Escape":              ident,
		"(*sync.Mutex).Lock":               lock,
		"(*sync.Mutex).Unlock":             unlock,
		"(*sync.RWMutex).Lock":             lock,
		"(*sync.RWMutex).Unlock":           unlock,
		"(*sync.RWMutex).RLock":            noop,
		"(*sync.RWMutex).RUnlock":          noop,
		"(*internal/sync.Mutex).Lock":      lock,
		"(*internal/sync.Mutex).Unlock":    unlock,
		"(*sync.Pool).Put":                 poolPut,
		"runtime.KeepAlive":                noop,
		"runtime.GC":                       noop,
		"(*sync.Pool).Get":                 poolGet,
		"sync/atomic.LoadUint32":           atomicLoad(types.Uint32),
		"sync/atomic.LoadInt32":            atomicLoad(types.Int32),
		"sync/atomic.LoadUint64":           atomicLoad(types.Uint64),
		"sync/atomic.LoadInt64":            atomicLoad(types.Int64),
		"sync/atomic.StoreUint32":          atomicStore,
		"sync/atomic.StoreInt32":           atomicStore,
		"sync/atomic.StoreUint64":          atomicStore,
		"sync/atomic.StoreInt64":           atomicStore,
		"sync/atomic.AddInt64":             atomicAdd,
		"sync/atomic.AddInt32":             atomicAdd,
		"sync/atomic.AddUint32":            atomicAdd,
		"sync/atomic.AddUint64":            atomicAdd,
		"sync/atomic.CompareAndSwapInt32":  atomicCAS,
		"sync/atomic.CompareAndSwapInt64":  atomicCAS,
		"sync/atomic.CompareAndSwapUint32": atomicCAS,
		"sync/atomic.CompareAndSwapUint64": atomicCAS,
		"sync/atomic.SwapInt32":            atomicSwap,
		"sync/atomic.SwapInt64":            atomicSwap,
		"sync/atomic.SwapUint32":           atomicSwap,
		"sync/atomic.SwapUint64":           atomicSwap,
		"fmt.Errorf":                       errorf,
		"errors.Is":                        errorsIs,
		"fmt.Sprintf":                      sprintf,
		"fmt.Sprint":                       sprint,
		"fmt.Sprintln":                     func(m *Machine, a []Value) Value { return m.str("<fmt>") },
		"fmt.Println":                      func(m *Machine, a []Value) Value { return Tuple{tInt(m, 0), nilIface} },
		"fmt.Printf":                       func(m *Machine, a []Value) Value { return Tuple{tInt(m, 0), nilIface} },
		"fmt.Fprintf":                      func(m *Machine, a []Value) Value { return Tuple{tInt(m, 0), nilIface} },
		"sort.Slice": func(m *Machine, a []Value) Value {
			if a[0].(*Iface).v.(*Slice).len > 12 {
				// the real algorithm, as sort.Sort has it
				m.call(m.fn(m.L.h.Func("sortSlice")), a, nil, false)
				return nil
			}
			m.insertionSort(a[0].(*Iface).v.(*Slice), a[1].(*Closure), 12)
			return nil
		},
		"sort.SliceStable": func(m *Machine, a []Value) Value {
			m.insertionSort(a[0].(*Iface).v.(*Slice), a[1].(*Closure), 20)
			return nil
		},
	}
}

func countNative(m *Machine, a []Value) Value {
	n := 0
	for _, t := range bytesOf(a[0]) {
		if m.decide(m.c.Eq(t, a[1].(*Term))) {
			n++
		}
	}
	return tInt(m, n)
}

func indexRuneNative(m *Machine, a []Value) Value {
	s, r := a[0].(*Str), a[1].(*Term)
	// Equivalent to scanning rune by rune (also for RuneError and invalid runes).
	bad := m.c.Or(m.c.Bin(OUlt, m.c.Const(0x10ffff, 32), r), m.c.And(m.c.Bin(OUle, m.c.Const(0xd800, 32), r), m.c.Bin(OUle, r, m.c.Const(0xdfff, 32))))
	if m.decide(bad) {
		return tInt(m, -1)
	}
	it := &strIter{s: s}
	for it.p < len(s.b) {
		p := it.p
		t := m.nextRune(it).(Tuple)[2].(*Term)
		if m.decide(m.c.Eq(t, r)) {
			return tInt(m, p)
		}
	}
	return tInt(m, -1)
}

type poolKey struct {
	o   *Obj
	off int
}

// a pool gives back what was put last, as it does for one thread
func poolPut(m *Machine, a []Value) Value {
	x, ok := a[1].(*Iface)
	if m.initing || !ok || x.t == nil {
		return nil
	}
	p := a[0].(*Ptr)
	if m.pools == nil {
		m.pools = map[poolKey][]Value{}
	}
	k := poolKey{p.o, p.off}
	m.pools[k] = append(m.pools[k], x)
	return nil
}

// owned says that everything behind v now belongs to its only user
func (m *Machine) owned(v Value) {
	obj := func(o *Obj) {
		if o == nil || o.seq <= m.initSeq || o.seq > m.frozen {
			return
		}
		m.seq++
		o.seq = m.seq
		for _, x := range o.s {
			m.owned(x)
		}
	}
	switch x := v.(type) {
	case *Ptr:
		if x != nil {
			obj(x.o)
		}
	case *Slice:
		if x != nil {
			obj(x.o)
		}
	case *Iface:
		if x != nil {
			m.owned(x.v)
		}
	case Agg:
		for _, y := range x {
			m.owned(y)
		}
	case *MapObj:
		if x != nil && x.seq > m.initSeq && x.seq <= m.frozen {
			m.seq++
			x.seq = m.seq
			for _, e := range x.e {
				m.owned(e.v)
			}
		}
	}
}

func poolGet(m *Machine, a []Value) Value {
	p := a[0].(*Ptr)
	k := poolKey{p.o, p.off}
	if l := m.pools[k]; len(l) > 0 && !m.initing {
		x := l[len(l)-1]
		m.pools[k] = l[:len(l)-1]
		if m.frozen >= 0 {
			m.owned(x)
		}
		return x
	}
	pk := m.L.prog.ImportedPackage("sync")
	st := m.typ(pk.Type("Pool").Type())
	u := st.u.(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "New" {
			cl, _ := p.o.s[p.off+st.fields[i].off].(*Closure)
			if cl == nil {
				return nilIface
			}
			return m.callC(cl, nil)
		}
	}
	panic(unsup("sync.Pool layout"))
}

// a mutex is a ghost: what is written while it is held is guarded
func lock(m *Machine, a []Value) Value   { m.ghosts++; return nil }
func unlock(m *Machine, a []Value) Value { m.ghosts--; return nil }

func atomicLoad(k types.BasicKind) func(m *Machine, a []Value) Value {
	return func(m *Machine, a []Value) Value { return m.load(a[0].(*Ptr), m.typ(types.Typ[k])) }
}
func atomicStore(m *Machine, a []Value) Value {
	p := a[0].(*Ptr)
	m.ghosts++
	m.set(p.o, p.off, a[1])
	m.ghosts--
	return nil
}
func atomicAdd(m *Machine, a []Value) Value {
	p := a[0].(*Ptr)
	v := m.c.Bin(OAdd, p.o.s[p.off].(*Term), a[1].(*Term))
	m.ghosts++
	m.set(p.o, p.off, v)
	m.ghosts--
	return v
}

func atomicCAS(m *Machine, a []Value) Value {
	p := a[0].(*Ptr)
	if !m.decide(m.c.Eq(p.o.s[p.off].(*Term), a[1].(*Term))) {
		return m.c.Bool(false)
	}
	atomicStore(m, []Value{p, a[2]})
	return m.c.Bool(true)
}

func atomicSwap(m *Machine, a []Value) Value {
	p := a[0].(*Ptr)
	v := p.o.s[p.off]
	atomicStore(m, a)
	return v
}

var initStd = map[string]bool{"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "strings": true, "bytes": true, "strconv": true,
	"math": true, "math/bits": true, "sort": true, "slices": true, "maps": true, "cmp": true, "io": true, "regexp": true, "regexp/syntax": true,
	"internal/stringslite": true, "iter": true, "internal/strconv": true, "errors": false, "container/heap": true, "container/list": true}

// packages whose functions may run although their init was not executed
var noInitOK = map[string]bool{"errors": true, "sync": true, "sync/atomic": true, "internal/race": true, "internal/abi": true, "internal/bytealg": false, "internal/sync": true, "internal/byteorder": true}

func isStd(path string) bool {
	i := strings.IndexByte(path, '/')
	if i < 0 {
		i = len(path)
	}
	return !strings.Contains(path[:i], ".")
}

func (m *Machine) initAllowed(p *ssa.Package) bool {
	if v, ok := m.inited[p]; ok {
		return v == 1
	}
	path := p.Pkg.Path()
	v := 0
	if !isStd(path) || initStd[path] {
		v = 1
	}
	m.inited[p] = v
	return v == 1
}

func (m *Machine) usesGlobals(fn *Fn) bool {
	if fn.hasG != 0 {
		return fn.hasG == 2
	}
	fn.hasG = 1
	if fn.pkg != nil && noInitOK[fn.pkg.Pkg.Path()] {
		return false
	}
	for _, b := range fn.f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && !m.initAllowed(g.Pkg) {
					fn.hasG = 2
				}
			}
		}
	}
	return fn.hasG == 2
}

// ---- harness API

func name(v Value) string {
	s := v.(*Str)
	if !s.isC && len(s.b) > 0 {
		panic(unsup("symbolic name"))
	}
	return s.conc
}

var symNatives map[string]func(m *Machine, a []Value) Value

func (m *Machine) termArg(v Value) *Term { return v.(*Term) }

func (m *Machine) input(n string, kind byte, w uint8) *Term {
	if m.initing {
		panic(unsup("symbolic input during init"))
	}
	i := m.nvar
	t := m.newVar(n, w)
	m.inputs = append(m.inputs, inputRec{name: n, v: i, kind: kind})
	return t
}

func init() {
	symNatives = map[string]func(m *Machine, a []Value) Value{
		"Byte": func(m *Machine, a []Value) Value { return m.input(name(a[0]), 'b', 8) },
		"Bool": func(m *Machine, a []Value) Value { return m.input(name(a[0]), 'o', 0) },
		"Int":  func(m *Machine, a []Value) Value { return m.input(name(a[0]), 'i', 64) },
		"Rune": func(m *Machine, a []Value) Value { return m.input(name(a[0]), 'r', 32) },
		"Choice": func(m *Machine, a []Value) Value {
			n := m.intArg(a[1])
			if n <= 0 {
				panic(pathEnd{why: "assume"})
			}
			k := m.choose(n)
			m.inputs = append(m.inputs, inputRec{name: name(a[0]), v: -1, k: int64(k), kind: 'c'})
			return tInt(m, k)
		},
		"Param": func(m *Machine, a []Value) Value {
			if v, ok := m.cfg.Params[name(a[0])]; ok {
				return tInt(m, v)
			}
			return a[1]
		},
		"Assume": func(m *Machine, a []Value) Value { m.assume(a[0].(*Term)); return nil },
		"Assert": func(m *Machine, a []Value) Value { m.assert(a[0].(*Term), name(a[1])); return nil },
		"And":    func(m *Machine, a []Value) Value { return m.c.And(a[0].(*Term), a[1].(*Term)) },
		"Or":     func(m *Machine, a []Value) Value { return m.c.Or(a[0].(*Term), a[1].(*Term)) },
		"Never": func(m *Machine, a []Value) Value {
			t := a[0].(*Term)
			return m.c.Bool(t == m.c.Bool(false))
		},
		"Not": func(m *Machine, a []Value) Value { return m.c.Not(a[0].(*Term)) },
		"Implies": func(m *Machine, a []Value) Value {
			return m.c.Or(m.c.Not(a[0].(*Term)), a[1].(*Term))
		},
		"Iff": func(m *Machine, a []Value) Value { return m.c.Eq(a[0].(*Term), a[1].(*Term)) },
		"IteInt": func(m *Machine, a []Value) Value {
			return m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"IteBool": func(m *Machine, a []Value) Value {
			return m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"Concrete":     func(m *Machine, a []Value) Value { return tInt(m, m.intArg(a[0])) },
		"ConcreteBool": func(m *Machine, a []Value) Value { return m.c.Bool(m.decide(a[0].(*Term))) },
		"ObserveInt":   observe,
		"ObserveBool":  observe,
		"ObserveStr":   observe,
		"Cover": func(m *Machine, a []Value) Value {
			m.covers = append(m.covers, name(a[0]))
			return nil
		},
		"Freeze": func(m *Machine, a []Value) Value { m.frozen = m.seq; return nil },
		"ReadOnly": func(m *Machine, a []Value) Value {
			m.frozen = m.seq
			m.callC(a[0].(*Closure), nil)
			m.frozen = -1
			return nil
		},
		"SliceLen": func(m *Machine, a []Value) Value { return tInt(m, a[0].(*Iface).v.(*Slice).len) },
		"SliceSwap": func(m *Machine, a []Value) Value {
			s := a[0].(*Iface).v.(*Slice)
			i, j := m.intArg(a[1]), m.intArg(a[2])
			for k := 0; k < s.esz; k++ {
				x, y := s.off+i*s.esz+k, s.off+j*s.esz+k
				p, q := s.o.s[x], s.o.s[y]
				m.set(s.o, x, q)
				m.set(s.o, y, p)
			}
			return nil
		},
		"Often":    func(m *Machine, a []Value) Value { m.callC(a[0].(*Closure), nil); return nil },
		"Unfreeze": func(m *Machine, a []Value) Value { m.frozen = -1; return nil },
	}
}

func observe(m *Machine, a []Value) Value {
	m.obs = append(m.obs, obsRec{name(a[0]), a[1]})
	return nil
}

func (m *Machine) evalObs(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(m.c.Eval(x, m.model) != 0)
		}
		return fmt.Sprint(sx(m.c.Eval(x, m.model), x.w))
	case *Str:
		return fmt.Sprintf("%q", m.showStr(x))
	}
	return "?"
}

// randNative: a random number is any number, which is not an input of the harness.
func randNative(w uint8) func(m *Machine, a []Value) Value {
	return func(m *Machine, a []Value) Value {
		n := m.intArg(a[0])
		if n <= 0 {
			panic(m.goPanic("invalid argument to Intn"))
		}
		return m.c.Const(uint64(m.choose(n)), w)
	}
}
