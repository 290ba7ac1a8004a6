package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// RunCfg is one exploration: a harness with concrete parameters.
type RunCfg struct {
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params,omitempty"`
	Weight   float64        `json:"weight,omitempty"` // share of the time budget
	Steps    int64          `json:"steps,omitempty"`
	Note     string         `json:"note,omitempty"`
	thorough bool
}

func (c *RunCfg) maxSteps() int64 {
	if c.Steps > 0 {
		return c.Steps
	}
	return 3000000
}
func (c *RunCfg) crossEvery() int64 {
	if c.thorough {
		return 50
	}
	return 400
}
func (c *RunCfg) domCross() int64 {
	if c.thorough {
		return 100
	}
	return 300
}

// Case is a concrete input assignment of a harness.
type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []int64        `json:"inputs"`
	Names   []string       `json:"names,omitempty"`
	Kind    string         `json:"kind,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Obs     []string       `json:"obs,omitempty"`
	Native  string         `json:"native,omitempty"`
	Covers  []string       `json:"covers,omitempty"`
}

type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	tasks    []task
	active   int
	done     bool
	stop     int32
	deadline time.Time
	L        *Loaded
	cfg      *RunCfg
	rep      *Replayer
	known    []KnownFinding
	prop     string

	Violations  []Case
	Known       map[string]Case
	Unconfirmed []Case
	Samples     []Case
	sampleEvery int64
	npaths      int64
	incomplete  map[string]int64
	maxDepth    int
}

func (e *Explorer) push(t task) {
	e.mu.Lock()
	e.tasks = append(e.tasks, t)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() (task, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if atomic.LoadInt32(&e.stop) != 0 {
			return task{}, false
		}
		if n := len(e.tasks); n > 0 {
			t := e.tasks[n-1]
			e.tasks = e.tasks[:n-1]
			e.active++
			return t, true
		}
		if e.active == 0 {
			e.done = true
			e.cond.Broadcast()
			return task{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) finish() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.tasks) == 0 {
		e.done = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) halt() {
	atomic.StoreInt32(&e.stop, 1)
	e.cond.Broadcast()
}

func (m *Machine) curCase() Case {
	c := Case{Harness: m.cfg.Harness, Params: m.cfg.Params}
	for _, in := range m.inputs {
		k := in.k
		if in.v >= 0 {
			w := m.c.vinfo[in.v].w
			k = int64(m.model[in.v] & maskw(w))
			if in.kind == 'i' || in.kind == 'r' {
				k = sx(m.model[in.v], w)
			}
		}
		c.Inputs = append(c.Inputs, k)
		c.Names = append(c.Names, in.name)
	}
	return c
}

// report replays a suspected violation against the real code.
func (e *Explorer) report(m *Machine, kind, msg string) {
	c := m.curCase()
	c.Kind, c.Msg = kind, msg
	e.mu.Lock()
	if len(e.Violations) > 0 || len(e.Unconfirmed) > 60 {
		e.mu.Unlock()
		return
	}
	e.mu.Unlock()
	r := e.rep.Run(c)
	c.Native = r.String()
	e.mu.Lock()
	defer e.mu.Unlock()
	if r.Confirms() {
		for _, k := range e.known {
			if k.matches(e.prop, c, r) {
				if _, ok := e.Known[k.What]; !ok {
					e.Known[k.What] = c
				}
				return
			}
		}
		e.Violations = append(e.Violations, c)
		atomic.StoreInt32(&e.stop, 1)
		e.cond.Broadcast()
		return
	}
	if kind == "steps" {
		e.incomplete["a path exceeded the step bound (native run finished)"]++
		return
	}
	e.Unconfirmed = append(e.Unconfirmed, c)
}

func (m *Machine) runInit() (err error) {
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case unsupErr:
				err = fmt.Errorf("init: %s (in %s)", v.msg, m.where())
			case *goPanic:
				err = fmt.Errorf("init panics: %s", v.msg)
			default:
				panic(x)
			}
		}
	}()
	m.initing = true
	m.limit = 1 << 60
	m.call(m.fn(m.L.h.Func("init")), nil, nil, false)
	m.initing = false
	m.initSeq = m.seq
	return nil
}

func (m *Machine) reset(t *task) {
	m.pc = m.pc[:0]
	m.multi = VarSet{}
	m.fixed = VarSet{}
	m.nvar = 0
	m.domVer++
	m.simpMemo = nil
	m.inputs = m.inputs[:0]
	m.obs = m.obs[:0]
	m.covers = m.covers[:0]
	m.steps = 0
	m.limit = 20000
	m.depth = 0
	m.curFrame = nil
	m.frozen = -1
	m.pools = nil
	m.wraps = nil
	m.ghosts = 0
	m.last = nil
	m.pos = 0
	m.forced = m.forced[:0]
	if t.node != nil {
		n := t.node.n
		if cap(m.forced) < n {
			m.forced = make([]*decNode, n, 2*n+16)
		} else {
			m.forced = m.forced[:n]
		}
		for d := t.node; d != nil; d = d.parent {
			n--
			m.forced[n] = d
		}
	}
	if len(m.model) < maxVars {
		m.model = make([]uint64, maxVars)
	}
	for i := range m.model {
		m.model[i] = 0
	}
	copy(m.model, t.model)
}

func (m *Machine) runPath(t *task) {
	m.reset(t)
	m.St.Paths++
	defer m.rollback()
	defer func() {
		m.St.Steps += m.steps
		x := recover()
		switch v := x.(type) {
		case nil:
		case pathEnd:
			switch v.why {
			case "assume":
				m.St.Assumed++
			case "steps":
				m.St.StepLimit++
				m.ex.report(m, "steps", "execution does not finish within the step bound (suspected endless loop)")
			case "depth":
				m.ex.report(m, "depth", "call depth bound exceeded (suspected endless recursion)")
			case "deadline":
				m.ex.mu.Lock()
				m.ex.incomplete["time budget used up"]++
				m.ex.mu.Unlock()
			case "unknown":
				m.Unsup[v.msg]++
			}
		case unsupErr:
			m.St.Unsupported++
			m.Unsup[v.msg]++
		case *goPanic:
			m.ex.report(m, "panic", "panic: "+v.msg)
		default:
			w := m.where()
			panic(fmt.Sprintf("engine failure in %s: %v\n%s", w, x, debug.Stack()))
		}
	}()
	f := m.L.h.Func(m.cfg.Harness)
	if f == nil {
		panic(unsup("no harness %s", m.cfg.Harness))
	}
	m.call(m.fn(f), nil, nil, false)
	if m.pos < len(m.forced) {
		panic("engine: path ended before its forced decisions")
	}
	m.St.Completed++
	for _, c := range m.covers {
		m.Covers[c]++
	}
	n := atomic.AddInt64(&m.ex.npaths, 1)
	if n%atomic.LoadInt64(&m.ex.sampleEvery) == 0 {
		c := m.curCase()
		for _, o := range m.obs {
			c.Obs = append(c.Obs, o.name+"="+m.evalObs(o.v))
		}
		m.ex.mu.Lock()
		m.ex.Samples = append(m.ex.Samples, c)
		if len(m.ex.Samples) >= 1200 {
			// keep every second sample
			s := m.ex.Samples[:0]
			for i, x := range m.ex.Samples {
				if i%2 == 0 {
					s = append(s, x)
				}
			}
			m.ex.Samples = s
			m.ex.sampleEvery *= 2
		}
		m.ex.mu.Unlock()
	}
}

type RunResult struct {
	Cfg         RunCfg
	Stats       PathStats
	Solver      SolverStat
	Cross       SolverStat
	Violations  []Case
	Known       map[string]Case
	Unconfirmed []Case
	Samples     []Case
	Incomplete  map[string]int64
	Covers      map[string]int64
	Left        int
	Fns         map[string]FnHits // blocks hit
	LibFns      int
	Wall        time.Duration
	Complete    bool
	Vars        int
	Forks       map[string]int
}

type Pool struct {
	L     *Loaded
	ms    []*Machine
	n     int
	err   error
	z3    string
	cross string
}

func NewPool(L *Loaded, n int) *Pool {
	return &Pool{L: L, n: n, z3: "z3", cross: "cvc5"}
}

func (p *Pool) Run(cfg *RunCfg, rep *Replayer, known []KnownFinding, prop string, deadline time.Time) (*RunResult, error) {
	t0 := time.Now()
	ex := &Explorer{L: p.L, cfg: cfg, rep: rep, known: known, prop: prop, deadline: deadline, sampleEvery: 1, incomplete: map[string]int64{}, Known: map[string]Case{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.tasks = []task{{}}
	res := &RunResult{Cfg: *cfg, Incomplete: ex.incomplete, Covers: map[string]int64{}, Fns: map[string]FnHits{}}
	tm := time.AfterFunc(time.Until(deadline), ex.halt)
	defer tm.Stop()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	collect := func(m *Machine) {
		m.flushPend()
		mu.Lock()
		defer mu.Unlock()
		if m.forks != nil {
			if res.Forks == nil {
				res.Forks = map[string]int{}
			}
			for k, v := range m.forks {
				res.Forks[k] += v
			}
			m.forks = map[string]int{}
		}
		res.Stats.add(m.St)
		m.St = PathStats{}
		for k, v := range m.Unsup {
			res.Incomplete[k] += v
		}
		m.Unsup = map[string]int64{}
		for k, v := range m.Covers {
			res.Covers[k] += v
		}
		m.Covers = map[string]int64{}
		res.Solver.add(m.solver.Stat)
		m.solver.Stat = SolverStat{}
		if m.cross != nil {
			res.Cross.add(m.cross.Stat)
			m.cross.Stat = SolverStat{}
		}
		for _, f := range m.fnList {
			if f.hit == nil {
				continue
			}
			n := 0
			for _, h := range f.hit {
				if h {
					n++
				}
			}
			if n == 0 {
				continue
			}
			if f.repo {
				x := res.Fns[f.name]
				x.f = f
				x.merge(f.hit)
				res.Fns[f.name] = x
			} else {
				res.LibFns++
			}
			for i := range f.hit {
				f.hit[i] = false
			}
		}
	}
	if p.ms == nil {
		p.ms = make([]*Machine, p.n)
	}
	for w := 0; w < p.n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			fail := func(err error) {
				mu.Lock()
				if first == nil {
					first = err
				}
				mu.Unlock()
				ex.halt()
			}
			defer func() {
				if x := recover(); x != nil {
					fail(fmt.Errorf("%v\n%s", x, debug.Stack()))
				}
			}()
			fresh := func() *Machine {
				var old *Machine = p.ms[w]
				m := NewMachine(p.L, cfg, ex)
				if old != nil {
					m.solver, m.cross = old.solver, old.cross
					m.solver.restart()
					if m.cross != nil {
						m.cross.restart()
					}
				} else {
					m.solver = NewSolver(p.z3, 20000)
					if p.cross != "" && w == 0 {
						m.cross = NewSolver(p.cross, 20000)
					}
				}
				if err := m.runInit(); err != nil {
					fail(err)
					return nil
				}
				p.ms[w] = m
				return m
			}
			m := p.ms[w]
			if m == nil {
				if m = fresh(); m == nil {
					return
				}
			}
			m.cfg, m.ex = cfg, ex
			for {
				t, ok := ex.pop()
				if !ok {
					break
				}
				m.runPath(&t)
				ex.finish()
				if m.c.nextID > 4000000 {
					collect(m)
					if m = fresh(); m == nil {
						return
					}
				}
			}
			collect(m)
		}(w)
	}
	wg.Wait()
	if first != nil {
		return nil, first
	}
	res.Left = len(ex.tasks)
	res.Violations, res.Unconfirmed, res.Samples, res.Known = ex.Violations, ex.Unconfirmed, ex.Samples, ex.Known
	res.Wall = time.Since(t0)
	if res.Left > 0 && len(res.Violations) == 0 {
		res.Incomplete["unexplored branches left when the time budget ended"] += int64(res.Left)
	}
	res.Complete = len(res.Incomplete) == 0 && len(res.Violations) == 0 && len(res.Unconfirmed) == 0
	return res, nil
}

func (p *Pool) Close() {
	for _, m := range p.ms {
		if m != nil {
			m.solver.Close()
			if m.cross != nil {
				m.cross.Close()
			}
		}
	}
}

func (a *PathStats) add(b PathStats) {
	a.Paths += b.Paths
	a.Assumed += b.Assumed
	a.Completed += b.Completed
	a.Unsupported += b.Unsupported
	a.StepLimit += b.StepLimit
	a.UnknownN += b.UnknownN
	a.Decisions += b.Decisions
	a.Forks += b.Forks
	a.Steps += b.Steps
	a.AssertsTotal += b.AssertsTotal
	a.AssertsTrivial += b.AssertsTrivial
	a.AssertsSolver += b.AssertsSolver
	a.DomQ += b.DomQ
	a.CacheQ += b.CacheQ
	a.ModelQ += b.ModelQ
	a.SmtQ += b.SmtQ
	a.EqQ += b.EqQ
	a.CrossChecked += b.CrossChecked
	a.CrossBad += b.CrossBad
}

func sortedKeys[V any](mp map[string]V) []string {
	var r []string
	for k := range mp {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func ncpu() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

var _ = os.Stderr

// FnHits are the blocks of a function that were executed.
type FnHits struct {
	f   *Fn
	hit []bool
}

func (x *FnHits) merge(hit []bool) {
	if x.hit == nil {
		x.hit = make([]bool, len(hit))
	}
	for i, h := range hit {
		if h {
			x.hit[i] = true
		}
	}
}

func (x FnHits) count() (n int) {
	for _, h := range x.hit {
		if h {
			n++
		}
	}
	return
}

// missed lists the places of the blocks that were not executed.
func (x FnHits) missed() (r []string) {
	for i, h := range x.hit {
		if h {
			continue
		}
		at := "?"
		for _, in := range x.f.f.Blocks[i].Instrs {
			if p := in.Pos(); p.IsValid() {
				q := x.f.f.Prog.Fset.Position(p)
				at = fmt.Sprintf("%s:%d", q.Filename, q.Line)
				break
			}
		}
		r = append(r, at)
	}
	return
}
