package main

import (
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- control-flow signals of the engine (Go panics) ----

type unsupported string // construct outside the encoder's reach
type pathEnd string     // path finished early (assume false, exit, ...)
type goPanic struct {   // interpreted Go panic
	v     Val // interface value
	where string
}
type stepLimit struct{}

// ---- path bookkeeping ----

const (
	dFalse    = 0
	dTrue     = 1
	dForced   = 2 // flag: other side infeasible, constraint implied
	dEqTrue   = 4
	dEqFalse  = 5
	dEqForced = 6
	dChoice   = 7
)

type dec struct {
	d uint8
	v uint64
}

type workItem struct {
	trace []dec
	model map[int32]uint64
}

type grp struct {
	vars []int32
	cs   []*Term
}

type inputRec struct {
	label string
	t     *Term
	v     uint64
}

type obsRec struct {
	label string
	v     Val
	t     types.Type
}

type Failure struct {
	Msg    string
	Known  string
	Inputs []uint64
	Labels []string
	Kind   string // assert, panic, nontermination, race
	Sched  bool   // several goroutines ran
	Where  string
}

type undo struct {
	p   *Val
	old Val
}

type Machine struct {
	eng    *Engine
	prog   *ssa.Program
	tt     *TermTab
	solver *Solver
	sizes  types.Sizes

	globals map[*ssa.Global]*Val
	inited  map[*ssa.Package]bool
	cfns    map[*ssa.Function]*cfn
	canonC  map[types.Type]types.Type
	canonM  typeutil.Map
	implC   map[implKey]bool
	methC   map[methKey]*ssa.Function

	pathID  uint32
	initing int
	log     []undo
	logF    []func()
	logOn   bool

	prefix []dec
	pos    int
	trace  []dec
	model  map[int32]uint64
	ownMod bool // model is not shared with a work item
	groups map[int32]*grp
	npc    int
	inputs []inputRec
	nvar   int
	obs    []obsRec
	covers map[string]bool
	fails  []Failure
	push   func(workItem)

	specul     bool
	mapMode    int
	mapRev     int // global decision (-1 undecided)
	cov        map[*ssa.BasicBlock]int
	fnCov      map[*ssa.Function]int64
	steps      int64
	stepMax    int64
	depth      int
	queriesAt  int64
	assertsQ   int64 // assertion queries decided by the solver
	forks      int64
	unknown    int64
	totSteps   int64
	vfs        map[string]Val
	ext        map[string]any // per-path state of native stubs
	cur        *frame
	panicVal   []*goPanic
	addrIDs    map[any]uint64
	onces      map[*Val]uint8
	sch        *sched
	schedBound int
	races      bool // data races are failures
	sched      bool // this path has several goroutines
	smaps      map[*Val]*Map
	reflT      map[types.Type]*reflType
	jfC        map[types.Type][]jfield
	jmC        map[jmKey]*ssaFn
}

type ssaFn = ssa.Function

type implKey struct {
	t types.Type
	i types.Type
}
type methKey struct {
	t types.Type
	m *types.Func
}

func newMachine(e *Engine) *Machine {
	tt := newTermTab()
	m := &Machine{eng: e, prog: e.prog, tt: tt, solver: newSolver(tt, e.solverBin),
		sizes:   types.SizesFor("gc", "amd64"),
		globals: map[*ssa.Global]*Val{}, inited: map[*ssa.Package]bool{}, cfns: map[*ssa.Function]*cfn{},
		canonC: map[types.Type]types.Type{}, implC: map[implKey]bool{}, methC: map[methKey]*ssa.Function{},
		cov: map[*ssa.BasicBlock]int{}, fnCov: map[*ssa.Function]int64{}, addrIDs: map[any]uint64{},
		onces: map[*Val]uint8{}, smaps: map[*Val]*Map{}, reflT: map[types.Type]*reflType{},
		jfC: map[types.Type][]jfield{}, jmC: map[jmKey]*ssaFn{},
	}
	m.canonM.SetHasher(typeutil.MakeHasher())
	return m
}

func (m *Machine) logFn(f func()) {
	if m.initing > 0 {
		return
	}
	m.log = append(m.log, undo{})
	m.logF = append(m.logF, f)
}

func (m *Machine) set(p *Val, v Val) {
	if m.logOn && m.initing == 0 {
		m.log = append(m.log, undo{p, *p})
	}
	*p = v
}

func (m *Machine) rollback() {
	for i := len(m.log) - 1; i >= 0; i-- {
		u := &m.log[i]
		if u.p != nil {
			*u.p = u.old
		} else {
			f := m.logF[len(m.logF)-1]
			m.logF = m.logF[:len(m.logF)-1]
			f()
		}
		*u = undo{}
	}
	m.log = m.log[:0]
	m.logF = m.logF[:0]
}

// store writes v through p; struct and array contents are written in place so
// that pointers to their fields stay valid.
func (m *Machine) store(p *Val, v Val) {
	switch s := v.x.(type) {
	case Struct:
		if d, ok := p.x.(Struct); ok && len(d) == len(s) {
			if len(d) > 0 && &d[0] == &s[0] {
				return
			}
			m.storeElems(d, s)
			return
		}
		m.set(p, copyVal(v))
		return
	case Array:
		if d, ok := p.x.(Array); ok && len(d) == len(s) {
			if len(d) > 0 && &d[0] == &s[0] {
				return
			}
			m.storeElems(d, s)
			return
		}
		m.set(p, copyVal(v))
		return
	}
	// storing a non-aggregate (e.g. an opaque reflect.Value) over an aggregate replaces it
	m.set(p, v)
}

func (m *Machine) storeElems(d, s []Val) {
	for i := range d {
		m.store(&d[i], s[i])
	}
}

// ---- constraints ----

func (m *Machine) addPC(c *Term) {
	if c == m.tt.T {
		return
	}
	m.npc++
	var g *grp
	for _, v := range c.vars {
		o := m.groups[v]
		if o == nil {
			if g == nil {
				g = &grp{}
			}
			g.vars = append(g.vars, v)
			m.groups[v] = g
			continue
		}
		if g == nil {
			g = o
			continue
		}
		if o == g {
			continue
		}
		if len(o.vars) > len(g.vars) {
			o, g = g, o
		}
		g.cs = append(g.cs, o.cs...)
		for _, x := range o.vars {
			m.groups[x] = g
		}
		g.vars = append(g.vars, o.vars...)
	}
	if g != nil {
		// split conjunctions for better caching
		g.cs = append(g.cs, c)
	}
}

func (m *Machine) slice(c *Term) []*Term {
	var out []*Term
	var seen [8]*grp
	sn := seen[:0]
next:
	for _, v := range c.vars {
		g := m.groups[v]
		if g == nil {
			continue
		}
		for _, s := range sn {
			if s == g {
				continue next
			}
		}
		sn = append(sn, g)
		out = append(out, g.cs...)
	}
	return append(out, c)
}

func (m *Machine) mergedModel(n map[int32]uint64) map[int32]uint64 {
	o := make(map[int32]uint64, len(m.model)+len(n))
	for k, v := range m.model {
		o[k] = v
	}
	for k, v := range n {
		o[k] = v
	}
	return o
}

func (m *Machine) replaying() bool { return m.pos < len(m.prefix) }

func (m *Machine) fork(d dec, mod map[int32]uint64) {
	m.forks++
	m.ownMod = false
	tr := make([]dec, len(m.trace)+1)
	copy(tr, m.trace)
	tr[len(m.trace)] = d
	m.push(workItem{tr, mod})
}

func (m *Machine) decide(c *Term) bool {
	c = m.tt.canon1(c)
	if c.isConst() {
		return c.v != 0
	}
	if m.initing > 0 {
		panic(unsupported("symbolic decision during package init"))
	}
	if m.replaying() {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if d.d >= dEqTrue {
			panic(engineErr("replay divergence (decide)"))
		}
		r := d.d&1 != 0
		if d.d&dForced == 0 {
			if r {
				m.addPC(c)
			} else {
				m.addPC(m.tt.Not(c))
			}
		}
		return r
	}
	cur := m.tt.Eval(c, m.model) != 0
	this, other := c, m.tt.Not(c)
	if !cur {
		this, other = other, this
	}
	res, mod := m.solver.Check(m.slice(other))
	d := uint8(dFalse)
	if cur {
		d = dTrue
	}
	switch res {
	case Sat:
		m.fork(dec{d: d ^ 1}, m.mergedModel(mod))
		m.addPC(this)
	case Unknown:
		m.unknown++
		m.addPC(this)
	case Unsat:
		d |= dForced
	}
	m.trace = append(m.trace, dec{d: d})
	return cur
}

// concretize enumerates the feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.v
	}
	for i := 0; ; i++ {
		if i > 4096 {
			panic(unsupported("concretization of a wide value"))
		}
		if m.replaying() {
			d := m.prefix[m.pos]
			m.pos++
			m.trace = append(m.trace, d)
			e := m.tt.Bin(OpEq, t, m.tt.constOf(d.v, t.w))
			switch d.d {
			case dEqTrue:
				m.addPC(e)
				return d.v
			case dEqForced:
				return d.v
			case dEqFalse:
				m.addPC(m.tt.Not(e))
				continue
			}
			panic(engineErr("replay divergence (concretize)"))
		}
		v := m.tt.Eval(t, m.model)
		e := m.tt.Bin(OpEq, t, m.tt.constOf(v, t.w))
		ne := m.tt.Not(e)
		res, mod := m.solver.Check(m.slice(ne))
		d := dec{dEqTrue, v}
		switch res {
		case Sat:
			m.fork(dec{dEqFalse, v}, m.mergedModel(mod))
			m.addPC(e)
		case Unknown:
			m.unknown++
			m.addPC(e)
		default:
			d.d = dEqForced
		}
		m.trace = append(m.trace, d)
		return v
	}
}

func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.initing > 0 {
		return 0
	}
	if m.replaying() {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if d.d != dChoice {
			panic(engineErr("replay divergence (choose)"))
		}
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(dec{dChoice, uint64(i)}, m.model)
	}
	m.trace = append(m.trace, dec{dChoice, 0})
	return 0
}

func (m *Machine) assume(c *Term) {
	c = m.tt.canon1(c)
	if c == m.tt.T {
		return
	}
	if c == m.tt.F {
		panic(pathEnd("assume"))
	}
	if m.replaying() {
		m.addPC(c)
		return
	}
	if m.tt.Eval(c, m.model) == 0 {
		res, mod := m.solver.Check(m.slice(c))
		if res == Unknown {
			m.unknown++
		}
		if res != Sat {
			panic(pathEnd("assume"))
		}
		m.model = m.mergedModel(mod)
		m.ownMod = true
	}
	m.addPC(c)
}

// prefer sets the value of a fresh input in the current model.
func (m *Machine) prefer(t *Term, v uint64) {
	id := int32(t.v)
	if _, ok := m.model[id]; ok {
		return
	}
	if !m.ownMod {
		m.model = m.mergedModel(nil)
		m.ownMod = true
	}
	m.model[id] = v
}

func (m *Machine) inputsUnder(model map[int32]uint64) ([]uint64, []string) {
	out := make([]uint64, len(m.inputs))
	lab := make([]string, len(m.inputs))
	for i, in := range m.inputs {
		lab[i] = in.label
		if in.t != nil {
			out[i] = m.tt.Eval(in.t, model)
		} else {
			out[i] = in.v
		}
	}
	return out, lab
}

func (m *Machine) fail(kind, msg, known string, model map[int32]uint64) {
	in, lab := m.inputsUnder(model)
	m.fails = append(m.fails, Failure{Msg: msg, Known: known, Inputs: in, Labels: lab, Kind: kind, Where: m.stack(6), Sched: m.sched})
}

// assert asks the solver for a violation of c on this path, then assumes c.
func (m *Machine) assert(c *Term, msg, known string) {
	c = m.tt.canon1(c)
	if m.replaying() {
		// decided by the path this one was forked from
		if c == m.tt.F {
			panic(pathEnd("assert"))
		}
		m.addPC(c)
		return
	}
	if c == m.tt.T {
		m.assertsQ++ // discharged by simplification of the encoding on this path
		return
	}
	if c == m.tt.F {
		m.assertsQ++
		m.fail("assert", msg, known, m.model)
		panic(pathEnd("assert"))
	}
	m.assertsQ++
	res, mod := m.solver.Check(m.slice(m.tt.Not(c)))
	switch res {
	case Sat:
		m.fail("assert", msg, known, m.mergedModel(mod))
		m.assume(c)
	case Unknown:
		m.unknown++
		m.assume(c)
	}
}

// ---- inputs ----

func (m *Machine) newInput(label string, w uint8) *Term {
	t := m.tt.Var(m.nvar, w)
	m.nvar++
	m.inputs = append(m.inputs, inputRec{label: label, t: t})
	return t
}

// ---- running ----

type pathRes struct {
	end    string
	kind   string // ok, assume, unsupported, panic, steps, error
	detail string
}

func (m *Machine) runPath(fn *ssa.Function, w workItem) (res pathRes) {
	m.pathID++
	m.prefix, m.pos = w.trace, 0
	m.trace = make([]dec, 0, len(w.trace)+32)
	m.model = w.model
	if m.model == nil {
		m.model = map[int32]uint64{}
	}
	m.ownMod = false
	m.groups = map[int32]*grp{}
	m.npc = 0
	m.inputs = m.inputs[:0]
	m.nvar = 0
	m.obs = m.obs[:0]
	m.covers = map[string]bool{}
	m.fails = nil
	m.mapMode, m.mapRev = 1, -1
	m.steps = 0
	m.depth = 0
	m.logOn = true
	m.vfs = nil
	m.ext = map[string]any{}
	m.cur = nil
	m.panicVal = nil
	m.sch, m.schedBound, m.sched, m.races = nil, 0, false, false
	defer func() {
		m.totSteps += m.steps
		r := recover()
		m.endThreads()
		if r != nil {
			switch e := r.(type) {
			case pathEnd:
				res = pathRes{kind: "ok", detail: string(e)}
				if e == "assume" {
					res.kind = "assume"
				}
			case unsupported:
				res = pathRes{kind: "unsupported", detail: string(e) + " at " + m.stack(4)}
			case goPanic:
				msg := "uncaught panic: " + m.panicText(e.v)
				m.fail("panic", msg, "", m.model)
				m.fails[len(m.fails)-1].Where = e.where
				res = pathRes{kind: "panic", detail: msg}
			case crash:
				m.fail("panic", e.msg, "", m.model)
				m.fails[len(m.fails)-1].Where = e.where
				res = pathRes{kind: "panic", detail: e.msg}
			case deadlock:
				m.fail("nontermination", "all goroutines are asleep", "", m.model)
				res = pathRes{kind: "steps", detail: "deadlock at " + m.stack(4)}
			case stepLimit:
				m.fail("nontermination", "execution exceeds the step limit", "", m.model)
				res = pathRes{kind: "steps", detail: m.stack(4)}
			case engineErr:
				res = pathRes{kind: "unsupported", detail: "engine: " + string(e) + " at " + m.stack(4)}
			default:
				panic(r)
			}
		}
		m.rollback()
	}()
	m.call(fn, nil, nil)
	return pathRes{kind: "ok"}
}

func (m *Machine) panicText(v Val) string {
	if v.x == nil {
		return "nil"
	}
	i := asIface(v)
	switch {
	case isStringT(i.t):
		if s, ok := concStr(i.v); ok {
			return s
		}
		return m.debugVal(i.v)
	}
	func() {
		defer func() { recover() }()
		if f := m.findMethod(i.t, "Error"); f != nil {
			r := m.call(f, []Val{i.v}, nil)
			if s, ok := concStr(r); ok {
				v = strV(s)
			}
		}
	}()
	if s, ok := v.x.(string); ok {
		return s
	}
	if _, ok := i.t.Underlying().(*types.Pointer); ok {
		return i.t.String() // an address says nothing
	}
	return i.t.String() + " " + m.debugVal(i.v)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Machine) stack(n int) string {
	var sb strings.Builder
	for f, i := m.cur, 0; f != nil && i < n; f, i = f.caller, i+1 {
		if i > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.fn.String())
	}
	return sb.String()
}

var debugPanics = os.Getenv("SYMGO_DEBUG") != ""

func (m *Machine) goPanicStr(s string) {
	var t types.Type = types.Typ[types.String]
	if m.eng.rtErrT != nil {
		t = m.canon(m.eng.rtErrT)
		s = strings.TrimPrefix(s, "runtime error: ")
	}
	if debugPanics {
		println("PANIC", s, m.stack(8))
	}
	panic(goPanic{v: ifaceV(m.canon(t), strV(s)), where: m.stack(6)})
}

func (m *Machine) nilDeref() {
	m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

// ---- globals & package init ----

func (m *Machine) globalAddr(g *ssa.Global) *Val {
	p := g.Pkg
	if !m.inited[p] {
		m.initPkg(p)
	}
	return m.globals[g]
}

func (m *Machine) initPkg(p *ssa.Package) {
	if m.inited[p] {
		return
	}
	m.inited[p] = true
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			v := m.zero(g.Type().Underlying().(*types.Pointer).Elem())
			m.globals[g] = &v
		}
	}
	if m.eng.skipInit(p.Pkg.Path()) {
		if p.Pkg.Path() == "os" {
			m.osGlobals(p)
		}
		return
	}
	if p.Pkg.Path() == "go/internal/scannerhooks" { // a hook that go/scanner sets when it is initialised
		if q := m.eng.prog.ImportedPackage("go/scanner"); q != nil {
			m.initPkg(q)
		}
	}
	// run only p's own initialiser (BareInits), lazily and outside the undo log
	m.initing++
	savedCur, savedSteps, savedPath := m.cur, m.steps, m.pathID
	m.steps = 0
	defer func() {
		m.initing--
		m.cur, m.steps, m.pathID = savedCur, savedSteps, savedPath
	}()
	m.pathID = 0
	m.runInit(p.Func("init"))
}

// runInit executes an init function; an unsupported statement poisons its result
// and execution continues with the next instruction.
func (m *Machine) runInit(fn *ssa.Function) {
	if fn == nil {
		return
	}
	m.callInit(fn)
}

func f64bits(f float64) Val { return Val{n: math.Float64bits(f)} }
func (m *Machine) f64(v Val, b *types.Basic) float64 {
	if v.x != nil {
		if p, ok := v.x.(poison); ok {
			panic(unsupported("use of poisoned value: " + p.why))
		}
		if v.x == nanMark {
			return math.NaN()
		}
		panic(unsupported("symbolic float"))
	}
	return math.Float64frombits(v.n)
}

var nanMark = new(int)

// ---- method lookup ----

func (m *Machine) findMethod(t types.Type, name string) *ssa.Function {
	ms := m.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return m.prog.MethodValue(s)
		}
	}
	return nil
}

func (m *Machine) lookupMethod(t types.Type, f *types.Func) *ssa.Function {
	k := methKey{t, f}
	if r, ok := m.methC[k]; ok {
		return r
	}
	r := m.prog.LookupMethod(t, f.Pkg(), f.Name())
	m.methC[k] = r
	return r
}

func (m *Machine) implements(t types.Type, i *types.Interface, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := m.implC[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	m.implC[k] = r
	return r
}

func sortedKeys[V any](mp map[string]V) []string {
	ks := make([]string, 0, len(mp))
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
