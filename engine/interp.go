package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const (
	kReg = iota
	kConst
	kGlobal
	kFree
)

type opnd struct {
	k uint8
	i int32
	v Val
	g *ssa.Global
}

type cins struct {
	in   ssa.Instruction
	op   uint8
	dst  int32
	a, b opnd
	c, d opnd
	args []opnd
	t    types.Type // operand/element type
	w    uint8
	sg   bool
	n    int
	aux  any
	pure bool
}

type cblk struct {
	ins  []cins
	phis []cphi
	blk  *ssa.BasicBlock
	pred []*ssa.BasicBlock
	succ []int
	pure bool // phi-free, only pure instructions, ends in If or Jump
}

type cphi struct {
	dst   int32
	edges []opnd
	w     uint8
	sg    bool
	sc    bool // scalar int/bool
}

type cfn struct {
	fn      *ssa.Function
	nreg    int
	blks    []cblk
	nparam  int
	intr    func(m *Machine, fr *frame, args []Val) Val
	isRepo  bool
	recover int
	hasDefr bool
}

type deferred struct {
	fn   Val
	args []Val
	cal  *ssa.CallCommon
	prev *deferred
}

type frame struct {
	fn        *cfn
	caller    *frame
	regs      []Val
	env       []Val
	defers    []func()
	panicking *goPanic
	panicked  bool
	recovered bool
	result    Val
	block     int
	ip        int
	deferCall bool // this frame is a deferred call run directly by caller
	panicOf   *frame
}

const (
	oAlloc = iota
	oUnOp
	oBinOp
	oCall
	oChangeType
	oChangeIface
	oConvert
	oMakeIface
	oExtract
	oField
	oFieldAddr
	oIndex
	oIndexAddr
	oLookup
	oMakeMap
	oMakeSlice
	oMakeChan
	oSend
	oMakeClosure
	oMapUpdate
	oNext
	oRange
	oReturn
	oRunDefers
	oSlice
	oStore
	oTypeAssert
	oPanic
	oIf
	oJump
	oDefer
	oGo
	oDebug
	oBuiltin
	oSliceToArr
	oUnsup
	oSelect
)

func (m *Machine) cfnOf(fn *ssa.Function) *cfn {
	if c, ok := m.cfns[fn]; ok {
		return c
	}
	c := &cfn{fn: fn, recover: -1}
	m.cfns[fn] = c
	c.isRepo = m.eng.isRepoFn(fn)
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	if f, ok := m.eng.intrinsic(name, fn); ok {
		c.intr = f
		return c
	}
	m.eng.ensureBuilt(fn)
	if fn.Blocks == nil {
		c.intr = func(m *Machine, fr *frame, args []Val) Val {
			panic(unsupported("no body: " + name))
		}
		return c
	}
	m.compile(c)
	return c
}

func (m *Machine) compile(c *cfn) {
	fn := c.fn
	reg := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		reg[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	c.nparam = len(fn.Params)
	free := map[ssa.Value]int32{}
	for i, f := range fn.FreeVars {
		free[f] = int32(i)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nreg = int(n)
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{k: kConst}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{k: kConst, v: m.constVal(x)}
		case *ssa.Function:
			return opnd{k: kConst, v: Val{x: &Closure{fn: x}}}
		case *ssa.Global:
			return opnd{k: kGlobal, g: x}
		case *ssa.FreeVar:
			return opnd{k: kFree, i: free[x]}
		case *ssa.Builtin:
			return opnd{k: kConst, v: Val{x: x}}
		}
		r, ok := reg[v]
		if !ok {
			panic(engineErr("no register for " + v.Name() + " in " + fn.String()))
		}
		return opnd{k: kReg, i: r}
	}
	c.blks = make([]cblk, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blks[bi]
		cb.blk = b
		cb.pred = b.Preds
		for _, s := range b.Succs {
			cb.succ = append(cb.succ, s.Index)
		}
		cb.pure = true
		for _, in := range b.Instrs {
			ci := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			switch x := in.(type) {
			case *ssa.Phi:
				p := cphi{dst: reg[x]}
				for _, e := range x.Edges {
					p.edges = append(p.edges, op(e))
				}
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
					p.sc = true
					p.w, p.sg = widthOf(bt)
				}
				cb.phis = append(cb.phis, p)
				cb.pure = false
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.op = oAlloc
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.UnOp:
				ci.op = oUnOp
				ci.a = op(x.X)
				ci.n = int(x.Op)
				ci.t = x.X.Type()
				ci.aux = x.Type()
				ci.pure = x.Op != token.ARROW
				if x.CommaOk {
					ci.pure = false
				}
			case *ssa.BinOp:
				ci.op = oBinOp
				ci.a, ci.b = op(x.X), op(x.Y)
				ci.n = int(x.Op)
				ci.t = x.X.Type()
				if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
					ci.w, ci.sg = widthOf(bt)
					ci.aux = true
					ci.pure = x.Op != token.QUO && x.Op != token.REM && x.Op != token.SHL && x.Op != token.SHR
				} else if ok && bt.Info()&types.IsString != 0 {
					ci.pure = x.Op != token.ADD
				} else if x.Op == token.EQL || x.Op == token.NEQ {
					_, isI := x.X.Type().Underlying().(*types.Interface)
					_, isI2 := x.Y.Type().Underlying().(*types.Interface)
					ci.pure = !isI && !isI2
				}
				if x.Op == token.SHL || x.Op == token.SHR {
					ci.d.v.n = 0
					if bt, ok := x.Y.Type().Underlying().(*types.Basic); ok {
						w, sg := widthOf(bt)
						ci.c.i = int32(w)
						if sg {
							ci.d.v.n = 1
						}
					}
				}
			case *ssa.Call:
				ci.op = oCall
				m.compileCall(&ci, &x.Call, op)
				if ci.op == oBuiltin {
					nm := ci.aux.(*ssa.Builtin).Name()
					ci.pure = nm == "len" || nm == "cap"
				}
			case *ssa.ChangeType:
				ci.op = oChangeType
				ci.a = op(x.X)
				ci.pure = true
			case *ssa.ChangeInterface:
				ci.op = oChangeIface
				ci.a = op(x.X)
				ci.pure = true
			case *ssa.Convert:
				ci.op = oConvert
				ci.a = op(x.X)
				ci.t = x.X.Type()
				ci.aux = x.Type()
				fb, ok1 := x.X.Type().Underlying().(*types.Basic)
				tb, ok2 := x.Type().Underlying().(*types.Basic)
				ci.pure = ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0
			case *ssa.MultiConvert:
				ci.op = oConvert
				ci.a = op(x.X)
				ci.t = x.X.Type()
				ci.aux = x.Type()
			case *ssa.MakeInterface:
				ci.op = oMakeIface
				ci.a = op(x.X)
				ci.t = m.canon(x.X.Type())
			case *ssa.Extract:
				ci.op = oExtract
				ci.a = op(x.Tuple)
				ci.n = x.Index
				ci.pure = true
			case *ssa.Field:
				ci.op = oField
				ci.a = op(x.X)
				ci.n = x.Field
				ci.pure = true
			case *ssa.FieldAddr:
				ci.op = oFieldAddr
				ci.a = op(x.X)
				ci.n = x.Field
				ci.pure = true
			case *ssa.Index:
				ci.op = oIndex
				ci.a, ci.b = op(x.X), op(x.Index)
				ci.t = x.X.Type()
				ci.aux = x.Index.Type()
				ci.pure = true
			case *ssa.IndexAddr:
				ci.op = oIndexAddr
				ci.a, ci.b = op(x.X), op(x.Index)
				ci.t = x.X.Type()
				ci.aux = x.Index.Type()
				ci.pure = true
			case *ssa.Lookup:
				ci.op = oLookup
				ci.a, ci.b = op(x.X), op(x.Index)
				ci.t = x.X.Type()
				ci.aux = x
				if isStringT(x.X.Type()) {
					ci.pure = true
				}
			case *ssa.MakeMap:
				ci.op = oMakeMap
				ci.t = x.Type().Underlying().(*types.Map).Key()
			case *ssa.MakeSlice:
				ci.op = oMakeSlice
				ci.a, ci.b = op(x.Len), op(x.Cap)
				ci.t = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MakeChan:
				ci.op = oMakeChan
				ci.a = op(x.Size)
				ci.a = op(x.Size)
			case *ssa.MakeClosure:
				ci.op = oMakeClosure
				ci.aux = x.Fn.(*ssa.Function)
				for _, b := range x.Bindings {
					ci.args = append(ci.args, op(b))
				}
			case *ssa.MapUpdate:
				ci.op = oMapUpdate
				ci.a, ci.b, ci.c = op(x.Map), op(x.Key), op(x.Value)
			case *ssa.Next:
				ci.op = oNext
				ci.a = op(x.Iter)
				ci.aux = x
			case *ssa.Range:
				ci.op = oRange
				ci.a = op(x.X)
				ci.t = x.X.Type()
			case *ssa.Return:
				ci.op = oReturn
				for _, r := range x.Results {
					ci.args = append(ci.args, op(r))
				}
			case *ssa.RunDefers:
				ci.op = oRunDefers
			case *ssa.Slice:
				ci.op = oSlice
				ci.a, ci.b, ci.c, ci.d = op(x.X), op(x.Low), op(x.High), op(x.Max)
				ci.t = x.X.Type()
				ci.aux = x
			case *ssa.Store:
				ci.op = oStore
				ci.a, ci.b = op(x.Addr), op(x.Val)
			case *ssa.TypeAssert:
				ci.op = oTypeAssert
				ci.a = op(x.X)
				ci.t = m.canon(x.AssertedType)
				ci.aux = x
			case *ssa.Panic:
				ci.op = oPanic
				ci.a = op(x.X)
			case *ssa.If:
				ci.op = oIf
				ci.a = op(x.Cond)
				ci.pure = true
			case *ssa.Jump:
				ci.op = oJump
				ci.pure = true
			case *ssa.Go:
				m.compileCall(&ci, &x.Call, op)
				ci.op = oGo
			case *ssa.Send:
				ci.op = oSend
				ci.a, ci.b = op(x.Chan), op(x.X)
			case *ssa.Select:
				ci.op = oSelect
				ci.aux = x
				for _, st := range x.States {
					ci.args = append(ci.args, op(st.Chan))
					if st.Send != nil {
						ci.args = append(ci.args, op(st.Send))
					} else {
						ci.args = append(ci.args, op(st.Chan))
					}
				}
			case *ssa.Defer:
				ci.op = oDefer
				m.compileCall(&ci, &x.Call, op)
				ci.op = oDefer
				c.hasDefr = true
				if x.DeferStack != nil {
					ci.op = oUnsup
				}
			case *ssa.SliceToArrayPointer:
				ci.op = oSliceToArr
				ci.a = op(x.X)
				ci.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			default:
				ci.op = oUnsup
			}
			if !ci.pure {
				cb.pure = false
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
}

func (m *Machine) compileCall(ci *cins, cc *ssa.CallCommon, op func(ssa.Value) opnd) {
	for _, a := range cc.Args {
		ci.args = append(ci.args, op(a))
	}
	if cc.IsInvoke() {
		ci.op = oCall
		ci.a = op(cc.Value)
		ci.aux = cc.Method
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ci.op = oBuiltin
		ci.aux = b
		ci.t = nil
		if len(cc.Args) > 0 {
			ci.t = cc.Args[0].Type()
		}
		ci.c.v = Val{x: cc}
		return
	}
	ci.op = oCall
	if f := cc.StaticCallee(); f != nil {
		if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
			ci.aux = f
			return
		}
	}
	ci.a = op(cc.Value)
	ci.aux = nil
}

func (m *Machine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if tp, ok := t.(*types.Tuple); ok {
			return m.zero(tp)
		}
		if _, ok := t.(*types.TypeParam); ok {
			return Val{}
		}
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(engineErr("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolV(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return strV(constant.StringVal(c.Value))
		}
		return strV(string(rune(c.Int64())))
	case b.Info()&types.IsInteger != 0:
		_, sg := widthOf(b)
		if sg {
			return Val{n: uint64(c.Int64())}
		}
		return Val{n: c.Uint64()}
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f64bits(f)
	case b.Info()&types.IsComplex != 0:
		return Val{x: c.Complex128()}
	case b.Kind() == types.UnsafePointer:
		return Val{}
	}
	panic(engineErr("const " + c.String()))
}

func (fr *frame) get(m *Machine, o *opnd) Val {
	switch o.k {
	case kReg:
		return fr.regs[o.i]
	case kConst:
		return o.v
	case kFree:
		return fr.env[o.i]
	}
	a := m.globalAddr(o.g)
	o.v = Val{x: a}
	o.k = kConst
	return o.v
}

// call invokes fn with args (receiver first) and closure environment env.
func (m *Machine) call(fn *ssa.Function, args []Val, env []Val) Val {
	c := m.cfnOf(fn)
	return m.callC(c, args, env, false, nil)
}

func (m *Machine) callC(c *cfn, args []Val, env []Val, isDefer bool, panicOf *frame) Val {
	if c.intr != nil {
		r := c.intr(m, m.cur, args)
		if _, fb := r.x.(fallbackT); !fb {
			return r
		}
		if c.blks == nil {
			m.eng.ensureBuilt(c.fn)
			if c.fn.Blocks == nil {
				panic(unsupported("no body: " + c.fn.String()))
			}
			m.compile(c)
		}
	}
	m.depth++
	if m.depth > 4000 {
		m.depth = 0
		panic(stepLimit{})
	}
	fr := &frame{fn: c, caller: m.cur, env: env, deferCall: isDefer, panicOf: panicOf}
	fr.regs = make([]Val, c.nreg)
	copy(fr.regs, args)
	m.cur = fr
	m.fnCov[c.fn]++
	if c.hasDefr {
		m.runWithDefers(fr)
	} else {
		m.exec(fr)
	}
	m.cur = fr.caller
	m.depth--
	return fr.result
}

func (m *Machine) callVal(f Val, args []Val) Val {
	switch c := f.x.(type) {
	case nil:
		m.nilDeref()
	case *Closure:
		if c.native != nil {
			return c.native(m, args)
		}
		return m.call(c.fn, args, c.env)
	case poison:
		panic(unsupported("call of poisoned func: " + c.why))
	}
	panic(engineErr(fmt.Sprintf("call of %T", f.x)))
}

// callMethod invokes method name on an interface value.
func (m *Machine) callIfaceMethod(recv Val, name string, args ...Val) Val {
	i := asIface(recv)
	f := m.findMethod(i.t, name)
	if f == nil {
		panic(engineErr("no method " + name + " on " + i.t.String()))
	}
	return m.call(f, append([]Val{i.v}, args...), nil)
}

func (m *Machine) runWithDefers(fr *frame) {
	depth := m.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(goPanic)
				if !ok {
					panic(r)
				}
				m.cur = fr
				m.depth = depth
				fr.panicking = &gp
			}
		}()
		m.exec(fr)
	}()
	if fr.panicking == nil {
		return
	}
	// run deferred functions in panicking mode
	for fr.panicking != nil && len(fr.defers) > 0 {
		m.runOneDefer(fr)
	}
	if fr.panicking != nil {
		p := *fr.panicking
		m.cur = fr.caller
		panic(p)
	}
	// recovered: run remaining defers then the recover block
	m.runDefers(fr)
	if fr.panicking != nil {
		p := *fr.panicking
		panic(p)
	}
	m.cur = fr
	if fr.fn.recover >= 0 {
		fr.block = fr.fn.recover
		m.execFrom(fr, fr.fn.recover)
	} else {
		fr.result = m.zero(fr.fn.fn.Signature.Results())
		if fr.fn.fn.Signature.Results().Len() == 0 {
			fr.result = Val{}
		}
	}
}

func (m *Machine) runOneDefer(fr *frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	depth := m.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(goPanic)
				if !ok {
					panic(r)
				}
				m.cur = fr
				m.depth = depth
				fr.panicking = &gp
			}
		}()
		d()
	}()
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		m.runOneDefer(fr)
		if fr.panicking != nil {
			// panic inside a deferred call during normal return: continue unwinding
			for fr.panicking != nil && len(fr.defers) > 0 {
				m.runOneDefer(fr)
			}
			return
		}
	}
}

func (m *Machine) exec(fr *frame) { m.execFrom(fr, 0) }

func (m *Machine) execFrom(fr *frame, start int) {
	bi := start
	prev := -1
	var phiTmp [8]Val
	skipPhi := false
	for {
		b := &fr.fn.blks[bi]
		fr.block = bi
		if fr.fn.isRepo && m.eng.wantCov {
			m.cov[b.blk]++
		}
		if len(b.phis) > 0 && !skipPhi {
			e := -1
			for i, p := range b.pred {
				if p.Index == prev {
					e = i
					break
				}
			}
			if len(b.phis) <= len(phiTmp) {
				for i := range b.phis {
					phiTmp[i] = fr.get(m, &b.phis[i].edges[e])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = phiTmp[i]
				}
			} else {
				tmp := make([]Val, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(m, &b.phis[i].edges[e])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		skipPhi = false
		m.steps += int64(len(b.ins))
		if m.steps > m.stepMax && m.stepMax > 0 && m.initing == 0 {
			panic(stepLimit{})
		}
		next := -1
		for i := range b.ins {
			ci := &b.ins[i]
			switch ci.op {
			case oJump:
				next = b.succ[0]
			case oIf:
				c := fr.get(m, &ci.a)
				if t, ok := c.x.(*Term); ok {
					n, p, skip := m.branch(fr, bi, t)
					next, skipPhi = n, skip
					prev = p
					bi = n
				} else {
					if c.x != nil {
						m.poisonCheck(c)
					}
					if c.n != 0 {
						next = b.succ[0]
					} else {
						next = b.succ[1]
					}
				}
				if t, ok := c.x.(*Term); ok {
					_ = t
					next = -2
				}
			case oReturn:
				switch len(ci.args) {
				case 0:
				case 1:
					fr.result = fr.get(m, &ci.args[0])
				default:
					tp := make(Tuple, len(ci.args))
					for j := range ci.args {
						tp[j] = fr.get(m, &ci.args[j])
					}
					fr.result = Val{x: tp}
				}
				return
			default:
				m.step(fr, ci)
			}
		}
		if next == -2 {
			continue
		}
		prev, bi = bi, next
	}
}

func (m *Machine) poisonCheck(v Val) {
	if p, ok := v.x.(poison); ok {
		panic(unsupported("use of poisoned value: " + p.why))
	}
}

// callInit runs a package initialiser tolerating unsupported statements.
func (m *Machine) callInit(fn *ssa.Function) {
	c := m.cfnOf(fn)
	if c.intr != nil {
		return
	}
	fr := &frame{fn: c, caller: m.cur}
	fr.regs = make([]Val, c.nreg)
	m.cur = fr
	defer func() { m.cur = fr.caller }()
	bi, prev := 0, -1
	for {
		b := &c.blks[bi]
		for i := range b.phis {
			for e, p := range b.pred {
				if p.Index == prev {
					fr.regs[b.phis[i].dst] = fr.get(m, &b.phis[i].edges[e])
				}
			}
		}
		next := -1
		for i := range b.ins {
			ci := &b.ins[i]
			why := ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch e := r.(type) {
						case unsupported:
							why = string(e)
						case goPanic:
							why = "init panic: " + m.panicText(e.v)
						case engineErr:
							why = string(e)
						case stepLimit:
							why = "step limit"
						default:
							panic(r)
						}
						m.cur = fr
					}
				}()
				switch ci.op {
				case oJump:
					next = b.succ[0]
				case oIf:
					v := fr.get(m, &ci.a)
					if v.x != nil {
						panic(unsupported("init branch"))
					}
					if v.n != 0 {
						next = b.succ[0]
					} else {
						next = b.succ[1]
					}
				case oReturn:
					next = -3
				case oCall:
					if f, ok := ci.aux.(*ssa.Function); ok && len(f.Name()) > 5 && f.Name()[:5] == "init#" && f.Pkg == fn.Pkg {
						m.callInit(f)
						return
					}
					m.step(fr, ci)
				default:
					m.step(fr, ci)
				}
			}()
			if why != "" {
				m.eng.notePoison(fn.Pkg.Pkg.Path(), why)
				if ci.dst >= 0 {
					fr.regs[ci.dst] = Val{x: poison{why}}
				}
				if ci.op == oStore {
					// poison the destination
					if p, ok := fr.get(m, &ci.a).x.(*Val); ok {
						*p = Val{x: poison{why}}
					}
				}
				if ci.op == oIf {
					return
				}
			}
		}
		if next == -3 {
			return
		}
		prev, bi = bi, next
	}
}

// branch resolves a symbolic conditional. Pure successor blocks (the && / || /
// conditional-assignment shapes) are folded into one formula instead of forking.
func (m *Machine) branch(fr *frame, bi int, cond *Term) (next, prev int, skipPhi bool) {
	f := fr.fn
	tgt := [2]int{f.blks[bi].succ[0], f.blks[bi].succ[1]}
	src := [2]int{bi, bi}
	var over [2][]Val // phi overrides per target
	phiVals := func(side int) ([]Val, bool) {
		if over[side] != nil {
			return over[side], true
		}
		b := &f.blks[tgt[side]]
		if len(b.phis) == 0 {
			return []Val{}, true
		}
		return m.phiEdge(fr, tgt[side], src[side])
	}
	for iter := 0; iter < 12; iter++ {
		merged := false
		for side := 0; side < 2 && !merged; side++ {
			s := tgt[side]
			sb := &f.blks[s]
			other := 1 - side
			if !sb.pure || len(sb.pred) != 1 || s == tgt[other] || over[side] != nil {
				continue
			}
			last := &sb.ins[len(sb.ins)-1]
			switch last.op {
			case oJump:
				if sb.succ[0] != tgt[other] {
					// full diamond: the other side is also a pure block jumping to the same join
					ob := &f.blks[tgt[other]]
					if over[other] != nil || !ob.pure || len(ob.pred) != 1 || ob.ins[len(ob.ins)-1].op != oJump || ob.succ[0] != sb.succ[0] {
						continue
					}
					if !m.phisScalar(f, sb.succ[0]) {
						continue
					}
					if !m.runPure(fr, sb) || !m.runPure(fr, ob) {
						continue
					}
					x, ok1 := m.phiEdge(fr, sb.succ[0], s)
					y, ok2 := m.phiEdge(fr, sb.succ[0], tgt[other])
					if !ok1 || !ok2 {
						continue
					}
					c := cond
					if side == 1 {
						c = m.tt.Not(cond)
					}
					mv, ok := m.phiIte(f, sb.succ[0], c, x, y)
					if !ok {
						continue
					}
					m.setPhis(fr, sb.succ[0], mv)
					return sb.succ[0], s, true
				}
				if !m.phisScalar(f, tgt[other]) {
					continue
				}
				y, ok := phiVals(other)
				if !ok {
					continue
				}
				if !m.runPure(fr, sb) {
					continue
				}
				x, ok := m.phiEdge(fr, tgt[other], s)
				if !ok {
					continue
				}
				c := cond
				if side == 1 {
					c = m.tt.Not(cond)
				}
				mv, ok := m.phiIte(f, tgt[other], c, x, y)
				if !ok {
					continue
				}
				m.setPhis(fr, tgt[other], mv)
				return tgt[other], s, true
			case oIf:
				var k int
				if sb.succ[0] == tgt[other] {
					k = 0
				} else if sb.succ[1] == tgt[other] {
					k = 1
				} else {
					continue
				}
				if sb.succ[0] == sb.succ[1] {
					continue
				}
				y, ok := phiVals(other)
				if !ok {
					continue
				}
				if !m.runPure(fr, sb) {
					continue
				}
				cv := fr.get(m, &last.a)
				if _, isP := cv.x.(poison); isP {
					continue
				}
				c2 := m.term(cv, 0)
				x, ok := m.phiEdge(fr, tgt[other], s)
				if !ok {
					continue
				}
				c := cond
				if side == 1 {
					c = m.tt.Not(cond)
				}
				mv, ok := m.phiIte(f, tgt[other], c, x, y)
				if !ok {
					continue
				}
				// reach new target iff c && (c2 leads away from `other`)
				away := c2
				if k == 0 {
					away = m.tt.Not(c2)
				}
				nc := m.tt.And(c, away)
				if side == 0 {
					cond = nc
				} else {
					cond = m.tt.Not(nc)
				}
				over[other] = mv
				if mv == nil {
					over[other] = []Val{}
				}
				tgt[side] = sb.succ[1-k]
				src[side] = s
				over[side] = nil
				merged = true
			}
		}
		if !merged {
			break
		}
		if cond.isConst() {
			break
		}
	}
	side := 1
	if m.decide(cond) {
		side = 0
	}
	if over[side] != nil {
		if len(f.blks[tgt[side]].phis) > 0 {
			m.setPhis(fr, tgt[side], over[side])
		}
		return tgt[side], src[side], true
	}
	return tgt[side], src[side], false
}

func (m *Machine) phisScalar(f *cfn, b int) bool {
	for i := range f.blks[b].phis {
		if !f.blks[b].phis[i].sc {
			return false
		}
	}
	return true
}

func (m *Machine) phiEdge(fr *frame, b, from int) ([]Val, bool) {
	cb := &fr.fn.blks[b]
	e := -1
	for i, p := range cb.pred {
		if p.Index == from {
			if e >= 0 {
				return nil, false
			}
			e = i
		}
	}
	if e < 0 {
		return nil, false
	}
	out := make([]Val, len(cb.phis))
	for i := range cb.phis {
		out[i] = fr.get(m, &cb.phis[i].edges[e])
	}
	return out, true
}

func (m *Machine) phiIte(f *cfn, b int, c *Term, x, y []Val) ([]Val, bool) {
	phis := f.blks[b].phis
	out := make([]Val, len(phis))
	for i := range phis {
		if sameVal(x[i], y[i]) {
			out[i] = x[i]
			continue
		}
		if !phis[i].sc {
			return nil, false
		}
		if _, ok := x[i].x.(poison); ok {
			return nil, false
		}
		if _, ok := y[i].x.(poison); ok {
			return nil, false
		}
		out[i] = valOf(m.tt.Ite(c, m.term(x[i], phis[i].w), m.term(y[i], phis[i].w)), phis[i].sg)
	}
	return out, true
}

func sameVal(a, b Val) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.x.(type) {
	case nil:
		return b.x == nil
	case *Term, *Val, *Map, *Closure, *Iface, *SStr:
		return a.x == b.x
	case string:
		y, ok := b.x.(string)
		return ok && x == y
	case Slice:
		y, ok := b.x.(Slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (cap(x) == 0 || &x[:1][0] == &y[:1][0])
	}
	return false
}

func (m *Machine) setPhis(fr *frame, b int, v []Val) {
	for i, p := range fr.fn.blks[b].phis {
		fr.regs[p.dst] = v[i]
	}
}

type pureBail struct{}
type fallbackT struct{}

var fallback = Val{x: fallbackT{}}

// runPure speculatively executes a pure block; false if it could panic or fork.
func (m *Machine) runPure(fr *frame, b *cblk) (ok bool) {
	saved := m.specul
	m.specul = true
	defer func() {
		m.specul = saved
		if r := recover(); r != nil {
			switch r.(type) {
			case pureBail, goPanic, unsupported:
				ok = false
				return
			}
			panic(r)
		}
	}()
	for i := range b.ins {
		ci := &b.ins[i]
		if ci.op == oIf || ci.op == oJump {
			continue
		}
		m.steps++
		m.step(fr, ci)
	}
	return true
}

func (m *Machine) concInt(v Val) int64 {
	if v.x == nil {
		return int64(v.n)
	}
	if t, ok := v.x.(*Term); ok {
		if m.specul {
			panic(pureBail{})
		}
		return sextW(m.concretize(t), t.w)
	}
	m.poisonCheck(v)
	panic(engineErr(fmt.Sprintf("concInt of %T", v.x)))
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (m *Machine) load(v Val) Val {
	switch p := v.x.(type) {
	case *Val:
		if m.racing() {
			m.trackVal(p, false)
		}
		return copyVal(*p)
	case nil:
		m.nilDeref()
	case *SymPtr:
		return m.symLoad(p.base, p.idx)
	case *DataPtr:
		if len(p.s) == 0 {
			panic(unsupported("load of data pointer"))
		}
		return copyVal(p.s[0])
	case poison:
		panic(unsupported("load through poisoned pointer: " + p.why))
	}
	panic(engineErr(fmt.Sprintf("load of %T", v.x)))
}

// symLoad builds the ite-tree for base[idx]; idx is known to be in range.
func (m *Machine) symLoad(base []Val, idx *Term) Val {
	scalar := true
	var w uint8
	for i := range base {
		switch t := base[i].x.(type) {
		case nil:
		case *Term:
			w = t.w
			if t.w == 0 {
				scalar = false
			}
		default:
			scalar = false
		}
	}
	if !scalar || len(base) > 2048 {
		if m.specul {
			panic(pureBail{})
		}
		// few entries that are not zero: one fork per entry and one for all others
		var rest int = -1
		var odd []int
		for i := range base {
			if base[i].x == nil && base[i].n == 0 {
				rest = i
			} else {
				odd = append(odd, i)
			}
		}
		if rest >= 0 && len(odd) <= 16 && len(base) > len(odd)+1 {
			for _, i := range odd {
				if m.decide(m.tt.Bin(OpEq, idx, m.tt.Const(uint64(i), idx.w))) {
					return copyVal(base[i])
				}
			}
			return copyVal(base[rest])
		}
		i := m.concretize(idx)
		return copyVal(base[i])
	}
	_ = w
	// values are emitted at 64 bits and truncated by the user of symLoad via type width
	return Val{x: symRead{base, idx}}
}

type symRead struct {
	base []Val
	idx  *Term
}

// finishRead turns a symRead into a term of the element type.
func (m *Machine) finishRead(v Val, t types.Type) Val {
	r, ok := v.x.(symRead)
	if !ok {
		return v
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		if m.specul {
			panic(pureBail{})
		}
		return copyVal(r.base[m.concretize(r.idx)])
	}
	w, sg := widthOf(b)
	// runs of equal values
	type run struct {
		lo uint64
		v  *Term
	}
	var runs []run
	for i := range r.base {
		tv := m.term(r.base[i], w)
		if len(runs) == 0 || runs[len(runs)-1].v != tv {
			runs = append(runs, run{uint64(i), tv})
		}
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return runs[lo].v
		}
		mid := (lo + hi + 1) / 2
		return m.tt.Ite(m.tt.Bin(OpUlt, r.idx, m.tt.Const(runs[mid].lo, r.idx.w)), build(lo, mid-1), build(mid, hi))
	}
	return valOf(build(0, len(runs)-1), sg)
}

// index checks 0 <= i < n and returns either a concrete index or a symbolic one.
func (m *Machine) index(iv Val, it types.Type, n int) (int, *Term) {
	if iv.x == nil {
		i := int64(iv.n)
		if b, ok := it.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && iv.n > 1<<62 {
			i = -1
		}
		if i < 0 || i >= int64(n) {
			if m.specul {
				panic(pureBail{})
			}
			m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t, ok := iv.x.(*Term)
	if !ok {
		m.poisonCheck(iv)
		panic(engineErr("index"))
	}
	b := it.Underlying().(*types.Basic)
	w, sg := widthOf(b)
	if w < 64 {
		if sg {
			t = m.tt.Sext(t, 64)
		} else {
			t = m.tt.Zext(t, 64)
		}
	}
	in := m.tt.Bin(OpUlt, t, m.tt.Const(uint64(n), 64))
	if m.specul {
		if in != m.tt.T {
			panic(pureBail{})
		}
	} else if !m.decide(in) {
		m.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return 0, t
}

func (m *Machine) step(fr *frame, ci *cins) {
	switch ci.op {
	case oAlloc:
		v := m.zero(ci.t)
		fr.regs[ci.dst] = Val{x: &v}
	case oUnOp:
		fr.regs[ci.dst] = m.unop(fr, ci)
	case oBinOp:
		fr.regs[ci.dst] = m.binop(ci, fr.get(m, &ci.a), fr.get(m, &ci.b))
	case oBuiltin:
		args := make([]Val, len(ci.args))
		for i := range ci.args {
			args[i] = fr.get(m, &ci.args[i])
		}
		fr.regs[ci.dst] = m.builtin(fr, ci.aux.(*ssa.Builtin), args, ci.t, ci.c.v.x.(*ssa.CallCommon))
	case oCall:
		fr.regs[ci.dst] = m.doCall(fr, ci)
	case oChangeType, oChangeIface:
		fr.regs[ci.dst] = fr.get(m, &ci.a)
	case oConvert:
		fr.regs[ci.dst] = m.convert(fr.get(m, &ci.a), ci.t, ci.aux.(types.Type))
	case oMakeIface:
		fr.regs[ci.dst] = Val{x: &Iface{ci.t, copyVal(fr.get(m, &ci.a))}}
	case oExtract:
		v := fr.get(m, &ci.a)
		t, ok := v.x.(Tuple)
		if !ok {
			m.poisonCheck(v)
			panic(engineErr(fmt.Sprintf("extract of %T", v.x)))
		}
		fr.regs[ci.dst] = t[ci.n]
	case oField:
		v := fr.get(m, &ci.a)
		s, ok := v.x.(Struct)
		if !ok {
			m.poisonCheck(v)
			panic(unsupported(fmt.Sprintf("field of opaque %T", v.x)))
		}
		fr.regs[ci.dst] = copyVal(s[ci.n])
	case oFieldAddr:
		v := fr.get(m, &ci.a)
		p, ok := v.x.(*Val)
		if !ok {
			if v.x == nil {
				if m.specul {
					panic(pureBail{})
				}
				m.nilDeref()
			}
			m.poisonCheck(v)
			if sp, ok := v.x.(*SymPtr); ok {
				if m.specul {
					panic(pureBail{})
				}
				p = &sp.base[m.concretize(sp.idx)]
			} else {
				panic(unsupported(fmt.Sprintf("field address of %T", v.x)))
			}
		}
		s, ok := p.x.(Struct)
		if !ok {
			m.poisonCheck(*p)
			panic(unsupported(fmt.Sprintf("field address in opaque %T", p.x)))
		}
		fr.regs[ci.dst] = Val{x: &s[ci.n]}
	case oIndex:
		x := fr.get(m, &ci.a)
		if isStringT(ci.t) {
			fr.regs[ci.dst] = m.strIndex(x, fr.get(m, &ci.b), ci.aux.(types.Type))
			return
		}
		a := x.x.(Array)
		i, t := m.index(fr.get(m, &ci.b), ci.aux.(types.Type), len(a))
		if t == nil {
			fr.regs[ci.dst] = copyVal(a[i])
		} else {
			fr.regs[ci.dst] = m.finishRead(m.symLoad(a, t), ci.t.Underlying().(*types.Array).Elem())
		}
	case oIndexAddr:
		x := fr.get(m, &ci.a)
		var base []Val
		switch a := x.x.(type) {
		case nil:
			if _, ok := ci.t.Underlying().(*types.Pointer); ok {
				if m.specul {
					panic(pureBail{})
				}
				m.nilDeref()
			}
		case Slice:
			base = a
		case *Val:
			arr, ok := a.x.(Array)
			if !ok {
				m.poisonCheck(*a)
				panic(engineErr(fmt.Sprintf("indexaddr of *%T", a.x)))
			}
			base = arr
		case *DataPtr:
			base = a.s
		default:
			m.poisonCheck(x)
			panic(engineErr(fmt.Sprintf("indexaddr of %T", x.x)))
		}
		i, t := m.index(fr.get(m, &ci.b), ci.aux.(types.Type), len(base))
		if t == nil {
			fr.regs[ci.dst] = Val{x: &base[i]}
		} else {
			fr.regs[ci.dst] = Val{x: &SymPtr{base, t}}
		}
	case oLookup:
		l := ci.aux.(*ssa.Lookup)
		x := fr.get(m, &ci.a)
		k := fr.get(m, &ci.b)
		if isStringT(ci.t) {
			fr.regs[ci.dst] = m.strIndex(x, k, l.Index.Type())
			return
		}
		mp, _ := x.x.(*Map)
		if mp == nil && x.x != nil {
			m.poisonCheck(x)
			panic(engineErr(fmt.Sprintf("lookup in %T", x.x)))
		}
		e := m.mapFind(mp, k)
		var v Val
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = m.zero(ci.t.Underlying().(*types.Map).Elem())
		}
		if l.CommaOk {
			fr.regs[ci.dst] = Val{x: Tuple{v, boolV(e != nil)}}
		} else {
			fr.regs[ci.dst] = v
		}
	case oMakeMap:
		fr.regs[ci.dst] = Val{x: m.newMap(ci.t)}
	case oMakeSlice:
		n := m.concInt(fr.get(m, &ci.a))
		c := m.concInt(fr.get(m, &ci.b))
		if n < 0 || n > 1<<24 {
			m.goPanicStr("runtime error: makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			m.goPanicStr("runtime error: makeslice: cap out of range")
		}
		s := make(Slice, c)
		m.zeroFill(s, ci.t)
		fr.regs[ci.dst] = Val{x: s[:n]}
	case oMakeChan:
		n := m.concInt(fr.get(m, &ci.a))
		if n < 0 || n > 1<<20 {
			m.goPanicStr("makechan: size out of range")
		}
		fr.regs[ci.dst] = Val{x: &chanV{size: int(n)}}
	case oSend:
		m.chanSend(chanOf(m, fr.get(m, &ci.a)), copyVal(fr.get(m, &ci.b)))
	case oSelect:
		x := ci.aux.(*ssa.Select)
		var cs []*chanV
		var vs []Val
		for i := range x.States {
			cs = append(cs, chanOf(m, fr.get(m, &ci.args[2*i])))
			vs = append(vs, copyVal(fr.get(m, &ci.args[2*i+1])))
		}
		k, v, ok := m.selects(x, cs, vs)
		out := Tuple{intV(int64(k)), boolV(ok)}
		for i, st := range x.States {
			if st.Dir != types.RecvOnly {
				continue
			}
			if i != k || !ok {
				out = append(out, m.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			} else {
				out = append(out, v)
			}
		}
		fr.regs[ci.dst] = Val{x: out}
	case oMakeClosure:
		env := make([]Val, len(ci.args))
		for i := range ci.args {
			env[i] = fr.get(m, &ci.args[i])
		}
		fr.regs[ci.dst] = Val{x: &Closure{fn: ci.aux.(*ssa.Function), env: env}}
	case oMapUpdate:
		x := fr.get(m, &ci.a)
		mp, ok := x.x.(*Map)
		if !ok {
			m.poisonCheck(x)
			m.goPanicStr("assignment to entry in nil map")
		}
		m.mapSet(mp, fr.get(m, &ci.b), copyVal(fr.get(m, &ci.c)))
	case oRange:
		fr.regs[ci.dst] = m.rangeIter(fr.get(m, &ci.a), ci.t)
	case oNext:
		fr.regs[ci.dst] = m.next(fr.get(m, &ci.a), ci.aux.(*ssa.Next))
	case oRunDefers:
		m.runDefers(fr)
		if fr.panicking != nil {
			p := *fr.panicking
			fr.panicking = nil
			fr.defers = nil
			panic(p)
		}
		m.cur = fr
	case oSlice:
		fr.regs[ci.dst] = m.sliceOp(fr, ci)
	case oStore:
		a := fr.get(m, &ci.a)
		v := fr.get(m, &ci.b)
		switch p := a.x.(type) {
		case *Val:
			if m.racing() {
				m.trackVal(p, true)
			}
			m.store(p, v)
		case nil:
			m.nilDeref()
		case *SymPtr:
			i := m.concretize(p.idx)
			m.store(&p.base[i], v)
		case poison:
			panic(unsupported("store through poisoned pointer: " + p.why))
		default:
			panic(unsupported(fmt.Sprintf("store through %T", a.x)))
		}
	case oTypeAssert:
		fr.regs[ci.dst] = m.typeAssert(fr.get(m, &ci.a), ci)
	case oPanic:
		v := fr.get(m, &ci.a)
		if v.x == nil {
			m.goPanicStr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(goPanic{v: v, where: m.stack(6)})
	case oDefer:
		m.addDefer(fr, ci)
	case oGo:
		if m.initing > 0 {
			panic(unsupported("goroutine started by an initialiser"))
		}
		m.spawn(m.deferred(nil, fr, ci))
		m.point()
	case oSliceToArr:
		v := fr.get(m, &ci.a)
		s, _ := v.x.(Slice)
		if len(s) < ci.n {
			m.goPanicStr("runtime error: cannot convert slice to array pointer")
		}
		p := Val{x: Array(s[:ci.n:ci.n])}
		fr.regs[ci.dst] = Val{x: &p}
	default:
		panic(unsupported("instruction " + ci.in.String()))
	}
}

func (m *Machine) zeroFill(s []Val, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = m.zero(t)
		}
		_ = u
	default:
		z := m.zero(t)
		if z == (Val{}) {
			return
		}
		for i := range s {
			s[i] = z
		}
	}
}

func (m *Machine) strIndex(x, iv Val, it types.Type) Val {
	n := strLen(x)
	i, t := m.index(iv, it, n)
	if t == nil {
		if s, ok := x.x.(string); ok {
			return Val{n: uint64(s[i])}
		}
		return x.x.(*SStr).bytes()[i]
	}
	return m.finishRead(Val{x: symRead{strBytes(x), t}}, types.Typ[types.Uint8])
}

func (m *Machine) doCall(fr *frame, ci *cins) Val {
	switch f := ci.aux.(type) {
	case *ssa.Function:
		args := make([]Val, len(ci.args), len(ci.args))
		for i := range ci.args {
			args[i] = fr.get(m, &ci.args[i])
		}
		c := m.cfnOf(f)
		ci.aux = c
		return m.callC(c, args, nil, false, nil)
	case *cfn:
		args := make([]Val, len(ci.args), len(ci.args))
		for i := range ci.args {
			args[i] = fr.get(m, &ci.args[i])
		}
		return m.callC(f, args, nil, false, nil)
	case *types.Func:
		r := fr.get(m, &ci.a)
		if r.x == nil {
			m.nilDeref()
		}
		i := asIface(r)
		fn := m.lookupMethod(i.t, f)
		if fn == nil {
			if on, ok := i.v.x.(nativeObj); ok {
				args := make([]Val, 0, len(ci.args))
				for j := range ci.args {
					args = append(args, fr.get(m, &ci.args[j]))
				}
				return on.invoke(m, f.Name(), args)
			}
			panic(engineErr("no method " + f.Name() + " on " + i.t.String()))
		}
		args := make([]Val, len(ci.args)+1)
		args[0] = i.v
		for j := range ci.args {
			args[j+1] = fr.get(m, &ci.args[j])
		}
		return m.call(fn, args, nil)
	}
	f := fr.get(m, &ci.a)
	args := make([]Val, len(ci.args))
	for i := range ci.args {
		args[i] = fr.get(m, &ci.args[i])
	}
	return m.callVal(f, args)
}

type nativeObj interface {
	invoke(m *Machine, name string, args []Val) Val
}

func (m *Machine) addDefer(fr *frame, ci *cins) {
	fr.defers = append(fr.defers, m.deferred(fr, fr, ci))
}

// deferred evaluates the operands of a call that happens later, deferred by the frame by or in a goroutine.
func (m *Machine) deferred(by, fr *frame, ci *cins) func() {
	args := make([]Val, len(ci.args))
	for i := range ci.args {
		args[i] = fr.get(m, &ci.args[i])
	}
	var call func()
	switch f := ci.aux.(type) {
	case *ssa.Function:
		call = func() { m.callC(m.cfnOf(f), args, nil, true, by) }
	case *ssa.Builtin:
		cc := ci.c.v.x.(*ssa.CallCommon)
		t := ci.t
		call = func() { m.builtin(fr, f, args, t, cc) }
	case *types.Func:
		r := fr.get(m, &ci.a)
		if r.x == nil {
			m.nilDeref()
		}
		i := asIface(r)
		fn := m.lookupMethod(i.t, f)
		if fn == nil {
			panic(unsupported("deferred method of a native object"))
		}
		call = func() { m.callC(m.cfnOf(fn), append([]Val{i.v}, args...), nil, true, by) }
	default:
		fv := fr.get(m, &ci.a)
		call = func() {
			c, ok := fv.x.(*Closure)
			if !ok {
				m.nilDeref()
			}
			if c.native != nil {
				c.native(m, args)
				return
			}
			m.callC(m.cfnOf(c.fn), args, c.env, true, by)
		}
	}
	return call
}

func (m *Machine) typeAssert(v Val, ci *cins) Val {
	x := ci.aux.(*ssa.TypeAssert)
	ok := false
	var r Val
	if v.x != nil {
		i := asIface(v)
		if it, isI := ci.t.Underlying().(*types.Interface); isI {
			if m.implements(i.t, it, ci.t) {
				ok, r = true, v
			}
		} else if i.t == ci.t {
			ok, r = true, copyVal(i.v)
		}
	}
	if !ok {
		if !x.CommaOk {
			d := "nil"
			if v.x != nil {
				d = asIface(v).t.String()
			}
			m.goPanicStr("interface conversion: interface is " + d + ", not " + ci.t.String())
		}
		r = m.zero(ci.t)
	}
	if x.CommaOk {
		return Val{x: Tuple{r, boolV(ok)}}
	}
	return r
}

type mapIter struct {
	mp   *Map
	ents []*MEnt
	pos  int
}
type strIter struct {
	s   Val
	pos int
}

func (m *Machine) rangeIter(v Val, t types.Type) Val {
	if isStringT(t) {
		return Val{x: &strIter{s: v}}
	}
	if v.x == nil {
		return Val{x: &mapIter{}}
	}
	mp, ok := v.x.(*Map)
	if !ok {
		m.poisonCheck(v)
		panic(engineErr(fmt.Sprintf("range over %T", v.x)))
	}
	es := m.orderEnts(mp)
	return Val{x: &mapIter{mp: mp, ents: es}}
}

// orderEnts fixes the iteration order of a map: Go leaves it unspecified, so it
// is a nondeterministic choice of the path according to the harness' mode.
func (m *Machine) orderEnts(mp *Map) []*MEnt {
	if mp != nil && m.racing() {
		m.track(mp, false)
	}
	es := mp.live()
	n := len(es)
	if n < 2 || m.initing > 0 {
		return es
	}
	switch m.mapMode {
	case 0: // insertion order
	case 1: // one decision per path: all maps forwards, or all maps backwards
		if m.mapRev < 0 {
			m.mapRev = m.choose(2)
		}
		if m.mapRev == 1 {
			rev(es)
		}
	case 2: // every range statement picks any permutation (n<=3) or any rotation/reversal
		if n <= 3 {
			rest := es
			for len(rest) > 1 {
				k := m.choose(len(rest))
				rest[0], rest[k] = rest[k], rest[0]
				rest = rest[1:]
			}
		} else {
			k := m.choose(n + 1)
			if k == n {
				rev(es)
			} else {
				es = append(append([]*MEnt{}, es[k:]...), es[:k]...)
			}
		}
	case 3: // every range statement: forwards or backwards
		if m.choose(2) == 1 {
			rev(es)
		}
	}
	return es
}

func rev(es []*MEnt) {
	for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
		es[i], es[j] = es[j], es[i]
	}
}

func (m *Machine) next(v Val, x *ssa.Next) Val {
	switch it := v.x.(type) {
	case *mapIter:
		for it.pos < len(it.ents) {
			e := it.ents[it.pos]
			it.pos++
			if e.dead {
				continue
			}
			return Val{x: Tuple{boolV(true), copyVal(e.k), copyVal(e.v)}}
		}
		return Val{x: Tuple{boolV(false), Val{}, Val{}}}
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Val{x: Tuple{boolV(false), Val{}, Val{}}}
		}
		r, w := m.decodeRune(strSub(it.s, it.pos, n))
		p := it.pos
		it.pos += w
		return Val{x: Tuple{boolV(true), intV(int64(p)), r}}
	}
	m.poisonCheck(v)
	panic(engineErr("next"))
}

// decodeRune decodes the first rune of s (non-empty), forking on symbolic bytes.
func (m *Machine) decodeRune(s Val) (Val, int) {
	if cs, ok := s.x.(string); ok {
		r, w := utf8.DecodeRuneInString(cs)
		return intV(int64(r)), w
	}
	b := s.x.(*SStr).bytes()
	b0 := m.byteTerm(b[0])
	c := func(v uint64) *Term { return m.tt.Const(v, 8) }
	if m.decide(m.tt.Bin(OpUlt, b0, c(0x80))) {
		return valOf(m.tt.Zext(b0, 32), true), 1
	}
	bad := intV(0xFFFD)
	if len(b) < 2 || m.decide(m.tt.Or(m.tt.Bin(OpUlt, b0, c(0xC2)), m.tt.Bin(OpUlt, c(0xF4), b0))) {
		return bad, 1
	}
	b1 := m.byteTerm(b[1])
	in := func(x *Term, lo, hi *Term) *Term { return m.tt.And(m.tt.Bin(OpUle, lo, x), m.tt.Bin(OpUle, x, hi)) }
	z := func(x *Term, mask uint64, sh uint64) *Term {
		return m.tt.Bin(OpShl, m.tt.Bin(OpAnd, m.tt.Zext(x, 32), m.tt.Const(mask, 32)), m.tt.Const(sh, 32))
	}
	or := func(xs ...*Term) *Term {
		r := xs[0]
		for _, x := range xs[1:] {
			r = m.tt.Bin(OpOr, r, x)
		}
		return r
	}
	if m.decide(m.tt.Bin(OpUlt, b0, c(0xE0))) {
		if !m.decide(in(b1, c(0x80), c(0xBF))) {
			return bad, 1
		}
		return valOf(or(z(b0, 0x1F, 6), z(b1, 0x3F, 0)), true), 2
	}
	if m.decide(m.tt.Bin(OpUlt, b0, c(0xF0))) {
		lo := m.tt.Ite(m.tt.Bin(OpEq, b0, c(0xE0)), c(0xA0), c(0x80))
		hi := m.tt.Ite(m.tt.Bin(OpEq, b0, c(0xED)), c(0x9F), c(0xBF))
		if len(b) < 3 || !m.decide(m.tt.And(in(b1, lo, hi), in(m.byteTerm(b[2]), c(0x80), c(0xBF)))) {
			return bad, 1
		}
		return valOf(or(z(b0, 0x0F, 12), z(b1, 0x3F, 6), z(m.byteTerm(b[2]), 0x3F, 0)), true), 3
	}
	lo := m.tt.Ite(m.tt.Bin(OpEq, b0, c(0xF0)), c(0x90), c(0x80))
	hi := m.tt.Ite(m.tt.Bin(OpEq, b0, c(0xF4)), c(0x8F), c(0xBF))
	if len(b) < 4 || !m.decide(m.tt.And(in(b1, lo, hi), m.tt.And(in(m.byteTerm(b[2]), c(0x80), c(0xBF)), in(m.byteTerm(b[3]), c(0x80), c(0xBF))))) {
		return bad, 1
	}
	return valOf(or(z(b0, 0x07, 18), z(b1, 0x3F, 12), z(m.byteTerm(b[2]), 0x3F, 6), z(m.byteTerm(b[3]), 0x3F, 0)), true), 4
}

// encodeRune converts a rune value to its UTF-8 string.
func (m *Machine) encodeRune(r Val) Val {
	t, ok := r.x.(*Term)
	if !ok {
		return strV(string(rune(int64(r.n))))
	}
	t = m.tt.Trunc(t, 32)
	c := func(v uint64) *Term { return m.tt.Const(v, 32) }
	lt := func(v uint64) bool { return m.decide(m.tt.Bin(OpUlt, t, c(v))) }
	by := func(sh uint64, mask, or uint64) Val {
		x := m.tt.Bin(OpAnd, m.tt.Bin(OpLshr, t, c(sh)), c(mask))
		return valOf(m.tt.Bin(OpOr, m.tt.Trunc(x, 8), m.tt.Const(or, 8)), false)
	}
	switch {
	case lt(0x80):
		return mkStr([]Val{valOf(m.tt.Trunc(t, 8), false)})
	case lt(0x800):
		return mkStr([]Val{by(6, 0x1F, 0xC0), by(0, 0x3F, 0x80)})
	case !lt(0x110000), !lt(0xD800) && lt(0xE000):
		return strV("\uFFFD")
	case lt(0x10000):
		return mkStr([]Val{by(12, 0x0F, 0xE0), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)})
	}
	return mkStr([]Val{by(18, 0x07, 0xF0), by(12, 0x3F, 0x80), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)})
}

func (m *Machine) sliceOp(fr *frame, ci *cins) Val {
	x := ci.aux.(*ssa.Slice)
	v := fr.get(m, &ci.a)
	var n, c int
	var base Slice
	str := isStringT(ci.t)
	switch a := v.x.(type) {
	case Slice:
		base = a
		n, c = len(a), cap(a)
	case *Val:
		arr, ok := a.x.(Array)
		if !ok {
			m.poisonCheck(*a)
			panic(engineErr("slice of *non-array"))
		}
		base = Slice(arr)
		n, c = len(arr), len(arr)
	case nil:
		if _, ok := ci.t.Underlying().(*types.Pointer); ok {
			m.nilDeref()
		}
	case string, *SStr:
		n = strLen(v)
		c = n
	default:
		m.poisonCheck(v)
		panic(engineErr(fmt.Sprintf("slice of %T", v.x)))
	}
	lo, hi, mx := int64(0), int64(n), int64(c)
	if x.Low != nil {
		lo = m.concInt(fr.get(m, &ci.b))
	}
	if x.High != nil {
		hi = m.concInt(fr.get(m, &ci.c))
	}
	if x.Max != nil {
		mx = m.concInt(fr.get(m, &ci.d))
	}
	if mx < 0 || mx > int64(c) || hi < 0 || hi > mx || lo < 0 || lo > hi {
		m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
	}
	if str {
		return strSub(v, int(lo), int(hi))
	}
	if base == nil {
		return Val{}
	}
	return Val{x: base[lo:hi:mx]}
}

func (m *Machine) unop(fr *frame, ci *cins) Val {
	v := fr.get(m, &ci.a)
	x := ci.aux.(types.Type)
	switch token.Token(ci.n) {
	case token.ARROW:
		c := chanOf(m, v)
		r, ok := m.chanRecv(c)
		if !ok {
			r = m.zero(ci.t.Underlying().(*types.Chan).Elem())
		}
		if _, two := x.(*types.Tuple); two {
			return tuple(r, boolV(ok))
		}
		return r
	case token.MUL:
		if v.x == nil && m.specul {
			panic(pureBail{})
		}
		r := m.load(v)
		if _, ok := r.x.(symRead); ok {
			return m.finishRead(r, x)
		}
		return r
	case token.NOT:
		if t, ok := v.x.(*Term); ok {
			return valOf(m.tt.Not(t), false)
		}
		m.poisonCheck(v)
		return Val{n: 1 - v.n}
	case token.SUB:
		b := ci.t.Underlying().(*types.Basic)
		if b.Info()&types.IsFloat != 0 {
			return f64bits(-m.f64(v, b))
		}
		if b.Info()&types.IsComplex != 0 {
			return Val{x: -v.x.(complex128)}
		}
		w, sg := widthOf(b)
		return valOf(m.tt.Un(OpNeg, m.term(v, w)), sg)
	case token.XOR:
		w, sg := widthOf(ci.t.Underlying().(*types.Basic))
		return valOf(m.tt.Un(OpNotBV, m.term(v, w)), sg)
	}
	panic(unsupported("unop " + ci.in.String()))
}

func normInt(v uint64, w uint8, sg bool) uint64 {
	if w == 64 || w == 0 {
		return v
	}
	if sg {
		return uint64(sextW(v, w))
	}
	return v & maskW(w)
}

func (m *Machine) binop(ci *cins, a, b Val) Val {
	op := token.Token(ci.n)
	if ci.aux == nil { // not integer/bool
		switch op {
		case token.EQL:
			return valOf(m.eq(ci.t, a, b), false)
		case token.NEQ:
			return valOf(m.tt.Not(m.eq(ci.t, a, b)), false)
		}
		bt := ci.t.Underlying().(*types.Basic)
		if bt.Info()&types.IsString != 0 {
			switch op {
			case token.ADD:
				return strCat(a, b)
			case token.LSS:
				return valOf(m.strLess(a, b, false), false)
			case token.LEQ:
				return valOf(m.strLess(a, b, true), false)
			case token.GTR:
				return valOf(m.strLess(b, a, false), false)
			case token.GEQ:
				return valOf(m.strLess(b, a, true), false)
			}
		}
		if bt.Info()&types.IsFloat != 0 {
			x, y := m.f64(a, bt), m.f64(b, bt)
			f := func(r float64) Val {
				if bt.Kind() == types.Float32 {
					r = float64(float32(r))
				}
				return f64bits(r)
			}
			switch op {
			case token.ADD:
				return f(x + y)
			case token.SUB:
				return f(x - y)
			case token.MUL:
				return f(x * y)
			case token.QUO:
				return f(x / y)
			case token.LSS:
				return boolV(x < y)
			case token.LEQ:
				return boolV(x <= y)
			case token.GTR:
				return boolV(x > y)
			case token.GEQ:
				return boolV(x >= y)
			}
		}
		panic(unsupported("binop " + ci.in.String()))
	}
	w, sg := ci.w, ci.sg
	if a.x == nil && b.x == nil {
		x, y := a.n, b.n
		switch op {
		case token.ADD:
			return Val{n: normInt(x+y, w, sg)}
		case token.SUB:
			return Val{n: normInt(x-y, w, sg)}
		case token.MUL:
			return Val{n: normInt(x*y, w, sg)}
		case token.QUO, token.REM:
			if y == 0 {
				m.goPanicStr("runtime error: integer divide by zero")
			}
			if sg {
				if int64(y) == -1 {
					if op == token.REM {
						return Val{}
					}
					return Val{n: normInt(-x, w, sg)}
				}
				if op == token.QUO {
					return Val{n: normInt(uint64(int64(x)/int64(y)), w, sg)}
				}
				return Val{n: normInt(uint64(int64(x)%int64(y)), w, sg)}
			}
			if op == token.QUO {
				return Val{n: x / y}
			}
			return Val{n: x % y}
		case token.AND:
			return Val{n: x & y}
		case token.OR:
			return Val{n: x | y}
		case token.XOR:
			return Val{n: normInt(x^y, w, sg)}
		case token.AND_NOT:
			return Val{n: normInt(x&^y, w, sg)}
		case token.SHL:
			if ci.d.v.n == 1 && int64(y) < 0 {
				m.goPanicStr("runtime error: negative shift amount")
			}
			if y >= 64 {
				return Val{}
			}
			return Val{n: normInt(x<<y, w, sg)}
		case token.SHR:
			if ci.d.v.n == 1 && int64(y) < 0 {
				m.goPanicStr("runtime error: negative shift amount")
			}
			if sg {
				if y >= 64 {
					y = 63
				}
				return Val{n: uint64(int64(x) >> y)}
			}
			if y >= 64 {
				return Val{}
			}
			return Val{n: x >> y}
		case token.EQL:
			return boolV(x == y)
		case token.NEQ:
			return boolV(x != y)
		case token.LSS:
			if sg {
				return boolV(int64(x) < int64(y))
			}
			return boolV(x < y)
		case token.LEQ:
			if sg {
				return boolV(int64(x) <= int64(y))
			}
			return boolV(x <= y)
		case token.GTR:
			if sg {
				return boolV(int64(x) > int64(y))
			}
			return boolV(x > y)
		case token.GEQ:
			if sg {
				return boolV(int64(x) >= int64(y))
			}
			return boolV(x >= y)
		}
		panic(engineErr("binop " + op.String()))
	}
	tt := m.tt
	if op == token.SHL || op == token.SHR {
		x := m.term(a, w)
		yw := uint8(ci.c.i)
		y := m.term(b, yw)
		if ci.d.v.n == 1 {
			neg := tt.Bin(OpSlt, y, tt.Const(0, yw))
			if m.decide(neg) {
				m.goPanicStr("runtime error: negative shift amount")
			}
		}
		if yw < w {
			y = tt.Zext(y, w)
		} else if yw > w {
			y = tt.Ite(tt.Bin(OpUlt, y, tt.Const(uint64(w), yw)), tt.Trunc(y, w), tt.Const(uint64(w), w))
		}
		o := OpShl
		if op == token.SHR {
			o = OpLshr
			if sg {
				o = OpAshr
			}
		}
		return valOf(tt.Bin(o, x, y), sg)
	}
	x, y := m.term(a, w), m.term(b, w)
	if w == 0 {
		switch op {
		case token.EQL:
			return valOf(tt.Bin(OpEq, x, y), false)
		case token.NEQ:
			return valOf(tt.Not(tt.Bin(OpEq, x, y)), false)
		case token.AND:
			return valOf(tt.And(x, y), false)
		case token.OR:
			return valOf(tt.Or(x, y), false)
		}
	}
	pick := func(s, u Op) Op {
		if sg {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return valOf(tt.Bin(OpAdd, x, y), sg)
	case token.SUB:
		return valOf(tt.Bin(OpSub, x, y), sg)
	case token.MUL:
		return valOf(tt.Bin(OpMul, x, y), sg)
	case token.QUO, token.REM:
		if m.decide(tt.Bin(OpEq, y, tt.Const(0, w))) {
			m.goPanicStr("runtime error: integer divide by zero")
		}
		if op == token.QUO {
			return valOf(tt.Bin(pick(OpSDiv, OpUDiv), x, y), sg)
		}
		return valOf(tt.Bin(pick(OpSRem, OpURem), x, y), sg)
	case token.AND:
		return valOf(tt.Bin(OpAnd, x, y), sg)
	case token.OR:
		return valOf(tt.Bin(OpOr, x, y), sg)
	case token.XOR:
		return valOf(tt.Bin(OpXor, x, y), sg)
	case token.AND_NOT:
		return valOf(tt.Bin(OpAnd, x, tt.Un(OpNotBV, y)), sg)
	case token.EQL:
		return valOf(tt.Bin(OpEq, x, y), false)
	case token.NEQ:
		return valOf(tt.Not(tt.Bin(OpEq, x, y)), false)
	case token.LSS:
		return valOf(tt.Bin(pick(OpSlt, OpUlt), x, y), false)
	case token.LEQ:
		return valOf(tt.Bin(pick(OpSle, OpUle), x, y), false)
	case token.GTR:
		return valOf(tt.Bin(pick(OpSlt, OpUlt), y, x), false)
	case token.GEQ:
		return valOf(tt.Bin(pick(OpSle, OpUle), y, x), false)
	}
	panic(engineErr("binop " + op.String()))
}

func (m *Machine) convert(v Val, from, to types.Type) Val {
	if p, ok := v.x.(poison); ok {
		panic(unsupported("use of poisoned value: " + p.why))
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			return v
		}
		if tb.Info()&types.IsString != 0 {
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				if t, ok := v.x.(*Term); ok {
					w, sg := widthOf(f)
					if w > 32 {
						// out-of-range values become U+FFFD
						if m.decide(m.tt.Bin(OpUlt, t, m.tt.Const(0x110000, w))) {
							return m.encodeRune(Val{x: m.tt.Trunc(t, 32)})
						}
						return strV("\uFFFD")
					}
					if w < 32 {
						if sg {
							t = m.tt.Sext(t, 32)
						} else {
							t = m.tt.Zext(t, 32)
						}
					}
					return m.encodeRune(Val{x: t})
				}
				n := int64(v.n)
				if n < 0 || n > 0x10FFFF {
					return strV("\uFFFD")
				}
				return strV(string(rune(n)))
			case *types.Slice:
				s, _ := v.x.(Slice)
				if f.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					return mkStr(s)
				}
				r := strV("")
				conc := true
				for i := range s {
					if s[i].x != nil {
						conc = false
					}
				}
				if conc {
					rs := make([]rune, len(s))
					for i := range s {
						rs[i] = rune(int64(s[i].n))
					}
					return strV(string(rs))
				}
				for i := range s {
					r = strCat(r, m.encodeRune(s[i]))
				}
				return r
			}
		}
		if fb, ok := fu.(*types.Basic); ok {
			fi, ti := fb.Info(), tb.Info()
			switch {
			case fb.Kind() == types.UnsafePointer:
				if v.x == nil {
					return Val{}
				}
				return Val{n: m.addrID(v.x)}
			case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
				w, sg := widthOf(tb)
				if t, ok := v.x.(*Term); ok {
					fw, fsg := widthOf(fb)
					switch {
					case fw == w:
						return valOf(t, sg)
					case fw > w:
						return valOf(m.tt.Trunc(t, w), sg)
					case fsg:
						return valOf(m.tt.Sext(t, w), sg)
					}
					return valOf(m.tt.Zext(t, w), sg)
				}
				return Val{n: normInt(v.n, w, sg)}
			case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
				if t, ok := v.x.(*Term); ok {
					_, sg := widthOf(fb)
					u := m.concretize(t)
					if sg {
						u = uint64(sextW(u, t.w))
					}
					v = Val{n: u}
				}
				f := float64(int64(v.n))
				if fi&types.IsUnsigned != 0 {
					f = float64(v.n)
				}
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f64bits(f)
			case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
				f := m.f64(v, fb)
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f64bits(f)
			case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
				f := m.f64(v, fb)
				w, sg := widthOf(tb)
				if sg {
					return Val{n: normInt(uint64(int64(f)), w, sg)}
				}
				return Val{n: normInt(uint64(f), w, sg)}
			case fi&types.IsComplex != 0 && ti&types.IsComplex != 0:
				return v
			case fi&types.IsBoolean != 0 && ti&types.IsBoolean != 0:
				return v
			}
		}
	}
	if fb, ok := fu.(*types.Basic); ok {
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			if ts.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				b := strBytes(v)
				s := make(Slice, len(b), roundCap(len(b), 1))
				copy(s, b)
				return Val{x: s}
			}
			var out Slice
			n := strLen(v)
			for i := 0; i < n; {
				r, w := m.decodeRune(strSub(v, i, n))
				out = append(out, r)
				i += w
			}
			if out == nil {
				out = Slice{}
			}
			return Val{x: out[:len(out):len(out)]}
		}
		if fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func (m *Machine) addrID(x any) uint64 {
	if id, ok := m.addrIDs[x]; ok {
		return id
	}
	id := uint64(0xc000000000 + 16*(len(m.addrIDs)+1))
	m.addrIDs[x] = id
	return id
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n int, esz int) int {
	if esz == 0 {
		return n
	}
	mem := n * esz
	if mem <= 32768 {
		for _, c := range sizeClasses {
			if c >= mem {
				return c / esz
			}
		}
	}
	return (mem + 8191) / 8192 * 8192 / esz
}

func (m *Machine) growCap(oldCap, newLen int, et types.Type) int {
	esz := int(m.sizes.Sizeof(et))
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return nc
	}
	return roundCap(nc, esz)
}

func (m *Machine) appendVals(s Slice, add []Val, et types.Type) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		o := s[:n]
		for i, v := range add {
			m.store(&o[len(s)+i], v)
		}
		return o
	}
	c := m.growCap(cap(s), n, et)
	o := make(Slice, n, c)
	// moved elements are copies; spare capacity must be zero values
	for i := range s {
		o[i] = copyVal(s[i])
	}
	for i, v := range add {
		o[len(s)+i] = copyVal(v)
	}
	if z := m.zero(et); z != (Val{}) {
		full := o[:c]
		for i := n; i < c; i++ {
			full[i] = m.zero(et)
		}
	}
	return o
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Val, t types.Type, cc *ssa.CallCommon) Val {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].x.(type) {
		case nil:
			return Val{}
		case string:
			return intV(int64(len(x)))
		case *SStr:
			return intV(int64(len(x.bytes())))
		case Slice:
			if b.Name() == "cap" {
				return intV(int64(cap(x)))
			}
			return intV(int64(len(x)))
		case Array:
			return intV(int64(len(x)))
		case *Val:
			return intV(int64(len(x.x.(Array))))
		case *Map:
			return intV(int64(x.n))
		case *chanV:
			if b.Name() == "cap" {
				return intV(int64(x.size))
			}
			return intV(int64(len(x.buf)))
		}
		m.poisonCheck(args[0])
	case "append":
		var s Slice
		if args[0].x != nil {
			s = args[0].x.(Slice)
		}
		et := t.Underlying().(*types.Slice).Elem()
		var add []Val
		if len(args) > 1 {
			switch x := args[1].x.(type) {
			case nil:
			case Slice:
				add = x
			case string, *SStr:
				add = strBytes(args[1])
			default:
				m.poisonCheck(args[1])
				panic(engineErr("append"))
			}
		}
		if len(add) == 0 {
			return args[0]
		}
		// source may overlap destination: take a copy first
		tmp := copyVals(add)
		return Val{x: m.appendVals(s, tmp, et)}
	case "copy":
		var d Slice
		if args[0].x != nil {
			d = args[0].x.(Slice)
		}
		var src []Val
		switch x := args[1].x.(type) {
		case nil:
		case Slice:
			src = x
		default:
			src = strBytes(args[1])
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := copyVals(src[:n])
		for i := 0; i < n; i++ {
			m.store(&d[i], tmp[i])
		}
		return intV(int64(n))
	case "delete":
		mp, _ := args[0].x.(*Map)
		m.mapDelete(mp, args[1])
		return Val{}
	case "panic":
		panic(goPanic{v: args[0], where: m.stack(6)})
	case "recover":
		return m.doRecover(fr)
	case "print", "println":
		return Val{}
	case "min", "max":
		bt := t.Underlying().(*types.Basic)
		r := args[0]
		for _, a := range args[1:] {
			switch {
			case bt.Info()&types.IsString != 0:
				c := m.strLess(a, r, false)
				if b.Name() == "max" {
					c = m.strLess(r, a, false)
				}
				if m.decide(c) {
					r = a
				}
			case bt.Info()&types.IsFloat != 0:
				x, y := m.f64(r, bt), m.f64(a, bt)
				if b.Name() == "max" {
					r = f64bits(math.Max(x, y))
				} else {
					r = f64bits(math.Min(x, y))
				}
			default:
				w, sg := widthOf(bt)
				o := OpUlt
				if sg {
					o = OpSlt
				}
				x, y := m.term(r, w), m.term(a, w)
				c := m.tt.Bin(o, y, x)
				if b.Name() == "max" {
					c = m.tt.Bin(o, x, y)
				}
				r = valOf(m.tt.Ite(c, y, x), sg)
			}
		}
		return r
	case "clear":
		switch x := args[0].x.(type) {
		case *Map:
			m.mapDirty(x)
			for _, e := range x.ents {
				e.dead = true
			}
			x.ents, x.idx, x.n, x.nsym = nil, map[any]*MEnt{}, 0, 0
		case Slice:
			et := t.Underlying().(*types.Slice).Elem()
			for i := range x {
				m.store(&x[i], m.zero(et))
			}
		}
		return Val{}
	case "ssa:wrapnilchk":
		if args[0].x == nil {
			m.nilDeref()
		}
		return args[0]
	case "close":
		m.chanClose(chanOf(m, args[0]))
		return Val{}
	case "real":
		return f64bits(real(args[0].x.(complex128)))
	case "imag":
		return f64bits(imag(args[0].x.(complex128)))
	case "complex":
		return Val{x: complex(math.Float64frombits(args[0].n), math.Float64frombits(args[1].n))}
	case "SliceData", "StringData":
		switch x := args[0].x.(type) {
		case nil:
			return Val{}
		case Slice:
			return Val{x: &DataPtr{x}}
		default:
			return Val{x: &DataPtr{Slice(strBytes(args[0]))}}
		}
	case "String", "Slice":
		n := int(m.concInt(args[1]))
		var s Slice
		switch p := args[0].x.(type) {
		case nil:
			if b.Name() == "String" {
				return strV("")
			}
			return Val{}
		case *DataPtr:
			s = p.s
			if len(s) < n && cap(s) >= n {
				s = s[:n]
			}
		case *Val:
			if n == 1 {
				s = Slice{*p}
			} else if n != 0 {
				panic(unsupported("unsafe." + b.Name()))
			}
		default:
			panic(unsupported("unsafe." + b.Name()))
		}
		if b.Name() == "String" {
			return mkStr(s[:n])
		}
		return Val{x: s[:n:n]}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (m *Machine) doRecover(fr *frame) Val {
	// fr is the deferred function; its panicOf frame is the one unwinding
	if fr == nil || !fr.deferCall || fr.panicOf == nil || fr.panicOf.panicking == nil {
		return Val{}
	}
	p := fr.panicOf.panicking
	fr.panicOf.panicking = nil
	return p.v
}
