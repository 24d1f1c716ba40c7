package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) expression.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLshr
	OpAshr
	OpNotBV
	OpNeg
	OpZext
	OpSext
	OpTrunc
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
)

var opSMT = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpNotBV: "bvnot", OpNeg: "bvneg",
	OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBAnd: "and", OpBOr: "or", OpBNot: "not",
}

type Term struct {
	op      Op
	w       uint8 // 0: bool
	a, b, c *Term
	v       uint64 // const value, or variable index
	id      uint32
	size    uint32
	vars    []int32 // sorted variable ids
	ep      uint32
	ev      uint64
	defd    bool // defined in current solver process
	canon   *Term
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	v       uint64
}

type TermTab struct {
	tab   map[termKey]*Term
	next  uint32
	vars  map[int32]*Term
	epoch uint32
	T, F  *Term
}

func newTermTab() *TermTab {
	t := &TermTab{tab: map[termKey]*Term{}, vars: map[int32]*Term{}}
	t.F = t.mk(OpConst, 0, nil, nil, nil, 0)
	t.T = t.mk(OpConst, 0, nil, nil, nil, 1)
	return t
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(xs ...*Term) []int32 {
	var base []int32
	n := 0
	for _, x := range xs {
		if x != nil && len(x.vars) > 0 {
			n++
			base = x.vars
		}
	}
	if n <= 1 {
		return base
	}
	m := map[int32]bool{}
	for _, x := range xs {
		if x != nil {
			for _, v := range x.vars {
				m[v] = true
			}
		}
	}
	if len(m) == len(base) {
		return base
	}
	out := make([]int32, 0, len(m))
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (t *TermTab) mk(op Op, w uint8, a, b, c *Term, v uint64) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), v}
	if x, ok := t.tab[k]; ok {
		return x
	}
	t.next++
	x := &Term{op: op, w: w, a: a, b: b, c: c, v: v, id: t.next}
	x.size = 1
	for _, s := range [3]*Term{a, b, c} {
		if s != nil {
			x.size += s.size
			if x.size > 1<<30 {
				x.size = 1 << 30
			}
		}
	}
	if op == OpVar {
		x.vars = []int32{int32(v)}
	} else {
		x.vars = mergeVars(a, b, c)
	}
	t.tab[k] = x
	return x
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sextW(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *TermTab) Const(v uint64, w uint8) *Term {
	return t.mk(OpConst, w, nil, nil, nil, v&maskW(w))
}
func (t *TermTab) Bool(b bool) *Term {
	if b {
		return t.T
	}
	return t.F
}

// Var returns the variable of input number n; its id does not depend on the
// machine that created it, so models can travel between machines.
func (t *TermTab) Var(n int, w uint8) *Term {
	code := map[uint8]int{0: 0, 8: 1, 16: 2, 32: 3, 64: 4}[w]
	id := int32(n*8 + code)
	if x, ok := t.vars[id]; ok {
		return x
	}
	x := t.mk(OpVar, w, nil, nil, nil, uint64(id))
	t.vars[id] = x
	return x
}

func (x *Term) isConst() bool { return x.op == OpConst }

// apply evaluates an operator on constants.
func applyOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	m := maskW(w)
	if w == 0 {
		m = 1
	}
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		sa, sb := sextW(a, w), sextW(b, w)
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OpSRem:
		sa, sb := sextW(a, w), sextW(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		s := sextW(a, w)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(s>>b) & m
	case OpNotBV:
		return ^a & m
	case OpNeg:
		return -a & m
	case OpZext:
		return a
	case OpSext:
		return uint64(sextW(a, aw)) & m
	case OpTrunc:
		return a & m
	case OpIte:
		if a != 0 {
			return b
		}
		return c
	case OpEq:
		return bo(a == b)
	case OpUlt:
		return bo(a < b)
	case OpUle:
		return bo(a <= b)
	case OpSlt:
		return bo(sextW(a, aw) < sextW(b, aw))
	case OpSle:
		return bo(sextW(a, aw) <= sextW(b, aw))
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBNot:
		return 1 - a
	}
	panic("applyOp")
}

func (t *TermTab) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.v == 0)
	}
	if a.op == OpBNot {
		return a.a
	}
	switch a.op {
	case OpUlt:
		return t.Bin(OpUle, a.b, a.a)
	case OpUle:
		return t.Bin(OpUlt, a.b, a.a)
	case OpSlt:
		return t.Bin(OpSle, a.b, a.a)
	case OpSle:
		return t.Bin(OpSlt, a.b, a.a)
	}
	return t.mk(OpBNot, 0, a, nil, nil, 0)
}

func (t *TermTab) And(a, b *Term) *Term {
	switch {
	case a == t.F || b == t.F:
		return t.F
	case a == t.T:
		return b
	case b == t.T:
		return a
	case a == b:
		return a
	case (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a):
		return t.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OpBAnd, 0, a, b, nil, 0)
}
func (t *TermTab) Or(a, b *Term) *Term {
	switch {
	case a == t.T || b == t.T:
		return t.T
	case a == t.F:
		return b
	case b == t.F:
		return a
	case a == b:
		return a
	case (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a):
		return t.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OpBOr, 0, a, b, nil, 0)
}

func (t *TermTab) Ite(c, a, b *Term) *Term {
	if c == t.T {
		return a
	}
	if c == t.F {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == t.T && b == t.F {
			return c
		}
		if a == t.F && b == t.T {
			return t.Not(c)
		}
		return t.Or(t.And(c, a), t.And(t.Not(c), b))
	}
	if c.op == OpBNot {
		return t.Ite(c.a, b, a)
	}
	return t.mk(OpIte, a.w, c, a, b, 0)
}

func (t *TermTab) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(a.v, w)
	}
	if a.op == OpZext {
		return t.Zext(a.a, w)
	}
	if a.op == OpIte && a.b.isConst() && a.c.isConst() {
		return t.Ite(a.a, t.Const(a.b.v, w), t.Const(a.c.v, w))
	}
	return t.mk(OpZext, w, a, nil, nil, 0)
}
func (t *TermTab) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(uint64(sextW(a.v, a.w)), w)
	}
	if a.op == OpZext {
		return t.Zext(a.a, w)
	}
	if a.op == OpIte && a.b.isConst() && a.c.isConst() {
		return t.Ite(a.a, t.Const(uint64(sextW(a.b.v, a.w)), w), t.Const(uint64(sextW(a.c.v, a.w)), w))
	}
	return t.mk(OpSext, w, a, nil, nil, 0)
}
func (t *TermTab) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(a.v, w)
	}
	if a.op == OpZext || a.op == OpSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return t.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return t.Zext(a.a, w)
		}
		return t.Sext(a.a, w)
	}
	if a.op == OpTrunc {
		return t.Trunc(a.a, w)
	}
	if a.op == OpIte && a.b.isConst() && a.c.isConst() {
		return t.Ite(a.a, t.Const(a.b.v, w), t.Const(a.c.v, w))
	}
	return t.mk(OpTrunc, w, a, nil, nil, 0)
}

// umax returns an upper bound of the unsigned value.
func (x *Term) umax() uint64 {
	switch x.op {
	case OpConst:
		return x.v
	case OpZext:
		return x.a.umax()
	case OpAnd:
		m := x.a.umax()
		if n := x.b.umax(); n < m {
			m = n
		}
		return m
	case OpIte:
		if x.size < 64 {
			m := x.b.umax()
			if n := x.c.umax(); n > m {
				m = n
			}
			return m
		}
	case OpLshr:
		if x.b.isConst() && x.b.v < 64 {
			return x.a.umax() >> x.b.v
		}
	case OpAdd, OpOr:
		if x.size < 64 {
			p, q := x.a.umax(), x.b.umax()
			if bits.Len64(p) < 62 && bits.Len64(q) < 62 {
				if p+q <= maskW(x.w) {
					return p + q
				}
			}
		}
	case OpShl:
		if x.b.isConst() && x.b.v < 32 {
			p := x.a.umax()
			if bits.Len64(p)+int(x.b.v) <= int(x.w) {
				return p << x.b.v
			}
		}
	}
	return maskW(x.w)
}

// narrowest w such that t fits by zero extension
func (t *TermTab) narrow(a *Term) *Term {
	if a.op == OpZext {
		return a.a
	}
	return a
}

func (t *TermTab) Bin(op Op, a, b *Term) *Term {
	rw := a.w
	switch op {
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		rw = 0
	}
	if a.isConst() && b.isConst() {
		return t.constOf(applyOp(op, rw, a.w, a.v, b.v, 0), rw)
	}
	switch op {
	case OpEq:
		if a == b {
			return t.T
		}
		if a.w == 0 {
			if a.isConst() {
				a, b = b, a
			}
			if b == t.T {
				return a
			}
			if b == t.F {
				return t.Not(a)
			}
			return t.Or(t.And(a, b), t.And(t.Not(a), t.Not(b)))
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OpZext:
				if b.v > maskW(a.a.w) {
					return t.F
				}
				return t.Bin(OpEq, a.a, t.Const(b.v, a.a.w))
			case OpSext:
				if uint64(sextW(b.v, a.a.w))&maskW(a.w) != b.v {
					return t.F
				}
				return t.Bin(OpEq, a.a, t.Const(b.v, a.a.w))
			case OpAdd:
				if a.b.isConst() {
					return t.Bin(OpEq, a.a, t.Const(b.v-a.b.v, a.w))
				}
			case OpSub:
				if a.b.isConst() {
					return t.Bin(OpEq, a.a, t.Const(b.v+a.b.v, a.w))
				}
			case OpXor:
				if a.b.isConst() {
					return t.Bin(OpEq, a.a, t.Const(b.v^a.b.v, a.w))
				}
			case OpIte:
				if a.b.isConst() && a.c.isConst() || a.size < 200 && (a.b.isConst() || a.c.isConst()) {
					return t.Ite(a.a, t.Bin(OpEq, a.b, b), t.Bin(OpEq, a.c, b))
				}
			}
			if b.v > a.umax() {
				return t.F
			}
		} else if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return t.Bin(OpEq, a.a, b.a)
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OpUlt, OpUle:
		if a == b {
			return t.Bool(op == OpUle)
		}
		if b.isConst() {
			if op == OpUlt && b.v == 0 {
				return t.F
			}
			mx := a.umax()
			if op == OpUlt && mx < b.v || op == OpUle && mx <= b.v {
				return t.T
			}
			if a.op == OpZext {
				return t.Bin(op, a.a, t.Const(b.v, a.a.w)) // b.v fits since mx >= b.v
			}
			if a.op == OpIte && a.b.isConst() && a.c.isConst() {
				return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
			}
			if op == OpUlt && b.v == 1 {
				return t.Bin(OpEq, a, t.Const(0, a.w))
			}
			if op == OpUle && b.v == 0 {
				return t.Bin(OpEq, a, b)
			}
		}
		if a.isConst() {
			if op == OpUle && a.v == 0 {
				return t.T
			}
			mx := b.umax()
			if op == OpUlt && a.v >= mx || op == OpUle && a.v > mx {
				return t.F
			}
			if b.op == OpZext {
				return t.Bin(op, t.Const(a.v, b.a.w), b.a)
			}
			if b.op == OpIte && b.b.isConst() && b.c.isConst() {
				return t.Ite(b.a, t.Bin(op, a, b.b), t.Bin(op, a, b.c))
			}
		}
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return t.Bin(op, a.a, b.a)
		}
	case OpSlt, OpSle:
		if a == b {
			return t.Bool(op == OpSle)
		}
		half := uint64(1) << (a.w - 1)
		am, bm := a.umax(), b.umax()
		if am < half && bm < half {
			if op == OpSlt {
				return t.Bin(OpUlt, a, b)
			}
			return t.Bin(OpUle, a, b)
		}
		if b.isConst() && sextW(b.v, a.w) < 0 && am < half {
			return t.F
		}
		if a.isConst() && sextW(a.v, a.w) < 0 && bm < half {
			return t.T
		}
		if a.op == OpSext && b.isConst() {
			sb := sextW(b.v, b.w)
			lo, hi := -(int64(1) << (a.a.w - 1)), int64(1)<<(a.a.w-1)-1
			if sb > hi {
				return t.T
			}
			if sb < lo {
				return t.F
			}
			return t.Bin(op, a.a, t.Const(uint64(sb), a.a.w))
		}
		if b.op == OpSext && a.isConst() {
			sa := sextW(a.v, a.w)
			lo, hi := -(int64(1) << (b.a.w - 1)), int64(1)<<(b.a.w-1)-1
			if sa > hi {
				return t.F
			}
			if sa < lo {
				return t.T
			}
			return t.Bin(op, t.Const(uint64(sa), b.a.w), b.a)
		}
		if a.op == OpIte && b.isConst() && a.b.isConst() && a.c.isConst() {
			return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
		}
		if b.op == OpIte && a.isConst() && b.b.isConst() && b.c.isConst() {
			return t.Ite(b.a, t.Bin(op, a, b.b), t.Bin(op, a, b.c))
		}
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return t.Bin(OpAdd, a.a, t.Const(a.b.v+b.v, a.w))
			}
			if a.op == OpSub && a.b.isConst() {
				return t.Bin(OpAdd, a.a, t.Const(b.v-a.b.v, a.w))
			}
			if a.op == OpIte && a.b.isConst() && a.c.isConst() {
				return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
			}
		}
	case OpSub:
		if a == b {
			return t.Const(0, a.w)
		}
		if b.isConst() {
			return t.Bin(OpAdd, a, t.Const(-b.v, a.w))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
		}
	case OpAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == maskW(a.w) {
				return a
			}
			if a.op == OpZext {
				if b.v&maskW(a.a.w) == maskW(a.a.w) {
					return a
				}
				return t.Zext(t.Bin(OpAnd, a.a, t.Const(b.v, a.a.w)), a.w)
			}
			if a.op == OpIte && a.b.isConst() && a.c.isConst() {
				return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
			}
		}
	case OpOr:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v == maskW(a.w) {
				return b
			}
		}
	case OpXor:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return t.Const(0, a.w)
		}
		if b.isConst() && b.v == 0 {
			return a
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v >= uint64(a.w) && op != OpAshr {
				return t.Const(0, a.w)
			}
			if op == OpLshr && a.op == OpZext {
				if b.v >= uint64(a.a.w) {
					return t.Const(0, a.w)
				}
				return t.Zext(t.Bin(OpLshr, a.a, t.Const(b.v, a.a.w)), a.w)
			}
			if op == OpAshr && a.umax() < uint64(1)<<(a.w-1) {
				return t.Bin(OpLshr, a, b)
			}
		}
	case OpBAnd:
		return t.And(a, b)
	case OpBOr:
		return t.Or(a, b)
	}
	return t.mk(op, rw, a, b, nil, 0)
}

func (t *TermTab) constOf(v uint64, w uint8) *Term {
	if w == 0 {
		return t.Bool(v != 0)
	}
	return t.Const(v, w)
}

func (t *TermTab) Un(op Op, a *Term) *Term {
	if a.isConst() {
		return t.constOf(applyOp(op, a.w, a.w, a.v, 0, 0), a.w)
	}
	return t.mk(op, a.w, a, nil, nil, 0)
}

// Eval evaluates x under the assignment m (missing variables are 0).
func (t *TermTab) Eval(x *Term, m map[int32]uint64) uint64 {
	t.epoch++
	return t.eval(x, m)
}

func (t *TermTab) eval(x *Term, m map[int32]uint64) uint64 {
	switch x.op {
	case OpConst:
		return x.v
	case OpVar:
		return m[int32(x.v)] & func() uint64 {
			if x.w == 0 {
				return 1
			}
			return maskW(x.w)
		}()
	}
	if x.ep == t.epoch {
		return x.ev
	}
	var r uint64
	switch x.op {
	case OpIte:
		if t.eval(x.a, m) != 0 {
			r = t.eval(x.b, m)
		} else {
			r = t.eval(x.c, m)
		}
	case OpBAnd:
		if t.eval(x.a, m) == 0 {
			r = 0
		} else {
			r = t.eval(x.b, m)
		}
	case OpBOr:
		if t.eval(x.a, m) != 0 {
			r = 1
		} else {
			r = t.eval(x.b, m)
		}
	default:
		a := t.eval(x.a, m)
		var b uint64
		if x.b != nil {
			b = t.eval(x.b, m)
		}
		r = applyOp(x.op, x.w, x.a.w, a, b, 0)
	}
	x.ep, x.ev = t.epoch, r
	return r
}

func (t *TermTab) constSMT(x *Term) string {
	if x.w == 0 {
		if x.v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", x.v, x.w)
}

func vSMT(x *Term) string { return fmt.Sprintf("v%d_%d", x.v, x.w) }

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emit writes declarations needed for x into sb and returns its SMT text.
func (t *TermTab) emit(x *Term, sb *strings.Builder) string {
	switch x.op {
	case OpConst:
		return t.constSMT(x)
	case OpVar:
		if !x.defd {
			x.defd = true
			fmt.Fprintf(sb, "(declare-const %s %s)\n", vSMT(x), sortSMT(x.w))
		}
		return vSMT(x)
	}
	if x.defd {
		return fmt.Sprintf("t%d", x.id)
	}
	a := t.emit(x.a, sb)
	var b, c string
	if x.b != nil {
		b = " " + t.emit(x.b, sb)
	}
	if x.c != nil {
		c = " " + t.emit(x.c, sb)
	}
	var s string
	switch x.op {
	case OpZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, a)
	case OpSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, a)
	case OpTrunc:
		s = fmt.Sprintf("((_ extract %d 0) %s)", x.w-1, a)
	default:
		s = "(" + opSMT[x.op] + " " + a + b + c + ")"
	}
	if len(s) > 120 {
		x.defd = true
		fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", x.id, sortSMT(x.w), s)
		return fmt.Sprintf("t%d", x.id)
	}
	return s
}

// canon1 rewrites a condition over a single variable of at most 8 bits into an
// equivalent disjunction of value ranges (a simplification: the solver then
// decides small linear conditions and its cache hits more often).
func (t *TermTab) canon1(c *Term) *Term {
	if c.w != 0 || len(c.vars) != 1 || c.size <= 3 {
		return c
	}
	if c.canon != nil {
		return c.canon
	}
	v := t.vars[c.vars[0]]
	if v.w == 0 || v.w > 8 {
		return c
	}
	n := 1 << v.w
	m := map[int32]uint64{}
	r := t.F
	for lo := 0; lo < n; {
		m[c.vars[0]] = uint64(lo)
		if t.Eval(c, m) == 0 {
			lo++
			continue
		}
		hi := lo
		for hi+1 < n {
			m[c.vars[0]] = uint64(hi + 1)
			if t.Eval(c, m) == 0 {
				break
			}
			hi++
		}
		var rg *Term
		if lo == 0 && hi == n-1 {
			rg = t.T
		} else if lo == hi {
			rg = t.Bin(OpEq, v, t.Const(uint64(lo), v.w))
		} else {
			rg = t.T
			if lo > 0 {
				rg = t.Bin(OpUle, t.Const(uint64(lo), v.w), v)
			}
			if hi < n-1 {
				rg = t.And(rg, t.Bin(OpUle, v, t.Const(uint64(hi), v.w)))
			}
		}
		r = t.Or(r, rg)
		lo = hi + 1
	}
	c.canon = r
	r.canon = r
	return r
}
