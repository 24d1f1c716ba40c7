package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an interpreted Go value.
//
//	ints/bools/floats: n (sign- or zero-extended; float bits), or x=*Term when symbolic
//	string:            x = string | *SStr (nil is "")
//	pointer:           x = *Val | *SymPtr | *DataPtr (nil is nil)
//	slice:             x = Slice, struct: x = Struct, array: x = Array, map: x = *Map
//	interface:         x = *Iface, func: x = *Closure, tuple: x = Tuple
type Val struct {
	n uint64
	x any
}

type (
	Slice  []Val
	Struct []Val
	Array  []Val
	Tuple  []Val
)

type SStr struct { // at least one symbolic byte
	b  []Val
	lz func() []Val // gives the bytes when they are first needed
}

func (s *SStr) bytes() []Val {
	if s.lz != nil {
		b := s.lz()
		s.b, s.lz = b, nil
	}
	return s.b
}

func isLazy(v Val) bool {
	s, ok := v.x.(*SStr)
	return ok && s.lz != nil
}

type SymPtr struct { // pointer to base[idx] for symbolic idx (in range)
	base []Val
	idx  *Term
}

type DataPtr struct{ s Slice } // unsafe.SliceData / StringData

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn     *ssa.Function
	env    []Val
	native func(m *Machine, args []Val) Val
	name   string
}

type MEnt struct {
	k, v Val
	hk   any
	dead bool
}

type Map struct {
	ents []*MEnt
	idx  map[any]*MEnt
	n    int
	nsym int
	kt   types.Type
	born uint32
}

type poison struct{ why string }

func boolV(b bool) Val {
	if b {
		return Val{n: 1}
	}
	return Val{}
}
func intV(i int64) Val  { return Val{n: uint64(i)} }
func strV(s string) Val { return Val{x: s} }
func ifaceV(t types.Type, v Val) Val {
	return Val{x: &Iface{t: t, v: v}}
}

func copyVal(v Val) Val {
	switch s := v.x.(type) {
	case Struct:
		return Val{n: v.n, x: Struct(copyVals(s))}
	case Array:
		return Val{n: v.n, x: Array(copyVals(s))}
	}
	return v
}

func copyVals(s []Val) []Val {
	o := make([]Val, len(s))
	for i, e := range s {
		switch e.x.(type) {
		case Struct, Array:
			o[i] = copyVal(e)
		default:
			o[i] = e
		}
	}
	return o
}

func (m *Machine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Val{x: ""}
		}
		if u.Info()&types.IsComplex != 0 {
			return Val{x: complex128(0)}
		}
		return Val{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return Val{x: s}
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a {
				a[i] = m.zero(u.Elem())
			}
		default:
			z := m.zero(u.Elem())
			for i := range a {
				a[i] = z
			}
		}
		return Val{x: a}
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = m.zero(u.At(i).Type())
		}
		return Val{x: s}
	}
	return Val{}
}

// ---- strings ----

func strLen(v Val) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.bytes())
	case poison:
		panic(unsupported("use of poisoned value: " + s.why))
	}
	panic(engineErr(fmt.Sprintf("strLen of %T", v.x)))
}

func strBytes(v Val) []Val {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		b := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SStr:
		return s.bytes()
	case poison:
		panic(unsupported("use of poisoned value: " + s.why))
	}
	panic(engineErr(fmt.Sprintf("strBytes of %T", v.x)))
}

func mkStr(b []Val) Val {
	for i := range b {
		if b[i].x != nil {
			c := make([]Val, len(b))
			copy(c, b)
			return Val{x: &SStr{b: c}}
		}
	}
	buf := make([]byte, len(b))
	for i := range b {
		buf[i] = byte(b[i].n)
	}
	return Val{x: string(buf)}
}

func strSub(v Val, i, j int) Val {
	switch s := v.x.(type) {
	case nil:
		return Val{x: ""}
	case string:
		return Val{x: s[i:j]}
	case *SStr:
		return mkStr(s.bytes()[i:j])
	}
	panic(engineErr("strSub"))
}

func strCat(a, b Val) Val {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return Val{x: as + bs}
	}
	if ok1 && as == "" {
		return b
	}
	if ok2 && bs == "" {
		return a
	}
	if isLazy(a) || isLazy(b) {
		return Val{x: &SStr{lz: func() []Val {
			ab, bb := strBytes(a), strBytes(b)
			return append(append(make([]Val, 0, len(ab)+len(bb)), ab...), bb...)
		}}}
	}
	ab, bb := strBytes(a), strBytes(b)
	c := make([]Val, 0, len(ab)+len(bb))
	c = append(append(c, ab...), bb...)
	return Val{x: &SStr{b: c}}
}

func concStr(v Val) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SStr:
		return "", false
	case poison:
		panic(unsupported("use of poisoned value: " + s.why))
	}
	panic(engineErr(fmt.Sprintf("concStr of %T", v.x)))
}

func (m *Machine) byteTerm(v Val) *Term {
	if t, ok := v.x.(*Term); ok {
		return t
	}
	return m.tt.Const(v.n, 8)
}

// strEq returns the boolean term a == b.
func (m *Machine) strEq(a, b Val) *Term {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return m.tt.Bool(as == bs)
	}
	if strLen(a) != strLen(b) {
		return m.tt.F
	}
	ab, bb := strBytes(a), strBytes(b)
	r := m.tt.T
	for i := range ab {
		if ab[i].x == nil && bb[i].x == nil {
			if ab[i].n != bb[i].n {
				return m.tt.F
			}
			continue
		}
		r = m.tt.And(r, m.tt.Bin(OpEq, m.byteTerm(ab[i]), m.byteTerm(bb[i])))
		if r == m.tt.F {
			return r
		}
	}
	return r
}

// strLess returns the boolean term a < b (or a <= b when orEq).
func (m *Machine) strLess(a, b Val, orEq bool) *Term {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return m.tt.Bool(as < bs || orEq && as == bs)
	}
	ab, bb := strBytes(a), strBytes(b)
	n := len(ab)
	if len(bb) < n {
		n = len(bb)
	}
	var r *Term
	if len(ab) == len(bb) {
		r = m.tt.Bool(orEq)
	} else {
		r = m.tt.Bool(len(ab) < len(bb))
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.byteTerm(ab[i]), m.byteTerm(bb[i])
		r = m.tt.Or(m.tt.Bin(OpUlt, x, y), m.tt.And(m.tt.Bin(OpEq, x, y), r))
	}
	return r
}

// ---- type canonicalisation ----

func (m *Machine) canon(t types.Type) types.Type {
	if c, ok := m.canonC[t]; ok {
		return c
	}
	u := types.Unalias(t)
	c := m.canonM.At(u)
	if c == nil {
		m.canonM.Set(u, u)
		c = u
	}
	m.canonC[t] = c.(types.Type)
	return c.(types.Type)
}

// ---- maps ----

type pairKey struct{ a, b any }
type typeKey struct {
	t types.Type
	k any
}
type boolKey bool
type fltKey float64

func (m *Machine) hashKey(v Val, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			return s, ok
		}
		if v.x != nil {
			if _, ok := v.x.(*Term); ok {
				return nil, false
			}
			return v.x, true
		}
		return v.n, true
	case *types.Interface:
		if v.x == nil {
			return nil, true
		}
		i := v.x.(*Iface)
		if !types.Comparable(i.t) {
			m.goPanicStr("runtime error: hash of unhashable type " + i.t.String())
		}
		k, ok := m.hashKey(i.v, i.t)
		return typeKey{i.t, k}, ok
	case *types.Struct:
		var k any = "S"
		s := v.x.(Struct)
		for i := range s {
			e, ok := m.hashKey(s[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			k = pairKey{k, e}
		}
		return k, true
	case *types.Array:
		var k any = "A"
		s := v.x.(Array)
		for i := range s {
			e, ok := m.hashKey(s[i], u.Elem())
			if !ok {
				return nil, false
			}
			k = pairKey{k, e}
		}
		return k, true
	}
	if v.x == nil {
		return nil, true
	}
	switch v.x.(type) {
	case *Val, *Map, *Closure, *ssa.Function:
		return v.x, true
	}
	return v.x, true
}

func (m *Machine) newMap(kt types.Type) *Map {
	return &Map{idx: map[any]*MEnt{}, kt: kt, born: m.pathID}
}

func (m *Machine) mapFind(mp *Map, k Val) *MEnt {
	if mp == nil {
		return nil
	}
	if m.racing() {
		m.track(mp, false)
	}
	hk, ok := m.hashKey(k, mp.kt)
	if ok {
		if e := mp.idx[hk]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead || (ok && e.hk != nil) {
			continue
		}
		c := m.eq(mp.kt, e.k, k)
		if m.decide(c) {
			return e
		}
	}
	return nil
}

type noHash struct{}

func (m *Machine) mapDirty(mp *Map) {
	if mp.born == m.pathID {
		return
	}
	// snapshot once per path
	old := *mp
	ents := make([]*MEnt, len(mp.ents))
	for i, e := range mp.ents {
		c := *e
		ents[i] = &c
	}
	old.ents = ents
	old.idx = map[any]*MEnt{}
	for _, e := range ents {
		if !e.dead && e.hk != nil {
			old.idx[e.hk] = e
		}
	}
	m.logFn(func() { *mp = old })
	mp.born = m.pathID
}

type nilKey struct{}

func (m *Machine) mapSet(mp *Map, k, v Val) {
	if m.racing() {
		m.track(mp, true)
	}
	m.mapDirty(mp)
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	hk, ok := m.hashKey(k, mp.kt)
	e := &MEnt{k: k, v: v}
	if ok {
		if hk == nil {
			e.hk = nilKey{}
			mp.idx[nil] = e
		} else {
			e.hk = hk
			mp.idx[hk] = e
		}
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, e)
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, k Val) {
	if mp == nil {
		return
	}
	if m.racing() {
		m.track(mp, true)
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapDirty(mp)
	e = m.mapFind(mp, k)
	e.dead = true
	if e.hk != nil {
		if (e.hk == nilKey{}) {
			delete(mp.idx, nil)
		} else {
			delete(mp.idx, e.hk)
		}
	} else {
		mp.nsym--
	}
	mp.n--
	if len(mp.ents) > 32 && mp.n*2 < len(mp.ents) {
		var ne []*MEnt
		for _, e := range mp.ents {
			if !e.dead {
				ne = append(ne, e)
			}
		}
		mp.ents = ne
	}
}

func (mp *Map) live() []*MEnt {
	if mp == nil {
		return nil
	}
	o := make([]*MEnt, 0, mp.n)
	for _, e := range mp.ents {
		if !e.dead {
			o = append(o, e)
		}
	}
	return o
}

// ---- equality ----

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// eq returns the boolean term a == b at static type t.
func (m *Machine) eq(t types.Type, a, b Val) *Term {
	tt := m.tt
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return tt.Bool(m.f64(a, u) == m.f64(b, u))
		}
		if u.Info()&types.IsComplex != 0 {
			return tt.Bool(a.x.(complex128) == b.x.(complex128))
		}
		if a.x == nil && b.x == nil {
			return tt.Bool(a.n == b.n)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return tt.Bool(a.x == b.x)
		}
		w, _ := widthOf(u)
		return tt.Bin(OpEq, m.term(a, w), m.term(b, w))
	case *types.Interface:
		if a.x == nil || b.x == nil {
			return tt.Bool(a.x == nil && b.x == nil)
		}
		ai, bi := asIface(a), asIface(b)
		if ai.t != bi.t {
			return tt.F
		}
		if !types.Comparable(ai.t) {
			m.goPanicStr("runtime error: comparing uncomparable type " + ai.t.String())
		}
		return m.eq(ai.t, ai.v, bi.v)
	case *types.Struct:
		r := tt.T
		as, bs := a.x.(Struct), b.x.(Struct)
		for i := range as {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tt.And(r, m.eq(u.Field(i).Type(), as[i], bs[i]))
			if r == tt.F {
				return r
			}
		}
		return r
	case *types.Array:
		r := tt.T
		as, bs := a.x.(Array), b.x.(Array)
		for i := range as {
			r = tt.And(r, m.eq(u.Elem(), as[i], bs[i]))
			if r == tt.F {
				return r
			}
		}
		return r
	case *types.Slice:
		return tt.Bool(a.x == nil && b.x == nil) // only nil comparison is legal
	}
	if a.x == nil || b.x == nil {
		return tt.Bool(a.x == nil && b.x == nil)
	}
	if d, ok := a.x.(*DataPtr); ok {
		if e, ok := b.x.(*DataPtr); ok {
			return tt.Bool(len(d.s) == 0 && len(e.s) == 0 || len(d.s) > 0 && len(e.s) > 0 && &d.s[0] == &e.s[0])
		}
		return tt.F
	}
	return tt.Bool(a.x == b.x)
}

func asIface(v Val) *Iface {
	i, ok := v.x.(*Iface)
	if !ok {
		if p, ok := v.x.(poison); ok {
			panic(unsupported("use of poisoned value: " + p.why))
		}
		panic(engineErr(fmt.Sprintf("not an interface: %T", v.x)))
	}
	return i
}

func widthOf(b *types.Basic) (w uint8, signed bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	panic(engineErr("widthOf " + b.String()))
}

func (m *Machine) term(v Val, w uint8) *Term {
	if v.x == nil {
		if w == 0 {
			return m.tt.Bool(v.n != 0)
		}
		return m.tt.Const(v.n, w)
	}
	switch t := v.x.(type) {
	case *Term:
		return t
	case poison:
		panic(unsupported("use of poisoned value: " + t.why))
	}
	panic(engineErr(fmt.Sprintf("term of %T", v.x)))
}

// valOf converts a term back to a value of the given signedness.
func valOf(t *Term, signed bool) Val {
	if t.isConst() {
		if signed {
			return Val{n: uint64(sextW(t.v, t.w))}
		}
		return Val{n: t.v}
	}
	return Val{x: t}
}

func (m *Machine) debugVal(v Val) string {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		var sb strings.Builder
		for _, b := range x.bytes() {
			if b.x != nil {
				sb.WriteByte('?')
			} else {
				sb.WriteByte(byte(b.n))
			}
		}
		return "~" + sb.String()
	case *Term:
		return "T" + fmt.Sprint(x.id)
	case *Iface:
		return x.t.String() + "(" + m.debugVal(x.v) + ")"
	case *Val:
		return fmt.Sprintf("&%p", x)
	case Struct:
		return fmt.Sprintf("struct%d", len(x))
	case Slice:
		return fmt.Sprintf("slice%d", len(x))
	}
	return fmt.Sprintf("%T", v.x)
}
