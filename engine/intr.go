package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func tuple(vs ...Val) Val { return Val{x: Tuple(vs)} }

func (m *Machine) conc(v Val, what string) string {
	s, ok := concStr(v)
	if ok {
		return s
	}
	// enumerate the feasible contents, byte by byte
	b := strBytes(v)
	o := make([]byte, len(b))
	for i := range b {
		o[i] = byte(m.concInt(b[i]))
	}
	return string(o)
}

func (m *Machine) errNew(msg string) Val {
	t := m.eng.lookupType("errors", "errorString")
	p := Val{x: Struct{strV(msg)}}
	return ifaceV(m.canon(types.NewPointer(t)), Val{x: &p})
}

// pathError builds *fs.PathError so that os.IsNotExist and friends work.
func (m *Machine) pathError(op, name string) Val {
	t := m.eng.lookupType("io/fs", "PathError")
	en := m.eng.lookupType("syscall", "Errno")
	p := Val{x: Struct{strV(op), strV(name), ifaceV(m.canon(en), Val{n: 2})}}
	return ifaceV(m.canon(types.NewPointer(t)), Val{x: &p})
}

func sliceOf(v Val) Slice {
	if v.x == nil {
		return nil
	}
	s, ok := v.x.(Slice)
	if !ok {
		if p, ok := v.x.(poison); ok {
			panic(unsupported("use of poisoned value: " + p.why))
		}
		panic(engineErr(fmt.Sprintf("slice expected, got %T", v.x)))
	}
	return s
}

func bytesV(b []byte) Val {
	s := make(Slice, len(b))
	for i := range b {
		s[i].n = uint64(b[i])
	}
	return Val{x: s}
}

func (m *Machine) charsetTerm(t *Term, cs string) *Term {
	var in [256]bool
	for i := 0; i < len(cs); i++ {
		in[cs[i]] = true
	}
	r := m.tt.F
	for i := 0; i < 256; {
		if !in[i] {
			i++
			continue
		}
		j := i
		for j < 255 && in[j+1] {
			j++
		}
		var c *Term
		if i == j {
			c = m.tt.Bin(OpEq, t, m.tt.Const(uint64(i), 8))
		} else {
			c = m.tt.And(m.tt.Bin(OpUle, m.tt.Const(uint64(i), 8), t), m.tt.Bin(OpUle, t, m.tt.Const(uint64(j), 8)))
		}
		r = m.tt.Or(r, c)
		i = j + 1
	}
	return r
}

func (m *Machine) ndPanics(f Val) bool {
	depth, cur := m.depth, m.cur
	p := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(goPanic); !ok {
					panic(r)
				}
				m.depth, m.cur = depth, cur
				p = true
			}
		}()
		m.callVal(f, nil)
	}()
	return p
}

func (m *Machine) indexStr(s, sub Val) int {
	cs, ok1 := concStr(s)
	cb, ok2 := concStr(sub)
	if ok1 && ok2 {
		return strings.Index(cs, cb)
	}
	n, k := strLen(s), strLen(sub)
	for i := 0; i+k <= n; i++ {
		if m.decide(m.strEq(strSub(s, i, i+k), sub)) {
			return i
		}
	}
	return -1
}

func sliceStr(v Val) Val { // view a byte slice as a string
	return mkStr(sliceOf(v))
}

func (m *Machine) indexByte(b []Val, c Val, last bool) int {
	ct := m.byteTerm(c)
	for i := range b {
		j := i
		if last {
			j = len(b) - 1 - i
		}
		if m.decide(m.tt.Bin(OpEq, m.byteTerm(b[j]), ct)) {
			return j
		}
	}
	return -1
}

func (m *Machine) asciiOnly(b []Val) bool {
	r := m.tt.T
	for i := range b {
		r = m.tt.And(r, m.tt.Bin(OpUlt, m.byteTerm(b[i]), m.tt.Const(0x80, 8)))
	}
	return m.decide(r)
}

func (m *Machine) caseMap(v Val, lo, hi byte, up bool) Val {
	b := strBytes(v)
	o := make([]Val, len(b))
	for i := range b {
		t := m.byteTerm(b[i])
		in := m.tt.And(m.tt.Bin(OpUle, m.tt.Const(uint64(lo), 8), t), m.tt.Bin(OpUle, t, m.tt.Const(uint64(hi), 8)))
		d := m.tt.Bin(OpAdd, t, m.tt.Const(32, 8))
		if up {
			d = m.tt.Bin(OpSub, t, m.tt.Const(32, 8))
		}
		o[i] = valOf(m.tt.Ite(in, d, t), false)
	}
	return mkStr(o)
}

func (m *Machine) isErr(t types.Type) bool {
	return m.implements(t, errIface, types.Universe.Lookup("error").Type())
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// unwrapOf calls Unwrap() error when the dynamic type has it.
func (m *Machine) unwrapOf(e Val) (Val, bool) {
	i := asIface(e)
	f := m.findMethod(i.t, "Unwrap")
	if f == nil || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), types.Universe.Lookup("error").Type()) {
		return Val{}, false
	}
	return m.call(f, []Val{i.v}, nil), true
}

func ptrTo(v Val, what string) *Val {
	p, ok := v.x.(*Val)
	if !ok {
		panic(unsupported("pointer expected by " + what))
	}
	return p
}

func (e *Engine) seed() int64 { return e.seedV }

// render mirrors nd.render under a model.
func (m *Machine) render(v Val, t types.Type, model map[int32]uint64) string {
	if t == nil {
		return "nil"
	}
	bytesOf := func(v Val) string {
		var sb strings.Builder
		for _, b := range v.bytesAny() {
			c := b.n
			if b.x != nil {
				c = m.tt.Eval(b.x.(*Term), model)
			}
			fmt.Fprintf(&sb, "%02x", byte(c))
		}
		return sb.String()
	}
	if m.isErr(t) {
		return "err"
	}
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.String:
			return bytesOf(v)
		case types.Bool:
			return fmt.Sprint(v.x == nil && v.n != 0 || v.x != nil && m.tt.Eval(v.x.(*Term), model) != 0)
		case types.Int:
			if v.x != nil {
				return fmt.Sprint(int64(m.tt.Eval(v.x.(*Term), model)))
			}
			return fmt.Sprint(int64(v.n))
		}
	}
	if s, ok := t.(*types.Slice); ok {
		if b, ok := s.Elem().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return bytesOf(v)
			case types.String:
				o := "["
				for i, e := range sliceOf(v) {
					if i > 0 {
						o += " "
					}
					o += bytesOf(e)
				}
				return o + "]"
			}
		}
	}
	return "?" + types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (v Val) bytesAny() []Val {
	if s, ok := v.x.(Slice); ok {
		return s
	}
	return strBytes(v)
}

func (m *Machine) sortSlice(v, less Val) {
	s := sliceOf(asIface(v).v)
	// insertion sort, calling the comparison with indices like the original does
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := m.callVal(less, []Val{intV(int64(j)), intV(int64(j - 1))})
			if !m.decide(m.term(r, 0)) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			m.store(&s[j], b)
			m.store(&s[j-1], a)
		}
	}
}

func (m *Machine) vput(name string, data Val) {
	if m.vfs == nil {
		m.vfs = map[string]Val{}
	}
	m.vfs[path.Clean(name)] = data
}

func (m *Machine) vget(name string) (Val, bool) {
	v, ok := m.vfs[path.Clean(name)]
	return v, ok
}

func (m *Machine) visDir(name string) bool {
	name = path.Clean(name)
	for k := range m.vfs {
		if strings.HasPrefix(k, name+"/") {
			return true
		}
	}
	return name == "/ndtmp"
}

func strSliceV(ss []string) Val {
	if len(ss) == 0 {
		return Val{}
	}
	s := make(Slice, len(ss))
	for i := range ss {
		s[i] = strV(ss[i])
	}
	return Val{x: s}
}

type reflType struct{ t types.Type }
type reflVal struct {
	t types.Type
	v Val
	p *Val
}

func (r *reflType) invoke(m *Machine, name string, args []Val) Val {
	switch name {
	case "String", "Name":
		return strV(types.TypeString(r.t, func(p *types.Package) string { return p.Name() }))
	case "Comparable":
		return boolV(types.Comparable(r.t))
	case "Kind":
		return Val{n: kindOf(r.t)}
	}
	panic(unsupported("reflect.Type." + name))
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func rv(v Val) *reflVal {
	r, ok := v.x.(*reflVal)
	if !ok {
		return &reflVal{}
	}
	return r
}

// deepEqual is reflect.DeepEqual as a boolean term.
func (m *Machine) deepEqual(t types.Type, a, b Val, depth int) *Term {
	if depth > 200 {
		panic(unsupported("DeepEqual recursion"))
	}
	tt := m.tt
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.x == nil || b.x == nil {
			return tt.Bool(a.x == nil && b.x == nil)
		}
		ai, bi := asIface(a), asIface(b)
		if ai.t != bi.t {
			return tt.F
		}
		return m.deepEqual(ai.t, ai.v, bi.v, depth+1)
	case *types.Pointer:
		if a.x == nil || b.x == nil || a.x == b.x {
			return tt.Bool(a.x == b.x)
		}
		return m.deepEqual(u.Elem(), m.load(a), m.load(b), depth+1)
	case *types.Slice:
		if (a.x == nil) != (b.x == nil) {
			return tt.F
		}
		as, bs := sliceOf(a), sliceOf(b)
		if len(as) != len(bs) {
			return tt.F
		}
		r := tt.T
		for i := range as {
			r = tt.And(r, m.deepEqual(u.Elem(), as[i], bs[i], depth+1))
			if r == tt.F {
				return r
			}
		}
		return r
	case *types.Struct:
		as, bs := a.x.(Struct), b.x.(Struct)
		r := tt.T
		for i := range as {
			r = tt.And(r, m.deepEqual(u.Field(i).Type(), as[i], bs[i], depth+1))
			if r == tt.F {
				return r
			}
		}
		return r
	case *types.Array:
		as, bs := a.x.(Array), b.x.(Array)
		r := tt.T
		for i := range as {
			r = tt.And(r, m.deepEqual(u.Elem(), as[i], bs[i], depth+1))
		}
		return r
	case *types.Map:
		if (a.x == nil) != (b.x == nil) {
			return tt.F
		}
		if a.x == nil || a.x == b.x {
			return tt.T
		}
		am, bm := a.x.(*Map), b.x.(*Map)
		if am.n != bm.n {
			return tt.F
		}
		r := tt.T
		for _, e := range am.live() {
			f := m.mapFind(bm, e.k)
			if f == nil {
				return tt.F
			}
			r = tt.And(r, m.deepEqual(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		return tt.Bool(a.x == nil && b.x == nil)
	}
	return m.eq(t, a, b)
}

func (m *Machine) typeKeyIface(t types.Type) Val {
	rt := m.eng.lookupType("reflect", "rtype")
	c := m.canon(t)
	o, ok := m.reflT[c]
	if !ok {
		o = &reflType{c}
		m.reflT[c] = o
	}
	return ifaceV(m.canon(types.NewPointer(rt)), Val{x: o})
}

func makeIntrinsics() map[string]intrinsicFn {
	I := map[string]intrinsicFn{}
	nd := func(n string, f intrinsicFn) { I[ndPath+"."+n] = f }
	nd("Byte", func(m *Machine, fr *frame, a []Val) Val {
		return Val{x: m.newInput(m.conc(a[0], "label"), 8)}
	})
	nd("Bool", func(m *Machine, fr *frame, a []Val) Val {
		return Val{x: m.newInput(m.conc(a[0], "label"), 0)}
	})
	nd("Int64", func(m *Machine, fr *frame, a []Val) Val {
		return Val{x: m.newInput(m.conc(a[0], "label"), 64)}
	})
	nd("Int", func(m *Machine, fr *frame, a []Val) Val {
		t := m.newInput(m.conc(a[0], "label"), 64)
		lo, hi := m.concInt(a[1]), m.concInt(a[2])
		m.prefer(t, uint64(lo))
		m.assume(m.tt.And(m.tt.Bin(OpSle, m.tt.Const(uint64(lo), 64), t), m.tt.Bin(OpSle, t, m.tt.Const(uint64(hi), 64))))
		return Val{x: t}
	})
	nd("Choose", func(m *Machine, fr *frame, a []Val) Val {
		n := int(m.concInt(a[1]))
		k := m.choose(n)
		m.inputs = append(m.inputs, inputRec{label: m.conc(a[0], "label"), v: uint64(k)})
		return intV(int64(k))
	})
	nd("String", func(m *Machine, fr *frame, a []Val) Val {
		label := m.conc(a[0], "label")
		lo, hi := int(m.concInt(a[1])), int(m.concInt(a[2]))
		cs := m.conc(a[3], "charset")
		n := lo
		if hi > lo {
			n = lo + m.choose(hi-lo+1)
			m.inputs = append(m.inputs, inputRec{label: label + ".len", v: uint64(n)})
		}
		b := make([]Val, n)
		for i := range b {
			t := m.newInput(fmt.Sprintf("%s[%d]", label, i), 8)
			if cs != "" {
				m.prefer(t, uint64(cs[i%len(cs)]))
				m.assume(m.charsetTerm(t, cs))
			} else {
				m.prefer(t, 'a')
			}
			b[i] = Val{x: t}
		}
		return mkStr(b)
	})
	nd("Assume", func(m *Machine, fr *frame, a []Val) Val { m.assume(m.term(a[0], 0)); return Val{} })
	nd("Assert", func(m *Machine, fr *frame, a []Val) Val {
		m.assert(m.term(a[0], 0), m.conc(a[1], "msg"), "")
		return Val{}
	})
	nd("AssertKnown", func(m *Machine, fr *frame, a []Val) Val {
		m.assert(m.term(a[0], 0), m.conc(a[1], "msg"), m.conc(a[2], "id"))
		return Val{}
	})
	nd("Cover", func(m *Machine, fr *frame, a []Val) Val { m.covers[m.conc(a[0], "cover")] = true; return Val{} })
	nd("MapOrder", func(m *Machine, fr *frame, a []Val) Val { m.mapMode = int(m.concInt(a[0])); return Val{} })
	nd("Bound", func(m *Machine, fr *frame, a []Val) Val {
		if m.eng.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	nd("Native", func(m *Machine, fr *frame, a []Val) Val { return Val{} })
	nd("Panics", func(m *Machine, fr *frame, a []Val) Val { return boolV(m.ndPanics(a[0])) })
	nd("Observe", func(m *Machine, fr *frame, a []Val) Val {
		o := obsRec{label: m.conc(a[0], "label")}
		if a[1].x != nil {
			i := asIface(a[1])
			o.v, o.t = i.v, i.t
			if s, ok := o.v.x.(Slice); ok {
				o.v = Val{x: Slice(copyVals(s))}
			}
		}
		m.obs = append(m.obs, o)
		return Val{}
	})
	nd("TempDir", func(m *Machine, fr *frame, a []Val) Val { return strV("/ndtmp") })
	nd("WriteFile", func(m *Machine, fr *frame, a []Val) Val { m.vput(m.abs(m.conc(a[0], "path")), a[1]); return Val{} })
	nd("ReadFile", func(m *Machine, fr *frame, a []Val) Val {
		v, ok := m.vget(m.abs(m.conc(a[0], "path")))
		if !ok {
			return tuple(strV(""), boolV(false))
		}
		return tuple(v, boolV(true))
	})

	// --- byte and string searching ---
	idxS := func(m *Machine, fr *frame, a []Val) Val { return intV(int64(m.indexStr(a[0], a[1]))) }
	I["strings.Index"] = idxS
	I["internal/stringslite.Index"] = idxS
	I["internal/stringslite.Clone"] = func(m *Machine, fr *frame, a []Val) Val { return a[0] }
	// unsafe views of the same bytes (never written through)
	I["github.com/vmihailenco/tagparser/internal.StringToBytes"] = func(m *Machine, fr *frame, a []Val) Val {
		return m.convert(a[0], types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
	}
	I["github.com/vmihailenco/tagparser/internal.BytesToString"] = func(m *Machine, fr *frame, a []Val) Val {
		return m.convert(a[0], types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])
	}
	I["strings.Clone"] = I["internal/stringslite.Clone"]
	I["internal/bytealg.IndexString"] = idxS
	I["internal/bytealg.Index"] = func(m *Machine, fr *frame, a []Val) Val {
		return intV(int64(m.indexStr(sliceStr(a[0]), sliceStr(a[1]))))
	}
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["internal/bytealg.IndexByteString"] = func(m *Machine, fr *frame, a []Val) Val {
		return intV(int64(m.indexByte(strBytes(a[0]), a[1], false)))
	}
	I["internal/bytealg.IndexByte"] = func(m *Machine, fr *frame, a []Val) Val {
		return intV(int64(m.indexByte(sliceOf(a[0]), a[1], false)))
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.LastIndexByteString"] = func(m *Machine, fr *frame, a []Val) Val {
		return intV(int64(m.indexByte(strBytes(a[0]), a[1], true)))
	}
	I["internal/bytealg.LastIndexByte"] = func(m *Machine, fr *frame, a []Val) Val {
		return intV(int64(m.indexByte(sliceOf(a[0]), a[1], true)))
	}
	count := func(m *Machine, b []Val, c Val) Val {
		n := 0
		for i := range b {
			if m.decide(m.tt.Bin(OpEq, m.byteTerm(b[i]), m.byteTerm(c))) {
				n++
			}
		}
		return intV(int64(n))
	}
	I["internal/bytealg.CountString"] = func(m *Machine, fr *frame, a []Val) Val { return count(m, strBytes(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(m *Machine, fr *frame, a []Val) Val { return count(m, sliceOf(a[0]), a[1]) }
	beq := func(m *Machine, fr *frame, a []Val) Val {
		return valOf(m.strEq(sliceStr(a[0]), sliceStr(a[1])), false)
	}
	I["internal/bytealg.Equal"] = beq
	I["bytes.Equal"] = beq
	cmp := func(m *Machine, x, y Val) Val {
		lt, gt := m.strLess(x, y, false), m.strLess(y, x, false)
		return valOf(m.tt.Ite(lt, m.tt.Const(^uint64(0), 64), m.tt.Ite(gt, m.tt.Const(1, 64), m.tt.Const(0, 64))), true)
	}
	I["internal/bytealg.Compare"] = func(m *Machine, fr *frame, a []Val) Val { return cmp(m, sliceStr(a[0]), sliceStr(a[1])) }
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.CompareString"] = func(m *Machine, fr *frame, a []Val) Val { return cmp(m, a[0], a[1]) }
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["runtime.cmpstring"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, fr *frame, a []Val) Val {
		n := int(m.concInt(a[0]))
		return Val{x: make(Slice, n, roundCap(n, 1))}
	}
	I["internal/abi.NoEscape"] = func(m *Machine, fr *frame, a []Val) Val { return a[0] }
	I["internal/abi.Escape"] = func(m *Machine, fr *frame, a []Val) Val { return a[0] }
	I["strings.noescape"] = I["internal/abi.NoEscape"]
	lower := func(lo, hi byte, up bool, nat func(string) string) intrinsicFn {
		return func(m *Machine, fr *frame, a []Val) Val {
			if s, ok := concStr(a[0]); ok {
				return strV(nat(s))
			}
			if !m.asciiOnly(strBytes(a[0])) {
				return fallback
			}
			return m.caseMap(a[0], lo, hi, up)
		}
	}
	I["strings.ToLower"] = lower('A', 'Z', false, strings.ToLower)
	I["strings.ToUpper"] = lower('a', 'z', true, strings.ToUpper)
	I["strings.EqualFold"] = func(m *Machine, fr *frame, a []Val) Val {
		x, ok1 := concStr(a[0])
		y, ok2 := concStr(a[1])
		if ok1 && ok2 {
			return boolV(strings.EqualFold(x, y))
		}
		if !m.asciiOnly(strBytes(a[0])) || !m.asciiOnly(strBytes(a[1])) {
			return fallback
		}
		return valOf(m.strEq(m.caseMap(a[0], 'A', 'Z', false), m.caseMap(a[1], 'A', 'Z', false)), false)
	}
	dec := func(v Val, m *Machine) Val {
		if strLen(v) == 0 {
			return tuple(intV(utf8.RuneError), intV(0))
		}
		r, w := m.decodeRune(v)
		return tuple(r, intV(int64(w)))
	}
	I["unicode/utf8.DecodeRuneInString"] = func(m *Machine, fr *frame, a []Val) Val { return dec(a[0], m) }
	I["unicode/utf8.DecodeRune"] = func(m *Machine, fr *frame, a []Val) Val { return dec(sliceStr(a[0]), m) }
	I["unicode/utf8.AppendRune"] = func(m *Machine, fr *frame, a []Val) Val {
		return Val{x: m.appendVals(sliceOf(a[0]), strBytes(m.encodeRune(a[1])), types.Typ[types.Uint8])}
	}
	I["unicode/utf8.EncodeRune"] = func(m *Machine, fr *frame, a []Val) Val {
		b := strBytes(m.encodeRune(a[1]))
		d := sliceOf(a[0])
		if len(d) < len(b) {
			m.goPanicStr("runtime error: index out of range")
		}
		for i := range b {
			m.store(&d[i], b[i])
		}
		return intV(int64(len(b)))
	}

	// --- synchronisation (goroutines and locks: sched.go) ---
	nop := func(m *Machine, fr *frame, a []Val) Val { return Val{} }
	for _, n := range []string{"(*sync.Pool).Put", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "(*internal/godebug.Setting).IncNonDefault", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.ReleaseMerge"} {
		I[n] = nop
	}
	I["(*internal/godebug.Setting).Value"] = func(m *Machine, fr *frame, a []Val) Val {
		if a[0].x == nil { // of a package whose initialiser is not run
			return strV("")
		}
		name := ptrTo(a[0], "Setting.Value").x.(Struct)[0]
		return strV(m.eng.godebug[strings.TrimPrefix(m.conc(name, "name of a setting"), "#")])
	}
	I["(*sync.Pool).Get"] = func(m *Machine, fr *frame, a []Val) Val {
		s := ptrTo(a[0], "Pool.Get").x.(Struct)
		nf := s[len(s)-1] // New is the last field
		if nf.x == nil {
			return Val{}
		}
		return m.callVal(nf, nil)
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+ty] = func(m *Machine, fr *frame, a []Val) Val { return m.load(a[0]) }
		I["sync/atomic.Store"+ty] = func(m *Machine, fr *frame, a []Val) Val { m.store(ptrTo(a[0], "atomic"), a[1]); return Val{} }
		I["sync/atomic.Swap"+ty] = func(m *Machine, fr *frame, a []Val) Val {
			o := m.load(a[0])
			m.store(ptrTo(a[0], "atomic"), a[1])
			return o
		}
		w, sg := uint8(64), true
		switch ty {
		case "Int32":
			w = 32
		case "Uint32":
			w, sg = 32, false
		case "Uint64", "Uintptr":
			sg = false
		}
		I["sync/atomic.Add"+ty] = func(m *Machine, fr *frame, a []Val) Val {
			o := m.load(a[0])
			n := Val{n: normInt(o.n+a[1].n, w, sg)}
			m.store(ptrTo(a[0], "atomic"), n)
			return n
		}
		I["sync/atomic.And"+ty] = func(m *Machine, fr *frame, a []Val) Val {
			o := m.load(a[0])
			m.store(ptrTo(a[0], "atomic"), Val{n: normInt(o.n&a[1].n, w, sg)})
			return o
		}
		I["sync/atomic.Or"+ty] = func(m *Machine, fr *frame, a []Val) Val {
			o := m.load(a[0])
			m.store(ptrTo(a[0], "atomic"), Val{n: normInt(o.n|a[1].n, w, sg)})
			return o
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(m *Machine, fr *frame, a []Val) Val {
			o := m.load(a[0])
			if o.n == a[1].n && o.x == a[1].x {
				m.store(ptrTo(a[0], "atomic"), a[2])
				return boolV(true)
			}
			return boolV(false)
		}
	}
	I["(*sync/atomic.Value).Load"] = func(m *Machine, fr *frame, a []Val) Val {
		return ptrTo(a[0], "atomic").x.(Struct)[0]
	}
	I["(*sync/atomic.Value).Store"] = func(m *Machine, fr *frame, a []Val) Val {
		m.set(&ptrTo(a[0], "atomic").x.(Struct)[0], a[1])
		return Val{}
	}

	// sync.Map: keyed side table
	smap := func(m *Machine, v Val) *Map {
		p := ptrTo(v, "sync.Map")
		mp := m.smaps[p]
		if mp == nil {
			mp = m.newMap(types.NewInterfaceType(nil, nil))
			m.smaps[p] = mp
			if m.initing == 0 {
				m.logFn(func() { delete(m.smaps, p) })
			}
		}
		return mp
	}
	I["(*sync.Map).Load"] = func(m *Machine, fr *frame, a []Val) Val {
		if e := m.mapFind(smap(m, a[0]), a[1]); e != nil {
			return tuple(e.v, boolV(true))
		}
		return tuple(Val{}, boolV(false))
	}
	I["(*sync.Map).Store"] = func(m *Machine, fr *frame, a []Val) Val { m.mapSet(smap(m, a[0]), a[1], a[2]); return Val{} }
	I["(*sync.Map).Delete"] = func(m *Machine, fr *frame, a []Val) Val { m.mapDelete(smap(m, a[0]), a[1]); return Val{} }
	I["(*sync.Map).LoadOrStore"] = func(m *Machine, fr *frame, a []Val) Val {
		mp := smap(m, a[0])
		if e := m.mapFind(mp, a[1]); e != nil {
			return tuple(e.v, boolV(true))
		}
		m.mapSet(mp, a[1], a[2])
		return tuple(a[2], boolV(false))
	}

	schedIntrinsics(I)

	// --- errors ---
	I["errors.Is"] = func(m *Machine, fr *frame, a []Val) Val {
		e, target := a[0], a[1]
		if e.x == nil || target.x == nil {
			return boolV(e.x == nil && target.x == nil)
		}
		for {
			ei, ti := asIface(e), asIface(target)
			if ei.t == ti.t && types.Comparable(ei.t) && m.decide(m.eq(ei.t, ei.v, ti.v)) {
				return boolV(true)
			}
			if f := m.findMethod(ei.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
				if m.decide(m.term(m.call(f, []Val{ei.v, target}, nil), 0)) {
					return boolV(true)
				}
			}
			n, ok := m.unwrapOf(e)
			if !ok || n.x == nil {
				return boolV(false)
			}
			e = n
		}
	}
	I["errors.As"] = func(m *Machine, fr *frame, a []Val) Val {
		e := a[0]
		if e.x == nil {
			return boolV(false)
		}
		ti := asIface(a[1])
		et := m.canon(ti.t.Underlying().(*types.Pointer).Elem())
		for {
			ei := asIface(e)
			if it, ok := et.Underlying().(*types.Interface); ok {
				if m.implements(ei.t, it, et) {
					m.store(ptrTo(ti.v, "As"), e)
					return boolV(true)
				}
			} else if ei.t == et {
				m.store(ptrTo(ti.v, "As"), ei.v)
				return boolV(true)
			}
			n, ok := m.unwrapOf(e)
			if !ok || n.x == nil {
				return boolV(false)
			}
			e = n
		}
	}
	I["sort.Slice"] = func(m *Machine, fr *frame, a []Val) Val { m.sortSlice(a[0], a[1]); return Val{} }
	I["sort.SliceStable"] = I["sort.Slice"]

	// --- runtime ---
	I["runtime.Callers"] = func(m *Machine, fr *frame, a []Val) Val { return intV(0) }
	I["runtime.Caller"] = func(m *Machine, fr *frame, a []Val) Val {
		return tuple(Val{}, strV("?"), intV(0), boolV(false))
	}
	I["runtime.GOMAXPROCS"] = func(m *Machine, fr *frame, a []Val) Val { return intV(1) }
	I["runtime.NumCPU"] = I["runtime.GOMAXPROCS"]
	I["internal/bytealg.init"] = nop
	I["internal/cpu.Initialize"] = nop

	// --- reflect ---
	I["reflect.TypeOf"] = func(m *Machine, fr *frame, a []Val) Val {
		if a[0].x == nil {
			return Val{}
		}
		return m.typeKeyIface(asIface(a[0]).t)
	}
	I["internal/reflectlite.TypeOf"] = I["reflect.TypeOf"]
	I["reflect.ValueOf"] = func(m *Machine, fr *frame, a []Val) Val {
		if a[0].x == nil {
			return Val{x: &reflVal{}}
		}
		i := asIface(a[0])
		return Val{x: &reflVal{t: i.t, v: i.v}}
	}
	I["(reflect.Value).IsValid"] = func(m *Machine, fr *frame, a []Val) Val { return boolV(rv(a[0]).t != nil) }
	I["(reflect.Value).Kind"] = func(m *Machine, fr *frame, a []Val) Val {
		if r := rv(a[0]); r.t != nil {
			return Val{n: kindOf(r.t)}
		}
		return Val{}
	}
	I["(reflect.Value).IsNil"] = func(m *Machine, fr *frame, a []Val) Val {
		r := rv(a[0])
		rx := r.get()
		if r.t == nil {
			m.goPanicStr("reflect: call of reflect.Value.IsNil on zero Value")
		}
		switch kindOf(r.t) {
		case 18, 19, 20, 21, 22, 23, 26:
			return boolV(rx.x == nil)
		}
		m.goPanicStr("reflect: call of reflect.Value.IsNil on " + r.t.String() + " Value")
		return Val{}
	}
	I["(reflect.Value).Len"] = func(m *Machine, fr *frame, a []Val) Val {
		r := rv(a[0])
		rx := r.get()
		switch x := rx.x.(type) {
		case nil:
			return intV(0)
		case Slice:
			return intV(int64(len(x)))
		case *Map:
			return intV(int64(x.n))
		case string, *SStr:
			return intV(int64(strLen(rx)))
		case Array:
			return intV(int64(len(x)))
		}
		panic(unsupported("reflect.Value.Len"))
	}
	I["(reflect.Value).Pointer"] = func(m *Machine, fr *frame, a []Val) Val {
		r := rv(a[0])
		rx := r.get()
		if rx.x == nil {
			return Val{}
		}
		if s, ok := rx.x.(Slice); ok {
			if cap(s) == 0 {
				return Val{}
			}
			return Val{n: m.addrID(&s[:1][0])}
		}
		return Val{n: m.addrID(rx.x)}
	}
	I["reflect.DeepEqual"] = func(m *Machine, fr *frame, a []Val) Val {
		return valOf(m.deepEqual(types.NewInterfaceType(nil, nil), a[0], a[1], 0), false)
	}

	// --- virtual file system ---
	I["os.Getwd"] = func(m *Machine, fr *frame, a []Val) Val { return tuple(strV(m.abs(".")), Val{}) }
	I["os.Getenv"] = func(m *Machine, fr *frame, a []Val) Val {
		if v, ok := m.ext["env:"+m.conc(a[0], "env")]; ok {
			return v.(Val)
		}
		return strV("")
	}
	I["os.LookupEnv"] = func(m *Machine, fr *frame, a []Val) Val {
		if v, ok := m.ext["env:"+m.conc(a[0], "env")]; ok {
			return tuple(v.(Val), boolV(true))
		}
		return tuple(strV(""), boolV(false))
	}
	I["os.Setenv"] = func(m *Machine, fr *frame, a []Val) Val {
		m.ext["env:"+m.conc(a[0], "env")] = a[1]
		return Val{}
	}
	I["time.Now"] = func(m *Machine, fr *frame, a []Val) Val { return m.zero(m.eng.lookupType("time", "Time")) }

	// strconv hot paths on concrete data
	I["strconv.Itoa"] = func(m *Machine, fr *frame, a []Val) Val {
		if a[0].x != nil {
			return fallback
		}
		return strV(fmt.Sprint(int64(a[0].n)))
	}
	fmtIntrinsics(I)
	jsonIntrinsics(I)
	reflectIntrinsics(I)
	yamlIntrinsics(I)
	fileIntrinsics(I)
	return I
}

func ssaFuncOf(c *Closure) *ssa.Function { return c.fn }
