package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// fnNamed finds a package-level function of a loaded package.
func (m *Machine) fnNamed(pkg, name string) *ssa.Function {
	for _, p := range m.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if f := p.Func(name); f != nil {
				return f
			}
		}
	}
	panic(unsupported("function not loaded: " + pkg + "." + name))
}

func (m *Machine) quote(v Val) Val {
	if s, ok := concStr(v); ok {
		return strV(strconv.Quote(s))
	}
	f := m.fnNamed("strconv", "Quote")
	return Val{x: &SStr{lz: func() []Val {
		if m.specul {
			panic(pureBail{})
		}
		return strBytes(m.call(f, []Val{v}, nil))
	}}}
}

// nativeBasic converts a basic value to a native Go value for formatting.
func (m *Machine) nativeBasic(t types.Type, v Val) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	m.poisonCheck(v)
	i := b.Info()
	switch {
	case i&types.IsString != 0:
		s, ok := concStr(v)
		return s, ok
	case i&types.IsBoolean != 0:
		if t, ok := v.x.(*Term); ok {
			return m.decide(t), true
		}
		return v.n != 0, true
	case i&types.IsInteger != 0:
		n := m.concInt(v)
		if i&types.IsUnsigned != 0 {
			if b.Kind() == types.Uint8 {
				return uint8(n), true
			}
			return uint64(n), true
		}
		if b.Kind() == types.Int32 {
			return int32(n), true
		}
		return int64(n), true
	case i&types.IsFloat != 0:
		f := m.f64(v, b)
		if b.Kind() == types.Float32 {
			return float32(f), true
		}
		return f, true
	case i&types.IsComplex != 0:
		return v.x, true
	}
	return nil, false
}

func (m *Machine) stringMethod(t types.Type, v Val) (Val, bool) {
	for _, n := range []string{"Error", "String"} {
		f := m.findMethod(t, n)
		if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isStringT(f.Signature.Results().At(0).Type()) {
			continue
		}
		if on, ok := v.x.(nativeObj); ok {
			return on.invoke(m, n, nil), true
		}
		if _, isP := t.Underlying().(*types.Pointer); isP && v.x == nil {
			return strV("<nil>"), true
		}
		return m.call(f, []Val{v}, nil), true
	}
	return Val{}, false
}

func (m *Machine) fmtValue(spec string, verb byte, plus, sharp bool, t types.Type, v Val, depth int) Val {
	if depth > 12 {
		return strV("...")
	}
	if t == nil {
		if verb == 'v' {
			return strV("<nil>")
		}
		return strV("%!" + string(verb) + "(<nil>)")
	}
	m.poisonCheck(v)
	switch verb {
	case 'T':
		return strV(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	case 'p':
		return strV(fmt.Sprintf("%#x", m.addrID(v.x)))
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !sharp {
			if s, ok := m.stringMethod(t, v); ok {
				if verb == 'q' {
					return m.quote(s)
				}
				if verb == 's' || verb == 'v' {
					return m.padStr(spec, s)
				}
				t, v = types.Typ[types.String], s
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch verb {
			case 's', 'v':
				if sharp {
					return m.quote(v)
				}
				return m.padStr(spec, v)
			case 'q':
				return m.quote(v)
			}
		}
		if n, ok := m.nativeBasic(t, v); ok {
			return strV(fmt.Sprintf(spec, n))
		}
		if u.Info()&types.IsString != 0 {
			return strV(fmt.Sprintf(spec, m.conc(v, "format")))
		}
		if u.Kind() == types.UnsafePointer {
			return strV("0xc000000000")
		}
	case *types.Slice, *types.Array:
		var el types.Type
		var es []Val
		if s, ok := u.(*types.Slice); ok {
			el, es = s.Elem(), sliceOf(v)
			if bt, ok := el.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				if verb == 's' || verb == 'q' || verb == 'x' {
					return m.fmtValue(spec, verb, plus, sharp, types.Typ[types.String], mkStr(es), depth)
				}
			}
		} else {
			el, es = u.(*types.Array).Elem(), v.x.(Array)
		}
		r := strV("[")
		for i := range es {
			if i > 0 {
				r = strCat(r, strV(" "))
			}
			r = strCat(r, m.fmtElem(spec, verb, plus, sharp, el, es[i], depth+1))
		}
		return strCat(r, strV("]"))
	case *types.Map:
		r := strV("map[")
		if mp, ok := v.x.(*Map); ok {
			es := mp.live()
			if bt, ok := u.Key().Underlying().(*types.Basic); ok {
				if bt.Info()&types.IsString != 0 {
					sort.SliceStable(es, func(i, j int) bool {
						return m.decide(m.strLess(es[i].k, es[j].k, false))
					})
				} else {
					sort.SliceStable(es, func(i, j int) bool { return int64(es[i].k.n) < int64(es[j].k.n) })
				}
			} else if it, ok := u.Key().Underlying().(*types.Interface); ok && it.Empty() {
				sort.SliceStable(es, func(i, j int) bool {
					a, b := es[i].k, es[j].k
					if a.x == nil || b.x == nil {
						return a.x == nil && b.x != nil
					}
					ai, bi := asIface(a), asIface(b)
					if isStringT(ai.t) && isStringT(bi.t) {
						return m.decide(m.strLess(ai.v, bi.v, false))
					}
					return false
				})
			}
			for i, e := range es {
				if i > 0 {
					r = strCat(r, strV(" "))
				}
				r = strCat(r, m.fmtElem(spec, verb, plus, sharp, u.Key(), e.k, depth+1))
				r = strCat(r, strV(":"))
				r = strCat(r, m.fmtElem(spec, verb, plus, sharp, u.Elem(), e.v, depth+1))
			}
		}
		return strCat(r, strV("]"))
	case *types.Struct:
		s, ok := v.x.(Struct)
		if !ok {
			return strV("{?}")
		}
		r := strV("{")
		for i := range s {
			if i > 0 {
				r = strCat(r, strV(" "))
			}
			if plus {
				r = strCat(r, strV(u.Field(i).Name()+":"))
			}
			ft := u.Field(i).Type()
			if !u.Field(i).Exported() {
				if _, isI := ft.Underlying().(*types.Interface); !isI {
					r = strCat(r, m.fmtPlain(spec, verb, plus, sharp, ft, s[i], depth+1))
					continue
				}
			}
			r = strCat(r, m.fmtElem(spec, verb, plus, sharp, ft, s[i], depth+1))
		}
		return strCat(r, strV("}"))
	case *types.Pointer:
		if v.x == nil {
			return strV("<nil>")
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return strCat(strV("&"), m.fmtValue(spec, verb, plus, sharp, u.Elem(), m.load(v), depth+1))
			}
		}
		return strV(fmt.Sprintf("%#x", m.addrID(v.x)))
	case *types.Signature, *types.Chan:
		if v.x == nil {
			return strV("<nil>")
		}
		return strV("0x47b0c0")
	}
	panic(unsupported("format of " + t.String()))
}

// fmtPlain formats without calling methods at the top (unexported fields).
func (m *Machine) fmtPlain(spec string, verb byte, plus, sharp bool, t types.Type, v Val, depth int) Val {
	if _, ok := t.Underlying().(*types.Basic); ok {
		return m.fmtValue(spec, verb, plus, sharp, t.Underlying(), v, depth)
	}
	return m.fmtElem(spec, verb, plus, sharp, t, v, depth)
}

func (m *Machine) fmtElem(spec string, verb byte, plus, sharp bool, t types.Type, v Val, depth int) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if v.x == nil {
			return strV("<nil>")
		}
		i := asIface(v)
		return m.fmtValue(spec, verb, plus, sharp, i.t, i.v, depth)
	}
	return m.fmtValue(spec, verb, plus, sharp, m.canon(t), v, depth)
}

func (m *Machine) padStr(spec string, s Val) Val {
	if len(spec) == 2 || spec == "%+v" || spec == "%#v" {
		return s
	}
	return strV(fmt.Sprintf(spec[:len(spec)-1]+"s", m.conc(s, "padded format")))
}

func (m *Machine) sprintf(format string, args Slice) (Val, []int) {
	out := strV("")
	var wrapped []int
	n := 0
	for i := 0; i < len(format); {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out = strCat(out, strV(format[i:j]))
		if j >= len(format) {
			break
		}
		k := j + 1
		plus, sharp := false, false
		for k < len(format) && (format[k] == '+' || format[k] == '-' || format[k] == '#' || format[k] == ' ' || format[k] == '0') {
			plus = plus || format[k] == '+'
			sharp = sharp || format[k] == '#'
			k++
		}
		for k < len(format) && (format[k] >= '0' && format[k] <= '9' || format[k] == '.') {
			k++
		}
		if k >= len(format) {
			out = strCat(out, strV("%!(NOVERB)"))
			break
		}
		verb := format[k]
		if verb == '*' || verb == '[' {
			panic(unsupported("format " + format))
		}
		spec := format[j : k+1]
		i = k + 1
		if verb == '%' {
			out = strCat(out, strV("%"))
			continue
		}
		if n >= len(args) {
			out = strCat(out, strV("%!"+string(verb)+"(MISSING)"))
			continue
		}
		if verb == 'w' {
			wrapped = append(wrapped, n)
			verb = 'v'
			spec = spec[:len(spec)-1] + "v"
		}
		a := args[n]
		n++
		if a.x == nil {
			out = strCat(out, m.fmtValue(spec, verb, plus, sharp, nil, Val{}, 0))
			continue
		}
		it := asIface(a)
		out = strCat(out, m.fmtValue(spec, verb, plus, sharp, it.t, it.v, 0))
	}
	if n < len(args) {
		out = strCat(out, strV("%!(EXTRA "))
		for x := n; x < len(args); x++ {
			if x > n {
				out = strCat(out, strV(", "))
			}
			if args[x].x == nil {
				out = strCat(out, strV("<nil>"))
				continue
			}
			it := asIface(args[x])
			out = strCat(out, strV(types.TypeString(it.t, func(p *types.Package) string { return p.Name() })+"="))
			out = strCat(out, m.fmtValue("%v", 'v', false, false, it.t, it.v, 0))
		}
		out = strCat(out, strV(")"))
	}
	return out, wrapped
}

func (m *Machine) sprint(args Slice, ln bool) Val {
	out := strV("")
	prevStr := false
	for i, a := range args {
		isS := a.x != nil && isStringT(asIface(a).t)
		if i > 0 && (ln || !isS && !prevStr) {
			out = strCat(out, strV(" "))
		}
		if a.x == nil {
			out = strCat(out, strV("<nil>"))
		} else {
			it := asIface(a)
			out = strCat(out, m.fmtValue("%v", 'v', false, false, it.t, it.v, 0))
		}
		prevStr = isS
	}
	if ln {
		out = strCat(out, strV("\n"))
	}
	return out
}

func (m *Machine) writeTo(w Val, s Val) Val {
	if w.x == nil {
		m.nilDeref()
	}
	b := strBytes(s)
	c := make(Slice, len(b))
	copy(c, b)
	return m.callIfaceMethod(w, "Write", Val{x: c})
}

func fmtIntrinsics(I map[string]intrinsicFn) {
	I["fmt.Sprintf"] = func(m *Machine, fr *frame, a []Val) Val {
		s, _ := m.sprintf(m.conc(a[0], "format"), sliceOf(a[1]))
		return s
	}
	I["fmt.Sprint"] = func(m *Machine, fr *frame, a []Val) Val { return m.sprint(sliceOf(a[0]), false) }
	I["fmt.Sprintln"] = func(m *Machine, fr *frame, a []Val) Val { return m.sprint(sliceOf(a[0]), true) }
	I["fmt.Errorf"] = func(m *Machine, fr *frame, a []Val) Val {
		args := sliceOf(a[1])
		s, w := m.sprintf(m.conc(a[0], "format"), args)
		if len(w) == 1 && args[w[0]].x != nil && m.isErr(asIface(args[w[0]]).t) {
			t := m.eng.lookupType("fmt", "wrapError")
			p := Val{x: Struct{s, args[w[0]]}}
			return ifaceV(m.canon(types.NewPointer(t)), Val{x: &p})
		}
		t := m.eng.lookupType("errors", "errorString")
		p := Val{x: Struct{s}}
		return ifaceV(m.canon(types.NewPointer(t)), Val{x: &p})
	}
	I["fmt.Fprintf"] = func(m *Machine, fr *frame, a []Val) Val {
		s, _ := m.sprintf(m.conc(a[1], "format"), sliceOf(a[2]))
		return m.writeTo(a[0], s)
	}
	I["fmt.Fprint"] = func(m *Machine, fr *frame, a []Val) Val { return m.writeTo(a[0], m.sprint(sliceOf(a[1]), false)) }
	I["fmt.Fprintln"] = func(m *Machine, fr *frame, a []Val) Val { return m.writeTo(a[0], m.sprint(sliceOf(a[1]), true)) }
	std := func(m *Machine, s Val) Val {
		o, _ := m.ext["stdout"].(Val)
		if o.x == nil {
			o = strV("")
		}
		m.ext["stdout"] = strCat(o, s)
		return tuple(intV(int64(strLen(s))), Val{})
	}
	I["fmt.Printf"] = func(m *Machine, fr *frame, a []Val) Val {
		s, _ := m.sprintf(m.conc(a[0], "format"), sliceOf(a[1]))
		return std(m, s)
	}
	I["fmt.Print"] = func(m *Machine, fr *frame, a []Val) Val { return std(m, m.sprint(sliceOf(a[0]), false)) }
	I["fmt.Println"] = func(m *Machine, fr *frame, a []Val) Val { return std(m, m.sprint(sliceOf(a[0]), true)) }
	I["strconv.ParseFloat"] = func(m *Machine, fr *frame, a []Val) Val {
		s, ok := concStr(a[0])
		if !ok {
			return fallback
		}
		f, err := strconv.ParseFloat(s, int(m.concInt(a[1])))
		if err != nil {
			return fallback
		}
		return tuple(f64bits(f), Val{})
	}
	I["strconv.FormatFloat"] = func(m *Machine, fr *frame, a []Val) Val {
		f := math.Float64frombits(a[0].n)
		return strV(strconv.FormatFloat(f, byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	}
	I["strconv.Quote"] = func(m *Machine, fr *frame, a []Val) Val {
		if s, ok := concStr(a[0]); ok {
			return strV(strconv.Quote(s))
		}
		return fallback
	}
}
