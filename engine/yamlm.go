package main

import (
	"bytes"
	"fmt"
	"go/types"
	"io"
	"math"
	"sort"
	"strings"
	"text/template"

	yaml "gopkg.in/yaml.v2"
)

const yamlPath = "gopkg.in/yaml.v2"

// toNative converts an interpreted value to a native Go tree (strings are
// concretised by enumeration of their feasible contents).
func (m *Machine) toNative(v Val, t types.Type, useYAML bool, depth int) any {
	if depth > 200 {
		panic(unsupported("cyclic value"))
	}
	m.poisonCheck(v)
	if useYAML {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if f := m.jmethod(t, "MarshalYAML", true); f != nil {
				if _, isS := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); isS {
					if _, isP := t.Underlying().(*types.Pointer); isP && v.x == nil {
						return nil
					}
					r := m.call(f, []Val{v}, nil).x.(Tuple)
					if r[1].x != nil {
						panic(jsonWrap{r[1]})
					}
					return m.toNative(r[0], types.Universe.Lookup("any").Type(), useYAML, depth+1)
				}
			}
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == "MapSlice" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == yamlPath {
			out := yaml.MapSlice{}
			for _, e := range sliceOf(v) {
				s := e.x.(Struct)
				at := types.Universe.Lookup("any").Type()
				out = append(out, yaml.MapItem{Key: m.toNative(s[0], at, useYAML, depth+1), Value: m.toNative(s[1], at, useYAML, depth+1)})
			}
			return out
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.x == nil {
			return nil
		}
		i := asIface(v)
		return m.toNative(i.v, i.t, useYAML, depth+1)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return m.conc(v, "native string")
		case u.Info()&types.IsBoolean != 0:
			return m.decide(m.term(v, 0))
		case u.Info()&types.IsInteger != 0:
			n := m.concInt(v)
			if u.Info()&types.IsUnsigned != 0 {
				return uint64(n)
			}
			return int(n)
		case u.Info()&types.IsFloat != 0:
			return m.f64(v, u)
		}
	case *types.Pointer:
		if v.x == nil {
			return nil
		}
		return m.toNative(m.load(v), u.Elem(), useYAML, depth+1)
	case *types.Slice:
		if v.x == nil {
			return []any(nil)
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return []byte(m.conc(mkStr(sliceOf(v)), "bytes"))
		}
		out := []any{}
		for _, e := range sliceOf(v) {
			out = append(out, m.toNative(e, u.Elem(), useYAML, depth+1))
		}
		return out
	case *types.Map:
		if v.x == nil {
			return map[any]any(nil)
		}
		out := map[any]any{}
		for _, e := range v.x.(*Map).live() {
			out[m.toNative(e.k, u.Key(), useYAML, depth+1)] = m.toNative(e.v, u.Elem(), useYAML, depth+1)
		}
		return out
	case *types.Struct:
		if useYAML {
			break
		}
		out := map[string]any{}
		s, ok := v.x.(Struct)
		if !ok {
			break
		}
		for i := range s {
			if u.Field(i).Exported() {
				out[u.Field(i).Name()] = m.toNative(s[i], u.Field(i).Type(), useYAML, depth+1)
			}
		}
		return out
	}
	panic(unsupported("native conversion of " + t.String()))
}

func (m *Machine) fromNative(x any) Val {
	ifT := m.anyT()
	switch v := x.(type) {
	case nil:
		return Val{}
	case string:
		return ifaceV(m.canon(types.Typ[types.String]), strV(v))
	case bool:
		return ifaceV(m.canon(types.Typ[types.Bool]), boolV(v))
	case int:
		return ifaceV(m.canon(types.Typ[types.Int]), intV(int64(v)))
	case int64:
		return ifaceV(m.canon(types.Typ[types.Int64]), intV(v))
	case uint64:
		return ifaceV(m.canon(types.Typ[types.Uint64]), Val{n: v})
	case float64:
		return ifaceV(m.canon(types.Typ[types.Float64]), Val{n: math.Float64bits(v)})
	case []any:
		s := make(Slice, len(v))
		for i := range v {
			s[i] = m.fromNative(v[i])
		}
		return ifaceV(m.canon(types.NewSlice(ifT)), Val{x: s})
	case map[any]any:
		mp := m.newMap(ifT)
		for _, k := range nativeKeys(v) {
			m.mapSet(mp, m.fromNative(k), m.fromNative(v[k]))
		}
		return ifaceV(m.canon(types.NewMap(ifT, ifT)), Val{x: mp})
	}
	panic(unsupported(fmt.Sprintf("yaml value of type %T", x)))
}

func nativeKeys(v map[any]any) []any {
	ks := make([]any, 0, len(v))
	for k := range v {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	return ks
}

type yamlDec struct {
	r      Val
	d      *yaml.Decoder
	strict bool
}

type yamlEnc struct {
	w Val
	n int
}

type tmplObj struct {
	name string
	t    *template.Template
}

func yamlIntrinsics(I map[string]intrinsicFn) {
	I[yamlPath+".Marshal"] = func(m *Machine, fr *frame, a []Val) (res Val) {
		depth, cur := m.depth, m.cur
		defer func() {
			if r := recover(); r != nil {
				if w, ok := r.(jsonWrap); ok {
					m.depth, m.cur = depth, cur
					res = tuple(Val{}, w.err)
					return
				}
				panic(r)
			}
		}()
		n := m.toNative(a[0], types.Universe.Lookup("any").Type(), true, 0)
		b, err := yaml.Marshal(n)
		if err != nil {
			return tuple(Val{}, m.errNew(err.Error()))
		}
		return tuple(bytesV(b), Val{})
	}
	decode := func(m *Machine, target Val, read func(any) error) Val {
		give := func(err error) Val {
			if err == io.EOF {
				return m.ioEOF()
			}
			return m.errNew(err.Error())
		}
		i := asIface(target)
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("yaml.Unmarshal target"))
		}
		p := ptrTo(i.v, "yaml")
		switch u := pt.Elem().Underlying().(type) {
		case *types.Interface:
			var x any
			if err := read(&x); err != nil {
				return give(err)
			}
			m.store(p, m.fromNative(x))
			return Val{}
		case *types.Map:
			_, isAny := u.Elem().Underlying().(*types.Interface)
			kb, ok := u.Key().Underlying().(*types.Basic)
			if _, anyKey := u.Key().Underlying().(*types.Interface); anyKey && isAny {
				var x map[any]any
				if err := read(&x); err != nil {
					return give(err)
				}
				mp, _ := p.x.(*Map)
				if mp != nil {
					panic(unsupported("yaml.Unmarshal into a filled map"))
				}
				if x != nil {
					m.store(p, asIface(m.fromNative(x)).v)
				}
				return Val{}
			}
			if !ok || !isAny || kb.Info()&types.IsString == 0 {
				break
			}
			var x map[string]any
			err := read(&x)
			if x != nil {
				mp, _ := p.x.(*Map)
				if mp == nil {
					mp = m.newMap(u.Key())
				}
				ks := make([]string, 0, len(x))
				for k := range x {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					m.mapSet(mp, strV(k), m.fromNative(x[k]))
				}
				m.store(p, Val{x: mp})
			}
			if err != nil {
				return give(err)
			}
			return Val{}
		}
		panic(unsupported("yaml.Unmarshal into " + pt.Elem().String()))
	}
	I[yamlPath+".Unmarshal"] = func(m *Machine, fr *frame, a []Val) Val {
		src := []byte(m.conc(mkStr(sliceOf(a[0])), "yaml"))
		return decode(m, a[1], func(x any) error { return yaml.Unmarshal(src, x) })
	}
	I[yamlPath+".UnmarshalStrict"] = func(m *Machine, fr *frame, a []Val) Val {
		src := []byte(m.conc(mkStr(sliceOf(a[0])), "yaml"))
		return decode(m, a[1], func(x any) error { return yaml.UnmarshalStrict(src, x) })
	}
	I[yamlPath+".NewDecoder"] = func(m *Machine, fr *frame, a []Val) Val { return Val{x: &yamlDec{r: a[0]}} }
	I["(*"+yamlPath+".Decoder).SetStrict"] = func(m *Machine, fr *frame, a []Val) Val {
		a[0].x.(*yamlDec).strict = a[1].n != 0
		return Val{}
	}
	I["(*"+yamlPath+".Decoder).Decode"] = func(m *Machine, fr *frame, a []Val) Val {
		d := a[0].x.(*yamlDec)
		if d.d == nil {
			r := m.call(m.prog.ImportedPackage("io").Func("ReadAll"), []Val{d.r}, nil).x.(Tuple)
			if r[1].x != nil {
				return r[1]
			}
			d.d = yaml.NewDecoder(strings.NewReader(m.conc(mkStr(sliceOf(r[0])), "yaml")))
			d.d.SetStrict(d.strict)
		}
		return decode(m, a[1], d.d.Decode)
	}
	I[yamlPath+".NewEncoder"] = func(m *Machine, fr *frame, a []Val) Val { return Val{x: &yamlEnc{w: a[0]}} }
	I["(*"+yamlPath+".Encoder).Encode"] = func(m *Machine, fr *frame, a []Val) Val {
		e := a[0].x.(*yamlEnc)
		r := I[yamlPath+".Marshal"](m, fr, a[1:]).x.(Tuple)
		if r[1].x != nil {
			return r[1]
		}
		b := sliceOf(r[0])
		if e.n++; e.n > 1 {
			b = append(append(Slice{}, sliceOf(bytesV([]byte("---\n")))...), b...)
		}
		return m.callIfaceMethod(e.w, "Write", Val{x: b}).x.(Tuple)[1]
	}
	I["(*"+yamlPath+".Encoder).Close"] = func(m *Machine, fr *frame, a []Val) Val { return Val{} }

	// text/template: parsed by the real package; data is converted natively.
	tp := "text/template"
	I[tp+".New"] = func(m *Machine, fr *frame, a []Val) Val {
		return Val{x: &tmplObj{name: m.conc(a[0], "template name")}}
	}
	I["(*"+tp+".Template).Parse"] = func(m *Machine, fr *frame, a []Val) Val {
		o, ok := a[0].x.(*tmplObj)
		if !ok {
			panic(unsupported("template"))
		}
		t, err := template.New(o.name).Parse(m.conc(a[1], "template text"))
		if err != nil {
			return tuple(Val{}, m.errNew(err.Error()))
		}
		return tuple(Val{x: &tmplObj{o.name, t}}, Val{})
	}
	I["(*"+tp+".Template).Execute"] = func(m *Machine, fr *frame, a []Val) Val {
		o, ok := a[0].x.(*tmplObj)
		if !ok || o.t == nil {
			panic(unsupported("template"))
		}
		// symbolic strings that are only inserted verbatim travel as placeholders
		var data any
		var marks []string
		syms := map[string]Val{}
		simple := !strings.Contains(o.t.Root.String(), "|") && tmplSimple(o.t.Root.String())
		if a[2].x != nil {
			i := asIface(a[2])
			if st, ok := i.t.Underlying().(*types.Struct); ok && simple {
				mp := map[string]any{}
				for k, f := range i.v.x.(Struct) {
					if !st.Field(k).Exported() {
						continue
					}
					if _, isSym := f.x.(*SStr); isSym {
						mk := fmt.Sprintf("\x00nd%d\x00", k)
						syms[mk] = f
						marks = append(marks, mk)
						mp[st.Field(k).Name()] = mk
						continue
					}
					mp[st.Field(k).Name()] = m.toNative(f, st.Field(k).Type(), false, 0)
				}
				data = mp
			} else {
				data = m.toNative(a[2], types.Universe.Lookup("any").Type(), false, 0)
			}
		}
		var buf bytes.Buffer
		if err := o.t.Execute(&buf, data); err != nil {
			return m.errNew(err.Error())
		}
		out := strV("")
		rest := buf.String()
	outer:
		for {
			at, which := -1, ""
			for _, mk := range marks {
				if i := strings.Index(rest, mk); i >= 0 && (at < 0 || i < at) {
					at, which = i, mk
				}
			}
			if at < 0 {
				break outer
			}
			out = strCat(strCat(out, strV(rest[:at])), syms[which])
			rest = rest[at+len(which):]
		}
		out = strCat(out, strV(rest))
		m.writeTo(a[1], out)
		return Val{}
	}
}

// tmplSimple reports whether every action is a plain field insertion.
func tmplSimple(s string) bool {
	for {
		i := strings.Index(s, "{{")
		if i < 0 {
			return true
		}
		j := strings.Index(s[i:], "}}")
		if j < 0 {
			return false
		}
		act := strings.TrimSpace(strings.Trim(s[i+2:i+j], "-"))
		if !strings.HasPrefix(act, ".") || strings.ContainsAny(act, " ()\"") {
			return false
		}
		s = s[i+j+2:]
	}
}
