package main

import (
	"go/types"
)

// Models of reflect beyond what fmt, encoding/json and yaml.v2 (models themselves) need: looking at types and values.

func (m *Machine) rtype(t types.Type) Val { return m.typeKeyIface(t) }

func rtOf(v Val) types.Type {
	switch x := v.x.(type) {
	case *reflType:
		return x.t
	case *Iface:
		if r, ok := x.v.x.(*reflType); ok {
			return r.t
		}
	}
	panic(unsupported("reflect.Type"))
}

func (m *Machine) rvOf(t types.Type, v Val, p *Val) Val {
	return Val{x: &reflVal{t: t, v: v, p: p}}
}

func (r *reflVal) get() Val {
	if r.p != nil {
		return copyVal(*r.p)
	}
	return r.v
}

func (m *Machine) rvNeed(v Val, method string, kinds ...uint64) *reflVal {
	r := rv(v)
	if r.t == nil {
		m.goPanicStr("reflect: call of reflect.Value." + method + " on zero Value")
	}
	if len(kinds) == 0 {
		return r
	}
	k := kindOf(r.t)
	for _, x := range kinds {
		if x == k {
			return r
		}
	}
	m.goPanicStr("reflect: call of reflect.Value." + method + " on " + r.t.String() + " Value")
	return nil
}

func (m *Machine) isZeroVal(t types.Type, v Val) *Term {
	if st, ok := t.Underlying().(*types.Struct); ok {
		r := m.tt.T
		for i, f := range v.x.(Struct) {
			r = m.tt.And(r, m.isZeroVal(st.Field(i).Type(), f))
		}
		return r
	}
	switch t.Underlying().(type) {
	case *types.Basic, *types.Array:
		return m.eq(t, v, m.zero(t))
	}
	return m.tt.Bool(v.x == nil)
}

type refIter struct {
	mt   *types.Map
	ents []*MEnt
	at   int
}

func reflectIntrinsics(I map[string]intrinsicFn) {
	T := func(name string, f func(m *Machine, t types.Type, a []Val) Val) {
		I["(*reflect.rtype)."+name] = func(m *Machine, fr *frame, a []Val) Val { return f(m, rtOf(a[0]), a) }
	}
	T("Kind", func(m *Machine, t types.Type, a []Val) Val { return Val{n: kindOf(t)} })
	T("String", func(m *Machine, t types.Type, a []Val) Val {
		return strV(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	})
	T("Name", func(m *Machine, t types.Type, a []Val) Val {
		switch n := t.(type) {
		case *types.Named:
			return strV(n.Obj().Name())
		case *types.Basic:
			return strV(n.Name())
		}
		return strV("")
	})
	T("PkgPath", func(m *Machine, t types.Type, a []Val) Val {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strV(n.Obj().Pkg().Path())
		}
		return strV("")
	})
	T("Comparable", func(m *Machine, t types.Type, a []Val) Val { return boolV(types.Comparable(t)) })
	T("Elem", func(m *Machine, t types.Type, a []Val) Val {
		if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return m.rtype(e.Elem())
		}
		m.goPanicStr("reflect: Elem of invalid type " + t.String())
		return Val{}
	})
	T("Key", func(m *Machine, t types.Type, a []Val) Val {
		if e, ok := t.Underlying().(*types.Map); ok {
			return m.rtype(e.Key())
		}
		m.goPanicStr("reflect: Key of non-map type " + t.String())
		return Val{}
	})
	T("NumField", func(m *Machine, t types.Type, a []Val) Val {
		if e, ok := t.Underlying().(*types.Struct); ok {
			return intV(int64(e.NumFields()))
		}
		m.goPanicStr("reflect: NumField of non-struct type " + t.String())
		return Val{}
	})
	T("Implements", func(m *Machine, t types.Type, a []Val) Val {
		it, ok := rtOf(a[1]).Underlying().(*types.Interface)
		if !ok {
			m.goPanicStr("reflect: non-interface type passed to Type.Implements")
		}
		return boolV(types.Implements(t, it))
	})
	T("AssignableTo", func(m *Machine, t types.Type, a []Val) Val { return boolV(types.AssignableTo(t, rtOf(a[1]))) })
	T("ConvertibleTo", func(m *Machine, t types.Type, a []Val) Val { return boolV(types.ConvertibleTo(t, rtOf(a[1]))) })

	V := func(name string, f intrinsicFn) { I["(reflect.Value)."+name] = f }
	V("Type", func(m *Machine, fr *frame, a []Val) Val { return m.rtype(m.rvNeed(a[0], "Type").t) })
	V("Interface", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "Interface")
		v := r.get()
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return v
		}
		return ifaceV(m.canon(r.t), v)
	})
	V("CanInterface", func(m *Machine, fr *frame, a []Val) Val { m.rvNeed(a[0], "CanInterface"); return boolV(true) })
	V("CanSet", func(m *Machine, fr *frame, a []Val) Val { return boolV(rv(a[0]).p != nil) })
	V("CanAddr", func(m *Machine, fr *frame, a []Val) Val { return boolV(rv(a[0]).p != nil) })
	V("Elem", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "Elem", 20, 22)
		v := r.get()
		if v.x == nil {
			return Val{x: &reflVal{}}
		}
		if pt, ok := r.t.Underlying().(*types.Pointer); ok {
			return m.rvOf(m.canon(pt.Elem()), Val{}, ptrTo(v, "reflect"))
		}
		i := asIface(v)
		return m.rvOf(i.t, i.v, nil)
	})
	V("Index", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "Index", 17, 23, 24)
		v := r.get()
		k := m.concInt(a[1])
		n := int64(0)
		switch x := v.x.(type) {
		case Slice:
			n = int64(len(x))
		case Array:
			n = int64(len(x))
		case nil:
		default:
			n = int64(strLen(v))
		}
		if k < 0 || k >= n {
			m.goPanicStr("reflect: index out of range")
		}
		switch x := v.x.(type) {
		case Slice:
			return m.rvOf(m.canon(r.t.Underlying().(*types.Slice).Elem()), Val{}, &x[k])
		case Array:
			return m.rvOf(m.canon(r.t.Underlying().(*types.Array).Elem()), copyVal(x[k]), nil)
		}
		return m.rvOf(m.canon(types.Typ[types.Uint8]), strBytes(v)[k], nil)
	})
	V("MapKeys", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "MapKeys", 21)
		kt := m.canon(r.t.Underlying().(*types.Map).Key())
		mp, _ := r.get().x.(*Map)
		s := Slice{}
		if mp != nil {
			for _, e := range m.orderEnts(mp) {
				s = append(s, m.rvOf(kt, e.k, nil))
			}
		}
		return Val{x: s}
	})
	V("MapIndex", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "MapIndex", 21)
		mt := r.t.Underlying().(*types.Map)
		mp, _ := r.get().x.(*Map)
		k := rv(a[1])
		kv := k.get()
		if _, ok := mt.Key().Underlying().(*types.Interface); ok {
			if _, ki := k.t.Underlying().(*types.Interface); !ki {
				kv = ifaceV(m.canon(k.t), kv)
			}
		}
		if e := m.mapFind(mp, kv); e != nil {
			return m.rvOf(m.canon(mt.Elem()), copyVal(e.v), nil)
		}
		return Val{x: &reflVal{}}
	})
	V("NumField", func(m *Machine, fr *frame, a []Val) Val {
		return intV(int64(m.rvNeed(a[0], "NumField", 25).t.Underlying().(*types.Struct).NumFields()))
	})
	V("Field", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "Field", 25)
		st := r.t.Underlying().(*types.Struct)
		i := m.concInt(a[1])
		if i < 0 || int(i) >= st.NumFields() {
			m.goPanicStr("reflect: Field index out of range")
		}
		ft := m.canon(st.Field(int(i)).Type())
		if r.p != nil {
			return m.rvOf(ft, Val{}, &r.p.x.(Struct)[i])
		}
		return m.rvOf(ft, copyVal(r.v.x.(Struct)[i]), nil)
	})
	V("IsZero", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "IsZero")
		return valOf(m.isZeroVal(r.t, r.get()), false)
	})
	V("String", func(m *Machine, fr *frame, a []Val) Val {
		r := rv(a[0])
		if r.t == nil {
			return strV("<invalid Value>")
		}
		if kindOf(r.t) == 24 {
			return r.get()
		}
		return strV("<" + types.TypeString(r.t, func(p *types.Package) string { return p.Name() }) + " Value>")
	})
	V("Bool", func(m *Machine, fr *frame, a []Val) Val { return m.rvNeed(a[0], "Bool", 1).get() })
	V("Int", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "Int", 2, 3, 4, 5, 6)
		return m.convert(r.get(), r.t, types.Typ[types.Int64])
	})
	V("Uint", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "Uint", 7, 8, 9, 10, 11, 12)
		return m.convert(r.get(), r.t, types.Typ[types.Uint64])
	})
	V("Float", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "Float", 13, 14)
		return m.convert(r.get(), r.t, types.Typ[types.Float64])
	})
	V("Set", func(m *Machine, fr *frame, a []Val) Val {
		r, s := m.rvNeed(a[0], "Set"), m.rvNeed(a[1], "Set")
		if r.p == nil {
			m.goPanicStr("reflect: reflect.Value.Set using unaddressable value")
		}
		v := s.get()
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			if _, si := s.t.Underlying().(*types.Interface); !si {
				v = ifaceV(m.canon(s.t), v)
			}
		}
		m.store(r.p, v)
		return Val{}
	})
	V("MapRange", func(m *Machine, fr *frame, a []Val) Val {
		r := m.rvNeed(a[0], "MapRange", 21)
		it := &refIter{mt: r.t.Underlying().(*types.Map), at: -1}
		if mp, _ := r.get().x.(*Map); mp != nil {
			it.ents = m.orderEnts(mp)
		}
		return Val{x: &Val{x: it}}
	})
	I["(*reflect.MapIter).Next"] = func(m *Machine, fr *frame, a []Val) Val {
		it := ptrTo(a[0], "MapIter").x.(*refIter)
		it.at++
		return boolV(it.at < len(it.ents))
	}
	I["(*reflect.MapIter).Key"] = func(m *Machine, fr *frame, a []Val) Val {
		it := ptrTo(a[0], "MapIter").x.(*refIter)
		return m.rvOf(m.canon(it.mt.Key()), it.ents[it.at].k, nil)
	}
	I["(*reflect.MapIter).Value"] = func(m *Machine, fr *frame, a []Val) Val {
		it := ptrTo(a[0], "MapIter").x.(*refIter)
		return m.rvOf(m.canon(it.mt.Elem()), copyVal(it.ents[it.at].v), nil)
	}
	I["reflect.Indirect"] = func(m *Machine, fr *frame, a []Val) Val {
		if r := rv(a[0]); r.t == nil || kindOf(r.t) != 22 {
			return a[0]
		}
		return I["(reflect.Value).Elem"](m, fr, a)
	}
	I["reflect.Zero"] = func(m *Machine, fr *frame, a []Val) Val {
		t := rtOf(a[0])
		return m.rvOf(t, m.zero(t), nil)
	}
	I["reflect.New"] = func(m *Machine, fr *frame, a []Val) Val {
		t := rtOf(a[0])
		z := m.zero(t)
		return m.rvOf(m.canon(types.NewPointer(t)), Val{x: &z}, nil)
	}
}
