package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Model of encoding/json: the encoder and decoder walk interpreted values by
// their static types; all text is bytes that may be symbolic.

type jnode struct {
	k      byte // n t f # " [ {
	s      Val  // decoded string, or number literal
	lo, hi int
	keys   []*jnode
	kids   []*jnode
}

type jparser struct {
	m   *Machine
	b   []Val
	pos int
	err string
	dep int
}

type jsonErr struct{ msg string }

func (p *jparser) fail(msg string) { panic(jsonErr{msg}) }

func (p *jparser) is(c byte) bool {
	if p.pos >= len(p.b) {
		return false
	}
	v := p.b[p.pos]
	if v.x == nil {
		return byte(v.n) == c
	}
	return p.m.decide(p.m.tt.Bin(OpEq, p.m.byteTerm(v), p.m.tt.Const(uint64(c), 8)))
}

func (p *jparser) ws() {
	for p.pos < len(p.b) {
		v := p.b[p.pos]
		if v.x == nil {
			switch byte(v.n) {
			case ' ', '\t', '\n', '\r':
				p.pos++
				continue
			}
			return
		}
		if !p.m.decide(p.m.charsetTerm(p.m.byteTerm(v), " \t\n\r")) {
			return
		}
		p.pos++
	}
}

func (p *jparser) digit() bool {
	if p.pos >= len(p.b) {
		return false
	}
	v := p.b[p.pos]
	if v.x == nil {
		return byte(v.n) >= '0' && byte(v.n) <= '9'
	}
	return p.m.decide(p.m.charsetTerm(p.m.byteTerm(v), "0123456789"))
}

func (p *jparser) lit(s string) {
	for i := 0; i < len(s); i++ {
		if !p.is(s[i]) {
			p.fail("invalid character in literal " + s)
		}
		p.pos++
	}
}

func (p *jparser) value() *jnode {
	p.dep++
	if p.dep > 10000 {
		p.fail("exceeded max depth")
	}
	defer func() { p.dep-- }()
	p.ws()
	n := &jnode{lo: p.pos}
	if p.pos >= len(p.b) {
		p.fail("unexpected end of JSON input")
	}
	switch {
	case p.is('{'):
		n.k = '{'
		p.pos++
		p.ws()
		if p.is('}') {
			p.pos++
			break
		}
		for {
			p.ws()
			if !p.is('"') {
				p.fail("invalid character looking for beginning of object key string")
			}
			k := &jnode{k: '"', lo: p.pos}
			k.s = p.str()
			k.hi = p.pos
			p.ws()
			if !p.is(':') {
				p.fail("invalid character after object key")
			}
			p.pos++
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, p.value())
			p.ws()
			if p.is(',') {
				p.pos++
				continue
			}
			if p.is('}') {
				p.pos++
				break
			}
			p.fail("invalid character after object key:value pair")
		}
	case p.is('['):
		n.k = '['
		p.pos++
		p.ws()
		if p.is(']') {
			p.pos++
			break
		}
		for {
			n.kids = append(n.kids, p.value())
			p.ws()
			if p.is(',') {
				p.pos++
				continue
			}
			if p.is(']') {
				p.pos++
				break
			}
			p.fail("invalid character after array element")
		}
	case p.is('"'):
		n.k = '"'
		n.s = p.str()
	case p.is('t'):
		n.k = 't'
		p.lit("true")
	case p.is('f'):
		n.k = 'f'
		p.lit("false")
	case p.is('n'):
		n.k = 'n'
		p.lit("null")
	default:
		n.k = '#'
		if p.is('-') {
			p.pos++
		}
		if !p.digit() {
			p.fail("invalid character looking for beginning of value")
		}
		if p.is('0') {
			p.pos++
		} else {
			for p.digit() {
				p.pos++
			}
		}
		if p.is('.') {
			p.pos++
			if !p.digit() {
				p.fail("invalid character after decimal point in numeric literal")
			}
			for p.digit() {
				p.pos++
			}
		}
		if p.is('e') || p.is('E') {
			p.pos++
			if p.is('+') || p.is('-') {
				p.pos++
			}
			if !p.digit() {
				p.fail("invalid character in exponent of numeric literal")
			}
			for p.digit() {
				p.pos++
			}
		}
		n.s = mkStr(p.b[n.lo:p.pos])
	}
	n.hi = p.pos
	return n
}

func (p *jparser) hex4() Val {
	m := p.m
	r := m.tt.Const(0, 32)
	for i := 0; i < 4; i++ {
		if p.pos >= len(p.b) {
			p.fail("unexpected end of JSON input")
		}
		t := m.byteTerm(p.b[p.pos])
		p.pos++
		if !m.decide(m.charsetTerm(t, "0123456789abcdefABCDEF")) {
			p.fail("invalid character in \\u hexadecimal character escape")
		}
		c := func(v uint64) *Term { return m.tt.Const(v, 8) }
		d := m.tt.Ite(m.tt.Bin(OpUle, t, c('9')), m.tt.Bin(OpSub, t, c('0')),
			m.tt.Ite(m.tt.Bin(OpUle, c('a'), t), m.tt.Bin(OpSub, t, c('a'-10)), m.tt.Bin(OpSub, t, c('A'-10))))
		r = m.tt.Bin(OpOr, m.tt.Bin(OpShl, r, m.tt.Const(4, 32)), m.tt.Zext(d, 32))
	}
	return valOf(r, true)
}

// str parses a string literal at pos and returns its decoded value.
func (p *jparser) str() Val {
	m := p.m
	p.pos++
	var out []Val
	for {
		if p.pos >= len(p.b) {
			p.fail("unexpected end of JSON input")
		}
		if p.is('"') {
			p.pos++
			return mkStr(out)
		}
		if p.is('\\') {
			p.pos++
			if p.pos >= len(p.b) {
				p.fail("unexpected end of JSON input")
			}
			esc := "\"\\/bfnrt"
			rep := "\"\\/\b\f\n\r\t"
			done := false
			for i := 0; i < len(esc); i++ {
				if p.is(esc[i]) {
					out = append(out, Val{n: uint64(rep[i])})
					p.pos++
					done = true
					break
				}
			}
			if done {
				continue
			}
			if !p.is('u') {
				p.fail("invalid character in string escape code")
			}
			p.pos++
			r := p.hex4()
			rt := m.term(r, 32)
			if m.decide(m.tt.And(m.tt.Bin(OpUle, m.tt.Const(0xD800, 32), rt), m.tt.Bin(OpUlt, rt, m.tt.Const(0xE000, 32)))) {
				hi := m.concInt(r)
				if hi < 0xDC00 && p.pos+1 < len(p.b) && p.is('\\') {
					save := p.pos
					p.pos++
					if p.is('u') {
						p.pos++
						lo := m.concInt(p.hex4())
						if lo >= 0xDC00 && lo < 0xE000 {
							rr := (hi-0xD800)<<10 | (lo - 0xDC00) + 0
							out = append(out, strBytes(strV(string(rune(rr+0x10000))))...)
							continue
						}
					}
					p.pos = save
				}
				out = append(out, strBytes(strV("\uFFFD"))...)
				continue
			}
			out = append(out, strBytes(m.encodeRune(r))...)
			continue
		}
		v := p.b[p.pos]
		t := m.byteTerm(v)
		if m.decide(m.tt.Bin(OpUlt, t, m.tt.Const(0x20, 8))) {
			p.fail("invalid character in string literal")
		}
		if m.decide(m.tt.Bin(OpUlt, t, m.tt.Const(0x80, 8))) {
			out = append(out, v)
			p.pos++
			continue
		}
		r, w := m.decodeRune(mkStr(p.b[p.pos:]))
		if w == 1 && r.x == nil && r.n == 0xFFFD {
			out = append(out, strBytes(strV("\uFFFD"))...)
		} else {
			out = append(out, p.b[p.pos:p.pos+w]...)
		}
		p.pos += w
	}
}

func isJSONNumber(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "Number"
}

// jsonPrefix parses one value and returns where it ends.
func (m *Machine) jsonPrefix(b []Val) (n *jnode, end int, msg string) {
	p := &jparser{m: m, b: b}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				n, end, msg = nil, p.pos, e.msg
				return
			}
			panic(r)
		}
	}()
	n = p.value()
	return n, p.pos, ""
}

func (m *Machine) jsonParse(b []Val) (n *jnode, msg string) {
	p := &jparser{m: m, b: b}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				n, msg = nil, e.msg
				return
			}
			panic(r)
		}
	}()
	n = p.value()
	p.ws()
	if p.pos != len(p.b) {
		return nil, "invalid character after top-level value"
	}
	return n, ""
}

// ---- struct fields ----

type jfield struct {
	name   string
	tagged bool
	omit   bool
	quoted bool
	index  []int
	typ    types.Type
}

func isValidTag(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		switch {
		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
		case c < '0' || c > '9' && c < 'A' || c > 'Z' && c < 'a' || c > 'z' && c < 0x80:
			return false
		}
	}
	return true
}

func (m *Machine) jfields(t types.Type) []jfield {
	if f, ok := m.jfC[t]; ok {
		return f
	}
	type lvl struct {
		t     types.Type
		index []int
	}
	var current []lvl
	next := []lvl{{t: t}}
	var count, nextCount map[types.Type]int
	visited := map[types.Type]bool{}
	var fields []jfield
	for len(next) > 0 {
		current, next = next, current[:0:0]
		count, nextCount = nextCount, map[types.Type]int{}
		for _, f := range current {
			ft := m.canon(f.t)
			if visited[ft] {
				continue
			}
			visited[ft] = true
			st := f.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				sf := st.Field(i)
				if sf.Anonymous() {
					et := derefT(sf.Type())
					_, isS := et.Underlying().(*types.Struct)
					if !sf.Exported() && !isS {
						continue
					}
				} else if !sf.Exported() {
					continue
				}
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				if !isValidTag(name) {
					name = ""
				}
				idx := append(append([]int{}, f.index...), i)
				ut := sf.Type()
				if p, ok := sf.Type().(*types.Pointer); ok {
					ut = p.Elem()
				}
				omit, quoted := false, false
				for _, o := range parts[1:] {
					switch o {
					case "omitempty":
						omit = true
					case "string":
						quoted = true
					}
				}
				_, isS := ut.Underlying().(*types.Struct)
				if name != "" || !sf.Anonymous() || !isS {
					tagged := name != ""
					if name == "" {
						name = sf.Name()
					}
					fl := jfield{name: name, tagged: tagged, index: idx, typ: sf.Type(), omit: omit, quoted: quoted}
					fields = append(fields, fl)
					if count[ft] > 1 {
						fields = append(fields, fl)
					}
					continue
				}
				nt := m.canon(ut)
				nextCount[nt]++
				if nextCount[nt] == 1 {
					next = append(next, lvl{t: ut, index: idx})
				}
			}
		}
	}
	less := func(a, b jfield) int {
		for i := 0; i < len(a.index) && i < len(b.index); i++ {
			if a.index[i] != b.index[i] {
				return a.index[i] - b.index[i]
			}
		}
		return len(a.index) - len(b.index)
	}
	sort.SliceStable(fields, func(i, j int) bool {
		a, b := fields[i], fields[j]
		if a.name != b.name {
			return a.name < b.name
		}
		if len(a.index) != len(b.index) {
			return len(a.index) < len(b.index)
		}
		if a.tagged != b.tagged {
			return a.tagged
		}
		return less(a, b) < 0
	})
	var out []jfield
	for i := 0; i < len(fields); {
		j := i
		for j < len(fields) && fields[j].name == fields[i].name {
			j++
		}
		if j-i == 1 || len(fields[i].index) != len(fields[i+1].index) || fields[i].tagged != fields[i+1].tagged {
			out = append(out, fields[i])
		}
		i = j
	}
	sort.SliceStable(out, func(i, j int) bool { return less(out[i], out[j]) < 0 })
	m.jfC[t] = out
	return out
}

// ---- encoder ----

type jenc struct {
	m    *Machine
	out  []Val
	html bool
	dep  int
}

func (e *jenc) lit(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, Val{n: uint64(s[i])})
	}
}

func hexDigit(m *Machine, t *Term) Val {
	c := func(v uint64) *Term { return m.tt.Const(v, 8) }
	return valOf(m.tt.Ite(m.tt.Bin(OpUlt, t, c(10)), m.tt.Bin(OpAdd, t, c('0')), m.tt.Bin(OpAdd, t, c('a'-10))), false)
}

func (e *jenc) str(v Val) {
	m := e.m
	b := strBytes(v)
	e.lit(`"`)
	special := "\"\\"
	if e.html {
		special += "<>&"
	}
	for i := 0; i < len(b); {
		t := m.byteTerm(b[i])
		c := func(v uint64) *Term { return m.tt.Const(v, 8) }
		plain := m.tt.And(m.tt.And(m.tt.Bin(OpUle, c(0x20), t), m.tt.Bin(OpUlt, t, c(0x80))), m.tt.Not(m.charsetTerm(t, special)))
		if m.decide(plain) {
			e.out = append(e.out, b[i])
			i++
			continue
		}
		if m.decide(m.tt.Bin(OpUlt, t, c(0x80))) {
			esc := "\"\\\b\f\n\r\t"
			rep := "\"\\bfnrt"
			done := false
			for k := 0; k < len(esc); k++ {
				if m.decide(m.tt.Bin(OpEq, t, c(uint64(esc[k])))) {
					e.lit("\\" + string(rep[k]))
					done = true
					break
				}
			}
			if !done {
				e.lit(`\u00`)
				e.out = append(e.out, hexDigit(m, m.tt.Bin(OpLshr, t, c(4))), hexDigit(m, m.tt.Bin(OpAnd, t, c(15))))
			}
			i++
			continue
		}
		r, w := m.decodeRune(mkStr(b[i:]))
		if w == 1 && r.x == nil && r.n == 0xFFFD {
			e.lit(`\ufffd`)
			i++
			continue
		}
		rt := m.term(r, 32)
		if m.decide(m.tt.Bin(OpEq, rt, m.tt.Const(0x2028, 32))) {
			e.lit(`\u2028`)
		} else if m.decide(m.tt.Bin(OpEq, rt, m.tt.Const(0x2029, 32))) {
			e.lit(`\u2029`)
		} else {
			e.out = append(e.out, b[i:i+w]...)
		}
		i += w
	}
	e.lit(`"`)
}

// raw re-emits a parsed value in compact form.
func (e *jenc) raw(src []Val, n *jnode) {
	str := func(n *jnode) {
		m := e.m
		for i := n.lo; i < n.hi; i++ {
			t := m.byteTerm(src[i])
			if e.html && m.decide(m.charsetTerm(t, "<>&")) {
				e.lit(`\u00`)
				e.out = append(e.out, hexDigit(m, m.tt.Bin(OpLshr, t, m.tt.Const(4, 8))), hexDigit(m, m.tt.Bin(OpAnd, t, m.tt.Const(15, 8))))
				continue
			}
			e.out = append(e.out, src[i])
		}
	}
	switch n.k {
	case '{':
		e.lit("{")
		for i := range n.kids {
			if i > 0 {
				e.lit(",")
			}
			str(n.keys[i])
			e.lit(":")
			e.raw(src, n.kids[i])
		}
		e.lit("}")
	case '[':
		e.lit("[")
		for i := range n.kids {
			if i > 0 {
				e.lit(",")
			}
			e.raw(src, n.kids[i])
		}
		e.lit("]")
	case '"':
		str(n)
	default:
		e.out = append(e.out, src[n.lo:n.hi]...)
	}
}

func (e *jenc) indent(src []Val, n *jnode, prefix, ind string, dep int) {
	nl := func(d int) { e.lit("\n" + prefix + strings.Repeat(ind, d)) }
	switch n.k {
	case '{':
		e.lit("{")
		for i := range n.kids {
			if i > 0 {
				e.lit(",")
			}
			nl(dep + 1)
			e.out = append(e.out, src[n.keys[i].lo:n.keys[i].hi]...)
			e.lit(": ")
			e.indent(src, n.kids[i], prefix, ind, dep+1)
		}
		if len(n.kids) > 0 {
			nl(dep)
		}
		e.lit("}")
	case '[':
		e.lit("[")
		for i := range n.kids {
			if i > 0 {
				e.lit(",")
			}
			nl(dep + 1)
			e.indent(src, n.kids[i], prefix, ind, dep+1)
		}
		if len(n.kids) > 0 {
			nl(dep)
		}
		e.lit("]")
	default:
		e.out = append(e.out, src[n.lo:n.hi]...)
	}
}

func (e *jenc) callMarshaler(f Val) {
	t, ok := f.x.(Tuple)
	if !ok {
		panic(engineErr("MarshalJSON result"))
	}
	if t[1].x != nil {
		panic(jsonWrap{t[1]})
	}
	src := sliceOf(t[0])
	n, msg := e.m.jsonParse(src)
	if n == nil {
		panic(jsonErr{"json: error calling MarshalJSON: " + msg})
	}
	e.raw(src, n)
}

type jsonWrap struct{ err Val }

func (e *jenc) enc(v Val, t types.Type, p *Val) {
	m := e.m
	e.dep++
	defer func() { e.dep-- }()
	if e.dep > 1000 {
		panic(jsonErr{"json: unsupported value: encountered a cycle"})
	}
	m.poisonCheck(v)
	_, isI := t.Underlying().(*types.Interface)
	if !isI {
		if f := m.jmethod(t, "MarshalJSON", true); f != nil {
			if _, isP := t.Underlying().(*types.Pointer); isP && v.x == nil {
				e.lit("null")
				return
			}
			e.callMarshaler(m.call(f, []Val{v}, nil))
			return
		}
		if p != nil {
			pt := types.NewPointer(t)
			if f := m.jmethod(m.canon(pt), "MarshalJSON", true); f != nil {
				e.callMarshaler(m.call(f, []Val{{x: p}}, nil))
				return
			}
		}
		if f := m.jmethod(t, "MarshalText", true); f != nil {
			if _, isP := t.Underlying().(*types.Pointer); isP && v.x == nil {
				e.lit("null")
				return
			}
			r := m.call(f, []Val{v}, nil).x.(Tuple)
			if r[1].x != nil {
				panic(jsonWrap{r[1]})
			}
			e.str(mkStr(sliceOf(r[0])))
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.x == nil {
			e.lit("null")
			return
		}
		i := asIface(v)
		e.enc(i.v, i.t, nil)
	case *types.Basic:
		switch {
		case isJSONNumber(t):
			if strLen(v) == 0 {
				e.lit("0")
				return
			}
			if n, _ := m.jsonParse(strBytes(v)); n == nil || n.k != '#' {
				panic(jsonErr{"json: invalid number literal"})
			}
			e.out = append(e.out, strBytes(v)...)
		case u.Info()&types.IsString != 0:
			e.str(v)
		case u.Info()&types.IsBoolean != 0:
			if m.decide(m.term(v, 0)) {
				e.lit("true")
			} else {
				e.lit("false")
			}
		case u.Info()&types.IsInteger != 0:
			n := m.concInt(v)
			if u.Info()&types.IsUnsigned != 0 {
				e.lit(fmt.Sprint(uint64(n)))
			} else {
				e.lit(fmt.Sprint(n))
			}
		case u.Info()&types.IsFloat != 0:
			f := m.f64(v, u)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				panic(jsonErr{"json: unsupported value: " + fmt.Sprint(f)})
			}
			var b []byte
			if u.Kind() == types.Float32 {
				b, _ = json.Marshal(float32(f))
			} else {
				b, _ = json.Marshal(f)
			}
			e.lit(string(b))
		default:
			panic(jsonErr{"json: unsupported type: " + t.String()})
		}
	case *types.Pointer:
		if v.x == nil {
			e.lit("null")
			return
		}
		q := ptrTo(v, "json")
		e.enc(copyVal(*q), u.Elem(), q)
	case *types.Struct:
		e.lit("{")
		first := true
		for _, f := range m.jfields(t) {
			fv, fp, ft, ok := m.jwalk(v, p, t, f.index)
			if !ok {
				continue
			}
			if f.omit && m.jempty(fv, ft) {
				continue
			}
			if f.quoted {
				panic(unsupported("json string option"))
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.str(strV(f.name))
			e.lit(":")
			e.enc(fv, ft, fp)
		}
		e.lit("}")
	case *types.Map:
		kb, ok := u.Key().Underlying().(*types.Basic)
		if !ok || kb.Info()&(types.IsString|types.IsInteger) == 0 {
			panic(jsonErr{"json: unsupported type: " + t.String()})
		}
		if v.x == nil {
			e.lit("null")
			return
		}
		es := v.x.(*Map).live()
		es = append([]*MEnt{}, es...)
		if kb.Info()&types.IsString != 0 {
			for i := 1; i < len(es); i++ {
				for j := i; j > 0 && m.decide(m.strLess(es[j].k, es[j-1].k, false)); j-- {
					es[j], es[j-1] = es[j-1], es[j]
				}
			}
		} else {
			sort.SliceStable(es, func(i, j int) bool { return fmt.Sprint(int64(es[i].k.n)) < fmt.Sprint(int64(es[j].k.n)) })
		}
		e.lit("{")
		for i, x := range es {
			if i > 0 {
				e.lit(",")
			}
			if kb.Info()&types.IsString != 0 {
				e.str(x.k)
			} else {
				e.lit(fmt.Sprintf("\"%d\"", int64(x.k.n)))
			}
			e.lit(":")
			e.enc(copyVal(x.v), u.Elem(), nil)
		}
		e.lit("}")
	case *types.Slice:
		if v.x == nil {
			e.lit("null")
			return
		}
		s := sliceOf(v)
		if eb, ok := u.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			e.str(strV(base64.StdEncoding.EncodeToString([]byte(m.conc(mkStr(s), "base64")))))
			return
		}
		e.lit("[")
		for i := range s {
			if i > 0 {
				e.lit(",")
			}
			e.enc(copyVal(s[i]), u.Elem(), &s[i])
		}
		e.lit("]")
	case *types.Array:
		s := v.x.(Array)
		e.lit("[")
		for i := range s {
			if i > 0 {
				e.lit(",")
			}
			e.enc(copyVal(s[i]), u.Elem(), nil)
		}
		e.lit("]")
	default:
		panic(jsonErr{"json: unsupported type: " + t.String()})
	}
}

func (m *Machine) jempty(v Val, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strLen(v) == 0
		case u.Info()&types.IsFloat != 0:
			return m.f64(v, u) == 0
		case u.Info()&types.IsBoolean != 0:
			return !m.decide(m.term(v, 0))
		}
		w, _ := widthOf(u)
		return m.decide(m.tt.Bin(OpEq, m.term(v, w), m.tt.Const(0, w)))
	case *types.Slice:
		return len(sliceOf(v)) == 0
	case *types.Map:
		return v.x == nil || v.x.(*Map).n == 0
	case *types.Array:
		return u.Len() == 0
	case *types.Pointer, *types.Interface:
		return v.x == nil
	}
	return false
}

// jwalk follows a field index path for encoding; false when a nil embedded pointer is in the way.
func (m *Machine) jwalk(v Val, p *Val, t types.Type, idx []int) (Val, *Val, types.Type, bool) {
	for k, i := range idx {
		if pt, ok := t.Underlying().(*types.Pointer); ok && k > 0 {
			if v.x == nil {
				return Val{}, nil, nil, false
			}
			p = ptrTo(v, "json")
			v, t = *p, pt.Elem()
		}
		s, ok := v.x.(Struct)
		if !ok {
			m.poisonCheck(v)
			panic(unsupported("json of opaque struct " + t.String()))
		}
		t = t.Underlying().(*types.Struct).Field(i).Type()
		v = s[i]
		if p != nil {
			p = &p.x.(Struct)[i]
		}
	}
	return copyVal(v), p, t, true
}

type jmKey struct {
	t    types.Type
	name string
}

// jmethod finds MarshalJSON/UnmarshalJSON/... with the right shape in t's method set.
func (m *Machine) jmethod(t types.Type, name string, enc bool) *ssaFn {
	k := jmKey{t, name}
	if f, ok := m.jmC[k]; ok {
		return f
	}
	f := m.findMethod(t, name)
	if f != nil {
		s := f.Signature
		if enc && (s.Params().Len() != 0 || s.Results().Len() != 2) || !enc && (s.Params().Len() != 1 || s.Results().Len() != 1) {
			f = nil
		}
	}
	m.jmC[k] = f
	return f
}

func (m *Machine) jsonMarshal(v Val, html bool) (out []Val, err Val) {
	e := &jenc{m: m, html: html}
	depth, cur := m.depth, m.cur
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case jsonErr:
				m.depth, m.cur = depth, cur
				out, err = nil, m.errNew(x.msg)
				return
			case jsonWrap:
				m.depth, m.cur = depth, cur
				out, err = nil, m.wrapErr("json: error calling MarshalJSON: ", x.err)
				return
			}
			panic(r)
		}
	}()
	if v.x == nil {
		e.lit("null")
	} else {
		i := asIface(v)
		e.enc(i.v, i.t, nil)
	}
	return e.out, Val{}
}

func (m *Machine) wrapErr(prefix string, err Val) Val {
	msg := m.callIfaceMethod(err, "Error")
	t := m.eng.lookupType("fmt", "wrapError")
	p := Val{x: Struct{strCat(strV(prefix), msg), err}}
	return ifaceV(m.canon(types.NewPointer(t)), Val{x: &p})
}

// ---- decoder ----

type jdec struct {
	m   *Machine
	src []Val
	err Val // first saved error

	useNumber, strict bool
}

func (d *jdec) save(msg string) {
	if d.err.x == nil {
		d.err = d.m.errNew(msg)
	}
}

func kindWord(k byte) string {
	switch k {
	case '{':
		return "object"
	case '[':
		return "array"
	case '"':
		return "string"
	case '#':
		return "number"
	case 'n':
		return "null"
	}
	return "bool"
}

func (d *jdec) raw(n *jnode) Val {
	s := make(Slice, n.hi-n.lo)
	copy(s, d.src[n.lo:n.hi])
	return Val{x: s}
}

func (d *jdec) any(n *jnode) Val {
	m := d.m
	ifT := m.anyT()
	switch n.k {
	case 'n':
		return Val{}
	case 't', 'f':
		return ifaceV(m.canon(types.Typ[types.Bool]), boolV(n.k == 't'))
	case '"':
		return ifaceV(m.canon(types.Typ[types.String]), n.s)
	case '#':
		if d.useNumber {
			return ifaceV(m.canon(m.eng.lookupType("encoding/json", "Number")), n.s)
		}
		f, err := strconv.ParseFloat(m.conc(n.s, "number"), 64)
		if err != nil {
			d.save("json: cannot unmarshal number into Go value of type float64")
			return Val{}
		}
		return ifaceV(m.canon(types.Typ[types.Float64]), f64bits(f))
	case '[':
		s := make(Slice, len(n.kids), len(n.kids))
		for i, k := range n.kids {
			s[i] = d.any(k)
		}
		return ifaceV(m.canon(types.NewSlice(ifT)), Val{x: s})
	}
	mp := m.newMap(types.Typ[types.String])
	for i, k := range n.kids {
		m.mapSet(mp, n.keys[i].s, d.any(k))
	}
	return ifaceV(m.canon(types.NewMap(types.Typ[types.String], ifT)), Val{x: mp})
}

func (m *Machine) anyT() types.Type { return types.Universe.Lookup("any").Type().Underlying() }

func (d *jdec) typeErr(n *jnode, t types.Type) {
	d.save("json: cannot unmarshal " + kindWord(n.k) + " into Go value of type " + t.String())
}

func (d *jdec) dec(n *jnode, p *Val, t types.Type) {
	m := d.m
	// indirect
	for {
		m.poisonCheck(*p)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if n.k == 'n' {
				m.store(p, Val{})
				return
			}
			if p.x == nil {
				z := m.zero(pt.Elem())
				m.store(p, Val{x: &z})
			}
			if f := m.jmethod(m.canon(t), "UnmarshalJSON", false); f != nil {
				d.callUnmarshal(f, *p, n)
				return
			}
			p, t = ptrTo(*p, "json"), pt.Elem()
			continue
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			if p.x != nil {
				i := asIface(*p)
				if ipt, ok := i.t.Underlying().(*types.Pointer); ok && i.v.x != nil {
					_, pp := ipt.Elem().Underlying().(*types.Pointer)
					if n.k != 'n' || pp {
						if f := m.jmethod(i.t, "UnmarshalJSON", false); f != nil {
							d.callUnmarshal(f, i.v, n)
							return
						}
						p, t = ptrTo(i.v, "json"), ipt.Elem()
						continue
					}
				}
			}
			break
		}
		if _, named := types.Unalias(t).(*types.Named); named {
			if f := m.jmethod(m.canon(types.NewPointer(t)), "UnmarshalJSON", false); f != nil {
				d.callUnmarshal(f, Val{x: p}, n)
				return
			}
			if n.k == '"' {
				if f := m.jmethod(m.canon(types.NewPointer(t)), "UnmarshalText", false); f != nil {
					b := strBytes(n.s)
					s := make(Slice, len(b))
					copy(s, b)
					if r := m.call(f, []Val{{x: p}, {x: s}}, nil); r.x != nil && d.err.x == nil {
						d.err = r
					}
					return
				}
			}
		}
		break
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() != 0 && n.k != 'n' {
			d.typeErr(n, t)
			return
		}
		m.store(p, d.any(n))
		return
	}
	switch n.k {
	case 'n':
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			m.store(p, Val{})
		}
	case 't', 'f':
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			m.store(p, boolV(n.k == 't'))
			return
		}
		d.typeErr(n, t)
	case '"':
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				m.store(p, n.s)
				return
			}
		case *types.Slice:
			if eb, ok := u.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				b, err := base64.StdEncoding.DecodeString(m.conc(n.s, "base64"))
				if err != nil {
					d.save(err.Error())
					return
				}
				m.store(p, bytesV(b))
				return
			}
		}
		d.typeErr(n, t)
	case '#':
		if b, ok := t.Underlying().(*types.Basic); ok {
			s := m.conc(n.s, "number")
			bits := 0
			if b.Info()&types.IsNumeric != 0 {
				bits = int(m.sizes.Sizeof(b) * 8)
			}
			switch {
			case b.Info()&types.IsUnsigned != 0:
				v, err := strconv.ParseUint(s, 10, bits)
				if err != nil {
					d.typeErr(n, t)
					return
				}
				m.store(p, Val{n: v})
				return
			case b.Info()&types.IsInteger != 0:
				v, err := strconv.ParseInt(s, 10, bits)
				if err != nil {
					d.typeErr(n, t)
					return
				}
				m.store(p, Val{n: uint64(v)})
				return
			case isJSONNumber(t):
				m.store(p, n.s)
				return
			case b.Info()&types.IsFloat != 0:
				v, err := strconv.ParseFloat(s, bits)
				if err != nil {
					d.typeErr(n, t)
					return
				}
				m.store(p, f64bits(v))
				return
			}
		}
		d.typeErr(n, t)
	case '[':
		switch u := t.Underlying().(type) {
		case *types.Slice:
			old := sliceOf(*p)
			var s Slice
			if len(n.kids) <= len(old) && len(n.kids) > 0 {
				s = old[:len(n.kids)]
			} else {
				s = make(Slice, len(n.kids))
				m.zeroFill(s, u.Elem())
				for i := range old {
					m.store(&s[i], old[i])
				}
			}
			for i, k := range n.kids {
				d.dec(k, &s[i], u.Elem())
			}
			m.store(p, Val{x: s})
			return
		case *types.Array:
			a := p.x.(Array)
			for i := range a {
				if i < len(n.kids) {
					d.dec(n.kids[i], &a[i], u.Elem())
				} else {
					m.store(&a[i], m.zero(u.Elem()))
				}
			}
			return
		}
		d.typeErr(n, t)
	case '{':
		switch u := t.Underlying().(type) {
		case *types.Map:
			kb, ok := u.Key().Underlying().(*types.Basic)
			if !ok || kb.Info()&(types.IsString|types.IsInteger) == 0 {
				d.typeErr(n, t)
				return
			}
			if p.x == nil {
				m.store(p, Val{x: m.newMap(u.Key())})
			}
			mp := p.x.(*Map)
			for i, k := range n.kids {
				z := m.zero(u.Elem())
				d.dec(k, &z, u.Elem())
				key := n.keys[i].s
				if kb.Info()&types.IsString == 0 {
					v, err := strconv.ParseInt(m.conc(key, "key"), 10, 64)
					if err != nil {
						d.typeErr(n, u.Key())
						continue
					}
					key = intV(v)
				}
				m.mapSet(mp, key, z)
			}
			return
		case *types.Struct:
			fs := m.jfields(t)
			for i, k := range n.kids {
				key := n.keys[i].s
				var f *jfield
				for j := range fs {
					if m.decide(m.strEq(key, strV(fs[j].name))) {
						f = &fs[j]
						break
					}
				}
				if f == nil {
					for j := range fs {
						if cs, ok := concStr(key); ok {
							if strings.EqualFold(cs, fs[j].name) {
								f = &fs[j]
								break
							}
						} else if strLen(key) == len(fs[j].name) && m.decide(m.strEq(m.caseMap(key, 'A', 'Z', false), strV(strings.ToLower(fs[j].name)))) {
							f = &fs[j]
							break
						}
					}
				}
				if f == nil {
					if d.strict {
						d.save("json: unknown field")
					}
					continue
				}
				q, ft := p, t
				for _, ix := range f.index {
					if pt, ok := ft.Underlying().(*types.Pointer); ok {
						if q.x == nil {
							z := m.zero(pt.Elem())
							m.store(q, Val{x: &z})
						}
						q, ft = ptrTo(*q, "json"), pt.Elem()
					}
					st, ok := q.x.(Struct)
					if !ok {
						panic(unsupported("json into opaque struct " + ft.String()))
					}
					ft = ft.Underlying().(*types.Struct).Field(ix).Type()
					q = &st[ix]
				}
				d.dec(k, q, ft)
			}
			return
		}
		d.typeErr(n, t)
	}
}

func (d *jdec) callUnmarshal(f *ssaFn, recv Val, n *jnode) {
	r := d.m.call(f, []Val{recv, d.raw(n)}, nil)
	if r.x != nil && d.err.x == nil {
		d.err = r
	}
}

func (m *Machine) jsonUnmarshal(src []Val, target Val) Val {
	n, msg := m.jsonParse(src)
	if n == nil {
		return m.errNew(msg)
	}
	return m.jsonUnmarshalNode(src, n, target, false, false)
}

func (m *Machine) jsonUnmarshalNode(src []Val, n *jnode, target Val, useNumber, strict bool) Val {
	if target.x == nil {
		return m.errNew("json: Unmarshal(nil)")
	}
	i := asIface(target)
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok || i.v.x == nil {
		return m.errNew("json: Unmarshal(non-pointer " + i.t.String() + ")")
	}
	d := &jdec{m: m, src: src, useNumber: useNumber, strict: strict}
	if f := m.jmethod(i.t, "UnmarshalJSON", false); f != nil {
		d.callUnmarshal(f, i.v, n)
		return d.err
	}
	d.dec(n, ptrTo(i.v, "json"), pt.Elem())
	return d.err
}

func jsonIntrinsics(I map[string]intrinsicFn) {
	I["encoding/json.Marshal"] = func(m *Machine, fr *frame, a []Val) Val {
		out, err := m.jsonMarshal(a[0], true)
		if err.x != nil {
			return tuple(Val{}, err)
		}
		return tuple(Val{x: Slice(out)}, Val{})
	}
	I["encoding/json.MarshalIndent"] = func(m *Machine, fr *frame, a []Val) Val {
		out, err := m.jsonMarshal(a[0], true)
		if err.x != nil {
			return tuple(Val{}, err)
		}
		n, msg := m.jsonParse(out)
		if n == nil {
			panic(engineErr("MarshalIndent: " + msg))
		}
		e := &jenc{m: m}
		e.indent(out, n, m.conc(a[1], "prefix"), m.conc(a[2], "indent"), 0)
		return tuple(Val{x: Slice(e.out)}, Val{})
	}
	I["encoding/json.Unmarshal"] = func(m *Machine, fr *frame, a []Val) Val {
		return m.jsonUnmarshal(copyVals(sliceOf(a[0])), a[1])
	}
	I["encoding/json.Valid"] = func(m *Machine, fr *frame, a []Val) Val {
		n, _ := m.jsonParse(sliceOf(a[0]))
		return boolV(n != nil)
	}
	I["encoding/json.Indent"] = func(m *Machine, fr *frame, a []Val) Val {
		src := copyVals(sliceOf(a[1]))
		n, msg := m.jsonParse(src)
		if n == nil {
			return m.errNew(msg)
		}
		e := &jenc{m: m}
		e.indent(src, n, m.conc(a[2], "prefix"), m.conc(a[3], "indent"), 0)
		m.writeBuf(a[0], e.out)
		return Val{}
	}
	I["encoding/json.Compact"] = func(m *Machine, fr *frame, a []Val) Val {
		src := copyVals(sliceOf(a[1]))
		n, msg := m.jsonParse(src)
		if n == nil {
			return m.errNew(msg)
		}
		e := &jenc{m: m}
		e.raw(src, n)
		m.writeBuf(a[0], e.out)
		return Val{}
	}
	// Encoder and Decoder keep their state in their real fields; options are set by their real methods
	I["encoding/json.NewEncoder"] = func(m *Machine, fr *frame, a []Val) Val {
		t := m.eng.lookupType("encoding/json", "Encoder")
		z := m.zero(t)
		m.store(fieldOf(&z, t, "w"), a[0])
		m.store(fieldOf(&z, t, "escapeHTML"), boolV(true))
		return Val{x: &z}
	}
	I["(*encoding/json.Encoder).Encode"] = func(m *Machine, fr *frame, a []Val) Val {
		t := m.eng.lookupType("encoding/json", "Encoder")
		e := ptrTo(a[0], "Encoder")
		out, err := m.jsonMarshal(a[1], m.decide(m.term(*fieldOf(e, t, "escapeHTML"), 0)))
		if err.x != nil {
			return err
		}
		prefix, ind := m.conc(*fieldOf(e, t, "indentPrefix"), "p"), m.conc(*fieldOf(e, t, "indentValue"), "i")
		if prefix != "" || ind != "" {
			n, _ := m.jsonParse(out)
			x := &jenc{m: m}
			x.indent(out, n, prefix, ind, 0)
			out = x.out
		}
		out = append(out, Val{n: '\n'})
		r := m.callIfaceMethod(*fieldOf(e, t, "w"), "Write", Val{x: Slice(out)})
		return r.x.(Tuple)[1]
	}
	I["encoding/json.NewDecoder"] = func(m *Machine, fr *frame, a []Val) Val {
		t := m.eng.lookupType("encoding/json", "Decoder")
		z := m.zero(t)
		m.store(fieldOf(&z, t, "r"), a[0])
		return Val{x: &z}
	}
	I["(*encoding/json.Decoder).Decode"] = func(m *Machine, fr *frame, a []Val) Val {
		t := m.eng.lookupType("encoding/json", "Decoder")
		d := ptrTo(a[0], "Decoder")
		if e := *fieldOf(d, t, "err"); e.x != nil {
			return e
		}
		eof := copyVal(*m.globalAddr(m.prog.ImportedPackage("io").Var("EOF")))
		bad := func(err Val) Val {
			m.store(fieldOf(d, t, "err"), err)
			return err
		}
		r := m.call(m.prog.ImportedPackage("io").Func("ReadAll"), []Val{*fieldOf(d, t, "r")}, nil).x.(Tuple)
		if r[1].x != nil {
			return bad(r[1])
		}
		buf := append(copyVals(sliceOf(*fieldOf(d, t, "buf"))), sliceOf(r[0])...)
		m.store(fieldOf(d, t, "buf"), Val{x: Slice(buf)})
		at := m.concInt(*fieldOf(d, t, "scanp"))
		src := copyVals(buf[at:])
		n, end, msg := m.jsonPrefix(src)
		if n == nil {
			if end == len(src) && onlyBlank(m, src) {
				return bad(eof)
			}
			return bad(m.errNew(msg))
		}
		m.store(fieldOf(d, t, "scanp"), intV(int64(int(at)+end)))
		st := fieldOf(d, t, "d")
		stt := m.eng.lookupType("encoding/json", "decodeState")
		return m.jsonUnmarshalNode(src, n, a[1], m.decide(m.term(*fieldOf(st, stt, "useNumber"), 0)), m.decide(m.term(*fieldOf(st, stt, "disallowUnknownFields"), 0)))
	}
}

// fieldOf is the address of a field of struct t at p.
func fieldOf(p *Val, t types.Type, name string) *Val {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &p.x.(Struct)[i]
		}
	}
	panic(engineErr("no field " + name + " in " + t.String()))
}

func onlyBlank(m *Machine, b []Val) bool {
	p := &jparser{m: m, b: b}
	p.ws()
	return p.pos == len(b)
}

// writeBuf appends to a *bytes.Buffer.
func (m *Machine) writeBuf(buf Val, out []Val) {
	t := m.eng.lookupType("bytes", "Buffer")
	f := m.findMethod(m.canon(types.NewPointer(t)), "Write")
	m.call(f, []Val{buf, {x: Slice(out)}}, nil)
}
