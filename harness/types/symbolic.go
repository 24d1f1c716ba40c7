package types

import (
	gotypes "go/types"

	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// ident is an arbitrary identifier of 1..n characters.
func ident(label string, n int) string {
	s := nd.String(label, 1, n, "aBz_Z0")
	nd.Assume(s[0] != '0')
	return s
}

func exported(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

// Struct T with two fields of symbolic names (identifiers of 1..2 (quick) / 1..3 (thorough) characters) and symbolic tag names (none or 1..2 characters; JSON or oapi) of a named struct with a symbolic name,
// by value, pointer or slice: exactly the exported fields are properties, under their tag name or Go name, and refer to the type by its name.
func C13_symbolic_names() {
	w := standard()
	tn := ident("type", nd.Bound(2, 3))
	nd.Assume(exported(tn) && tn != "S" && tn != "R" && tn != "O" && tn != "T" && tn != "Name")
	w.declare(pkgPath, tn, structOf(f("A", basic("bool"))))
	a, b := ident("field", nd.Bound(2, 3)), ident("field", 2)
	nd.Assume(a != b && a != "_" && b != "_")
	props := obj{}
	add := func(name, tag string, d *desc) field {
		key := name
		x := f(name, d)
		if tag != "" {
			key = tag
			x.tag = "oapi:\"" + tag + "\""
			if nd.Choose("tag kind", 2) == 1 {
				x.tag = "json:\"" + tag + ",omitempty\""
			}
		}
		if exported(name) {
			_, dup := props[key]
			nd.Assume(!dup)
			props[key], _ = w.schema(d, "T/"+name)
		}
		return x
	}
	d := named(pkgPath, tn)
	switch nd.Choose("wrap", 3) {
	case 1:
		d = ptrTo(d)
	case 2:
		d = sliceOf(d)
	}
	fa := add(a, nd.String("tag", 0, 2, "aB.-"), d)
	nd.Assume(fa.tag != "oapi:\"-\"" && fa.tag != "json:\"-,omitempty\"")
	fb := add(b, "", basic("int64"))
	w.declare(pkgPath, "T", structOf(fa, fb))
	w.finish(pkgPath + "#" + tn)
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "type with schema rejected")
	want := obj{"type": "object"}
	if len(props) > 0 {
		want["properties"] = props
	}
	nd.Assert(nd.Equal(got, want), "schema does not list exactly the exported fields with their shapes")
	nd.Cover("ok")
}

// Arrays of any length 0..12 (quick) / 0..120 (thorough) (symbolic), as field or as type, of basic elements, arrays of another symbolic length 0..2, or below a slice: bounded by exactly that length.
func C13_array_lengths() {
	w := standard()
	n := int64(nd.Int("len", 0, nd.Bound(12, 120)))
	var d *desc
	switch nd.Choose("shape", 3) {
	case 0:
		d = arrayOf(n, basic("bool"))
	case 1:
		d = arrayOf(n, arrayOf(int64(nd.Int("inner", 0, 2)), basic("int64")))
	case 2:
		d = sliceOf(arrayOf(n, named(pkgPath, "S")))
	}
	want, _ := w.schema(d, "T/F")
	top := nd.Choose("top", 2) == 1
	if top {
		w.declare(pkgPath, "T", d)
	} else {
		w.declare(pkgPath, "T", structOf(f("F", d)))
		want = obj{"type": "object", "properties": obj{"F": want}}
	}
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "type with schema rejected")
	nd.Assert(nd.Equal(got, want), "an array is not bounded by its length")
	nd.Cover("ok")
}

func digits(label string) (string, float64) {
	s := nd.String(label, 1, nd.Bound(2, 3), "0189")
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return s, float64(n)
}

// One field of 15 kinds with one numeric option of symbolic value (1..2 (quick) / 1..3 (thorough) digits, leading zeros included) or one text option of 1..2 / 1..3 symbolic characters: the schema carries exactly that value.
func C14_symbolic_values() {
	w := standard()
	k := nd.Choose("kind", nkinds)
	d, tag, s := fieldKinds(k)
	var o option
	switch nd.Choose("option", 8) {
	case 0:
		o.name = "minlen"
	case 1:
		o.name = "maxlen"
	case 2:
		o.name = "minitems"
	case 3:
		o.name = "maxitems"
	case 4:
		o.name = "minprops"
	case 5:
		o.name = "maxprops"
	case 6:
		o.name = "pattern"
	case 7:
		o.name = "format"
	}
	if o.name == "pattern" || o.name == "format" {
		o.str = nd.String("text", 1, nd.Bound(2, 3), "az0^$.-+")
		o.text = o.name + ":" + o.str
	} else {
		t, n := digits("value")
		o.text, o.num = o.name+":"+t, n
	}
	required := false
	if _, time := s["x-time"]; time {
		nd.Assume(o.name != "minlen" && o.name != "maxlen" && o.name != "pattern")
		delete(s, "x-time")
	}
	constrain(s, o, &required)
	delete(s, "x-fixed")
	w.declare(pkgPath, "T", structOf(tagged("F", "oapi:\"F"+tag+","+o.text+"\"", d)))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "field with constraints rejected")
	nd.Assert(nd.Equal(got, obj{"type": "object", "properties": obj{"F": s}}), "constraints of the tag are not the constraints of the schema")
	nd.Cover("ok")
}

// Two types of symbolic names (1..2 (quick) / 1..3 (thorough) characters) in packages of symbolic paths, the first with a field of symbolic name of the second type: each resolves under its own name and package to its own content,
// whichever of them is listed, and a third symbolic name resolves only if it is one of them.
func C15_symbolic_names() {
	w := newWorld()
	q := "y.io/" + nd.String("pkg", 1, 2, "pq.-")
	nd.Assume(q != pkgPath)
	w.pkgs[q] = gotypes.NewPackage(q, "q")
	a, b, fn := ident("a", 2), ident("b", 2), ident("field", 1)
	nd.Assume(exported(a) && exported(b) && exported(fn))
	w.declare(q, b, structOf(f("X", basic("int64"))))
	w.finish(q + "#" + b)
	w.declare(pkgPath, a, structOf(f(fn, sliceOf(named(q, b)))))
	w.finish(pkgPath + "#" + a)
	pa, pb := goPtr(pkgPath, a), goPtr(q, b)
	sc := w.scan(pa)
	got, err := resolve(sc, pa)
	nd.Assert(err == nil, "a listed type does not resolve")
	nd.Assert(nd.Equal(got, obj{"type": "object", "properties": obj{fn: obj{"type": "array", "nullable": true, "items": ref(q, b)}}}), "reference to a named type does not name it")
	got, err = resolve(sc, pb)
	nd.Assert(err == nil, "a reference in a schema does not resolve")
	nd.Assert(nd.Equal(got, obj{"type": "object", "properties": obj{"X": basics["int64"].schema}}), "a pointer to a type does not give the schema of that type")
	got, err = resolve(sc, goPtr(pkgPath, a+"/"+fn+"/[]"))
	nd.Assert(err == nil && nd.Equal(got, obj{"type": "object", "properties": obj{"X": basics["int64"].schema}}), "a pointer into a type does not give the schema of that place")
	c := ident("c", 2)
	_, err = resolve(sc, goPtr(q, c))
	nd.Assert((err == nil) == (c == b), "an unknown place resolves, or a known one does not")
	_, err = resolve(sc, goPtr(pkgPath, c))
	nd.Assert((err == nil) == (c == a), "an unknown place resolves, or a known one does not")
	nd.Cover("ok")
}
