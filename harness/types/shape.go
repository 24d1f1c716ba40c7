package types

import (
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// leaf is any type without element: basic, named basic, struct of either package, anonymous struct, time or unsupported.
func leaf(label string, w *world, rich bool) *desc {
	n := 6
	if rich {
		n = 9 + len(basicNames) + nbad
	}
	k := nd.Choose(label, n)
	switch k {
	case 0:
		return named(pkgPath, "S")
	case 1:
		return named(pkgPath, "R")
	case 2:
		return named(otherPath, "O")
	case 3:
		return named(pkgPath, "Name")
	case 4:
		return named("time", "Time")
	case 5:
		return structOf(f("X", basic("bool")))
	}
	k -= 6
	if k < len(basicNames) {
		return basic(basicNames[k])
	}
	if k >= len(basicNames)+nbad {
		// structs without properties
		return []*desc{named(pkgPath, "None"), named(pkgPath, "Hidden"), structOf()}[k-len(basicNames)-nbad]
	}
	return badType(k - len(basicNames))
}

func wrap(label string, d *desc) *desc {
	switch nd.Choose(label, 6) {
	case 1:
		return ptrTo(d)
	case 2:
		return sliceOf(d)
	case 3:
		return mapOf(d)
	case 4:
		return arrayOf(3, d)
	case 5:
		return arrayOf(0, d)
	}
	return d
}

// standard types: S and R have the same structure, O lives in another package.
func standard() *world {
	w := newWorld()
	w.declare(pkgPath, "S", structOf(f("A", basic("string"))))
	w.declare(pkgPath, "R", structOf(f("A", basic("string"))))
	w.declare(otherPath, "O", structOf(f("B", basic("int"))))
	w.declare(pkgPath, "Name", basic("string"))
	w.declare(pkgPath, "None", structOf())
	w.declare(pkgPath, "Hidden", structOf(f("h", basic("int"))))
	return w
}

func (w *world) ready(top string) {
	for _, n := range []string{"None", "Hidden"} {
		if _, ok := w.under[pkgPath+"#"+n]; ok {
			w.finish(pkgPath + "#" + n)
		}
	}
	w.finish(pkgPath+"#S", pkgPath+"#R", otherPath+"#O", pkgPath+"#Name", pkgPath+"#"+top)
}

// A struct T with one exported field of any type: 14 basic types, named types of the same and another package (two of them with equal structure, two without exported fields), time,
// an anonymous struct with or without fields or one of six types without schema, wrapped in 0..2 (quick) / 0..3 (thorough) layers of pointer, slice, map or array. The schema has
// exactly this property, of exactly the documented shape, or the type is an error.
func C13_field_of_any_type() {
	w := standard()
	d := leaf("leaf", w, true)
	for i := 0; i < nd.Bound(2, 3); i++ {
		d = wrap("wrap", d)
	}
	w.declare(pkgPath, "T", structOf(f("F", d), f("hidden", basic("int"))))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	want, ok := w.schema(d, "T/F")
	nd.Assert((err == nil) == ok, "type without schema accepted, or type with schema rejected")
	if err != nil {
		nd.Cover("unsupported")
		return
	}
	nd.Assert(nd.Equal(got, obj{"type": "object", "properties": obj{"F": want}}), "schema does not have the shape of the Go type")
	nd.Cover("ok")
}

// Two exported fields and an unexported one, each exported field a named, foreign, anonymous, time or basic-named type in 0..1 layers of pointer, slice, map or array, with a plain name,
// an oapi name, a JSON name or dropped by "-": exactly the kept fields appear, each under its name and with its own shape, types of equal structure stay apart.
func C13_fields_and_names() {
	w := standard()
	props := obj{}
	var ff []field
	for _, n := range []string{"F", "G"} {
		d := wrap("wrap", leaf("leaf", w, false))
		s, ok := w.schema(d, "T/"+n)
		nd.Assert(ok, "harness")
		if n == "F" {
			switch nd.Choose("tag", 4) {
			case 0:
				ff, props["F"] = append(ff, f(n, d)), s
			case 1:
				ff, props["f.x"] = append(ff, tagged(n, `oapi:"f.x" json:"other"`, d)), s
			case 2:
				ff, props["f"] = append(ff, tagged(n, `json:"f,omitempty"`, d)), s
			case 3:
				ff = append(ff, tagged(n, `json:"-"`, d))
			}
		} else {
			ff, props[n] = append(ff, f(n, d)), s
		}
		if n == "F" {
			ff = append(ff, tagged("hidden", `oapi:"hidden,required"`, d))
		}
	}
	w.declare(pkgPath, "T", structOf(ff...))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "type with schema rejected")
	want := obj{"type": "object"}
	if len(props) > 0 {
		want["properties"] = props
	}
	nd.Assert(nd.Equal(got, want), "schema does not list exactly the exported fields with their shapes")
	nd.Cover("ok")
}

// Named types that are no structs (basic, slice, map, array, pointer to any leaf, or another named struct), resolved directly.
func C13_top_level_types() {
	w := standard()
	d := wrap("wrap", wrap("wrap", leaf("leaf", w, true)))
	w.declare(pkgPath, "T", d)
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	var want obj
	ok := true
	switch {
	case d.kind == "struct" || d.kind == "named" && w.under[d.pkg+"#"+d.name].kind == "struct":
		// the content of the struct itself
		of := d.of
		if d.kind == "named" {
			of = w.under[d.pkg+"#"+d.name].of
		}
		props := obj{}
		for _, x := range of {
			if x.name[0] >= 'A' && x.name[0] <= 'Z' {
				props[x.name], _ = w.schema(x.t, "T/"+x.name)
			}
		}
		want = obj{"type": "object"}
		if len(props) > 0 {
			want["properties"] = props
		}
	default:
		want, ok = w.schema(d, "T")
	}
	nd.Assert((err == nil) == ok, "type without schema accepted, or type with schema rejected")
	if err != nil {
		nd.Cover("unsupported")
		return
	}
	nd.Assert(nd.Equal(got, want), "schema does not have the shape of the Go type")
	nd.Cover("ok")
}

// Structs with embedded structs (of exported or unexported name, by value or pointer, one or two levels, from another package, inlined by tag or kept by tag; some without fields): their exported fields become properties of the
// outer struct, and a field of an outer struct hides an embedded one of the same name, stated by the field or by its tag, wherever it is declared.
func C13_embedded_structs() {
	w := standard()
	inner := func(name, own string) field { return f(name, basic(own)) }
	// E1{A string, B int, E2}  E2{B bool, C uint8}
	w.declare(pkgPath, "E2", structOf(inner("B", "bool"), inner("C", "uint8"), inner("d", "int")))
	e1 := []field{inner("A", "string"), inner("B", "int64")}
	if nd.Choose("renamed", 2) == 1 {
		e1[0] = tagged("Q", `json:"A"`, basic("string"))
	}
	lvl2 := nd.Choose("second level", 3)
	switch lvl2 {
	case 1:
		e1 = append(e1, embed("E2", named(pkgPath, "E2")))
	case 2:
		e1 = append([]field{embed("E2", ptrTo(named(pkgPath, "E2")))}, e1...)
	}
	e1 = append(e1, f("N", named(otherPath, "O")))
	var ff []field
	props := obj{}
	add := func(n, b string) { props[n] = nd.Copy(basics[b].schema) }
	first := nd.Choose("position", 2) == 0
	own := nd.Choose("own", 4)
	switch own {
	case 1:
		ff = append(ff, f("A", basic("float32")))
	case 2:
		ff = append(ff, f("C", basic("float32")))
	case 3:
		ff = append(ff, tagged("Z", `json:"B"`, basic("float32")))
	}
	inlined := true
	var e field
	e1name := "E1"
	switch nd.Choose("embed", 7) {
	case 0:
		e = embed("E1", named(pkgPath, "E1"))
	case 1:
		e = embed("E1", ptrTo(named(pkgPath, "E1")))
	case 2:
		e = tagged("X", `oapi:",inline"`, named(pkgPath, "E1"))
	case 3:
		e = tagged("X", `json:"x"`, named(pkgPath, "E1"))
		inlined = false
	case 4:
		e = embed("E1", named(pkgPath, "E1"))
		e.tag = `oapi:",inline:false"`
		inlined = false
	case 5:
		e1name = "base" // unexported
		e = embed("base", named(pkgPath, "base"))
	case 6:
		e1name = "base"
		e = embed("base", ptrTo(named(pkgPath, "base")))
	}
	if first {
		ff = append([]field{e}, ff...)
	} else {
		ff = append(ff, e)
	}
	if inlined {
		if lvl2 > 0 {
			add("C", "uint8")
			add("B", "bool")
		}
		add("A", "string")
		add("B", "int64")
		props["N"] = ref(otherPath, "O")
	} else {
		n := "x"
		if e.embedded {
			n = "E1"
		}
		props[n] = ref(pkgPath, "E1")
	}
	switch own {
	case 1:
		add("A", "float32")
	case 2:
		add("C", "float32")
	case 3:
		add("B", "float32")
	}
	w.declare(pkgPath, e1name, structOf(e1...))
	if nd.Choose("unexported basic", 2) == 1 {
		w.declare(pkgPath, "word", basic("string"))
		ff = append(ff, embed("word", named(pkgPath, "word")))
		w.finish(pkgPath + "#word")
	}
	if own == 0 && nd.Choose("empty", 2) == 1 {
		// structs without fields are embedded as well
		w.declare(pkgPath, "Empty", structOf())
		w.declare(pkgPath, "none", structOf())
		ff = append(ff, embed("Empty", named(pkgPath, "Empty")), embed("none", ptrTo(named(pkgPath, "none"))))
		w.finish(pkgPath+"#Empty", pkgPath+"#none")
	}
	w.declare(pkgPath, "T", structOf(ff...))
	w.finish(pkgPath+"#E2", pkgPath+"#"+e1name)
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "type with schema rejected")
	nd.Assert(nd.Equal(got, obj{"type": "object", "properties": props}), "embedded fields are not the fields the struct has")
	nd.Cover("ok")
}

// Recursive types: structs referring to themselves or to each other through pointers, slices, maps and embedding, and recursive slices, maps and
// pointers. Always finite, with the schema referring back to the type by its name.
func C13_recursive_types() {
	w := standard()
	T := named(pkgPath, "T")
	U := named(pkgPath, "U")
	var want obj
	rT := ref(pkgPath, "T")
	rU := ref(pkgPath, "U")
	null := func(s obj) obj { return obj{"oneOf": []interface{}{s, obj{"type": "object", "nullable": true}}} }
	arr := func(s obj) obj { return obj{"type": "array", "items": s, "nullable": true} }
	dict := func(s obj) obj { return obj{"type": "object", "additionalProperties": s, "nullable": true} }
	object := func(p obj) obj { return obj{"type": "object", "properties": p} }
	ud := structOf(f("Back", ptrTo(T)), f("N", basic("int64")))
	var td *desc
	switch nd.Choose("shape", 9) {
	case 0:
		td, want = structOf(f("Next", ptrTo(T))), object(obj{"Next": null(rT)})
	case 1:
		td, want = structOf(f("Kids", sliceOf(T)), f("M", mapOf(ptrTo(T)))), object(obj{"Kids": arr(rT), "M": dict(null(rT))})
	case 2:
		td, want = structOf(f("U", U)), object(obj{"U": rU})
	case 3:
		td, want = structOf(f("U", sliceOf(ptrTo(U)))), object(obj{"U": arr(null(rU))})
	case 4:
		td, want = sliceOf(T), arr(rT)
	case 5:
		td, want = mapOf(T), dict(rT)
	case 6:
		td, want = structOf(embed("T", ptrTo(T)), f("A", basic("string"))), object(obj{"A": obj{"type": "string"}})
	case 7:
		td, want = structOf(embed("U", ptrTo(U)), f("A", basic("string"))), object(obj{"A": obj{"type": "string"}, "Back": null(rT), "N": obj{"type": "integer", "format": "int64"}})
	case 8:
		td, want = sliceOf(U), arr(arr(rT))
		ud = sliceOf(T)
	}
	w.declare(pkgPath, "T", td)
	w.declare(pkgPath, "U", ud)
	w.finish(pkgPath + "#U")
	w.ready("T")
	p := goPtr(pkgPath, "T")
	sc := w.scan(p)
	got, err := resolve(sc, p)
	nd.Assert(err == nil, "recursive type rejected")
	nd.Assert(nd.Equal(got, want), "schema of a recursive type does not refer back to it by name")
	nd.Cover("ok")
}

// Types of equal structure: two named types, an anonymous struct in each of two fields of T and in a field of another type U, and one inside another; fields by value, pointer, slice or map; T, U and the named types listed or not, in both directions of
// map iteration: every field refers to its own type or place, which resolves to the content of exactly that place.
func C13_equal_structures() {
	nd.MapOrder(1)
	w := standard()
	same := func() *desc { return structOf(f("X", basic("bool")), f("In", structOf(f("K", basic("string"))))) }
	w.declare(pkgPath, "A", same())
	w.declare(otherPath, "B", same())
	pick := func(label string) (d *desc, c string) {
		switch nd.Choose(label, 4) {
		case 0:
			return same(), ""
		case 1:
			return named(pkgPath, "A"), ""
		case 2:
			return named(otherPath, "B"), ""
		default:
			return structOf(f("K", basic("string"))), "K"
		}
	}
	fd, fk := pick("F")
	gd, gk := pick("G")
	fw, gw := wrap("wrap", fd), gd
	w.declare(pkgPath, "T", structOf(f("F", fw), f("G", gw)))
	w.declare(pkgPath, "U", structOf(f("H", same())))
	w.finish(pkgPath+"#A", otherPath+"#B", pkgPath+"#U")
	w.ready("T")
	ptrs := []pointer.Pointer{goPtr(pkgPath, "T"), goPtr(pkgPath, "U")}
	if nd.Choose("listed", 2) == 1 {
		ptrs = append(ptrs, goPtr(pkgPath, "A"), goPtr(otherPath, "B"))
	}
	sc := w.scan(ptrs...)
	got, err := resolve(sc, ptrs[0])
	nd.Assert(err == nil, "type with schema rejected")
	sf, _ := w.schema(fw, "T/F")
	sg, _ := w.schema(gw, "T/G")
	nd.Assert(nd.Equal(got, obj{"type": "object", "properties": obj{"F": sf, "G": sg}}), "a type of equal structure is taken for another one")
	content := func(s obj, k string) {
		m := map[string]bool{}
		refs(s, m)
		for r := range m {
			p, err := pointer.Parse(r)
			nd.Assert(err == nil, "pointer")
			c, err := resolve(sc, p)
			nd.Assert(err == nil, "a reference in a schema does not resolve")
			want := obj{"type": "object", "properties": obj{"X": obj{"type": "boolean"}, "In": obj{"$ref": r + "/In"}}}
			if k != "" {
				want = obj{"type": "object", "properties": obj{"K": obj{"type": "string"}}}
			}
			nd.Assert(nd.Equal(c, want), "a place of equal structure is taken for another one")
		}
	}
	content(sf, fk)
	content(sg, gk)
	u, err := resolve(sc, ptrs[1])
	nd.Assert(err == nil && nd.Equal(u, obj{"type": "object", "properties": obj{"H": ref(pkgPath, "U/H")}}), "a type of equal structure is taken for another one")
	content(u["properties"].(obj)["H"].(obj), "")
	nd.Cover("ok")
}

func num(i int) string { return string([]byte{byte('0' + i/10), byte('0' + i%10)}) }

var depths = []int{1, 3, 5, 9, 14, 24, 40}

// Sizes beyond the ones above: chains of 1, 3, 5, 9 or 14 (quick) / up to 40 (thorough) embedded structs (by value or pointer, each with a field of its own and one of a name that the outer ones hide, before or behind the embedded one), that many fields times three, and a struct inlined by the tag of
// a field of named pointer type: every field is there once, with the shape of the outermost one of its name.
func C13_sizes() {
	n := depths[nd.Choose("n", nd.Bound(5, 7))]
	w := standard()
	props := obj{}
	var ff []field
	switch nd.Choose("what", 3) {
	case 0:
		byPtr, behind := nd.Choose("pointer", 2) == 1, nd.Choose("behind", 2) == 1
		for i := n; i > 0; i-- {
			own := basicNames[i%len(basicNames)]
			fi := []field{f("F"+num(i), basic(own)), f("A", basic(own))}
			props["F"+num(i)] = nd.Copy(basics[own].schema)
			if i == 1 {
				props["A"] = nd.Copy(basics[own].schema)
			}
			if i < n {
				e := embed("E"+num(i+1), named(pkgPath, "E"+num(i+1)))
				if byPtr {
					e.t = ptrTo(e.t)
				}
				if behind {
					fi = append(fi, e)
				} else {
					fi = append([]field{e}, fi...)
				}
			}
			w.declare(pkgPath, "E"+num(i), structOf(fi...))
		}
		for i := 1; i <= n; i++ {
			w.finish(pkgPath + "#E" + num(i))
		}
		ff = []field{embed("E01", named(pkgPath, "E01"))}
		if nd.Choose("hidden by T", 2) == 1 {
			ff = append(ff, f("A", named(pkgPath, "S")))
			props["A"] = ref(pkgPath, "S")
		}
	case 1:
		for i := 0; i < 3*n; i++ {
			t := basicNames[i%len(basicNames)]
			name := "F" + num(i%100) + num(i/100)
			ff = append(ff, f(name, basic(t)))
			props[name] = nd.Copy(basics[t].schema)
		}
	case 2:
		w.declare(pkgPath, "E", structOf(f("B", basic("bool")), f("A", basic("int"))))
		w.declare(pkgPath, "P", ptrTo(named(pkgPath, "E")))
		w.finish(pkgPath+"#E", pkgPath+"#P")
		ff = []field{tagged("X", nd.OneOf("tag", `oapi:",inline"`, `json:",inline"`, `oapi:"x,inline:true"`), named(pkgPath, "P")), f("A", basic("string"))}
		props = obj{"A": obj{"type": "string"}, "B": obj{"type": "boolean"}}
	}
	w.declare(pkgPath, "T", structOf(ff...))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "type with schema rejected")
	nd.Assert(nd.Equal(got, obj{"type": "object", "properties": props}), "schema does not list exactly the exported fields with their shapes")
	nd.Cover("ok")
}

// A field below 1, 3, 5, 9 or 14 (quick) / up to 40 (thorough) layers, either of pointers, slices, maps and arrays in turn (beginning with any of them) around any leaf, or of anonymous structs in fields, one in another: the schema of the type has that many layers, and every
// place below it resolves to the schema of that place.
func C15_deep_places() {
	n := depths[nd.Choose("n", nd.Bound(5, 7))]
	w := standard()
	d := leaf("leaf", w, false)
	frag := "T/F"
	type place struct {
		frag string
		d    *desc
	}
	var places []place
	first := nd.Choose("first", 5)
	for i := n - 1; i >= 0; i-- {
		if first == 4 {
			d = structOf(f("F", d))
			continue
		}
		switch (first + i) % 4 {
		case 0:
			d = ptrTo(d)
		case 1:
			d = sliceOf(d)
		case 2:
			d = mapOf(d)
		case 3:
			d = arrayOf(3, d)
		}
	}
	w.declare(pkgPath, "T", structOf(f("F", d)))
	w.ready("T")
	for x := d; ; {
		places = append(places, place{frag, x})
		switch {
		case x.kind == "ptr":
			frag += "/*"
			x = x.elem
		case x.elem != nil:
			frag += "/[]"
			x = x.elem
		case x.kind == "struct" && first == 4 && len(places) <= n:
			frag += "/F"
			x = x.of[0].t
		default:
			x = nil
		}
		if x == nil {
			break
		}
	}
	p := goPtr(pkgPath, "T")
	sc := w.scan(p)
	want, _ := w.schema(d, "T/F")
	got, err := resolve(sc, p)
	nd.Assert(err == nil && nd.Equal(got, obj{"type": "object", "properties": obj{"F": want}}), "a deep type does not have the schema of its layers")
	for _, x := range places {
		if x.d.kind == "struct" {
			props := obj{}
			for _, y := range x.d.of {
				props[y.name], _ = w.schema(y.t, x.frag+"/"+y.name)
			}
			got, err := resolve(sc, goPtr(pkgPath, x.frag))
			nd.Assert(err == nil && nd.Equal(got, obj{"type": "object", "properties": props}), "a pointer into a type does not give the schema of that place")
			continue
		}
		if x.d.kind == "named" && x.d.pkg != "time" && w.under[x.d.pkg+"#"+x.d.name].kind == "struct" {
			_, err := resolve(sc, goPtr(pkgPath, x.frag))
			nd.Assert(err == nil, "a pointer into a type does not resolve")
			continue
		}
		want, _ := w.schema(x.d, x.frag)
		got, err := resolve(sc, goPtr(pkgPath, x.frag))
		nd.Assert(err == nil && nd.Equal(got, want), "a pointer into a type does not give the schema of that place")
	}
	nd.Cover("ok")
}
