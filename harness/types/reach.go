package types

import (
	"github.com/buypal/oapi-go/internal/oapi/scan/types"
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"golang.org/x/tools/go/packages"
)

func refs(v interface{}, out map[string]bool) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if s, ok := e.(string); ok && k == "$ref" {
				out[s] = true
				continue
			}
			refs(e, out)
		}
	case []interface{}:
		for _, e := range x {
			refs(e, out)
		}
	}
}

// Struct T with two fields of any leaf in 0..1 (quick) / 0..2 (thorough) layers, S and O referring back to T, or one such field in an embedded struct of unexported name: every reference in the schema of T, and in the schemas these lead to, resolves.
func C15_every_reference_resolves() {
	w := newWorld()
	T := named(pkgPath, "T")
	w.declare(pkgPath, "S", structOf(f("A", basic("string")), f("Up", ptrTo(T)), f("O", named(otherPath, "O"))))
	w.declare(pkgPath, "R", structOf(f("Deep", structOf(f("Deeper", sliceOf(structOf(f("T", sliceOf(T)))))))))
	w.declare(otherPath, "O", structOf(f("B", mapOf(named(otherPath, "O"))), f("Hidden", structOf(f("X", basic("bool"))))))
	w.declare(pkgPath, "Name", basic("string"))
	var ff []field
	embedded := nd.Choose("embedded", 3)
	for _, n := range []string{"F", "G"} {
		if embedded > 0 && n == "F" {
			ff = append(ff, f(n, named(otherPath, "O")))
			continue
		}
		d := leaf("leaf", w, false)
		for i := 0; i < nd.Bound(1, 2); i++ {
			d = wrap("wrap", d)
		}
		ff = append(ff, f(n, d))
	}
	switch embedded {
	case 1:
		w.declare(pkgPath, "base", structOf(ff[1]))
		ff[1] = embed("base", named(pkgPath, "base"))
		w.finish(pkgPath + "#base")
	case 2:
		w.declare(pkgPath, "base", structOf(ff...))
		ff = []field{embed("base", ptrTo(named(pkgPath, "base")))}
		w.finish(pkgPath + "#base")
	}
	w.declare(pkgPath, "T", structOf(ff...))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	sc := w.scan(p)
	todo := []string{p.String()}
	done := map[string]bool{}
	for len(todo) > 0 {
		u := todo[0]
		todo = todo[1:]
		if done[u] {
			continue
		}
		done[u] = true
		q, err := pointer.Parse(u)
		nd.Assert(err == nil, "a schema refers to something that is no pointer")
		s, err := resolve(sc, q)
		nd.Assert(err == nil, "a reference in a schema does not resolve")
		m := map[string]bool{}
		refs(s, m)
		for k := range m {
			todo = append(todo, k)
		}
	}
	nd.Cover("ok")
}

// Pointers to places inside T (field, element, target of a pointer, nested) resolve to the schema of that place; names, fields, elements and packages that do not exist, and unexported
// fields, are errors.
func C15_places_and_unknowns() {
	w := standard()
	w.declare(pkgPath, "T", structOf(
		f("F", sliceOf(named(pkgPath, "S"))), f("P", ptrTo(basic("int"))), f("M", mapOf(arrayOf(2, basic("bool")))), f("hidden", basic("string")),
		f("Anon", structOf(f("X", basic("uint64")))), f("Ref", named(otherPath, "O"))))
	w.ready("T")
	sc := w.scan(goPtr(pkgPath, "T"))
	cases := []struct {
		pkg, frag string
		want      obj
	}{
		{pkgPath, "T/F/[]", obj{"type": "object", "properties": obj{"A": obj{"type": "string"}}}},
		{pkgPath, "T/F", obj{"type": "array", "nullable": true, "items": ref(pkgPath, "S")}},
		{pkgPath, "S", obj{"type": "object", "properties": obj{"A": obj{"type": "string"}}}},
		{pkgPath, "S/A", obj{"type": "string"}},
		{pkgPath, "T/P", obj{"type": "integer", "format": "int32", "nullable": true}},
		{pkgPath, "T/P/*", obj{"type": "integer", "format": "int32"}},
		{pkgPath, "T/M/[]", obj{"type": "array", "maxItems": 2.0, "items": obj{"type": "boolean"}}},
		{pkgPath, "T/M/[]/[]", obj{"type": "boolean"}},
		{pkgPath, "T/Anon", obj{"type": "object", "properties": obj{"X": basics["uint64"].schema}}},
		{pkgPath, "T/Anon/X", basics["uint64"].schema},
		{otherPath, "O", obj{"type": "object", "properties": obj{"B": basics["int"].schema}}},
		{otherPath, "O/B", basics["int"].schema},
		{pkgPath, "T/Ref/B", basics["int"].schema},
		{pkgPath, "T/hidden", nil}, {pkgPath, "T/Nope", nil}, {pkgPath, "Nope", nil}, {pkgPath, "T/F/*", nil}, {pkgPath, "T/P/[]", nil}, {pkgPath, "T/F/[]/Z", nil},
		{pkgPath, "O", nil}, {"z.io/none", "T", nil}, {otherPath, "T", nil}, {pkgPath, "t", nil}, {pkgPath, "T/f", nil}, {pkgPath, "T/F/0", nil}, {pkgPath, "", nil},
	}
	c := cases[nd.Choose("case", len(cases))]
	got, err := resolve(sc, goPtr(c.pkg, c.frag))
	nd.Assert((err == nil) == (c.want != nil), "an unknown place resolves, or a known one does not")
	if err != nil {
		nd.Cover("error")
		return
	}
	nd.Assert(nd.Equal(got, c.want), "a pointer into a type does not give the schema of that place")
	nd.Cover("ok")
}

// Any pointer text with 1..2 (quick) / 1..4 (thorough) characters as fragment: resolving it never panics and succeeds only for the type T{A} and its field.
func C15_any_fragment_is_safe() {
	w := standard()
	w.declare(pkgPath, "T", structOf(f("A", basic("string"))))
	w.ready("T")
	frag := nd.String("frag", 0, nd.Bound(3, 5), "TA/[]*.")
	p, err := pointer.Parse("go://" + pkgPath + "#/" + frag)
	if err != nil {
		return
	}
	sc := w.scan(goPtr(pkgPath, "T"), p)
	got, err := resolve(sc, p)
	if err != nil {
		nd.Assert(frag != "T" && frag != "T/A", "a known type does not resolve")
		nd.Cover("error")
		return
	}
	nd.Assert(frag == "T" || frag == "T/A", "an unknown place resolves")
	_ = got
	nd.Cover("ok")
}

// Pointers listed in any subset and packages visited in either order, together with pointers of other schemes, other packages and unknown names: the schema of every listed
// type is the same, for both directions of map iteration.
func C15_order_does_not_matter() {
	w := standard()
	w.declare(pkgPath, "T", structOf(f("F", named(pkgPath, "R")), f("G", sliceOf(named(pkgPath, "S"))), f("H", structOf(f("A", basic("string")))), f("O", named(otherPath, "O"))))
	w.ready("T")
	all := []pointer.Pointer{goPtr(pkgPath, "T"), goPtr(pkgPath, "S"), goPtr(pkgPath, "R"), goPtr(otherPath, "O"), goPtr(pkgPath, "Nope"), goPtr("z.io/none", "T")}
	if o, err := pointer.Parse("https://x.io/p#/T"); err == nil {
		all = append(all, o)
	}
	if o, err := pointer.Parse("#/components/schemas/T"); err == nil {
		all = append(all, o)
	}
	pp := pointer.Pointers{}
	for i, p := range all {
		if i == 0 || nd.Choose("listed", 2) == 1 {
			pp[p.String()] = p
		}
	}
	sc := types.NewScanner(pp)
	pkgs := []string{pkgPath, otherPath}
	if nd.Choose("order", 2) == 1 {
		pkgs = []string{otherPath, pkgPath}
	}
	for _, p := range pkgs {
		err := sc.Scan(&packages.Package{PkgPath: p, Types: w.pkgs[p]})
		nd.Assert(err == nil, "scanning types fails")
	}
	got, err := resolve(sc, all[0])
	nd.Assert(err == nil, "a listed type does not resolve")
	props, _ := got["properties"].(obj)
	nd.Assert(len(props) == 4, "a field is missing")
	nd.Assert(nd.Equal(props["F"], ref(pkgPath, "R")), "reference to a named type does not name it")
	nd.Assert(nd.Equal(props["G"], obj{"type": "array", "nullable": true, "items": ref(pkgPath, "S")}), "reference to a named type does not name it")
	nd.Assert(nd.Equal(props["O"], ref(otherPath, "O")), "reference to a named type does not name it")
	h, _ := props["H"].(obj)
	hp, err := pointer.Parse(h["$ref"].(string))
	nd.Assert(err == nil, "reference of an anonymous struct")
	hs, err := resolve(sc, hp)
	nd.Assert(err == nil && nd.Equal(hs, obj{"type": "object", "properties": obj{"A": obj{"type": "string"}}}), "reference of an anonymous struct leads elsewhere")
	nd.Cover("ok")
}

// Two to four types declared as one another (type U T), in two packages, with anonymous structs, pointers and slices of them inside, all subsets of them listed, packages visited in both orders, listed types in any: the schema of each type is the same whatever was visited first, and what it refers to has the
// schema of that place.
func C15_types_of_one_declaration() {
	nd.MapOrder(0)
	w := standard()
	inner := structOf(f("A", basic("string")))
	w.declare(pkgPath, "T", structOf(f("F", inner), f("G", ptrTo(structOf(f("B", basic("bool"))))), f("H", sliceOf(structOf(f("C", sliceOf(structOf(f("D", basic("int"))))))))))
	w.ready("T")
	names := []string{pkgPath + "#A", pkgPath + "#U", otherPath + "#T", otherPath + "#V"}
	pp := pointer.Pointers{}
	p := goPtr(pkgPath, "T")
	pp[p.String()] = p
	for _, n := range names {
		if nd.Choose("declared", 2) == 0 {
			continue
		}
		i := len(n) - 1
		w.declare(n[:i-1], n[i:], structOf())
		w.named[n].SetUnderlying(w.named[pkgPath+"#T"].Underlying())
		if nd.Choose("listed", 2) == 1 {
			q := goPtr(n[:i-1], n[i:])
			pp[q.String()] = q
		}
	}
	scan := func(pkgs ...string) *types.Scanner {
		sc := types.NewScanner(pp)
		nd.MapOrder(3)
		defer nd.MapOrder(0)
		for _, p := range pkgs {
			err := sc.Scan(&packages.Package{PkgPath: p, Types: w.pkgs[p]})
			nd.Assert(err == nil, "scanning types fails")
		}
		return sc
	}
	one, two := scan(pkgPath, otherPath), scan(otherPath, pkgPath)
	for _, q := range pp {
		a, aerr := resolve(one, q)
		b, berr := resolve(two, q)
		nd.Assert(aerr == nil && berr == nil, "a listed type does not resolve")
		nd.Assert(nd.Equal(a, b), "the order of packages matters")
		m := map[string]bool{}
		refs(a, m)
		nd.Assert(len(m) == 3, "a field is missing")
		for r := range m {
			rp, err := pointer.Parse(r)
			nd.Assert(err == nil, "a schema refers to something that is no pointer")
			a, aerr = resolve(one, rp)
			b, berr = resolve(two, rp)
			nd.Assert(aerr == nil && berr == nil && nd.Equal(a, b), "a reference in a schema does not resolve")
			props, _ := a["properties"].(obj)
			nd.Assert(len(props) == 1, "a reference leads elsewhere")
		}
	}
	nd.Cover("ok")
}

// A field of any leaf (basic types, named types of both packages, anonymous struct, time, types without schema) in 0..2 (quick) / 0..3 (thorough) layers of pointer, slice, map or array: the pointer to the field, and to every element and pointer
// target below it, gives the schema that place has: the content of the type for structs, the same schema a field of that type has for everything else, an error for types without schema.
func C15_any_place() {
	w := standard()
	d := leaf("leaf", w, true)
	steps := ""
	for i := 0; i < nd.Bound(2, 3); i++ {
		e := wrap("wrap", d)
		if e != d {
			if e.kind == "ptr" {
				steps = "/*" + steps
			} else {
				steps = "/[]" + steps
			}
		}
		d = e
	}
	w.declare(pkgPath, "T", structOf(f("F", d), f("G", d)))
	w.ready("T")
	name := nd.OneOf("field", "F", "G")
	frag := "T/" + name
	for len(steps) > 0 && nd.Choose("down", 2) == 1 {
		n := 2
		if steps[1] == '[' {
			n = 3
		}
		frag += steps[:n]
		steps = steps[n:]
		d = d.elem
	}
	want, ok := w.schema(d, frag)
	sc := w.scan(goPtr(pkgPath, "T"))
	got, err := resolve(sc, goPtr(pkgPath, frag))
	if !ok {
		nd.Assert(err != nil, "a place without schema is no error")
		nd.Cover("error")
		return
	}
	if d.kind == "struct" {
		want = obj{"type": "object"}
		if len(d.of) > 0 {
			want["properties"] = obj{"X": obj{"type": "boolean"}}
		}
	} else if r, isRef := want["$ref"].(string); isRef {
		p, perr := pointer.Parse(r)
		nd.Assert(perr == nil, "pointer")
		want, perr = resolve(sc, p)
		nd.Assert(perr == nil, "a type that is referred to does not resolve")
	}
	nd.Assert(err == nil, "a place with a schema is an error")
	nd.Assert(nd.Equal(got, want), "a pointer into a type does not give the schema of that place")
	nd.Cover("ok")
}

// 3, 8 or 14 (quick) / up to 18 (thorough) named types, each with two or three fields (values, pointers, slices or maps) of the next one, or four types each with fields of all of them: collecting the types ends although the ways from one
// to another cannot be counted, each type refers to the others by name, and a pointer that leads through all of them gives the schema of its last place.
func C15_tangled_types() {
	w := standard()
	name := func(i int) string { return "N" + num(i) }
	mk := []func(*desc) *desc{func(d *desc) *desc { return d }, ptrTo, sliceOf, mapOf, func(d *desc) *desc { return mapOf(sliceOf(d)) }}
	step := []string{"", "/*", "/[]", "/[]", "/[]/[]"}
	var n int
	of := map[int][]field{}
	frag := ""
	if nd.Choose("what", 2) == 0 {
		n = []int{3, 8, 14, 18}[nd.Choose("types", nd.Bound(3, 4))]
		a, b := nd.Choose("a", len(mk)), nd.Choose("b", len(mk))
		three := nd.Choose("fields", 2) == 1
		up := nd.Choose("last", 3)
		for i := 1; i <= n; i++ {
			var next *desc
			switch {
			case i < n:
				next = named(pkgPath, name(i+1))
			case up == 0:
				next = basic("int")
			case up == 1:
				next = ptrTo(named(pkgPath, name(1)))
			default:
				next = named(otherPath, "O")
			}
			of[i] = []field{f("A", mk[a](next)), f("B", mk[b](next))}
			if three {
				of[i] = append(of[i], f("C", ptrTo(next)))
			}
			if i < n {
				if i%2 == 0 {
					frag += "/A" + step[a]
				} else {
					frag += "/B" + step[b]
				}
			}
		}
	} else {
		n = 4
		k := nd.Choose("kind", len(mk)-1) + 1
		for i := 1; i <= n; i++ {
			for j := 1; j <= n; j++ {
				of[i] = append(of[i], f("F"+num(j), mk[k](named(pkgPath, name(j)))))
			}
			if i > 1 {
				frag += "/F" + num(i) + step[k]
			}
		}
	}
	for i := 1; i <= n; i++ {
		w.declare(pkgPath, name(i), structOf(of[i]...))
	}
	for i := 1; i <= n; i++ {
		w.finish(pkgPath + "#" + name(i))
	}
	w.ready(name(1))
	p := goPtr(pkgPath, name(1))
	sc := w.scan(p)
	for i := 1; i <= n; i++ {
		want := obj{}
		for _, x := range of[i] {
			s, ok := w.schema(x.t, name(i)+"/"+x.name)
			nd.Assert(ok, "schema")
			want[x.name] = s
		}
		got, err := resolve(sc, goPtr(pkgPath, name(i)))
		nd.Assert(err == nil, "a type that is referred to does not resolve")
		nd.Assert(nd.Equal(got, obj{"type": "object", "properties": want}), "schema does not list exactly the exported fields with their shapes")
	}
	got, err := resolve(sc, goPtr(pkgPath, name(1)+frag))
	last, lerr := resolve(sc, goPtr(pkgPath, name(n)))
	nd.Assert(err == nil && lerr == nil && nd.Equal(got, last), "a pointer into a type does not give the schema of that place")
	s, ok := w.schema(of[n][0].t, name(n)+"/"+of[n][0].name)
	got, err = resolve(sc, goPtr(pkgPath, name(1)+frag+"/"+of[n][0].name))
	nd.Assert(ok && err == nil, "a place with a schema is an error")
	if r, isRef := s["$ref"].(string); isRef {
		q, perr := pointer.Parse(r)
		nd.Assert(perr == nil, "pointer")
		s, perr = resolve(sc, q)
		nd.Assert(perr == nil, "a type that is referred to does not resolve")
	}
	nd.Assert(nd.Equal(got, s), "a pointer into a type does not give the schema of that place")
	nd.Cover("ok")
}

// Types S, of the same name in two packages, with a type N below each, again of the same name, that are reached from T in one of 3 ways (field, pointer, slice) in both orders: pointers
// to places of both give the schema each has.
func C15_same_names_in_two_packages() {
	w := newWorld()
	for _, p := range []string{pkgPath, otherPath} {
		own := map[string]string{pkgPath: "string", otherPath: "bool"}[p]
		w.declare(p, "N", structOf(f("V", basic(own))))
		w.declare(p, "S", structOf(f("X", basic(own)), f("In", structOf(f("Y", basic(own)))), f("N", named(p, "N"))))
	}
	how := func(d *desc) *desc {
		switch nd.Choose("way", 3) {
		case 1:
			return ptrTo(d)
		case 2:
			return sliceOf(d)
		}
		return d
	}
	first, second := pkgPath, otherPath
	if nd.Choose("order", 2) == 1 {
		first, second = second, first
	}
	w.declare(pkgPath, "T", structOf(f("A", how(named(first, "S"))), f("B", how(named(second, "S")))))
	w.finish(pkgPath+"#N", pkgPath+"#S", otherPath+"#N", otherPath+"#S", pkgPath+"#T")
	sc := w.scan(goPtr(pkgPath, "T"))
	for _, p := range []string{pkgPath, otherPath} {
		own := nd.Copy(basics[map[string]string{pkgPath: "string", otherPath: "bool"}[p]].schema)
		in := obj{"type": "object", "properties": obj{"Y": own}}
		for frag, want := range map[string]interface{}{
			"N": obj{"type": "object", "properties": obj{"V": own}},
			"S": obj{"type": "object", "properties": obj{"X": own, "In": ref(p, "S/In"), "N": ref(p, "N")}},
			"S/X": own, "S/In": in, "S/In/Y": own, "N/V": own,
		} {
			got, err := resolve(sc, goPtr(p, frag))
			nd.Assert(err == nil, "a place with a schema is an error")
			nd.Assert(nd.Equal(got, want), "a pointer into a type does not give the schema of that place")
		}
	}
	nd.Cover("ok")
}
