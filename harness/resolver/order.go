package resolver

import (
	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/resolver"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// Two mutually referring schemas (256 graphs), every choice of exports; the same document resolved under forward map order and under a second order (quick: backward;
// thorough: any order at every iteration).
func C12_resolution_ignores_map_order() {
	nodes := []string{"A", "B"}
	g := symGraph(nodes, nd.Bound(2, 3))
	ex, _ := symExports(nodes)
	doc := refDocument([]string{"A", "B", "A"}[:nd.Bound(2, 3)])
	nd.MapOrder(0)
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	a, err := resolver.Resolve(c, ex, g.fn(""))
	nd.Assert(err == nil, "resolving fails")
	nd.MapOrder(nd.Bound(1, 3))
	b, err := resolver.Resolve(c, ex, g.fn(""))
	nd.Assert(err == nil, "resolving fails")
	nd.MapOrder(0)
	nd.Assert(nd.Equal(a.Data(), b.Data()), "the resolved document depends on map order")
	nd.Cover("ok")
}

// Resolving an already resolved document, or resolving twice, changes nothing.
func C12_resolution_is_idempotent() {
	nodes := []string{"A", "B"}
	g := symGraph(nodes, 2)
	ex, _ := symExports(nodes)
	c, err := container.Make(refDocument([]string{"A", "B"}))
	nd.Assert(err == nil, "make")
	a, err := resolver.Resolve(c, ex, g.fn(""))
	nd.Assert(err == nil, "resolving fails")
	want := nd.Copy(a.Data())
	b, err := resolver.Resolve(a, ex, g.fn(""))
	nd.Assert(err == nil, "resolving a resolved document fails")
	nd.Assert(nd.Equal(b.Data(), want), "resolving a resolved document changes it")
	nd.Cover("ok")
}

// Exports looked up by pointer: found exactly when listed, whatever the order of the list (0..3 exports over three pointers).
func C12_export_lookup() {
	names := []string{"A", "B", "C"}
	var ex resolver.Exports
	m := map[string]bool{}
	n := nd.Choose("n", 4)
	for i := 0; i < n; i++ {
		k := names[nd.Choose("which", 3)]
		if m[k] {
			continue
		}
		m[k] = true
		ex = append(ex, resolver.Pointer{Entity: resolver.Entity{Name: "E" + k}, Pointer: *ptr(k)})
	}
	q := names[nd.Choose("q", 3)]
	got, ok := ex.Get(*ptr(q))
	nd.Assert(ok == m[q], "export found although not listed, or missed")
	if ok {
		nd.Assert(got.Name == "E"+q && got.Pointer.String() == pkgURI+q, "wrong export found")
		nd.Cover("found")
	}
}

// Two schemas of symbolic names (1..2 characters, possibly differing in case only), the first with a property of the second and an array of itself; either, both or none exported, under symbolic names
// (letters, dot, slash, tilde, percent, the first one with a digit behind or not);
// documents refer to the first, the second or both in either order: exactly the exported ones in reach are components, under exactly their export names.
func C12_symbolic_names() {
	name := func(label string, n int) string {
		s := nd.String(label, 1, n, "aAbB0_")
		nd.Assume(s[0] != '0' && s[0] != '_')
		return s
	}
	a, b := name("a", 2), name("b", nd.Bound(1, 2))
	nd.Assume(a != b)
	g := graph{a: {{0, b}, {1, a}}, b: nil}
	if nd.Choose("back", 2) == 1 {
		g[b] = []edge{{2, a}}
	}
	var ex resolver.Exports
	exp := map[string]string{}
	export := func(x, as string) {
		ex = append(ex, resolver.Pointer{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: as}, Pointer: *ptr(x)})
		exp[x] = as
	}
	k := nd.Choose("exports", 4)
	ea, eb := "", ""
	if k&1 == 1 {
		ea = nd.String("ea", 1, nd.Bound(1, 2), "aA./~%") + nd.OneOf("ea.tail", "", "0", "1")
	}
	if k&2 == 2 {
		eb = nd.String("eb", 1, 1, "aA.~")
	}
	nd.Assume(k != 3 || ea != eb)
	if k&2 == 2 {
		export(b, eb)
	}
	if k&1 == 1 {
		export(a, ea)
	}
	roots := [][]string{{a}, {b}, {a, b}, {b, a}}[nd.Choose("roots", 4)]
	checkResolve(g, roots, ex, exp)
}

// Documents of three references to schemas of symbolic names, one of which is exported under its own name: only that one becomes a component.
func C12_symbolic_references() {
	names := []string{"A", "B" + nd.String("b", 0, 1, "aB"), nd.String("c", 1, 2, "ABab")}
	nd.Assume(names[2] != names[0] && names[2] != names[1])
	g := graph{}
	for _, n := range names {
		g[n] = nil
	}
	g["A"] = []edge{{2, names[2]}}
	x := names[nd.Choose("export", 3)]
	ex := resolver.Exports{{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: x}, Pointer: *ptr(x)}}
	checkResolve(g, []string{names[nd.Choose("first", 3)], names[nd.Choose("second", 3)], names[1]}, ex, map[string]string{x: x})
}

// A reference with siblings that contain references themselves (as key, in an array or two levels down), to A or B (256 graphs), every choice of exports: whatever the order of maps, the result is the same, no pointer to Go
// code is left, and the reference of a schema that is not exported is replaced by exactly its content.
func C12_references_with_siblings() {
	nodes := []string{"A", "B"}
	g := symGraph(nodes, nd.Bound(1, 2))
	ex, exp := symExports(nodes)
	at := nodes[nd.Choose("at", 2)]
	inner := nodes[nd.Choose("inner", 2)]
	node := refOf(at)
	switch nd.Choose("shape", 4) {
	case 0:
		node["x"] = refOf(inner)
	case 1:
		node["properties"] = map[string]interface{}{"pA": refOf(inner)}
	case 2:
		node["allOf"] = []interface{}{refOf(inner)}
	case 3:
		node["description"] = refOf(inner)
	}
	doc := map[string]interface{}{"k": node}
	if nd.Choose("root", 2) == 1 {
		doc = node
	}
	nd.MapOrder(0)
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	a, err := resolver.Resolve(c, ex, g.fn(""))
	nd.Assert(err == nil, "resolving fails")
	nd.MapOrder(nd.Bound(1, 3))
	b, err := resolver.Resolve(c, ex, g.fn(""))
	nd.Assert(err == nil, "resolving fails")
	nd.MapOrder(0)
	nd.Assert(nd.Equal(a.Data(), b.Data()), "the resolved document depends on map order")
	nd.Assert(externals(a.Data()) == 0, "a pointer to Go code is left in the resolved document")
	if _, ok := exp[at]; !ok {
		if _, ok := doc["k"]; ok {
			nd.Assert(nd.Equal(a.Path("k").Data(), g.expand(at, nil, exp)), "reference is not replaced by the content of its schema")
			nd.Cover("replaced")
		}
	} else {
		nd.Cover("exported")
	}
}

// Documents that state components themselves, one of them under the name a schema is exported as: a reference to A or B, a schema mentioning A or B (64 graphs), or plain content, with and without another reference to the
// exported schema A: for either order of maps the exported component is exactly the schema of A, every other component is what was stated with its references resolved.
func C12_stated_components() {
	nodes := []string{"A", "B"}
	g := graph{"A": nil, "B": nil}
	for _, e := range []string{"AA", "AB", "BA"} {
		if k := nd.Choose(e, 3); k > 0 {
			g[e[:1]] = append(g[e[:1]], edge{k - 1, e[1:]})
		}
	}
	ex := resolver.Exports{{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: "A.1"}, Pointer: *ptr("A")}}
	exp := map[string]string{"A": "A.1"}
	seen := map[string]bool{}
	stated := func(label string) (map[string]interface{}, interface{}) {
		k := nd.Choose(label, 5)
		n := nodes[k%2]
		switch k {
		case 4:
			return map[string]interface{}{"type": "string"}, map[string]interface{}{"type": "string"}
		case 0, 1:
			g.reach(n, seen)
			return refOf(n), g.expand(n, nil, exp)
		default:
			g.reach(n, seen)
			return map[string]interface{}{"properties": map[string]interface{}{"q": refOf(n)}}, map[string]interface{}{"properties": map[string]interface{}{"q": g.expand(n, nil, exp)}}
		}
	}
	same, wantSame := stated("same")
	other, wantOther := stated("other")
	doc := map[string]interface{}{"components": map[string]interface{}{"schemas": map[string]interface{}{"A.1": same, "Z": other}}}
	want := map[string]interface{}{"components": map[string]interface{}{"schemas": map[string]interface{}{"A.1": wantSame, "Z": wantOther}}}
	if nd.Choose("referred", 2) == 1 {
		doc["paths"] = map[string]interface{}{"/": refOf("A")}
		want["paths"] = map[string]interface{}{"/": g.expand("A", nil, exp)}
		g.reach("A", seen)
	}
	if seen["A"] {
		want["components"].(map[string]interface{})["schemas"].(map[string]interface{})["A.1"] = g.content("A", nil, exp)
	}
	nd.MapOrder(nd.Bound(1, 3))
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	a, err := resolver.Resolve(c, ex, g.fn(""))
	nd.MapOrder(0)
	nd.Assert(err == nil, "resolving fails")
	nd.Assert(nd.Equal(a.Data(), want), "components differ from the exported schema and what the document states")
	nd.Cover("ok")
}

// 2, 5, 9, 17 (quick) or 33 (thorough) schemas, each with references to the next, to the first and to itself, in a ring; all of them exported, all but any one of five, or every second one; the document refers to any one of three and to the first: exactly the exported ones are components.
func C12_many_exports() {
	n := []int{2, 5, 9, 17, 33}[nd.Choose("n", nd.Bound(4, 5))]
	name := func(i int) string { return "T" + string(rune('a'+i%n/10)) + string(rune('0'+i%n%10)) }
	g := graph{}
	for i := 0; i < n; i++ {
		g[name(i)] = []edge{{0, name(i + 1)}}
		if i%3 == 1 {
			g[name(i)] = append(g[name(i)], edge{1, name(0)}, edge{2, name(i)})
		}
	}
	which := nd.Choose("which", 7)
	var ex resolver.Exports
	exp := map[string]string{}
	for i := 0; i < n; i++ {
		if which < 5 && i == which*n/5 || which == 5 && i%2 == 1 {
			continue
		}
		x := name(n - 1 - i)
		ex = append(ex, resolver.Pointer{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: "E" + x}, Pointer: *ptr(x)})
		exp[x] = "E" + x
	}
	checkResolve(g, []string{name([]int{0, n / 2, n - 1}[nd.Choose("from", 3)]), name(0)}, ex, exp)
}

// The graphs of three schemas, two of them exported in any combination, and one schema that cannot be resolved, exported or not: an error exactly when it is reachable, never a document which refers to a component that is not there.
func C12_exports_which_cannot_be_resolved() {
	nodes := []string{"A", "B", "C"}
	g := symGraph(nodes, 1)
	missing := nd.OneOf("missing", "A", "B", "C")
	ex, _ := symExports([]string{"A", "C"})
	c, err := container.Make(refDocument([]string{"B", "A"}))
	nd.Assert(err == nil, "make")
	seen := map[string]bool{}
	g.reach("A", seen)
	g.reach("B", seen)
	out, err := resolver.Resolve(c, ex, g.fn(missing))
	nd.Assert((err != nil) == seen[missing], "an export which cannot be resolved is not an error, or an error without one")
	if err != nil {
		nd.Cover("error")
		return
	}
	for _, e := range ex {
		h, _ := e.Pointer.Fragment.Head()
		nd.Assert(out.ExistsP(container.SliceToDotPath([]string{"components", "schemas", e.Entity.Name})) == seen[h], "components differ from the exports that are referred to")
	}
	nd.Cover("ok")
}
