package resolver

import (
	"errors"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/resolver"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

const pkgURI = "go://x.io/p#/"

func ptr(name string) *pointer.Pointer {
	p, err := pointer.Parse(pkgURI + name)
	nd.Assert(err == nil, "pointer")
	return &p
}

// An edge of the schema graph: where a schema mentions another one.
type edge struct {
	shape int // 0 property, 1 array items, 2 allOf member, 3 the whole schema
	to    string
}

type graph map[string][]edge

var shapes = []string{"property", "items", "allOf", "whole"}

func (g graph) schema(name string) spec.Schema {
	s := spec.Schema{Description: "about " + name}
	for _, e := range g[name] {
		r := &spec.Schema{Refable: spec.Refable{Ref: ptr(e.to)}}
		switch e.shape {
		case 0:
			if s.Properties == nil {
				s.Properties = map[string]*spec.Schema{}
			}
			s.Properties["p"+e.to] = r
		case 1:
			s.Items = r
		case 2:
			s.AllOf = append(s.AllOf, r)
		case 3:
			return *r
		}
	}
	return s
}

// expand is the specification of resolving: references to exported schemas become local references, others are replaced by
// the content of the schema, and a reference back to a schema being expanded by an empty object.
func (g graph) expand(name string, path []string, exp map[string]string) interface{} {
	if e, ok := exp[name]; ok {
		return map[string]interface{}{"$ref": "#/components/schemas/" + escaped(e)}
	}
	for _, p := range path {
		if p == name {
			return map[string]interface{}{}
		}
	}
	return g.content(name, path, exp)
}

// escaped is the text of a name as reference token in a URI fragment.
func escaped(name string) string {
	out := ""
	for i := 0; i < len(name); i++ {
		switch name[i] {
		case '~':
			out += "~0"
		case '/':
			out += "~1"
		case '%':
			out += "%25"
		default:
			out += name[i : i+1]
		}
	}
	return out
}

func (g graph) content(name string, path []string, exp map[string]string) interface{} {
	path = append(append([]string{}, path...), name)
	out := map[string]interface{}{"description": "about " + name}
	for _, e := range g[name] {
		v := g.expand(e.to, path, exp)
		switch e.shape {
		case 0:
			pp, ok := out["properties"].(map[string]interface{})
			if !ok {
				pp = map[string]interface{}{}
				out["properties"] = pp
			}
			pp["p"+e.to] = v
		case 1:
			out["items"] = v
		case 2:
			all, _ := out["allOf"].([]interface{})
			out["allOf"] = append(all, v)
		case 3:
			return v
		}
	}
	return out
}

// reach adds everything reachable from name.
func (g graph) reach(name string, seen map[string]bool) {
	if seen[name] {
		return
	}
	seen[name] = true
	for _, e := range g[name] {
		g.reach(e.to, seen)
	}
}

func (g graph) fn(missing string) resolver.Fn {
	return func(p pointer.Pointer) (spec.Entiter, error) {
		h, _ := p.Fragment.Head()
		if _, ok := g[h]; !ok || h == missing || p.PkgPath() != "x.io/p" {
			return nil, errors.New("not found")
		}
		return g.schema(h), nil
	}
}

func refOf(name string) map[string]interface{} {
	return map[string]interface{}{"$ref": pkgURI + name}
}

// externals counts references that are not local.
func externals(v interface{}) int {
	n := 0
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if s, ok := e.(string); ok && k == "$ref" {
				if len(s) == 0 || s[0] != '#' {
					n++
				}
				continue
			}
			n += externals(e)
		}
	case []interface{}:
		for _, e := range x {
			n += externals(e)
		}
	}
	return n
}

func symGraph(nodes []string, nshapes int) graph {
	g := graph{}
	for _, a := range nodes {
		g[a] = nil
	}
	for _, a := range nodes {
		for _, b := range nodes {
			k := nd.Choose(a+b, nshapes+1)
			if k > 0 {
				g[a] = append(g[a], edge{k - 1, b})
			}
		}
	}
	return g
}

func symExports(nodes []string) (resolver.Exports, map[string]string) {
	var ex resolver.Exports
	m := map[string]string{}
	for _, a := range nodes {
		switch nd.Choose("export."+a, 2) {
		case 1:
			name := "E" + a
			if a == "A" {
				name = "v1.EA"
			}
			ex = append(ex, resolver.Pointer{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: name}, Pointer: *ptr(a)})
			m[a] = name
		}
	}
	return ex, m
}

// document with references to the given schemas, below keys that contain dots and tildes.
func refDocument(roots []string) map[string]interface{} {
	paths := map[string]interface{}{}
	for i, r := range roots {
		paths["/v1."+string([]byte{byte('0' + i)})+"~"] = map[string]interface{}{"get": map[string]interface{}{"x": []interface{}{refOf(r)}}}
	}
	return map[string]interface{}{"paths": paths, "local": map[string]interface{}{"$ref": "#/components/schemas/L"}}
}

func expectDocument(g graph, roots []string, exp map[string]string) map[string]interface{} {
	paths := map[string]interface{}{}
	seen := map[string]bool{}
	for i, r := range roots {
		paths["/v1."+string([]byte{byte('0' + i)})+"~"] = map[string]interface{}{"get": map[string]interface{}{"x": []interface{}{g.expand(r, nil, exp)}}}
		g.reach(r, seen)
	}
	out := map[string]interface{}{"paths": paths, "local": map[string]interface{}{"$ref": "#/components/schemas/L"}}
	schemas := map[string]interface{}{}
	for n := range seen {
		if e, ok := exp[n]; ok {
			schemas[e] = g.content(n, nil, exp)
		}
	}
	if len(schemas) > 0 {
		out["components"] = map[string]interface{}{"schemas": schemas}
	}
	return out
}

func checkResolve(g graph, roots []string, ex resolver.Exports, exp map[string]string) {
	doc := refDocument(roots)
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	out, err := resolver.Resolve(c, ex, g.fn(""))
	nd.Assert(err == nil, "resolving a document whose pointers are all known fails")
	nd.Assert(nd.Equal(c.Data(), doc), "resolving changes its input document")
	nd.Assert(externals(out.Data()) == 0, "a pointer to Go code is left in the resolved document")
	nd.Assert(nd.Equal(out.Data(), expectDocument(g, roots, exp)), "resolved document differs from the expansion of its pointers")
	nd.Cover("ok")
}

// Two schemas A and B, each mentioning A and B not at all or as property, array item or allOf member (256 graphs, cyclic ones included); either,
// both or none exported (one under a name with a dot); documents referring to A, to B, or to both; both directions of map iteration.
func C11_two_schemas() {
	nodes := []string{"A", "B"}
	g := symGraph(nodes, 3)
	ex, exp := symExports(nodes)
	roots := [][]string{{"A"}, {"A", "B"}, {"B", "A"}}[nd.Choose("roots", 3)]
	checkResolve(g, roots, ex, exp)
}

// Three schemas with property references only (512 graphs), the first and the last exported or not.
func C11_three_schemas() {
	nodes := []string{"A", "B", "C"}
	g := symGraph(nodes, 1)
	ex, exp := symExports([]string{"A", "C"})
	roots := [][]string{{"A"}, {"B", "A"}}[nd.Choose("roots", nd.Bound(1, 2))]
	checkResolve(g, roots, ex, exp)
}

// Schemas that are nothing but a reference to another schema, in chains and cycles of up to three.
func C11_whole_schema_is_a_reference() {
	g := graph{"A": {{3, nd.OneOf("A", "A", "B", "C")}}, "B": nil, "C": nil}
	switch nd.Choose("B", 4) {
	case 0:
		g["B"] = []edge{{3, "C"}}
	case 1:
		g["B"] = []edge{{0, "A"}}
	case 2:
		g["B"] = []edge{{0, "C"}}
	}
	ex, exp := symExports([]string{"B", "C"})
	roots := [][]string{{"A"}, {"A", "B"}}[nd.Choose("roots", 2)]
	checkResolve(g, roots, ex, exp)
}

// The same graphs with one schema that cannot be resolved: an error exactly when it is reachable and never a partial document.
func C11_unknown_pointer_is_an_error() {
	nodes := []string{"A", "B", "C"}
	g := symGraph(nodes, 1)
	missing := nd.OneOf("missing", "A", "B", "C")
	ex, _ := symExports([]string{"B"})
	doc := refDocument([]string{"A"})
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	seen := map[string]bool{}
	g.reach("A", seen)
	_, err = resolver.Resolve(c, ex, g.fn(missing))
	nd.Assert((err != nil) == seen[missing], "an unresolvable pointer is not an error, or an error without one")
	nd.Assert(nd.Equal(c.Data(), doc), "resolving changes its input document")
	if err != nil {
		nd.Cover("error")
	} else {
		nd.Cover("ok")
	}
}

// References with arbitrary text of 0..3 bytes, "#" and up to 3 bytes, or a relative document: local references stay as they are, text that is no URI is an error, and nothing panics.
func C11_local_references_stay() {
	text := nd.OneOf("pre", "", "#/components/schemas/", "other.yaml#/") + nd.String("text", 0, nd.Bound(2, 3), "ab/~%.# ")
	doc := map[string]interface{}{"k": map[string]interface{}{"$ref": text}, "n": map[string]interface{}{"$ref": 1.0}, "o": map[string]interface{}{"$ref": map[string]interface{}{"type": "string"}}}
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	called := false
	out, err := resolver.Resolve(c, nil, func(p pointer.Pointer) (spec.Entiter, error) {
		called = true
		return nil, errors.New("unexpected")
	})
	nd.Assert(!called, "a local reference is resolved as a pointer to Go code")
	_, perr := pointer.Parse(text)
	nd.Assert((err == nil) == (perr == nil), "malformed reference accepted or valid one rejected")
	if err == nil {
		nd.Assert(nd.Equal(out.Data(), doc), "a local reference changes")
		nd.Cover("kept")
	}
}

// Chains of 1..12 (quick) / 1..40 (thorough) schemas, each referring to the next one as property, array item, allOf member or with its whole schema, the last one to nothing or back to any of them; none, the middle or the last one exported.
func C11_long_chains() {
	n := []int{1, 4, 5, 9, 12, 20, 40}[nd.Choose("n", nd.Bound(5, 7))]
	name := func(i int) string { return "T" + string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
	shape := nd.Choose("shape", 4)
	g := graph{}
	for i := 0; i < n; i++ {
		g[name(i)] = nil
		if i+1 < n {
			g[name(i)] = []edge{{shape, name(i + 1)}}
		}
	}
	if back := nd.Choose("back", n+1); back < n {
		nd.Assume(shape != 3 || back != n-1)
		g[name(n-1)] = []edge{{nd.Choose("last", 3), name(back)}}
	}
	var ex resolver.Exports
	exp := map[string]string{}
	if k := nd.Choose("export", 3); k > 0 {
		x := name([]int{n / 2, n - 1}[k-1])
		ex = resolver.Exports{{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: "E"}, Pointer: *ptr(x)}}
		exp[x] = "E"
	}
	checkResolve(g, []string{name(0)}, ex, exp)
}

// References to schema A or B (64 graphs, A exported or not) in one of 11 places: below empty keys, keys that look like the one of a reference or like an index, and in arrays of arrays, beside local references of 6 kinds (empty,
// "#", without fragment, a key that is no reference) before and after them in the order of maps.
func C11_places_of_references() {
	nodes := []string{"A", "B"}
	g := graph{"A": nil, "B": nil}
	for _, e := range []string{"AA", "AB", "BA"} {
		if k := nd.Choose(e, nd.Bound(2, 4)); k > 0 {
			g[e[:1]] = append(g[e[:1]], edge{k - 1, e[1:]})
		}
	}
	ex, exp := symExports([]string{"A"})
	at := nodes[nd.Choose("at", 2)]
	place := nd.Choose("place", 11)
	put := func(v interface{}) interface{} {
		obj := func(k string, v interface{}) interface{} { return map[string]interface{}{k: v} }
		switch place {
		case 0:
			return obj("", v)
		case 1:
			return obj("", obj("", v))
		case 2:
			return obj("a", obj("", v))
		case 3:
			return obj("$ref", v)
		case 4:
			return obj("0", []interface{}{v})
		case 5:
			return obj("k", []interface{}{"x", []interface{}{v}})
		case 6:
			return obj("k", []interface{}{[]interface{}{}, []interface{}{[]interface{}{1.0, v}}})
		case 7:
			return obj("a.$ref", v)
		case 8:
			return obj("k", []interface{}{obj("", []interface{}{v}), v})
		case 9:
			return obj("*", obj("-", []interface{}{v}))
		default:
			return obj("~1", obj("~0.", v))
		}
	}
	local := nd.OneOf("local", "", "#", "other.yaml", "#/", "?", "//host/x")
	mk := func(v interface{}) map[string]interface{} {
		return map[string]interface{}{"a": map[string]interface{}{"$ref": local}, "d": put(v), "z": map[string]interface{}{"$ref": local}}
	}
	doc := mk(refOf(at))
	want := mk(g.expand(at, nil, exp))
	seen := map[string]bool{}
	g.reach(at, seen)
	if seen["A"] && exp["A"] != "" {
		want["components"] = map[string]interface{}{"schemas": map[string]interface{}{exp["A"]: g.content("A", nil, exp)}}
	}
	nd.MapOrder(nd.Bound(1, 3))
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	out, err := resolver.Resolve(c, ex, g.fn(""))
	nd.MapOrder(0)
	nd.Assert(err == nil, "resolving a document whose pointers are all known fails")
	nd.Assert(nd.Equal(out.Data(), want), "resolved document differs from the expansion of its pointers")
	nd.Cover("ok")
}

// A document with 2, 9, 17 or 40 references, each to a schema of its own, all to the same one, or to two in turn; none, every third one or all of them exported: every one is resolved as on its own.
func C11_many_pointers() {
	n := []int{2, 9, 17, 40}[nd.Choose("n", 4)]
	name := func(i int) string { return "T" + string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
	g := graph{}
	for i := 0; i < n; i++ {
		g[name(i)] = nil
	}
	mod := []int{n, 1, 2}[nd.Choose("distinct", 3)]
	g[name(0)] = []edge{{nd.Choose("shape", 3), name(n - 1)}}
	var roots []string
	for i := 0; i < n; i++ {
		roots = append(roots, name(i%mod))
	}
	var ex resolver.Exports
	exp := map[string]string{}
	if every := []int{0, 3, 1}[nd.Choose("exports", 3)]; every > 0 {
		for i := 0; i < n; i += every {
			ex = append(ex, resolver.Pointer{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: "E" + name(i)}, Pointer: *ptr(name(i))})
			exp[name(i)] = "E" + name(i)
		}
	}
	checkResolve(g, roots, ex, exp)
}

// Two references to any of 9 pointers that look alike (a type, places in it, a type whose name only differs in case, begins alike or holds a dot, the same name in a package below or beside), any two of which are exported: exactly the ones exported become components and local references, every other one
// is replaced by its own schema.
func C12_pointers_that_look_alike() {
	all := []string{"go://x.io/p#/A", "go://x.io/p#/A/B", "go://x.io/p#/A/B/[]", "go://x.io/p#/A/C", "go://x.io/p#/a", "go://x.io/p#/AB", "go://x.io/p#/A.B", "go://x.io/p/A#/A", "go://x.io/q#/A"}
	parse := func(s string) pointer.Pointer {
		p, err := pointer.Parse(s)
		nd.Assert(err == nil, "pointer of the harness")
		return p
	}
	r1, r2 := nd.Choose("first", len(all)), nd.Choose("second", len(all))
	e1, e2 := nd.Choose("export", len(all)), nd.Choose("other export", len(all)+1)
	nd.Assume(e1 != e2)
	ex := resolver.Exports{{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: "X"}, Pointer: parse(all[e1])}}
	names := map[int]string{e1: "X"}
	if e2 < len(all) {
		ex = append(ex, resolver.Pointer{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: "Y"}, Pointer: parse(all[e2])})
		names[e2] = "Y"
	}
	c, err := container.Make(map[string]interface{}{"a": map[string]interface{}{"$ref": all[r1]}, "b": []interface{}{map[string]interface{}{"$ref": all[r2]}}})
	nd.Assert(err == nil, "make")
	out, err := resolver.Resolve(c, ex, func(p pointer.Pointer) (spec.Entiter, error) {
		return &spec.Schema{Type: spec.TypeString, Description: p.String()}, nil
	})
	nd.Assert(err == nil, "resolving a document whose pointers are all known fails")
	schemas := map[string]interface{}{}
	at := func(k int) interface{} {
		s := map[string]interface{}{"type": "string", "description": all[k]}
		if n, ok := names[k]; ok {
			schemas[n] = s
			return map[string]interface{}{"$ref": "#/components/schemas/" + n}
		}
		return s
	}
	want := map[string]interface{}{"a": at(r1), "b": []interface{}{at(r2)}}
	if len(schemas) > 0 {
		want["components"] = map[string]interface{}{"schemas": schemas}
	}
	nd.Assert(nd.Equal(out.Data(), want), "a pointer is taken for another one")
	nd.Cover("ok")
}

// A reference to one of 9 pointers that look alike (see C12_pointers_that_look_alike), whose schema refers to another one of them, which refers to a third one: each stands at its place, and only the very same pointer is cut where it comes again below itself.
func C11_pointers_that_look_alike() {
	all := []string{"go://x.io/p#/A", "go://x.io/p#/A/B", "go://x.io/p#/A/B/[]", "go://x.io/p#/A/C", "go://x.io/p#/a", "go://x.io/p#/AB", "go://x.io/p#/A.B", "go://x.io/p/A#/A", "go://x.io/q#/A"}
	r := []int{nd.Choose("first", len(all)), nd.Choose("second", len(all)), nd.Choose("third", len(all))}
	nd.Assume(r[0] != r[1] && r[1] != r[2])
	ref := func(k int) map[string]interface{} { return map[string]interface{}{"$ref": all[k]} }
	c, err := container.Make(map[string]interface{}{"a": ref(r[0])})
	nd.Assert(err == nil, "make")
	out, err := resolver.Resolve(c, nil, func(p pointer.Pointer) (spec.Entiter, error) {
		s := &spec.Schema{Type: spec.TypeObject, Description: p.String()}
		for i := 0; i < 2; i++ {
			if all[r[i]] == p.String() {
				q, err := pointer.Parse(all[r[i+1]])
				nd.Assert(err == nil, "pointer of the harness")
				s.Properties = map[string]*spec.Schema{"x": {Refable: spec.Refable{Ref: &q}}}
				break
			}
		}
		return s, nil
	})
	nd.Assert(err == nil, "resolving a document whose pointers are all known fails")
	last := map[string]interface{}{"type": "object", "description": all[r[2]]}
	if r[2] == r[0] {
		last = map[string]interface{}{}
	}
	mid := map[string]interface{}{"type": "object", "description": all[r[1]], "properties": map[string]interface{}{"x": last}}
	want := map[string]interface{}{"a": map[string]interface{}{"type": "object", "description": all[r[0]], "properties": map[string]interface{}{"x": mid}}}
	nd.Assert(nd.Equal(out.Data(), want), "a pointer is taken for another one")
	nd.Cover("ok")
}
