package defaults

import (
	"strconv"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// union merges root into doc; rule: 0 strict, 1 document wins, 2 root wins. ok is false on a strict collision.
func union(doc, root interface{}, rule int) (out interface{}, ok bool) {
	d, ok1 := doc.(map[string]interface{})
	r, ok2 := root.(map[string]interface{})
	if !ok1 || !ok2 {
		switch rule {
		case 0:
			return nil, false
		case 1:
			return doc, true
		}
		return root, true
	}
	res := nd.Copy(d).(map[string]interface{})
	ok = true
	for k, rv := range r {
		dv, has := res[k]
		if !has {
			res[k] = nd.Copy(rv)
			continue
		}
		u, o := union(dv, rv, rule)
		ok = ok && o
		res[k] = u
	}
	return res, ok
}

var rules = map[string]int{"info": 2, "components": 0, "paths": 1, "externalDocs": 1, "security": 1, "servers": 1, "tags": 1}

func section(key string, side string) interface{} {
	s := func() string { return nd.String(side+"."+key, 1, 1, "xy") }
	switch key {
	case "info":
		return map[string]interface{}{"title": s(), "x-" + side: "k"}
	case "components":
		return map[string]interface{}{"schemas": map[string]interface{}{nd.OneOf(side+".name", "A", "B"): map[string]interface{}{"type": "string"}}}
	case "paths":
		return map[string]interface{}{nd.OneOf(side+".path", "/a", "/b.c"): map[string]interface{}{"get": map[string]interface{}{"summary": s()}}}
	case "externalDocs":
		return map[string]interface{}{"url": s()}
	case "security":
		return []interface{}{map[string]interface{}{"k": []interface{}{s()}}}
	case "servers":
		return []interface{}{map[string]interface{}{"url": s()}}
	default:
		return []interface{}{map[string]interface{}{"name": s()}}
	}
}

func rootSection(root *spec.OpenAPI, key string) {
	s := func() string { return nd.String("root."+key, 1, 1, "xy") }
	switch key {
	case "info":
		root.Info = &spec.Info{Title: s(), Description: "d"}
	case "components":
		root.Components = &spec.Components{Schemas: map[string]*spec.Schema{nd.OneOf("root.name", "A", "B"): {Type: spec.TypeString}}}
		if nd.Choose("root.params", 2) == 1 {
			root.Components.Parameters = map[string]*spec.Parameter{"P": {Name: "p", In: "query"}}
		}
	case "paths":
		root.Paths = spec.Paths{nd.OneOf("root.path", "/a", "/b.c"): &spec.PathItem{Get: &spec.Operation{Summary: s(), OperationID: "o"}}}
	case "externalDocs":
		root.ExternalDocs = &spec.ExternalDocumentation{URL: s(), Description: "d"}
	case "security":
		root.Security = []map[string]spec.SecurityRequirement{{"k": {s()}}}
	case "servers":
		root.Servers = []*spec.Server{{URL: s()}}
	case "tags":
		root.Tags = []*spec.Tag{{Name: s()}}
	}
}

var sections = []string{"info", "components", "paths", "externalDocs", "security", "servers", "tags"}

func checkRoot(doc map[string]interface{}, root spec.OpenAPI) {
	rc, err := container.Make(root)
	nd.Assert(err == nil, "root document cannot be rendered")
	rendered := rc.Data().(map[string]interface{})
	want := nd.Copy(doc).(map[string]interface{})
	ok := true
	for _, k := range sections {
		rv, has := rendered[k]
		if !has {
			continue
		}
		dv, hasd := want[k]
		if !hasd {
			want[k] = rv
			continue
		}
		u, o := union(dv, rv, rules[k])
		ok = ok && o
		want[k] = u
	}
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	err = oapi.MergeWithRoot(root, c)
	nd.Assert((err == nil) == ok, "component defined by both sides is not an error, or an error without such a component")
	if err != nil {
		nd.Cover("collision")
		return
	}
	nd.Assert(nd.Equal(c.Data(), want), "merge with the root document does not follow the precedence of its sections")
	again, err := container.Make(root)
	nd.Assert(err == nil && nd.Equal(again.Data(), rc.Data()), "merging changes the root document")
	nd.Cover("merged")
}

// For every pair of sections (info, components, paths, external docs, security, servers, tags), each present or absent on either side with symbolic content: info
// of the root wins field by field, components collide, every other section of the document wins, and absent sections are filled in.
func C10_pairs_of_sections() {
	i := nd.Choose("s1", len(sections))
	j := nd.Choose("s2", len(sections))
	nd.Assume(i < j)
	doc := map[string]interface{}{"openapi": "3.0.0", "x-keep": "k"}
	var root spec.OpenAPI
	for _, k := range []string{sections[i], sections[j]} {
		side := nd.Choose("side", 4)
		if side&1 != 0 {
			doc[k] = section(k, "doc")
		}
		if side&2 != 0 {
			rootSection(&root, k)
		}
	}
	checkRoot(doc, root)
}

// Each of the seven sections null, empty, or (objects) with nothing but null in the document, and absent or present in the root document: what is null gives way to what the root states, what is empty is stated and wins where the document does, e.g. security: [].
func C10_empty_sections() {
	k := sections[nd.Choose("section", len(sections))]
	doc := map[string]interface{}{"openapi": "3.0.0", "x-keep": "k"}
	var root spec.OpenAPI
	has := nd.Choose("root", 2) == 1
	if has {
		rootSection(&root, k)
	}
	switch how := nd.Choose("doc", 3); {
	case how == 0:
		doc[k] = nil
	case k == "security" || k == "servers" || k == "tags":
		doc[k] = []interface{}{}
	case how == 1:
		doc[k] = map[string]interface{}{}
	default:
		doc[k] = map[string]interface{}{"x": nil}
	}
	rc, err := container.Make(root)
	nd.Assert(err == nil, "root document cannot be rendered")
	want := nd.Copy(doc).(map[string]interface{})
	if v, ok := rc.Data().(map[string]interface{})[k]; ok {
		if want[k] == nil {
			want[k] = v
		} else {
			want[k], ok = union(want[k], v, rules[k])
			nd.Assert(ok, "union")
		}
	}
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	nd.Assert(oapi.MergeWithRoot(root, c) == nil, "merge fails")
	nd.Assert(nd.Equal(c.Data(), want), "merge with the root document does not follow the precedence of its sections")
	nd.Cover("ok")
}

// All seven sections on one side or on both.
func C10_all_sections() {
	doc := map[string]interface{}{"openapi": "3.0.0"}
	var root spec.OpenAPI
	side := 1 + nd.Choose("side", 3)
	for _, k := range sections {
		if side&1 != 0 {
			doc[k] = section(k, "doc")
		}
		if side&2 != 0 {
			rootSection(&root, k)
		}
	}
	checkRoot(doc, root)
}

// Any combination of title, description, version, terms of service, and contact or license with name and URL stated (symbolic texts of one letter, those of the document may be empty) in the info of the root document and in that of the document, which may be absent: every field stated by the root wins, every other one of the document stays,
// and nothing but empty required fields is added.
func C10_stated_info_fields() {
	root := spec.OpenAPI{Info: &spec.Info{}}
	doc := map[string]interface{}{"openapi": "3.0.0"}
	info := map[string]interface{}{}
	want := map[string]interface{}{}
	field := func(in, out map[string]interface{}, name string, set *string) {
		how := nd.Choose(name, 4)
		if how&1 != 0 {
			s := nd.String("doc."+name, 0, 1, "xy")
			in[name], out[name] = s, s
		}
		if how&2 != 0 {
			*set = nd.String("root."+name, 1, 1, "xy ")
			out[name] = *set
		}
	}
	field(info, want, "title", &root.Info.Title)
	field(info, want, "version", &root.Info.Version)
	switch nd.Choose("more", 3) {
	case 0:
		field(info, want, "description", &root.Info.Description)
		field(info, want, "termsOfService", &root.Info.TermsOfService)
	case 1:
		root.Info.Contact = &spec.Contact{}
		in, out := map[string]interface{}{}, map[string]interface{}{}
		field(in, out, "name", &root.Info.Contact.Name)
		field(in, out, "url", &root.Info.Contact.URL)
		info["contact"], want["contact"] = in, out
	case 2:
		root.Info.License = &spec.License{}
		in, out := map[string]interface{}{}, map[string]interface{}{}
		field(in, out, "name", &root.Info.License.Name)
		field(in, out, "url", &root.Info.License.URL)
		info["license"], want["license"] = in, out
	}
	if len(info) > 0 {
		doc["info"] = info
	}
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	nd.MapOrder(1)
	nd.Assert(oapi.MergeWithRoot(root, c) == nil, "merge fails")
	got := c.Data().(map[string]interface{})
	nd.Assert(len(got) == 2 && got["openapi"] == "3.0.0", "another section comes into being")
	gi, ok := got["info"].(map[string]interface{})
	nd.Assert(ok, "info is lost")
	// required fields that neither side states are rendered empty
	pad := func(out, in map[string]interface{}, names ...string) {
		for _, n := range names {
			if _, ok := out[n]; !ok && in[n] == "" {
				out[n] = ""
			}
		}
	}
	pad(want, gi, "title", "version")
	for _, k := range []string{"contact", "license"} {
		if w, ok := want[k].(map[string]interface{}); ok {
			g, ok := gi[k].(map[string]interface{})
			nd.Assert(ok, "info is lost")
			pad(w, g, "name")
		}
	}
	nd.Assert(nd.Equal(gi, want), "a field that is stated is lost or changed")
	nd.Cover("ok")
}

// 3, 9, 17 or 40 paths, components, tags and servers in the document and in the root document, disjoint or with one in common (at either end or in the middle): precedence is the same, a component in common is an error.
func C10_many_members() {
	n := []int{3, 9, 17, 40}[nd.Choose("members", 4)]
	nd.MapOrder(1)
	both := []int{-1, 0, n / 2, n - 1}[nd.Choose("common", 4)]
	what := nd.Choose("what", 2)
	name := func(i int) string { return "n" + strconv.Itoa(i) }
	paths, schemas := map[string]interface{}{}, map[string]interface{}{}
	var tags []interface{}
	root := spec.OpenAPI{Paths: spec.Paths{}, Components: &spec.Components{Schemas: map[string]*spec.Schema{}}}
	for i := 0; i < n; i++ {
		paths["/"+name(i)] = map[string]interface{}{"get": map[string]interface{}{"summary": "doc"}}
		schemas[name(i)] = map[string]interface{}{"type": "string"}
		tags = append(tags, map[string]interface{}{"name": name(i)})
		k := n + i
		root.Servers = append(root.Servers, &spec.Server{URL: name(k)})
		root.Tags = append(root.Tags, &spec.Tag{Name: name(k)})
		p, s := name(k), name(k)
		if i == both && what == 0 {
			p = name(n - 1 - i)
		}
		if i == both && what == 1 {
			s = name(n - 1 - i)
		}
		root.Paths["/"+p] = &spec.PathItem{Get: &spec.Operation{Summary: nd.OneOf("summary", "root"), OperationID: "o"}}
		root.Components.Schemas[s] = &spec.Schema{Type: spec.TypeNumber}
	}
	checkRoot(map[string]interface{}{"openapi": "3.0.0", "paths": paths, "components": map[string]interface{}{"schemas": schemas}, "tags": tags}, root)
}
