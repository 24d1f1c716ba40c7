package defaults

import (
	"strings"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

var patterns = []string{"/a", "get:/a", "/*", "POST:/{id}", "/a.b", "/c/{id}"}

// applies is the expected relation of patterns and operations.
func applies(pat int, path, method string) bool {
	switch pat {
	case 0:
		return path == "/a"
	case 1:
		return path == "/a" && method == "get"
	case 2:
		return true
	case 3:
		return method == "post" && (path == "/a" || path == "/a.b")
	case 4:
		return path == "/a.b"
	default:
		return path == "/c/{x}"
	}
}

func symOp(label string) map[string]interface{} {
	op := map[string]interface{}{}
	switch nd.Choose(label, 4) {
	case 0:
		op["summary"] = nd.String(label+".s", 0, 1, "xy")
	case 1:
		op["responses"] = map[string]interface{}{"200": map[string]interface{}{"description": "ok"}}
		op["x-ext"] = []interface{}{"keep"}
	case 2:
		op["responses"] = map[string]interface{}{"500": map[string]interface{}{"description": nd.String(label+".d", 0, 1, "xy")}}
	case 3:
	}
	return op
}

func symDefault(label string, tag string) (spec.Operation, map[string]interface{}) {
	var o spec.Operation
	if nd.Choose(label+".sum", 2) == 1 {
		o.Summary = tag
	}
	if nd.Choose(label+".resp", 2) == 1 {
		o.Responses = map[string]*spec.Response{"500": {Description: tag}}
	}
	c, err := container.Make(o)
	nd.Assert(err == nil, "default operation cannot be rendered")
	m := c.Data().(map[string]interface{})
	if o.Summary != "" {
		nd.Assert(nd.Equal(m["summary"], tag), "default operation lost its summary")
	}
	if o.Responses != nil {
		r, ok := c.Path("responses.500.description").Data().(string)
		nd.Assert(ok && r == tag, "default operation lost its response")
	}
	return o, m
}

// fill merges defaults into dst without replacing anything.
func fill(dst, def map[string]interface{}) {
	for k, v := range def {
		old, ok := dst[k]
		if !ok {
			dst[k] = nd.Copy(v)
			continue
		}
		om, ok1 := old.(map[string]interface{})
		vm, ok2 := v.(map[string]interface{})
		if ok1 && ok2 {
			fill(om, vm)
		}
	}
}

func symPaths() map[string]interface{} {
	paths := map[string]interface{}{}
	a := map[string]interface{}{}
	if nd.Choose("a.get", 2) == 1 {
		a["get"] = symOp("a.get")
	}
	if nd.Choose("a.post", 2) == 1 {
		a["post"] = symOp("a.post")
	}
	switch nd.Choose("a.other", 5) {
	case 1:
		a["parameters"] = []interface{}{map[string]interface{}{"name": "p"}}
	case 2:
		a["summary"] = "text"
	case 3:
		a["servers"] = []interface{}{map[string]interface{}{"url": "u"}}
		a["description"] = "text"
	case 4:
		a["x-extension"] = map[string]interface{}{"k": "v"}
	}
	paths["/a"] = a
	switch nd.Choose("second", 3) {
	case 1:
		paths["/a.b"] = map[string]interface{}{"get": map[string]interface{}{"summary": "dotted"}, "post": map[string]interface{}{}}
	case 2:
		paths["/c/{x}"] = map[string]interface{}{"delete": map[string]interface{}{}, "get": map[string]interface{}{"operationId": "i"}}
	}
	return paths
}

var methods = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "options": true, "head": true, "patch": true, "trace": true}

// Documents with paths "/a" (operations get and post in four shapes each, plus path-level parameters, summary, servers or extensions), "/a.b" or "/c/{x}"; one pattern of six
// with a default summary and/or a default response: exactly the matching operations gain exactly the missing fields.
func C09_fill_missing_only() {
	paths := symPaths()
	pat := nd.Choose("pattern", len(patterns))
	op, def := symDefault("def", "D")
	want := nd.Copy(paths).(map[string]interface{})
	for p, item := range want {
		for m, o := range item.(map[string]interface{}) {
			if methods[m] && applies(pat, p, m) {
				fill(o.(map[string]interface{}), def)
			}
		}
	}
	c, err := container.Make(map[string]interface{}{"paths": paths, "info": map[string]interface{}{"title": "t"}})
	nd.Assert(err == nil, "make")
	err = oapi.SetPathsDefaults(c, map[string]spec.Operation{patterns[pat]: op})
	nd.Assert(err == nil, "applying default operations to a valid document fails")
	nd.Assert(nd.Equal(c.Data(), map[string]interface{}{"paths": want, "info": map[string]interface{}{"title": "t"}}), "defaults did not fill exactly the missing fields of the matching operations")
	nd.Cover("ok")
}

// Documents with path "/a" (operation get in four shapes and an empty post) with two different patterns of six: values present in the document stay, every matching default is applied, and the outcome is the
// same for every order in which maps are visited.
func C09_overlapping_patterns() {
	paths := map[string]interface{}{"/a": map[string]interface{}{"get": symOp("a.get"), "post": map[string]interface{}{}}}
	i := nd.Choose("p1", 4)
	j := nd.Choose("p2", 4)
	nd.Assume(i < j)
	op1, d1 := symDefault("d1", "D1")
	op2, d2 := symDefault("d2", "D2")
	ops := map[string]spec.Operation{patterns[i]: op1, patterns[j]: op2}
	nd.MapOrder(0)
	c1, err := container.Make(map[string]interface{}{"paths": paths})
	nd.Assert(err == nil, "make")
	c2 := c1.Clone()
	err = oapi.SetPathsDefaults(c1, ops)
	nd.Assert(err == nil, "applying default operations to a valid document fails")
	nd.MapOrder(nd.Bound(1, 2))
	err = oapi.SetPathsDefaults(c2, ops)
	nd.MapOrder(0)
	nd.Assert(err == nil, "applying default operations to a valid document fails")
	nd.Assert(nd.Equal(c1.Data(), c2.Data()), "outcome of overlapping default patterns depends on map order")
	w1 := nd.Copy(paths).(map[string]interface{})
	w2 := nd.Copy(paths).(map[string]interface{})
	for p := range paths {
		for m := range paths[p].(map[string]interface{}) {
			o1 := w1[p].(map[string]interface{})[m].(map[string]interface{})
			o2 := w2[p].(map[string]interface{})[m].(map[string]interface{})
			if applies(i, p, m) {
				fill(o1, d1)
			}
			if applies(j, p, m) {
				fill(o1, d2)
				fill(o2, d2)
			}
			if applies(i, p, m) {
				fill(o2, d1)
			}
			got := c1.Data().(map[string]interface{})["paths"].(map[string]interface{})[p].(map[string]interface{})[m]
			nd.Assert(nd.Equal(got, o1) || nd.Equal(got, o2), "overlapping default patterns do not each fill the missing fields")
		}
	}
	nd.Cover("ok")
}

// Documents without paths, with empty paths or without patterns are left alone.
func C09_nothing_to_do() {
	doc := map[string]interface{}{"openapi": "3"}
	switch nd.Choose("paths", 3) {
	case 1:
		doc["paths"] = map[string]interface{}{}
	case 2:
		doc["paths"] = map[string]interface{}{"/z": map[string]interface{}{"put": map[string]interface{}{"summary": "s"}}}
	}
	want := nd.Copy(doc)
	ops := map[string]spec.Operation{}
	if nd.Choose("ops", 2) == 1 {
		ops["/other"] = spec.Operation{Summary: "x"}
	}
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	err = oapi.SetPathsDefaults(c, ops)
	nd.Assert(err == nil, "nothing to do is reported as an error")
	nd.Assert(nd.Equal(c.Data(), want), "document changed although no default applies")
	nd.Cover("ok")
}

// Every operation of the document is listed exactly once with its method, path and a key that leads back to it.
func C09_operations_listed() {
	paths := symPaths()
	c, err := container.Make(map[string]interface{}{"paths": paths})
	nd.Assert(err == nil, "make")
	ff, err := oapi.Paths(c)
	nd.Assert(err == nil, "listing operations of a valid document fails")
	n := 0
	for p, item := range paths {
		for m, o := range item.(map[string]interface{}) {
			if !methods[m] {
				continue
			}
			n++
			k := 0
			for _, f := range ff {
				if f.Path == p && f.Method == m {
					k++
					nd.Assert(nd.Equal(f.Operation.Data(), o), "listed operation differs from the document")
					nd.Assert(nd.Equal(c.Path(f.Key).Data(), o), "key of an operation does not lead to it")
				}
			}
			nd.Assert(k == 1, "operation not listed exactly once")
		}
	}
	nd.Assert(len(ff) == n, "something that is not an operation is listed")
	nd.Cover("ok")
}

// A path with operations of all 8 methods and one of the patterns "/a", "M:/a", "m:/a" (8 methods): exactly the operations of that method (all 8 without one) gain a tag, a security requirement, the
// deprecation, an operation id, a parameter, a server and external documentation, and keep the summary they state; all 8 are listed.
func C09_all_methods() {
	all := []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}
	item := map[string]interface{}{"x-methods": map[string]interface{}{"get": map[string]interface{}{}}}
	for _, m := range all {
		item[m] = map[string]interface{}{"summary": m}
	}
	k := nd.Choose("method", 9)
	pat := "/a"
	if k > 0 {
		pat = all[k-1] + ":/a"
		if nd.Choose("upper", 2) == 1 {
			pat = strings.ToUpper(all[k-1]) + ":/a"
		}
	}
	op := spec.Operation{Summary: "lost", Tags: []string{"t"}, Security: []map[string]spec.SecurityRequirement{{"key": spec.SecurityRequirement{}}}, Deprecated: true, OperationID: "id",
		Parameters:   []*spec.Parameter{{Name: "p", In: "query", Explode: true}},
		Servers:      []*spec.Server{{URL: "u"}},
		ExternalDocs: &spec.ExternalDocumentation{URL: "d", Description: "dd"}}
	want := nd.Copy(item).(map[string]interface{})
	for i, m := range all {
		if k == 0 || k == i+1 {
			o := want[m].(map[string]interface{})
			o["tags"] = []interface{}{"t"}
			o["security"] = []interface{}{map[string]interface{}{"key": []interface{}{}}}
			o["deprecated"] = true
			o["operationId"] = "id"
			o["parameters"] = []interface{}{map[string]interface{}{"name": "p", "in": "query", "explode": true}}
			o["servers"] = []interface{}{map[string]interface{}{"url": "u"}}
			o["externalDocs"] = map[string]interface{}{"url": "d", "description": "dd"}
		}
	}
	c, err := container.Make(map[string]interface{}{"paths": map[string]interface{}{"/a": item}})
	nd.Assert(err == nil, "make")
	ff, err := oapi.Paths(c)
	nd.Assert(err == nil && len(ff) == 8, "operations are not listed once each")
	err = oapi.SetPathsDefaults(c, map[string]spec.Operation{pat: op})
	nd.Assert(err == nil, "applying default operations to a valid document fails")
	nd.Assert(nd.Equal(c.Data(), map[string]interface{}{"paths": map[string]interface{}{"/a": want}}), "defaults did not fill exactly the missing fields of the matching operations")
	nd.Cover("ok")
}

// Paths of "/" and 0..2 (quick) / 0..3 (thorough) characters over "a . ~ 0 1 / {" with an operation of one of three methods that is empty, stated with nothing (null) or states a summary, beside a path item that is null, empty or has an operation of its own, and a pattern for any path or only the ones with or without that method: the
// default of a description, a response and a parameter fills what is missing and nothing else changes.
func C09_any_path_and_operation() {
	path := "/" + nd.String("path", 0, nd.Bound(2, 3), "a.~01/{")
	nd.Assume(path != "/b")
	method := nd.OneOf("method", "get", "head", "trace")
	var op interface{}
	switch nd.Choose("operation", 3) {
	case 0:
		op = map[string]interface{}{}
	case 1:
		op = map[string]interface{}{"summary": nd.String("summary", 0, 1, "xy"), "responses": map[string]interface{}{"default": map[string]interface{}{"description": ""}}}
	}
	var other interface{}
	switch nd.Choose("other", 3) {
	case 0:
		other = map[string]interface{}{}
	case 1:
		other = map[string]interface{}{"get": map[string]interface{}{"deprecated": true}, "$ref": "#/x"}
	}
	paths := map[string]interface{}{path: map[string]interface{}{method: op}, "/b": other}
	pattern := nd.OneOf("pattern", "*", "get:*", "/*", "post:/*", "/b")
	def := spec.Operation{Description: "D", Responses: map[string]*spec.Response{"default": {Description: "R"}}, Parameters: []*spec.Parameter{{Name: "p", In: "query"}}}
	dc, err := container.Make(def)
	nd.Assert(err == nil, "make")
	dm := dc.Data().(map[string]interface{})
	r, _ := dc.Path("responses.default.description").Data().(string)
	p, _ := dc.Path("parameters.0.name").Data().(string)
	nd.Assert(len(dm) == 3 && dm["description"] == "D" && r == "R" && p == "p", "default operation lost a field")
	want := nd.Copy(paths).(map[string]interface{})
	for p, item := range want {
		m, _ := item.(map[string]interface{})
		for k, o := range m {
			on := pattern == "*" || pattern == "/*" || pattern == "get:*" && k == "get" || pattern == "/b" && p == "/b"
			if !methods[k] || !on {
				continue
			}
			om, ok := o.(map[string]interface{})
			if !ok {
				om = map[string]interface{}{}
				m[k] = om
			}
			fill(om, dm)
		}
	}
	c, err := container.Make(map[string]interface{}{"paths": paths})
	nd.Assert(err == nil, "make")
	err = oapi.SetPathsDefaults(c, map[string]spec.Operation{pattern: def})
	nd.Assert(err == nil, "applying default operations to a valid document fails")
	nd.Assert(nd.Equal(c.Data(), map[string]interface{}{"paths": want}), "defaults did not fill exactly the missing fields of the matching operations")
	nd.Cover("ok")
}

// Documents of 14 (quick) / 20 (thorough) paths with two operations each, and 1, 5 or 10 patterns each for one of the paths: exactly those paths are filled.
func C09_many_paths() {
	n, k := nd.Bound(14, 20), []int{1, 5, 10}[nd.Choose("patterns", 3)]
	name := func(i int) string { return "/p" + string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
	paths, want := map[string]interface{}{}, map[string]interface{}{}
	ops := map[string]spec.Operation{}
	first := nd.Choose("first", 3) * 2
	for i := 0; i < n; i++ {
		mk := func(s string) map[string]interface{} {
			return map[string]interface{}{"get": map[string]interface{}{"summary": s}, "put": map[string]interface{}{}}
		}
		item := mk("s")
		w := mk("s")
		if i >= first && i < first+k {
			ops[name(i)] = spec.Operation{Summary: name(i), Description: "D"}
			w["get"] = map[string]interface{}{"summary": "s", "description": "D"}
			w["put"] = map[string]interface{}{"summary": name(i), "description": "D"}
		}
		paths[name(i)], want[name(i)] = item, w
	}
	nd.MapOrder(nd.Bound(1, 3))
	c, err := container.Make(map[string]interface{}{"paths": paths})
	nd.Assert(err == nil, "make")
	err = oapi.SetPathsDefaults(c, ops)
	nd.MapOrder(0)
	nd.Assert(err == nil, "applying default operations to a valid document fails")
	nd.Assert(nd.Equal(c.Data(), map[string]interface{}{"paths": want}), "defaults did not fill exactly the missing fields of the matching operations")
	nd.Cover("ok")
}
