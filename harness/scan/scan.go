package scan

import (
	"context"
	"encoding/json"
	"errors"
	"sort"
	"strconv"

	oapi "github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"github.com/buypal/oapi-go/internal/zzverif/world"
)

type obj = map[string]interface{}
type list = []interface{}

const (
	goApp = "go://x.io/app#/"
	goA   = "go://x.io/app/a#/"
	goB   = "go://x.io/app/a/b#/"
)

const mainSrc = `package main

import (
	"time"

	"x.io/app/a"
)

type T struct {
	A  a.A       ` + "`json:\"a\"`" + `
	At time.Time ` + "`json:\"at\"`" + `
	L  []T       ` + "`json:\"l\"`" + `
	In struct {
		K string ` + "`json:\"k\" oapi:\"maxlen:3\"`" + `
	} ` + "`json:\"in\"`" + `
	skip int
}

func main() {}
`

const aSrc = `package a

import "x.io/app/a/b"

type A struct {
	B *b.B  ` + "`json:\"b\"`" + `
	N int64 ` + "`json:\"n,omitempty\"`" + `
}
`

const bSrc = `package b

type Color string

type B struct {
	M map[string]Color ` + "`json:\"m\" oapi:\"required:true\"`" + `
}

type U struct {
	W  []W
	In struct {
		K string ` + "`json:\"k\" oapi:\"maxlen:3\"`" + `
	}
}

type V [2]bool

type W bool

type Unused chan int
`

func ref(p string) obj { return obj{"$ref": p} }

func object(props obj) obj { return obj{"type": "object", "properties": props} }

// types is the specification of the program: the schema of every place, with references to other ones.
func types() map[string]obj {
	a := object(obj{
		"b": obj{"oneOf": list{ref(goB + "B"), obj{"type": "object", "nullable": true}}},
		"n": obj{"type": "integer", "format": "int64"},
	})
	b := object(obj{"m": obj{"type": "object", "additionalProperties": obj{"type": "string"}, "nullable": true}})
	b["required"] = list{"m"}
	t := object(obj{
		"a":  ref(goA + "A"),
		"at": obj{"type": "string"},
		"l":  obj{"type": "array", "items": ref(goApp + "T"), "nullable": true},
		"in": ref(goApp + "T/In"),
	})
	return map[string]obj{
		goApp + "T":      t,
		goApp + "T/A":    a,
		goApp + "T/A/N":  obj{"type": "integer", "format": "int64"},
		goApp + "T/At":   obj{"type": "string"},
		goApp + "T/L":    obj{"type": "array", "items": ref(goApp + "T"), "nullable": true},
		goApp + "T/L/[]": t,
		goApp + "T/In":   object(obj{"k": obj{"type": "string", "maxLength": 3.0}}),
		goA + "A":        a,
		goA + "A/B/*":    b,
		goB + "B":        b,
		goB + "B/M/[]":   obj{"type": "string"},
		goB + "Color":    obj{"type": "string"},
		goB + "U":        object(obj{"W": obj{"type": "array", "items": obj{"type": "boolean"}, "nullable": true}, "In": ref(goB + "U/In")}),
		goB + "U/In":     object(obj{"k": obj{"type": "string", "maxLength": 3.0}}),
		goB + "U/W":      obj{"type": "array", "items": obj{"type": "boolean"}, "nullable": true},
		goB + "V":        obj{"type": "array", "items": obj{"type": "boolean"}, "maxItems": 2.0},
		goB + "W":        obj{"type": "boolean"},
	}
}

// expected is the specification of scanning.
type expected struct {
	types    map[string]obj
	exports  map[string]string // pointer to name
	override map[string]obj
	doc      obj
}

func (x *expected) content(p string) (obj, bool) {
	if o, ok := x.override[p]; ok {
		return o, true
	}
	o, ok := x.types[p]
	return o, ok
}

// expand gives a value with all pointers to Go code resolved. fails if one of them points to nothing.
func (x *expected) expand(v interface{}, path []string) (out interface{}, ok bool) {
	switch v := v.(type) {
	case obj:
		p, isRef := v["$ref"].(string)
		if isRef && len(p) > 5 && p[:5] == "go://" {
			if name, ok := x.exports[p]; ok {
				return ref("#/components/schemas/" + name), x.component(p, name)
			}
			for _, q := range path {
				if q == p {
					return obj{}, true
				}
			}
			c, ok := x.content(p)
			if !ok {
				return nil, false
			}
			return x.expand(c, append(append([]string{}, path...), p))
		}
		o := obj{}
		for _, k := range keys(v) {
			o[k], ok = x.expand(v[k], path)
			if !ok {
				return nil, false
			}
		}
		return o, true
	case list:
		l := make(list, len(v))
		for i, e := range v {
			l[i], ok = x.expand(e, path)
			if !ok {
				return nil, false
			}
		}
		return l, true
	}
	return v, true
}

func (x *expected) component(p, name string) bool {
	schemas := section(section(x.doc, "components"), "schemas")
	if _, ok := schemas[name]; ok {
		return true
	}
	schemas[name] = true // being expanded
	c, ok := x.content(p)
	if !ok {
		return false
	}
	e, ok := x.expand(c, []string{p})
	schemas[name] = e
	return ok
}

func keys(o obj) (out []string) {
	for k := range o {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func section(o obj, name string) obj {
	s, ok := o[name].(obj)
	if !ok {
		s = obj{}
		o[name] = s
	}
	return s
}

// document is what a user gets.
func document(o oapi.OAPI) obj {
	b, err := oapi.Format("json", o)
	nd.Assert(err == nil, "result of a scan cannot be formatted")
	var m obj
	nd.Assert(json.Unmarshal(b, &m) == nil, "result of a scan is not JSON")
	return m
}

func render(v interface{}) string {
	b, err := json.Marshal(v)
	nd.Assert(err == nil, "not JSON")
	return string(b)
}

func operation(p string) obj {
	return obj{"get": obj{"x-at": ref(p)}}
}

func opYAML(path, p string) string {
	return "  " + path + ":\n    get:\n      x-at:\n        $ref: '" + p + "'\n"
}

// A program of three packages with eight types and places, where the specification of the main package refers to any of 12 places (or to nothing that exists, in 3 ways), locally or by full pointer, those of the other two packages exist or not
// in each of three formats, and each of three types is exported or not under its own or another name, by a command next to it or from another package, in all map orders forwards and backwards: the document is exactly the union of the
// specifications with every pointer resolved and every exported type that is referred to among the components; a pointer to nothing is an error.
func C24_program() {
	nd.MapOrder(nd.Bound(0, 1))
	title := "<T&\u00e9>"
	x := expected{types: types(), exports: map[string]string{}}
	cmd := map[string]string{}
	export := func(pkg, ptr, local string) {
		switch nd.Choose("export "+local, nd.Bound(3, 4)) {
		case 1:
			cmd[pkg] += "//openapi:schema " + local + "\n\n"
			x.exports[ptr] = local
		case 2:
			cmd[pkg] += "//openapi:schema My" + local + " " + local + "\n\n"
			x.exports[ptr] = "My" + local
		case 3:
			cmd["b"] += "//openapi:schema " + local + "2 " + ptr + "\n\n"
			x.exports[ptr] = local + "2"
		}
	}
	export("main", goApp+"T", "T")
	export("a", goA+"A", "A")
	export("b", goB+"B", "B")

	x.doc = obj{"openapi": "3.0.3", "info": obj{"title": title, "version": "1"}}
	raw := obj{}
	at := nd.OneOf("place", goApp+"T", goApp+"T/A", goApp+"T/A/N", goApp+"T/At", goApp+"T/L", goApp+"T/L/[]", goApp+"T/In", goA+"A", goA+"A/B/*", goB+"B", goB+"B/M/[]", goB+"Color", goApp+"A", goB+"B/X", "go://x.io/app/b#/B")
	said := at
	if nd.Choose("local", 2) == 1 {
		nd.Assume(len(at) > len(goApp) && at[:len(goApp)] == goApp)
		said = "go://#/" + at[len(goApp):]
	}
	mainFiles := map[string]string{"main.go": mainSrc + cmd["main"]}
	aFiles := map[string]string{"a.go": aSrc + cmd["a"]}
	bFiles := map[string]string{"b.go": bSrc + cmd["b"]}
	mainFiles["oapi.json"] = render(obj{"openapi": "3.0.3", "info": obj{"title": title, "version": "1"}, "paths": obj{"/m": operation(said)}})
	raw["/m"] = operation(at)
	others := nd.Choose("others", nd.Bound(2, 4))
	if others&1 == 1 {
		aFiles["oapi.yaml"] = "openapi: 3.0.3\npaths:\n" + opYAML("/a", "go://#/A") + opYAML("/a/{id}", "#/components/schemas/Extra")
		raw["/a"] = operation(goA + "A")
		raw["/a/{id}"] = operation("#/components/schemas/Extra")
	}
	if others > 0 {
		bFiles["oapi.yml"] = "openapi: 3.0.3\npaths:\n" + opYAML("/b", goApp+"T/In") + "components:\n  schemas:\n    Extra:\n      $ref: 'go://#/Color'\n"
		raw["/b"] = operation(goApp + "T/In")
		section(section(x.doc, "components"), "schemas")["Extra"] = obj{"type": "string"}
	}
	world.Install(world.Pkg{Path: "x.io/app", Files: mainFiles}, world.Pkg{Path: "x.io/app/a", Files: aFiles}, world.Pkg{Path: "x.io/app/a/b", Files: bFiles})

	o, err := oapi.Scan(context.Background(), oapi.WithDir(world.Dir("x.io/app")))
	paths, ok := x.expand(raw, nil)
	if !ok {
		nd.Assert(err != nil, "a pointer to nothing is no error")
		nd.Cover("dangling")
		return
	}
	nd.Assert(err == nil, "scan of a correct program fails")
	x.doc["paths"] = paths
	got := document(o)
	nd.Assert(nd.Equal(got, x.doc), "the document is not the union of the specifications with every pointer resolved")
	nd.Observe("doc", render(got))
	nd.Cover("document")
}

func schemaOf(s obj) (out spec.Schema) {
	nd.Assert(json.Unmarshal([]byte(render(s)), &out) == nil, "schema of the harness")
	return
}

// The same program with a specification of one file, scanned with overrides (none, of a type, of a place, of the time type, of an exported type, of a type by others that are referred to elsewhere or not), default operations (none, plain, with a pointer to
// a type that is referred to elsewhere or not, with an exported type or with a pointer to nothing), a root document (none, plain sections, components with a pointer to a type) and an export or not: overrides replace the schema of exactly the
// pointers they name, pointers in options are resolved like all others, defaults and root complete the document.
func C24_options() {
	nd.MapOrder(nd.Bound(0, 1))
	x := expected{types: types(), exports: map[string]string{}, override: map[string]obj{}}
	cmd := ""
	if nd.Choose("export", 2) == 1 {
		cmd = "//openapi:schema X A\n"
		x.exports[goA+"A"] = "X"
	}
	at := nd.OneOf("place", goApp+"T", goA+"A", goApp+"T/At")
	ver := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}}
	op := operation(at)
	raw := obj{"/m/{id}": op, "/other": obj{"get": obj{"summary": "s"}, "summary": "p"}}
	file := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": nd.Copy(raw)}
	x.doc = ver

	var opts []oapi.Option
	over := map[string]spec.Schema{}
	if k := nd.Choose("override", 12); k > 0 {
		p := []string{"", goA + "A", goApp + "T/At", goApp + "T/In", goApp + "T", goApp + "T", goApp + "Nothing", "go://time#/Time", "go://time#/Time", "go://time#/Time", "go://time#/Time", "go://time#/Time"}[k]
		s := []obj{nil, obj{"type": "boolean"}, obj{"type": "string", "format": "date"}, object(obj{"z": ref("#/components/schemas/Z")}), ref(goB + "B"), object(obj{"deep": ref(goApp + "T/A/N"), "x": ref(goA + "A"), "u": ref(goB + "U/W")}), obj{"type": "number"},
			obj{"type": "integer"}, obj{"format": "date"}, ref(goB + "B"), obj{"oneOf": list{obj{"type": "string"}, ref(goA + "A")}}, obj{}}[k]
		over[p] = schemaOf(s)
		x.override[p] = s
		if p == "go://time#/Time" {
			section(x.types[goApp+"T"], "properties")["at"] = s
			x.types[goApp+"T/At"] = s
		}
		opts = append(opts, oapi.WithOverride(over))
	}
	var def interface{}
	if k := nd.Choose("default", 6); k > 0 {
		s := []obj{nil, obj{"type": "string"}, ref(goA + "A"), ref(goB + "U"), ref("#/components/schemas/Z"), ref(goB + "Nothing")}[k]
		rs := obj{"default": obj{"description": "d", "content": obj{"application/json": obj{"schema": s}}}}
		var o spec.Operation
		nd.Assert(json.Unmarshal([]byte(render(obj{"responses": rs})), &o) == nil, "operation of the harness")
		opts = append(opts, oapi.WithDefOps(map[string]spec.Operation{"/m/{x}": o}))
		def = rs
	}
	comps := obj{}
	if k := nd.Choose("root", 4); k > 0 {
		root := obj{"info": obj{"title": "root", "version": "2"}, "servers": list{obj{"url": "http://x.io"}}, "tags": list{obj{"name": "a"}}}
		if k > 1 {
			comps["Z"] = []obj{ref(goB + "V"), ref(goA + "A")}[k-2]
			root["components"] = obj{"schemas": nd.Copy(comps)}
		}
		var o spec.OpenAPI
		nd.Assert(json.Unmarshal([]byte(render(root)), &o) == nil, "root of the harness")
		opts = append(opts, oapi.WithRootSchema(o))
		for _, k := range []string{"info", "servers", "tags"} {
			x.doc[k] = root[k]
		}
	}
	world.Install(
		world.Pkg{Path: "x.io/app", Files: map[string]string{"main.go": mainSrc, "oapi.json": render(file)}},
		world.Pkg{Path: "x.io/app/a", Files: map[string]string{"a.go": aSrc + cmd}},
		world.Pkg{Path: "x.io/app/a/b", Files: map[string]string{"b.go": bSrc}})
	opts = append(opts, oapi.WithDir(world.Dir("x.io/app")))
	o, err := oapi.Scan(context.Background(), opts...)

	get := op["get"].(obj)
	if def != nil {
		get["responses"] = def
	}
	x.doc["paths"] = raw
	ok := true
	if len(comps) > 0 {
		section(section(x.doc, "components"), "schemas")
		for _, k := range keys(comps) {
			e, fine := x.expand(comps[k], nil)
			section(section(x.doc, "components"), "schemas")[k] = e
			ok = ok && fine
		}
	}
	paths, fine := x.expand(raw, nil)
	x.doc["paths"] = paths
	if !ok || !fine {
		nd.Assert(err != nil, "a pointer to nothing is no error")
		nd.Cover("dangling")
		return
	}
	nd.Assert(err == nil, "scan of a correct program fails")
	got := document(o)
	nd.Assert(nd.Equal(got, x.doc), "options do not have their stated effect on the document")
	nd.Observe("doc", render(got))
	nd.Cover("document")
}

// 16 reasons to fail, in the main package, a package it imports or one that is imported by that, in all map orders forwards and backwards: scanning gives an error and no document.
func C24_failures() {
	nd.MapOrder(1)
	pkgs := []world.Pkg{
		{Path: "x.io/app", Files: map[string]string{"main.go": "package main\n\nimport _ \"x.io/app/a\"\n\ntype T struct{ N int }\n\ntype C chan int\n"}},
		{Path: "x.io/app/a", Files: map[string]string{"a.go": "package a\n\nimport _ \"x.io/app/a/b\"\n\ntype T struct{ N int }\n\ntype C chan int\n"}},
		{Path: "x.io/app/a/b", Files: map[string]string{"b.go": "package b\n\ntype T struct{ N int }\n\ntype C chan int\n"}},
	}
	good := obj{"openapi": "3.0.3", "paths": obj{"/good": operation("go://#/T")}}
	pkgs[0].Files["oapi.json"] = render(good)
	n := nd.Choose("package", 3)
	p := pkgs[n]
	src := []string{"main.go", "a.go", "b.go"}[n]
	ctx := context.Background()
	opts := []oapi.Option{oapi.WithDir(world.Dir("x.io/app"))}
	spec1 := func(v obj) {
		if n == 0 {
			delete(p.Files, "oapi.json")
		}
		p.Files["oapi.yml"] = render(v)
	}
	switch nd.Choose("reason", 16) {
	case 0:
		ctx = world.Cancelled()
	case 1:
		opts = append(opts, oapi.WithDir(world.Dir("x.io/app/none")))
	case 2:
		opts = append(opts, func(*oapi.Options) error { return errors.New("no") }, oapi.WithDefOps(nil))
	case 3:
		p.Files[src] += "type X struct { A \n"
	case 4:
		p.Files[src] += "type X struct { A Missing }\n"
	case 5:
		p.Files[src] += "var x int = \"\"\n"
	case 6:
		p.Files[src] += "//openapi:schema\n"
	case 7:
		p.Files[src] += "//openapi:schema T\n//openapi:schema T2 T\n"
	case 8:
		p.Files[src] += "//openapi:schema X T\n//openapi:schema X C\n"
	case 9:
		p.Files["oapi.json"] = "{\"openapi\":"
	case 10:
		p.Files["oapi.yaml"] = "openapi: 3.0.3\npaths: [\n"
	case 11: // contradicts the specification of the main package
		p.Files["oapi.yml"] = "openapi: 3.0.3\npaths:\n  /good:\n    get:\n      x-at: other\n"
	case 12:
		spec1(obj{"openapi": "3.0.3", "paths": obj{"/bad": operation("go://#/C")}})
	case 13:
		spec1(obj{"openapi": "3.0.3", "paths": obj{"/bad": operation(nd.OneOf("unknown", "http://x.io/a#/B", "file:///a#/B", "go://[#/T", "go://x.io/app#/T/N/X", "go://#/"))}})
	case 14:
		spec1(obj{"openapi": "3.0.3", "paths": obj{"/bad": operation("go://#/Missing")}})
	case 15: // the root document states a component again
		spec1(obj{"openapi": "3.0.3", "components": obj{"schemas": obj{"Z": obj{"type": "string"}}}})
		var o spec.OpenAPI
		nd.Assert(json.Unmarshal([]byte("{\"components\":{\"schemas\":{\"Z\":{\"type\":\"number\"}}}}"), &o) == nil, "root of the harness")
		opts = append(opts, oapi.WithRootSchema(o))
	}
	world.Install(pkgs...)
	o, err := oapi.Scan(ctx, opts...)
	nd.Assert(err != nil, "scan succeeds where it cannot")
	nd.Assert(err.Error() != "", "the error does not tell why")
	b, err := oapi.Format("json", o)
	nd.Assert(err != nil || string(b) == "null" || string(b) == "{}", "a scan that fails gives a document")
	nd.Cover("fails")
}

// Names and texts of the program as symbolic text: a type with a field under a tag name, the export name of the type, the name the specification refers to, a path and a description (each 1..2 characters of a small alphabet): the specification gets
// the schema of the type exactly if it names that type, with the names and texts as they are, and is an error otherwise.
func C24_names() {
	nd.MapOrder(0)
	typ := "T" + nd.String("type", 1, nd.Bound(2, 3), "aB_1")
	tag := nd.String("tag", 1, nd.Bound(1, 2), "aB-_$.")
	nd.Assume(tag != "-")
	exp := nd.String("export", 1, nd.Bound(1, 2), "aB._")
	said := "T" + nd.String("said", 1, nd.Bound(2, 3), "aB_1/")
	path := "/" + nd.String("path", 1, nd.Bound(1, 2), "a{}.~")
	text := nd.String("text", 0, nd.Bound(1, 2), "a$#~.:")
	cmd := nd.Choose("command", 3)
	src := "package main\n\ntype " + typ + " struct {\n\tF int `json:\"" + tag + "\"`\n}\n"
	x := expected{types: map[string]obj{goApp + typ: object(obj{tag: obj{"type": "integer", "format": "int32"}}), goApp + typ + "/F": obj{"type": "integer", "format": "int32"}}, exports: map[string]string{}}
	switch cmd {
	case 1:
		src += "//openapi:schema " + typ + "\n"
		x.exports[goApp+typ] = typ
	case 2:
		src += "//openapi:schema " + exp + " " + typ + "\n"
		x.exports[goApp+typ] = exp
	}
	doc := "{\"openapi\":\"3.0.3\",\"info\":{\"title\":\"" + text + "\",\"version\":\"1\"},\"paths\":{\"" + path + "\":{\"get\":{\"description\":\"" + text + "\",\"x-at\":{\"$ref\":\"go://#/" + said + "\"}}}}}"
	world.Install(world.Pkg{Path: "x.io/app", Files: map[string]string{"main.go": src, "oapi.json": doc}})
	o, err := oapi.Scan(context.Background(), oapi.WithDir(world.Dir("x.io/app")))
	x.doc = obj{"openapi": "3.0.3", "info": obj{"title": text, "version": "1"}}
	v, ok := x.expand(obj{path: obj{"get": obj{"description": text, "x-at": ref(goApp + said)}}}, nil)
	if !ok {
		nd.Assert(err != nil, "a pointer to nothing is no error")
		nd.Cover("dangling")
		return
	}
	nd.Assert(err == nil, "scan of a correct program fails")
	x.doc["paths"] = v
	nd.Assert(nd.Equal(document(o), x.doc), "names or texts do not arrive in the document as they are")
	nd.Cover("document")
}

// job is a scan and what it has to give.
type job struct {
	name string
	opts []oapi.Option
	want obj // nothing: an error
}

func jobs() []job {
	info := obj{"title": "t", "version": "1"}
	bad := "package c\n\ntype C struct{ N int }\n"
	world.Install(
		world.Pkg{Path: "x.io/app", Files: map[string]string{"main.go": mainSrc, "oapi.json": render(obj{"openapi": "3.0.3", "info": info, "paths": obj{"/m": operation(goApp + "T"), "/m/{id}": operation(goApp + "T/In")}})}},
		world.Pkg{Path: "x.io/app/a", Files: map[string]string{"a.go": aSrc + "//openapi:schema X A\n", "oapi.json": render(obj{"openapi": "3.0.3", "info": info, "paths": obj{"/a": operation("go://#/A")}})}},
		world.Pkg{Path: "x.io/app/a/b", Files: map[string]string{"b.go": bSrc}},
		world.Pkg{Path: "x.io/app/c", Files: map[string]string{"c.go": bad, "oapi.json": render(obj{"openapi": "3.0.3", "info": info, "paths": obj{"/c": operation("go://#/D")}})}})
	build := func(tp map[string]obj, raw obj, over map[string]obj) obj {
		x := expected{types: tp, exports: map[string]string{goA + "A": "X"}, override: over}
		x.doc = obj{"openapi": "3.0.3", "info": info}
		p, ok := x.expand(raw, nil)
		nd.Assert(ok, "specification of the harness")
		x.doc["paths"] = p
		return x.doc
	}
	app := obj{"/m": operation(goApp + "T"), "/m/{id}": operation(goApp + "T/In"), "/a": operation(goA + "A")}
	def := obj{"default": obj{"description": "d", "content": obj{"application/json": obj{"schema": ref(goB + "U")}}}}
	withDef := nd.Copy(app).(obj)
	withDef["/m/{id}"].(obj)["get"].(obj)["responses"] = def
	var o spec.Operation
	nd.Assert(json.Unmarshal([]byte(render(obj{"responses": def})), &o) == nil, "operation of the harness")
	var root spec.OpenAPI
	nd.Assert(json.Unmarshal([]byte(render(obj{"info": obj{"title": "root", "version": "2"}, "tags": list{obj{"name": "a"}}, "components": obj{"schemas": obj{"V": ref(goB + "V")}}})), &root) == nil, "root of the harness")
	rooted := build(types(), app, nil)
	rooted["info"], rooted["tags"] = obj{"title": "root", "version": "2"}, list{obj{"name": "a"}}
	section(section(rooted, "components"), "schemas")["V"] = types()[goB+"V"]
	date := obj{"type": "string", "format": "date"}
	dated := types()
	section(dated[goApp+"T"], "properties")["at"] = date
	dated[goApp+"T/L/[]"] = dated[goApp+"T"]
	dir := oapi.WithDir(world.Dir("x.io/app"))
	return []job{
		{"program", []oapi.Option{dir}, build(types(), app, nil)},
		{"part", []oapi.Option{oapi.WithDir(world.Dir("x.io/app/a"))}, build(types(), obj{"/a": operation(goA + "A")}, nil)},
		{"overrides", []oapi.Option{dir, oapi.WithOverride(map[string]spec.Schema{"go://time#/Time": schemaOf(date), goApp + "T/In": schemaOf(date)})}, build(dated, app, map[string]obj{goApp + "T/In": date})},
		{"defaults", []oapi.Option{dir, oapi.WithDefOps(map[string]spec.Operation{"/m/{x}": o})}, build(types(), withDef, nil)},
		{"root", []oapi.Option{dir, oapi.WithRootSchema(root)}, rooted},
		{"dangling", []oapi.Option{oapi.WithDir(world.Dir("x.io/app/c"))}, nil},
	}
}

func (j job) check(o oapi.OAPI, err error) {
	if j.want == nil {
		nd.Assert(err != nil, "a pointer to nothing is no error")
		return
	}
	nd.Assert(err == nil, "a scan influences another one")
	nd.Assert(nd.Equal(document(o), j.want), "a scan influences another one")
}

// Three scans one after another, each any of 6 (a program, a part of it, with overrides, default operations or a root document, one with a pointer to nothing), the same options values used again: every one gives the document it has on its own, and so do the formatted
// documents of earlier scans after later ones.
func C24_scan_after_scan() {
	js := jobs()
	a, b := js[nd.Choose("first", len(js))], js[nd.Choose("second", len(js))]
	ctx := context.Background()
	first, err := oapi.Scan(ctx, a.opts...)
	a.check(first, err)
	second, serr := oapi.Scan(ctx, b.opts...)
	b.check(second, serr)
	third, terr := oapi.Scan(ctx, a.opts...)
	a.check(third, terr)
	a.check(first, err)
	b.check(second, serr)
	nd.Cover("ok")
}

// Two scans at the same time, each any of these 6, one after the other (quick), or the second one with overrides and in all schedules with at most 1 preemption at synchronisation operations (thorough): both give the document they have on their own, and no two accesses race.
func C24_scans_at_the_same_time() {
	nd.Schedules(nd.Bound(0, 1))
	js := jobs()
	a, b := js[nd.Choose("first", len(js))], js[2]
	if nd.Bound(0, 1) == 0 {
		b = js[nd.Choose("second", len(js))]
	}
	ctx := context.Background()
	var o, p oapi.OAPI
	var oerr, perr error
	nd.Parallel(func() { o, oerr = oapi.Scan(ctx, a.opts...) }, func() { p, perr = oapi.Scan(ctx, b.opts...) })
	a.check(o, oerr)
	b.check(p, perr)
	nd.Cover("ok")
}

// A program which imports a package of another module, which lies in the vendor directory and imports a package next to it: each of the three states a part of the specification (with a reference to a type of its own, or of the next one) or not, and the type
// of the last one is exported or not by any of the three: what the other module states counts like everything else.
func C24_other_modules() {
	nd.MapOrder(nd.Bound(0, 1))
	const app, dep, sub = "x.io/app", "y.io/dep", "y.io/dep/sub"
	files := map[string]map[string]string{
		app: {"main.go": "package main\n\nimport \"y.io/dep\"\n\ntype T struct {\n\tD dep.D `json:\"d\"`\n}\n"},
		dep: {"d.go": "package dep\n\nimport \"y.io/dep/sub\"\n\ntype D struct {\n\tS sub.S `json:\"s\"`\n}\n"},
		sub: {"s.go": "package sub\n\ntype S struct {\n\tB bool `json:\"b\"`\n}\n"},
	}
	s := object(obj{"b": obj{"type": "boolean"}})
	d := object(obj{"s": ref("go://y.io/dep/sub#/S")})
	x := expected{types: map[string]obj{"go://x.io/app#/T": object(obj{"d": ref("go://y.io/dep#/D")}), "go://y.io/dep#/D": d, "go://y.io/dep/sub#/S": s}, exports: map[string]string{}}
	x.doc = obj{}
	raw := obj{}
	src := map[string]string{app: "main.go", dep: "d.go", sub: "s.go"}
	own := map[string]string{app: "T", dep: "D", sub: "S"}
	next := map[string]string{app: "go://y.io/dep#/D", dep: "go://y.io/dep/sub#/S", sub: "go://x.io/app#/T"}
	for _, p := range []string{app, dep, sub} {
		k := nd.Choose(p, 3)
		if k == 0 {
			continue
		}
		said, at := "go://#/"+own[p], "go://"+p+"#/"+own[p]
		if k == 2 {
			said, at = next[p], next[p]
		}
		files[p]["oapi.json"] = render(obj{"openapi": "3.0.3", "paths": obj{"/" + p: operation(said)}})
		raw["/"+p] = operation(at)
		x.doc["openapi"] = "3.0.3"
	}
	if k := nd.Choose("export", 4); k > 0 {
		p := []string{app, dep, sub}[k-1]
		files[p][src[p]] += "\n//openapi:schema X go://y.io/dep/sub#/S\n"
		x.exports["go://y.io/dep/sub#/S"] = "X"
	}
	world.Install(world.Pkg{Path: app, Files: files[app]}, world.Pkg{Path: dep, Files: files[dep]}, world.Pkg{Path: sub, Files: files[sub]})
	o, err := oapi.Scan(context.Background(), oapi.WithDir(world.Dir(app)))
	nd.Assert(err == nil, "scan of a correct program fails")
	if len(raw) > 0 {
		v, ok := x.expand(raw, nil)
		nd.Assert(ok, "pointers of the harness")
		x.doc["paths"] = v
	}
	nd.Assert(nd.Equal(document(o), x.doc), "the document is not the union of the specifications with every pointer resolved")
	nd.Observe("doc", render(document(o)))
	nd.Cover("document")
}

// Types with parameters, and other names for types, as fields of a struct: two instances of a type with one parameter (of any of 5 types, equal or not), one of them within the other or by pointer, slice or value, an alias of a struct, a basic type
// or an instance, and (thorough) an embedded instance or alias; a pointer to the struct, to one of its fields or to the alias, or to the type without arguments, a function or one with parameters, which have no schema: every place has the schema of its own type.
func C15_instances_and_aliases() {
	nd.MapOrder(0)
	args := []string{"int64", "string", "bool", "S", "*S"}
	str := obj{"type": "string"}
	in := object(obj{"s": str})
	argS := []obj{{"type": "integer", "format": "int64"}, str, {"type": "boolean"}, in, {"oneOf": list{in, obj{"type": "object", "nullable": true}}}}
	a, b := nd.Choose("first", nd.Bound(3, 5)), nd.Choose("second", 5)
	ga, gb := object(obj{"v": argS[a]}), object(obj{"v": argS[b]})
	tb, sb := "G["+args[b]+"]", gb
	switch nd.Choose("layer", 4) {
	case 1:
		tb, sb = "*"+tb, obj{"oneOf": list{gb, obj{"type": "object", "nullable": true}}}
	case 2:
		tb, sb = "[]"+tb, obj{"type": "array", "items": gb, "nullable": true}
	case 3:
		tb, sb = "G["+tb+"]", object(obj{"v": gb})
	}
	k := nd.Choose("alias", 4)
	tc := []string{"S", "string", "G[" + args[a] + "]", "AS"}[k]
	sc := []obj{in, str, ga, in}[k]
	props := obj{"a": ga, "b": sb, "c": sc}
	emb := ""
	switch nd.Choose("embedded", nd.Bound(1, 3)) {
	case 1:
		emb = "\tAS\n"
		props["s"] = str
	case 2:
		emb = "\tG[" + args[a] + "]\n"
		props["v"] = argS[a]
	}
	if nd.Bound(0, 1) == 0 {
		emb = "\tAS\n"
		props["s"] = str
	}
	src := "package main\n\ntype G[P any] struct {\n\tV P `json:\"v\"`\n}\n\ntype S struct {\n\tStr string `json:\"s\"`\n}\n\ntype AS = S\n\ntype AC = " + tc + "\n\ntype T struct {\n\tA G[" + args[a] + "] `json:\"a\"`\n\tB " + tb + " `json:\"b\"`\n\tC AC `json:\"c\"`\n" + emb + "}\n\nfunc F(a int) {}\n\nfunc GF[P any](a P) {}\n"
	at := nd.Choose("at", 8)
	nd.Assume(at < 5 || a == 0 && b == 0) // nothing but its name matters
	frag := []string{"T", "T/A", "T/B", "T/C", "AC", "G", "F", "GF"}[at]
	doc := "{\"openapi\":\"3.0.3\",\"paths\":{\"/p\":{\"get\":{\"x-at\":{\"$ref\":\"go://#/" + frag + "\"}}}}}"
	world.Install(world.Pkg{Path: "x.io/app", Files: map[string]string{"main.go": src, "oapi.json": doc}})
	o, err := oapi.Scan(context.Background(), oapi.WithDir(world.Dir("x.io/app")))
	if at > 4 {
		nd.Assert(err != nil, "something without schema is no error")
		nd.Cover("no schema")
		return
	}
	nd.Assert(err == nil, "scan of a correct program fails")
	want := []interface{}{object(props), ga, sb, sc, sc}[at]
	got := document(o)["paths"].(obj)["/p"].(obj)["get"].(obj)["x-at"]
	nd.Observe("schema", render(got))
	nd.Assert(nd.Equal(got, want), "a field does not have the schema of its type")
	nd.Cover("ok")
}

// A program of 2, 5, 8 or 11 packages (thorough: also 20), the main one importing all or each importing the next one, where each has a type with 9, 3, 2 or 1 fields, exported or not by itself, or all of them by the main package, and a specification that refers to
// its own type, to the one of the next package and to a field; none or all of the types are overridden: the document is the union of all of them with every pointer resolved.
func C24_large_program() {
	nd.MapOrder(nd.Bound(0, 1))
	size := nd.Choose("size", nd.Bound(4, 5))
	n := []int{2, 5, 8, 11, 20}[size]
	fields := []int{9, 3, 2, 1, 1}[size]
	chained := nd.Choose("chain", 2) == 1
	exports := nd.Choose("exports", 4)
	x := expected{types: map[string]obj{}, exports: map[string]string{}}
	x.doc = obj{"openapi": "3.0.3"}
	raw := obj{}
	path := func(i int) string {
		if i == 0 {
			return "x.io/app"
		}
		return "x.io/app/p" + strconv.Itoa(i)
	}
	name := func(i int) string { return "T" + strconv.Itoa(i) }
	ptr := func(i int) string { return "go://" + path(i) + "#/" + name(i) }
	var cmds string
	src := make([]string, n)
	for i := 0; i < n; i++ {
		props := obj{}
		t := "type " + name(i) + " struct {\n"
		for k := 0; k < fields; k++ {
			f := "F" + strconv.Itoa(k)
			t += "\t" + f + " string\n"
			props[f] = obj{"type": "string"}
			x.types[ptr(i)+"/"+f] = props[f].(obj)
		}
		src[i] = t + "}\n\n"
		x.types[ptr(i)] = object(props)
		if exports == 1 || exports == 2 && i%2 == 1 {
			src[i] += "//openapi:schema " + name(i) + "\n\n"
		}
		if exports == 3 {
			cmds += "//openapi:schema " + name(i) + " " + ptr(i) + "\n\n"
		}
		if exports == 1 || exports == 2 && i%2 == 1 || exports == 3 {
			x.exports[ptr(i)] = name(i)
		}
	}
	var pkgs []world.Pkg
	for i := 0; i < n; i++ {
		imports := ""
		for k := 1; k < n; k++ {
			if i == 0 && !chained || chained && k == i+1 {
				imports += "\t_ \"" + path(k) + "\"\n"
			}
		}
		head := "package p" + strconv.Itoa(i) + "\n\n"
		if imports != "" {
			head += "import (\n" + imports + ")\n\n"
		}
		if i == 0 {
			src[0] += cmds
		}
		next := (i + 1) % n
		item := obj{"get": obj{"x-own": ref("go://#/" + name(i)), "x-next": ref(ptr(next)), "x-field": ref(ptr(i) + "/F" + strconv.Itoa(fields-1))}}
		raw["/"+name(i)] = obj{"get": obj{"x-own": ref(ptr(i)), "x-next": ref(ptr(next)), "x-field": ref(ptr(i) + "/F" + strconv.Itoa(fields-1))}}
		own := obj{"paths": obj{"/" + name(i): item}, "openapi": "3.0.3"}
		pkgs = append(pkgs, world.Pkg{Path: path(i), Files: map[string]string{"p.go": head + src[i], "oapi.json": render(own)}})
	}
	world.Install(pkgs...)
	opts := []oapi.Option{oapi.WithDir(world.Dir("x.io/app"))}
	if nd.Choose("overrides", 2) == 1 {
		x.override = map[string]obj{}
		over := map[string]spec.Schema{}
		for i := 0; i < n; i++ {
			x.override[ptr(i)] = obj{"type": "string", "format": name(i)}
			over[ptr(i)] = schemaOf(x.override[ptr(i)])
		}
		opts = append(opts, oapi.WithOverride(over))
	}
	o, err := oapi.Scan(context.Background(), opts...)
	nd.Assert(err == nil, "scan of a correct program fails")
	paths, ok := x.expand(raw, nil)
	nd.Assert(ok, "harness")
	x.doc["paths"] = paths
	got := document(o)
	delete(got, "info")
	nd.Assert(nd.Equal(got, x.doc), "the document is not the union of the specifications with every pointer resolved")
	nd.Cover("document")
}
