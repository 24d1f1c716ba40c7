package specs

import (
	"os"
	"path/filepath"
	"strconv"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/scan/specs"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"golang.org/x/tools/go/packages"
)

type obj = map[string]interface{}
type arr = []interface{}

const module = "x.io/m"

// pkg is a package of the module which lives in the directory of the harness.
func pkg(path string) *packages.Package {
	return &packages.Package{PkgPath: path, Module: &packages.Module{Path: module, Dir: filepath.Join(nd.TempDir(), "m")}}
}

func dir(path string) string { return filepath.Join(nd.TempDir(), "m", path[len(module):]) }

func put(path, file string, v interface{}) {
	c, err := container.Make(v)
	nd.Assert(err == nil, "make")
	b := c.Bytes()
	if ext := filepath.Ext(file); (ext == ".yaml" || ext == ".yml") && nd.Choose("syntax", 2) == 1 {
		b, err = container.NewSortMarshaller(c, container.SortMapMarhsaler(nil)).MarshalYAML()
		nd.Assert(err == nil, "yaml")
	}
	nd.WriteFile(filepath.Join(dir(path), file), string(b))
}

func merged(s *specs.Scanner) (interface{}, error) {
	c, err := s.Containers.Sort().Merge(container.MergeSame)
	if err != nil {
		return nil, err
	}
	return nd.Copy(c.Data()), nil
}

// A file under one of 10 names in the directory of the package, above it, or below it, as JSON or YAML, which states a version of OpenAPI or not, with a symbolic name (1..2 ASCII characters) and value: its content is
// the specification when its name is oapi.yaml, oapi.yml or oapi.json, it lies in the directory of the package and states the version, all other files do not count.
func C18_specification_files() {
	path := module + nd.OneOf("pkg", "", "/a", "/a/m", "/"+module)
	name := nd.OneOf("file", "oapi.yaml", "oapi.yml", "oapi.json", "openapi.yaml", "oapi.yaml.json", "xoapi.yaml", "oapi.yamlx", "oapi.jsn", "oapi", "oapiyaml")
	where := nd.Choose("where", 3)
	key := nd.String("key", 1, nd.Bound(1, 2), "a./~$")
	nd.Assume(key != "openapi" && key != "$ref")
	doc := obj{"paths": obj{"/" + key: obj{"get": nd.String("value", 0, 1, "a\"")}}}
	stated := nd.Choose("stated", 2) == 1
	if stated {
		doc["openapi"] = []interface{}{"3.0.0", "", 3.1}[nd.Choose("version", 3)]
	}
	in := path
	switch where {
	case 1:
		in = path + "/sub"
	case 2:
		nd.Assume(path != module)
		in = filepath.Dir(path)
	}
	put(in, name, doc)
	s := specs.NewScanner()
	nd.Assert(s.Scan(pkg(path)) == nil, "scan fails")
	got, err := merged(s)
	nd.Assert(err == nil, "merge fails")
	want := obj{}
	if known := name == "oapi.yaml" || name == "oapi.yml" || name == "oapi.json"; known && stated && where == 0 {
		want = nd.Copy(doc).(obj)
		nd.Cover("specification")
	} else {
		nd.Cover("other file")
	}
	nd.Assert(nd.Equal(got, want), "the specification is not what the files of the package state")
	nd.Assert(len(s.Pointers) == 0, "pointers out of nothing")
}

// ref is a reference; want is empty for anything but pointers to Go code, normal is the normal form of text if it is another one.
type ref struct{ text, want, normal string }

// reference is a reference as it may stand in a specification of the package.
func reference(label, path string, n int) ref {
	frag := "T"
	if n > 0 {
		frag = nd.String(label+".fragment", 1, n, "Ta_/~.")
	}
	nd.Assume(!tilde(frag) && !dot(frag) && frag[len(frag)-1] != '/')
	switch nd.Choose(label, 8) {
	case 0:
		return ref{text: "go://#/" + frag, want: "go://" + path + "#/" + frag}
	case 1:
		return ref{text: "go://x.io/q#/" + frag, want: "go://x.io/q#/" + frag}
	case 2:
		return ref{text: "#/components/schemas/" + frag}
	case 3:
		return ref{text: "other.yaml#/" + frag}
	case 4:
		return ref{text: "https://x.io/a/b.json#/" + frag}
	case 5:
		return ref{text: "other.yaml", normal: "other.yaml#"}
	case 6:
		return ref{text: "#/paths/~1a~1%7Bid%7D", normal: "#/paths/~1a~1{id}"}
	}
	return ref{text: "go://" + path + "#/" + frag, want: "go://" + path + "#/" + frag}
}

func norm(r ref, text string) string {
	if r.normal != "" {
		return r.normal
	}
	return text
}

// tilde reports if s has a '~' that is not an escape of a pointer (it never is one as there are no digits).
func tilde(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '~' {
			return true
		}
	}
	return false
}

func dot(s string) bool { return s[0] == '.' }

// Two references, the first (thorough: both) with a symbolic fragment (1..2 / 1..3 characters), at three places below one of 7 keys of the specification: below maps, in arrays, below keys with dots, slashes and tildes, next to other content. Pointers to Go code of the own or another package
// become pointers with the full package and are listed to be read, everything else stays as it is.
func C18_references() {
	path := module + "/a"
	a := reference("first", path, nd.Bound(2, 3))
	b := reference("second", path, nd.Bound(0, 1))
	key := nd.OneOf("key", "k", "a.b", "a~1b", "~0.~", "/x/{y}", "$ref", "0")
	build := func(a, b string) obj {
		return obj{"openapi": "3.0.0",
			key:        obj{"$ref": a, "x": arr{nil, obj{"schema": obj{"$ref": b}}, arr{obj{"$ref": a}}}},
			"$refs":    a,
			"examples": obj{"ref": b, "$ref": nil, "n": 1.5},
		}
	}
	put(path, "oapi.yaml", build(a.text, b.text))
	nd.MapOrder(1)
	s := specs.NewScanner()
	nd.Assert(s.Scan(pkg(path)) == nil, "scan fails")
	got, err := merged(s)
	nd.Assert(err == nil, "merge fails")
	full := func(r ref) string {
		if r.want != "" {
			return r.want
		}
		return r.text
	}
	want := build(full(a), full(b))
	want["$refs"] = a.text
	want["examples"].(obj)["ref"] = b.text
	if normal := build(norm(a, full(a)), norm(b, full(b))); a.normal != "" || b.normal != "" {
		normal["$refs"] = a.text
		normal["examples"].(obj)["ref"] = b.text
		if nd.Equal(got, normal) {
			nd.AssertKnown(false, "a reference to another place than Go code is rewritten (spec-reference-text)", "spec-reference-text")
			nd.Cover("normal form")
			return
		}
	}
	nd.Assert(nd.Equal(got, want), "references of the specification do not refer to what its file states")
	for _, r := range []ref{a, b} {
		if r.want != "" {
			p, ok := s.Pointers[r.want]
			nd.Assert(ok && p.String() == r.want, "a pointer to Go code is not among the types to be read")
			nd.Cover("pointer")
		}
	}
	for k, p := range s.Pointers {
		nd.Assert(k == p.String(), "a pointer is listed under another text than its own")
		nd.Assert(k == full(a) || k == full(b), "a pointer out of nothing")
	}
	nd.Cover("ok")
}

// A file that cannot be read as what its name says (12 texts: bad YAML, keys of YAML which are the same in JSON, values JSON does not have), or one of 6 references that cannot be read, at one of 3 places, alone or next to a valid file: it is an error.
func C18_unreadable_specifications() {
	path := module + "/a"
	if nd.Choose("also", 2) == 1 {
		put(path, "oapi.json", obj{"openapi": "3.0.0"})
	}
	if nd.Choose("what", 2) == 0 {
		f := filepath.Join(dir(path), nd.OneOf("file", "oapi.yaml", "oapi.yml"))
		nd.WriteFile(f, nd.OneOf("text", "a: [", "{", "a:\n\t- b", "openapi: 3\n b: c\n", "a: b: c", "\"", "openapi: *x", "openapi: 3.0.0\nx-a: {200: a, \"200\": b}", "openapi: 3.0.0\nx-a: [{n: {true: a, \"true\": b}}]", "openapi: 3.0.0\nx-a: .inf", "openapi: 3.0.0\nx-a: {b: [1, {c: .nan}]}", "openapi: 3.0.0\ncomponents: {schemas: {X: {maximum: -.Inf}}}"))
	} else {
		bad := nd.OneOf("ref", "go://#T", "go://[#/T", "%zz#/T", "go://x.io/%#/T", "://#", "#T")
		r := obj{"$ref": bad}
		doc := obj{"openapi": "3.0.0"}
		switch nd.Choose("place", 3) {
		case 0:
			doc["paths"] = obj{"/a": r}
		case 1:
			doc["tags"] = arr{1.0, r}
		case 2:
			doc["paths"] = obj{"a.b": obj{"$ref": "go://#/T"}, "c": arr{r}}
		}
		put(path, "oapi.yml", doc)
	}
	s := specs.NewScanner()
	nd.Assert(s.Scan(pkg(path)) != nil, "an unreadable specification is no error")
	nd.Cover("ok")
}

// piece is a part of a specification.
func piece(label string) obj {
	switch nd.Choose(label, 8) {
	case 0:
		return obj{"openapi": "3.0.1"}
	case 1:
		return obj{"openapi": "3.0.0", "info": obj{"title": nd.String(label+".t", 0, 1, "ab")}}
	case 2:
		return obj{"openapi": "3.0.0", "paths": obj{"/a": obj{"get": obj{"operationId": "x"}}}}
	case 3:
		return obj{"openapi": "3.0.0", "paths": obj{"/a": obj{"get": obj{"operationId": nd.String(label+".i", 1, 1, "xy")}, "put": obj{}}}}
	case 4:
		return obj{"openapi": "3.0.0", "paths": obj{"/a": obj{"put": obj{"n": nil}}}, "tags": arr{"a", obj{"b": 1.0}}}
	case 5:
		return obj{"openapi": "3.0.0", "tags": arr{"a", obj{"b": float64(nd.Choose(label+".b", 2))}}}
	case 6:
		return obj{"openapi": "3.0.0", "paths": nil}
	}
	return obj{"openapi": "3.0.0", "paths": obj{"/a": []interface{}{nil, 1.0, "get"}[nd.Choose(label+".s", 3)]}}
}

// union is both objects in one, ok unless they state something differently.
func union(a, b obj) (obj, bool) {
	out := nd.Copy(a).(obj)
	for k, v := range b {
		w, ok := out[k]
		if !ok {
			out[k] = v
			continue
		}
		x, ok1 := w.(obj)
		y, ok2 := v.(obj)
		if ok1 && ok2 {
			u, ok := union(x, y)
			if !ok {
				return nil, false
			}
			out[k] = u
			continue
		}
		if !nd.Equal(v, w) {
			return nil, false
		}
	}
	return out, true
}

// Two packages with a part of the specification out of 8 kinds each (symbolic texts), and a second file in the first package (thorough: of any kind), visited in any order: the result is their union, or an error exactly when they state something differently.
func C18_union_of_all_packages() {
	docs := []obj{piece("a"), piece("b")}
	put(module+"/a", "oapi.json", docs[0])
	put(module+"/b", "oapi.json", docs[1])
	k := nd.Choose("third", nd.Bound(3, 4))
	switch k {
	case 1:
		docs = append(docs, obj{"openapi": "3.0.0", "info": obj{"title": "a"}, "paths": obj{"/b": obj{}}})
	case 2:
		docs = append(docs, obj{"openapi": "3.0.0", "paths": obj{"/a": obj{"put": obj{"n": false}}}})
	case 3:
		docs = append(docs, piece("c"))
	}
	if k > 0 {
		put(module+"/a", "oapi.yml", docs[2])
	}
	want, ok := obj{}, true
	for _, d := range docs {
		if ok {
			want, ok = union(want, d)
		}
	}
	paths := []string{module + "/a", module + "/b"}
	if nd.Choose("order", 2) == 1 {
		paths[0], paths[1] = paths[1], paths[0]
	}
	nd.MapOrder(1)
	s := specs.NewScanner()
	for _, p := range paths {
		nd.Assert(s.Scan(pkg(p)) == nil, "scan fails")
	}
	got, err := merged(s)
	if !ok {
		nd.Assert(err != nil, "two specifications which contradict each other are no error")
		nd.Cover("conflict")
		return
	}
	nd.Assert(err == nil, "specifications which do not contradict each other cannot be merged")
	nd.Assert(nd.Equal(got, want), "the specification is not the union of those of all packages")
	again, err := merged(s)
	nd.Assert(err == nil && nd.Equal(again, want), "merging again gives another specification")
	nd.Cover("ok")
}

// A package without module below one of two directories of GOPATH or none, a package whose module has no directory, either with Go files elsewhere (as in a vendor directory) or without: found where the package is, an error otherwise.
func C18_directories_of_packages() {
	first, second := filepath.Join(nd.TempDir(), "g1"), filepath.Join(nd.TempDir(), "g2")
	os.Setenv("GOPATH", first+string(os.PathListSeparator)+second)
	p := &packages.Package{PkgPath: "y.io/p"}
	at := nd.Choose("at", 7)
	switch at {
	case 0:
		nd.WriteFile(filepath.Join(first, "src", "y.io/p", "oapi.json"), `{"openapi":"1"}`)
	case 1:
		nd.WriteFile(filepath.Join(second, "src", "y.io/p", "oapi.json"), `{"openapi":"1"}`)
	case 2:
		nd.WriteFile(filepath.Join(second, "y.io/p", "oapi.json"), `{"openapi":"1"}`)
	case 3:
		p.Module = &packages.Module{Path: "y.io"}
		nd.WriteFile(filepath.Join(second, "src", "y.io/p", "oapi.json"), `{"openapi":"1"}`)
	case 4:
		p.Module = &packages.Module{Path: "y.io"}
		fallthrough
	case 5:
		p.GoFiles = []string{filepath.Join(nd.TempDir(), "m/vendor/y.io/p", "a.go"), filepath.Join(nd.TempDir(), "m/vendor/y.io/p", "b.go")}
		nd.WriteFile(filepath.Join(nd.TempDir(), "m/vendor/y.io/p", "oapi.json"), `{"openapi":"1"}`)
	case 6:
		// replaced by directory, as it is or by another module
		d := filepath.Join(nd.TempDir(), "elsewhere")
		p.Module = &packages.Module{Path: "y.io", Dir: d, Replace: &packages.Module{Path: nd.OneOf("replacement", "./elsewhere", "z.io/fork"), Dir: d}}
		p.GoFiles = []string{filepath.Join(d, "p", "a.go")}
		nd.WriteFile(filepath.Join(d, "p", "oapi.json"), `{"openapi":"1"}`)
	}
	s := specs.NewScanner()
	err := s.Scan(p)
	if at == 2 || at == 3 {
		nd.Assert(err != nil, "a package without directory is no error")
		nd.Cover("error")
		return
	}
	nd.Assert(err == nil, "a package which has a directory is not found")
	got, err := merged(s)
	nd.Assert(err == nil && nd.Equal(got, obj{"openapi": "1"}), "the specification of a package is not read")
	nd.Cover("found")
}

// The module lies in a directory with one of 12 unusual names: the specifications of its packages are read from there.
func C18_names_of_directories() {
	name := nd.OneOf("name", "[ab]", "a*", "?", "a[b", `a\b`, "a b", "\xc3\xa4", "{a}", "~a", "%61", "a.yaml", "$a")
	path := nd.OneOf("path", module, module+"/p")
	for i, n := range []string{name, "a", "b", "ab"} {
		nd.WriteFile(filepath.Join(nd.TempDir(), n, path[len(module):], "oapi.json"), `{"openapi":"`+string(rune('0'+i))+`"}`)
	}
	s := specs.NewScanner()
	err := s.Scan(&packages.Package{PkgPath: path, Module: &packages.Module{Path: module, Dir: filepath.Join(nd.TempDir(), name)}})
	nd.Assert(err == nil, "a package which has a directory is not found")
	got, err := merged(s)
	nd.Assert(err == nil && nd.Equal(got, obj{"openapi": "0"}), "the specification of a package is not read")
	nd.Cover("ok")
}

// All three files a package may have, each missing, without version, stating a version, or unreadable in three ways (stated version and a malformed reference, no version and a malformed reference, not what its name says): the specification is
// the union of those that state a version, and an error comes exactly when one of these cannot be read.
func C18_files_of_one_package() {
	path := module + "/a"
	want, fails := obj{}, false
	for i, name := range []string{"oapi.json", "oapi.yaml", "oapi.yml"} {
		own := obj{"/" + name: obj{"get": obj{"operationId": name}}}
		doc := obj{"paths": own}
		switch nd.Choose(name, 6) {
		case 0:
			continue
		case 1:
		case 2:
			doc["openapi"] = "3.0.0"
			want, _ = union(want, doc)
		case 3:
			doc["openapi"] = "3.0.0"
			own["/x"] = obj{"$ref": "go://[#/T"}
			fails = true
		case 4:
			own["/x"] = obj{"$ref": "go://[#/T"} // not a specification
		case 5:
			nd.WriteFile(filepath.Join(dir(path), name), "{\"openapi\": [")
			fails = true
			continue
		}
		if i == 0 {
			nd.WriteFile(filepath.Join(dir(path), name), "\n "+string(bytes(doc)))
		} else {
			put(path, name, doc)
		}
	}
	s := specs.NewScanner()
	err := s.Scan(pkg(path))
	nd.Assert((err != nil) == fails, "an unreadable specification is no error, or other files make reading fail")
	if fails {
		nd.Cover("error")
		return
	}
	got, err := merged(s)
	nd.Assert(err == nil, "merge fails")
	nd.Assert(nd.Equal(got, want), "the specification is not the union of the files that state a version")
	nd.Assert(len(s.Pointers) == 0, "pointers out of nothing")
	nd.Cover("ok")
}

func bytes(v interface{}) []byte {
	c, err := container.Make(v)
	nd.Assert(err == nil, "make")
	return c.Bytes()
}

// The specification, the directory of the package, or that of the module is a symbolic link (relative, absolute, a link to a link, or one that leads nowhere): what it leads to is read, or it is an error if a specification cannot be read.
func C18_links() {
	path := nd.OneOf("path", module, module+"/p")
	at := filepath.Join(nd.TempDir(), "m", path[len(module):])
	els := filepath.Join(nd.TempDir(), "else")
	name := nd.OneOf("name", "oapi.yaml", "oapi.json")
	text := `{"openapi":"` + nd.String("version", 1, 1, "") + `"}`
	for i := 0; i < len(text); i++ {
		nd.Assume(text[i] >= ' ' && text[i] < 0x7f && text[i] != '\\')
	}
	nd.Assume(text[12] != '"')
	lead := func(target, rel, link string) {
		switch nd.Choose("link", 3) {
		case 0:
			nd.Symlink(target, link)
		case 1:
			nd.Symlink(rel, link)
		case 2:
			nd.Symlink(target, filepath.Join(nd.TempDir(), "l"))
			nd.Symlink(filepath.Join(nd.TempDir(), "l"), link)
		}
	}
	nowhere := nd.Choose("nowhere", 2) == 1
	up := ".."
	if path != module {
		up = "../.."
	}
	switch nd.Choose("what", 3) {
	case 0:
		if !nowhere {
			nd.WriteFile(filepath.Join(els, "x"), text)
		}
		lead(filepath.Join(els, "x"), up+"/else/x", filepath.Join(at, name))
	case 1:
		nd.Assume(path != module)
		if !nowhere {
			nd.WriteFile(filepath.Join(els, name), text)
		}
		lead(els, "../else", at)
	case 2:
		if !nowhere {
			nd.WriteFile(filepath.Join(els, path[len(module):], name), text)
		}
		lead(els, "./else", filepath.Join(nd.TempDir(), "m"))
	}
	s := specs.NewScanner()
	err := s.Scan(pkg(path))
	if nowhere {
		nd.Assert(err != nil || len(s.Containers) == 0, "a specification comes from nowhere")
		nd.Cover("nowhere")
		return
	}
	nd.Assert(err == nil, "a specification is not read")
	got, err := merged(s)
	nd.Assert(err == nil && nd.Equal(got, obj{"openapi": text[12:13]}), "the specification of a package is not read")
	nd.Cover("ok")
}

// YAML in 14 forms (keys which are numbers, booleans or dates, objects in arrays of arrays and below such keys, anchors, merge keys, flow and block style, several kinds of text, several ways to write numbers and null), below an object, an array and an array of arrays: the specification states the same as the JSON that means.
func C18_forms_of_yaml() {
	forms := []struct {
		yaml string
		want interface{}
	}{
		{`{200: {a: 1}}`, obj{"200": obj{"a": 1.0}}},
		{`{true: {a: [x]}, 1.5: {b: {2: c}}}`, obj{"true": obj{"a": arr{"x"}}, "1.5": obj{"b": obj{"2": "c"}}}},
		{`[[{a: 1}, [{b: {1: 2}}]]]`, arr{arr{obj{"a": 1.0}, arr{obj{"b": obj{"1": 2.0}}}}}},
		{`{k: &x {a: {b: c}}, l: *x}`, obj{"k": obj{"a": obj{"b": "c"}}, "l": obj{"a": obj{"b": "c"}}}},
		{`{k: &x {a: 1, b: 2}, l: {<<: *x, b: 3}}`, obj{"k": obj{"a": 1.0, "b": 2.0}, "l": obj{"a": 1.0, "b": 3.0}}},
		{`[1, -1, 0x10, 0o7, 1e3, 1.5, 12345678]`, arr{1.0, -1.0, 16.0, 7.0, 1000.0, 1.5, 12345678.0}},
		{`[null, ~, "null", "~", ""]`, arr{nil, nil, "null", "~", ""}},
		{`[yes, no, "yes", 'no', true, "true", on]`, arr{true, false, "yes", "no", true, "true", true}},
		{`["3.0", '3.0', "\t\u00e9", 'a''b', a b]`, arr{"3.0", "3.0", "\té", "a'b", "a b"}},
		{`{a: {}, b: [], c: "", d: }`, obj{"a": obj{}, "b": arr{}, "c": "", "d": nil}},
		{`{"a b": 1, 'c.d': 2, e~f: 3, "/g/{h}": 4}`, obj{"a b": 1.0, "c.d": 2.0, "e~f": 3.0, "/g/{h}": 4.0}},
		{`{? a : 1, b: !!str 2}`, obj{"a": 1.0, "b": "2"}},
		{"|\n    text\n    # no comment\n", "text\n# no comment\n"},
		{">-\n    some\n    text\n", "some text"},
	}
	x := forms[nd.Choose("form", len(forms))]
	path := module + "/a"
	text, want := "x-k: "+x.yaml, x.want
	switch nd.Choose("place", 3) {
	case 1:
		text, want = "x-k:\n- "+x.yaml, arr{x.want}
	case 2:
		text, want = "x-k:\n  q:\n  - 3:\n    - "+x.yaml, obj{"q": arr{obj{"3": arr{x.want}}}}
		nd.Assume(x.yaml[0] != '|' && x.yaml[0] != '>')
	}
	nd.WriteFile(filepath.Join(dir(path), nd.OneOf("file", "oapi.yaml", "oapi.yml")), "# comment\nopenapi: 3.0.0\n"+text+"\n")
	s := specs.NewScanner()
	nd.Assert(s.Scan(pkg(path)) == nil, "scan fails")
	got, err := merged(s)
	nd.Assert(err == nil, "merge fails")
	nd.Assert(nd.Equal(got, obj{"openapi": "3.0.0", "x-k": want}), "the specification is not what the files of the package state")
	nd.Cover("ok")
}

// The specifications of two packages, as JSON or YAML, read twice; in between, a file stays, is rewritten (with another symbolic text), becomes unreadable or is removed: the second scan is that of the files as they are then, and the first result stays.
func C18_reading_has_no_memory() {
	a, b := module+"/a", module+"/b"
	file := nd.OneOf("file", "oapi.json", "oapi.yaml")
	doc := func(p, text string) obj {
		return obj{"openapi": "3.0.0", "paths": obj{"/" + p: obj{"description": text}}}
	}
	t := nd.String("text", 0, 1, "ab")
	put(a, file, doc("a", "first"))
	put(b, file, doc("b", t))
	scan := func() (*specs.Scanner, error) {
		s := specs.NewScanner()
		for _, p := range []string{a, b} {
			if err := s.Scan(pkg(p)); err != nil {
				return nil, err
			}
		}
		return s, nil
	}
	s, err := scan()
	nd.Assert(err == nil, "a specification is rejected")
	got, err := merged(s)
	want := obj{"openapi": "3.0.0", "paths": obj{"/a": obj{"description": "first"}, "/b": obj{"description": t}}}
	nd.Assert(err == nil && nd.Equal(got, want), "the specification is not that of the files")
	snap := nd.Copy(got)
	next := nd.Copy(want).(obj)
	bad := false
	switch nd.Choose("then", 4) {
	case 1:
		put(a, file, doc("a", t))
		next["paths"].(obj)["/a"] = obj{"description": t}
	case 2:
		nd.WriteFile(filepath.Join(dir(a), file), "{")
		bad = true
	case 3:
		nd.Assert(os.Remove(filepath.Join(dir(a), file)) == nil, "remove")
		delete(next["paths"].(obj), "/a")
	}
	s, err = scan()
	if bad {
		nd.Assert(err != nil, "a file which cannot be read any more is no error")
		nd.Cover("error")
		return
	}
	nd.Assert(err == nil, "a specification is rejected")
	again, err := merged(s)
	nd.Assert(err == nil && nd.Equal(again, next), "the specification is not that of the files as they are now")
	nd.Assert(nd.Equal(got, snap), "scanning again changes an earlier result")
	nd.Cover("ok")
}

// Specifications of 1, 3, 12 or 20 packages with 40, 300, 40, 9 or 1 paths each, half of them with references, as JSON or YAML in flow or block style: all paths are there, and all pointers listed.
func C18_large_specifications() {
	nd.MapOrder(1)
	size := nd.Choose("size", 5)
	n := []int{1, 1, 3, 12, 20}[size]
	paths := []int{40, 300, 40, 9, 1}[size]
	ext := nd.OneOf("ext", "json", "yaml")
	block := ext == "yaml" && nd.Choose("block", 2) == 1
	s := specs.NewScanner()
	want := obj{}
	refs := map[string]bool{}
	for i := 0; i < n; i++ {
		own := obj{}
		name := module + "/p" + strconv.Itoa(i)
		for k := 0; k < paths; k++ {
			p := "/p" + strconv.Itoa(i) + "/{id}/" + strconv.Itoa(k)
			own[p] = obj{"description": "the path of that name"}
			want[p] = own[p]
			if k%2 == 0 {
				own[p] = obj{"$ref": "go://#/T" + strconv.Itoa(k)}
				r := "go://" + name + "#/T" + strconv.Itoa(k)
				want[p] = obj{"$ref": r}
				refs[r] = true
			}
		}
		text := bytes(obj{"openapi": "3.0.0", "paths": own})
		if block {
			c, err := container.ReadJSON(text)
			nd.Assert(err == nil, "make")
			text, err = container.NewSortMarshaller(c, container.SortMapMarhsaler(nil)).MarshalYAML()
			nd.Assert(err == nil, "yaml")
		}
		nd.WriteFile(filepath.Join(dir(name), "oapi."+ext), string(text))
		nd.Assert(s.Scan(pkg(name)) == nil, "a specification is rejected")
	}
	got, err := merged(s)
	nd.Assert(err == nil && nd.Equal(got, obj{"openapi": "3.0.0", "paths": want}), "the specification is not that of the files")
	nd.Assert(len(s.Pointers) == len(refs), "a pointer is not listed to be read")
	for r := range refs {
		_, ok := s.Pointers[r]
		nd.Assert(ok, "a pointer is not listed to be read")
	}
	nd.Cover("ok")
}
