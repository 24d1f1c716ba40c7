// inpkg .
package oapi

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// ndTopKeys scans the top-level keys of a JSON object text in order of appearance.
func ndTopKeys(s string) (keys []string, ok bool) {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		case '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, false
			}
			k := j + 1
			for k < len(s) && (s[k] == ' ' || s[k] == '\n') {
				k++
			}
			if depth == 1 && k < len(s) && s[k] == ':' {
				var key string
				if json.Unmarshal([]byte(s[i:j+1]), &key) != nil {
					return nil, false
				}
				keys = append(keys, key)
			}
			i = j
		}
	}
	return keys, depth == 0
}

func ndYAMLKeys(s string) (keys []string) {
	for _, l := range strings.Split(s, "\n") {
		if l == "" || l[0] == ' ' || l[0] == '-' {
			continue
		}
		if k := strings.Index(l, ":"); k > 0 {
			keys = append(keys, strings.Trim(l[:k], "\"'"))
		}
	}
	return
}

// ndDoc is a document with any subset of the ordered sections plus up to two other keys, one of which may begin like a section.
func ndDoc(charset string, max int) map[string]interface{} {
	doc := map[string]interface{}{}
	for _, k := range []string{"openapi", "info", "components", "paths"} {
		if nd.Choose("has."+k, 2) == 1 {
			doc[k] = "3"
		}
	}
	n := nd.Choose("others", 3)
	if n > 0 {
		doc[nd.OneOf("prefix", "x", "info", "paths")+nd.String("key", 0, max, charset)] = map[string]interface{}{"b": "1", "a": []interface{}{nil, true, 1.5}}
	}
	if n > 1 {
		doc["tags"] = "t"
	}
	return doc
}

func ndOrdered(keys []string, doc map[string]interface{}) bool {
	if len(keys) != len(doc) {
		return false
	}
	last := -1
	other := ""
	for i, k := range keys {
		if _, ok := doc[k]; !ok {
			return false
		}
		if k != "openapi" && k != "info" && k != "components" && k != "paths" {
			if last >= 0 || k < other {
				return false
			}
			other = k
		}
		for j := 0; j < i; j++ {
			if keys[j] == k {
				return false
			}
		}
		for p, s := range []string{"openapi", "info", "components", "paths"} {
			if s == k {
				if p < last {
					return false
				}
				last = p
			}
		}
	}
	return true
}

func ndOAPI(doc map[string]interface{}) OAPI {
	c, err := container.Make(doc)
	nd.Assert(err == nil, "cannot make a container")
	x := OAPI{}
	x.c = c
	return x
}

// Every subset of the four ordered sections plus 0..2 other keys, one of them "x", "info" or "paths" followed by 0..1 (quick) / 0..2 (thorough) arbitrary ASCII bytes; map iteration in either direction.
func C07_json_format() {
	doc := ndDoc("", nd.Bound(1, 2))
	for k := range doc {
		for i := 0; i < len(k); i++ {
			nd.Assume(k[i] < 0x80)
		}
	}
	o := ndOAPI(doc)
	f := nd.OneOf("format", "json", "json:pretty")
	b, err := Format(f, o)
	nd.Assert(err == nil, "document cannot be formatted as JSON")
	var back map[string]interface{}
	nd.Assert(json.Unmarshal(b, &back) == nil, "JSON output does not parse")
	nd.Assert(nd.Equal(back, doc), "JSON output is not the document")
	keys, ok := ndTopKeys(string(b))
	nd.Assert(ok && ndOrdered(keys, doc), "sections are repeated, missing or out of order")
	nd.Observe("out", string(b))
	nd.Cover("ok")
}

// As above over other keys "x", "info" or "paths" plus one of 22 characters with a meaning in YAML.
func C07_yaml_format() {
	doc := ndDoc("a :#-\"'{}[],&*!|>%@`\t?1", 1)
	o := ndOAPI(doc)
	f := nd.OneOf("format", "yaml", "yml")
	b, err := Format(f, o)
	nd.Assert(err == nil, "document cannot be formatted as YAML")
	c, err := container.ReadYAML(b)
	nd.Assert(err == nil, "YAML output does not parse")
	got, err := container.Make(c)
	nd.Assert(err == nil && nd.Equal(got.Data(), doc), "YAML output is not the document")
	last := -1
	for _, k := range []string{"openapi", "info", "components", "paths"} {
		if _, ok := doc[k]; !ok {
			continue
		}
		at := strings.Index("\n"+string(b), "\n"+k+":")
		nd.Assert(at >= 0, "section missing")
		nd.Assert(at > last, "sections out of order")
		last = at
	}
	nd.Cover("ok")
}

// Every subset of the four sections plus two other keys of 1..5 letters, one of them possibly beginning like a section: the keys of the YAML text are the other keys by name, then the sections in order.
func C07_yaml_order() {
	doc := map[string]interface{}{}
	for _, k := range []string{"openapi", "info", "components", "paths"} {
		if nd.Choose("has."+k, 2) == 1 {
			doc[k] = "3"
		}
	}
	doc[nd.OneOf("prefix", "", "info", "paths")+nd.String("a", 1, nd.Bound(1, 2), "abz")] = "v"
	doc[nd.OneOf("prefix", "", "openapi")+nd.String("b", 1, 1, "bcz")] = "w"
	b, err := Format("yaml", ndOAPI(doc))
	nd.Assert(err == nil, "document cannot be formatted as YAML")
	nd.Assert(ndOrdered(ndYAMLKeys(string(b)), doc), "sections are repeated, missing or out of order")
	nd.Cover("ok")
}

// Any scalar string of 0..2 ASCII bytes over the characters YAML or JSON or Go treat specially, as a value below a section: every format carries it unchanged.
func C07_formats_agree_on_text() {
	s := nd.String("text", 0, nd.Bound(1, 2), "a0:#-\"'`\\\n\r\t<&{}$~ ")
	doc := map[string]interface{}{"openapi": "3.0.0", "info": map[string]interface{}{"title": s}}
	o := ndOAPI(doc)
	j, err := Format("json", o)
	nd.Assert(err == nil, "document cannot be formatted as JSON")
	var back map[string]interface{}
	nd.Assert(json.Unmarshal(j, &back) == nil && nd.Equal(back, doc), "JSON output is not the document")
	p, err := Format("json:pretty", o)
	nd.Assert(err == nil, "document cannot be formatted as indented JSON")
	var back2 map[string]interface{}
	nd.Assert(json.Unmarshal(p, &back2) == nil && nd.Equal(back2, doc), "indented JSON output is not the document")
	y, err := Format("yaml", o)
	nd.Assert(err == nil, "document cannot be formatted as YAML")
	c, err := container.ReadYAML(y)
	nd.Assert(err == nil, "YAML output does not parse")
	nd.Assert(nd.Equal(c.Data(), doc), "YAML output is not the document")
	nd.Cover("ok")
}

// ndGoConst parses generated Go source and evaluates its string constant.
func ndGoConst(src []byte) (pkg, text string, ok bool) {
	f, err := parser.ParseFile(token.NewFileSet(), "spec.go", src, parser.AllErrors)
	if err != nil {
		return "", "", false
	}
	n := 0
	for _, d := range f.Decls {
		g, isGen := d.(*ast.GenDecl)
		if !isGen || g.Tok != token.CONST {
			return "", "", false
		}
		for _, sp := range g.Specs {
			v, isVal := sp.(*ast.ValueSpec)
			if !isVal || len(v.Names) != 1 || len(v.Values) != 1 || v.Names[0].Name != "OpenAPIJsonSpec" {
				return "", "", false
			}
			n++
			text, ok = ndGoString(v.Values[0])
		}
	}
	return f.Name.Name, text, ok && n == 1
}

func ndGoString(e ast.Expr) (string, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind != token.STRING {
			return "", false
		}
		s, err := strconv.Unquote(x.Value)
		return s, err == nil
	case *ast.ParenExpr:
		return ndGoString(x.X)
	case *ast.BinaryExpr:
		a, ok := ndGoString(x.X)
		b, ok2 := ndGoString(x.Y)
		return a + b, ok && ok2 && x.Op == token.ADD
	}
	return "", false
}

// A value and a key of 0..1 (quick) / 0..2 (thorough) arbitrary ASCII bytes, or one of a few texts beyond ASCII (a byte order mark, a line separator, replacement and astral characters) next to a backquote; the generated source, parsed by go/parser, is package main with one constant whose value is the JSON document.
func C07_go_format() {
	s := nd.OneOf("beyond", "", "\ufeff", "\ufeff`", "`\u2028", "\ufffd", "é\U0001f600")
	if s == "" {
		s = nd.String("text", 0, nd.Bound(1, 2), "")
		for i := 0; i < len(s); i++ {
			nd.Assume(s[i] < 0x80)
		}
	}
	doc := map[string]interface{}{"openapi": "3.0.0"}
	if nd.Choose("where", 2) == 0 {
		doc["info"] = s
	} else {
		doc["x"+s] = "v"
	}
	o := ndOAPI(doc)
	b, err := Format("go", o)
	nd.Assert(err == nil, "document cannot be formatted as Go")
	pkg, text, ok := ndGoConst(b)
	nd.Assert(ok, "generated Go file is not valid Go with one constant")
	nd.Assert(pkg == "main", "generated Go file is not of package main")
	var back map[string]interface{}
	nd.Assert(json.Unmarshal([]byte(text), &back) == nil, "constant of the generated Go file is not JSON")
	nd.Assert(nd.Equal(back, doc), "constant of the generated Go file is not the document")
	nd.Cover("ok")
}

// Documents with 0..3 keys outside the ordered sections; the two directions of map iteration give the same bytes in every format.
func C07_deterministic() {
	doc := map[string]interface{}{"paths": "p", "openapi": "3"}
	for _, k := range []string{"tags", "servers", "security"} {
		if nd.Choose("has", 2) == 1 {
			doc[k] = nd.String("v", 1, 1, "xy")
		}
	}
	f := nd.OneOf("format", "json", "json:pretty", "yaml", "go")
	nd.MapOrder(0)
	a, err := Format(f, ndOAPI(doc))
	nd.Assert(err == nil, "cannot format")
	nd.MapOrder(2)
	b, err := Format(f, ndOAPI(doc))
	nd.Assert(err == nil, "cannot format")
	nd.Assert(string(a) == string(b), "formatting the same document twice gives different text")
	nd.Cover("ok")
}

// Documents with 5..40 keys outside the ordered sections, in one of three orders of insertion, with 13 to 40 members below each section: every format carries the document, in order, whatever the order of maps.
func C07_many_keys() {
	n := []int{5, 8, 9, 12, 13, 20, 40}[nd.Choose("keys", 7)]
	nd.MapOrder(1)
	doc := map[string]interface{}{}
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, "x-"+string([]byte{byte('a' + i*7%n%26), byte('a' + i*7%n/26)}))
	}
	for _, k := range []string{"openapi", "info", "components", "paths"} {
		sub := map[string]interface{}{}
		for i := 0; i < n; i++ {
			sub["m"+string([]byte{byte('a' + i%26), byte('a' + i/26)})] = float64(i)
		}
		doc[k] = sub
	}
	at := nd.Choose("begin", 3) * n / 3
	for i := range keys {
		doc[keys[(i+at)%n]] = keys[i]
	}
	o := ndOAPI(doc)
	f := nd.OneOf("format", "json", "json:pretty", "yaml")
	b, err := Format(f, o)
	nd.Assert(err == nil, "document cannot be formatted")
	if f == "yaml" {
		c, err := container.ReadYAML(b)
		nd.Assert(err == nil, "YAML output does not parse")
		got, err := container.Make(c)
		nd.Assert(err == nil && nd.Equal(got.Data(), doc), "YAML output is not the document")
		nd.Assert(ndOrdered(ndYAMLKeys(string(b)), doc), "sections are repeated, missing or out of order")
	} else {
		var back map[string]interface{}
		nd.Assert(json.Unmarshal(b, &back) == nil && nd.Equal(back, doc), "JSON output is not the document")
		keys, ok := ndTopKeys(string(b))
		nd.Assert(ok && ndOrdered(keys, doc), "sections are repeated, missing or out of order")
	}
	nd.Cover("ok")
}

// Any format name of 0..4 bytes that is not a supported one is an error.
func C07_unknown_format() {
	f := nd.String("format", 0, nd.Bound(4, 5), "")
	for _, k := range []string{"yaml", "yml", "json", "json:pretty", "go"} {
		nd.Assume(f != k)
	}
	_, err := Format(f, ndOAPI(map[string]interface{}{"openapi": "3"}))
	nd.Assert(err != nil, "unknown format accepted")
	nd.Cover("ok")
}

// Two formats out of 5 at the same time, of one document or of two, in all schedules with at most 2 preemptions: both give what they give on their own, as they do afterwards, the document stays as it is, and no two accesses race.
func C07_formats_at_the_same_time() {
	formats := []string{"yaml", "yml", "json", "json:pretty", "go"}
	doc := map[string]interface{}{"openapi": "3.0.0", "x-a": nd.OneOf("text", "b", "`"), "paths": map[string]interface{}{"/b": nil, "/a": map[string]interface{}{"get": map[string]interface{}{}}}, "tags": []interface{}{map[string]interface{}{"name": "n"}}}
	docs := []map[string]interface{}{doc, doc}
	if nd.Choose("documents", 2) == 1 {
		docs[1] = map[string]interface{}{"info": map[string]interface{}{"title": "t"}, "openapi": "3.0.1"}
	}
	var oo [2]OAPI
	oo[0] = ndOAPI(docs[0])
	oo[1] = oo[0]
	if len(docs[1]) == 2 {
		oo[1] = ndOAPI(docs[1])
	}
	var ff, want, got [2]string
	var errs [2]error
	for i := range ff {
		ff[i] = formats[nd.Choose("format", len(formats))]
		b, err := Format(ff[i], ndOAPI(docs[i]))
		nd.Assert(err == nil, "document cannot be formatted")
		want[i] = string(b)
	}
	nd.Schedules(nd.Bound(2, 3))
	format := func(i int) func() {
		return func() {
			b, err := Format(ff[i], oo[i])
			got[i], errs[i] = string(b), err
		}
	}
	nd.Parallel(format(0), format(1))
	for i := range ff {
		nd.Assert(errs[i] == nil && got[i] == want[i], "formatting at the same time gives another text")
	}
	for i := range ff {
		format(i)()
		nd.Assert(errs[i] == nil && got[i] == want[i], "formatting again gives another text")
		nd.Assert(nd.Equal(oo[i].c.Data(), docs[i]), "formatting changes the document")
	}
	nd.Cover("ok")
}
