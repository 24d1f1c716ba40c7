package spec

import (
	"encoding/json"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

type obj = map[string]interface{}
type arr = []interface{}

// member is one standard field of an OpenAPI object and the kind of its value.
type member struct{ name, kind string }

// The objects of OpenAPI 3.0 with their fixed fields.
var objects = map[string][]member{
	"OpenAPI":        {{"openapi", "string"}, {"info", "Info"}, {"servers", "[Server"}, {"paths", "Paths"}, {"components", "Components"}, {"security", "security"}, {"tags", "[Tag"}, {"externalDocs", "ExternalDocs"}},
	"Info":           {{"title", "string"}, {"description", "string"}, {"termsOfService", "string"}, {"contact", "Contact"}, {"license", "License"}, {"version", "string"}},
	"Contact":        {{"name", "string"}, {"url", "string"}, {"email", "string"}},
	"License":        {{"name", "string"}, {"url", "string"}},
	"Server":         {{"url", "string!"}, {"description", "string"}, {"variables", "{ServerVariable"}},
	"ServerVariable": {{"enum", "[string"}, {"default", "string!"}, {"description", "string"}},
	"Components": {{"schemas", "{Schema"}, {"responses", "{Response"}, {"parameters", "{Parameter"}, {"examples", "{Example"}, {"requestBodies", "{RequestBody"}, {"headers", "{Header"},
		{"securitySchemes", "{SecurityScheme"}, {"links", "{Link"}, {"callbacks", "{Callback"}},
	"PathItem": {{"$ref", "ref"}, {"summary", "string"}, {"description", "string"}, {"get", "Operation"}, {"put", "Operation"}, {"post", "Operation"}, {"delete", "Operation"}, {"options", "Operation"},
		{"head", "Operation"}, {"patch", "Operation"}, {"trace", "Operation"}, {"servers", "[Server"}, {"parameters", "[Parameter"}},
	"Operation": {{"tags", "[string"}, {"summary", "string"}, {"description", "string"}, {"externalDocs", "ExternalDocs"}, {"operationId", "string"}, {"parameters", "[Parameter"}, {"requestBody", "RequestBody"},
		{"responses", "{Response"}, {"callbacks", "{Callback"}, {"deprecated", "true"}, {"security", "security"}, {"servers", "[Server"}},
	"ExternalDocs": {{"description", "string"}, {"url", "string"}},
	"Parameter": {{"$ref", "ref"}, {"name", "string"}, {"in", "string"}, {"description", "string"}, {"required", "true"}, {"deprecated", "true"}, {"allowEmptyValue", "true"}, {"style", "string"}, {"explode", "bool"},
		{"allowReserved", "true"}, {"schema", "Schema"}, {"example", "any"}, {"examples", "{Example"}, {"content", "{MediaType"}},
	"Header": {{"$ref", "ref"}, {"description", "string"}, {"required", "true"}, {"deprecated", "true"}, {"allowEmptyValue", "true"}, {"style", "string"}, {"explode", "bool"}, {"allowReserved", "true"},
		{"schema", "Schema"}, {"example", "any"}, {"examples", "{Example"}, {"content", "{MediaType"}},
	"RequestBody":    {{"$ref", "ref"}, {"description", "string"}, {"content", "{MediaType"}, {"required", "true"}},
	"MediaType":      {{"schema", "Schema"}, {"example", "any"}, {"examples", "{Example"}, {"encoding", "{Encoding"}},
	"Encoding":       {{"contentType", "string"}, {"headers", "{Header"}, {"style", "string"}, {"explode", "bool"}, {"allowReserved", "true"}},
	"Response":       {{"$ref", "ref"}, {"description", "string"}, {"headers", "{Header"}, {"content", "{MediaType"}, {"links", "{Link"}},
	"Example":        {{"$ref", "ref"}, {"summary", "string"}, {"description", "string"}, {"value", "any"}, {"externalValue", "string"}},
	"Link":           {{"$ref", "ref"}, {"operationRef", "string"}, {"operationId", "string"}, {"parameters", "{any"}, {"requestBody", "any!"}, {"description", "string"}, {"server", "Server"}},
	"Tag":            {{"name", "string!"}, {"description", "string"}, {"externalDocs", "ExternalDocs"}},
	"Discriminator":  {{"propertyName", "string!"}, {"mapping", "{string"}},
	"XML":            {{"name", "string"}, {"namespace", "string"}, {"prefix", "string"}, {"attribute", "true"}, {"wrapped", "true"}},
	"SecurityScheme": {{"$ref", "ref"}, {"type", "string"}, {"description", "string"}, {"name", "string"}, {"in", "string"}, {"scheme", "string"}, {"bearerFormat", "string"}, {"flows", "OAuthFlows"}, {"openIdConnectUrl", "string"}},
	"OAuthFlows":     {{"implicit", "OAuthFlow"}, {"password", "OAuthFlow"}, {"clientCredentials", "OAuthFlow"}, {"authorizationCode", "OAuthFlow"}},
	"OAuthFlow":      {{"authorizationUrl", "string"}, {"tokenUrl", "string"}, {"refreshUrl", "string"}, {"scopes", "{string"}},
	"Schema": {{"$ref", "ref"}, {"nullable", "true"}, {"discriminator", "Discriminator"}, {"readOnly", "true"}, {"writeOnly", "true"}, {"xml", "XML"}, {"externalDocs", "ExternalDocs"}, {"example", "any"},
		{"deprecated", "true"}, {"title", "string"}, {"multipleOf", "number"}, {"maximum", "number"}, {"exclusiveMaximum", "true"}, {"minimum", "number"}, {"exclusiveMinimum", "true"}, {"maxLength", "int"},
		{"minLength", "int"}, {"pattern", "string"}, {"maxItems", "int"}, {"minItems", "int"}, {"uniqueItems", "true"}, {"maxProperties", "int"}, {"minProperties", "int"}, {"required", "[string"}, {"enum", "[any"},
		{"type", "string"}, {"allOf", "[Schema"}, {"oneOf", "[Schema"}, {"anyOf", "[Schema"}, {"not", "Schema"}, {"items", "Schema"}, {"properties", "{Schema"}, {"additionalProperties", "Schema"},
		{"description", "string"}, {"format", "string"}, {"default", "any"}},
}

var names = []string{"OpenAPI", "Info", "Contact", "License", "Server", "ServerVariable", "Components", "PathItem", "Operation", "ExternalDocs", "Parameter", "Header", "RequestBody", "MediaType", "Encoding",
	"Response", "Example", "Link", "Tag", "Discriminator", "XML", "SecurityScheme", "OAuthFlows", "OAuthFlow", "Schema"}

func target(name string) interface{} {
	switch name {
	case "OpenAPI":
		return &spec.OpenAPI{}
	case "Info":
		return &spec.Info{}
	case "Contact":
		return &spec.Contact{}
	case "License":
		return &spec.License{}
	case "Server":
		return &spec.Server{}
	case "ServerVariable":
		return &spec.ServerVariable{}
	case "Components":
		return &spec.Components{}
	case "PathItem":
		return &spec.PathItem{}
	case "Operation":
		return &spec.Operation{}
	case "ExternalDocs":
		return &spec.ExternalDocumentation{}
	case "Parameter":
		return &spec.Parameter{}
	case "Header":
		return &spec.Header{}
	case "RequestBody":
		return &spec.RequestBody{}
	case "MediaType":
		return &spec.MediaType{}
	case "Encoding":
		return &spec.Encoding{}
	case "Response":
		return &spec.Response{}
	case "Example":
		return &spec.Example{}
	case "Link":
		return &spec.Link{}
	case "Tag":
		return &spec.Tag{}
	case "Discriminator":
		return &spec.Discriminator{}
	case "XML":
		return &spec.XML{}
	case "SecurityScheme":
		return &spec.SecurityScheme{}
	case "OAuthFlows":
		return &spec.OAuthFlows{}
	case "OAuthFlow":
		return &spec.OAuthFlow{}
	}
	return &spec.Schema{}
}

func text(label string) string { return nd.String(label, 1, nd.Bound(1, 2), "") }

// value is an arbitrary value of a kind; objects are built to the given depth with one member each.
func value(label, kind string, depth int) interface{} {
	switch kind {
	case "string", "string!":
		s := text(label)
		nd.Assume(ascii(s))
		return s
	case "true":
		return true
	case "bool":
		return nd.Choose(label, 2) == 1
	case "int":
		return float64(nd.Choose(label, 3) * 20)
	case "number":
		return []float64{0, -1.5, 250}[nd.Choose(label, 3)]
	case "ref":
		return nd.OneOf(label, "#/components/schemas/A", "go://x.io/p#/T/F")
	case "any", "any!":
		switch nd.Choose(label, 9) {
		case 0:
			return nd.String(label, 0, 1, "a$\"<")
		case 1:
			return 0.0
		case 2:
			return true
		case 3:
			return false
		case 4:
			if kind == "any!" {
				return "$request.body#/id"
			}
			return nil
		case 5:
			return obj{}
		case 6:
			return arr{}
		case 7:
			return obj{"k": arr{nil, 1.0, "v"}}
		default:
			return -2.5e3
		}
	case "security":
		switch nd.Choose(label, 4) {
		case 0:
			return arr{obj{}}
		case 1:
			return arr{obj{"key": arr{}}}
		case 2:
			return arr{obj{"key": arr{"read", "write"}, "other": arr{}}, obj{}}
		default:
			return arr{obj{"k": arr{"s"}}}
		}
	case "Paths":
		return obj{"/a/{b}": value(label, "PathItem", depth-1)}
	case "Callback":
		switch nd.Choose(label, 3) {
		case 0:
			return obj{"$ref": "#/components/callbacks/C"}
		case 1:
			return obj{}
		}
		return obj{"{$request.body#/url}": value(label, "PathItem", depth-1)}
	}
	switch kind[0] {
	case '[':
		if nd.Choose(label, 2) == 0 {
			return arr{value(label, kind[1:], depth)}
		}
		return arr{value(label, kind[1:], 0), value(label, kind[1:], 0)}
	case '{':
		return obj{nd.OneOf(label, "k", "a.b~/"): value(label, kind[1:], depth)}
	}
	out := obj{}
	mm := objects[kind]
	for _, m := range mm {
		if m.kind == "string!" { // required: always part of a document
			out[m.name] = "r"
		}
	}
	if depth > 0 {
		m := mm[nd.Choose(label, len(mm))]
		out[m.name] = value(label, m.kind, depth-1)
	}
	return out
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func roundTrip(name string, doc obj) {
	c, err := container.Make(doc)
	nd.Assert(err == nil, "make")
	t := target(name)
	err = json.Unmarshal(c.Bytes(), t)
	nd.Assert(err == nil, "a valid "+name+" object is rejected")
	back, err := json.Marshal(t)
	nd.Assert(err == nil, "a decoded "+name+" object cannot be encoded")
	var got interface{}
	err = json.Unmarshal(back, &got)
	nd.Assert(err == nil, "encoding gives malformed JSON")
	want := nd.Copy(doc)
	var known []string
	deviations(name, got, want, &known)
	nd.Assert(nd.Equal(got, want), "a "+name+" object changes when it is decoded and encoded")
	nd.Cover("ok")
	for _, id := range known {
		nd.AssertKnown(false, "a "+name+" object changes when it is decoded and encoded ("+id+")", id)
	}
}

// unstated are the fields that encoding adds, with these values, to objects that do not state them (known finding).
var unstated = map[string]obj{
	"Info":           {"title": "", "version": ""},
	"Contact":        {"name": ""},
	"License":        {"name": ""},
	"ExternalDocs":   {"description": ""},
	"Parameter":      {"name": "", "in": "", "explode": false},
	"Header":         {"explode": false},
	"RequestBody":    {"content": nil},
	"Encoding":       {"contentType": ""},
	"Response":       {"content": nil},
	"Example":        {"value": nil},
	"XML":            {"name": ""},
	"SecurityScheme": {"type": ""},
}

// deviations removes from got and want, which are both an object of the given kind, the differences listed as known findings, and collects these.
func deviations(kind string, got, want interface{}, known *[]string) {
	switch kind {
	case "Paths":
		kind = "{PathItem"
	case "Callback":
		if w, ok := want.(obj); ok && w["$ref"] == nil {
			kind = "{PathItem"
		}
	}
	switch kind[0] {
	case '[':
		g, ok1 := got.(arr)
		w, ok2 := want.(arr)
		if ok1 && ok2 && len(g) == len(w) {
			for i := range g {
				deviations(kind[1:], g[i], w[i], known)
			}
		}
		return
	case '{':
		g, ok1 := got.(obj)
		w, ok2 := want.(obj)
		if ok1 && ok2 {
			for k := range w {
				if gv, ok := g[k]; ok {
					deviations(kind[1:], gv, w[k], known)
				}
			}
		}
		return
	}
	g, ok1 := got.(obj)
	w, ok2 := want.(obj)
	if !ok1 || !ok2 {
		return
	}
	if kind == "Link" { // values that are any or an expression: the empty string becomes null
		if v, ok := w["requestBody"]; ok && nd.Equal(v, "") && g["requestBody"] == nil {
			w["requestBody"] = nil
			g["requestBody"] = nil
			*known = append(*known, "spec-empty-expression")
		}
		wp, ok1 := w["parameters"].(obj)
		gp, ok2 := g["parameters"].(obj)
		if ok1 && ok2 {
			for k, v := range wp {
				gv, ok := gp[k]
				if nd.Equal(v, "") && ok && gv == nil {
					wp[k] = nil
					*known = append(*known, "spec-empty-expression")
				}
			}
		}
	}
	for _, m := range objects[kind] {
		gv, gok := g[m.name]
		wv, wok := w[m.name]
		switch {
		case gok && wok:
			deviations(m.kind, gv, wv, known)
		case gok:
			if v, ok := unstated[kind][m.name]; ok && nd.Equal(gv, v) {
				delete(g, m.name)
				*known = append(*known, "spec-unstated-fields")
			}
		case wok && kind == "OAuthFlow" && m.name == "scopes":
			delete(w, m.name)
			*known = append(*known, "spec-oauth-scopes")
		case wok && kind == "PathItem" && m.name == "$ref":
			delete(w, m.name)
			*known = append(*known, "spec-path-ref")
		case wok && kind == "Encoding" && m.name == "explode" && nd.Equal(wv, false):
			delete(w, m.name)
			*known = append(*known, "spec-explode-false")
		case wok && kind == "Operation" && m.name == "security" && nd.Equal(wv, arr{}):
			delete(w, m.name)
			*known = append(*known, "spec-empty-security")
		}
	}
}

// Every object type of OpenAPI 3.0 (25) with every pair of its standard fields, values symbolic (any ASCII character in texts, 9 kinds of free-form values) and nested objects one (quick) / two
// (thorough) levels deep.
func C22_every_pair_of_fields() {
	name := nd.OneOf("object", names...)
	mm := objects[name]
	doc := value("r", name, 0).(obj)
	i := nd.Choose("first", len(mm))
	j := nd.Choose("second", len(mm))
	nd.Assume(i <= j)
	doc[mm[i].name] = value("a", mm[i].kind, nd.Bound(1, 2))
	if i != j {
		doc[mm[j].name] = value("b", mm[j].kind, 0)
	}
	roundTrip(name, doc)
}

// Callbacks as components of a document: references, path items under expressions, empty ones.
func C22_callbacks() {
	doc := obj{"callbacks": obj{"C": value("c", "Callback", 3)}}
	roundTrip("Components", doc)
}

// Nested chains of up to three (quick) / four (thorough) objects below the document, one member at each level.
func C22_deep_documents() {
	d := nd.Bound(3, 4)
	doc := value("doc", "OpenAPI", d).(obj)
	roundTrip("OpenAPI", doc)
}

// Additional properties stated as a truth value mean any value or none.
func C22_boolean_additional_properties() {
	b := nd.Choose("additional", 2) == 1
	var s spec.Schema
	err := json.Unmarshal([]byte(`{"type":"object","additionalProperties":`+map[bool]string{true: "true", false: "false"}[b]+`}`), &s)
	nd.AssertKnown(err == nil, "boolean additional properties are rejected", "spec-boolean-additional")
	out, err := json.Marshal(s)
	nd.Assert(err == nil, "schema cannot be encoded")
	var got interface{}
	nd.Assert(json.Unmarshal(out, &got) == nil, "malformed")
	var want obj
	if b {
		want = obj{"type": "object", "additionalProperties": obj{}}
	} else {
		want = obj{"type": "object", "additionalProperties": obj{"not": obj{}}}
	}
	g := got.(obj)
	nd.Assert(nd.Equal(g, want) || nd.Equal(g["additionalProperties"], b), "boolean additional properties change their meaning")
}

// An empty list of security requirements of an operation, which lifts the global ones, is kept.
func C22_empty_security() {
	roundTrip("Operation", obj{"security": arr{}})
}
