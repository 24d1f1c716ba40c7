package types

import "github.com/buypal/oapi-go/internal/zzverif/nd"

// options with the text of their tag and what they ask for
type option struct {
	name, text string
	num        float64
	str        string
	on         bool
}

func opts() []option {
	return []option{
		{name: "min", text: "min:2", num: 2}, {name: "max", text: "max:7.5", num: 7.5},
		{name: "emin", text: "emin:-3", num: -3}, {name: "emax", text: "emax:9", num: 9}, {name: "mulof", text: "mulof:4", num: 4},
		{name: "minlen", text: "minlen:1", num: 1}, {name: "maxlen", text: "maxlen:20", num: 20},
		{name: "minitems", text: "minitems:2", num: 2}, {name: "maxitems", text: "maxitems:2", num: 2},
		{name: "minprops", text: "minprops:5", num: 5}, {name: "maxprops", text: "maxprops:6", num: 6},
		{name: "unique", text: "unique", on: true}, {name: "readonly", text: "readonly", on: true}, {name: "writeonly", text: "writeonly:true", on: true},
		{name: "deprecated", text: "deprecated", on: true}, {name: "required", text: "required", on: true},
		{name: "nullable", text: "nullable", on: true}, {name: "nullable", text: "nullable:false"},
		{name: "pattern", text: "pattern:^a+$", str: "^a+$"}, {name: "format", text: "format:email", str: "email"},
		{name: "readonly", text: "readonly:false"}, {name: "required", text: "required:false"},
	}
}

// constrain applies an option to the schema of a property.
func constrain(s obj, o option, required *bool) {
	if o.name == "required" {
		*required = o.on
		return
	}
	if _, isRef := s["$ref"]; isRef {
		return
	}
	ty, _ := s["type"].(string)
	number := ty == "integer" || ty == "number"
	_, hasMin := s["exclusiveMinimum"]
	_, hasMax := s["exclusiveMaximum"]
	items, isArr := s["items"].(obj)
	_, fixed := s["x-fixed"]
	switch o.name {
	case "min":
		if number && !hasMin {
			s["minimum"] = o.num
		}
	case "max":
		if number && !hasMax {
			s["maximum"] = o.num
		}
	case "emin":
		if number {
			s["minimum"], s["exclusiveMinimum"] = o.num, true
		}
	case "emax":
		if number {
			s["maximum"], s["exclusiveMaximum"] = o.num, true
		}
	case "mulof":
		if number {
			s["multipleOf"] = o.num
		}
	case "minlen":
		if ty == "string" {
			s["minLength"] = o.num
		}
	case "maxlen":
		if ty == "string" {
			s["maxLength"] = o.num
		}
	case "pattern":
		if ty == "string" {
			s["pattern"] = o.str
		}
	case "minitems":
		if isArr {
			s["minItems"] = o.num
		}
	case "maxitems":
		if isArr && !fixed {
			s["maxItems"] = o.num
		}
	case "unique":
		if isArr {
			s["uniqueItems"] = true
		}
	case "minprops":
		if ty == "object" {
			s["minProperties"] = o.num
		}
	case "maxprops":
		if ty == "object" {
			s["maxProperties"] = o.num
		}
	case "readonly", "writeonly":
		k := map[string]string{"readonly": "readOnly", "writeonly": "writeOnly"}[o.name]
		delete(s, k)
		if o.on {
			s[k] = true
		}
	case "deprecated":
		s["deprecated"] = true
	case "nullable":
		delete(s, "nullable")
		if o.on {
			s["nullable"] = true
		}
	case "format":
		s["format"] = o.str
	}
	// constraints of numbers and text also hold for the items of a list and the values of a map
	switch o.name {
	case "min", "max", "emin", "emax", "mulof", "minlen", "maxlen", "pattern":
		if isArr {
			constrain(items, o, required)
		}
		if v, ok := s["additionalProperties"].(obj); ok {
			constrain(v, o, required)
		}
	}
}

func fieldKinds(k int) (d *desc, tag string, s obj) {
	switch k {
	case 0:
		return basic("string"), "", obj{"type": "string"}
	case 1:
		return basic("int64"), "", obj{"type": "integer", "format": "int64"}
	case 2:
		return basic("uint8"), "", obj{"type": "integer", "format": "int32", "minimum": 0.0}
	case 3:
		return basic("float32"), "", obj{"type": "number", "format": "float"}
	case 4:
		return basic("bool"), "", obj{"type": "boolean"}
	case 5:
		return sliceOf(basic("string")), "", obj{"type": "array", "nullable": true, "items": obj{"type": "string"}}
	case 6:
		return arrayOf(3, basic("int64")), "", obj{"type": "array", "maxItems": 3.0, "x-fixed": true, "items": obj{"type": "integer", "format": "int64"}}
	case 7:
		return mapOf(basic("float32")), "", obj{"type": "object", "nullable": true, "additionalProperties": obj{"type": "number", "format": "float"}}
	case 8:
		return ptrTo(basic("string")), "", obj{"type": "string", "nullable": true}
	case 9:
		return named(pkgPath, "S"), "", ref(pkgPath, "S")
	case 10:
		return named(pkgPath, "Name"), "", obj{"type": "string"}
	case 11:
		return named(pkgPath, "S"), ",type:number", obj{"type": "number"}
	case 12:
		return badType(0), ",type:object", obj{"type": "object"}
	case 13:
		return basic("int64"), ",type:uuid", obj{"type": "string", "format": "uuid"}
	case 14:
		return ptrTo(named(pkgPath, "S")), "", obj{"oneOf": []interface{}{ref(pkgPath, "S"), obj{"type": "object", "nullable": true}}}
	default:
		return named("time", "Time"), "", obj{"type": "string", "x-time": true}
	}
}

const nkinds = 16

// One field of 16 kinds (string, numbers, bool, slice, array, map, pointers to text and to a struct, struct reference, named, overridden types, time) with every ordered pair of 22 option settings:
// exactly the constraints that the type can carry appear, with exactly the stated values, and required is listed on the struct. Pairs that set the same option are left out.
func C14_constraints_reach_the_schema() {
	w := standard()
	k := nd.Choose("kind", nkinds)
	oo := opts()
	a := nd.Choose("first", len(oo))
	b := nd.Choose("second", len(oo))
	nd.Assume(oo[a].name != oo[b].name)
	d, tag, s := fieldKinds(k)
	required := false
	if _, time := s["x-time"]; time {
		// the schema of time carries no constraints of text
		for _, o := range []option{oo[a], oo[b]} {
			nd.Assume(o.name != "minlen" && o.name != "maxlen" && o.name != "pattern")
		}
		delete(s, "x-time")
	}
	nullable := -1
	for _, o := range []option{oo[a], oo[b]} {
		if _, both := s["oneOf"]; both && o.name == "nullable" {
			// a reference that may be null, or just the reference
			nullable = 1
			if !o.on {
				nullable = 0
				s = ref(pkgPath, "S")
			}
		}
	}
	constrain(s, oo[a], &required)
	constrain(s, oo[b], &required)
	delete(s, "x-fixed")
	if nullable == 1 {
		delete(s, "nullable")
	}
	tag = "oapi:\"F" + tag + "," + oo[a].text + "," + oo[b].text + "\""
	w.declare(pkgPath, "T", structOf(tagged("F", tag, d), f("G", basic("bool"))))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "field with constraints rejected")
	if nullable == 1 {
		delete(got["properties"].(obj)["F"].(obj), "nullable")
	}
	want := obj{"type": "object", "properties": obj{"F": s, "G": obj{"type": "boolean"}}}
	if required {
		want["required"] = []interface{}{"F"}
	}
	nd.Assert(nd.Equal(got, want), "constraints of the tag are not the constraints of the schema")
	nd.Cover("ok")
}

// Every basic type, alone or in a slice, a map or behind a pointer, with each of 22 option settings, the field named by its own tag or a JSON tag with or without omitempty: the constraints of the tag are the ones of the schema, required is what the option says.
func C14_every_basic_type() {
	w := standard()
	name := basicNames[nd.Choose("type", len(basicNames))]
	o := opts()[nd.Choose("option", len(opts()))]
	d, s := basic(name), nd.Copy(basics[name].schema).(obj)
	switch nd.Choose("in", 4) {
	case 1:
		d, s = sliceOf(d), obj{"type": "array", "nullable": true, "items": s}
	case 2:
		d, s = mapOf(d), obj{"type": "object", "nullable": true, "additionalProperties": s}
	case 3:
		d = ptrTo(d)
		s["nullable"] = true
	}
	required := false
	constrain(s, o, &required)
	key, tag := "F", ""
	switch nd.Choose("tags", 4) {
	case 0:
		key, tag = "x", "oapi:\"x,"+o.text+"\""
	case 1:
		key, tag = "f", "json:\"f,omitempty\" oapi:\","+o.text+"\""
	case 2:
		tag = "oapi:\"," + o.text + "\" json:\",omitempty\""
	case 3:
		key, tag = "x", "json:\"f\" oapi:\"x,"+o.text+"\""
	}
	w.declare(pkgPath, "T", structOf(f("B", basic("bool")), tagged("F", tag, d)))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "field with constraints rejected")
	want := obj{"type": "object", "properties": obj{key: s, "B": obj{"type": "boolean"}}}
	if required {
		want["required"] = []interface{}{key}
	}
	nd.Assert(nd.Equal(got, want), "constraints of the tag are not the constraints of the schema")
	nd.Cover("ok")
}

// Pointers to structs with nullable on, off or unset and required or not: a nullable reference unless nullable is off.
func C14_nullable_references() {
	w := standard()
	tag, r := "", obj{}
	null := nd.Choose("nullable", 3)
	req := nd.Choose("required", 2) == 1
	if null > 0 {
		tag += []string{"", ",nullable", ",nullable:false"}[null]
	}
	if req {
		tag += ",required"
	}
	d := ptrTo(named(pkgPath, "S"))
	r = ref(pkgPath, "S")
	if null != 2 {
		r = obj{"oneOf": []interface{}{r, obj{"type": "object", "nullable": true}}}
	}
	w.declare(pkgPath, "T", structOf(tagged("F", "oapi:\"F"+tag+"\"", d)))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert(err == nil, "field with constraints rejected")
	props := got["properties"].(obj)["F"].(obj)
	if null == 1 {
		delete(props, "nullable")
	}
	nd.Assert(nd.Equal(props, r), "nullability of a reference is not the one of the tag")
	_, has := got["required"]
	nd.Assert(has == req, "required is not the one of the tag")
	nd.Cover("ok")
}

// The type option with each supported name, alone or with each of 22 option settings, on fields of four Go types (one of them without schema of its own), and names that are no types.
func C14_type_override() {
	names := []string{"string", "float32", "float", "float64", "double", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "integer", "int64", "bool",
		"base64", "uuid", "password", "number", "object", "strin", "String", "[]string", "any"}
	w := standard()
	n := nd.OneOf("type", names...)
	var want obj
	switch n {
	case "float":
		want = basics["float32"].schema
	case "double":
		want = basics["float64"].schema
	case "integer":
		want = basics["int32"].schema
	case "base64":
		want = obj{"type": "string", "format": "binary"}
	case "uuid", "password":
		want = obj{"type": "string", "format": n}
	case "number", "object":
		want = obj{"type": n}
	default:
		if b, ok := basics[n]; ok {
			want = b.schema
		}
	}
	d := []*desc{basic("bool"), named(pkgPath, "S"), badType(2), ptrTo(basic("int"))}[nd.Choose("go type", 4)]
	if want != nil {
		want = nd.Copy(want).(obj)
	}
	tag, required := "F,type:"+n, false
	if k := nd.Choose("option", 1+len(opts())); k > 0 && want != nil {
		o := opts()[k-1]
		constrain(want, o, &required)
		tag += "," + o.text
	}
	w.declare(pkgPath, "T", structOf(tagged("F", "oapi:\""+tag+"\"", d)))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	got, err := resolve(w.scan(p), p)
	nd.Assert((err == nil) == (want != nil), "unknown type name accepted, or known one rejected")
	if err != nil {
		nd.Cover("error")
		return
	}
	whole := obj{"type": "object", "properties": obj{"F": want}}
	if required {
		whole["required"] = []interface{}{"F"}
	}
	nd.Assert(nd.Equal(got, whole), "overridden type with its constraints is not the type of the schema")
	nd.Cover("ok")
}

// A tag that cannot be read makes the type an error, on a plain field as on an embedded struct.
func C14_malformed_tags_are_errors() {
	w := standard()
	bad := nd.OneOf("tag", `oapi:"x,min:a"`, `oapi:"x,minlen:1.5"`, `oapi:"x,required:maybe"`, `oapi:x`, `oapi:"x`, `oapi:"x,inline:7x"`)
	ff := []field{f("A", basic("bool"))}
	if nd.Choose("embedded", 2) == 1 {
		e := embed("S", named(pkgPath, "S"))
		e.tag = bad
		ff = append(ff, e)
	} else {
		ff = append(ff, tagged("B", bad, basic("int")))
	}
	w.declare(pkgPath, "T", structOf(ff...))
	w.ready("T")
	p := goPtr(pkgPath, "T")
	_, err := resolve(w.scan(p), p)
	nd.Assert(err != nil, "a tag that cannot be read is ignored")
	nd.Cover("error")
}
