package types

import (
	"go/token"
	gotypes "go/types"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/scan/types"
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"golang.org/x/tools/go/packages"
)

const pkgPath = "x.io/p"
const otherPath = "y.io/q.v2"

type obj = map[string]interface{}

// desc describes a Go type together with the schema it stands for.
type desc struct {
	kind string // basic, named, struct, ptr, slice, array, map, bad
	name string // basic name, or name of the named type
	pkg  string // package of the named type
	elem *desc  // element of ptr, slice, array, map
	n    int64  // array length
	bad  int
	of   []field // fields of an anonymous struct
}

type field struct {
	name     string
	tag      string
	embedded bool
	t        *desc
}

var basics = map[string]struct {
	kind   gotypes.BasicKind
	schema obj
}{
	"bool":    {gotypes.Bool, obj{"type": "boolean"}},
	"string":  {gotypes.String, obj{"type": "string"}},
	"int":     {gotypes.Int, obj{"type": "integer", "format": "int32"}},
	"int8":    {gotypes.Int8, obj{"type": "integer", "format": "int32"}},
	"int16":   {gotypes.Int16, obj{"type": "integer", "format": "int32"}},
	"int32":   {gotypes.Int32, obj{"type": "integer", "format": "int32"}},
	"int64":   {gotypes.Int64, obj{"type": "integer", "format": "int64"}},
	"uint":    {gotypes.Uint, obj{"type": "integer", "format": "int32", "minimum": 0.0}},
	"uint8":   {gotypes.Uint8, obj{"type": "integer", "format": "int32", "minimum": 0.0}},
	"uint16":  {gotypes.Uint16, obj{"type": "integer", "format": "int32", "minimum": 0.0}},
	"uint32":  {gotypes.Uint32, obj{"type": "integer", "format": "int32", "minimum": 0.0}},
	"uint64":  {gotypes.Uint64, obj{"type": "integer", "format": "int64", "minimum": 0.0}},
	"float32": {gotypes.Float32, obj{"type": "number", "format": "float"}},
	"float64": {gotypes.Float64, obj{"type": "number", "format": "double"}},
}

var basicNames = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

// world holds the packages and the named types of one path.
type world struct {
	pkgs  map[string]*gotypes.Package
	named map[string]*gotypes.Named // pkg#name
	under map[string]*desc
}

func newWorld() *world {
	w := &world{pkgs: map[string]*gotypes.Package{}, named: map[string]*gotypes.Named{}, under: map[string]*desc{}}
	for _, p := range []string{pkgPath, otherPath, "time"} {
		w.pkgs[p] = gotypes.NewPackage(p, "p")
	}
	w.declare("time", "Time", structOf(field{name: "wall", t: basic("uint64")}, field{name: "ext", t: basic("int64")}))
	return w
}

func basic(n string) *desc                { return &desc{kind: "basic", name: n} }
func named(pkg, n string) *desc           { return &desc{kind: "named", pkg: pkg, name: n} }
func structOf(ff ...field) *desc          { return &desc{kind: "struct", of: ff} }
func ptrTo(d *desc) *desc                 { return &desc{kind: "ptr", elem: d} }
func sliceOf(d *desc) *desc               { return &desc{kind: "slice", elem: d} }
func mapOf(d *desc) *desc                 { return &desc{kind: "map", elem: d} }
func arrayOf(n int64, d *desc) *desc      { return &desc{kind: "array", n: n, elem: d} }
func badType(k int) *desc                 { return &desc{kind: "bad", bad: k} }
func f(name string, d *desc) field        { return field{name: name, t: d} }
func tagged(n, tag string, d *desc) field { return field{name: n, tag: tag, t: d} }
func embed(n string, d *desc) field       { return field{name: n, embedded: true, t: d} }

const nbad = 6

// declare adds a named type; its underlying type is set afterwards so that types can refer to each other.
func (w *world) declare(pkg, name string, d *desc) {
	tn := gotypes.NewTypeName(token.NoPos, w.pkgs[pkg], name, nil)
	n := gotypes.NewNamed(tn, nil, nil)
	w.named[pkg+"#"+name] = n
	w.under[pkg+"#"+name] = d
	w.pkgs[pkg].Scope().Insert(tn)
	if pkg == "time" {
		n.SetUnderlying(w.real(d))
	}
}

func (w *world) finish(keys ...string) {
	for _, k := range keys {
		w.named[k].SetUnderlying(w.real(w.under[k]).Underlying())
	}
}

// real builds the Go type of a description.
func (w *world) real(d *desc) gotypes.Type {
	switch d.kind {
	case "basic":
		return gotypes.Typ[basics[d.name].kind]
	case "named":
		return w.named[d.pkg+"#"+d.name]
	case "ptr":
		return gotypes.NewPointer(w.real(d.elem))
	case "slice":
		return gotypes.NewSlice(w.real(d.elem))
	case "array":
		return gotypes.NewArray(w.real(d.elem), d.n)
	case "map":
		return gotypes.NewMap(gotypes.Typ[gotypes.String], w.real(d.elem))
	case "struct":
		var vars []*gotypes.Var
		var tags []string
		for _, x := range d.of {
			vars = append(vars, gotypes.NewField(token.NoPos, w.pkgs[pkgPath], x.name, w.real(x.t), x.embedded))
			tags = append(tags, x.tag)
		}
		return gotypes.NewStruct(vars, tags)
	}
	switch d.bad {
	case 0:
		return gotypes.NewInterfaceType(nil, nil)
	case 1:
		return gotypes.Universe.Lookup("error").Type()
	case 2:
		return gotypes.NewChan(gotypes.SendRecv, gotypes.Typ[gotypes.Int])
	case 3:
		return gotypes.NewSignature(nil, nil, nil, false)
	case 4:
		return gotypes.Typ[gotypes.Complex128]
	default:
		return gotypes.Typ[gotypes.UnsafePointer]
	}
}

func ref(pkg, frag string) obj { return obj{"$ref": "go://" + pkg + "#/" + frag} }

// schema is the specification: the schema of a type met below the top, at the pointer fragment frag. ok is false for types without JSON schema.
func (w *world) schema(d *desc, frag string) (s obj, ok bool) {
	switch d.kind {
	case "basic":
		return nd.Copy(basics[d.name].schema).(obj), true
	case "named":
		if d.pkg == "time" {
			return obj{"type": "string"}, true
		}
		u := w.under[d.pkg+"#"+d.name]
		if u.kind == "struct" {
			return ref(d.pkg, d.name), true
		}
		return w.schema(u, d.name)
	case "struct":
		return ref(pkgPath, frag), true
	case "ptr":
		s, ok = w.schema(d.elem, frag+"/*")
		if !ok {
			return nil, false
		}
		if _, isRef := s["$ref"]; isRef {
			return obj{"oneOf": []interface{}{s, obj{"type": "object", "nullable": true}}}, true
		}
		s["nullable"] = true
		return s, true
	case "slice", "array", "map":
		e, ok := w.schema(d.elem, frag+"/[]")
		if !ok {
			return nil, false
		}
		switch d.kind {
		case "slice":
			return obj{"type": "array", "items": e, "nullable": true}, true
		case "map":
			return obj{"type": "object", "additionalProperties": e, "nullable": true}, true
		}
		s := obj{"type": "array", "items": e}
		if d.n > 0 {
			s["maxItems"] = float64(d.n)
		}
		return s, true
	}
	return nil, false
}

func goPtr(pkg, frag string) pointer.Pointer {
	p, err := pointer.Parse("go://" + pkg + "#/" + frag)
	nd.Assert(err == nil, "pointer")
	return p
}

func (w *world) scan(ptrs ...pointer.Pointer) *types.Scanner {
	pp := pointer.Pointers{}
	for _, p := range ptrs {
		pp[p.String()] = p
	}
	sc := types.NewScanner(pp)
	for _, p := range []string{otherPath, pkgPath} {
		err := sc.Scan(&packages.Package{PkgPath: p, Types: w.pkgs[p]})
		nd.Assert(err == nil, "scanning types fails")
	}
	return sc
}

// resolve is what the resolver asks for: the schema of one pointer after scanning, as JSON.
func resolve(sc *types.Scanner, p pointer.Pointer) (obj, error) {
	s, err := sc.Resolve(p)
	if err != nil {
		return nil, err
	}
	c, err := container.Make(s)
	nd.Assert(err == nil, "schema cannot be rendered")
	m, ok := c.Data().(obj)
	nd.Assert(ok, "schema is not an object")
	return m, nil
}
