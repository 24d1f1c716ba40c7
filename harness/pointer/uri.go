package pointer

import (
	"encoding/json"

	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

const pkgChars = "aB0.-_+~"

func symPkg() string {
	p := nd.OneOf("pkg", "fmt", "x.io/é", "x.io/a b", "MyApp", "MyApp/", "github.com/Acme/", "x.y/z/")
	if p == "fmt" || p == "MyApp" || p == "x.io/é" || p == "x.io/a b" {
		return p
	}
	return p + nd.String("seg", 1, nd.Bound(2, 3), pkgChars)
}

// Import paths made of a prefix and a symbolic segment of 1..2 (quick) / 1..3 (thorough) characters, two without a slash, some with letters of both cases, one with a character outside ASCII and one with a space; type names of 1..2 / 1..3 characters
// of identifiers and places.
func C02_go_pointer() {
	pkg := symPkg()
	name := nd.String("name", 1, nd.Bound(2, 3), "aZ_0[]*")
	p, err := pointer.NewGoPointer(pkg, name)
	nd.Assert(err == nil, "go pointer to a valid package and name rejected")
	nd.Assert(p.PkgPath() == pkg, "package path of a go pointer differs from the package it was built for")
	nd.Assert(eqToks(p.Fragment, []string{name}), "fragment of a go pointer is not the type name")
	nd.Assert(p.IsExternal(), "go pointer not recognised as external")
	plain := pkg != "x.io/é" && pkg != "x.io/a b" // text of others is percent-encoded
	nd.Assert(!plain || p.String() == "go://"+pkg+"#/"+name, "text of a go pointer is not go://package#/name")
	q, err := pointer.Parse(p.String())
	nd.Assert(err == nil, "printed go pointer does not parse")
	nd.Assert(q.PkgPath() == pkg && eqToks(q.Fragment, p.Fragment) && q.Scheme == "go", "printing and parsing a go pointer changes it")
	nd.Observe("s", p.String())
	nd.Cover("ok")
}

// Local pointers of 0..2 tokens of 0..1 bytes (quick) / 0..2 bytes (thorough), any byte values; go pointers with the same fragments.
func C02_print_then_parse() {
	toks := symTokens(2, nd.Bound(1, 2), "")
	p := pointer.NewPointer()
	base := nd.Choose("base", 2)
	if base == 1 {
		g, err := pointer.NewGoPointer("github.com/acme/x", "")
		nd.Assume(err == nil)
		p.URL = g.URL
	}
	p.Fragment = pointer.Fragment(toks)
	s := p.String()
	q, err := pointer.Parse(s)
	nd.Assert(err == nil, "printed pointer does not parse")
	nd.Assert(eqToks(q.Fragment, toks), "printing and parsing a pointer changes its fragment")
	nd.Assert(q.Scheme == p.Scheme && q.Host == p.Host && q.Path == p.Path, "printing and parsing a pointer changes its document part")
	nd.Assert(q.String() == s, "text of a reparsed pointer differs")
	nd.Observe("s", s)
	nd.Cover("ok")
}

// Pointers with 0..2 tokens of 0..1 ASCII characters (all of 0x00-0x7f) or the token "é".
func C02_json_round_trip() {
	p := pointer.NewPointer()
	if nd.Choose("base", 2) == 1 {
		g, err := pointer.NewGoPointer("github.com/acme/x", "")
		nd.Assume(err == nil)
		p.URL = g.URL
	}
	n := nd.Choose("ntok", 3)
	for i := 0; i < n; i++ {
		t := nd.String("tok", 0, 1, "")
		for k := 0; k < len(t); k++ {
			nd.Assume(t[k] < 0x80)
		}
		if i == 1 && nd.Choose("wide", 2) == 1 {
			t = "é"
		}
		p.Fragment = append(p.Fragment, t)
	}
	b, err := json.Marshal(&p)
	nd.Assert(err == nil, "pointer cannot be encoded as JSON")
	var text string
	nd.Assert(json.Unmarshal(b, &text) == nil, "JSON form of a pointer is not a JSON string")
	nd.Assert(text == p.String(), "JSON form of a pointer is not its text")
	var q pointer.Pointer
	nd.Assert(json.Unmarshal(b, &q) == nil, "JSON form of a pointer does not decode")
	nd.Assert(eqToks(q.Fragment, p.Fragment) && q.Scheme == p.Scheme && q.Host == p.Host && q.Path == p.Path, "JSON round trip changes a pointer")
	nd.Observe("s", text)
	nd.Cover("ok")
}

// Text of 0..2 (quick) / 0..3 (thorough) bytes of any value, after "", "#", "go://a.b/c#" or "#/components/schemas/": the parser never
// panics, and whatever it accepts prints to a text that parses to the same pointer.
func C02_parse_stable() {
	pre := nd.OneOf("pre", "", "#", "go://a.b/c#", "#/components/schemas/")
	s := pre + nd.String("text", 0, nd.Bound(2, 3), "")
	p, err := pointer.Parse(s)
	if err != nil {
		nd.Cover("rejected")
		return
	}
	if pre == "" {
		// opaque or user-info URIs are not pointers; only the fragment is considered
		nd.Assume(p.Opaque == "" && p.Scheme == "" && p.Host == "" && p.Path == "" && p.RawQuery == "" && !p.ForceQuery)
	}
	q, err := pointer.Parse(p.String())
	nd.Assert(err == nil, "text of an accepted pointer is rejected")
	nd.Assert(eqToks(q.Fragment, p.Fragment), "reparsing the text of an accepted pointer changes its fragment")
	nd.Cover("accepted")
}

// Pointer sets of 0..2 local pointers with symbolic one-byte tokens; merging is right-biased and leaves both operands alone.
func C02_sets() {
	mk := func(label string) []pointer.Pointer {
		n := nd.Choose(label, 3)
		var pp []pointer.Pointer
		for i := 0; i < n; i++ {
			p := pointer.NewPointer()
			p.Fragment = append(p.Fragment, nd.String(label, 1, 1, "ab"))
			pp = append(pp, p)
		}
		return pp
	}
	a, b := mk("a"), mk("b")
	sa, sb := pointer.NewPointers(a), pointer.NewPointers(b)
	la, lb := len(sa), len(sb)
	m := sa.Merge(sb)
	nd.Assert(len(sa) == la && len(sb) == lb, "merging pointer sets changes an operand")
	for _, p := range append(append([]pointer.Pointer{}, a...), b...) {
		q, ok := m[p.String()]
		nd.Assert(ok, "merged pointer set lost a pointer")
		nd.Assert(q.String() == p.String(), "merged pointer set filed a pointer under the wrong text")
	}
	for k := range m {
		_, ina := sa[k]
		_, inb := sb[k]
		nd.Assert(ina || inb, "merged pointer set invented a pointer")
	}
	m["x"] = pointer.NewPointer()
	_, ina := sa["x"]
	_, inb := sb["x"]
	nd.Assert(!ina && !inb, "merged pointer set shares storage with an operand")
	nd.Cover("ok")
}
