package pointer

import (
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// Three fragment texts in sequence, each "/" and 1..2 (quick) / 1..3 (thorough) characters over "a A / ~ 0 1": each is split as RFC 6901 says whatever was parsed before, and parsing one leaves all others as they were.
func C01_parsing_has_no_memory() {
	var all []pointer.Fragment
	var want [][]string
	n := nd.Bound(2, 3)
	for i := 0; i < 3; i++ {
		text := "/" + nd.String("text", 1, n, "aA/~01")
		if i == 2 {
			text = "/" + nd.OneOf("last", "a", "A", "~01")
		}
		f, err := pointer.NewFragment(text)
		ref, ok := refParse(text)
		nd.Assert((err == nil) == ok, "fragment accepted or rejected unlike RFC 6901, after others")
		if err != nil {
			continue
		}
		nd.Assert(eqToks(f, ref), "fragment is split unlike RFC 6901, after others")
		for j := range all {
			nd.Assert(eqToks(all[j], want[j]), "parsing a fragment changed another one")
		}
		all = append(all, f)
		want = append(want, ref)
	}
	nd.Cover("ok")
}

// Three go pointers in sequence, of one of six packages (some of them alike but for letter case, host or path) and a type name of 1 (quick) / 1..2 (thorough) letters of both cases: each one is that of its package and name, whatever was parsed before.
func C02_parsing_has_no_memory() {
	for i := 0; i < 3; i++ {
		pkg := nd.OneOf("pkg", "x.io/p", "x.io/P", "X.io/p", "x.io/q", "y.io/p", "p")
		name := nd.String("name", 1, nd.Bound(1, 2), "aAb")
		p, err := pointer.Parse("go://" + pkg + "#/" + name)
		nd.Assert(err == nil, "go pointer is rejected")
		nd.Assert(p.PkgPath() == pkg, "package path of a go pointer depends on those parsed before")
		nd.Assert(eqToks(p.Fragment, []string{name}), "fragment of a go pointer depends on those parsed before")
		nd.Assert(p.String() == "go://"+pkg+"#/"+name, "text of a go pointer depends on those parsed before")
	}
	nd.Cover("ok")
}
