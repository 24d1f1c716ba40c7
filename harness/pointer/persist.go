package pointer

import (
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

func snap(f pointer.Fragment) []string { return append([]string{}, f...) }

// One base fragment (0..2 tokens, with or without spare capacity) and every sequence of 3 (quick) / 4 (thorough) derivations
// (descendant, raw descendant, replace, clone) applied to any earlier fragment: no fragment obtained earlier ever changes.
func C03_derivations_are_persistent() {
	base := pointer.Fragment{}
	if nd.Choose("spare", 2) == 1 {
		base = pointer.NewPointer().Fragment
	}
	n := nd.Choose("ntok", 3)
	for i := 0; i < n; i++ {
		base = append(base, nd.OneOf("tok", "a", "b"))
	}
	all := []pointer.Fragment{base}
	snaps := [][]string{snap(base)}
	steps := nd.Bound(3, 4)
	for i := 0; i < steps; i++ {
		src := all[nd.Choose("src", len(all))]
		var out pointer.Fragment
		var want []string
		w := string([]byte{byte('p' + i)})
		switch nd.Choose("op", 4) {
		case 0:
			d, err := src.Descendant(w)
			nd.Assert(err == nil, "descendant failed")
			out, want = d, append(snap(src), w)
		case 1:
			out, want = src.RawDescendant(w), append(snap(src), w)
		case 2:
			k := nd.Int("k", -1, len(src)+1)
			r, err := src.Replace(k, w)
			if k < 0 || k >= len(src) {
				nd.Assert(err != nil, "replacing a token out of range is not an error")
				continue
			}
			nd.Assert(err == nil, "replacing a token in range failed")
			want = snap(src)
			want[k] = w
			out = r
		case 3:
			out, want = src.Clone(), snap(src)
		}
		nd.Assert(eqToks(out, want), "derived fragment has the wrong tokens")
		all = append(all, out)
		snaps = append(snaps, want)
		for j := range all {
			nd.Assert(eqToks(all[j], snaps[j]), "deriving a fragment changed another one")
		}
	}
	nd.Cover("ok")
}

// Fragments of 0..3 tokens, every index in [-2, len+2].
func C03_replace_bounds() {
	n := nd.Choose("ntok", 4)
	var f pointer.Fragment
	for i := 0; i < n; i++ {
		f = append(f, "t")
	}
	k := nd.Int("k", -2, n+2)
	var r pointer.Fragment
	var err error
	p := nd.Panics(func() { r, err = f.Replace(k, "x") })
	nd.Assert(!p, "replacing a token panics")
	nd.Assert((err == nil) == (k >= 0 && k < n), "index check of replace is wrong")
	if err == nil {
		for i := range r {
			nd.Assert(r[i] == map[bool]string{true: "x", false: "t"}[i == k], "wrong token replaced")
		}
		nd.Assert(len(r) == n, "length changed")
		nd.Cover("replaced")
	}
}

// A pointer with 1..3 tokens: its clone equals it and the two share no storage.
func C03_pointer_clone() {
	p, err := pointer.Parse("go://a.b/c#/x")
	nd.Assume(err == nil)
	n := nd.Choose("extra", 3)
	for i := 0; i < n; i++ {
		p.Fragment = append(p.Fragment, nd.OneOf("tok", "a", "b"))
	}
	before := snap(p.Fragment)
	q := p.Clone()
	nd.Assert(q.String() == p.String() && q.PkgPath() == p.PkgPath(), "clone differs from the original")
	k := nd.Choose("k", len(before))
	q.Fragment[k] = "changed"
	nd.Assert(eqToks(p.Fragment, before), "changing a clone changes the original")
	nd.Cover("ok")
}
