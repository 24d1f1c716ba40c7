package container

import (
	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

const (
	strict = iota
	deflt
	override
	same
)

func merger(mode int) container.Merger {
	return []container.Merger{container.MergeStrict, container.MergeDefault, container.MergeOverride, container.MergeSame}[mode]
}

// refMerge is the specification of a merge on plain values; ok is false when a strict merge has to fail.
func refMerge(d, s map[string]interface{}, mode int) (out map[string]interface{}, ok bool) {
	out = nd.Copy(d).(map[string]interface{})
	ok = true
	for k, sv := range s {
		dv, has := out[k]
		if !has {
			out[k] = nd.Copy(sv)
			continue
		}
		dm, isd := dv.(map[string]interface{})
		sm, iss := sv.(map[string]interface{})
		if isd && iss {
			sub, ok2 := refMerge(dm, sm, mode)
			out[k] = sub
			ok = ok && ok2
			continue
		}
		switch mode {
		case strict:
			ok = false
		case same:
			ok = ok && nd.Equal(dv, sv)
		case override:
			out[k] = nd.Copy(sv)
		}
	}
	return out, ok
}

// Destination over keys a and b (or the empty key) and source over the same keys (depth 2, inner key a; thorough: inner keys a and b) with symbolic scalars, nulls and one-element arrays; every map order of
// one direction; all four merge rules (equal values collide under the strict one only).
func C06_merge_laws() {
	keys := []string{"a", nd.OneOf("other", "b", "")}
	d := nd.Obj("d", 2, keys, 1, "xy")
	s := nd.Obj("s", 2, keys, nd.Bound(1, 2), "xy")
	mode := nd.Choose("mode", 4)
	dst, err := container.Make(d)
	nd.Assert(err == nil, "cannot make a container")
	src, err := container.Make(s)
	nd.Assert(err == nil, "cannot make a container")
	want, ok := refMerge(d, s, mode)
	err = dst.Merge(src, merger(mode))
	nd.Assert((err == nil) == ok, "merge fails without a collision, or succeeds over one")
	if err == nil {
		nd.Assert(nd.Equal(dst.Data(), want), "merge result is not the union under the chosen rule")
		nd.Cover("merged")
	} else {
		nd.Cover("collision")
	}
}

// Three documents over keys a.b, ~ (depth 1) and a, made from values or read from files (in the opposite order of their names, thorough: also in the same), merged as a list in each mode: equals folding left to right; strict fails exactly on collision.
func C06_merge_list() {
	mode := nd.Choose("mode", 4)
	var cc container.Containers
	want := map[string]interface{}{}
	ok := true
	files := nd.Choose("files", nd.Bound(2, 3))
	for i := 0; i < 3; i++ {
		m := map[string]interface{}{}
		for _, k := range []string{"a.b", "~"} {
			if nd.Choose("has", 2) == 1 {
				m[k] = nd.String("v", 1, 1, "xy")
			}
		}
		if nd.Choose("nested", 2) == 1 {
			m["a"] = map[string]interface{}{string([]byte{byte('p' + i)}): "z"}
		}
		c, err := container.Make(m)
		nd.Assert(err == nil, "cannot make a container")
		if files > 0 {
			// names which are in the opposite order, or in the same
			name := nd.TempDir() + "/" + []string{"", "cba", "abc"}[files][i:i+1] + ".json"
			nd.WriteFile(name, string(c.Bytes()))
			c, err = container.ReadFile(name)
			nd.Assert(err == nil, "cannot read a document")
		}
		cc = append(cc, c)
		if ok {
			want, ok = refMerge(want, m, mode)
		}
	}
	got, err := cc.Merge(merger(mode))
	nd.Assert((err == nil) == ok, "merging a list fails without a collision, or succeeds over one")
	if err == nil {
		nd.Assert(nd.Equal(got.Data(), want), "merging a list is not folding it left to right")
		nd.Cover("merged")
	}
}

// Disjoint documents (keys of one start with p, of the other with q) merge to the same result in either order and mode.
func C06_disjoint_commutes() {
	a := map[string]interface{}{"o": map[string]interface{}{"p" + nd.String("ka", 0, 1, "ab"): nd.Leaf("va", "xy")}}
	b := map[string]interface{}{"o": map[string]interface{}{"q" + nd.String("kb", 0, 1, "ab"): nd.Leaf("vb", "xy")}, "n": nd.Leaf("vc", "xy")}
	ca, err := container.Make(a)
	nd.Assert(err == nil, "make")
	cb, err := container.Make(b)
	nd.Assert(err == nil, "make")
	m1, m2 := nd.Choose("m1", 3), nd.Choose("m2", 3)
	x, err := container.Containers{ca, cb}.Merge(merger(m1))
	nd.Assert(err == nil, "merging disjoint documents fails")
	y, err := container.Containers{cb, ca}.Merge(merger(m2))
	nd.Assert(err == nil, "merging disjoint documents fails")
	nd.Assert(nd.Equal(x.Data(), y.Data()), "merging disjoint documents depends on order or mode")
	nd.Cover("ok")
}
