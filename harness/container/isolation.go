package container

import (
	"encoding/json"
	"math"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// Trees of depth 2 over keys a, b with symbolic scalars, nulls and arrays: making a document copies the value; later changes to either side
// do not show on the other.
func C05_make_copies() {
	v := nd.Obj("v", 2, []string{"a", "b"}, nd.Bound(1, 2), "xy")
	want := nd.Copy(v)
	c, err := container.Make(v)
	nd.Assert(err == nil, "cannot make a container")
	nd.Assert(nd.Equal(c.Data(), want), "container differs from the value it was made from")
	nd.Scramble(v)
	nd.Assert(nd.Equal(c.Data(), want), "changing the source value changes the container")
	d, err := container.Make(c)
	nd.Assert(err == nil && nd.Equal(d.Data(), want), "container made from a container differs")
	e, err := container.Make(&c)
	nd.Assert(err == nil && nd.Equal(e.Data(), want), "container made from a container pointer differs")
	nd.Scramble(c.Data())
	nd.Assert(nd.Equal(d.Data(), want) && nd.Equal(e.Data(), want), "containers share storage")
	nd.Cover("ok")
}

// Trees as above: clones are equal and independent in both directions.
func C05_clone_is_independent() {
	v := nd.Obj("v", 2, []string{"a", "b"}, nd.Bound(1, 2), "xy")
	want := nd.Copy(v)
	c, err := container.Make(v)
	nd.Assert(err == nil, "cannot make a container")
	d := c.Clone()
	nd.Assert(nd.Equal(d.Data(), want), "clone differs")
	if nd.Choose("side", 2) == 0 {
		nd.Scramble(c.Data())
		nd.Assert(nd.Equal(d.Data(), want), "changing the original changes its clone")
	} else {
		nd.Scramble(d.Data())
		nd.Assert(nd.Equal(c.Data(), want), "changing a clone changes the original")
	}
	nd.Cover("ok")
}

// A value set at a path (plain value or container) is a copy.
func C05_set_copies() {
	v := nd.Obj("v", 2, []string{"a", "b"}, 1, "xy")
	want := nd.Copy(v)
	c := container.New()
	var err error
	switch nd.Choose("how", 3) {
	case 0:
		err = c.SetP("p.q", v)
		nd.Assert(err == nil, "cannot set")
		nd.Scramble(v)
	case 1:
		d, err := container.Make(v)
		nd.Assert(err == nil, "cannot make a container")
		err = c.SetP("p.q", d)
		nd.Assert(err == nil, "cannot set")
		nd.Scramble(d.Data())
	case 2:
		d, err := container.Make(v)
		nd.Assert(err == nil, "cannot make a container")
		err = c.SetP("p.q", &d)
		nd.Assert(err == nil, "cannot set")
		nd.Scramble(c.Path("p.q").Data())
		nd.Assert(nd.Equal(d.Data(), want), "changing the target changes the value that was set")
		nd.Cover("target")
		return
	}
	nd.Assert(nd.Equal(c.Path("p.q").Data(), want), "changing a value after setting it changes the container")
	nd.Cover("source")
}

// The whole content replaced by a value (plain, container or pointer to one) is a copy of it, too, whatever it was before.
func C05_replace_copies() {
	v := nd.Obj("v", 2, []string{"a", "b"}, 1, "xy")
	want := nd.Copy(v)
	c, err := container.Make(nd.Obj("c", 1, []string{"a", "z"}, 1, "xy"))
	nd.Assert(err == nil, "cannot make a container")
	d, err := container.Make(v)
	nd.Assert(err == nil, "cannot make a container")
	var source interface{} = v
	switch nd.Choose("how", 3) {
	case 0:
		err = c.Set(v)
	case 1:
		err, source = c.Set(d), d.Data()
	case 2:
		err, source = c.Set(&d), d.Data()
	}
	nd.Assert(err == nil, "cannot set")
	nd.Assert(nd.Equal(c.Data(), want), "the content is not the value that was set")
	if nd.Choose("side", 2) == 0 {
		nd.Scramble(source)
		nd.Assert(nd.Equal(c.Data(), want), "changing a value after setting it changes the container")
	} else {
		nd.Scramble(c.Data())
		nd.Assert(nd.Equal(source, want), "changing the target changes the value that was set")
	}
	nd.Cover("ok")
}

// Lists of 0..3 documents in any order: sorting or merging a list leaves the list and its documents as they were.
func C05_lists_stay() {
	var cc container.Containers
	var want []interface{}
	dir := nd.TempDir()
	for i := nd.Choose("n", 4); i > 0; i-- {
		name := dir + "/" + nd.OneOf("name", "a.json", "b.json", "c.json")
		nd.WriteFile(name, `{"k`+nd.String("k", 1, 1, "xy")+`": 1}`)
		c, err := container.ReadFile(name)
		nd.Assert(err == nil, "cannot read a document")
		cc = append(cc, c)
		want = append(want, nd.Copy(c.Data()))
	}
	paths := []string{}
	for _, c := range cc {
		paths = append(paths, c.FilePath())
	}
	sorted := cc.Sort()
	nd.Assert(len(sorted) == len(cc), "sorting loses documents")
	_, _ = cc.Merge(container.MergeOverride)
	if len(sorted) > 0 && nd.Choose("scramble", 2) == 1 {
		sorted[0] = container.New()
	}
	for i, c := range cc {
		nd.Assert(c.FilePath() == paths[i] && nd.Equal(c.Data(), want[i]), "sorting or merging a list changes it")
		for j := 0; j+1 < len(sorted); j++ {
			nd.Assert(j == 0 || sorted[j].FilePath() <= sorted[j+1].FilePath(), "sorted list is not in order")
		}
	}
	nd.Cover("ok")
}

// Merging never changes the source and shares nothing with it.
func C05_merge_isolates_source() {
	keys := []string{"a", "b"}
	s := nd.Obj("s", 2, keys, 1, "xy")
	want := nd.Copy(s)
	dst, err := container.Make(nd.Obj("d", 2, keys[:1], 1, "xy"))
	nd.Assert(err == nil, "cannot make a container")
	src, err := container.Make(s)
	nd.Assert(err == nil, "cannot make a container")
	var fn container.Merger
	switch nd.Choose("mode", 3) {
	case 0:
		fn = container.MergeStrict
	case 1:
		fn = container.MergeDefault
	case 2:
		fn = container.MergeOverride
	}
	_ = dst.Merge(src, fn)
	nd.Assert(nd.Equal(src.Data(), want), "merging changes the source")
	got := nd.Copy(dst.Data())
	nd.Scramble(src.Data())
	nd.Assert(nd.Equal(dst.Data(), got), "changing the source after a merge changes the result")
	nd.Cover("ok")
}

// Scalars: any string of 0..3 bytes of valid UTF-8 ASCII (all of 0x00-0x7f), numbers, booleans and null survive copying and JSON rendering.
func C05_scalars_survive() {
	var v interface{}
	switch nd.Choose("kind", 4) {
	case 0:
		s := nd.String("s", 0, nd.Bound(2, 3), "")
		for i := 0; i < len(s); i++ {
			nd.Assume(s[i] < 0x80)
		}
		v = s
	case 1:
		v = nd.Bool("b")
	case 2:
		v = float64(nd.Choose("n", 5)-2) * 1.25
	case 3:
		v = nil
	}
	c, err := container.Make(map[string]interface{}{"k": v})
	nd.Assert(err == nil, "cannot make a container")
	nd.Assert(nd.Equal(c.Path("k").Data(), v), "copying a scalar changes it")
	b, err := json.Marshal(c)
	nd.Assert(err == nil, "cannot render a container")
	d, err := container.ReadJSON(b)
	nd.Assert(err == nil, "rendered container does not parse")
	nd.Assert(nd.Equal(d.Path("k").Data(), v), "rendering and reading a scalar changes it")
	e, err := container.ReadJSON(c.Bytes())
	nd.Assert(err == nil && nd.Equal(e.Path("k").Data(), v), "bytes of a container do not read back")
	nd.Observe("json", string(b))
	nd.Cover("ok")
}

// Values without a JSON form (channel, function, complex number, NaN, infinity; alone, in an object or in a list): making a document of one and setting one at a path or as the whole content are errors, and leave the
// document as it was.
func C05_not_json_is_an_error() {
	var bad interface{}
	switch nd.Choose("kind", 5) {
	case 0:
		bad = make(chan int)
	case 1:
		bad = func() {}
	case 2:
		bad = complex(1, 1)
	case 3:
		bad = math.NaN()
	case 4:
		bad = math.Inf(1)
	}
	switch nd.Choose("where", 3) {
	case 1:
		bad = map[string]interface{}{"a": "x", "k": bad}
	case 2:
		bad = []interface{}{"x", bad}
	}
	_, err := container.Make(bad)
	nd.Assert(err != nil, "document made of a value that is not JSON")
	v := nd.Obj("v", 1, []string{"a", "b"}, 1, "xy")
	want := nd.Copy(v)
	c, err := container.Make(v)
	nd.Assert(err == nil, "cannot make a container")
	if nd.Choose("whole", 2) == 1 {
		err = c.Set(bad)
	} else {
		err = c.SetP("a.b", bad)
	}
	nd.Assert(err != nil, "setting a value that is not JSON is not an error")
	nd.Assert(nd.Equal(c.Data(), want), "failed setting changes the document")
	nd.Cover("ok")
}

// Values as YAML gives them, with keys of 3 kinds (symbolic text of 1..2 characters, number, boolean) in maps with keys of any type, in 6 places (below each other, in objects, in arrays and in arrays of arrays): making a document of one, cloning it and setting it at a path give what JSON makes of it.
func C05_keys_of_any_type() {
	type any = map[interface{}]interface{}
	var k interface{}
	key := ""
	switch nd.Choose("key", 3) {
	case 0:
		key = nd.String("text", 1, 2, "ab.~ ")
		k = key
	case 1:
		k, key = 200, "200"
	case 2:
		k, key = true, "true"
	}
	m := any{k: "v", "z/": any{k: 1.0}}
	s := map[string]interface{}{key: "v", "z/": map[string]interface{}{key: 1.0}}
	var v, want interface{}
	switch nd.Choose("place", 6) {
	case 0:
		v, want = m, s
	case 1:
		v, want = any{1: m}, map[string]interface{}{"1": s}
	case 2:
		v, want = map[string]interface{}{"a": m, "b": "c"}, map[string]interface{}{"a": s, "b": "c"}
	case 3:
		v, want = []interface{}{"x", m}, []interface{}{"x", s}
	case 4:
		v, want = []interface{}{[]interface{}{m}, "x"}, []interface{}{[]interface{}{s}, "x"}
	case 5:
		v, want = any{"a": []interface{}{map[string]interface{}{"b": []interface{}{m}}}}, map[string]interface{}{"a": []interface{}{map[string]interface{}{"b": []interface{}{s}}}}
	}
	switch nd.Choose("how", 3) {
	case 0:
		c, err := container.Make(v)
		nd.Assert(err == nil, "cannot make a container")
		nd.Assert(nd.Equal(c.Data(), want), "copy differs from the original")
	case 1:
		c := container.New()
		nd.Assert(c.SetP("a.b", v) == nil, "cannot set a value")
		nd.Assert(nd.Equal(c.Path("a.b").Data(), want), "value differs from the one that was set")
	case 2:
		c := container.New()
		nd.Assert(c.Set(v) == nil, "cannot set a value")
		nd.Assert(nd.Equal(c.Clone().Data(), want), "copy differs from the original")
	}
	nd.Cover("ok")
}
