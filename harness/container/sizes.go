package container

import (
	"strconv"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// chain is n objects deep and holds v at the end, what gives the key of each level.
func chain(n int, v interface{}) (doc map[string]interface{}, keys []string) {
	for i := 0; i < n; i++ {
		keys = append(keys, "k.~"+strconv.Itoa(i))
	}
	for i := n - 1; i >= 0; i-- {
		v = map[string]interface{}{keys[i]: v, "other": "o" + strconv.Itoa(i)}
	}
	return v.(map[string]interface{}), keys
}

// wide has n members.
func wide(prefix string, n int, v interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[prefix+strconv.Itoa(i)] = map[string]interface{}{"v": v, "n": float64(i)}
	}
	return m
}

func sizes(label string) int { return []int{3, 4, 5, 6, 7, 9, 12, 20}[nd.Choose(label, 8)] }

// A chain of 3..20 objects with keys to be escaped: the value at its end (a symbolic text) is found at the dot path of the keys, setting it changes nothing else,
// and the path may be made by the call, all levels at once.
func C04_long_paths() {
	n := sizes("depth")
	doc, keys := chain(n, nd.String("v", 0, 1, "xy"))
	p := container.SliceToDotPath(keys)
	nd.Assert(p == refDot(keys), "dot path does not escape '~' as ~0 and '.' as ~1")
	made := nd.Choose("made", 2) == 1
	want, _ := chain(n, "new")
	c, err := container.Make(doc)
	if made {
		c, err = container.Make(map[string]interface{}{})
		m := map[string]interface{}{}
		want = m
		for i, k := range keys {
			if i == n-1 {
				m[k] = "new"
				break
			}
			x := map[string]interface{}{}
			m[k] = x
			m = x
		}
	} else {
		nd.Assert(err == nil && nd.Equal(c.Path(p).Data(), doc2(doc, keys)), "dot path of a key chain addresses something else")
	}
	nd.Assert(err == nil, "cannot make a container")
	nd.Assert(c.ExistsP(p) != made, "existence of a path is not that of its value")
	nd.Assert(c.SetP(p, "new") == nil, "setting a value at a dot path fails")
	nd.Assert(nd.Equal(c.Data(), want), "setting a value at a dot path does not change exactly that key chain")
	nd.Cover("ok")
}

func doc2(v interface{}, keys []string) interface{} {
	for _, k := range keys {
		v = v.(map[string]interface{})[k]
	}
	return v
}

// References 1..20 levels deep (objects and lists in turn), in each of up to 20 members of an object and in each of up to 13 elements of a list: every one is collected once, with the path that leads to it.
func C04_collect_from_large_documents() {
	n := sizes("size")
	ref := func(i int) interface{} { return map[string]interface{}{"$ref": "r" + strconv.Itoa(i)} }
	deep := ref(0)
	at := "$ref"
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			deep, at = []interface{}{"x", deep}, "1."+at
		} else {
			deep, at = map[string]interface{}{"k": deep, "ref": "no"}, "k."+at
		}
	}
	want := map[string]string{"deep." + at: "r0"}
	m := map[string]interface{}{}
	var l []interface{}
	for i := 0; i < n; i++ {
		m["m"+strconv.Itoa(i)] = ref(100 + i)
		want["wide.m"+strconv.Itoa(i)+".$ref"] = "r" + strconv.Itoa(100+i)
		l = append(l, ref(200+i))
		want["list."+strconv.Itoa(i)+".$ref"] = "r" + strconv.Itoa(200+i)
	}
	c, err := container.Make(map[string]interface{}{"deep": deep, "wide": m, "list": l})
	nd.Assert(err == nil, "cannot make a container")
	got, err := container.ExtractKey(c, "$ref")
	nd.Assert(err == nil, "collecting a key fails")
	nd.Assert(len(got) == len(want), "a stored key was not collected exactly once")
	for _, g := range got {
		s, ok := g.Val.(string)
		nd.Assert(ok && want[g.Key] == s, "collected value differs from the stored one")
		nd.Assert(c.ExistsP(g.Key) && nd.Equal(c.Path(g.Key).Data(), s), "path of a collected key does not lead back to its value")
		delete(want, g.Key)
	}
	nd.Cover("ok")
}

// Documents 3..20 levels deep with objects of 3..20 members and lists of as many elements, made, cloned or set below a path: the copy is equal and shares nothing.
func C05_large_documents() {
	d, n := sizes("depth"), sizes("width")
	mk := func() interface{} {
		var l []interface{}
		for i := 0; i < n; i++ {
			l = append(l, map[string]interface{}{"n": float64(i)})
		}
		m, _ := chain(d, map[string]interface{}{"list": l, "wide": wide("m", n, "x")})
		return m
	}
	src, want := mk(), mk()
	c, err := container.Make(src)
	nd.Assert(err == nil, "cannot make a container")
	nd.Assert(nd.Equal(c.Data(), want), "copy differs")
	switch nd.Choose("how", 3) {
	case 0:
		nd.Scramble(src)
	case 1:
		x := c.Clone()
		nd.Scramble(c.Data())
		c = x
	case 2:
		x := container.New()
		nd.Assert(x.SetP("a", c) == nil, "cannot set a value")
		nd.Scramble(c.Data())
		c = x.Path("a")
	}
	nd.Assert(nd.Equal(c.Data(), want), "copy differs, or shares storage")
	nd.Cover("ok")
}

// Two documents that are 3..20 objects deep below the same keys and differ or agree at the end, or of 3..20 members each of which none, the first, the middle, the last or all are common, under all four rules: the result is the union under the rule.
func C06_large_documents() {
	n := sizes("size")
	mode := nd.Choose("mode", 4)
	nd.MapOrder(1)
	var d, s map[string]interface{}
	if nd.Choose("deep", 2) == 1 {
		last := map[string]interface{}{"d": "1", "both": nd.String("d", 1, 1, "xy")}
		d, _ = chain(n, last)
		lasts := map[string]interface{}{"s": "2", "both": nd.String("s", 1, 1, "xy")}
		if nd.Choose("common", 2) == 0 {
			delete(lasts, "both")
		}
		s, _ = chain(n, lasts)
		var bare func(m map[string]interface{})
		bare = func(m map[string]interface{}) {
			delete(m, "other")
			for _, v := range m {
				if x, ok := v.(map[string]interface{}); ok {
					bare(x)
				}
			}
		}
		bare(s)
	} else {
		d, s = wide("d", n, "1"), wide("s", n, "2")
		common := []int{-1, 0, n / 2, n - 1}[nd.Choose("common", 4)]
		if common >= 0 {
			k := "s" + strconv.Itoa(common)
			d[k] = map[string]interface{}{"v": nd.String("d", 1, 1, "12"), "n": float64(common), "d": true}
		}
	}
	dst, err := container.Make(d)
	nd.Assert(err == nil, "cannot make a container")
	src, err := container.Make(s)
	nd.Assert(err == nil, "cannot make a container")
	want, ok := refMerge(d, s, mode)
	err = dst.Merge(src, merger(mode))
	nd.Assert((err == nil) == ok, "merge fails without a collision, or succeeds over one")
	if err == nil {
		nd.Assert(nd.Equal(dst.Data(), want), "merge result is not the union under the chosen rule")
		nd.Cover("merged")
	} else {
		nd.Cover("collision")
	}
}

// 3..20 documents, as values or files, each with members of its own and one it shares with one other document: merged they are the union of all under each rule.
func C06_many_documents() {
	n := sizes("size")
	mode := nd.Choose("mode", 4)
	var cc container.Containers
	want := map[string]interface{}{}
	ok := true
	i, j := 0, n-1
	if nd.Choose("neighbours", 2) == 1 {
		i = n - 2
	}
	for k := 0; k < n; k++ {
		m := map[string]interface{}{"own" + strconv.Itoa(k): map[string]interface{}{"x": float64(k)}, "all": map[string]interface{}{"m" + strconv.Itoa(k): "y"}}
		if k == i || k == j {
			m["both"] = nd.String("both", 1, 1, "xy")
		}
		c, err := container.Make(m)
		nd.Assert(err == nil, "cannot make a container")
		cc = append(cc, c)
		w, fits := refMerge(want, m, mode)
		want, ok = w, ok && fits
	}
	got, err := cc.Merge(merger(mode))
	nd.Assert((err == nil) == ok, "merge fails without a collision, or succeeds over one")
	if err == nil {
		nd.Assert(nd.Equal(got.Data(), want), "merged list is not the union under the chosen rule")
		nd.Cover("merged")
	} else {
		nd.Cover("collision")
	}
}
