package container

import (
	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// refDot is an independent encoder of a key list as a dot path.
func refDot(keys []string) string {
	out := ""
	for i, k := range keys {
		if i > 0 {
			out += "."
		}
		for j := 0; j < len(k); j++ {
			switch k[j] {
			case '~':
				out += "~0"
			case '.':
				out += "~1"
			default:
				out += k[j : j+1]
			}
		}
	}
	return out
}

func symKeys(max, maxLen int, charset string) []string {
	n := 1 + nd.Choose("nkeys", max)
	var ks []string
	for i := 0; i < n; i++ {
		ks = append(ks, nd.String("key", 0, maxLen, charset))
	}
	return ks
}

// Key lists of 1..2 keys of 0..2 (quick) / 0..3 (thorough) bytes, any byte values: the dot path of the list addresses exactly that key chain.
func C04_path_of_keys() {
	keys := symKeys(2, nd.Bound(2, 3), "")
	p := container.SliceToDotPath(keys)
	nd.Assert(p == refDot(keys), "dot path does not escape '~' as ~0 and '.' as ~1")
	var v interface{} = "leaf"
	for i := len(keys) - 1; i >= 0; i-- {
		v = map[string]interface{}{keys[i]: v}
	}
	c, err := container.Make(map[string]interface{}{})
	nd.Assert(err == nil, "cannot make a container")
	c.Data().(map[string]interface{})[keys[0]] = v.(map[string]interface{})[keys[0]]
	nd.Assert(c.ExistsP(p), "value under a key chain is not found at its dot path")
	s, ok := c.Path(p).Data().(string)
	nd.Assert(ok && s == "leaf", "dot path of a key chain addresses something else")
	nd.Cover("ok")
}

// A document with 1..2 pre-existing keys and a key list of 1..2 keys of 0..2 bytes over "ab.~01": setting a value at the dot path makes exactly
// that key chain hold the value and changes no other key.
func C04_set_then_get() {
	doc := map[string]interface{}{"a": map[string]interface{}{"b": "x"}, "k": "y"}
	keys := symKeys(2, nd.Bound(1, 2), "ab.~01")
	nd.Assume(!(keys[0] == "k" && len(keys) > 1))
	c, err := container.Make(doc)
	nd.Assert(err == nil, "cannot make a container")
	want := nd.Copy(doc).(map[string]interface{})
	m := want
	for i, k := range keys {
		if i == len(keys)-1 {
			m[k] = "new"
			break
		}
		if _, ok := m[k].(map[string]interface{}); !ok {
			m[k] = map[string]interface{}{}
		}
		m = m[k].(map[string]interface{})
	}
	err = c.SetP(container.SliceToDotPath(keys), "new")
	nd.Assert(err == nil, "setting a value at a dot path fails")
	nd.Assert(nd.Equal(c.Data(), want), "setting a value at a dot path does not change exactly that key chain")
	s, ok := c.Path(refDot(keys)).Data().(string)
	nd.Assert(ok && s == "new", "value set at a dot path is not found there")
	nd.Cover("ok")
}

type hit struct {
	keys []string
	val  interface{}
}

func collect(v interface{}, at []string, key string, out *[]hit) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			p := append(append([]string{}, at...), k)
			switch e.(type) {
			case map[string]interface{}, []interface{}:
			default:
				if k == key {
					*out = append(*out, hit{p, e})
				}
				continue
			}
			collect(e, p, key, out)
		}
	case []interface{}:
		for i, e := range x {
			collect(e, append(append([]string{}, at...), string([]byte{byte('0' + i)})), key, out)
		}
	}
}

func refDoc(label string, depth int) interface{} {
	switch nd.Choose(label, map[bool]int{true: 6, false: 4}[depth > 0]) {
	case 0:
		return nd.String(label+".s", 1, 1, "xy")
	case 1:
		return map[string]interface{}{"$ref": nd.String(label+".r", 1, 1, "xy")}
	case 2:
		return map[string]interface{}{"$ref": "r", "ref": "n", "a.$ref": "m"}
	case 3:
		return map[string]interface{}{"$ref": nil, "a": map[string]interface{}{"$ref": true}}
	case 4:
		return map[string]interface{}{nd.String(label+".k", 1, nd.Bound(1, 2), "k.~$"): refDoc(label+"m", depth-1), "$ref": nd.String(label+".r", 1, 1, "xy")}
	default:
		return []interface{}{refDoc(label+"0", depth-1), refDoc(label+"1", depth-1)}
	}
}

// Documents of nesting depth 3 with objects, arrays, several "$ref" keys and symbolic keys over "k . ~ $": collecting a key returns every scalar (symbolic string, null, boolean)
// stored under that key exactly once, with a path that leads back to it.
func C04_collect_key() {
	v := map[string]interface{}{"top": refDoc("d", 2), "x": refDoc("e", nd.Bound(0, 1))}
	c, err := container.Make(v)
	nd.Assert(err == nil, "cannot make a container")
	got, err := container.ExtractKey(c, "$ref")
	nd.Assert(err == nil, "collecting a key fails")
	var want []hit
	collect(v, nil, "$ref", &want)
	for _, w := range want {
		n := 0
		p := refDot(w.keys)
		for _, g := range got {
			if g.Key == p {
				n++
				nd.Assert(nd.Equal(g.Val, w.val), "collected value differs from the stored one")
			}
		}
		nd.Assert(n == 1, "a stored key was not collected exactly once")
		nd.Assert(c.ExistsP(p) && nd.Equal(c.Path(p).Data(), w.val), "path of a collected key does not lead back to its value")
	}
	if len(want) > 0 {
		nd.Cover("found")
	}
	nd.Assert(len(got) == len(want), "collected something that is not stored under the key")
}

// Objects of 0..2 keys, arrays, scalars and null, as document and below keys of 1..2 characters over "a . ~": children of a non-object are an error, never a panic, and any value, null included, is present.
func C04_children() {
	var v interface{}
	kind := nd.Choose("kind", 5)
	switch kind {
	case 0:
		v = nil
	case 1:
		v = nd.String("s", 0, 1, "")
	case 2:
		v = []interface{}{"a"}
	case 3:
		v = 1.5
	case 4:
		v = nd.Obj("o", 2, []string{"a", "b.c"}, 1, "xy")
	}
	c, err := container.Make(v)
	nd.Assert(err == nil, "cannot make a container")
	ch, err := c.ChildrenMap()
	m, isMap := v.(map[string]interface{})
	nd.Assert((err == nil) == (isMap || v == nil), "children of a non-object are not an error")
	nd.Assert(len(ch) == len(m), "wrong number of children")
	for k := range m {
		e, ok := ch[k]
		nd.Assert(ok && nd.Equal(e.Data(), m[k]), "child missing or different")
	}
	nd.Assert(c.IsNil() == (v == nil), "a value that is present is reported as absent")
	// any kind of value below a key
	key := nd.String("key", 1, 2, "a.~")
	d, err := container.Make(map[string]interface{}{key: v, "x": map[string]interface{}{key: v}})
	nd.Assert(err == nil, "cannot make a container")
	nd.Assert(d.ExistsP(refDot([]string{key})) && d.ExistsP(refDot([]string{"x", key})), "a value that is present is reported as absent")
	other := nd.String("other", 1, 2, "a.~")
	nd.Assert(d.ExistsP(refDot([]string{other})) == (other == key), "presence of a key is not reported exactly")
	nd.Assert(d.Path(refDot([]string{key})).IsNil() == (v == nil), "a value that is present is reported as absent")
	nd.Cover("ok")
}
