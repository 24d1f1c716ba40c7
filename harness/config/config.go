package config

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/config"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

type obj = map[string]interface{}
type arr = []interface{}

func bytes(v interface{}) []byte {
	c, err := container.Make(v)
	nd.Assert(err == nil, "make")
	return c.Bytes()
}

// put writes a configuration in the syntax its name says (YAML in block or flow style).
func put(file string, v interface{}) {
	b := bytes(v)
	if ext := filepath.Ext(file); ext != ".json" && nd.Choose("style", 2) == 1 {
		var err error
		c, _ := container.Make(v)
		b, err = container.NewSortMarshaller(c, container.SortMapMarhsaler(nil)).MarshalYAML()
		nd.Assert(err == nil, "yaml")
	}
	nd.WriteFile(file, string(b))
}

// flat is a configuration as plain data, without the place it was read from and what it extends.
func flat(c config.Config) interface{} {
	c.FilePath, c.ExtendsPath = "", ""
	b, err := json.Marshal(c)
	nd.Assert(err == nil, "configuration cannot be encoded")
	var v interface{}
	nd.Assert(json.Unmarshal(b, &v) == nil, "configuration is not JSON")
	return v
}

// over is base completed by own: own wins, objects on both sides are united.
func over(own, base obj) obj {
	out := nd.Copy(own).(obj)
	for k, v := range base {
		w, ok := out[k]
		if !ok {
			out[k] = v
			continue
		}
		x, ok1 := w.(obj)
		y, ok2 := v.(obj)
		if ok1 && ok2 {
			out[k] = over(x, y)
		}
	}
	return out
}

var texts = []string{"version", "openapi", "format", "dir", "output"}

// section is one section of a configuration.
func section(label string, v string) (string, interface{}) {
	switch k := nd.Choose(label, 13); k {
	case 0, 1, 2, 3, 4:
		return texts[k], v
	case 5:
		return "info", obj{"title": v, "version": "1"}
	case 6:
		return "info", obj{"description": v, "version": v, "contact": obj{"email": v}}
	case 7:
		return "servers", arr{obj{"url": v}, obj{"url": "u"}}
	case 8:
		return "security", arr{obj{"key": arr{v}}}
	case 9:
		return "tags", arr{obj{"name": v}}
	case 10:
		return "components", obj{"schemas": obj{"A": obj{"type": "string", "description": v}, "B." + v: obj{"type": "number"}}}
	case 11:
		return "overrides", obj{"go://x.io/p#/T": obj{"type": "string", "title": v}, "go://x.io/" + v + ".q#/T": obj{"type": "integer"}}
	default:
		return "operations", obj{"/v1*": obj{"summary": v, "tags": arr{v}}, "get /" + v + ".x/*": obj{"operationId": v}}
	}
}

func text(label string) string { return nd.String(label, 0, nd.Bound(1, 2), "a~./*") }

// A configuration with one or two of 13 sections and one that it extends with one or two others (symbolic texts of 0..1 / 0..2 characters): the result is that of a file which states the own sections and, where these state nothing, those of the
// other file, within sections as well.
func C20_extending_a_configuration() {
	nd.MapOrder(1)
	own, base := obj{}, obj{}
	for i, m := range []obj{own, base} {
		l := string(rune('a' + i))
		v := text(l)
		k, s := section(l+"1", v)
		m[k] = s
		if i == 0 || nd.Choose(l+"more", 2) == 0 {
			m["exclude"] = arr{v, l}
			continue
		}
		k, s = section(l+"2", "b")
		m[k] = s
	}
	file := filepath.Join(nd.TempDir(), "c.yaml")
	own["extends"] = "sub/base.json"
	nd.WriteFile(file, string(bytes(own)))
	nd.WriteFile(filepath.Join(nd.TempDir(), "sub", "base.json"), string(bytes(base)))
	got, err := config.ReadFile(file)
	nd.Assert(err == nil, "a configuration is rejected")
	check(got, over(own, base))
	nd.Cover("ok")
}

// A configuration in one of 4 files which extends another one of 4 or nothing, both in YAML (block or flow style) or JSON: the one that is extended is found relative to the directory of the first, or by its absolute path, whatever the names of
// directories and files are and whether the first is named relative to the working directory or not; a configuration stating nothing to extend is exactly what it states.
func C20_place_of_the_extended_configuration() {
	v := text("a")
	own, base := obj{"dir": v, "info": obj{"title": "t", "version": "1"}}, obj{"format": "go", "dir": "other", "info": obj{"title": "x", "description": v}}
	kind := nd.Choose("file", 4)
	file := filepath.Join(nd.TempDir(), []string{"c.yaml", "x/c.yml", "x/c.json", "x.y/c.yaml"}[kind])
	other := nd.OneOf("other", "base.json", "../base.yaml", "./sub/base.yml", "b.a.s/e.yaml")
	place := filepath.Join(filepath.Dir(file), other)
	want := obj(own)
	switch nd.Choose("extends", 4) {
	case 1:
		own["extends"] = other
		want = over(own, base)
	case 2:
		own["extends"] = place
		want = over(own, base)
	case 3: // a file that is not extended does not count
		place = filepath.Join(nd.TempDir(), "elsewhere", other)
	}
	put(place, base)
	put(file, own)
	if nd.Choose("relative", 2) == 1 { // to the working directory
		nd.Chdir(nd.TempDir())
		file = file[len(nd.TempDir())+1:]
	}
	got, err := config.ReadFile(file)
	nd.Assert(err == nil, "a configuration is rejected")
	nd.Assert(got.FilePath == file, "the place of the configuration is lost")
	check(got, want)
	nd.Cover("ok")
}

func check(got config.Config, want obj) {
	str := func(k string) string { s, _ := want[k].(string); return s }
	nd.Assert(got.Version == str("version") && got.OpenAPI == str("openapi") && got.Format == str("format") && got.Dir == str("dir") && got.Output == str("output"), "a setting is not the one that the configuration states")
	var c config.Config
	nd.Assert(json.Unmarshal(bytes(want), &c) == nil, "decode")
	nd.Assert(nd.Equal(flat(got), flat(c)), "a section is not the one that the configuration states")
}

// The same configuration of two of 13 sections given as JSON text and as YAML text, from memory and from files: all four give the same configuration, which is what is stated.
func C20_syntax_makes_no_difference() {
	own := obj{}
	v := text("v")
	for _, l := range []string{"a", "b"} {
		k, s := section(l, v)
		own[k] = s
	}
	c, err := container.Make(own)
	nd.Assert(err == nil, "make")
	y, err := container.NewSortMarshaller(c, container.SortMapMarhsaler(nil)).MarshalYAML()
	nd.Assert(err == nil, "yaml")
	var got [5]config.Config
	got[0], err = config.ReadJSON(c.Bytes())
	nd.Assert(err == nil, "JSON is rejected")
	got[1], err = config.ReadYAML(y)
	nd.Assert(err == nil, "YAML is rejected")
	got[2], err = config.ReadYAML(c.Bytes())
	nd.Assert(err == nil, "YAML in flow style is rejected")
	nd.WriteFile(filepath.Join(nd.TempDir(), "a.json"), string(c.Bytes()))
	nd.WriteFile(filepath.Join(nd.TempDir(), "a.yml"), string(y))
	got[3], err = config.ReadFile(filepath.Join(nd.TempDir(), "a.json"))
	nd.Assert(err == nil, "a JSON file is rejected")
	got[4], err = config.ReadFile(filepath.Join(nd.TempDir(), "a.yml"))
	nd.Assert(err == nil, "a YAML file is rejected")
	for i := range got {
		check(got[i], own)
	}
	nd.Cover("ok")
}

// A configuration which is missing, of another kind of file, or extends such a file; whose text, or that of the one it extends, cannot be read (6 texts), or with a value of the wrong type in either: it is an error, never a configuration with part of it.
func C20_unreadable_configuration() {
	root := nd.TempDir()
	a, b := filepath.Join(root, "a.yaml"), filepath.Join(root, "d", "b.yaml")
	direct := nd.Choose("direct", 2) == 1
	bad := b
	if direct {
		bad = a
	} else {
		nd.WriteFile(a, "format: json\nextends: d/b.yaml\n")
	}
	switch nd.Choose("what", 4) {
	case 0: // missing
	case 1:
		nd.WriteFile(bad, nd.OneOf("text", "a: [", "{", "a:\n\t- b", "version: \"1\"\n dir: c\n", "dir: b: c", "openapi: *x"))
	case 2:
		nd.WriteFile(bad, nd.OneOf("type", "dir: [a]", "info: 1", "servers: {}", "exclude: 5", "operations: [a]", "components: x", "output: {}"))
	case 3:
		name := nd.OneOf("name", "a.txt", "a", "a.toml", "yaml")
		nd.WriteFile(filepath.Join(root, name), "format: json\n")
		if direct {
			a = filepath.Join(root, name)
		} else {
			nd.WriteFile(a, "format: json\nextends: "+name+"\n")
		}
	}
	_, err := config.ReadFile(a)
	nd.Assert(err != nil, "a configuration that cannot be read is no error")
	nd.Cover("ok")
}

// A configuration given as text, as JSON or YAML, which extends a file by its absolute path or states one of 9 things that are wrong: it completes itself from that file, or is an error.
func C20_configuration_from_text() {
	base := filepath.Join(nd.TempDir(), "base.yaml")
	nd.WriteFile(base, "format: go\ndir: other\ninfo:\n  title: x\n  description: "+nd.OneOf("d", "a", "'~'")+"\n")
	own := obj{"dir": text("dir"), "info": obj{"title": "t"}}
	want := obj(nil)
	raw := ""
	switch k := nd.Choose("what", 12); k {
	case 0:
		want = own
	case 1, 2:
		own["extends"] = base
		c, err := config.ReadFile(base)
		nd.Assert(err == nil && c.Info != nil, "a configuration is rejected")
		want = over(own, obj{"format": "go", "dir": "other", "info": obj{"title": "x", "description": c.Info.Description}})
	case 3:
		own["extends"] = base + "x"
	case 4:
		own["extends"] = 5
	case 5:
		nd.WriteFile(base, "dir: [")
		own["extends"] = base
	case 6:
		nd.WriteFile(base, "format: {}")
		own["extends"] = base
	case 7:
		own["output"] = arr{}
	case 8:
		own["components"] = "x"
	default:
		raw = []string{"{\"dir\": ", "{\"dir\": \"a\"", "[1]"}[k-9]
	}
	if raw == "" {
		raw = string(bytes(own))
	}
	var c config.Config
	var err error
	if nd.Choose("yaml", 2) == 1 {
		c, err = config.ReadYAML([]byte(raw))
	} else {
		c, err = config.ReadJSON([]byte(raw))
	}
	if want == nil {
		nd.Assert(err != nil, "a configuration that cannot be read is no error")
		nd.Cover("error")
		return
	}
	nd.Assert(err == nil, "a configuration is rejected")
	check(c, want)
	nd.Cover("ok")
}

// Two configurations which extend the same file are read, then that file, or the first one, stays, is rewritten (with another symbolic text), becomes unreadable or is removed, and both are read again: each one is what the files state at that time, whatever was read before, and the earlier ones stay.
func C20_reading_has_no_memory() {
	t := text("a")
	in := func(n string) string { return filepath.Join(nd.TempDir(), n) }
	own := []obj{{"extends": "base.json", "format": "go", "info": obj{"title": "t"}}, {"extends": "base.json", "dir": t}}
	base := obj{"format": "json", "dir": "d", "info": obj{"title": "x", "description": t}}
	nd.WriteFile(in("base.json"), string(bytes(base)))
	names := []string{in("a.json"), in("b.json")}
	var first []config.Config
	for i, o := range own {
		nd.WriteFile(names[i], string(bytes(o)))
	}
	for i, o := range own {
		c, err := config.ReadFile(names[i])
		nd.Assert(err == nil, "a configuration is rejected")
		check(c, over(o, base))
		first = append(first, c)
	}
	snap := []interface{}{flat(first[0]), flat(first[1])}
	bad := []bool{false, false}
	what := nd.Choose("what", 2)
	switch nd.Choose("then", 4) {
	case 1:
		if what == 0 {
			base = obj{"format": t, "output": "o", "info": obj{"version": t}}
			nd.WriteFile(in("base.json"), string(bytes(base)))
		} else {
			own[0] = obj{"extends": "base.json", "output": t}
			nd.WriteFile(names[0], string(bytes(own[0])))
		}
	case 2:
		nd.WriteFile(in([]string{"base.json", "a.json"}[what]), "{")
		bad = []bool{true, what == 0}
	case 3:
		nd.Assert(os.Remove(in([]string{"base.json", "a.json"}[what])) == nil, "remove")
		bad = []bool{true, what == 0}
	}
	for i, o := range own {
		c, err := config.ReadFile(names[i])
		nd.Assert((err != nil) == bad[i], "a configuration which cannot be read any more is no error, or one which can is")
		if err == nil {
			check(c, over(o, base))
		}
	}
	for i := range first {
		nd.Assert(nd.Equal(flat(first[i]), snap[i]), "reading a configuration changes an earlier one")
	}
	nd.Cover("ok")
}

// A configuration and the one it extends, with 3, 9, 17 or 40 overrides, default operations, tags and schemas each, disjoint or with one in common (at either end or in the middle), as YAML or JSON: it is completed as any other.
func C20_large_configurations() {
	n := []int{3, 9, 17, 40}[nd.Choose("members", 4)]
	nd.MapOrder(1)
	both := []int{-1, 0, n / 2, n - 1}[nd.Choose("common", 4)]
	mk := func(side string, shift int) obj {
		ov, ops, schemas := obj{}, obj{}, obj{}
		tags := arr{}
		for i := 0; i < n; i++ {
			k := strconv.Itoa(shift + i)
			if i == both {
				k = "both"
			}
			ov["go://x.io/p"+k+".q#/T"] = obj{"type": "string", "title": side}
			ops["/v"+k+"/*"] = obj{"summary": side, "tags": arr{"t"}}
			schemas["S"+k] = obj{"type": "string", "description": side}
			tags = append(tags, obj{"name": side + k})
		}
		m := obj{"overrides": ov, "operations": ops, "components": obj{"schemas": schemas}}
		if side == "base" || both < 0 {
			m["tags"] = tags
		}
		return m
	}
	own, base := mk("own", 0), mk("base", n)
	own["extends"] = "base.json"
	file := filepath.Join(nd.TempDir(), nd.OneOf("file", "c.yaml", "c.json"))
	put(file, own)
	nd.WriteFile(filepath.Join(nd.TempDir(), "base.json"), string(bytes(base)))
	got, err := config.ReadFile(file)
	nd.Assert(err == nil, "a configuration is rejected")
	check(got, over(own, base))
	nd.Cover("ok")
}
