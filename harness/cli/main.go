// inpkg cmd/oapi
package main

import (
	"context"
	"encoding/json"
	"path/filepath"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"github.com/buypal/oapi-go/internal/zzverif/world"
)

type ndObj = map[string]interface{}

// ndApps are three programs; the tool runs in the directory of the first.
var ndApps = []string{"x.io/app/one", "x.io/app/two", "x.io/app/one/sub"}

func ndInstall(extra ...world.Pkg) {
	pp := extra
	for _, a := range ndApps {
		pp = append(pp, world.Pkg{Path: a, Files: map[string]string{
			"main.go":   "package main\n\ntype T struct {\n\tA int `json:\"a\"`\n}\n",
			"oapi.yaml": "openapi: 3.0.3\ninfo:\n  title: " + a + "\n  version: '1'\npaths:\n  /a:\n    get:\n      schema:\n        $ref: 'go://#/T'\n",
		}})
	}
	world.Install(pp...)
}

// ndRel is how a path is stated in a configuration or argument: relative to a directory, or absolute.
func ndRel(label, base, path string) string {
	if nd.Choose(label, 2) == 1 {
		return path
	}
	r, err := filepath.Rel(base, path)
	nd.Assert(err == nil, "rel")
	return r
}

// ndDocument is the document of the program in a directory as it is to be written.
func ndDocument(dir, format string, opts ...oapi.Option) string {
	o, err := oapi.Scan(context.Background(), append(opts, oapi.WithDir(dir))...)
	nd.Assert(err == nil, "program cannot be scanned")
	b, err := oapi.Format(format, o)
	nd.Assert(err == nil, "document cannot be formatted")
	return string(b)
}

func ndWriteConfig(path string, v ndObj) {
	c, err := container.Make(v)
	nd.Assert(err == nil, "make")
	nd.WriteFile(path, string(c.Bytes()))
}

// The tool run in one directory, with a configuration in that directory, in another one (stated relative or absolute) or none; directory, format and output each stated by the configuration or not and by a flag or not: the directory as
// any of three programs, the output as standard stream or file, paths relative or absolute. Flags win over the configuration and this wins over the defaults (current directory, json:pretty, stdout); paths in flags are relative to the current
// directory, the directory of the configuration to the place of its file, its output to the directory that is scanned. The document of exactly that program is written in exactly that format to exactly that place, and nowhere else.
func C21_settings() {
	nd.MapOrder(0)
	ndInstall()
	cwd := world.Dir(ndApps[0])
	args := []string{"oapi"}
	conf := ndObj{}
	dir, format, output := cwd, "json:pretty", "stdout"
	place := ""
	switch nd.Choose("config", 3) {
	case 1:
		place = filepath.Join(cwd, "c.yaml")
	case 2:
		place = filepath.Join(world.Dir(ndApps[1]), "conf", "c.json")
	}
	what := nd.Choose("what", 3) // which settings vary
	if place != "" {
		args = append(args, "--config="+ndRel("config.rel", cwd, place))
		if k := nd.Choose("conf.dir", 4); k > 0 {
			dir = world.Dir(ndApps[k-1])
			conf["dir"] = ndRel("conf.dir.rel", filepath.Dir(place), dir)
		}
	}
	flagDir := func() {
		if k := nd.Choose("flag.dir", 4); k > 0 {
			dir = world.Dir(ndApps[k-1])
			args = append(args, "--dir", ndRel("flag.dir.rel", cwd, dir))
		}
	}
	flagFormat := func() {
		if k := nd.Choose("flag.format", 6); k > 0 {
			format = []string{"json", "yaml", "yml", "json:pretty", "go"}[k-1]
			args = append(args, "--format="+format)
		}
	}
	var files []string
	out := func(label, base string) (string, bool) {
		f := filepath.Join(nd.TempDir(), "out", label)
		files = append(files, f)
		switch nd.Choose(label, 6) {
		case 1:
			output = "stdout"
		case 2:
			output = "stderr"
		case 3:
			output = f
			r, err := filepath.Rel(base, f)
			nd.Assert(err == nil, "rel")
			return r, true
		case 4:
			output = f
			return f, true
		case 5:
			output = filepath.Join(base, label[:1])
			files = append(files, output)
			return label[:1], true
		default:
			return "", false
		}
		return output, true
	}
	nd.WriteFile(filepath.Join(nd.TempDir(), "out", "other"), "o")
	switch what {
	case 0:
		flagDir()
		if place != "" {
			conf["format"] = "yaml"
			format = "yaml"
		}
	case 1:
		if place != "" {
			if k := nd.Choose("conf.format", 6); k > 0 {
				format = []string{"json", "yaml", "yml", "json:pretty", "go"}[k-1]
				conf["format"] = format
			}
		}
		flagFormat()
	case 2:
		if nd.Choose("flag.dir", 2) == 1 {
			dir = world.Dir(ndApps[1])
			args = append(args, "--dir", ndRel("flag.dir.rel", cwd, dir))
		}
		if place != "" {
			if s, ok := out("conf.output", dir); ok {
				conf["output"] = s
			}
		}
		if s, ok := out("flag.output", cwd); ok {
			args = append(args, "--output="+s)
		}
	}
	if place != "" {
		ndWriteConfig(place, conf)
	}
	code, stdout, stderr := nd.Exits(cwd, args, main)
	nd.Assert(code == 0, "the tool fails")
	want := ndDocument(dir, format)
	nd.Assert((stdout == want) == (output == "stdout") && (output == "stdout" || stdout == ""), "the document on standard output is not the one that is asked for")
	nd.Assert((stderr == want) == (output == "stderr") && (output == "stderr" || stderr == ""), "the document on standard error is not the one that is asked for")
	for _, f := range files {
		got, ok := nd.ReadFile(f)
		nd.Assert(ok == (output == f), "a file is written that is not asked for, or the one asked for is not")
		nd.Assert(!ok || got == want, "the document in the file is not the one that is asked for")
	}
	nd.Cover("ok")
}

// A configuration that states any one of its 8 sections that belong into the document (info, servers, security, tags, external documentation, components with a pointer to a type, an override, a default operation), none or all, as JSON or YAML, itself or
// in a file it extends, next to settings that do not belong there: the document is the one of the program, completed by exactly these.
func C21_document_sections() {
	nd.MapOrder(0)
	ndInstall()
	cwd := world.Dir(ndApps[0])
	text := nd.String("text", 1, 1, "ab~")
	sections := []string{"info", "servers", "security", "tags", "externalDocs", "components", "overrides", "operations"}
	stated := ndObj{
		"info":         ndObj{"title": text, "version": "2"},
		"servers":      []interface{}{ndObj{"url": "http://x.io/" + text}},
		"security":     []interface{}{ndObj{"key": []interface{}{text}}},
		"tags":         []interface{}{ndObj{"name": text}},
		"externalDocs": ndObj{"description": text, "url": "http://x.io"},
		"components":   ndObj{"schemas": ndObj{"Z": ndObj{"$ref": "go://x.io/app/one#/T/A"}, "Y": ndObj{"type": "string", "description": text}}},
		"overrides":    ndObj{"go://x.io/app/one#/T": ndObj{"type": "string", "description": text}},
		"operations":   ndObj{"get:/{x}": ndObj{"summary": text}, "/none": ndObj{"summary": "no"}},
	}
	op := ndObj{"schema": ndObj{"type": "object", "properties": ndObj{"a": ndObj{"type": "integer", "format": "int32"}}}}
	want := ndObj{"openapi": "3.0.3", "info": ndObj{"title": ndApps[0], "version": "1"}, "paths": ndObj{"/a": ndObj{"get": op}}}
	part := ndObj{}
	k := nd.Choose("section", len(sections)+2)
	for i, s := range sections {
		if k != i+1 && k != len(sections)+1 {
			continue
		}
		part[s] = stated[s]
		switch s {
		case "components":
			want[s] = ndObj{"schemas": ndObj{"Z": ndObj{"type": "integer", "format": "int32"}, "Y": ndObj{"type": "string", "description": text}}}
		case "overrides":
			op["schema"] = ndObj{"type": "string", "description": text}
		case "operations":
			op["summary"] = text
		default:
			want[s] = stated[s]
		}
	}
	file := filepath.Join(cwd, []string{"c.json", "c.yaml", "c.yml"}[nd.Choose("kind", 3)])
	conf := part
	if nd.Choose("extends", 2) == 1 {
		ndWriteConfig(filepath.Join(cwd, "base.json"), part)
		conf = ndObj{"extends": "base.json"}
	}
	if nd.Choose("others", 2) == 1 {
		conf["version"] = "1"
		conf["x-other"] = ndObj{"info": 1}
	}
	ndWriteConfig(file, conf)
	code, stdout, _ := nd.Exits(cwd, []string{"oapi", "--config", file, "--format=json"}, main)
	nd.Assert(code == 0, "the tool fails")
	var got ndObj
	nd.Assert(json.Unmarshal([]byte(stdout), &got) == nil, "output is not JSON")
	nd.Assert(nd.Equal(got, want), "the document is not the one of the program completed by what the configuration states")
	nd.Cover("ok")
}
