// inpkg cmd/oapi
package main

import (
	"path/filepath"
	"strings"

	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"github.com/buypal/oapi-go/internal/zzverif/world"
)

var ndLevels = []string{"", "nolog", "panic", "error", "debug"}

// 24 reasons to fail (arguments that are not understood, configuration missing or unreadable, unknown format, program with syntax or type errors, without package, with unreadable, contradicting or dangling specifications or malformed commands,
// output that cannot be created), with any of 5 log levels, output to standard output or a file that exists with symbolic content (0..2 bytes) or not: the tool exits with a code other than zero, tells why on standard error, writes nothing to
// standard output and leaves the output file as it was.
func C25_failures() {
	nd.MapOrder(0)
	pkg := world.Pkg{Path: "x.io/app/bad", Files: map[string]string{
		"main.go":   "package main\n\nimport _ \"x.io/app/bad/lib\"\n\ntype T struct{ A int }\n",
		"oapi.yaml": "openapi: 3.0.3\npaths:\n  /a:\n    get:\n      x-t:\n        $ref: 'go://#/T'\n",
	}}
	lib := world.Pkg{Path: "x.io/app/bad/lib", Files: map[string]string{"lib.go": "package lib\n\ntype L struct{ A int }\n"}}
	dir := world.Dir(pkg.Path)
	place := filepath.Join(nd.TempDir(), "conf", "c.yaml")
	args := []string{"oapi"}
	if l := nd.OneOf("loglevel", ndLevels...); l != "" {
		args = append(args, "--loglevel="+l)
	}
	conf := ""
	file := filepath.Join(nd.TempDir(), "out", "openapi.json")
	to := nd.Choose("output", 3) // standard output, an existing file, a new file
	content := ""
	if to == 1 {
		content = "old" + nd.String("content", 0, 2, "")
		nd.WriteFile(file, content)
	} else {
		nd.WriteFile(filepath.Join(nd.TempDir(), "out", "other"), "")
	}
	if to > 0 {
		args = append(args, "--output="+file)
	}
	reason := nd.Choose("reason", 24)
	switch reason {
	case 0:
		args = append(args, "--format="+nd.OneOf("format", "xml", "JSON", "json:", "yam"))
	case 1:
		args = append(args, "--formats=json")
	case 2:
		args = append(args, "scan")
	case 3:
		args = append(args, "--loglevel=loud")
	case 4:
		args = append(args, "--config="+filepath.Join(nd.TempDir(), "missing.yaml"))
	case 5:
		conf = "dir: ["
	case 6:
		conf = "dir: " + dir + "\nextends: missing.yaml\n"
	case 7:
		conf = "dir: " + dir + "\nformat: xml\n"
	case 8:
		conf = "dir: " + dir + "\ninfo: 1\n"
	case 9:
		conf = "dir: " + dir + "\noperations: x\n"
	case 10:
		pkg.Files["main.go"] = "package main\n\ntype T struct{ A int \n"
	case 11:
		pkg.Files["main.go"] = "package main\n\ntype T struct{ A Missing }\n"
	case 12:
		lib.Files["lib.go"] = "package lib\n\nvar x int = \"\"\n"
	case 13:
		dir = filepath.Join(nd.TempDir(), "empty")
	case 14:
		pkg.Files["oapi.yaml"] = "openapi: 3.0.3\npaths: [\n"
	case 15:
		pkg.Files["oapi.yaml"] = "openapi: 3.0.3\npaths:\n  /a:\n    $ref: 'go://#/Missing'\n"
	case 16:
		pkg.Files["oapi.json"] = "{\"openapi\":\"3.0.0\"}"
	case 17:
		pkg.Files["oapi.yaml"] = "openapi: 3.0.3\npaths:\n  /a:\n    $ref: 'go://[#/T'\n"
	case 18:
		lib.Files["lib.go"] = "package lib\n\n//openapi:schema\n"
	case 19:
		lib.Files["lib.go"] = "package lib\n\n//openapi:schema X L\n//openapi:schema Y L\ntype L int\n"
	case 20:
		lib.Files["lib.go"] = "package lib\n\n//openapi:schema L\ntype L chan int\n"
		pkg.Files["oapi.yaml"] = "openapi: 3.0.3\npaths:\n  /a:\n    $ref: 'go://x.io/app/bad/lib#/L'\n"
	case 21:
		pkg.Files["oapi.yaml"] = "openapi: 3.0.3\npaths:\n  /a:\n    $ref: 'go://x.io/app/missing#/T'\n"
	case 22: // the directory of the output is missing
		nd.Assume(to == 2)
		args[len(args)-1] = "--output=" + filepath.Join(nd.TempDir(), "nowhere", "openapi.json")
	case 23: // the output is a directory with files
		nd.Assume(to == 2)
		args[len(args)-1] = "--output=" + filepath.Join(nd.TempDir(), "out")
	}
	if conf != "" {
		nd.WriteFile(place, conf)
		args = append(args, "--config="+place)
	} else {
		args = append(args, "--dir", dir)
	}
	world.Install(pkg, lib)
	code, stdout, stderr := nd.Exits(nd.TempDir(), args, main)
	nd.Assert(code != 0, "the tool succeeds where it cannot")
	nd.Assert(stdout == "", "something is written to standard output although the tool fails")
	nd.Assert(stderr != "", "the tool fails without telling why")
	got, ok := nd.ReadFile(file)
	nd.Assert(ok == (to == 1) && got == content, "the output file is changed although the tool fails")
	other, ok := nd.ReadFile(filepath.Join(nd.TempDir(), "out", "other"))
	nd.Assert(ok == (to != 1) && other == "", "another file is changed")
	nd.Cover("fails")
}

// A program whose title is symbolic (0..2 ASCII characters), in each of 5 formats, with any of 5 log levels and settings from flags or a configuration, written to standard output, standard error, a new file or over an existing one with symbolic
// content (0..2 bytes, and up to 5000 more): exit code zero, exactly the document there, byte for byte, and nothing anywhere else.
func C25_success() {
	nd.MapOrder(0)
	title := nd.String("title", 0, nd.Bound(1, 2), "a\"<:`")
	q := ""
	for i := 0; i < len(title); i++ {
		if title[i] == '"' {
			q += "\\"
		}
		q += title[i : i+1]
	}
	p := world.Pkg{Path: "x.io/app", Files: map[string]string{
		"main.go":   "package main\n\n//openapi:schema T\n\ntype T struct{ A int }\n",
		"oapi.json": "{\"openapi\":\"3.0.3\",\"info\":{\"title\":\"" + q + "\",\"version\":\"1\"},\"paths\":{\"/a\":{\"get\":{\"x-t\":{\"$ref\":\"go://#/T\"}}}}}",
	}}
	world.Install(p)
	format := nd.OneOf("format", "json", "yaml", "yml", "json:pretty", "go")
	args := []string{"oapi"}
	quiet := true
	if l := nd.OneOf("loglevel", ndLevels...); l != "" {
		args = append(args, "--loglevel", l)
		quiet = l == "nolog"
	}
	file := filepath.Join(nd.TempDir(), "out", "o")
	nd.WriteFile(filepath.Join(nd.TempDir(), "out", "other"), "x")
	output := file
	to := nd.Choose("to", 5)
	switch to {
	case 0:
		output = "stdout"
	case 1:
		output = "stderr"
	case 2:
		nd.WriteFile(file, "")
	case 3:
		fill := make([]byte, []int{0, 5000}[nd.Choose("long", 2)])
		for i := range fill {
			fill[i] = '.'
		}
		nd.WriteFile(file, nd.String("old", 0, 2, "")+string(fill))
	}
	if nd.Choose("by", 2) == 0 {
		args = append(args, "--dir="+world.Dir(p.Path), "--format", format, "--output="+output)
	} else {
		place := filepath.Join(nd.TempDir(), "c.json")
		ndWriteConfig(place, ndObj{"dir": "src", "format": format, "output": output})
		args = append(args, "--config", place)
	}
	code, stdout, stderr := nd.Exits(nd.TempDir(), args, main)
	want := ndDocument(world.Dir(p.Path), format)
	nd.Assert(code == 0, "the tool fails")
	got, ok := nd.ReadFile(file)
	outs := []string{"", "", ""}
	if to < 2 {
		outs[to] = want
		nd.Assert(!ok, "a file is written that is not asked for")
	} else {
		outs[2] = want
	}
	nd.Assert(stdout == outs[0], "standard output is not the document, or something is written to it that is not asked for")
	if quiet {
		nd.Assert(stderr == outs[1], "standard error is not the document, or something is written to it that is not asked for")
	} else {
		nd.Assert(strings.HasSuffix(stderr, outs[1]), "standard error is not the document")
	}
	nd.Assert(got == outs[2], "the file is not exactly the document")
	other, ok := nd.ReadFile(filepath.Join(nd.TempDir(), "out", "other"))
	nd.Assert(ok && other == "x", "another file is changed")
	nd.Observe("document", want)
	nd.Cover("ok")
}

// A document with a text of any of 8 sizes (1, 4, 32 or 64 KiB, thorough 128 as well, or 1000 bytes more), the last character symbolic, in the formats json and yaml, to standard output, standard error or a file: exit code zero, and exactly the document there, to the last byte.
func C25_large_documents() {
	nd.MapOrder(0)
	size := []int{1, 4, 32, 64, 128}[nd.Choose("size", nd.Bound(4, 5))] * 1024
	if nd.Choose("more", 2) == 1 {
		size += 1000
	}
	fill := make([]byte, size)
	for i := range fill {
		fill[i] = byte('a' + i%26)
	}
	last := nd.String("last", 0, 1, "a<")
	doc := "{\"openapi\":\"3.0.3\",\"info\":{\"title\":\"" + string(fill) + last + "\",\"version\":\"1\"}}"
	p := world.Pkg{Path: "x.io/app", Files: map[string]string{"main.go": "package main\n", "oapi.json": doc}}
	world.Install(p)
	file := filepath.Join(nd.TempDir(), "out", "o")
	nd.WriteFile(filepath.Join(nd.TempDir(), "out", "other"), "x")
	to := nd.Choose("to", 3)
	output := []string{"stdout", "stderr", file}[to]
	format := nd.OneOf("format", "json", "yaml")
	code, stdout, stderr := nd.Exits(nd.TempDir(), []string{"oapi", "--dir", world.Dir(p.Path), "--format", format, "--output", output}, main)
	nd.Assert(code == 0, "the tool fails")
	got, _ := nd.ReadFile(file)
	all := []string{stdout, stderr, got}
	want := ndDocument(world.Dir(p.Path), format)
	nd.Assert(len(want) > size, "the document is too small for its content")
	for i := range all {
		if i == to {
			nd.Assert(all[i] == want, "the document is not written as a whole")
		} else {
			nd.Assert(all[i] == "", "something is written that is not asked for")
		}
	}
	nd.Cover("ok")
}

// The output is a new file, an existing one with any of 4 permissions, or a symbolic link (relative, relative and reached through a linked directory, relative into another directory, absolute, a link to a link, or one to a file that does not exist yet) to a file of a mode of these; the program is fine, does not compile, or the file system takes only 9
// bytes of the document: links stay what they are, the file they lead to is replaced and keeps its permissions, or stays as it was (or absent) if the tool fails, and no other files come into being.
func C25_kinds_of_files() {
	nd.MapOrder(0)
	what := nd.Choose("what", 3)
	src := "package main\n"
	if what == 1 {
		src = "package main\n\nvar x int = y\n"
	}
	p := world.Pkg{Path: "x.io/app", Files: map[string]string{"main.go": src, "oapi.json": "{\"openapi\":\"3.0.3\",\"info\":{\"title\":\"t\",\"version\":\"1\"},\"paths\":{}}"}}
	world.Install(p)
	out, els := filepath.Join(nd.TempDir(), "out"), filepath.Join(nd.TempDir(), "else")
	file, real := filepath.Join(out, "o"), filepath.Join(out, "o")
	nd.WriteFile(filepath.Join(out, "other"), "x")
	nd.WriteFile(filepath.Join(els, "other"), "x")
	links := map[string]string{}
	arg := "out/o"
	switch nd.Choose("link", 6) {
	case 1:
		real = filepath.Join(out, "real")
		links[file] = "real"
	case 2:
		real = filepath.Join(els, "real")
		links[file] = "../else/real"
	case 3:
		real = filepath.Join(els, "real")
		links[file] = real
	case 4:
		real = filepath.Join(els, "real")
		links[file] = "./l"
		links[filepath.Join(out, "l")] = "../else/./real"
	case 5:
		// ".." is the parent of the directory that is meant, not of the one that is written
		arg, file = "out/d/o", filepath.Join(els, "deep", "o")
		real = filepath.Join(els, "real")
		links[filepath.Join(out, "d")] = "../else/deep"
		links[file] = "../real"
	}
	mode := -1
	if nd.Choose("exists", 2) == 1 {
		nd.WriteFile(real, "old")
		mode = []int{0o600, 0o644, 0o755, 0o444}[nd.Choose("mode", 4)]
		nd.SetMode(real, mode)
	}
	all := []string{file, filepath.Join(out, "l"), filepath.Join(out, "d")}
	for _, l := range all {
		if links[l] != "" {
			nd.Symlink(links[l], l)
		}
	}
	if what == 2 {
		nd.FileLimit(9)
	}
	code, stdout, stderr := nd.Exits(nd.TempDir(), []string{"oapi", "--dir=src", "--output=" + arg, "--format=json"}, main)
	got, ok := nd.ReadFile(real)
	nd.Assert(stdout == "", "something is written to standard output that is not asked for")
	if what == 0 {
		nd.Assert(code == 0 && stderr == "", "the tool fails")
		nd.Assert(ok && got == ndDocument(world.Dir(p.Path), "json"), "the file is not exactly the document")
		nd.Assert(mode == -1 || nd.Mode(real) == mode, "the permissions of the file change")
		nd.Cover("written")
	} else {
		nd.Assert(code != 0 && stderr != "", "the tool fails without telling so")
		nd.Assert(ok == (mode != -1) && (!ok || got == "old"), "the file does not stay as it was")
		nd.Assert(nd.Mode(real) == mode, "the permissions of the file change")
		nd.Cover("fails")
	}
	for _, l := range all {
		nd.Assert(nd.Link(l) == links[l], "a link is replaced or changed")
	}
	n := map[string]int{out: 1, els: 1}
	if ok {
		n[filepath.Dir(real)]++
	}
	for l := range links {
		n[filepath.Dir(l)]++
	}
	if arg != "out/o" {
		n[els]++ // the directory
	}
	for d, want := range n {
		nd.Assert(len(nd.List(d)) == want, "files come into being that are not asked for")
	}
}
