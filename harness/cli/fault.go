// inpkg cmd/oapi
package main

import (
	"path/filepath"
	"strings"

	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"github.com/buypal/oapi-go/internal/zzverif/world"
)

func ndFaultProgram() world.Pkg {
	p := world.Pkg{Path: "x.io/app", Files: map[string]string{
		"main.go":   "package main\n\ntype T struct{ A int }\n",
		"oapi.json": "{\"openapi\":\"3.0.3\",\"info\":{\"title\":\"t\",\"version\":\"1\"},\"paths\":{\"/a\":{\"get\":{\"x-t\":{\"$ref\":\"go://#/T\"}}}}}",
	}}
	world.Install(p)
	return p
}

// The output cannot take the whole document: any number of bytes from 0 to its length, in each of 5 formats, a new file or one that exists with symbolic content (0..1 bytes, thorough: 0..2), which might be longer than
// that: the tool fails, the file is as it was and nothing else is left behind, unless there is room for the document.
func C25_no_room() {
	nd.MapOrder(0)
	p := ndFaultProgram()
	format := nd.OneOf("format", "json", "yaml", "yml", "json:pretty", "go")
	want := ndDocument(world.Dir(p.Path), format)
	room := nd.Int("room", 0, 400)
	nd.Assume(room <= len(want))
	file := filepath.Join(nd.TempDir(), "out", "o")
	nd.WriteFile(filepath.Join(nd.TempDir(), "out", "other"), "x")
	old, exists := "", nd.Choose("exists", 2) == 1
	if exists {
		old = nd.String("old", 0, nd.Bound(1, 2), "")
		nd.WriteFile(file, old)
	}
	args := []string{"oapi", "--dir=" + world.Dir(p.Path), "--format", format, "--output=" + file}
	nd.FileLimit(room)
	code, stdout, stderr := nd.Exits(nd.TempDir(), args, main)
	got, ok := nd.ReadFile(file)
	nd.Assert(stdout == "", "something is written to standard output that is not asked for")
	if room == len(want) {
		nd.Assert(code == 0 && ok && got == want, "the file is not exactly the document")
		nd.Cover("room")
	} else {
		nd.Assert(code != 0, "the tool succeeds where it cannot")
		nd.Assert(stderr != "", "the tool fails without telling why")
		nd.Assert(ok == exists && got == old, "the output file is changed although the tool fails")
		nd.Cover("no room")
	}
	ndOnly(filepath.Join(nd.TempDir(), "out"), ok)
}

// ndOnly checks that there are no other files in the directory of the output.
func ndOnly(dir string, output bool) {
	left, err := filepath.Glob(filepath.Join(dir, "*"))
	nd.Assert(err == nil, "glob")
	hidden, err := filepath.Glob(filepath.Join(dir, ".*"))
	nd.Assert(err == nil, "glob")
	n := 1
	if output {
		n = 2
	}
	for _, h := range hidden {
		if b := filepath.Base(h); b != "." && b != ".." {
			n = -1
		}
	}
	other, ok := nd.ReadFile(filepath.Join(dir, "other"))
	nd.Assert(len(left) == n && ok && other == "x", "another file is changed")
}

// The tool is interrupted at any synchronisation or file operation, or not at all, with any of 3 log levels, output to standard output, a new file or one that exists: it succeeds completely, or fails and leaves no trace.
func C25_interrupted() {
	nd.MapOrder(0)
	p := ndFaultProgram()
	want := ndDocument(world.Dir(p.Path), "json")
	file := filepath.Join(nd.TempDir(), "out", "o")
	nd.WriteFile(filepath.Join(nd.TempDir(), "out", "other"), "x")
	args := []string{"oapi", "--dir=" + world.Dir(p.Path), "--format=json"}
	to := nd.Choose("to", 3)
	if to > 0 {
		args = append(args, "--output="+file)
	}
	if to == 2 {
		nd.WriteFile(file, "old")
	}
	quiet := false
	if l := nd.OneOf("loglevel", "", "nolog", "debug"); l != "" {
		args = append(args, "--loglevel="+l)
		quiet = l == "nolog"
	}
	nd.Interrupts()
	code, stdout, stderr := nd.Exits(nd.TempDir(), args, main)
	got, ok := nd.ReadFile(file)
	outs, k := []string{stdout, got}, (to+1)/2
	if code == 0 {
		nd.Assert(outs[k] == want && outs[1-k] == "", "the tool succeeds without writing the document")
		nd.Assert(!quiet || stderr == "", "something is written to standard error that is not asked for")
		nd.Cover("done")
	} else {
		nd.Assert(stdout == "", "something is written to standard output although the tool fails")
		nd.Assert(strings.TrimSpace(stderr) != "", "the tool fails without telling why")
		nd.Assert(ok == (to == 2) && (to != 2 || got == "old"), "the output file is changed although the tool fails")
		nd.Cover("interrupted")
	}
	ndOnly(filepath.Join(nd.TempDir(), "out"), ok)
}

// The output is a new file, one that exists with symbolic content (0..1 bytes, thorough: 0..2), or reached through a link, in each of 5 formats, with room for the whole document or for 0, 1, or 1 or 2 bytes less (thorough: any number of bytes less): at every moment between two operations on files, where the tool
// might come to a sudden end, the file is as it was, or holds the whole document and keeps it.
func C25_any_moment() {
	nd.MapOrder(0)
	p := ndFaultProgram()
	format := nd.OneOf("format", "json", "yaml", "yml", "json:pretty", "go")
	want := ndDocument(world.Dir(p.Path), format)
	file := filepath.Join(nd.TempDir(), "out", "o")
	nd.WriteFile(filepath.Join(nd.TempDir(), "out", "other"), "x")
	name := file
	if nd.Choose("link", 2) == 1 {
		name = filepath.Join(nd.TempDir(), "link")
		nd.Symlink("out/o", name)
	}
	old, exists := "", nd.Choose("exists", 2) == 1
	if exists {
		old = nd.String("old", 0, nd.Bound(1, 2), "")
		nd.WriteFile(file, old)
	}
	if nd.Choose("limited", 2) == 1 {
		room := nd.Int("room", 0, 400)
		nd.Assume(room < len(want) && (nd.Bound(0, 1) == 1 || room < 2 || room > len(want)-3))
		nd.FileLimit(room)
	}
	nd.Watch(file)
	code, _, _ := nd.Exits(nd.TempDir(), []string{"oapi", "--dir=" + world.Dir(p.Path), "--format", format, "--output=" + name}, main)
	complete := false
	text, there := nd.Moments()
	for i := range text {
		if there[i] && text[i] == want {
			complete = true
			continue
		}
		nd.Assert(there[i] == exists && text[i] == old, "the output file is neither what it was nor the document")
		nd.Assert(!complete, "the output file does not stay the document")
	}
	got, ok := nd.ReadFile(file)
	nd.Assert(ok == (exists || code == 0) && (code == 0 && got == want || code != 0 && got == old), "the file is not the document although the tool succeeds, or changed although it fails")
	nd.Cover("ok")
}
