package cmds

import (
	"go/ast"
	"go/parser"
	"go/token"
	gotypes "go/types"
	"strings"

	"github.com/buypal/oapi-go/internal/oapi/resolver"
	"github.com/buypal/oapi-go/internal/oapi/scan/cmds"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"golang.org/x/tools/go/packages"
)

// pkg is a package whose files hold the given comment groups.
func pkg(path string, files ...[][]string) *packages.Package {
	p := &packages.Package{PkgPath: path, Types: gotypes.NewPackage(path, "p")}
	for _, groups := range files {
		f := &ast.File{}
		for _, lines := range groups {
			g := &ast.CommentGroup{}
			for _, l := range lines {
				g.List = append(g.List, &ast.Comment{Text: l})
			}
			f.Comments = append(f.Comments, g)
		}
		p.Syntax = append(p.Syntax, f)
	}
	return p
}

func one(path, comment string) (resolver.Exports, map[string]string, error) {
	s := cmds.NewScanner()
	if err := s.Scan(pkg(path, [][]string{{comment}})); err != nil {
		return nil, nil, err
	}
	ex, err := s.ExportedComponents()
	return ex, listed(s), err
}

// listed is what is asked of the scanner of types.
func listed(s *cmds.Scanner) map[string]string {
	m := map[string]string{}
	for k, p := range s.Commands.Pointers() {
		m[k] = p.String()
	}
	return m
}

func checkExports(ex resolver.Exports, ptrs map[string]string, want map[string]string) {
	got := map[string]string{}
	for _, e := range ex {
		nd.Assert(e.Entity.Entity == spec.SchemaKind, "a schema is exported as something else")
		_, dup := got[e.Pointer.String()]
		nd.Assert(!dup, "a place is exported twice")
		got[e.Pointer.String()] = e.Name
	}
	nd.Assert(len(got) == len(want) && len(ptrs) == len(want), "commands without export, or exports without command")
	for p, n := range want {
		g, ok := got[p]
		nd.Assert(ok, "a command does not export the place it names")
		nd.Assert(g == n, "a place is exported under another name than the one of its command")
		nd.Assert(ptrs[p] == p, "an exported place is not among the types to be read")
	}
}

func word(label string, n int) string {
	s := nd.String(label, 1, n, "aB0_")
	nd.Assume(s[0] != '0')
	return s
}

// One command in one comment, with a name and a place of symbolic letters (1..2 (quick) / 1..3 (thorough) each): the place is an identifier, a path of two, a full pointer, or a pointer without package; with or without a name of its own,
// followed by 0..2 blanks: it exports exactly that place of that package, under its name or under the text that states the place.
func C17_schema_command() {
	place := word("place", nd.Bound(2, 3))
	if nd.Choose("field", 2) == 1 {
		place += "/" + word("field", 1)
	}
	path := "x.io/" + nd.OneOf("pkg", "p", "q/v2")
	in := path
	arg := place
	switch nd.Choose("form", 3) {
	case 1:
		in = "y.io/other"
		arg = "go://" + in + "#/" + place
	case 2:
		arg = "go://#/" + place
	}
	name := place
	text := "//openapi:schema " + arg
	if nd.Choose("named", 2) == 1 {
		name = nd.String("name", 1, nd.Bound(2, 3), "aB0_.-")
		text = "//openapi:schema " + name + " " + arg
	}
	text += nd.OneOf("blanks", "", " ", "  ")
	ex, ptrs, err := one(path, text)
	nd.Assert(err == nil, "a schema command is rejected")
	want := "go://" + in + "#/" + place
	checkExports(ex, ptrs, map[string]string{want: name})
	nd.Cover("ok")
}

// Comments whose text is arbitrary ASCII (0..3 (quick) / 0..4 (thorough) bytes after "//"), or such text before, within or after the command marker, or a block comment with any of 5 commands before such text: those without the marker right at the start export nothing and are no error, and none crashes.
func C17_other_comments() {
	s := nd.String("text", 0, nd.Bound(3, 4), "o: \tgp#/-\"")
	text := ""
	switch nd.Choose("where", 5) {
	case 0:
		text = "//" + s
	case 4:
		text = "/*openapi" + nd.OneOf("kind", ":schema T", ":schema", ":x", ".yaml is", " T") + s + "*/"
	case 1:
		nd.Assume(s != "")
		text = "//" + s + "openapi:schema T"
	case 2:
		text = "//open" + s + "api:schema T"
		nd.Assume(s != "")
	case 3:
		text = "/*" + s + "*/"
	}
	ex, ptrs, err := one("x.io/p", text)
	nd.Assert(err == nil, "an ordinary comment is an error")
	nd.Assert(len(ex) == 0 && len(ptrs) == 0, "an ordinary comment exports something")
	nd.Cover("ok")
}

// A command with a kind of 0..2 symbolic characters other than schema, with 0..3 arguments; schema commands with no argument, three arguments, or pointers that cannot be read: all of them are errors, except the bare marker, which exports nothing.
func C17_malformed_commands() {
	args := []string{"", " A", " A T", " A T x"}[nd.Choose("args", 4)]
	var text string
	bare := false
	switch nd.Choose("what", 3) {
	case 0:
		kind := nd.String("kind", 0, nd.Bound(2, 3), ":sS")
		bare = kind == ""
		text = "//openapi" + kind + args
	case 1:
		nd.Assume(args == "" || args == " A T x")
		text = "//openapi:schema" + args
	case 2:
		bad := nd.OneOf("pointer", "go://x.io/p#T", "go://[#/T", "%zz#/T", "://#", "go://x.io/%#/T")
		text = "//openapi:schema " + bad
		if nd.Choose("named", 2) == 1 {
			text = "//openapi:schema A " + bad
		}
	}
	ex, _, err := one("x.io/p", text)
	if bare {
		nd.Assert(err == nil && len(ex) == 0, "the bare marker exports something or is an error")
		nd.Cover("bare")
		return
	}
	nd.Assert(err != nil, "a malformed command is accepted")
	nd.Cover("error")
}

// Three commands spread over two packages, two files and two comment groups in any way, among ordinary comments, with places and names of one symbolic letter each: all are exported, unless two of them share a place or a name, which is an error;
// the same for both directions of map iteration and both orders of the packages.
func C17_many_commands() {
	paths := []string{"x.io/p", "y.io/q"}
	var groups [2][2][2][]string
	want := map[string]string{}
	names := map[string]bool{}
	clash := false
	for i := 0; i < 3; i++ {
		p, f, g := nd.Choose("package", 2), 0, 0
		if i > 0 {
			f = nd.Choose("file", 2)
			g = nd.Choose("group", 2)
		}
		place := nd.String("place", 1, 1, "ABC")
		name := place
		text := "//openapi:schema " + place
		if i < 2 && nd.Choose("named", 2) == 1 {
			name = nd.String("name", 1, 1, "ABX")
			text = "//openapi:schema " + name + " " + place
		}
		groups[p][f][g] = append(groups[p][f][g], text)
		ptr := "go://" + paths[p] + "#/" + place
		if _, ok := want[ptr]; ok || names[name] {
			clash = true
		}
		want[ptr] = name
		names[name] = true
	}
	var pkgs []*packages.Package
	for p := range paths {
		var files [][][]string
		for f := range groups[p] {
			files = append(files, [][]string{{"// T is"}, groups[p][f][0], append([]string{"//go:generate x"}, groups[p][f][1]...)})
		}
		pkgs = append(pkgs, pkg(paths[p], files...))
	}
	if nd.Choose("order", 2) == 1 {
		pkgs[0], pkgs[1] = pkgs[1], pkgs[0]
	}
	s := cmds.NewScanner()
	for _, p := range pkgs {
		nd.Assert(s.Scan(p) == nil, "a schema command is rejected")
	}
	ex, err := s.ExportedComponents()
	nd.Assert((err != nil) == clash, "two exports of one place or name are accepted, or others rejected")
	if err == nil {
		checkExports(ex, listed(s), want)
		nd.Cover("ok")
	} else {
		nd.Cover("clash")
	}
}

// slots are the places a comment can have in a file, each marked by its number between @.
const slots = `@0@
package p @1@

@2@
import (
	"fmt" @3@
	@4@
)

@5@

// F is a function.
@6@
func F(a int, @7@
	b int) { @8@
	if a > b {
		@9@
	}
	switch a {
	case 1: @10@
	}
	fmt.Print("//openapi:schema Text", ` + "`\n//openapi:schema Raw\n`" + `) @11@
	_ = func() {
		@12@
	}
}

type (
	// T is a type.
	@13@
	T struct { @14@
		A int @15@
		@16@
	}
	I interface {
		M() @17@
	}
)

const C = 1 @18@
var V = []int{ @19@
	1, @20@
}
@21@`

// Go files as the real parser reads them: a schema command at any of 22 places (before, on and after the package clause, among imports, before and inside declarations, blocks, types and literals, at the end of the file), in any of one or three files that have
// many other comments, none, or one before the package clause, the file of the command and the others independently; next to texts that look like commands in literals, in block comments, or after other text: exactly the command counts, once.
func C17_places_of_commands() {
	const n = 22
	file, slot := nd.Choose("file", 3), nd.Choose("slot", n)
	place := nd.String("place", 1, 1, "XYZ")
	here, there := nd.Choose("comments here", 3), nd.Choose("comments there", 3)
	alone := nd.Choose("file is alone", 2) == 1
	p := &packages.Package{PkgPath: "x.io/p", Types: gotypes.NewPackage("x.io/p", "p")}
	fset := token.NewFileSet()
	for i := 0; i < 3; i++ {
		if alone && i != file {
			continue
		}
		src, other := slots, there
		if i == file {
			other = here
		}
		for j := 0; j < n; j++ {
			text := ""
			if i == file && j == slot {
				text = "//openapi:schema @X@"
			} else if j == slot && other == 1 {
				text = "// see //openapi:schema Other"
			} else if j > 0 && other == 1 && j%4 == 1 {
				text = "/* //openapi:schema Block */"
			} else if j == 0 && other == 2 {
				text = "// Package p is a package."
			}
			src = strings.Replace(src, "@"+itoa(j)+"@", text, 1)
		}
		if other == 0 {
			src = strings.Replace(src, "// F is a function.", "", 1)
			src = strings.Replace(src, "// T is a type.", "", 1)
		}
		f, err := parser.ParseFile(fset, "f"+itoa(i)+".go", strings.Replace(src, "@X@", "X", 1), parser.ParseComments)
		nd.Assume(err == nil)
		for _, g := range f.Comments {
			for _, c := range g.List {
				if c.Text == "//openapi:schema X" {
					c.Text = "//openapi:schema " + place
				}
			}
		}
		p.Syntax = append(p.Syntax, f)
	}
	p.Fset = fset
	s := cmds.NewScanner()
	nd.Assert(s.Scan(p) == nil, "a schema command is rejected")
	ex, err := s.ExportedComponents()
	nd.Assert(err == nil, "a schema command is rejected")
	checkExports(ex, listed(s), map[string]string{"go://x.io/p#/" + place: place})
	nd.Cover("ok")
}

func itoa(i int) string {
	if i > 9 {
		return itoa(i/10) + itoa(i%10)
	}
	return string(rune('0' + i))
}

// 1, 9, 33, 50 (quick) or 66 (thorough) commands, each in a file, a comment group or a package of its own or all in one comment group, among ordinary comments, in a package of its own or in one that follows: all are exported, and the one that is the same as any one of three of them is an error.
func C17_many_places_of_commands() {
	n := []int{1, 9, 33, 50, 66}[nd.Choose("n", nd.Bound(4, 5))]
	how := nd.Choose("how", 4)
	twice := nd.Choose("twice", 4)
	want := map[string]string{}
	var files [][][]string
	var pkgs []*packages.Package
	for i := 0; i < n; i++ {
		name := "T" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		text := "//openapi:schema " + name
		path := "x.io/p"
		switch {
		case how == 0 || i == 0:
			files = append(files, [][]string{{"// T is"}, {text}})
		case how == 1:
			files[0] = append(files[0], []string{text}, []string{"/* more */"})
		case how == 2:
			files[0][1] = append(files[0][1], "// and", text)
		case how == 3:
			path = "x.io/" + name
			pkgs = append(pkgs, pkg(path, [][]string{{text}}))
		}
		want["go://"+path+"#/"+name] = name
	}
	if twice > 0 {
		i := []int{0, n / 2, n - 1}[twice-1]
		files = append(files, [][]string{{"//openapi:schema T" + string(rune('a'+i%26)) + string(rune('a'+i/26)) + " Other"}})
		if how == 3 && i > 0 {
			files[len(files)-1][0][0] = "//openapi:schema T" + string(rune('a'+i%26)) + string(rune('a'+i/26)) // the same name
		}
	}
	pkgs = append(pkgs, pkg("x.io/p", files...))
	s := cmds.NewScanner()
	for _, p := range pkgs {
		nd.Assert(s.Scan(p) == nil, "a schema command is rejected")
	}
	ex, err := s.ExportedComponents()
	nd.Assert((err != nil) == (twice > 0), "two exports of one place or name are accepted, or others rejected")
	if err == nil {
		checkExports(ex, listed(s), want)
		nd.Cover("ok")
	} else {
		nd.Cover("clash")
	}
}
