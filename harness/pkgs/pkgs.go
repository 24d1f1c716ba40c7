package pkgs

import (
	"errors"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/internal/pkgutil"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"golang.org/x/tools/go/packages"
)

// recorder is a scanner that remembers what it is given and fails where it is told to.
type recorder struct {
	seen []*packages.Package
	fail map[*packages.Package]error
}

func (r *recorder) Scan(p *packages.Package) error {
	r.seen = append(r.seen, p)
	return r.fail[p]
}

func count(pp []*packages.Package, p *packages.Package) (n int) {
	for _, x := range pp {
		if x == p {
			n++
		}
	}
	return n
}

func index(pp []*packages.Package, p *packages.Package) int {
	for i, x := range pp {
		if x == p {
			return i
		}
	}
	return -1
}

// All import graphs of n = 4 (quick) / 5 (thorough) packages without cycles (every pair may be connected), where each package but the first may belong to the standard library; the packages asked for are the first, or the first and another one in
// either order, or the first twice; any order of maps: each package that is reached through packages outside the standard library is scanned exactly once and after everything it imports, no other is.
func C19_each_package_once() {
	n := nd.Bound(4, 5)
	names := []string{"x.io/main", "x.io/fmt", "x.io/a", "fmtx", "x.io/b/internal/c"}
	std := []string{"", "fmt", "net/http", "math/big", "strings"}
	nd.MapOrder(3)
	var pp []*packages.Package
	isStd := make([]bool, n)
	for i := 0; i < n; i++ {
		p := &packages.Package{PkgPath: names[i], ID: names[i], Imports: map[string]*packages.Package{}}
		if i > 0 && nd.Bool("std") {
			p.PkgPath, p.ID = std[i], std[i]
			isStd[i] = true
		}
		pp = append(pp, p)
	}
	edge := make([][]bool, n)
	for i := range edge {
		edge[i] = make([]bool, n)
		for j := i + 1; j < n; j++ {
			if nd.Bool("import") {
				edge[i][j] = true
				pp[i].Imports[pp[j].PkgPath] = pp[j]
			}
		}
	}
	roots := []*packages.Package{pp[0]}
	reach := make([]bool, n)
	reach[0] = true
	switch nd.Choose("roots", 4) {
	case 1:
		roots = append(roots, pp[2])
		reach[2] = !isStd[2]
	case 2:
		roots = []*packages.Package{pp[n-1], pp[0]}
		reach[n-1] = !isStd[n-1]
	case 3:
		roots = append(roots, pp[0])
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if reach[i] && edge[i][j] && !isStd[j] {
				reach[j] = true
			}
		}
	}
	r := &recorder{}
	nd.Assert(pkgutil.Scan(roots, r) == nil, "scanning fails without reason")
	for i, p := range pp {
		k := count(r.seen, p)
		if reach[i] {
			nd.Assert(k >= 1, "a package that is imported is not scanned")
			nd.Assert(k == 1, "a package is scanned more than once")
		} else {
			nd.Assert(k == 0, "a package is scanned that is not imported or belongs to the standard library")
		}
	}
	for i := range pp {
		for j := range pp {
			if reach[i] && reach[j] && edge[i][j] {
				nd.Assert(index(r.seen, pp[j]) < index(r.seen, pp[i]), "a package is scanned before what it imports")
			}
		}
	}
	nd.Cover("ok")
}

// A chain or a star of 3 (quick) / 4 (thorough) packages, or four of which one is imported twice, where each has 0..2 errors of the loader and its scanner fails or not (symbolic): scanning fails exactly when there is any error in a package that is reached, its error tells about every one of them, and
// every package is scanned nevertheless.
func C19_every_error_is_reported() {
	shape := nd.Choose("shape", 4)
	nd.MapOrder(3)
	r := &recorder{fail: map[*packages.Package]error{}}
	var pp []*packages.Package
	var want []string
	n := nd.Bound(3, 4)
	if shape == 3 {
		n = 4
	}
	for i := 0; i < n; i++ {
		p := &packages.Package{PkgPath: "x.io/" + string(rune('a'+i)), Imports: map[string]*packages.Package{}}
		bad := nd.Choose("errors", 3)
		reached := shape != 2 || i == 0
		for k := 0; k < bad; k++ {
			msg := "broken " + p.PkgPath + string(rune('0'+k))
			p.Errors = append(p.Errors, packages.Error{Pos: "x.go:1:2", Msg: msg, Kind: packages.ErrorKind(nd.Choose("kind", 2) + 1)})
			if reached {
				want = append(want, msg)
			}
		}
		if nd.Bool("fails") {
			msg := "scanner fails at " + p.PkgPath
			r.fail[p] = errors.New(msg)
			if reached {
				want = append(want, msg)
			}
		}
		pp = append(pp, p)
	}
	link := func(i, j int) { pp[i].Imports[pp[j].PkgPath] = pp[j] }
	switch shape {
	case 0:
		for i := 0; i+1 < n; i++ {
			link(i, i+1)
		}
	case 1:
		for i := 1; i < n; i++ {
			link(0, i)
		}
	}
	if shape == 3 { // one that is imported twice
		link(0, 1)
		link(0, 2)
		link(1, 2)
		link(2, 3)
	}
	err := pkgutil.Scan(pp[:1], r)
	if shape == 2 {
		nd.Assert(len(r.seen) == 1, "not exactly the package asked for is scanned")
	} else {
		nd.Assert(len(r.seen) == n, "an error of one package keeps another from being scanned")
	}
	if len(want) == 0 {
		nd.Assert(err == nil, "scanning fails without reason")
		nd.Cover("ok")
		return
	}
	nd.Assert(err != nil, "an error of a package is swallowed")
	for _, w := range want {
		nd.Assert(strings.Contains(err.Error(), w), "an error of a package is not reported")
	}
	nd.Cover("error")
}

// A package whose path is symbolic (1..4 (quick) / 1..6 (thorough) characters of fmt, os and /), alone, loaded with an error or without: it belongs to the standard library, and is not scanned, exactly when its path is one of it.
func C19_standard_library() {
	p := &packages.Package{PkgPath: nd.String("path", 1, nd.Bound(4, 6), "fmtos/")}
	broken := nd.Choose("broken", 2) == 1
	if broken {
		p.Errors = []packages.Error{{Msg: "broken"}}
	}
	r := &recorder{}
	err := pkgutil.Scan([]*packages.Package{p}, r)
	if p.PkgPath == "fmt" || p.PkgPath == "os" || p.PkgPath == "io" {
		nd.Assert(err == nil, "scanning fails without reason")
		nd.Assert(len(r.seen) == 0, "a package of the standard library is scanned")
		nd.Cover("std")
		return
	}
	nd.Assert((err != nil) == broken, "scanning fails without reason, or an error of a package is swallowed")
	nd.Assert(len(r.seen) == 1, "a package outside the standard library is not scanned")
	nd.Cover("other")
}

// Packages whose paths are like the ones of the standard library but not the same, one of which imports another: each is scanned.
func C19_look_alikes() {
	names := []string{"fmt_test", "fmt/v2", "x.io/fmt", "fmt.io", "Fmt", "fmt ", "net/http/x", "net/htt", "ne", "encoding", "io/io", "vendor/x.io/fmt", "example/fmt", "x.io/net/http", "os.", "main", "command-line-arguments", "internal", "x.io/internal/fmt", "golang.org/x/tools/fmt", "std", "std/fmt", "test/os"}
	var pp []*packages.Package
	for _, l := range []string{"importing", "imported"} {
		n := names[nd.Choose(l, len(names))]
		pp = append(pp, &packages.Package{PkgPath: n, ID: n, Name: "fmt", Imports: map[string]*packages.Package{}})
	}
	pp[0].Imports[pp[1].PkgPath] = pp[1]
	pp[0].Imports["fmt"] = &packages.Package{PkgPath: "fmt", ID: "fmt", Name: "fmt"}
	r := &recorder{}
	nd.Assert(pkgutil.Scan(pp[:1], r) == nil, "scanning fails without reason")
	nd.Assert(len(r.seen) == 2 && r.seen[0] == pp[1] && r.seen[1] == pp[0], "a package outside the standard library is not scanned")
	nd.Cover("ok")
}

// Two packages, one importing the other, with any number of errors of the loader out of 8 (0..100) each, and their scanner failing or not: every single one is told about.
func C19_any_number_of_errors() {
	numbers := []int{0, 1, 2, 9, 10, 11, 33, 100}
	r := &recorder{fail: map[*packages.Package]error{}}
	var pp []*packages.Package
	var want []string
	for _, name := range []string{"x.io/a", "x.io/b"} {
		p := &packages.Package{PkgPath: name, Imports: map[string]*packages.Package{}}
		n := numbers[nd.Choose("number", len(numbers))]
		for i := 0; i < n; i++ {
			msg := "broken " + name + " at <" + strconv.Itoa(i) + ">"
			p.Errors = append(p.Errors, packages.Error{Pos: "x.go:1:2", Msg: msg, Kind: packages.TypeError})
			want = append(want, msg)
		}
		if nd.Bool("fails") {
			msg := "scanner fails at <" + name + ">"
			r.fail[p] = errors.New(msg)
			want = append(want, msg)
		}
		pp = append(pp, p)
	}
	pp[0].Imports["x.io/b"] = pp[1]
	err := pkgutil.Scan(pp[:1], r)
	nd.Assert(len(r.seen) == 2, "an error of one package keeps another from being scanned")
	if len(want) == 0 {
		nd.Assert(err == nil, "scanning fails without reason")
		nd.Cover("ok")
		return
	}
	nd.Assert(err != nil, "an error of a package is swallowed")
	for _, w := range want {
		nd.Assert(strings.Contains(err.Error(), w), "an error of a package is not reported")
	}
	nd.Cover("error")
}

// 5..20 packages of which the first imports all others, each the next one, or each the two next ones and the last one; one at either end or in the middle may be broken: each is scanned exactly once, after what it imports, and the error is reported.
func C19_many_packages() {
	n := []int{5, 6, 7, 8, 9, 10, 16, 20}[nd.Choose("packages", 8)]
	shape := nd.Choose("shape", 3)
	nd.MapOrder(1)
	var pp []*packages.Package
	edge := make([][]bool, n)
	for i := 0; i < n; i++ {
		pp = append(pp, &packages.Package{PkgPath: "x.io/p" + strconv.Itoa(i), ID: "x.io/p" + strconv.Itoa(i), Imports: map[string]*packages.Package{}})
	}
	for i := range edge {
		edge[i] = make([]bool, n)
		for j := i + 1; j < n; j++ {
			if shape == 0 && i == 0 || shape == 1 && j == i+1 || shape == 2 && (j <= i+2 || j == n-1) {
				edge[i][j] = true
				pp[i].Imports[pp[j].PkgPath] = pp[j]
			}
		}
	}
	r := &recorder{fail: map[*packages.Package]error{}}
	broken := nd.Choose("broken", 5)
	switch broken {
	case 1:
		pp[0].Errors = append(pp[0].Errors, packages.Error{Msg: "broken"})
	case 2:
		pp[n/2].Errors = append(pp[n/2].Errors, packages.Error{Msg: "broken"})
	case 3:
		pp[n-1].Errors = append(pp[n-1].Errors, packages.Error{Msg: "broken"})
	case 4:
		r.fail[pp[n-2]] = errors.New("broken")
	}
	err := pkgutil.Scan(pp[:1], r)
	nd.Assert((err != nil) == (broken > 0), "scanning fails without reason, or an error of a package is swallowed")
	nd.Assert(len(r.seen) == n, "a package is not scanned exactly once")
	for i := range pp {
		nd.Assert(index(r.seen, pp[i]) >= 0, "a package is not scanned exactly once")
		for j := range pp {
			if edge[i][j] {
				nd.Assert(index(r.seen, pp[j]) < index(r.seen, pp[i]), "a package is scanned before what it imports")
			}
		}
	}
	nd.Cover("ok")
}
