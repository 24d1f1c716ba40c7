// Package world is the environment of an end-to-end scan: a set of Go packages given as source text, stored in the
// directory of the harness, and a stand-in for the package loader that parses and type checks them.
package world

import (
	"context"
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	gotypes "go/types"
	"path/filepath"
	"sort"
	"strings"

	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"golang.org/x/tools/go/packages"
)

// Pkg is one package of the program.
type Pkg struct {
	Path  string            // import path, below Module or of another module in the vendor directory
	Files map[string]string // file name to content: Go files are parsed, all others are written to the directory of the package
}

// Module is the module of all packages.
const Module = "x.io/app"

// Dir is the directory of a package.
func Dir(path string) string {
	if !own(path) {
		return filepath.Join(nd.TempDir(), "src", "vendor", path)
	}
	return filepath.Join(nd.TempDir(), "src", path[len(Module):])
}

func own(path string) bool { return path == Module || strings.HasPrefix(path, Module+"/") }

var std = map[string]string{
	"time": "package time\ntype Time struct{ wall uint64 }\ntype Duration int64\n",
	"fmt":  "package fmt\ntype Stringer interface{ String() string }\n",
	"io":   "package io\ntype Reader interface{ Read(p []byte) (int, error) }\n",
}

type loader struct {
	fset *token.FileSet
	mode packages.LoadMode
	src  map[string]Pkg
	done map[string]*packages.Package
	typ  map[string]*gotypes.Package
}

// Import makes loader a types.Importer.
func (l *loader) Import(path string) (*gotypes.Package, error) {
	p := l.load(path)
	if p == nil {
		return nil, errors.New("cannot find package " + path)
	}
	return l.typ[path], nil
}

func (l *loader) load(path string) *packages.Package {
	if p, ok := l.done[path]; ok {
		return p
	}
	files := map[string]string{}
	if s, ok := std[path]; ok {
		files[path+".go"] = s
	} else if s, ok := l.src[path]; ok {
		files = s.Files
	} else {
		return nil
	}
	p := &packages.Package{ID: path}
	l.done[path] = p
	var names []string
	for n := range files {
		if filepath.Ext(n) == ".go" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var syntax []*ast.File
	var errs []packages.Error
	for _, n := range names {
		f, err := parser.ParseFile(l.fset, n, files[n], parser.ParseComments)
		if err != nil {
			errs = append(errs, packages.Error{Msg: err.Error(), Kind: packages.ParseError})
		}
		if f != nil {
			syntax = append(syntax, f)
		}
	}
	name := ""
	imports := map[string]*packages.Package{}
	for _, f := range syntax {
		if f.Name != nil {
			name = f.Name.Name
		}
		for _, i := range f.Imports {
			ip := i.Path.Value[1 : len(i.Path.Value)-1]
			if d := l.load(ip); d != nil {
				imports[ip] = d
			}
		}
	}
	cfg := &gotypes.Config{Importer: l, Error: func(err error) {
		errs = append(errs, packages.Error{Msg: err.Error(), Kind: packages.TypeError})
	}}
	types, _ := cfg.Check(path, l.fset, syntax, nil)
	l.typ[path] = types
	p.Errors = errs
	if l.mode&packages.NeedName != 0 {
		p.Name, p.PkgPath = name, path
	}
	if l.mode&packages.NeedImports != 0 {
		p.Imports = imports
	}
	if l.mode&packages.NeedTypes != 0 {
		p.Types, p.Fset = types, l.fset
	}
	if l.mode&packages.NeedSyntax != 0 {
		p.Syntax, p.Fset = syntax, l.fset
	}
	if _, ok := l.src[path]; ok && l.mode&packages.NeedModule != 0 {
		p.Module = &packages.Module{Path: Module, Dir: filepath.Join(nd.TempDir(), "src")}
		if !own(path) {
			// modules of the vendor directory are their first two elements and have no directory
			p.Module = &packages.Module{Path: strings.Join(strings.Split(path, "/")[:2], "/")}
		}
	}
	if _, ok := l.src[path]; ok && l.mode&packages.NeedFiles != 0 {
		for _, n := range names {
			p.GoFiles = append(p.GoFiles, filepath.Join(Dir(path), n))
		}
	}
	return p
}

// Install makes the packages the program that is found by the package loader.
func Install(pkgs ...Pkg) {
	src := map[string]Pkg{}
	for _, p := range pkgs {
		src[p.Path] = p
		var names []string
		for n := range p.Files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			nd.WriteFile(filepath.Join(Dir(p.Path), n), p.Files[n])
		}
	}
	packages.VerifLoad = func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
		if cfg.Context != nil && cfg.Context.Err() != nil {
			return nil, cfg.Context.Err()
		}
		dir, err := filepath.Abs(cfg.Dir)
		if err != nil {
			return nil, err
		}
		var out []*packages.Package
		l := &loader{fset: token.NewFileSet(), mode: cfg.Mode, src: src, done: map[string]*packages.Package{}, typ: map[string]*gotypes.Package{}}
		for _, p := range pkgs {
			if dir == Dir(p.Path) {
				out = append(out, l.load(p.Path))
			}
		}
		if len(out) == 0 {
			return nil, errors.New("no Go files in " + cfg.Dir)
		}
		return out, nil
	}
}

type over struct{ context.Context }

func (over) Err() error { return context.Canceled }

func (over) Done() <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}

// Cancelled is a context that is over.
func Cancelled() context.Context { return over{context.Background()} }
