package main

import (
	"go/ast"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) docOf(f *ssa.Function) string {
	if fd, ok := f.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
		return strings.Join(strings.Fields(fd.Doc.Text()), " ")
	}
	return ""
}
