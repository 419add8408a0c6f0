package main

import (
	"go/ast"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// docOf is the comment of a function.
func docOf(fn *ssa.Function) string {
	if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return strings.Join(strings.Fields(d.Doc.Text()), " ")
	}
	return ""
}
