// Package parser is go/parser, which reads the files of the simulated disk.
package parser

import (
	"go/ast"
	"go/parser"
	"go/token"

	"verif.local/io/sys"
)

func ParseFile(fset *token.FileSet, filename string, src interface{}, mode parser.Mode) (*ast.File, error) {
	if src == nil {
		b, err := sys.ReadFile(filename)
		if err != nil {
			return nil, err
		}
		src = b
	}
	return parser.ParseFile(fset, filename, src, mode)
}
