package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Specification types: Go declarations that stand for the values a user of the library
// encodes. They are type-checked against the repository's current packages and never run.

type specImporter struct{ p *Program }

func (i specImporter) Import(path string) (*types.Package, error) {
	if path == "abi" || path == "chain" || path == "base58" || path == "ripemd160" {
		path = modPath + "/pkg/" + path
	}
	if pk := i.p.all[path]; pk != nil {
		return pk.Types, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

type specPkg struct {
	types *types.Package
	ssa   *ssa.Package
}

func (p *Program) spec(name, src string) *specPkg {
	f, err := parser.ParseFile(p.Fset, name+".go", src, 0)
	if err != nil {
		panic(unsupported{"specification: " + err.Error()})
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	cfg := types.Config{Importer: specImporter{p}}
	pk, err := cfg.Check("specs/"+name, p.Fset, []*ast.File{f}, info)
	if err != nil {
		panic(unsupported{"specification does not fit the code: " + err.Error()})
	}
	sp := p.SSA.CreatePackage(pk, []*ast.File{f}, info, false)
	sp.Build()
	return &specPkg{pk, sp}
}

func (s *specPkg) typ(name string) types.Type { return s.types.Scope().Lookup(name).Type() }
