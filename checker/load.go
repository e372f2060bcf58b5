package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/greymass/go-eosio"

// Program is the loaded, type-checked and SSA-converted repository.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*packages.Package // by import path relative to the module, e.g. "pkg/abi"
	SPkgs map[string]*ssa.Package
	Funcs []*ssa.Function // all functions with source in the repository, sorted by position
	all   map[string]*packages.Package
	cg    *callGraph
}

func loadProgram() (*Program, error) {
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOOS=linux", "GOARCH=amd64"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, all: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.all[pk.PkgPath] = pk
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for _, pk := range pkgs {
		rel := strings.TrimPrefix(pk.PkgPath, modPath+"/")
		p.Pkgs[rel] = pk
		p.SPkgs[rel] = prog.Package(pk.Types)
	}
	for _, want := range []string{"pkg/abi", "pkg/chain", "pkg/base58", "pkg/ripemd160", "pkg/codegen"} {
		if p.SPkgs[want] == nil {
			return nil, fmt.Errorf("package %s not found", want)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inRepo(fn) && fn.Blocks != nil && fn.Synthetic == "" {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].Pos(), p.Funcs[j].Pos(); a != b {
			return a < b
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	return p, nil
}

// inRepo reports whether fn is declared in a library package of the repository.
func (p *Program) inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && strings.HasPrefix(pk.Path(), modPath+"/pkg/")
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}
	return nil
}

func pkgRel(fn *ssa.Function) string {
	pk := fnPkg(fn)
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(pk.Path(), modPath+"/")
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	po := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.Dir, po.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = po.Filename
	}
	return fmt.Sprintf("%s:%d", rel, po.Line)
}

func (p *Program) instrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	// fall back to any positioned instruction of the block, then to the function
	if b := i.Block(); b != nil {
		for _, j := range b.Instrs {
			if j.Pos().IsValid() {
				return p.pos(j.Pos())
			}
		}
	}
	return p.pos(i.Parent().Pos())
}

// fname is a short stable name for a function, e.g. chain.(Action).MarshalABI.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	return s
}

// named returns the named type pkg.name of the repository.
func (p *Program) named(pkg, name string) *types.Named {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

func (p *Program) function(pkg, name string) *ssa.Function {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method returns the method of T or *T with the given name.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (p *Program) stdType(pkg, name string) types.Type {
	pk := p.all[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// calleeName returns a qualified name for the static callee or interface method of a call,
// e.g. "io.ReadFull", "(*bytes.Buffer).Write", "(io.Writer).Write", "" if dynamic.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Object(); o != nil {
			if fo, ok := o.(*types.Func); ok {
				return fo.FullName()
			}
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}
