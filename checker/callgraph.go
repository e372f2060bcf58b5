package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callEdge is one possible call between functions of the repository.
type callEdge struct {
	from, to *ssa.Function
	site     ssa.CallInstruction
}

type callGraph struct {
	out map[*ssa.Function][]callEdge
	scc map[*ssa.Function]int
	// functions of components with a cycle
	cyclic map[int]bool
}

// callees lists the repository functions a call may reach: static callees, methods of
// repository types for interface calls (class hierarchy), address-taken functions of the same
// signature for calls of function values, and functions passed to library code.
func (p *Program) callGraph() *callGraph {
	if p.cg != nil {
		return p.cg
	}
	g := &callGraph{out: map[*ssa.Function][]callEdge{}, scc: map[*ssa.Function]int{}, cyclic: map[int]bool{}}
	var addrTaken []*ssa.Function
	taken := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if ok && *op != callee && !taken[f] {
						taken[f] = true
						addrTaken = append(addrTaken, f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					if !taken[f] {
						taken[f] = true
						addrTaken = append(addrTaken, f)
					}
				}
			}
		}
	}
	inR := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		inR[fn] = true
	}
	for _, fn := range p.Funcs {
		seen := map[*ssa.Function]map[ssa.Instruction]bool{}
		add := func(ci ssa.CallInstruction, to *ssa.Function) {
			to = p.unwrap(to)
			if to == nil || !inR[to] {
				return
			}
			if seen[to] == nil {
				seen[to] = map[ssa.Instruction]bool{}
			}
			if seen[to][ci] {
				return
			}
			seen[to][ci] = true
			g.out[fn] = append(g.out[fn], callEdge{fn, to, ci})
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				switch {
				case c.IsInvoke():
					for _, t := range p.implementers(c.Value.Type().Underlying().(*types.Interface)) {
						add(ci, p.method(t, c.Method.Name()))
					}
				case c.StaticCallee() != nil:
					f := c.StaticCallee()
					add(ci, f)
					if !inR[p.unwrap(f)] {
						for _, a := range c.Args {
							for _, cand := range funcArgs(a) {
								add(ci, cand)
							}
						}
					}
				default:
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					if fs, ok := p.funcSources(c.Value, 0); ok {
						for _, f := range fs {
							add(ci, f)
						}
						continue
					}
					for _, f := range addrTaken {
						if types.Identical(f.Signature, c.Signature()) || sameSig(f.Signature, c.Signature()) {
							add(ci, f)
						}
					}
				}
			}
		}
	}
	g.components(p.Funcs)
	p.cg = g
	return g
}

// funcSources traces a function value to the functions it can be, through captured
// variables and parameters; user code outside of the repository is not included.
func (p *Program) funcSources(v ssa.Value, d int) ([]*ssa.Function, bool) {
	if d > 6 {
		return nil, false
	}
	if fs := funcArgs(v); fs != nil {
		return fs, true
	}
	switch v := v.(type) {
	case *ssa.ChangeType:
		return p.funcSources(v.X, d+1)
	case *ssa.FreeVar:
		fn := v.Parent()
		idx := -1
		for i, x := range fn.FreeVars {
			if x == v {
				idx = i
			}
		}
		var out []*ssa.Function
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					fs, ok := p.funcSources(mc.Bindings[idx], d+1)
					if !ok {
						return nil, false
					}
					out = append(out, fs...)
				}
			}
		}
		return out, true
	case *ssa.UnOp:
		// a local variable
		if al, ok := v.X.(*ssa.Alloc); ok {
			return p.funcSources(al, d+1)
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			return p.funcSources(fv, d+1)
		}
	case *ssa.Alloc:
		var out []*ssa.Function
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
				fs, ok := p.funcSources(st.Val, d+1)
				if !ok {
					return nil, false
				}
				out = append(out, fs...)
			}
		}
		return out, true
	case *ssa.Parameter:
		fn := v.Parent()
		idx := -1
		for i, x := range fn.Params {
			if x == v {
				idx = i
			}
		}
		var out []*ssa.Function
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn && idx < len(ci.Common().Args) {
						fs, ok := p.funcSources(ci.Common().Args[idx], d+1)
						if !ok {
							return nil, false
						}
						out = append(out, fs...)
					}
				}
			}
		}
		return out, true
	}
	return nil, false
}

func sameSig(a, b *types.Signature) bool {
	return types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()),
		types.NewSignatureType(nil, nil, nil, b.Params(), b.Results(), b.Variadic()))
}

// unwrap follows synthetic wrappers to the declared function.
func (p *Program) unwrap(f *ssa.Function) *ssa.Function {
	if f == nil || f.Synthetic == "" {
		return f
	}
	if o, ok := f.Object().(*types.Func); ok {
		if d := p.SSA.FuncValue(o); d != nil {
			return d
		}
	}
	return f
}

func funcArgs(v ssa.Value) []*ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.MakeInterface:
		return funcArgs(v.X)
	case *ssa.ChangeType:
		return funcArgs(v.X)
	}
	return nil
}

// implementers: repository types whose values (or pointers) implement iface.
func (p *Program) implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	var rels []string
	for rel := range p.Pkgs {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		sc := p.Pkgs[rel].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), iface) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

// components computes strongly connected components.
func (g *callGraph) components(fns []*ssa.Function) {
	g.scc, g.cyclic = sccs(fns, func(f *ssa.Function) []*ssa.Function {
		var o []*ssa.Function
		for _, e := range g.out[f] {
			o = append(o, e.to)
		}
		return o
	})
}

func sccs[T comparable](nodes []T, next func(T) []T) (map[T]int, map[int]bool) {
	comp := map[T]int{}
	cyc := map[int]bool{}
	index := map[T]int{}
	low := map[T]int{}
	on := map[T]bool{}
	var stack []T
	n, nc := 0, 0
	var visit func(v T)
	visit = func(v T) {
		n++
		index[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		self := false
		for _, w := range next(v) {
			if w == v {
				self = true
			}
			if index[w] == 0 {
				visit(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], index[w])
			}
		}
		if low[v] == index[v] {
			nc++
			k := 0
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp[w] = nc
				k++
				if w == v {
					break
				}
			}
			if k > 1 || self {
				cyc[nc] = true
			}
		}
	}
	for _, v := range nodes {
		if index[v] == 0 {
			visit(v)
		}
	}
	return comp, cyc
}
