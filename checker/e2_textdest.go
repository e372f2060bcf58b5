package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C13: parsing text into an existing value.

// textTypes are the types of the chain package with a method of that name.
func textTypes(p *Program, method string) []*types.Named {
	var r []*types.Named
	pk := p.all[modPath+"/pkg/chain"]
	if pk == nil {
		return nil
	}
	sc := pk.Types.Scope()
	names := sc.Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(t) {
			continue
		}
		if types.NewMethodSet(types.NewPointer(t)).Lookup(tn.Pkg(), method) != nil {
			r = append(r, t)
		}
	}
	return r
}

func checkTextDest(p *Program) *Report {
	rep := newReport("every UnmarshalText and UnmarshalJSON, run abstractly on a destination with arbitrary contents: where it gives an error the destination is unchanged, elsewhere it equals what a zero destination receives")
	for _, method := range []string{"UnmarshalText", "UnmarshalJSON"} {
		for _, t := range textTypes(p, method) {
			f := p.SSA.LookupMethod(types.NewPointer(t), t.Obj().Pkg(), method)
			if f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
				continue
			}
			key := t.Obj().Name() + "." + method
			rep.decide(key, func() {
				limit := bddLimit
				bddLimit = 4_000_000
				why := attempt(func() { textDest(p, rep, key, t, f, false) })
				bddLimit = limit
				if why != "" {
					// the parsers it calls as uninterpreted functions of their text
					resetGraph()
					textDest(p, rep, key, t, f, true)
				}
			})
			rep.Analysed["methods"]++
		}
	}
	rep.floor("methods", 15)
	return rep
}

func textDest(p *Program, rep *Report, key string, t *types.Named, f *ssa.Function, summary bool) {
	s := newScene(p, rep)
	s.opaqueBase58()
	if summary {
		s.opaqueParsers()
	}
	pos := p.pos(f.Pos())
	text := fresh(types.NewSlice(types.Typ[types.Uint8]), nameOf("text"))
	before := fresh(t, nameOf("old"))
	old := s.fork()
	clean := s.fork()
	dst := s.alloc(t, before)
	err := s.run(f, dst, text)
	bad := not(errNil(err))
	got := s.ip.load(s.st, dst, nil)
	s.same(key, pos, "destination after a rejected text", got, old, before, bad)

	zdst := clean.alloc(t, zero(t))
	cerr := clean.run(f, zdst, text)
	cbad := not(errNil(cerr))
	s.judge(key, pos, "whether a text is rejected depends on the destination", andN(s.st.g, clean.st.g, xor(bad, cbad)), err, cerr)
	want := clean.ip.load(clean.st, zdst, nil)
	s.same(key, pos, "destination after an accepted text", got, clean, want, and(not(bad), not(cbad)))
}

// attempt runs f and returns why it could not be completed, if so.
func attempt(f func()) (why string) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			why = u.what
		}
	}()
	f()
	return ""
}

// opaqueParsers makes the package-level functions of the chain package that turn one text
// into a value or an error, and that give no value with an error, uninterpreted functions.
func (s *scene) opaqueParsers() {
	pk := s.p.all[modPath+"/pkg/chain"]
	for _, n := range pk.Types.Scope().Names() {
		fo, ok := pk.Types.Scope().Lookup(n).(*types.Func)
		if !ok {
			continue
		}
		sig := fo.Type().(*types.Signature)
		if sig.Params().Len() != 1 || sig.Results().Len() != 2 || !types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) || sig.Results().At(1).Type().String() != "error" {
			continue
		}
		f := s.p.SSA.FuncValue(fo)
		if f == nil || !noValueWithError(f) {
			continue
		}
		rt := sig.Results().At(0).Type()
		s.ip.hooks[modPath+"/pkg/chain."+n] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			bad := atom("rejects:"+n, argStr(a[0]))
			name := vOpq("parsed:"+n, nil, argStr(a[0]))
			var v *V
			if pt, ok := rt.Underlying().(*types.Pointer); ok {
				v = ip.alloc(st, pt.Elem(), fresh(pt.Elem(), name))
			} else {
				v = fresh(rt, name)
			}
			return tup(narrow(vIte(bad, zero(rt), v), st.g), narrow(vIte(bad, ip.newErr(), vNil), st.g)), st
		}
		s.rep.Analysed["parsers summarised"]++
	}
}

// noValueWithError reports whether every return gives no error, or the zero value with it.
func noValueWithError(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				e, isC := r.Results[1].(*ssa.Const)
				if isC && e.Value == nil {
					continue
				}
				v, isC := r.Results[0].(*ssa.Const)
				if !isC || v.Value != nil && v.Value.String() != "0" {
					return false
				}
			}
		}
	}
	return len(f.Blocks) > 0
}

func init() { checks["C13"] = checkTextDest }
