package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08, C09, C10: no panic and no unbounded allocation, whatever the input.

const specOdd = `package odd

import "chain"

func f(name, typ string) chain.AbiField { return chain.AbiField{Name: name, Type: typ} }

// Def is a definition with everything that can be wrong with one.
func Def() chain.Abi {
	return chain.Abi{
		Types: []chain.AbiType{
			{NewTypeName: "self", Type: "self"}, {NewTypeName: "ping", Type: "pong"}, {NewTypeName: "pong", Type: "ping"},
			{NewTypeName: "lost", Type: "nowhere"}, {NewTypeName: "", Type: "uint8"}, {NewTypeName: "empty", Type: ""},
			{NewTypeName: "list", Type: "uint8[]"},
		},
		Structs: []chain.AbiStruct{
			{Name: "plain", Fields: []chain.AbiField{f("a", "uint8")}},
			{Name: "orphan", Base: "nowhere", Fields: []chain.AbiField{f("a", "uint8")}},
			{Name: "own", Base: "own", Fields: []chain.AbiField{f("a", "uint8")}},
			{Name: "onvariant", Base: "none", Fields: []chain.AbiField{f("a", "uint8")}},
			{Name: "onlist", Base: "plain[]", Fields: []chain.AbiField{f("a", "uint8")}},
			{Name: "onbuiltin", Base: "uint8", Fields: []chain.AbiField{f("a", "uint8")}},
			{Name: "unnamed", Fields: []chain.AbiField{f("", "uint8"), f("", "uint16")}},
			{Name: "untyped", Fields: []chain.AbiField{f("a", "")}},
			{Name: "unknown", Fields: []chain.AbiField{f("a", "nowhere")}},
			{Name: "suffixes", Fields: []chain.AbiField{f("a", "[]"), f("b", "?"), f("c", "$")}},
			{Name: "loop", Fields: []chain.AbiField{f("a", "self")}},
			{Name: "twice", Fields: []chain.AbiField{f("a", "uint8"), f("a", "uint8")}},
			{Name: "uint8", Fields: []chain.AbiField{f("a", "uint16")}},
		},
		Variants: []chain.AbiVariant{
			{Name: "none"}, {Name: "bad", Types: []string{"nowhere", ""}}, {Name: "inward", Types: []string{"uint8", "inward"}},
			{Name: "plain", Types: []string{"uint8"}},
		},
		Actions: []chain.AbiAction{{Name: 1, Type: "plain"}, {Name: 2, Type: ""}, {Name: 3, Type: "nowhere"}},
	}
}

func None() chain.Abi { return chain.Abi{} }
`

var oddNames = []string{"", "?", "[]", "$", "[]?", "?[]", "[][]", "$$", "]", "[", "a[", "self", "ping", "lost", "empty", "list", "list[]", "plain", "plain[]", "plain?", "plain$", "orphan", "own",
	"onvariant", "onlist", "onbuiltin", "unnamed", "untyped", "unknown", "suffixes", "loop", "twice", "uint8", "none", "none[]", "bad", "nowhere", "nowhere[]", "nowhere?"}

// cutInput lets every read fail for lack of input, and every variable-length integer be wrong.
func (s *scene) cutInput() {
	s.ip.eofMode = true
	s.ip.eofAtoms = true
	s.ip.wellformed = false
}

// otherTypes makes the decoding methods of the other chain types uninterpreted: they are
// analysed by themselves.
func (s *scene) otherTypes(t types.Type) {
	for _, u := range textTypes(s.p, "UnmarshalABI") {
		if types.Identical(u, t) {
			continue
		}
		f := s.p.SSA.LookupMethod(types.NewPointer(u), u.Obj().Pkg(), "UnmarshalABI")
		if _, isPtr := f.Params[0].Type().(*types.Pointer); !isPtr {
			continue
		}
		name := u.Obj().Name()
		s.ip.hooks[f.String()] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			var gs []B
			var poss, errs []*V
			for _, at := range ip.posAlts(st) {
				k := vConst(at.off, 64)
				gs = append(gs, at.g)
				poss = append(poss, vPos(vOpq("after:"+name, nil, at.seg, k), 0))
				errs = append(errs, vIte(atom("decodes:"+name, at.seg, k), vNil, vIte(atom("ended", at.seg, k), ip.errVal("err:io.EOF"), ip.newErr())))
			}
			pos, err := foldAlts(gs, poss), foldAlts(gs, errs)
			ip.store(st, a[0], fresh(u, vOpq("decoded:"+name, nil, pos)), in)
			if st.g == bF {
				return nil, nil
			}
			st.setMem(objPos, vIte(restrict(errNil(err), st.g), pos, ip.objContent(st, objPos)))
			return narrow(err, st.g), st
		}
	}
}

// runThen judges what was found even if the run does not come to an end.
func (s *scene) runThen(last bool, run, after func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok && last {
				after()
			}
			panic(e)
		}
	}()
	run()
	after()
}

// decodeScenes runs every way of decoding on arbitrary input.
func decodeScenes(p *Program, rep *Report, lists int64, after func(s *scene, key, pos string)) {
	coarse = true
	defer func() { coarse = false }()
	decT := p.named("pkg/abi", "Decoder")
	decode := p.method(decT, "Decode")
	ms := types.NewMethodSet(types.NewPointer(decT))
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if !strings.HasPrefix(n, "Read") {
			continue
		}
		twice(rep, "Decoder."+n, func(widen bool) {
			s := newScene(p, rep)
			s.cutInput()
			s.ip.widen = widen
			s.ip.lowlevel = strings.HasPrefix(n, "ReadVar")
			f := p.method(decT, n)
			args := []*V{s.decoder()}
			for j := 0; j < f.Signature.Params().Len(); j++ {
				q := f.Signature.Params().At(j)
				args = append(args, fresh(q.Type(), nameOf(q.Name())))
			}
			s.runThen(widen, func() { s.run(f, args...) }, func() { after(s, "Decoder."+n, p.pos(f.Pos())) })
			rep.Analysed["primitives"]++
		})
	}
	into := func(key string, t types.Type) {
		lists := lists
		switch key {
		case "Decode(*PtrList)", "Decode(*Lists)", "Decode(*Arrays)":
			lists = maxList // too large; the other list types have no limit
		}
		twice(rep, key, func(widen bool) {
			s := newScene(p, rep)
			s.cutInput()
			s.ip.widen = widen
			if widen {
				s.otherTypes(t)
			}
			s.ip.maxList = lists
			dec := s.decoder()
			ptr := s.alloc(t, fresh(t, nameOf("old")))
			s.runThen(widen, func() { s.run(decode, dec, vIface(types.NewPointer(t), ptr)) }, func() { after(s, key, p.pos(decode.Pos())) })
			rep.Analysed["types"]++
		})
	}
	for _, t := range textTypes(p, "UnmarshalABI") {
		into("Decode(*"+t.Obj().Name()+")", t)
	}
	var sp *specPkg
	rep.decide("specification types", func() { sp = p.spec("composite", specTypes) })
	if sp != nil {
		for _, tn := range append([]string{"PtrList"}, compositeTypes...) {
			if tn == "Nested" || tn == "Deep" {
				continue // too large; made of the others
			}
			into("Decode(*"+tn+")", sp.typ(tn))
		}
	}
	byDef := func(key string, method string, args func(s *scene) []*V) {
		f := p.method(p.named("pkg/chain", "Abi"), method)
		twice(rep, key, func(widen bool) {
			s := newScene(p, rep)
			s.cutInput()
			s.ip.widen = widen
			s.runThen(widen, func() { s.run(f, args(s)...) }, func() { after(s, key, p.pos(f.Pos())) })
			rep.Analysed["definitions"]++
		})
	}
	var ad, od *specPkg
	rep.decide("specification definitions", func() { ad, od = p.spec("abidef", specAbi), p.spec("odd", specOdd) })
	if ad == nil || od == nil {
		return
	}
	seen := map[string]bool{}
	for _, c := range abiCases {
		if c.typ == "node" || c.typ == "nested" || c.typ == "mixed" || seen[c.typ] {
			continue
		}
		seen[c.typ] = true
		n := c.counts
		if n == nil {
			n = []int{-1}
		}
		for _, n := range n {
			if n > 1 && !thorough() {
				continue
			}
			byDef(fmt.Sprintf("Abi.Decode(%s) %d", c.typ, n), "Decode", func(s *scene) []*V {
				if n >= 0 {
					v, _ := varAt(s.ip.posAlts(s.st)[0], false, false)
					s.st.g = and(s.st.g, iEq(v, vConst(int64(n), 64)))
				}
				return []*V{s.run(ad.ssa.Func("Def")), vOpq("sysreader", nil), vStr(c.typ)}
			})
		}
	}
	for _, n := range oddNames {
		if n == "list[]" && !thorough() {
			continue
		}
		byDef("Abi.Decode("+n+") by an odd definition", "Decode", func(s *scene) []*V {
			s.ip.deep = n == "self" || n == "ping" || n == "loop"
			return []*V{s.run(od.ssa.Func("Def")), vOpq("sysreader", nil), vStr(n)}
		})
	}
	byDef("Abi.Decode by an empty definition", "Decode", func(s *scene) []*V {
		return []*V{s.run(od.ssa.Func("None")), vOpq("sysreader", nil), vStr("plain")}
	})
	byDef("Abi.DecodeAction", "DecodeAction", func(s *scene) []*V {
		return []*V{s.run(od.ssa.Func("Def")), vOpq("sysreader", nil), fresh(p.named("pkg/chain", "Name"), nameOf("action"))}
	})
}

func checkDecodePanics(p *Program) *Report {
	rep := newReport("panic conditions in the gated value graphs of decoding arbitrary, possibly truncated input and of rendering arbitrary values are unsatisfiable")
	decodeScenes(p, rep, maxList, func(s *scene, key, pos string) { s.noPanic(key) })
	for _, method := range []string{"String", "MarshalText", "MarshalJSON"} {
		for _, t := range textTypes(p, method) {
			key := t.Obj().Name() + "." + method
			twice(rep, key, func(widen bool) {
				s := newScene(p, rep)
				s.ip.widen = widen
				s.opaqueBase58()
				s.callM(s.alloc(t, fresh(t, nameOf("value"))), t, method)
				s.noPanic(key)
				rep.Analysed["renderings"]++
			})
		}
	}
	rep.floor("primitives", 14)
	rep.floor("types", 40)
	rep.floor("definitions", 55)
	rep.floor("renderings", 30)
	return rep
}

// maxPre is the largest number of elements that may be allocated before their bytes are read.
const maxPre = 1 << 16

func checkAlloc(p *Program) *Report {
	rep := newReport("every allocation size in the gated value graphs of decoding arbitrary input is at most 65536 elements")
	decodeScenes(p, rep, 0, func(s *scene, key, pos string) {
		for _, a := range s.ip.allocs {
			rep.Analysed["allocations"]++
			s.judge(key, a.pos, "size of "+a.kind+" in "+a.fn+" is not bounded by a constant", and(a.bad, not(iUlt(a.v, vConst(maxPre+1, 64)))), a.v, nil)
		}
	})
	rep.floor("allocations", 10)
	return rep
}

// twice analyses a second time with loops widened if the first time did not come to an end.
func twice(rep *Report, key string, f func(widen bool)) {
	rep.decide(key, func() {
		limit := bddLimit
		bddLimit = 3_200_000
		defer func() { bddLimit = limit }()
		why := attempt(func() { f(false) })
		bddLimit = limit
		if why != "" {
			resetGraph()
			rep.Analysed["widened"]++
			f(true)
		}
	})
}

// convenience constructors that panic on invalid input
var mayPanic = map[string]bool{"A": true}

func checkTextPanics(p *Program) *Report {
	rep := newReport("panic conditions in the gated value graphs of parsing arbitrary text are unsatisfiable")
	one := func(key string, f *ssa.Function, whole bool) {
		twice(rep, key, func(widen bool) {
			s := newScene(p, rep)
			s.ip.widen = widen
			if !whole {
				s.opaqueBase58()
			}
			var args []*V
			for j, q := range f.Params {
				if j == 0 && f.Signature.Recv() != nil {
					args = append(args, s.alloc(deref(q.Type()), fresh(deref(q.Type()), nameOf("old"))))
					continue
				}
				args = append(args, fresh(q.Type(), nameOf(q.Name())))
			}
			s.run(f, args...)
			s.noPanic(key)
			rep.Analysed["parsers"]++
		})
	}
	for _, pk := range []string{"chain", "base58"} {
		sc := p.all[modPath+"/pkg/"+pk].Types.Scope()
		names := sc.Names()
		sort.Strings(names)
		for _, n := range names {
			fo, ok := sc.Lookup(n).(*types.Func)
			if !ok || !fo.Exported() || mayPanic[n] {
				continue
			}
			text := false
			sig := fo.Type().(*types.Signature)
			for i := 0; i < sig.Params().Len(); i++ {
				text = text || isString(sig.Params().At(i).Type())
			}
			if !text || strings.Contains(n, "Encode") {
				continue
			}
			one(pk+"."+n, p.SSA.FuncValue(fo), pk == "base58" && n == "Decode")
		}
	}
	for _, method := range []string{"UnmarshalText", "UnmarshalJSON"} {
		for _, t := range textTypes(p, method) {
			one(t.Obj().Name()+"."+method, p.SSA.LookupMethod(types.NewPointer(t), t.Obj().Pkg(), method), false)
		}
	}
	rep.floor("parsers", 25)
	return rep
}

func init() {
	checks["C08"] = checkDecodePanics
	checks["C09"] = checkTextPanics
	checks["C10"] = checkAlloc
}
