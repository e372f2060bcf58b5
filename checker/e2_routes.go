package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: every route through a chain encoder or decoder treats a chain type as its own method
// does, and a custom callback comes first.

func checkRoutes(p *Program) *Report {
	rep := newReport("gated value graphs of every route (direct, pointer, field, element, custom callback) equal the layout of the type's own method")
	lays := chainLayouts()
	var src strings.Builder
	src.WriteString("package routes\n\nimport \"chain\"\n")
	for _, tn := range sortedKeys(lays) {
		fmt.Fprintf(&src, "type %sField struct { V chain.%s; T uint8 }\ntype %sPtr struct { P *chain.%s; T uint8 }\ntype %sList []chain.%s\n", tn, tn, tn, tn, tn, tn)
	}
	src.WriteString("type Two struct { A chain.Name; B uint32 }\n")
	var sp *specPkg
	rep.decide("specification types", func() { sp = p.spec("routes", src.String()) })
	if sp == nil {
		return rep
	}
	encT, decT := p.named("pkg/abi", "Encoder"), p.named("pkg/abi", "Decoder")
	encode, decode := p.method(encT, "Encode"), p.method(decT, "Decode")
	for _, tn := range sortedKeys(lays) {
		t := p.named("pkg/chain", tn)
		if t == nil {
			rep.undecided(tn, "type not found")
			continue
		}
		rep.Analysed["types"]++
		one := func(key string, t types.Type) {
			// the loop cannot be summarised exactly where single elements may be rejected
			encList, decList := true, true
			switch key {
			case "TransactionHeaderList":
				encList = false
			case "PublicKeyList", "SignatureList":
				decList = false
			}
			if encList {
				rep.decide("Encode("+key+")", func() { reflectEnc(p, rep, "Encode("+key+")", t, encode, false) })
				rep.decide("Encode(*"+key+")", func() { reflectEnc(p, rep, "Encode(*"+key+")", t, encode, true) })
			}
			if decList {
				rep.decide("Decode(*"+key+")", func() { reflectDec(p, rep, "Decode(*"+key+")", t, decode, false) })
			}
		}
		one(tn, t)
		for _, suf := range []string{"Field", "Ptr", "List"} {
			if tn == "Transaction" && suf == "List" {
				continue // three nested lists
			}
			one(tn+suf, sp.typ(tn+suf))
		}
		if tn == "ExtendedAsset" {
			continue // encoded field by field, each field goes through the callback
		}
		rep.decide("custom Encode("+tn+")", func() { customEnc(p, rep, "custom Encode("+tn+")", t, encode, false) })
		rep.decide("custom Decode("+tn+")", func() { customDec(p, rep, "custom Decode("+tn+")", t, decode, false) })
	}
	for _, t := range []types.Type{types.Typ[types.Uint32], types.Typ[types.String]} {
		rep.decide("custom Encode("+t.String()+")", func() { customEnc(p, rep, "custom Encode("+t.String()+")", t, encode, false) })
		rep.decide("custom Decode("+t.String()+")", func() { customDec(p, rep, "custom Decode("+t.String()+")", t, decode, false) })
	}
	rep.decide("custom Encode(Two)", func() { customEnc(p, rep, "custom Encode(Two)", sp.typ("Two"), encode, true) })
	rep.decide("custom Decode(Two)", func() { customDec(p, rep, "custom Decode(Two)", sp.typ("Two"), decode, true) })
	rep.floor("types", 15)
	return rep
}

// cb names the outcome of a callback consulted for a value (or a position of the input).
func cb(key *V) (done, fail B) { return atom("callback-done", key), atom("callback-fail", key) }

func cbOut(key *V) *V {
	name := vOpq("callback-output", nil, key)
	return seqOf(segSub(vSym(name, symLen(name), types.Typ[types.Uint8]), vConst(0, 64), symLen(name)))
}

func customEnc(p *Program, rep *Report, key string, t types.Type, encode *ssaFn, fields bool) {
	s := newScene(p, rep)
	s.ip.hooks["func:callback"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		if a[1].k != KIface {
			unsup("callback argument %s", a[1].short(2))
		}
		k := ip.byValue(st, a[1])
		done, fail := cb(k)
		old := ip.objContent(st, objOut)
		st.setMem(objOut, seqIte(or(done, fail), seqOf(old, cbOut(k)), old))
		return vTuple(vBool(done), vIte(fail, ip.newErr(), vNil)), st
	}
	enc := s.run(s.fn("pkg/chain", "NewCustomEncoder"), vOpq("writer", nil), vOpq("callback", nil))
	v := fresh(t, nameOf("value"))
	err := s.run(encode, enc, vIface(t, v))
	var want func(t types.Type, v *V) (*V, B)
	want = func(t types.Type, v *V) (*V, B) {
		k := s.ip.byValue(s.st, vIface(t, v))
		done, fail := cb(k)
		var out *V
		bad := bF
		if st, ok := t.Underlying().(*types.Struct); ok && fields {
			out = seqEmpty
			for i := 0; i < st.NumFields(); i++ {
				o, b := want(st.Field(i).Type(), v.kids[i])
				out = seqIte(bad, out, seqOf(out, o))
				bad = or(bad, b)
			}
		} else {
			out, bad = s.wireEnc(layoutOf(p, t), t, v, s.st.g, 0)
		}
		return seqIte(or(done, fail), cbOut(k), out), ite(or(done, fail), fail, bad)
	}
	w, bad := want(t, v)
	pos := p.pos(encode.Pos())
	s.noPanic(key)
	s.errIff(key, pos, "encoding with a callback", err, bad, bT)
	s.same(key, pos, "bytes written with a callback", s.out(), s, w, not(bad))
}

func customDec(p *Program, rep *Report, key string, t types.Type, decode *ssaFn, fields bool) {
	s := newScene(p, rep)
	s.ip.wellformed = true
	s.ip.maxList = maxList
	handled := func(st *State, ip *Interp, pt types.Type) (k *V, done, fail B) {
		gs, vs := alts(ip.objContent(st, objPos), st.g)
		pos := vs[0]
		for i := 1; i < len(vs); i++ {
			pos = vIte(restrict(gs[i], st.g), vs[i], pos)
		}
		k = vOpq("at", nil, pos, vOpq("type:"+pt.String(), nil))
		done, fail = cb(k)
		return
	}
	s.ip.hooks["func:callback"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		if a[1].k != KIface || a[1].kids[0].k != KPtr {
			unsup("callback argument %s", a[1].short(2))
		}
		k, done, fail := handled(st, ip, a[1].t)
		h := or(done, fail)
		old := ip.objContent(st, objPos)
		st.setMem(objPos, vIte(h, vPos(vOpq("callback-end", nil, k), 0), old))
		et := deref(a[1].t)
		ip.store(st, a[1].kids[0], vIte(h, fresh(et, vOpq("callback-value", nil, k)), ip.load(st, a[1].kids[0], in)), in)
		return vTuple(vBool(done), vIte(fail, ip.newErr(), vNil)), st
	}
	dec := s.run(s.fn("pkg/chain", "NewCustomDecoder"), vOpq("sysreader", nil), vOpq("callback", nil))
	ptr := s.alloc(t, zero(t))
	spec := s.fork()
	err := s.run(decode, dec, vIface(types.NewPointer(t), ptr))
	var want func(sc *scene, t types.Type) (*V, B)
	want = func(sc *scene, t types.Type) (*V, B) {
		k, done, fail := handled(sc.st, sc.ip, types.NewPointer(t))
		h := or(done, fail)
		std := sc.fork()
		std.st.g = and(sc.st.g, not(h))
		var v *V
		bad := bF
		if st, ok := t.Underlying().(*types.Struct); ok && fields {
			kids := append([]*V{}, zero(t).kids...)
			for i := 0; i < st.NumFields(); i++ {
				var b B
				kids[i], b = want(std, st.Field(i).Type())
				bad = or(bad, b)
				std.st.g = and(std.st.g, not(b))
			}
			v = vStruct(kids...)
		} else {
			v, bad = std.wireDec(layoutOf(p, t), t, 0)
		}
		hs := sc.fork()
		hs.st.g = and(sc.st.g, h)
		hs.st.setMem(objPos, vPos(vOpq("callback-end", nil, k), 0))
		g := sc.st.g
		if std.st.g == bF {
			sc.st = hs.st
		} else {
			sc.st = sc.ip.mergeStates(hs.st, std.st, nil)
		}
		return vIte(h, fresh(t, vOpq("callback-value", nil, k)), v), and(g, ite(h, fail, bad))
	}
	w, bad := want(spec, t)
	pos := p.pos(decode.Pos())
	s.noPanic(key)
	s.errIff(key, pos, "decoding with a callback", err, bad, bT)
	s.same(key, pos, "value decoded with a callback", s.ip.load(s.st, ptr, nil), spec, w, not(bad))
	s.same(key, pos, "input consumed with a callback", s.pos(), spec, spec.pos(), not(bad))
}

func init() { checks["C07"] = checkRoutes }
