package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C28: the text that codegen produces for a struct type is computed (the generator works on
// constants only), type-checked, and the methods it declares are compared with the layout
// that reflective coding uses for the same struct type.

const genHead = `package %s

import (
	"abi"
	"chain"
	"errors"
	"fmt"
)

var _ = errors.New
var _ = fmt.Errorf
var _ abi.Encoder
var _ chain.Name

`

type genType struct {
	name, fields string
	enc          bool
}

func genTypes() []genType {
	opt := " `eosio:\"optional\"`"
	var r []genType
	add := func(name, fields string) { r = append(r, genType{name, fields, true}) }
	builtins := []string{"string", "uint64", "uint32", "uint16", "uint8", "int64", "int32", "int16", "int8", "bool", "int", "uint", "float32", "float64"}
	others := []string{"chain.Name", "chain.Asset", "chain.Checksum256", "chain.TimePointSec", "chain.Bytes", "chain.PermissionLevel", "chain.Uint128"}
	for _, b := range builtins {
		n := strings.Title(b)
		add(n+"Field", "A "+b)
		add(n+"List", "A []"+b+"; B uint16")
		r[len(r)-1].enc = b != "int" && b != "uint" // single elements may be out of range
		add(n+"Array", "A [3]"+b+"; B []uint16")
		add(n+"Pointer", "A *"+b+"; B uint16")
		add(n+"Optional", "A *"+b+opt+"; B "+b)
	}
	for _, b := range others {
		n := strings.TrimPrefix(b, "chain.")
		add(n+"Field", "A "+b+"; B uint8")
		add(n+"List", "A []"+b+"; B uint16")
		add(n+"Array", "A [2]"+b+"; B []uint16")
	}
	add("Order", "Z uint8; A uint16; M uint32; B uint64; Y int8; C int16; X int32; D int64; W string; E bool; V float32; F float64; U int; G uint; T chain.Name; H chain.Asset")
	add("Options", "A *uint16"+opt+"; B *string"+opt+"; C *bool"+opt+"; D uint8; E *uint64"+opt)
	add("Twelve", "A [12]uint8; B []chain.Name; C [1]int16; D []string")
	return r
}

func checkCodegen(p *Program) *Report {
	rep := newReport("the methods generated for a struct type, computed from the generator's source, equal the layout of reflective coding for every value and every input")
	gen := p.function("pkg/codegen", "GenUnmarshalFn")
	if gen == nil {
		rep.undecided("GenUnmarshalFn", "function not found")
		return rep
	}
	pos := p.pos(gen.Pos())
	gts := genTypes()
	var decl strings.Builder
	for _, t := range gts {
		fmt.Fprintf(&decl, "type %s struct { %s }\n", t.name, t.fields)
	}
	var sp *specPkg
	rep.decide("specification types", func() { sp = p.spec("gentypes", fmt.Sprintf(genHead, "gentypes")+decl.String()) })
	if sp == nil {
		return rep
	}
	code := map[string]string{}
	for _, t := range gts {
		t := t
		rep.decide("GenUnmarshalFn("+t.name+")", func() {
			s := newScene(p, rep)
			st := sp.typ(t.name)
			got := s.run(gen, vIface(st, zero(st)))
			s.noPanic("GenUnmarshalFn(" + t.name + ")")
			if got == nil {
				return
			}
			text, ok := constStr(got)
			if !ok {
				unsup("the text depends on something else than the type")
			}
			code[t.name] = text
			rep.Analysed["struct types"]++
		})
	}
	for i, t := range gts {
		text, ok := code[t.name]
		if !ok {
			continue
		}
		var gp *specPkg
		name := fmt.Sprintf("gen%d", i)
		rep.decide("code for "+t.name, func() {
			defer func() {
				if e := recover(); e != nil {
					u, ok := e.(unsupported)
					if !ok {
						panic(e)
					}
					rep.fail("code for "+t.name, pos, "the generated code is not valid Go: %s", strings.TrimPrefix(u.what, "specification does not fit the code: "))
				}
			}()
			gp = p.spec(name, fmt.Sprintf(genHead, name)+fmt.Sprintf("type %s struct { %s }\n", t.name, t.fields)+text)
		})
		if gp == nil {
			continue
		}
		gt := gp.typ(t.name)
		for _, m := range []string{"MarshalABI", "UnmarshalABI"} {
			if p.SSA.LookupMethod(types.NewPointer(gt), gp.types, m) == nil {
				rep.fail("code for "+t.name, pos, "the generated code has no method %s", m)
				gt = nil
				break
			}
		}
		if gt == nil {
			continue
		}
		// byte strings may be copied whole or byte by byte
		lays := []*layout{genLayout(p, gt, true), genLayout(p, gt, false)}
		if !strings.Contains(t.fields, "[]uint8") {
			lays = lays[:1]
		}
		either := func(f func(l *layout)) {
			n := len(rep.Findings)
			for i, l := range lays {
				found := append([]Finding{}, rep.Findings[:n]...)
				f(l)
				if len(rep.Findings) == n || i == len(lays)-1 {
					return
				}
				rep.Findings = found
			}
		}
		if t.enc {
			rep.decide(t.name+".MarshalABI", func() {
				key := t.name + ".MarshalABI"
				either(func(l *layout) {
					s := newScene(p, rep)
					enc := s.encoder()
					ptr := s.alloc(gt, fresh(gt, nameOf("value")))
					v := s.ip.load(s.st, ptr, nil)
					err := s.callM(ptr, gt, "MarshalABI", enc)
					want, bad := s.wireEnc(l, gt, v, s.st.g, 0)
					s.noPanic(key)
					s.errIff(key, pos, "generated marshalling", err, bad, bT)
					s.same(key, pos, "bytes written by generated code", s.out(), s, want, not(bad))
				})
			})
		}
		rep.decide(t.name+".UnmarshalABI", func() {
			key := t.name + ".UnmarshalABI"
			either(func(l *layout) {
				s := newScene(p, rep)
				s.ip.wellformed = true
				dec := s.decoder()
				ptr := s.alloc(gt, zero(gt))
				spec := s.fork()
				err := s.callM(ptr, gt, "UnmarshalABI", dec)
				want, bad := spec.wireDec(l, gt, 0)
				s.noPanic(key)
				s.errIff(key, pos, "generated unmarshalling", err, bad, bT)
				s.same(key, pos, "value read by generated code", s.ip.load(s.st, ptr, nil), spec, want, not(bad))
				s.same(key, pos, "input consumed by generated code", s.pos(), spec, spec.pos(), not(bad))
			})
		})
	}
	rep.floor("struct types", 40)
	return rep
}

// genLayout is the layout of a struct, with byte strings as lists of bytes if so wished.
func genLayout(p *Program, t types.Type, bytewise bool) *layout {
	l := layoutOf(p, t)
	if !bytewise {
		return l
	}
	u := t.Underlying().(*types.Struct)
	for i := range l.fields {
		if f, ok := u.Field(i).Type().(*types.Slice); ok && types.Identical(f.Elem(), types.Typ[types.Uint8]) {
			l.fields[i].l = LV(LI(1))
		}
	}
	return l
}

func init() { checks["C28"] = checkCodegen }
