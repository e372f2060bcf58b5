package main

import (
	"go/types"
	"reflect"
	"strings"
)

// C04: reflection-driven encoding and decoding.

const specTypes = `package composite

import "chain"

type Kind uint32
type Serial uint64
type Delta int32
type Offset int64

type Scalars struct {
	A bool
	B string
	C uint8
	D uint16
	E uint32
	F uint64
	G int8
	H int16
	I int32
	J int64
	K float32
	L float64
	M int
	N uint
	O []byte
}

type Named struct {
	A Kind
	B Serial
	C Delta
	D Offset
}

type Chain struct {
	Owner chain.Name
	Amount chain.Asset
	When chain.TimePointSec
	Key chain.PublicKey
	Sum chain.Checksum256
	Memo string
	Big chain.Uint128
	ExAmount chain.ExtendedAsset
	Last uint8
}

type Pair struct {
	X uint16
	Y string
}

type Lists struct {
	Before uint8
	Pairs []Pair
	Numbers []uint32
	Names []chain.Name
	After uint16
}

type Nested struct {
	Rows [][]uint16
	Groups []Group
}

type Group struct {
	Label string
	Items []Pair
}

type Arrays struct {
	A [3]uint16
	B [2]Pair
	C [4]byte
	D uint8
}

type Pointers struct {
	A *uint32
	B *Pair
	C **uint32
	D uint8
}

type OptNumber struct {
	A *uint32 ` + "`eosio:\"optional\"`" + `
	B uint16 ` + "`eosio:\"optional\"`" + `
	C uint8
}

type OptPair struct {
	A *Pair ` + "`eosio:\"optional\"`" + `
	B uint8
}

type OptText struct {
	A string ` + "`eosio:\"optional\"`" + `
	B uint8
}

type OptChain struct {
	A chain.Name ` + "`eosio:\"optional\"`" + `
	B *chain.Asset ` + "`eosio:\"optional\"`" + `
	C uint8
}

type OptList struct {
	A []uint16 ` + "`eosio:\"optional\"`" + `
	B uint8
}

type Choice struct {
	First *uint16
	Second *Pair
	Third *chain.Name
}

type Variants struct {
	A uint8
	B Choice ` + "`eosio:\"variant\"`" + `
	C uint8
}

type Blank struct {
	A uint8
	_ uint32
	B uint16
}

type Deep struct {
	Head Scalars
	Body struct {
		Inner Pair
		Tail []Pair
	}
	Opt *Lists ` + "`eosio:\"optional\"`" + `
	Last bool
}

type Tags struct {
	A uint16 ` + "`json:\"a\"`" + `
	B uint32 ` + "`json:\"b,omitempty\" eosio:\"whatever\"`" + `
}

type PtrList struct {
	A []*Pair
	B uint8
}

type Channel struct { A uint8; B chan int }
type Function struct { A uint8; B func() }
type Complex struct { A complex128 }
type Hidden struct { A uint8; b uint8 }
type HiddenPtr struct { A uint8; b *uint8 }
`

// layoutOf derives the documented layout from the shape of a Go type.
func layoutOf(p *Program, t types.Type) *layout {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgChain {
		if l := chainLayouts()[n.Obj().Name()]; l != nil {
			return l
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return LK(lBool)
		case types.String:
			return LK(lStr)
		case types.Int:
			return LK(lVarint)
		case types.Uint:
			return LK(lVaruint)
		}
		if w, _, ok := intWidth(t); ok {
			return LI(w / 8)
		}
		if w := floatWidth(t); w > 0 {
			return LI(w / 8)
		}
	case *types.Slice:
		if b, ok := types.Unalias(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return LK(lBytes)
		}
		return LV(layoutOf(p, u.Elem()))
	case *types.Array:
		if b, ok := types.Unalias(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return LR(int(u.Len()))
		}
		return &layout{kind: lArr, w: int(u.Len()), elem: layoutOf(p, u.Elem())}
	case *types.Pointer:
		return &layout{kind: lPtr, elem: layoutOf(p, u.Elem())}
	case *types.Struct:
		l := LS()
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			fl := layoutOf(p, f.Type())
			switch reflect.StructTag(u.Tag(i)).Get("eosio") {
			case "optional":
				fl = &layout{kind: lOpt, elem: fl}
			case "variant":
				fl = &layout{kind: lVariant, fields: fl.fields}
			case "extension":
				fl = &layout{kind: lExt, elem: fl}
			}
			l.fields = append(l.fields, F(f.Name(), fl))
		}
		return l
	}
	unsup("no layout for %s", t)
	return nil
}

// maxList bounds the length of decoded lists of structured elements: beyond the decoder's
// initial allocation elements are appended one by one, which is outside the analysed part.
const maxList = 4096

var compositeTypes = []string{"Kind", "Serial", "Delta", "Offset", "Scalars", "Named", "Chain", "Pair", "Lists", "Nested", "Arrays", "Pointers", "OptNumber", "OptPair", "OptText", "OptChain", "OptList", "Variants", "Blank", "Deep", "Tags"}

func checkReflect(p *Program) *Report {
	rep := newReport("gated value graphs of Encoder.Encode and Decoder.Decode on composite Go types equal the documented layout for every value and every input")
	var sp *specPkg
	rep.decide("specification types", func() { sp = p.spec("composite", specTypes) })
	if sp == nil {
		return rep
	}
	rep.Assumptions = append(rep.Assumptions, "decoded lists handled by reflection have at most 4096 elements (longer ones are grown element by element outside the analysed part)", "the composite types analysed are the ones in e2_reflect.go")
	encT, decT := p.named("pkg/abi", "Encoder"), p.named("pkg/abi", "Decoder")
	encode, decode := p.method(encT, "Encode"), p.method(decT, "Decode")
	for _, tn := range compositeTypes {
		t := sp.typ(tn)
		for _, byPtr := range []bool{false, true} {
			key := "Encode(" + tn + ")"
			if byPtr {
				key = "Encode(*" + tn + ")"
			}
			rep.decide(key, func() { reflectEnc(p, rep, key, t, encode, byPtr) })
		}
		key := "Decode(*" + tn + ")"
		rep.decide(key, func() { reflectDec(p, rep, key, t, decode, false) })
		rep.Analysed["composite types"]++
	}
	rep.decide("Decode(*PtrList)", func() { reflectDec(p, rep, "Decode(*PtrList)", sp.typ("PtrList"), decode, false) })
	for _, tn := range []string{"Channel", "Function", "Complex", "Hidden", "HiddenPtr"} {
		t := sp.typ(tn)
		key := "Encode(" + tn + ")"
		rep.decide(key, func() {
			s := newScene(p, rep)
			enc := s.encoder()
			err := s.run(encode, enc, vIface(t, fresh(t, nameOf("value"))))
			s.noPanic(key)
			s.errIff(key, p.pos(encode.Pos()), key, err, bT, bT)
		})
		key = "Decode(*" + tn + ")"
		rep.decide(key, func() {
			s := newScene(p, rep)
			s.ip.wellformed = true
			dec := s.decoder()
			ptr := s.alloc(t, zero(t))
			err := s.run(decode, dec, vIface(types.NewPointer(t), ptr))
			s.noPanic(key)
			s.errIff(key, p.pos(decode.Pos()), key, err, bT, bT)
		})
	}
	for _, v := range []struct {
		name string
		v    *V
	}{{"nil", vNil}, {"nil pointer", vIface(types.NewPointer(sp.typ("Pair")), vNil)}} {
		key := "Encode(" + v.name + ")"
		rep.decide(key, func() {
			s := newScene(p, rep)
			enc := s.encoder()
			err := s.run(encode, enc, v.v)
			s.noPanic(key)
			s.errIff(key, p.pos(encode.Pos()), key, err, bT, bT)
		})
		key = "Decode(" + v.name + ")"
		rep.decide(key, func() {
			s := newScene(p, rep)
			s.ip.wellformed = true
			dec := s.decoder()
			err := s.run(decode, dec, v.v)
			s.noPanic(key)
			s.errIff(key, p.pos(decode.Pos()), key, err, bT, bT)
		})
	}
	rep.floor("composite types", 5)
	return rep
}

// noPanic requires that no run-time panic was reachable.
func (s *scene) noPanic(key string) {
	for _, o := range s.ip.obs {
		s.judge(key, o.pos, "panics: "+o.kind+" in "+o.fn, o.bad, nil, nil)
	}
}

func reflectEnc(p *Program, rep *Report, key string, t types.Type, encode *ssaFn, byPtr bool) {
	s := newScene(p, rep)
	l := layoutOf(p, t)
	enc := s.encoder()
	v := fresh(t, nameOf("value"))
	arg := vIface(t, v)
	if byPtr {
		arg = vIface(types.NewPointer(t), s.alloc(t, v))
	}
	if strings.HasSuffix(key, "Ptr)") { // C07: the value behind the pointer
		s.assume = not(s.ip.valEq(s.st, v.kids[0], vNil, bT))
	}
	err := s.run(encode, enc, arg)
	want, bad := s.wireEnc(l, t, v, s.st.g, 0)
	pos := p.pos(encode.Pos())
	s.noPanic(key)
	s.errIff(key, pos, "encoding", err, bad, bT)
	s.same(key, pos, "bytes written", s.out(), s, want, not(bad))
	rep.sample("%s writes %s", key, want.short(4))
}

func reflectDec(p *Program, rep *Report, key string, t types.Type, decode *ssaFn, dirty bool) {
	s := newScene(p, rep)
	s.ip.wellformed = true
	s.ip.maxList = maxList
	l := layoutOf(p, t)
	dec := s.decoder()
	v0 := zero(t)
	if dirty {
		v0 = fresh(t, nameOf("old"))
	}
	ptr := s.alloc(t, v0)
	spec := s.fork()
	err := s.run(decode, dec, vIface(types.NewPointer(t), ptr))
	want, bad := spec.wireDec(l, t, 0)
	pos := p.pos(decode.Pos())
	s.noPanic(key)
	s.errIff(key, pos, "decoding", err, bad, bT)
	s.same(key, pos, "value decoded", s.ip.load(s.st, ptr, nil), spec, want, not(bad))
	s.same(key, pos, "input consumed", s.pos(), spec, spec.pos(), not(bad))
	rep.sample("%s yields %s", key, want.short(4))
}

func init() { checks["C04"] = checkReflect }
