package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: types defined by an ABI. The definitions, the values and what encoding and decoding
// them has to do are written down in Go below; both sides are analysed, neither is run.

const specAbi = `package abidef

import (
	"abi"
	"chain"
	"errors"
)

type list = []interface{}
type dict = map[string]interface{}

func f(name, typ string) chain.AbiField { return chain.AbiField{Name: name, Type: typ} }

func Def() chain.Abi {
	return chain.Abi{
		Types: []chain.AbiType{
			{NewTypeName: "account", Type: "name"},
			{NewTypeName: "owner", Type: "account"},
			{NewTypeName: "scores", Type: "uint16[]"},
			{NewTypeName: "memo", Type: "string?"},
			{NewTypeName: "couple", Type: "pair"},
			{NewTypeName: "answer", Type: "choice"},
		},
		Structs: []chain.AbiStruct{
			{Name: "pair", Fields: []chain.AbiField{f("a", "uint8"), f("b", "string")}},
			{Name: "grand", Fields: []chain.AbiField{f("g1", "uint8"), f("g2", "uint16")}},
			{Name: "parent", Base: "grand", Fields: []chain.AbiField{f("p1", "uint32"), f("p2", "string")}},
			{Name: "child", Base: "parent", Fields: []chain.AbiField{f("c1", "int8"), f("c2", "name")}},
			{Name: "heir", Base: "child"},
			{Name: "estate", Base: "heir"},
			{Name: "nothing"},
			{Name: "first", Base: "nothing", Fields: []chain.AbiField{f("x", "uint8")}},
			{Name: "mixed", Fields: []chain.AbiField{f("who", "owner"), f("all", "scores"), f("n", "uint16?"), f("m", "memo"), f("p", "couple"), f("end", "uint8")}},
			{Name: "nested", Fields: []chain.AbiField{f("p", "pair"), f("q", "pair?"), f("l", "pair[]"), f("v", "choice"), f("z", "uint8")}},
			{Name: "tail", Fields: []chain.AbiField{f("a", "uint8"), f("b", "string$"), f("c", "uint16?$")}},
			{Name: "tails", Fields: []chain.AbiField{f("a", "uint8"), f("b", "uint16[]$")}},
			{Name: "node", Fields: []chain.AbiField{f("v", "uint8"), f("next", "node?")}},
			{Name: "dangling", Base: "missing", Fields: []chain.AbiField{f("a", "uint8")}},
		},
		Variants: []chain.AbiVariant{
			{Name: "choice", Types: []string{"uint8", "string", "pair", "uint16[]", "int8?"}},
			{Name: "void", Types: []string{}},
		},
		Actions: []chain.AbiAction{{Name: 1, Type: "pair"}, {Name: 2, Type: "choice"}, {Name: 3, Type: "uint16[]"}, {Name: 2, Type: "pair"}},
	}
}

// what the caller hands over, and its encoding

func ValPair(a uint8, b string) interface{} { return dict{"a": a, "b": b} }
func EncPair(e *abi.Encoder, a uint8, b string) error {
	if err := e.WriteUint8(a); err != nil { return err }
	return e.WriteString(b)
}
func DecPair(d *abi.Decoder) (interface{}, error) {
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	b, err := d.ReadString()
	if err != nil { return nil, err }
	return dict{"a": a, "b": b}, nil
}

func ValChild(g1 uint8, g2 uint16, p1 uint32, p2 string, c1 int8, c2 chain.Name) interface{} {
	return dict{"c2": c2, "c1": c1, "p2": p2, "p1": p1, "g2": g2, "g1": g1}
}
func EncChild(e *abi.Encoder, g1 uint8, g2 uint16, p1 uint32, p2 string, c1 int8, c2 chain.Name) error {
	if err := e.WriteUint8(g1); err != nil { return err }
	if err := e.WriteUint16(g2); err != nil { return err }
	if err := e.WriteUint32(p1); err != nil { return err }
	if err := e.WriteString(p2); err != nil { return err }
	if err := e.WriteInt8(c1); err != nil { return err }
	return e.WriteUint64(uint64(c2))
}
func DecChild(d *abi.Decoder) (interface{}, error) {
	g1, err := d.ReadUint8()
	if err != nil { return nil, err }
	g2, err := d.ReadUint16()
	if err != nil { return nil, err }
	p1, err := d.ReadUint32()
	if err != nil { return nil, err }
	p2, err := d.ReadString()
	if err != nil { return nil, err }
	c1, err := d.ReadInt8()
	if err != nil { return nil, err }
	c2, err := d.ReadUint64()
	if err != nil { return nil, err }
	return dict{"g1": g1, "g2": g2, "p1": p1, "p2": p2, "c1": c1, "c2": chain.Name(c2)}, nil
}

func ValNothing() interface{} { return dict{} }
func EncNothing(e *abi.Encoder) error { return nil }
func DecNothing(d *abi.Decoder) (interface{}, error) { return dict{}, nil }

func ValFirst(x uint8) interface{} { return dict{"x": x} }
func EncFirst(e *abi.Encoder, x uint8) error { return e.WriteUint8(x) }
func DecFirst(d *abi.Decoder) (interface{}, error) {
	x, err := d.ReadUint8()
	if err != nil { return nil, err }
	return dict{"x": x}, nil
}

func ValAccount(n chain.Name) interface{} { return n }
func EncAccount(e *abi.Encoder, n chain.Name) error { return e.WriteUint64(uint64(n)) }
func DecAccount(d *abi.Decoder) (interface{}, error) {
	n, err := d.ReadUint64()
	if err != nil { return nil, err }
	return chain.Name(n), nil
}

func ValScores(s []uint16) interface{} {
	l := list{}
	for _, x := range s { l = append(l, x) }
	return l
}
func EncScores(e *abi.Encoder, s []uint16) error {
	if err := e.WriteVaruint(uint(len(s))); err != nil { return err }
	for _, x := range s {
		if err := e.WriteUint16(x); err != nil { return err }
	}
	return nil
}
func DecScores(d *abi.Decoder) (interface{}, error) {
	n, err := d.ReadVaruint()
	if err != nil { return nil, err }
	l := list{}
	for i := 0; i < int(n); i++ {
		x, err := d.ReadUint16()
		if err != nil { return nil, err }
		l = append(l, x)
	}
	return l, nil
}

func ValNames(s []chain.Name) interface{} {
	l := list{}
	for _, x := range s { l = append(l, x) }
	return l
}
func EncNames(e *abi.Encoder, s []chain.Name) error {
	if err := e.WriteVaruint(uint(len(s))); err != nil { return err }
	for _, x := range s {
		if err := e.WriteUint64(uint64(x)); err != nil { return err }
	}
	return nil
}
func DecNames(d *abi.Decoder) (interface{}, error) {
	n, err := d.ReadVaruint()
	if err != nil { return nil, err }
	l := list{}
	for i := 0; i < int(n); i++ {
		x, err := d.ReadUint64()
		if err != nil { return nil, err }
		l = append(l, chain.Name(x))
	}
	return l, nil
}

func ValTexts(s []string) interface{} {
	l := list{}
	for _, x := range s { l = append(l, x) }
	return l
}
func EncTexts(e *abi.Encoder, s []string) error {
	if err := e.WriteVaruint(uint(len(s))); err != nil { return err }
	for _, x := range s {
		if err := e.WriteString(x); err != nil { return err }
	}
	return nil
}

func decList(d *abi.Decoder, el func(*abi.Decoder) (interface{}, error)) (interface{}, error) {
	n, err := d.ReadVaruint()
	if err != nil { return nil, err }
	l := list{}
	for i := 0; i < int(n); i++ {
		x, err := el(d)
		if err != nil { return nil, err }
		l = append(l, x)
	}
	return l, nil
}
func DecTexts(d *abi.Decoder) (interface{}, error) {
	return decList(d, func(d *abi.Decoder) (interface{}, error) {
		x, err := d.ReadString()
		if err != nil { return nil, err }
		return x, nil
	})
}
func DecPairs(d *abi.Decoder) (interface{}, error) { return decList(d, DecPair) }
func DecTable(d *abi.Decoder) (interface{}, error) { return decList(d, DecScores) }
func DecChoices(d *abi.Decoder) (interface{}, error) { return decList(d, DecChoice) }
func ValTable(a, b []uint16) interface{} { return list{ValScores(a), ValScores(b)} }
func EncTable(e *abi.Encoder, a, b []uint16) error {
	if err := e.WriteVaruint(2); err != nil { return err }
	if err := EncScores(e, a); err != nil { return err }
	return EncScores(e, b)
}
func ValChoices(s string, x uint8) interface{} { return list{ValChoice1(s), ValChoice0(x)} }
func EncChoices(e *abi.Encoder, s string, x uint8) error {
	if err := e.WriteVaruint(2); err != nil { return err }
	if err := EncChoice1(e, s); err != nil { return err }
	return EncChoice0(e, x)
}

func ValTwoTexts(a, b string) interface{} { return list{a, b} }
func EncTwoTexts(e *abi.Encoder, a, b string) error {
	if err := e.WriteVaruint(2); err != nil { return err }
	if err := e.WriteString(a); err != nil { return err }
	return e.WriteString(b)
}

func ValMemo(has bool, s string) interface{} {
	if has { return s }
	return nil
}
func EncMemo(e *abi.Encoder, has bool, s string) error {
	if err := e.WriteBool(has); err != nil { return err }
	if !has { return nil }
	return e.WriteString(s)
}
func DecMemo(d *abi.Decoder) (interface{}, error) {
	has, err := d.ReadBool()
	if err != nil || !has { return nil, err }
	s, err := d.ReadString()
	if err != nil { return nil, err }
	return s, nil
}

func ValOptPair(has bool, a uint8, b string) interface{} {
	if has { return dict{"a": a, "b": b} }
	return nil
}
func EncOptPair(e *abi.Encoder, has bool, a uint8, b string) error {
	if err := e.WriteBool(has); err != nil { return err }
	if !has { return nil }
	return EncPair(e, a, b)
}
func DecOptPair(d *abi.Decoder) (interface{}, error) {
	has, err := d.ReadBool()
	if err != nil || !has { return nil, err }
	return DecPair(d)
}

func ValOptScores(has bool, s []uint16) interface{} {
	if has { return ValScores(s) }
	return nil
}
func EncOptScores(e *abi.Encoder, has bool, s []uint16) error {
	if err := e.WriteBool(has); err != nil { return err }
	if !has { return nil }
	return EncScores(e, s)
}
func DecOptScores(d *abi.Decoder) (interface{}, error) {
	has, err := d.ReadBool()
	if err != nil || !has { return nil, err }
	return DecScores(d)
}

func ValPairs(a1 uint8, b1 string, a2 uint8, b2 string) interface{} {
	return list{dict{"a": a1, "b": b1}, dict{"a": a2, "b": b2}}
}
func EncPairs(e *abi.Encoder, a1 uint8, b1 string, a2 uint8, b2 string) error {
	if err := e.WriteVaruint(2); err != nil { return err }
	if err := EncPair(e, a1, b1); err != nil { return err }
	return EncPair(e, a2, b2)
}

func ValMixed(who chain.Name, hasN bool, n uint16, all []uint16, hasM bool, m string, a uint8, b string, end uint8) interface{} {
	v := dict{"who": who, "all": ValScores(all), "m": nil, "p": dict{"a": a, "b": b}, "end": end, "ignored": 5}
	if hasN { v["n"] = n }
	if hasM { v["m"] = m }
	return v
}
func EncMixed(e *abi.Encoder, who chain.Name, hasN bool, n uint16, all []uint16, hasM bool, m string, a uint8, b string, end uint8) error {
	if err := e.WriteUint64(uint64(who)); err != nil { return err }
	if err := EncScores(e, all); err != nil { return err }
	if err := e.WriteBool(hasN); err != nil { return err }
	if hasN {
		if err := e.WriteUint16(n); err != nil { return err }
	}
	if !hasM { return errors.New("an alias of an optional is not optional itself") }
	if err := EncMemo(e, hasM, m); err != nil { return err }
	if err := EncPair(e, a, b); err != nil { return err }
	return e.WriteUint8(end)
}
func DecMixed(d *abi.Decoder) (interface{}, error) {
	who, err := d.ReadUint64()
	if err != nil { return nil, err }
	all, err := DecScores(d)
	if err != nil { return nil, err }
	var n interface{}
	has, err := d.ReadBool()
	if err != nil { return nil, err }
	if has {
		n, err = d.ReadUint16()
		if err != nil { return nil, err }
	}
	m, err := DecMemo(d)
	if err != nil { return nil, err }
	p, err := DecPair(d)
	if err != nil { return nil, err }
	end, err := d.ReadUint8()
	if err != nil { return nil, err }
	return dict{"who": chain.Name(who), "n": n, "all": all, "m": m, "p": p, "end": end}, nil
}

func ValChoice0(x uint8) interface{} { return list{"uint8", x} }
func EncChoice0(e *abi.Encoder, x uint8) error {
	if err := e.WriteVaruint(0); err != nil { return err }
	return e.WriteUint8(x)
}
func ValChoice1(x string) interface{} { return list{"string", x} }
func EncChoice1(e *abi.Encoder, x string) error {
	if err := e.WriteVaruint(1); err != nil { return err }
	return e.WriteString(x)
}
func ValChoice2(a uint8, b string) interface{} { return list{"pair", dict{"a": a, "b": b}} }
func EncChoice2(e *abi.Encoder, a uint8, b string) error {
	if err := e.WriteVaruint(2); err != nil { return err }
	return EncPair(e, a, b)
}
func ValChoice3(s []uint16) interface{} { return list{"uint16[]", ValScores(s)} }
func EncChoice3(e *abi.Encoder, s []uint16) error {
	if err := e.WriteVaruint(3); err != nil { return err }
	return EncScores(e, s)
}
func ValChoice4(has bool, x int8) interface{} {
	if has { return list{"int8?", x} }
	return list{"int8?", nil}
}
func EncChoice4(e *abi.Encoder, has bool, x int8) error {
	if err := e.WriteVaruint(4); err != nil { return err }
	if err := e.WriteBool(has); err != nil { return err }
	if !has { return nil }
	return e.WriteInt8(x)
}
func DecChoice(d *abi.Decoder) (interface{}, error) {
	i, err := d.ReadVaruint()
	if err != nil { return nil, err }
	switch i {
	case 0:
		x, err := d.ReadUint8()
		if err != nil { return nil, err }
		return list{"uint8", x}, nil
	case 1:
		x, err := d.ReadString()
		if err != nil { return nil, err }
		return list{"string", x}, nil
	case 2:
		x, err := DecPair(d)
		if err != nil { return nil, err }
		return list{"pair", x}, nil
	case 3:
		x, err := DecScores(d)
		if err != nil { return nil, err }
		return list{"uint16[]", x}, nil
	case 4:
		has, err := d.ReadBool()
		if err != nil { return nil, err }
		if !has { return list{"int8?", nil}, nil }
		x, err := d.ReadInt8()
		if err != nil { return nil, err }
		return list{"int8?", x}, nil
	}
	return nil, errors.New("index out of range")
}
func DecVoid(d *abi.Decoder) (interface{}, error) {
	_, err := d.ReadVaruint()
	if err != nil { return nil, err }
	return nil, errors.New("index out of range")
}

func ValNested(a uint8, b string, has bool, a2 uint8, b2 string, a3 uint8, b3 string, s string, z uint8) interface{} {
	v := dict{"p": ValPair(a, b), "q": nil, "l": list{ValPair(a3, b3)}, "v": list{"string", s}, "z": z}
	if has { v["q"] = ValPair(a2, b2) }
	return v
}
func EncNested(e *abi.Encoder, a uint8, b string, has bool, a2 uint8, b2 string, a3 uint8, b3 string, s string, z uint8) error {
	if err := EncPair(e, a, b); err != nil { return err }
	if err := EncOptPair(e, has, a2, b2); err != nil { return err }
	if err := e.WriteVaruint(1); err != nil { return err }
	if err := EncPair(e, a3, b3); err != nil { return err }
	if err := EncChoice1(e, s); err != nil { return err }
	return e.WriteUint8(z)
}

func ValTail(a uint8, b string, hasC bool, c uint16) interface{} {
	v := dict{"a": a, "b": b}
	if hasC { v["c"] = c }
	return v
}
func EncTail(e *abi.Encoder, a uint8, b string, hasC bool, c uint16) error {
	if err := EncPair(e, a, b); err != nil { return err }
	if err := e.WriteBool(hasC); err != nil { return err }
	if hasC { return e.WriteUint16(c) }
	return nil
}
func DecTail(d *abi.Decoder) (interface{}, error) {
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	b, err := d.ReadString()
	if err != nil { return nil, err }
	has, err := d.ReadBool()
	if err != nil { return nil, err }
	if !has { return dict{"a": a, "b": b, "c": nil}, nil }
	c, err := d.ReadUint16()
	if err != nil { return nil, err }
	return dict{"a": a, "b": b, "c": c}, nil
}
func ValShortTail(a uint8) interface{} { return dict{"a": a} }
func EncShortTail(e *abi.Encoder, a uint8) error { return e.WriteUint8(a) }
func ValGapTail(a uint8, c uint16) interface{} { return dict{"a": a, "c": c} }

func DecTails(d *abi.Decoder) (interface{}, error) {
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	b, err := DecScores(d)
	if err != nil { return nil, err }
	return dict{"a": a, "b": b}, nil
}

func ValNode(a, b uint8) interface{} { return dict{"v": a, "next": dict{"v": b}} }
func EncNode(e *abi.Encoder, a, b uint8) error {
	if err := e.WriteUint8(a); err != nil { return err }
	if err := e.WriteBool(true); err != nil { return err }
	if err := e.WriteUint8(b); err != nil { return err }
	return e.WriteBool(false)
}

// values that have to be rejected

func ValNil() interface{} { return nil }
func ValNoB(a uint8) interface{} { return dict{"a": a} }
func ValNilB(a uint8) interface{} { return dict{"a": a, "b": nil} }
func ValWrongB(a, b uint8) interface{} { return dict{"a": a, "b": b} }
func ValNoParent(g1 uint8, g2 uint16, c1 int8, c2 chain.Name) interface{} {
	return dict{"c2": c2, "c1": c1, "g2": g2, "g1": g1}
}
func ValNilInList(a uint16) interface{} { return list{a, nil} }
func ValOtherInList(a uint16, b uint8) interface{} { return list{a, b} }
func ValUnknown(a uint8) interface{} { return list{"uint9", a} }
func ValIndex(a uint8) interface{} { return list{0, a} }
func ValOne(a uint8) interface{} { return list{"uint8"} }
func ValThree(a uint8) interface{} { return list{"uint8", a, a} }
func ValMismatch(a string) interface{} { return list{"uint8", a} }
func ValNilChoice() interface{} { return list{"uint8", nil} }
func ValText(s string) interface{} { return s }
`

type abiCase struct {
	typ      string
	val, dec string // functions above; what encodes val, "" if it has to be rejected
	enc      string
	counts   []int // decode only with these in front
}

var abiCases = []abiCase{
	{"pair", "ValPair", "DecPair", "EncPair", nil},
	{"couple", "ValPair", "DecPair", "EncPair", nil},
	{"child", "ValChild", "DecChild", "EncChild", nil},
	{"heir", "ValChild", "DecChild", "EncChild", nil},
	{"estate", "ValChild", "DecChild", "EncChild", nil},
	{"nothing", "ValNothing", "DecNothing", "EncNothing", nil},
	{"first", "ValFirst", "DecFirst", "EncFirst", nil},
	{"account", "ValAccount", "DecAccount", "EncAccount", nil},
	{"owner", "ValAccount", "DecAccount", "EncAccount", nil},
	{"uint16[]", "ValScores", "DecScores", "EncScores", nil},
	{"scores", "ValScores", "DecScores", "EncScores", nil},
	{"owner[]", "ValNames", "DecNames", "EncNames", nil},
	{"string[]", "ValTwoTexts", "", "EncTwoTexts", nil},
	{"string?", "ValMemo", "DecMemo", "EncMemo", nil},
	{"pair?", "ValOptPair", "DecOptPair", "EncOptPair", nil},
	{"couple?", "ValOptPair", "DecOptPair", "EncOptPair", nil},
	{"uint16[]?", "ValOptScores", "DecOptScores", "EncOptScores", nil},
	{"scores?", "ValOptScores", "DecOptScores", "EncOptScores", nil},
	{"mixed", "ValMixed", "DecMixed", "EncMixed", nil},
	{"choice", "ValChoice0", "DecChoice", "EncChoice0", nil},
	{"answer", "ValChoice0", "DecChoice", "EncChoice0", nil},
	{"choice", "ValChoice1", "", "EncChoice1", nil},
	{"choice", "ValChoice2", "", "EncChoice2", nil},
	{"choice", "ValChoice3", "", "EncChoice3", nil},
	{"choice", "ValChoice4", "", "EncChoice4", nil},
	{"void", "ValChoice0", "DecVoid", "", nil},
	{"nested", "ValNested", "", "EncNested", nil},
	{"node", "ValNode", "", "EncNode", nil},
	{"string[]", "ValTexts", "DecTexts", "EncTexts", []int{0, 1, 2, 3}},
	{"pair[]", "ValPairs", "DecPairs", "EncPairs", []int{0, 1, 2, 3}},
	{"scores[]", "ValTable", "DecTable", "EncTable", []int{0, 1, 2}},
	{"choice[]", "ValChoices", "DecChoices", "EncChoices", []int{0, 1}},
	{"tail", "ValTail", "DecTail", "EncTail", nil},
	{"tail", "ValShortTail", "", "EncShortTail", nil},
	{"tail", "ValGapTail", "", "", nil},
	{"tails", "ValShortTail", "DecTails", "EncShortTail", nil},
	{"uint16[]$", "ValScores", "DecScores", "EncScores", nil},
	{"string?$", "ValMemo", "DecMemo", "EncMemo", nil},
	{"pair", "ValNil", "", "", nil},
	{"pair", "ValNoB", "", "", nil},
	{"pair", "ValNilB", "", "", nil},
	{"pair", "ValWrongB", "", "", nil},
	{"pair", "ValText", "", "", nil},
	{"pair", "ValTwoTexts", "", "", nil},
	{"child", "ValNoParent", "", "", nil},
	{"heir", "ValNoParent", "", "", nil},
	{"uint16[]", "ValNil", "", "", nil},
	{"uint16[]", "ValNilInList", "", "", nil},
	{"uint16[]", "ValOtherInList", "", "", nil},
	{"uint16[]", "ValText", "", "", nil},
	{"uint16[]", "ValPair", "", "", nil},
	{"choice", "ValNil", "", "", nil},
	{"choice", "ValUnknown", "", "", nil},
	{"choice", "ValIndex", "", "", nil},
	{"choice", "ValOne", "", "", nil},
	{"choice", "ValThree", "", "", nil},
	{"choice", "ValMismatch", "", "", nil},
	{"choice", "ValNilChoice", "", "", nil},
	{"choice", "ValText", "", "", nil},
	{"account", "ValNil", "", "", nil},
	{"dangling", "ValNoB", "", "", nil},
}

func checkAbiDefined(p *Program) *Report {
	rep := newReport("ABI-driven coding of defined types, as a gated value graph for all values and inputs, equals reference coding composed from the primitive operations")
	sp := p.spec("abidef", specAbi)
	fn := func(name string) *ssa.Function {
		f := sp.ssa.Func(name)
		if f == nil {
			panic("specification lacks " + name)
		}
		return f
	}
	abi := p.named("pkg/chain", "Abi")
	for _, c := range abiCases {
		rep.decide("Encode "+c.typ+" "+c.val, func() {
			s := newScene(p, rep)
			def := s.run(fn("Def"))
			abiEnc(p, rep, s, p.method(abi, "Encode"), []*V{def, vOpq("writer", nil), vStr(c.typ)}, fn, c)
		})
		n := c.counts
		if n == nil && c.dec != "" {
			n = []int{-1}
		}
		for _, n := range n {
			rep.decide(fmt.Sprintf("Decode %s %d", c.typ, n), func() {
				s := newScene(p, rep)
				if n >= 0 {
					s.ip.wellformed = true
					v, _ := varAt(s.ip.posAlts(s.st)[0], false, false)
					s.st.g = and(s.st.g, iEq(v, vConst(int64(n), 64)))
				}
				def := s.run(fn("Def"))
				abiDec(p, rep, s, p.method(abi, "Decode"), []*V{def, vOpq("sysreader", nil), vStr(c.typ)}, fn, c)
			})
		}
		rep.Analysed["cases"]++
	}
	// actions name a type
	for i, c := range []abiCase{{"pair", "ValPair", "DecPair", "EncPair", nil}, {"choice", "ValChoice1", "DecChoice", "EncChoice1", nil}, {"uint16[]", "ValScores", "DecScores", "EncScores", nil}, {"unknown action", "ValPair", "", "", nil}} {
		rep.decide(fmt.Sprintf("EncodeAction %d", i+1), func() {
			s := newScene(p, rep)
			def := s.run(fn("Def"))
			abiEnc(p, rep, s, p.method(abi, "EncodeAction"), []*V{def, vOpq("writer", nil), vConst(int64(i+1), 64)}, fn, c)
		})
		rep.decide(fmt.Sprintf("DecodeAction %d", i+1), func() {
			s := newScene(p, rep)
			def := s.run(fn("Def"))
			abiDec(p, rep, s, p.method(abi, "DecodeAction"), []*V{def, vOpq("sysreader", nil), vConst(int64(i+1), 64)}, fn, c)
		})
		rep.Analysed["cases"]++
	}
	rep.floor("cases", 40)
	return rep
}

func abiEnc(p *Program, rep *Report, s *scene, encode *ssaFn, args []*V, fn func(string) *ssa.Function, c abiCase) {
	key, pos := "encode:"+c.typ, p.pos(encode.Pos())
	what := c.typ + " from " + strings.TrimPrefix(c.val, "Val")
	vf := fn(c.val)
	var ps []*V
	for i := 0; i < vf.Signature.Params().Len(); i++ {
		q := vf.Signature.Params().At(i)
		ps = append(ps, fresh(q.Type(), nameOf(q.Name())))
	}
	v := s.run(vf, ps...)
	spec := s.fork()
	err := s.run(encode, append(args, v)...)
	s.noPanic(key)
	if c.enc == "" {
		s.judge(key, pos, "encoding "+what+" succeeds", and(s.st.g, errNil(err)), err, nil)
		return
	}
	e := spec.encoder()
	werr := spec.run(fn(c.enc), append([]*V{e}, ps...)...)
	bad := not(errNil(werr))
	s.errIff(key, pos, "encoding "+what, err, bad, bT)
	s.same(key, pos, "bytes written for "+what, s.out(), spec, spec.out(), not(bad))
}

func abiDec(p *Program, rep *Report, s *scene, decode *ssaFn, args []*V, fn func(string) *ssa.Function, c abiCase) {
	key, pos := "decode:"+c.typ, p.pos(decode.Pos())
	s.ip.wellformed = true
	spec := s.fork()
	r := s.run(decode, args...)
	s.noPanic(key)
	if c.dec == "" {
		s.judge(key, pos, "decoding "+c.typ+" succeeds", and(s.st.g, errNil(r.kids[1])), r.kids[1], nil)
		return
	}
	d := spec.decoder()
	w := spec.run(fn(c.dec), d)
	bad := not(errNil(w.kids[1]))
	s.errIff(key, pos, "decoding "+c.typ, r.kids[1], bad, bT)
	ok := andN(s.st.g, not(bad), errNil(r.kids[1]))
	if ok == bF {
		return
	}
	in := s.fork()
	in.st.g = ok
	in.same(key, pos, "value decoded for "+c.typ, narrow(r.kids[0], ok), spec, narrow(w.kids[0], ok), bT)
	in.same(key, pos, "input consumed for "+c.typ, s.pos(), spec, spec.pos(), bT)
}

func init() { checks["C06"] = checkAbiDefined }
