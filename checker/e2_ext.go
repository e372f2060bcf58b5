package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: input that ends early. Unlike in the other checks the input may end anywhere here.

const specExt = `package extension

import (
	"abi"
	"chain"
	"errors"
)

type Pair struct {
	A uint8
	B string
}
type Plain struct {
	A uint8
	B string
	C uint16
}
type Opt struct {
	A uint8
	B *uint16 ` + "`eosio:\"optional\"`" + `
}
type Ext1 struct {
	A uint8
	B string ` + "`eosio:\"extension\"`" + `
}
type Ext2 struct {
	A uint16
	B uint32 ` + "`eosio:\"extension\"`" + `
	C chain.Name ` + "`eosio:\"extension\"`" + `
}
type ExtOnly struct {
	A uint8 ` + "`eosio:\"extension\"`" + `
}
type ExtPtr struct {
	A uint8
	B *uint64 ` + "`eosio:\"extension\"`" + `
}
type Two struct {
	A uint8
	B uint32
}
type ExtPair struct {
	A uint8
	P Two ` + "`eosio:\"extension\"`" + `
	Q uint8 ` + "`eosio:\"extension\"`" + `
}
type ExtList struct {
	A uint8
	L []uint16 ` + "`eosio:\"extension\"`" + `
}
type ExtBytes struct {
	A uint8
	L []byte ` + "`eosio:\"extension\"`" + `
}
type ExtAsset struct {
	A uint8
	V chain.Asset ` + "`eosio:\"extension\"`" + `
}
type ExtInner struct {
	A uint16
	I ExtIn
}
type ExtIn struct {
	A uint8
	B uint16 ` + "`eosio:\"extension\"`" + `
}

type Choice struct {
	U *uint8
	W *uint32
}
type Var struct {
	A uint8
	V Choice ` + "`eosio:\"variant\"`" + `
}

func DecVar(d *abi.Decoder) (v Var, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	i, err := d.ReadUint8()
	if err != nil { return }
	switch i {
	case 0:
		x, err := d.ReadUint8()
		v.V.U = &x
		return v, err
	case 1:
		x, err := d.ReadUint32()
		v.V.W = &x
		return v, err
	}
	return v, errors.New("index")
}

// atEnd stands for whether the input is used up.
func atEnd() bool { return false }

func pair(d *abi.Decoder) (p Pair, err error) {
	if p.A, err = d.ReadUint8(); err != nil { return }
	p.B, err = d.ReadString()
	return
}
func DecPlain(d *abi.Decoder) (v Plain, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	if v.B, err = d.ReadString(); err != nil { return }
	v.C, err = d.ReadUint16()
	return
}
func DecOpt(d *abi.Decoder) (v Opt, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	has, err := d.ReadBool()
	if err != nil || !has { return }
	x, err := d.ReadUint16()
	v.B = &x
	return
}
func DecExt1(d *abi.Decoder) (v Ext1, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	if atEnd() { return }
	v.B, err = d.ReadString()
	return
}
func DecExt2(d *abi.Decoder) (v Ext2, err error) {
	if v.A, err = d.ReadUint16(); err != nil { return }
	if atEnd() { return }
	if v.B, err = d.ReadUint32(); err != nil { return }
	if atEnd() { return }
	n, err := d.ReadUint64()
	v.C = chain.Name(n)
	return
}
func DecExtOnly(d *abi.Decoder) (v ExtOnly, err error) {
	if atEnd() { return }
	v.A, err = d.ReadUint8()
	return
}
func DecExtPtr(d *abi.Decoder) (v ExtPtr, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	if atEnd() { return }
	x, err := d.ReadUint64()
	v.B = &x
	return
}
func DecExtPair(d *abi.Decoder) (v ExtPair, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	if atEnd() { return }
	if v.P.A, err = d.ReadUint8(); err != nil { return }
	if v.P.B, err = d.ReadUint32(); err != nil { return }
	if atEnd() { return }
	v.Q, err = d.ReadUint8()
	return
}
func list(d *abi.Decoder) (l []uint16, err error) {
	n, err := d.ReadVaruint()
	if err != nil { return }
	for i := 0; i < int(n); i++ {
		x, err := d.ReadUint16()
		if err != nil { return nil, err }
		l = append(l, x)
	}
	return l, nil
}
func DecExtList(d *abi.Decoder) (v ExtList, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	if atEnd() { return }
	v.L, err = list(d)
	return
}
func DecExtBytes(d *abi.Decoder) (v ExtBytes, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	if atEnd() { return }
	s, err := d.ReadString()
	v.L = []byte(s)
	return
}
func DecExtAsset(d *abi.Decoder) (v ExtAsset, err error) {
	if v.A, err = d.ReadUint8(); err != nil { return }
	if atEnd() { return }
	if v.V.Value, err = d.ReadInt64(); err != nil { return }
	s, err := d.ReadUint64()
	v.V.Symbol = chain.Symbol(s)
	return
}
func DecExtInner(d *abi.Decoder) (v ExtInner, err error) {
	if v.A, err = d.ReadUint16(); err != nil { return }
	if v.I.A, err = d.ReadUint8(); err != nil { return }
	if atEnd() { return }
	v.I.B, err = d.ReadUint16()
	return
}

// chain types

func Chain_TransactionHeader(d *abi.Decoder) (v chain.TransactionHeader, err error) {
	e, err := d.ReadUint32()
	if err != nil { return }
	v.Expiration = chain.TimePointSec(e)
	if v.RefBlockNum, err = d.ReadUint16(); err != nil { return }
	if v.RefBlockPrefix, err = d.ReadUint32(); err != nil { return }
	if v.MaxNetUsageWords, err = d.ReadVaruint(); err != nil { return }
	if v.MaxCpuUsageMs, err = d.ReadUint8(); err != nil { return }
	v.DelaySec, err = d.ReadVaruint()
	return
}
func Chain_Bytes(d *abi.Decoder) (chain.Bytes, error) {
	s, err := d.ReadString()
	return chain.Bytes(s), err
}
func Chain_Blob(d *abi.Decoder) (chain.Blob, error) {
	s, err := d.ReadString()
	return chain.Blob(s), err
}
func Chain_TransactionExtension(d *abi.Decoder) (v chain.TransactionExtension, err error) {
	if v.Type, err = d.ReadUint16(); err != nil { return }
	v.Data, err = Chain_Bytes(d)
	return
}
func Chain_PublicKey(d *abi.Decoder) (v chain.PublicKey, err error) {
	t, err := d.ReadUint8()
	if err != nil { return }
	if t > 1 { return v, errors.New("type") }
	v.Type = chain.KeyType(t)
	_, v.Data, err = d.ReadBytes(33)
	return
}
func Chain_Signature(d *abi.Decoder) (v chain.Signature, err error) {
	t, err := d.ReadUint8()
	if err != nil { return }
	if t > 1 { return v, errors.New("type") }
	v.Type = chain.KeyType(t)
	_, v.Data, err = d.ReadBytes(65)
	return
}

// by ABI definition

type dict = map[string]interface{}

func f(name, typ string) chain.AbiField { return chain.AbiField{Name: name, Type: typ} }

func Def() chain.Abi {
	return chain.Abi{
		Types: []chain.AbiType{{NewTypeName: "memo", Type: "string$"}, {NewTypeName: "note", Type: "string"}},
		Structs: []chain.AbiStruct{
			{Name: "pair", Fields: []chain.AbiField{f("a", "uint8"), f("b", "string")}},
			{Name: "plain", Fields: []chain.AbiField{f("a", "uint8"), f("b", "string"), f("c", "uint16")}},
			{Name: "opt", Fields: []chain.AbiField{f("a", "uint8"), f("b", "uint16?")}},
			{Name: "ext1", Fields: []chain.AbiField{f("a", "uint8"), f("b", "string$")}},
			{Name: "ext2", Fields: []chain.AbiField{f("a", "uint16"), f("b", "uint32$"), f("c", "name$")}},
			{Name: "more", Base: "ext1", Fields: []chain.AbiField{f("c", "uint16$")}},
			{Name: "extpair", Fields: []chain.AbiField{f("a", "uint8"), f("p", "pair$"), f("q", "uint8$")}},
			{Name: "extopt", Fields: []chain.AbiField{f("a", "uint8"), f("b", "uint16?$")}},
			{Name: "extchoice", Fields: []chain.AbiField{f("a", "uint8"), f("b", "choice$")}},
			{Name: "extnote", Fields: []chain.AbiField{f("a", "uint8"), f("b", "note$")}},
		},
		Variants: []chain.AbiVariant{{Name: "choice", Types: []string{"uint16", "string"}}},
	}
}

func dpair(d *abi.Decoder) (interface{}, error) {
	p, err := pair(d)
	return dict{"a": p.A, "b": p.B}, err
}
func text(d *abi.Decoder) (interface{}, error) {
	s, err := d.ReadString()
	return s, err
}
func Abi_string(d *abi.Decoder) (interface{}, error) { return text(d) }
func Abi_stringE(d *abi.Decoder) (interface{}, error) {
	if atEnd() { return nil, nil }
	return text(d)
}
func Abi_pair(d *abi.Decoder) (interface{}, error) { return dpair(d) }
func Abi_pairE(d *abi.Decoder) (interface{}, error) {
	if atEnd() { return nil, nil }
	return dpair(d)
}
func Abi_plain(d *abi.Decoder) (interface{}, error) {
	v, err := DecPlain(d)
	return dict{"a": v.A, "b": v.B, "c": v.C}, err
}
func Abi_opt(d *abi.Decoder) (interface{}, error) {
	v, err := DecOpt(d)
	if v.B == nil { return dict{"a": v.A, "b": nil}, err }
	return dict{"a": v.A, "b": *v.B}, err
}
func Abi_ext1(d *abi.Decoder) (interface{}, error) {
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	b, err := Abi_stringE(d)
	return dict{"a": a, "b": b}, err
}
func Abi_extnote(d *abi.Decoder) (interface{}, error) { return Abi_ext1(d) }
func Abi_ext2(d *abi.Decoder) (interface{}, error) {
	v := dict{"b": nil, "c": nil}
	a, err := d.ReadUint16()
	if err != nil { return nil, err }
	v["a"] = a
	if atEnd() { return v, nil }
	b, err := d.ReadUint32()
	if err != nil { return nil, err }
	v["b"] = b
	if atEnd() { return v, nil }
	c, err := d.ReadUint64()
	if err != nil { return nil, err }
	v["c"] = chain.Name(c)
	return v, nil
}
func Abi_more(d *abi.Decoder) (interface{}, error) {
	v := dict{"b": nil, "c": nil}
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	v["a"] = a
	if atEnd() { return v, nil }
	b, err := d.ReadString()
	if err != nil { return nil, err }
	v["b"] = b
	if atEnd() { return v, nil }
	c, err := d.ReadUint16()
	if err != nil { return nil, err }
	v["c"] = c
	return v, nil
}
func Abi_extpair(d *abi.Decoder) (interface{}, error) {
	v := dict{"p": nil, "q": nil}
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	v["a"] = a
	if atEnd() { return v, nil }
	p, err := dpair(d)
	if err != nil { return nil, err }
	v["p"] = p
	if atEnd() { return v, nil }
	q, err := d.ReadUint8()
	if err != nil { return nil, err }
	v["q"] = q
	return v, nil
}
func Abi_extopt(d *abi.Decoder) (interface{}, error) {
	v := dict{"b": nil}
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	v["a"] = a
	if atEnd() { return v, nil }
	has, err := d.ReadBool()
	if err != nil || !has { return v, err }
	b, err := d.ReadUint16()
	v["b"] = b
	return v, err
}
func Abi_extchoice(d *abi.Decoder) (interface{}, error) {
	v := dict{"b": nil}
	a, err := d.ReadUint8()
	if err != nil { return nil, err }
	v["a"] = a
	if atEnd() { return v, nil }
	i, err := d.ReadVaruint()
	if err != nil { return nil, err }
	if i == 0 {
		x, err := d.ReadUint16()
		v["b"] = []interface{}{"uint16", x}
		return v, err
	}
	if i == 1 {
		x, err := d.ReadString()
		v["b"] = []interface{}{"string", x}
		return v, err
	}
	return nil, errors.New("index")
}
`

// primitives whose size does not depend on the input
var fixedSizes = map[string]int64{
	"Byte": 1, "Uint8": 1, "Int8": 1, "Uint16": 2, "Int16": 2, "Uint32": 4, "Int32": 4,
	"Uint64": 8, "Int64": 8, "Float32": 4, "Float64": 8, "Bool": 1,
}

var chainSizes = map[string]int64{
	"Asset": 16, "BlockNum": 4, "BlockTimestamp": 4, "Checksum160": 20, "Checksum256": 32, "Checksum512": 64,
	"ExtendedAsset": 24, "Float128": 16, "Int128": 16, "Name": 8, "PermissionLevel": 16, "Symbol": 8, "SymbolCode": 8,
	"TimePoint": 8, "TimePointSec": 4, "Uint128": 16, "Uint64": 8,
}

var builtinSizes = map[string]int64{
	"bool": 1, "uint8": 1, "int8": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "uint128": 16, "int128": 16,
	"float32": 4, "float64": 8, "float128": 16, "asset": 16, "block_timestamp_type": 4, "checksum160": 20, "checksum256": 32, "checksum512": 64,
	"extended_asset": 24, "name": 8, "symbol": 8, "symbol_code": 8, "time_point": 8, "time_point_sec": 4,
}

func checkExtension(p *Program) *Report {
	rep := newReport("with input that may end anywhere, gated value graphs of decoding equal a reference that treats an extension as missing exactly where the input is used up before it")
	endsAnywhere = true
	defer func() { endsAnywhere = false }()
	var sp *specPkg
	rep.decide("specification", func() { sp = p.spec("extension", specExt) })
	decT := p.named("pkg/abi", "Decoder")
	for _, n := range sortedKeys(fixedSizes) {
		key := "Decoder.Read" + n
		rep.decide(key, func() {
			s := newScene(p, rep)
			s.ip.eofMode = true
			f := p.method(decT, "Read"+n)
			dec := s.decoder()
			at := s.ip.posAlts(s.st)[0]
			r := s.run(f, dec)
			short := iUlt(avail(at.seg), vConst(at.off+fixedSizes[n], 64))
			s.errIff(key, p.pos(f.Pos()), key+" at the end of input", r.kids[1], short, bT)
			rep.Analysed["primitives"]++
		})
	}
	rep.decide("Decoder.ReadBytes", func() {
		s := newScene(p, rep)
		s.ip.eofMode = true
		f := p.method(decT, "ReadBytes")
		dec := s.decoder()
		at := s.ip.posAlts(s.st)[0]
		n := fresh(types.Typ[types.Int], nameOf("n"))
		s.st.g = iUlt(n, vConst(1<<32, 64))
		r := s.run(f, dec, n)
		short := iUlt(avail(at.seg), iAdd(vConst(at.off, 64), n))
		s.errIff("Decoder.ReadBytes", p.pos(f.Pos()), "reading bytes at the end of input", r.kids[2], short, bT)
		rep.Analysed["primitives"]++
	})
	if sp == nil {
		return rep
	}
	hook := func(s *scene) {
		s.ip.eofMode = true
		s.ip.wellformed = true
		s.ip.hooks["specs/extension.atEnd"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			t := st.clone()
			_, _, none := ip.readN(t, vConst(1, 64))
			return vBool(none), st
		}
	}
	decode := p.method(decT, "Decode")
	for _, tn := range []string{"Plain", "Opt", "Ext1", "Ext2", "ExtOnly", "ExtPtr", "ExtPair", "ExtList0", "ExtList1", "ExtList2", "ExtList3", "ExtBytes", "ExtAsset", "ExtInner", "Var"} {
		key := "Decode(*" + tn + ")"
		count := -1
		if strings.HasPrefix(tn, "ExtList") {
			tn, count = tn[:7], int(tn[7]-'0')
		}
		rep.decide(key, func() {
			s := newScene(p, rep)
			hook(s)
			t := sp.typ(tn)
			old := fresh(t, nameOf("old"))
			if count >= 0 {
				old = zero(t)
			}
			ptr := s.alloc(t, old)
			dec := s.decoder()
			if count >= 0 {
				at := s.ip.posAlts(s.st)[0]
				n, _ := varAt(posAlt{bT, at.seg, 1}, false, false)
				s.st.g = and(s.st.g, iEq(n, vConst(int64(count), 64)))
			}
			w := s.fork()
			err := s.run(decode, dec, vIface(types.NewPointer(t), ptr))
			s.noPanic(key)
			want := w.run(sp.ssa.Func("Dec"+tn), dec)
			pos := p.pos(decode.Pos())
			bad := not(errNil(want.kids[1]))
			s.errIff(key, pos, "decoding "+tn, err, bad, bT)
			ok := andN(s.st.g, not(bad), errNil(err))
			if ok == bF {
				return
			}
			in := s.fork()
			in.st.g = ok
			in.same(key, pos, "value decoded", narrow(s.ip.load(s.st, ptr, nil), ok), w, narrow(want.kids[0], ok), bT)
			rep.Analysed["types"]++
		})
	}
	abiDecode := p.method(p.named("pkg/chain", "Abi"), "Decode")
	for _, tn := range sortedKeys(chainSizes) {
		key := "chain." + tn
		rep.decide(key, func() {
			s := newScene(p, rep)
			hook(s)
			t := p.named("pkg/chain", tn)
			ptr := s.alloc(t, fresh(t, nameOf("old")))
			dec := s.decoder()
			at := s.ip.posAlts(s.st)[0]
			f := p.method(t, "UnmarshalABI")
			err := s.run(f, ptr, dec)
			s.noPanic(key)
			short := iUlt(avail(at.seg), vConst(at.off+chainSizes[tn], 64))
			s.errIff(key, p.pos(f.Pos()), key+" at the end of input", err, short, bT)
			rep.Analysed["types"]++
		})
	}
	for _, tn := range []string{"TransactionHeader", "Bytes", "Blob", "TransactionExtension", "PublicKey", "Signature"} {
		key := "chain." + tn
		rep.decide(key, func() {
			s := newScene(p, rep)
			hook(s)
			t := p.named("pkg/chain", tn)
			ptr := s.alloc(t, fresh(t, nameOf("old")))
			dec := s.decoder()
			at := s.ip.posAlts(s.st)[0]
			if tn == "PublicKey" || tn == "Signature" {
				// a key type of variable size is the business of C03
				s.st.g = and(s.st.g, not(iEq(seqGet(seqOf(segSub(streamSym(at.seg), vConst(at.off, 64), vConst(1, 64))), vConst(0, 64), bT), vConst(2, 8))))
			}
			w := s.fork()
			f := p.method(t, "UnmarshalABI")
			err := s.run(f, ptr, dec)
			s.noPanic(key)
			want := w.run(sp.ssa.Func("Chain_"+tn), dec)
			bad := not(errNil(want.kids[1]))
			s.errIff(key, p.pos(f.Pos()), "decoding "+tn, err, bad, bT)
			rep.Analysed["types"]++
		})
	}
	for _, bn := range sortedKeys(builtinSizes) {
		key := "Abi.Decode(" + bn + ")"
		rep.decide(key, func() {
			s := newScene(p, rep)
			hook(s)
			def := s.run(sp.ssa.Func("Def"))
			dec := s.decoder()
			_ = dec
			at := s.ip.posAlts(s.st)[0]
			r := s.run(abiDecode, def, vOpq("sysreader", nil), vStr(bn))
			s.noPanic(key)
			short := iUlt(avail(at.seg), vConst(at.off+builtinSizes[bn], 64))
			s.errIff(key, p.pos(abiDecode.Pos()), key+" at the end of input", r.kids[1], short, bT)
			rep.Analysed["types"]++
		})
	}
	for _, c := range [][2]string{{"string", "string"}, {"string$", "stringE"}, {"pair", "pair"}, {"pair$", "pairE"}, {"plain", "plain"}, {"opt", "opt"},
		{"ext1", "ext1"}, {"extnote", "extnote"}, {"ext2", "ext2"}, {"more", "more"}, {"extpair", "extpair"}, {"extopt", "extopt"}, {"extchoice", "extchoice"}} {
		key := "Abi.Decode(" + c[0] + ")"
		rep.decide(key, func() {
			s := newScene(p, rep)
			hook(s)
			def := s.run(sp.ssa.Func("Def"))
			w := s.fork()
			r := s.run(abiDecode, def, vOpq("sysreader", nil), vStr(c[0]))
			s.noPanic(key)
			want := w.run(sp.ssa.Func("Abi_"+c[1]), w.decoder())
			s.released(key, p.pos(abiDecode.Pos()), r.kids[0], r.kids[1], w, want.kids[0], want.kids[1])
			rep.Analysed["types"]++
		})
	}
	rep.floor("primitives", 13)
	rep.floor("types", 60)
	return rep
}

func init() { checks["C24"] = checkExtension }
