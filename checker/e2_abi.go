package main

import (
	"fmt"
	"go/types"
)

// C05: builtin type names of ABI definitions.

// abiBuiltins maps a builtin type name to the Go type that stands for it.
func abiBuiltins(p *Program) map[string]types.Type {
	m := map[string]types.Type{
		"bool": types.Typ[types.Bool], "string": types.Typ[types.String],
		"uint8": types.Typ[types.Uint8], "uint16": types.Typ[types.Uint16], "uint32": types.Typ[types.Uint32],
		"int8": types.Typ[types.Int8], "int16": types.Typ[types.Int16], "int32": types.Typ[types.Int32], "int64": types.Typ[types.Int64],
		"float32": types.Typ[types.Float32], "float64": types.Typ[types.Float64],
		"varint32": types.Typ[types.Int], "varuint32": types.Typ[types.Uint],
	}
	for name, t := range map[string]string{
		"uint64": "Uint64", "uint128": "Uint128", "int128": "Int128", "float128": "Float128", "bytes": "Bytes",
		"asset": "Asset", "extended_asset": "ExtendedAsset", "symbol": "Symbol", "symbol_code": "SymbolCode",
		"name": "Name", "eosio::name": "Name", "public_key": "PublicKey", "signature": "Signature",
		"checksum160": "Checksum160", "checksum256": "Checksum256", "checksum512": "Checksum512",
		"time_point": "TimePoint", "time_point_sec": "TimePointSec", "block_timestamp_type": "BlockTimestamp",
	} {
		if n := p.named("pkg/chain", t); n != nil {
			m[name] = n
		} else {
			m[name] = nil
		}
	}
	return m
}

// foreignTypes are types whose values stand for values a caller might pass by mistake.
func foreignTypes(p *Program) []types.Type {
	var r []types.Type
	bi := abiBuiltins(p)
	for _, n := range sortedKeys(bi) {
		if bi[n] != nil {
			r = append(r, bi[n], types.NewPointer(bi[n]))
		}
	}
	any := types.NewInterfaceType(nil, nil)
	return append(r, types.Typ[types.Uint64], types.NewSlice(types.Typ[types.Uint8]), types.NewSlice(any),
		types.NewMap(types.Typ[types.String], any), types.NewStruct(nil, nil), types.NewArray(types.Typ[types.Uint8], 32))
}

func checkAbiBuiltins(p *Program) *Report {
	rep := newReport("ABI-driven coding of every builtin type name, as a gated value graph for all values and inputs, equals the layout of its Go type; other values and names are rejected")
	abi := p.named("pkg/chain", "Abi")
	decode, encode := p.method(abi, "Decode"), p.method(abi, "Encode")
	bi := abiBuiltins(p)
	def := zero(abi)
	for _, name := range sortedKeys(bi) {
		t := bi[name]
		rep.decide("Decode "+name, func() {
			s := newScene(p, rep)
			s.ip.wellformed = true
			key, pos := "decode:"+name, p.pos(decode.Pos())
			spec := s.fork()
			r := s.run(decode, def, vOpq("sysreader", nil), vStr(name))
			want, bad := spec.wireDec(layoutOf(p, t), t, 0)
			s.noPanic(key)
			s.errIff(key, pos, "decoding "+name, r.kids[1], bad, bT)
			ok := andN(s.st.g, not(bad), errNil(r.kids[1]))
			in := s.fork()
			in.st.g = ok
			in.same(key, pos, "value decoded for "+name, narrow(r.kids[0], ok), spec, vIface(t, want), bT)
			in.same(key, pos, "input consumed for "+name, s.pos(), spec, spec.pos(), bT)
			rep.Analysed["builtin names"]++
		})
		accepted := []types.Type{t}
		switch name {
		case "uint64":
			accepted = append(accepted, types.Typ[types.Uint64])
		case "bytes":
			accepted = append(accepted, types.NewSlice(types.Typ[types.Uint8]))
		}
		for _, at := range accepted {
			rep.decide("Encode "+name+" from "+at.String(), func() {
				s := newScene(p, rep)
				key, pos := "encode:"+name, p.pos(encode.Pos())
				v := fresh(at, nameOf("value"))
				err := s.run(encode, def, vOpq("writer", nil), vStr(name), vIface(at, v))
				want, bad := s.wireEnc(layoutOf(p, at), at, v, s.st.g, 0)
				s.noPanic(key)
				s.errIff(key, pos, "encoding "+name, err, bad, bT)
				s.same(key, pos, "bytes written for "+name, s.out(), s, want, not(bad))
			})
		}
		rep.decide("Encode "+name+" from other types", func() {
			for _, ft := range foreignTypes(p) {
				same := false
				for _, at := range accepted {
					same = same || types.Identical(at, ft)
				}
				if same {
					continue
				}
				rejects(p, rep, "encode:"+name, encode, name, vIface(ft, fresh(ft, nameOf("value"))), ft.String())
			}
			rejects(p, rep, "encode:"+name, encode, name, vNil, "nil")
		})
	}
	for _, name := range []string{"", "foo", "int", "uint", "uint256", "Name", "float", "checksum", "uint64_t", "asset ", "transaction", "action", "$", "foo$", "string$$"} {
		rep.decide(fmt.Sprintf("unknown %q", name), func() {
			key := fmt.Sprintf("unknown:%s", name)
			s := newScene(p, rep)
			s.ip.wellformed = true
			r := s.run(decode, def, vOpq("sysreader", nil), vStr(name))
			s.noPanic(key)
			s.judge(key, p.pos(decode.Pos()), fmt.Sprintf("decoding of the unknown type name %q succeeds", name), and(s.st.g, errNil(r.kids[1])), r.kids[1], nil)
			for _, ft := range foreignTypes(p) {
				rejects(p, rep, key, encode, name, vIface(ft, fresh(ft, nameOf("value"))), ft.String())
			}
		})
	}
	rep.floor("builtin names", 25)
	return rep
}

// rejects requires that encoding v as the named type fails.
func rejects(p *Program, rep *Report, key string, encode *ssaFn, name string, v *V, what string) {
	s := newScene(p, rep)
	err := s.run(encode, zero(p.named("pkg/chain", "Abi")), vOpq("writer", nil), vStr(name), v)
	s.noPanic(key)
	s.judge(key, p.pos(encode.Pos()), fmt.Sprintf("encoding a value of type %s as %q succeeds", what, name), and(s.st.g, errNil(err)), err, nil)
	rep.Analysed["rejected combinations"]++
}

func init() { checks["C05"] = checkAbiBuiltins }
