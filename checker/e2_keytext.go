package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C19: texts of keys and signatures. The base58 conversion itself is an uninterpreted
// function here; what it is applied to and what is done with its result is not.

const specKeyText = `package keytext

import (
	"base58"
	"chain"
	"crypto/sha256"
	"errors"
	"ripemd160"
)

func sum(data []byte, suffix string) []byte {
	h := ripemd160.New()
	h.Write(data)
	h.Write([]byte(suffix))
	return h.Sum(nil)
}

func twice(data []byte) []byte {
	a := sha256.Sum256(data)
	b := sha256.Sum256(a[:])
	return b[:]
}

func agree(a, b []byte) bool {
	return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
}

func CheckDecode(text string) ([]byte, error) {
	b := base58.Decode(text)
	n := len(b) - 4
	if n < 0 || !agree(b[n:], twice(b[:n])) {
		return nil, errors.New("checksum")
	}
	return b[:n], nil
}

func CheckDecodeEosio(text, suffix string) ([]byte, error) {
	b := base58.Decode(text)
	n := len(b) - 4
	if n < 0 || !agree(b[n:], sum(b[:n], suffix)) {
		return nil, errors.New("checksum")
	}
	return b[:n], nil
}

func with(data, sum []byte) []byte {
	var b []byte
	b = append(b, data...)
	return append(b, sum[0], sum[1], sum[2], sum[3])
}

func CheckEncode(data []byte) string { return base58.Encode(with(data, twice(data))) }

func CheckEncodeEosio(data []byte, suffix string) string {
	return base58.Encode(with(data, sum(data, suffix)))
}

func letters(t chain.KeyType) string {
	if t == 0 { return "K1" }
	if t == 1 { return "R1" }
	return "WA"
}

func parse(s string) (byte, []byte, error) {
	if s[6] != '_' { return 0, nil, errors.New("separator") }
	var t chain.KeyType
	if s[4] == 'K' && s[5] == '1' {
		t = 0
	} else if s[4] == 'R' && s[5] == '1' {
		t = 1
	} else if s[4] == 'W' && s[5] == 'A' {
		t = 2
	} else {
		return 0, nil, errors.New("type")
	}
	d, err := CheckDecodeEosio(s[7:], letters(t))
	return byte(t), d, err
}

func ParseKey(s string) (byte, []byte, error) {
	if len(s) >= 7 && s[0] == 'P' && s[1] == 'U' && s[2] == 'B' && s[3] == '_' {
		return parse(s)
	}
	if len(s) < 50 { return 0, nil, errors.New("short") }
	d, err := CheckDecodeEosio(s[len(s)-50:], "")
	return 0, d, err
}

func ParseSig(s string) (byte, []byte, error) {
	if len(s) >= 7 && s[0] == 'S' && s[1] == 'I' && s[2] == 'G' && s[3] == '_' {
		return parse(s)
	}
	return 0, nil, errors.New("prefix")
}

func FormatKey(t chain.KeyType, data []byte) string {
	return "PUB_" + letters(t) + "_" + CheckEncodeEosio(data, letters(t))
}
func FormatSig(t chain.KeyType, data []byte) string {
	return "SIG_" + letters(t) + "_" + CheckEncodeEosio(data, letters(t))
}
func FormatLegacy(data []byte, prefix string) string {
	return prefix + CheckEncodeEosio(data, "")
}
`

const pkgB58 = modPath + "/pkg/base58"

// opaqueBase58 makes the base58 conversions uninterpreted functions.
func (s *scene) opaqueBase58() {
	s.ip.hooks[pkgB58+".Decode"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		return ip.opaqueBytes(st, "unbase58", nil, argStr(a[0])), st
	}
	s.ip.hooks[pkgB58+".Encode"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		return ip.opaqueStr("base58", ip.sliceSeq(st, a[0], st.g)), st
	}
}

func checkKeyText(p *Program) *Report {
	rep := newReport("gated value graphs of the checked base58 functions and of key and signature texts equal a reference with the checksum written out, for every text and value; base58 itself is an uninterpreted function")
	var sp *specPkg
	rep.decide("specification", func() { sp = p.spec("keytext", specKeyText) })
	if sp == nil {
		return rep
	}
	str, bytes := types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])
	get := func(name string) *ssa.Function { return sp.ssa.Func(name) }

	// checked base58
	for _, name := range []string{"CheckDecode", "CheckDecodeEosio", "CheckEncode", "CheckEncodeEosio"} {
		rep.decide("base58."+name, func() {
			s := newScene(p, rep)
			s.opaqueBase58()
			f := s.fn("pkg/base58", name)
			pos := p.pos(f.Pos())
			var args []*V
			for i := 0; i < f.Signature.Params().Len(); i++ {
				args = append(args, fresh(f.Signature.Params().At(i).Type(), nameOf(f.Signature.Params().At(i).Name())))
			}
			w := s.fork()
			got := s.run(f, args...)
			s.noPanic(name)
			want := w.run(get(name), args...)
			rep.Analysed["conversions"]++
			if got.k != KTuple {
				s.same(name, pos, "text of "+name, got, w, want, bT)
				return
			}
			s.released(name, pos, got.kids[0], got.kids[1], w, want.kids[0], want.kids[1])
		})
	}

	// parsing
	for _, c := range []struct{ typ, name, ref string }{
		{"PublicKey", "NewPublicKeyFromString", "ParseKey"},
		{"PublicKey", "PublicKey.UnmarshalText", "ParseKey"},
		{"Signature", "NewSignatureString", "ParseSig"},
		{"Signature", "Signature.UnmarshalText", "ParseSig"},
	} {
		rep.convert(p, c.name, func(x *conversion) {
			x.opaqueBase58()
			var got, err, text *V
			w := x.fork()
			if x.f.Signature.Recv() == nil {
				text = fresh(str, nameOf("text"))
				r := x.run(x.f, text)
				err = r.kids[1]
				ok := and(x.st.g, errNil(err))
				in := x.fork()
				in.st.g = ok
				got = x.ip.load(in.st, narrow(r.kids[0], ok), nil)
			} else {
				b := fresh(bytes, nameOf("text"))
				text = vStrSeq(x.ip.sliceSeq(x.st, b, bT))
				t := p.named("pkg/chain", c.typ)
				ptr := x.alloc(t, fresh(t, nameOf("old")))
				w = x.fork()
				err = x.run(x.f, ptr, b)
				got = x.ip.load(x.st, ptr, nil)
			}
			want := w.run(get(c.ref), text)
			bad := not(errNil(want.kids[2]))
			x.rejects(err, bad)
			ok := andN(x.st.g, not(bad), errNil(err))
			if ok == bF {
				return
			}
			in := x.fork()
			in.st.g = ok
			got = narrow(got, ok)
			in.same(c.name, x.pos, "type parsed", got.kids[0], w, narrow(want.kids[0], ok), bT)
			in.same(c.name, x.pos, "data parsed", got.kids[1], w, narrow(want.kids[1], ok), bT)
		})
	}

	// formatting
	for _, c := range []struct{ typ, name, ref string }{
		{"PublicKey", "PublicKey.String", "FormatKey"},
		{"PublicKey", "PublicKey.MarshalText", "FormatKey"},
		{"PublicKey", "PublicKey.LegacyString", "FormatLegacy"},
		{"Signature", "Signature.String", "FormatSig"},
		{"Signature", "Signature.MarshalText", "FormatSig"},
	} {
		rep.convert(p, c.name, func(x *conversion) {
			x.opaqueBase58()
			kt := p.named("pkg/chain", "KeyType")
			tag, data := fresh(kt, nameOf("type")), fresh(bytes, nameOf("data"))
			x.st.g = iUlt(tag, vConst(3, 8))
			args, ref := []*V{}, []*V{tag, data}
			if c.ref == "FormatLegacy" {
				x.st.g = iEq(tag, vConst(0, 8)) // documented to panic for the others
				prefix := fresh(str, nameOf("prefix"))
				args, ref = []*V{prefix}, []*V{data, prefix}
			}
			w := x.fork()
			t := p.named("pkg/chain", c.typ)
			ptr := x.alloc(t, vStruct(tag, data))
			got := x.callM(ptr, t, x.f.Name(), args...)
			want := w.run(get(c.ref), ref...)
			x.same(c.name, x.pos, "text", vStrSeq(x.text(got)), w, want, bT)
		})
	}
	rep.Assumptions = append(rep.Assumptions, "base58.Decode and base58.Encode are functions of their argument alone (C15, C16)")
	rep.floor("conversions", 13)
	return rep
}

// released requires an error exactly where the reference gives one, and the same data
// elsewhere.
func (s *scene) released(key, pos string, got, err *V, w *scene, want, werr *V) {
	bad := not(errNil(werr))
	s.errIff(key, pos, key, err, bad, bT)
	ok := andN(s.st.g, not(bad), errNil(err))
	if ok == bF {
		return
	}
	in := s.fork()
	in.st.g = ok
	in.same(key, pos, "data released by "+key, narrow(got, ok), w, narrow(want, ok), bT)
}

func init() { checks["C19"] = checkKeyText }
