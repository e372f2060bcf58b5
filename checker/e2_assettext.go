package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C41: an asset survives being written as text and read back. The number of digits of the
// amount, the number of decimals, the sign and the length of the symbol name are taken case
// by case (they are bounded by 64 bits), digits and letters are arbitrary. The library's
// decimal text of a number is given as digits without leading zeros, and reading digits back
// gives the number they were taken from (documented behaviour of package strconv).

const assetTextSpec = `package assettext

import "chain"

func There(a *chain.Asset) (*chain.Asset, error) { return chain.NewAssetFromString(a.String()) }

func Text(a chain.Asset) (b chain.Asset, err error) {
	t, err := a.MarshalText()
	if err != nil {
		return b, err
	}
	err = b.UnmarshalText(t)
	return b, err
}
`

func checkAssetText(p *Program) *Report {
	rep := newReport("the value graph of writing an asset and parsing the text is the asset, for every number of digits, decimals and letters")
	rep.Assumptions = append(rep.Assumptions, "strconv writes numbers without leading zeros or signs other than '-' and reads back what it writes")
	var sp *specPkg
	rep.decide("specification", func() { sp = p.spec("assettext", assetTextSpec) })
	asset := p.named("pkg/chain", "Asset")
	if sp == nil || asset == nil {
		return rep
	}
	pos := "pkg/chain/asset.go"
	if m := p.method(asset, "String"); m != nil {
		pos = p.pos(m.Pos())
	}
	one := func(fn string, digits, decimals int, neg bool, letters int) {
		key := fmt.Sprintf("%d digits, %d decimals, %d letters", digits, decimals, letters)
		if neg {
			key += ", negative"
		}
		if fn == "Text" {
			key += ", MarshalText"
		}
		rep.decide(key, func() {
			s := newScene(p, rep)
			v := symInt(64, "amount")
			g := v.bits[63]
			if !neg {
				g = not(g)
			}
			name := nameOf("name")
			sym := vConst(int64(decimals), 64)
			for i := 0; i < letters; i++ {
				c := symElem1(vSym(name, vConst(int64(letters), 64), types.Typ[types.Uint8]), vConst(int64(i), 64))
				g = andN(g, not(iUlt(c, vConst('A', 8))), not(iUlt(vConst('Z', 8), c)))
				sym = iBitwise(or, sym, iShlC(iResize(c, 64, false), 8*(i+1)))
			}
			var ds []*V
			for i := 0; i < digits; i++ {
				c := symElem1(vSym(nameOf("digits"), vConst(int64(digits), 64), types.Typ[types.Uint8]), vConst(int64(i), 64))
				low := byte('0')
				if i == 0 && (digits > 1 || neg) {
					low = '1'
				}
				g = andN(g, not(iUlt(c, vConst(int64(low), 8))), not(iUlt(vConst('9', 8), c)))
				ds = append(ds, c)
			}
			s.st.g, s.assume = g, g
			abs := v
			if neg {
				abs = iNeg(v)
			}
			is := func(a, b *V, g B) bool { return and(g, not(iEq(a, b))) == bF }
			dig := seqOf(segE(ds...))
			write := func(signed bool) modelFn {
				return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
					if len(a) > 1 {
						if b, ok := a[1].sconst(); !ok || b != 10 {
							unsup("number in another base")
						}
					}
					switch {
					case is(a[0], abs, st.g) && (!signed || !neg):
						return vStrSeq(dig), st
					case signed && neg && is(a[0], v, st.g):
						return vStrSeq(seqOf(seqBytes([]byte{'-'}), dig)), st
					}
					unsup("text of a number that is not the amount")
					return nil, nil
				}
			}
			hook := func(name string, h modelFn) {
				s.ip.hooks[name] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
					if v, ok := ip.constFold(st, name, a); ok {
						return v, st
					}
					return h(ip, st, a, in)
				}
			}
			hook("strconv.FormatUint", write(false))
			hook("strconv.FormatInt", write(true))
			hook("strconv.Itoa", write(true))
			read := func(signed bool) modelFn {
				return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
					if len(a) > 2 {
						if b, ok := a[1].sconst(); !ok || b != 10 {
							unsup("number in another base")
						}
						if b, ok := a[2].sconst(); !ok || (b != 64 && b != 0) {
							unsup("number of another size")
						}
					}
					e, ok := explicit(narrowDeep(argStr(a[0]), st.g))
					if !ok {
						unsup("number of unknown length")
					}
					minus := false
					if len(e) > 0 && e[0] == vConst('-', 8) {
						minus, e = true, e[1:]
					}
					for len(e) > 1 && e[0] == vConst('0', 8) {
						e = e[1:]
					}
					if minus && !signed {
						return tup(vConst(0, 64), ip.newErr()), st
					}
					if seqOf(segE(e...)) == dig {
						r := abs
						if minus {
							r = iNeg(abs)
						}
						return tup(r, vNil), st
					}
					// other digits: another number
					return tup(symInt(64, "number", seqOf(segE(e...))), vNil), st
				}
			}
			hook("strconv.ParseInt", read(true))
			hook("strconv.ParseUint", read(false))
			hook("strconv.Atoi", read(true))
			a := zero(asset)
			kids := append([]*V{}, a.kids...)
			ai, _ := fieldIndex(asset, "Value")
			si, _ := fieldIndex(asset, "Symbol")
			kids[ai], kids[si] = v, sym
			a = vStruct(kids...)
			var got, err *V
			if fn == "There" {
				r := s.run(sp.ssa.Func("There"), s.alloc(asset, a))
				got, err = r.kids[0], r.kids[1]
			} else {
				r := s.run(sp.ssa.Func("Text"), a)
				got, err = r.kids[0], r.kids[1]
			}
			s.noPanic(key)
			s.errIff(key, pos, "reading back the text", err, bF, bT)
			in := s.fork()
			in.st.g = andN(s.st.g, errNil(err))
			rep.Analysed["shapes"]++
			if in.st.g == bF {
				return
			}
			if fn == "There" {
				got = in.ip.load(in.st, narrow(got, in.st.g), nil)
			}
			in.same(key, pos, "asset read back", got, in, a, bT)
		})
	}
	for digits := 1; digits <= 19; digits++ {
		for decimals := 0; decimals <= 18; decimals++ {
			for _, neg := range []bool{false, true} {
				one("There", digits, decimals, neg, 3)
				for l := 1; l <= 7 && thorough(); l++ {
					if l != 3 {
						one("There", digits, decimals, neg, l)
					}
				}
			}
		}
	}
	for letters := 1; letters <= 7; letters++ {
		for _, q := range [][2]int{{1, 0}, {1, 1}, {5, 4}, {4, 4}, {3, 4}, {19, 18}, {1, 18}, {10, 0}} {
			for _, neg := range []bool{false, true} {
				if letters != 3 && !thorough() {
					one("There", q[0], q[1], neg, letters)
				}
				one("Text", q[0], q[1], neg, letters)
			}
		}
	}
	rep.floor("shapes", 300)
	return rep
}

func init() { checks["C41"] = checkAssetText }
