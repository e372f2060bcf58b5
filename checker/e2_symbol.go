package main

import (
	"fmt"
	"go/types"
)

// C18: symbols.

// validName is the guard of at most seven letters A-Z.
func validName(seq *V, g B) B {
	n := seqLen(seq)
	ok := not(iUlt(vConst(7, 64), n))
	for i := 0; i < 7; i++ {
		in := iUlt(vConst(int64(i), 64), n)
		gi := andN(g, ok, in)
		if gi == bF {
			continue
		}
		c := seqGet(seq, vConst(int64(i), 64), gi)
		ok = and(ok, or(not(in), and(not(iUlt(c, vConst('A', 8))), not(iUlt(vConst('Z', 8), c)))))
	}
	return ok
}

// packSymbol has the precision in the lowest byte and the i-th letter in byte i+1.
func packSymbol(prec, seq *V, g B) *V {
	n := seqLen(seq)
	r := iResize(prec, 64, false)
	for i := 0; i < 7; i++ {
		in := iUlt(vConst(int64(i), 64), n)
		gi := and(g, in)
		if gi == bF {
			continue
		}
		c := vIte(in, seqGet(seq, vConst(int64(i), 64), gi), vConst(0, 8))
		r = iBitwise(or, r, iShlC(iResize(c, 64, false), 8*(i+1)))
	}
	return r
}

// symbolName is the text in the bytes of v from byte first up to the highest that is not
// zero, for ASCII bytes.
func symbolName(v *V, first int) (text *V, ascii B) {
	text, ascii = seqEmpty, bT
	var b []*V
	for i := first; i < 8; i++ {
		c := iResize(iShrC(v, 8*i, false), 8, false)
		b = append(b, c)
		ascii = and(ascii, not(c.bits[7]))
		text = seqIte(not(iEq(c, vConst(0, 8))), seqOf(segE(b...)), text)
	}
	return
}

func checkSymbol(p *Program) *Report {
	rep := newReport("gated value graphs of symbol construction, extraction and parsing equal the specified packing and validation for every value and text")
	str, u8 := types.Typ[types.String], types.Typ[types.Uint8]
	most := vConst(18, 8)
	rep.convert(p, "NewSymbol", func(c *conversion) {
		prec, name := fresh(u8, nameOf("precision")), fresh(str, nameOf("name"))
		got := c.run(c.f, prec, name)
		bad := or(iUlt(most, prec), not(validName(name.kids[0], bT)))
		c.rejects(got.kids[1], bad)
		c.eq("symbol", got.kids[0], packSymbol(prec, name.kids[0], not(bad)), not(bad))
	})
	rep.convert(p, "Symbol.Decimals", func(c *conversion) {
		v, got := c.receiver()
		c.eq("decimals", got, iResize(iResize(v, 8, false), 64, false), bT)
	})
	rep.convert(p, "Symbol.Code", func(c *conversion) {
		v, got := c.receiver()
		c.eq("code", got, iShrC(v, 8, false), bT)
	})
	rep.convert(p, "Symbol.Precision", func(c *conversion) {
		v := fresh(p.named("pkg/chain", "Symbol"), nameOf("value"))
		d := iResize(v, 8, false)
		c.assume = not(iUlt(most, d))
		c.st.g = c.assume
		got := c.run(c.f, v)
		want, x := vConst(0, 64), int64(1)
		for i := int64(0); i <= 18; i++ {
			want = vIte(iEq(d, vConst(i, 8)), vConst(x, 64), want)
			x *= 10
		}
		c.eq("precision", got, want, c.assume)
	})
	for _, m := range []string{"Symbol.Name", "Symbol.String", "Symbol.MarshalText", "SymbolCode.MarshalText"} {
		rep.convert(p, m, func(c *conversion) {
			v, got := c.receiver()
			first := 1
			if m == "SymbolCode.MarshalText" {
				first = 0
			}
			want, ascii := symbolName(v, first)
			if first == 0 {
				ascii = and(ascii, iEq(iShrC(v, 56, false), vConst(0, 64)))
			}
			c.assume = ascii
			if m == "Symbol.String" || m == "Symbol.MarshalText" {
				d := c.ip.formatInt(c.st, iResize(iResize(v, 8, false), 64, false), vConst(10, 64), false)
				want = seqOf(argStr(d), seqBytes([]byte{','}), want)
			}
			c.eq("text", c.text(got), want, ascii)
		})
	}
	for _, f := range []string{"NewSymbolFromString", "Symbol.UnmarshalText"} {
		rep.convert(p, f, func(c *conversion) {
			text, got, err := c.parse()
			found, at := findByte(text, vConst(',', 8), bT)
			pre, post := cutAt(text, vConst(',', 8), found, at, bT)
			form, sign, _, mag := number(pre, 10)
			c.assume = not(and(found, sign))
			good := andN(found, form, iUlt(mag, vConst(19, numBits)), validName(post, found))
			c.rejects(err, not(good))
			c.eq("symbol", got, packSymbol(iResize(mag, 8, false), post, good), good)
		})
	}
	rep.convert(p, "SymbolCode.UnmarshalText", func(c *conversion) {
		text, got, err := c.parse()
		good := validName(text, bT)
		c.rejects(err, not(good))
		c.eq("symbol code", got, iShrC(packSymbol(vConst(0, 8), text, good), 8, false), good)
	})
	// assets: the characters of the amount and the name are arbitrary; the number of
	// characters and the places of points among them are taken case by case
	for _, f := range []string{"NewAssetFromString", "Asset.UnmarshalText"} {
		for _, n := range assetLengths() {
			if n > 3 && f == "Asset.UnmarshalText" && !thorough() {
				continue
			}
			for k := -1; k < n; k++ {
				if n > 6 && k > 2 && k%8 != 2 && !thorough() {
					continue
				}
				rep.decide(fmt.Sprintf("%s, %d characters, point at %d", f, n, k), func() { checkAssetParse(p, rep, f, n, k, -1) })
			}
			if n == 2 || n == 4 {
				for k := 0; k < n; k++ {
					for l := k + 1; l < n; l++ {
						rep.decide(fmt.Sprintf("%s, %d characters, points at %d and %d", f, n, k, l), func() { checkAssetParse(p, rep, f, n, k, l) })
					}
				}
			}
		}
	}
	rep.floor("conversions", 10)
	return rep
}

func assetLengths() []int {
	if !thorough() {
		return []int{0, 1, 2, 3, 4, 19, 20, 21}
	}
	var r []int
	for n := 0; n <= 22; n++ {
		if n <= 8 || n >= 18 {
			r = append(r, n)
		}
	}
	return r
}

// checkAssetParse compares parsing "<n characters> <any name>" with the specified amount,
// precision and symbol, for amounts that have a point at k, and at l, and nowhere else
// (nowhere for negative numbers).
func checkAssetParse(p *Program, rep *Report, name string, n, k, l int) {
	s := newScene(p, rep)
	asset := p.named("pkg/chain", "Asset")
	key := name
	var e, digits []*V
	g := bT
	for i := 0; i < n; i++ {
		c := vConst('.', 8)
		if i != k && i != l {
			c = symElem1(vSym(nameOf("amount"), vConst(int64(n), 64), types.Typ[types.Uint8]), vConst(int64(i), 64))
			g = andN(g, not(iEq(c, vConst(' ', 8))), not(iEq(c, vConst('.', 8))))
			digits = append(digits, c)
		}
		e = append(e, c)
	}
	code := fresh(types.Typ[types.String], nameOf("name")).kids[0]
	text := seqOf(segE(append(append([]*V{}, e...), vConst(' ', 8))...), code)
	s.st.g = g
	s.assume = g

	// what the amount means
	good := andN(g, validName(code, g), not(iEq(seqLen(code), vConst(0, 64))))
	decimals := 0
	if k >= 0 {
		decimals = n - 1 - k
	}
	if l >= 0 || decimals > 18 || len(digits) == 0 {
		good = bF
	}
	for i, c := range digits {
		digit := and(not(iUlt(c, vConst('0', 8))), not(iUlt(vConst('9', 8), c)))
		if i == 0 && k != 0 {
			digit = or(digit, iEq(c, vConst('-', 8)))
		}
		good = and(good, digit)
	}
	form, _, neg, mag := number(seqOf(segE(digits...)), 10)
	half := iShlC(vConst(1, numBits), 63)
	good = andN(good, form, ite(neg, not(iUlt(half, mag)), iUlt(mag, half)))
	low := iResize(mag, 64, false)
	amount, prec := iIte(neg, iNeg(low), low), vConst(int64(decimals), 8)
	var got, err *V
	var f = s.fn("pkg/chain", name)
	if f != nil {
		r := s.run(f, vStrSeq(text))
		got, err = r.kids[0], r.kids[1]
	} else {
		f = p.method(asset, "UnmarshalText")
		got = s.alloc(asset, fresh(asset, nameOf("old")))
		err = s.run(f, got, s.ip.newSlice(s.st, types.NewSlice(types.Typ[types.Uint8]), text))
	}
	pos := p.pos(f.Pos())
	s.noPanic(key)
	s.errIff(key, pos, name, err, not(good), bT)
	in := s.fork()
	in.st.g = andN(s.st.g, good, errNil(err))
	if in.st.g == bF {
		rep.Analysed["asset texts"]++
		return
	}
	v := in.ip.load(in.st, narrow(got, in.st.g), nil)
	want := zero(asset)
	kids := append([]*V{}, want.kids...)
	ai, _ := fieldIndex(asset, "Value")
	si, _ := fieldIndex(asset, "Symbol")
	kids[ai], kids[si] = amount, packSymbol(prec, code, good)
	in.same(key, pos, "asset", v, in, vStruct(kids...), bT)
	rep.Analysed["asset texts"]++
}

func init() { checks["C18"] = checkSymbol }
