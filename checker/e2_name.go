package main

import "go/types"

// C17: the base-32 packing of names.

const nameAlphabet = ".12345abcdefghijklmnopqrstuvwxyz"

// charCode is the 5-bit code of a character; anything outside the alphabet counts as a dot.
func charCode(c *V) *V {
	r := vConst(0, 5)
	for i := 1; i < len(nameAlphabet); i++ {
		r = vIte(iEq(c, vConst(int64(nameAlphabet[i]), 8)), vConst(int64(i), 5), r)
	}
	return r
}

// codeChar is the character of a 5-bit code.
func codeChar(c *V) *V {
	r := vConst('.', 8)
	for i := 1; i < len(nameAlphabet); i++ {
		r = vIte(iEq(c, vConst(int64(i), 5)), vConst(int64(nameAlphabet[i]), 8), r)
	}
	return r
}

// packName is the 64-bit value of a name text.
func packName(seq *V, g B) *V {
	n := seqLen(seq)
	r := vConst(0, 64)
	for i := 0; i < 13; i++ {
		in := iUlt(vConst(int64(i), 64), n)
		c := vIte(in, charCode(seqGet(seq, vConst(int64(i), 64), and(g, in))), vConst(0, 5))
		sh := 64 - 5*(i+1)
		if i == 12 {
			c, sh = iResize(iResize(c, 4, false), 5, false), 0
		}
		r = iBitwise(or, r, iShlC(iResize(c, 64, false), sh))
	}
	return r
}

// nameText is the text of a 64-bit name.
func nameText(v *V) *V {
	var chars []*V
	for i := 0; i < 13; i++ {
		c := iResize(iShrC(v, max(64-5*(i+1), 0), false), 5, false)
		if i == 12 {
			c = iResize(iResize(v, 4, false), 5, false)
		}
		chars = append(chars, c)
	}
	out := seqEmpty
	var text []*V
	rest := bT // all later codes are zero
	for i := 12; i >= 0; i-- {
		text = nil
		for _, c := range chars[:i+1] {
			text = append(text, codeChar(c))
		}
		zero := iEq(chars[i], vConst(0, 5))
		out = seqIte(and(rest, not(zero)), seqOf(segE(text...)), out)
		rest = and(rest, zero)
	}
	return out
}

func checkName(p *Program) *Report {
	rep := newReport("gated value graphs of name parsing and formatting equal the EOSIO base-32 packing for every string and every 64-bit value")
	nameT := p.named("pkg/chain", "Name")
	if nameT == nil {
		rep.undecided("Name", "type not found")
		return rep
	}
	str := types.Typ[types.String]
	for _, fn := range []string{"NewName", "N"} {
		key := "chain." + fn
		rep.decide(key, func() {
			s := newScene(p, rep)
			f := s.fn("pkg/chain", fn)
			if f == nil {
				unsup("no such function")
			}
			v := fresh(str, nameOf("text"))
			s.assume = iUlt(seqLen(v.kids[0]), vConst(1<<32, 64))
			got := s.run(f, v)
			s.noPanic(key)
			s.same(key, p.pos(f.Pos()), "name of a text", got, s, packName(v.kids[0], s.st.g), bT)
			rep.Analysed["conversions"]++
		})
	}
	rep.decide("Name.UnmarshalText", func() {
		key := "Name.UnmarshalText"
		s := newScene(p, rep)
		text := fresh(types.NewSlice(types.Typ[types.Uint8]), nameOf("text"))
		ptr := s.alloc(nameT, fresh(nameT, nameOf("old")))
		seq := s.ip.sliceSeq(s.st, text, bT)
		s.assume = iUlt(seqLen(seq), vConst(1<<32, 64))
		err := s.callM(ptr, nameT, key[5:], text)
		s.noPanic(key)
		pos := p.pos(p.method(nameT, "UnmarshalText").Pos())
		s.errIff(key, pos, key, err, bF, bT)
		s.same(key, pos, "name of a text", s.ip.load(s.st, ptr, nil), s, packName(seq, s.st.g), bT)
		rep.Analysed["conversions"]++
	})
	for _, m := range []string{"String", "MarshalText"} {
		key := "Name." + m
		rep.decide(key, func() {
			s := newScene(p, rep)
			f := p.method(nameT, m)
			if f == nil {
				unsup("no such method")
			}
			v := fresh(nameT, nameOf("value"))
			got := s.run(f, v)
			s.noPanic(key)
			pos := p.pos(f.Pos())
			if m == "String" {
				got = got.kids[0]
			} else {
				s.errIff(key, pos, key, got.kids[1], bF, bT)
				got = s.ip.sliceSeq(s.st, got.kids[0], s.st.g)
			}
			s.same(key, pos, "text of a name", got, s, nameText(v), bT)
			rep.Analysed["conversions"]++
		})
	}
	rep.floor("conversions", 3)
	return rep
}

func init() { checks["C17"] = checkName }
