package main

import "go/types"

// C02: the primitive methods of abi.Encoder and abi.Decoder.

var primLayouts = []struct {
	name string
	l    *layout
}{
	{"Byte", LI(1)}, {"Uint8", LI(1)}, {"Int8", LI(1)}, {"Uint16", LI(2)}, {"Int16", LI(2)},
	{"Uint32", LI(4)}, {"Int32", LI(4)}, {"Uint64", LI(8)}, {"Int64", LI(8)},
	{"Float32", LI(4)}, {"Float64", LI(8)}, {"Bool", LK(lBool)},
	{"Varuint", LK(lVaruint)}, {"Varint", LK(lVarint)}, {"String", LK(lStr)},
}

func checkPrims(p *Program) *Report {
	rep := newReport("gated value graphs of the Write* and Read* methods equal the EOSIO layout of the primitive for every value and every input")
	encT, decT := p.named("pkg/abi", "Encoder"), p.named("pkg/abi", "Decoder")
	for _, pl := range primLayouts {
		l := pl.l
		wk := "Encoder.Write" + pl.name
		rep.decide(wk, func() {
			s := newScene(p, rep)
			s.ip.lowlevel = true
			f := p.method(encT, "Write"+pl.name)
			if f == nil {
				rep.undecided(wk, "no such method")
				return
			}
			enc := s.encoder()
			t := f.Signature.Params().At(0).Type()
			v := fresh(t, nameOf("value"))
			err := s.run(f, enc, v)
			want, bad := s.wireEnc(l, t, v, s.st.g, 0)
			pos := p.pos(f.Pos())
			rep.Analysed["methods"]++
			s.errIff(wk, pos, wk, err, bad, bT)
			s.same(wk, pos, "bytes written", s.out(), s, want, not(bad))
			s.same(wk, pos, "bytes written for a rejected value", s.out(), s, seqEmpty, bad)
			rep.sample("%s writes %s", wk, want.short(4))
		})
		rk := "Decoder.Read" + pl.name
		rep.decide(rk, func() {
			s := newScene(p, rep)
			f := p.method(decT, "Read"+pl.name)
			if f == nil {
				rep.undecided(rk, "no such method")
				return
			}
			s.ip.lowlevel = l.kind == lVaruint || l.kind == lVarint
			s.ip.wellformed = true
			dec := s.decoder()
			spec := s.fork()
			res := s.run(f, dec)
			pos := p.pos(f.Pos())
			rep.Analysed["methods"]++
			if s.ip.lowlevel {
				readVarSpec(s, rk, pos, res, l.kind == lVarint)
				return
			}
			want, bad := spec.wireDec(l, f.Signature.Results().At(0).Type(), 0)
			s.errIff(rk, pos, rk, res.kids[1], bad, bT)
			s.same(rk, pos, "value returned", res.kids[0], spec, want, not(bad))
			s.same(rk, pos, "input consumed", s.pos(), spec, spec.pos(), not(bad))
			rep.sample("%s returns %s", rk, want.short(4))
		})
	}
	rep.decide("Encoder.WriteBytes", func() {
		s := newScene(p, rep)
		f := p.method(encT, "WriteBytes")
		enc := s.encoder()
		v := fresh(types.NewSlice(types.Typ[types.Uint8]), nameOf("value"))
		err := s.run(f, enc, v)
		rep.Analysed["methods"]++
		s.errIff("Encoder.WriteBytes", p.pos(f.Pos()), "WriteBytes", err, bF, bT)
		s.same("Encoder.WriteBytes", p.pos(f.Pos()), "bytes written", s.out(), s, s.ip.sliceSeq(s.st, v, s.st.g), bT)
	})
	rep.decide("Decoder.ReadBytes", func() {
		s := newScene(p, rep)
		f := p.method(decT, "ReadBytes")
		dec := s.decoder()
		spec := s.fork()
		n := symInt(64, "v", nameOf("count"))
		neg := n.bits[63]
		res := s.run(f, dec, n)
		rep.Analysed["methods"]++
		key, pos := "Decoder.ReadBytes", p.pos(f.Pos())
		s.errIff(key, pos, key, res.kids[2], neg, bT)
		spec.st.g = not(neg)
		want := spec.specBytes(n)
		s.same(key, pos, "bytes returned", s.ip.sliceSeq(s.st, res.kids[1], and(s.st.g, not(neg))), spec, want, not(neg))
		s.same(key, pos, "count returned", res.kids[0], spec, n, not(neg))
		s.same(key, pos, "input consumed", s.pos(), spec, spec.pos(), not(neg))
	})
	rep.floor("methods", 20)
	return rep
}

// readVarSpec states what reading a variable-length integer byte by byte has to give.
func readVarSpec(s *scene, key, pos string, res *V, signed bool) {
	val, ok := res.kids[0], errNil(res.kids[1])
	st := streamSym(startSeg())
	acc := vConst(0, 70)
	open := bT // all bytes so far have the continuation bit
	for i := int64(0); i < 10; i++ {
		b := symElem(st, vConst(i, 64), bT)
		part := vInt(append(append([]B{}, b.bits[:7]...), bF))
		acc = iBitwise(or, acc, iShlC(iResize(part, 70, false), int(7*i)))
		last := and(open, not(b.bits[7]))
		open = and(open, b.bits[7])
		fits := iUlt(acc, vConstU(1<<32, 70))
		v := iResize(acc, 64, false)
		if signed {
			z := iResize(acc, 32, false)
			z = iBitwise(xor, iShrC(z, 1, false), vInt(rep(z.bits[0], 32)))
			v = iResize(z, 64, true)
		}
		if i < 5 {
			s.judge(key, pos, "rejected an encoding of a 32-bit value", andN(s.st.g, last, fits, not(ok)), res, nil)
		}
		s.judge(key, pos, "accepted a value wider than 32 bits", andN(s.st.g, last, not(fits), ok), res, nil)
		s.same(key, pos, "value returned", val, s, v, andN(last, fits, ok))
		s.same(key, pos, "input consumed", s.pos(), s, vPos(startSeg(), i+1), andN(last, fits, ok))
	}
	s.judge(key, pos, "accepted a variable-length integer of more than ten bytes", andN(s.st.g, open, ok), res, nil)
}

func init() { checks["C02"] = checkPrims }
