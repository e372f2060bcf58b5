package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Helpers of the checks on conversions between values and text.

// conversion sets up one abstract run of a function or method of the chain package.
type conversion struct {
	*scene
	key string
	f   *ssa.Function
	pos string
}

// convert decides one conversion: name is a function, or Type.Method.
func (rep *Report) convert(p *Program, name string, body func(c *conversion)) {
	rep.decide(name, func() {
		c := &conversion{scene: newScene(p, rep), key: name}
		if t, m, ok := strings.Cut(name, "."); ok {
			named := p.named("pkg/chain", t)
			if named == nil {
				unsup("no type %s", t)
			}
			c.f = p.method(named, m)
		} else {
			c.f = c.fn("pkg/chain", name)
		}
		if c.f == nil {
			unsup("%s not found", name)
		}
		c.pos = p.pos(c.f.Pos())
		body(c)
		c.noPanic(name)
		rep.Analysed["conversions"]++
	})
}

func (c *conversion) eq(what string, got, want *V, g B) {
	c.same(c.key, c.pos, what, got, c.scene, want, g)
}

func (c *conversion) rejects(err *V, bad B) { c.errIff(c.key, c.pos, c.key, err, bad, bT) }

// text is the text returned by String, MarshalText or MarshalJSON; an error must not occur.
func (c *conversion) text(got *V) *V {
	if got.k == KTuple {
		c.rejects(got.kids[1], bF)
		got = got.kids[0]
	}
	if got.k == KStr {
		return got.kids[0]
	}
	return c.ip.sliceSeq(c.st, got, c.st.g)
}

// receiver calls the method on an arbitrary value and returns the value and the result.
func (c *conversion) receiver(args ...*V) (v, got *V) {
	t := c.f.Signature.Recv().Type()
	v = fresh(deref(t), nameOf("value"))
	if _, ok := t.(*types.Pointer); ok {
		return v, c.run(c.f, append([]*V{c.alloc(deref(t), v)}, args...)...)
	}
	return v, c.run(c.f, append([]*V{v}, args...)...)
}

// parse runs a parser on an arbitrary text and returns the text, the parsed value and the
// error: func(string) (T, error) or (*T).Unmarshal([]byte) error.
func (c *conversion) parse() (text, val, err *V) {
	if c.f.Signature.Recv() == nil {
		s := fresh(types.Typ[types.String], nameOf("text"))
		got := c.run(c.f, s)
		if got.k != KTuple {
			unsup("no error result")
		}
		return s.kids[0], got.kids[0], got.kids[1]
	}
	b := fresh(types.NewSlice(types.Typ[types.Uint8]), nameOf("text"))
	seq := c.ip.sliceSeq(c.st, b, bT)
	t := deref(c.f.Signature.Recv().Type())
	ptr := c.alloc(t, fresh(t, nameOf("old")))
	err = c.run(c.f, ptr, b)
	return seq, c.ip.load(c.st, ptr, nil), err
}

// ---- C20

func timeOf(v *V) *V {
	i, _ := timeParts(v)
	return canonInstant(i)
}

func checkTime(p *Program) *Report {
	rep := newReport("gated value graphs of the time conversions equal the EOSIO units, epoch and UTC text form for every instant, value and text")
	const epochHalf = 946684800 * 2
	type tt struct {
		name, layout string
		from         func(inst *V) *V // the count before it is cut to its width
		unit         int64
		offset       int64
		signed       bool
	}
	low := func(v *V, w int) *V { return iResize(v, w, false) }
	for _, t := range []tt{
		{"TimePoint", "2006-01-02T15:04:05.000", func(i *V) *V { return unixIn(i, nsMicro) }, nsMicro, 0, true},
		{"TimePointSec", "2006-01-02T15:04:05", func(i *V) *V { return unixIn(i, nsSec) }, nsSec, 0, false},
		{"BlockTimestamp", "2006-01-02T15:04:05.000", func(i *V) *V { return iSub(halfSeconds(i), vConst(epochHalf, 64)) }, 500 * nsMilli, epochHalf * 500 * nsMilli, false},
	} {
		width := func() int {
			w, _, ok := intWidth(p.named("pkg/chain", t.name))
			if !ok {
				unsup("%s is not an integer", t.name)
			}
			return w
		}
		inst := func(v *V) *V {
			return vOpq("instant", nil, iResize(v, 64, t.signed), vConst(t.unit, 64), vConst(1, 64), vConst(t.offset, 64))
		}
		rep.convert(p, "New"+t.name, func(c *conversion) {
			v := fresh(p.stdType("time", "Time"), nameOf("t"))
			i, _ := timeParts(v)
			c.eq("count of a time", c.run(c.f, v), low(t.from(i), width()), bT)
		})
		rep.convert(p, t.name+".Time", func(c *conversion) {
			v, got := c.receiver()
			c.eq("instant", timeOf(got), inst(v), bT)
		})
		for _, m := range []string{"String", "MarshalText"} {
			rep.convert(p, t.name+"."+m, func(c *conversion) {
				v, got := c.receiver()
				want := c.ip.opaqueStr("timetext", inst(v), argStr(vStr(t.layout)), vTrue)
				c.eq("text", c.text(got), argStr(want), bT)
			})
		}
		for _, f := range []string{"New" + t.name + "FromString", t.name + ".UnmarshalText"} {
			rep.convert(p, f, func(c *conversion) {
				text, got, err := c.parse()
				n := seqLen(text)
				some := not(iEq(n, vConst(0, 64)))
				z := and(some, iEq(seqGet(text, iSub(n, vConst(1, 64)), some), vConst('Z', 8)))
				cut := seqSlice(text, vConst(0, 64), iSub(n, vConst(1, 64)), z)
				bad := bF
				want := zero(p.named("pkg/chain", t.name))
				for _, alt := range []struct {
					g B
					s *V
				}{{z, cut}, {not(z), text}} {
					r := parseTime(c.ip, argStr(vStr(t.layout)), alt.s)
					i, _ := timeParts(r.kids[0])
					x := t.from(i)
					w := width()
					no := not(iEq(iResize(low(x, w), 64, t.signed), x))
					no = or(no, not(errNil(r.kids[1])))
					bad = or(bad, and(alt.g, no))
					want = vIte(alt.g, low(x, w), want)
				}
				c.rejects(err, bad)
				c.eq("value parsed", got, want, not(bad))
			})
		}
	}
	rep.floor("conversions", 18)
	return rep
}

// ---- C23

func checkJSONInts(p *Program) *Report {
	rep := newReport("gated value graphs of the JSON conversions of 64-bit integers and block numbers equal the specified forms for every value and text")
	for _, t := range []string{"Uint64", "BlockNum"} {
		rep.convert(p, t+".MarshalJSON", func(c *conversion) {
			v, got := c.receiver()
			x := iResize(v, 64, false)
			d := argStr(c.ip.formatInt(c.st, x, vConst(10, 64), false))
			big := iUlt(vConst(1<<32-1, 64), x)
			q := seqBytes([]byte{'"'})
			c.eq("JSON text", c.text(got), seqIte(big, seqOf(q, d, q), d), bT)
		})
		rep.convert(p, t+".UnmarshalJSON", func(c *conversion) {
			text, got, err := c.parse()
			n := seqLen(text)
			two := iUlt(vConst(1, 64), n)
			q := vConst('"', 8)
			quoted := andN(two, iEq(seqGet(text, vConst(0, 64), two), q), iEq(seqGet(text, iSub(n, vConst(1, 64)), two), q))
			cut := seqSlice(text, vConst(1, 64), iSub(n, vConst(1, 64)), quoted)
			w := len(got.bits)
			want := vConst(0, w)
			bad := bF
			for _, alt := range []struct {
				g B
				s *V
			}{{quoted, cut}, {not(quoted), text}} {
				form, sign, _, mag := number(alt.s, 10)
				ok := andN(form, not(sign), iUlt(mag, iShlC(vConst(1, numBits), w)))
				bad = or(bad, and(alt.g, not(ok)))
				want = vIte(alt.g, iResize(mag, w, false), want)
			}
			c.rejects(err, bad)
			c.eq("value read", got, want, not(bad))
		})
	}
	rep.floor("conversions", 4)
	return rep
}

// ---- C26, C42

func i128Of(v *V) *V { // Lo and Hi as one integer
	return vInt(append(append([]B{}, v.kids[0].bits...), v.kids[1].bits...))
}

func checkInt128(p *Program) *Report {
	rep := newReport("gated value graphs of the 128-bit integer conversions equal the specified placement of halves and bytes for every value and text")
	bigT := func() types.Type { return p.stdType("math/big", "Int") }
	halves := func(v *V) *V { return vStruct(iResize(v, 64, false), iResize(iShrC(v, 64, false), 64, false)) }
	inRange := func(v *V, signed bool) B {
		return iEq(iResize(iResize(v, 128, false), bigBits, signed), v)
	}
	for _, t := range []struct {
		name   string
		signed bool
	}{{"Uint128", false}, {"Int128", true}} {
		rep.convert(p, "New"+t.name, func(c *conversion) {
			v := fresh(bigT(), nameOf("i"))
			c.assume = inRange(v.kids[0], t.signed)
			ptr := c.alloc(bigT(), v)
			got := c.run(c.f, ptr)
			c.eq("halves", got, halves(v.kids[0]), bT)
			c.eq("argument afterwards", c.ip.load(c.st, ptr, nil), v, bT)
		})
		for _, f := range []string{"New" + t.name + "FromString", t.name + ".UnmarshalText"} {
			rep.convert(p, f, func(c *conversion) {
				text, got, err := c.parse()
				form, _, neg, mag := number(text, 10)
				x := iResize(mag, bigBits, false)
				x = iIte(neg, iNeg(x), x)
				bad := or(not(form), not(inRange(x, t.signed)))
				c.rejects(err, bad)
				c.eq("halves", got, halves(x), not(bad))
			})
		}
		for _, order := range []string{"littleEndian", "bigEndian"} {
			rep.convert(p, t.name+".Bytes", func(c *conversion) {
				ot := p.stdType("encoding/binary", order)
				v, got := c.receiver(vIface(ot, zero(ot)))
				x := i128Of(v)
				var e []*V
				for i := 0; i < 16; i++ {
					k := i
					if order == "bigEndian" {
						k = 15 - i
					}
					e = append(e, vInt(x.bits[8*k:8*k+8]))
				}
				c.eq(order+" bytes", c.text(got), seqOf(segE(e...)), bT)
			})
		}
		rep.convert(p, t.name+".BigInt", func(c *conversion) {
			v, got := c.receiver()
			c.eq("integer", c.ip.load(c.st, got, nil), bigVal(iResize(i128Of(v), bigBits, t.signed)), bT)
		})
	}
	rep.floor("conversions", 12)
	return rep
}

func checkInt128Text(p *Program) *Report {
	rep := newReport("the gated value graph of parsing the text of a 128-bit integer is the identity on its halves, given that math/big reads back the decimal text it writes")
	for _, t := range []string{"Uint128", "Int128"} {
		for _, m := range []string{"String", "MarshalText"} {
			rep.convert(p, t+"."+m, func(c *conversion) {
				v, got := c.receiver()
				text := c.text(got)
				tn := p.named("pkg/chain", t)
				parser := c.fn("pkg/chain", "New"+t+"FromString")
				var back, err *V
				if m == "String" {
					r := c.run(parser, vStrSeq(text))
					back, err = r.kids[0], r.kids[1]
				} else {
					ptr := c.alloc(tn, fresh(tn, nameOf("old")))
					err = c.callM(ptr, tn, "UnmarshalText", c.ip.newSlice(c.st, types.NewSlice(types.Typ[types.Uint8]), text))
					back = c.ip.load(c.st, ptr, nil)
				}
				c.rejects(err, bF)
				c.eq("integer read back", back, v, bT)
			})
		}
	}
	rep.floor("conversions", 4)
	return rep
}

// ---- C25

func checkDigests(p *Program) *Report {
	rep := newReport("gated value graphs of the digest functions are the named hash applied to exactly the message or the wire layout of the action")
	for name, n := range map[string]int64{"Checksum160Digest": 20, "Checksum256Digest": 32, "Checksum512Digest": 64} {
		alg := map[int64]string{20: "ripemd160", 32: "sha256", 64: "sha512"}[n]
		rep.convert(p, name, func(c *conversion) {
			m := fresh(types.NewSlice(types.Typ[types.Uint8]), nameOf("message"))
			seq := c.ip.sliceSeq(c.st, m, bT)
			c.eq("digest", c.run(c.f, m), digest(alg, n, seq), bT)
		})
	}
	rep.convert(p, "Action.Digest", func(c *conversion) {
		v, got := c.receiver()
		seq, bad := c.wireEnc(chainLayouts()["Action"], p.named("pkg/chain", "Action"), v, bT, 0)
		if bad != bF {
			unsup("action without encoding")
		}
		c.eq("digest", got, digest("sha256", 32, seq), bT)
	})
	rep.floor("conversions", 4)
	return rep
}

func init() {
	checks["C20"] = checkTime
	checks["C23"] = checkJSONInts
	checks["C25"] = checkDigests
	checks["C26"] = checkInt128
	checks["C42"] = checkInt128Text
}
