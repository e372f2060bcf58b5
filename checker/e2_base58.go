package main

import (
	"fmt"
	"math/big"
	"strings"
)

// C21: base58 text as a positional number.

const base58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func base58Spec() string {
	var t []string
	for c := 0; c < 256; c++ {
		t = append(t, fmt.Sprint(strings.IndexByte(base58Alphabet, byte(c))&255))
	}
	return `package base58spec
import "math/big"
func Decode(text string) []byte {
	digit := [256]byte{` + strings.Join(t, ",") + `}
	zeros := 0
	for zeros < len(text) && text[zeros] == '1' {
		zeros++
	}
	x := new(big.Int)
	radix := big.NewInt(58)
	for i := 0; i < len(text); i++ {
		x.Mul(x, radix)
		x.Add(x, new(big.Int).SetUint64(uint64(digit[text[i]])))
	}
	out := make([]byte, zeros)
	return append(out, x.Bytes()...)
}
`
}

// base58Valid is whether a character is in the alphabet.
func base58Valid(c *V) B {
	r := bF
	for i := 0; i < len(base58Alphabet); i++ {
		r = or(r, iEq(c, vConst(int64(base58Alphabet[i]), 8)))
	}
	return r
}

func checkBase58(p *Program) *Report {
	rep := newReport("the value graph of base58.Decode, with integers as linear combinations of the digits, equals the positional value over the Bitcoin alphabet for every text of a given length and number of leading ones; a text with any other byte gives no bytes")
	sumsOn = true
	defer func() { sumsOn = false }()
	most := 56
	if thorough() {
		most = 112
	}
	sp := p.spec("base58spec", base58Spec())
	for n := 1; n <= most; n++ {
		key := fmt.Sprintf("base58.Decode(%d characters, invalid)", n)
		rep.decide(key, func() {
			s := newScene(p, rep)
			f := s.fn("pkg/base58", "Decode")
			if f == nil {
				unsup("no such function")
			}
			var chars []*V
			valid := bT
			for i := 0; i < n; i++ {
				c := symIntB(8, 9*i, "character", vConst(int64(i), 64))
				chars = append(chars, c)
				valid = and(valid, base58Valid(c))
			}
			s.assume = not(valid)
			s.st.g = s.assume
			got := s.run(f, vStrSeq(seqOf(segE(chars...))))
			s.noPanic(key)
			got = s.ip.sliceSeq(s.st, got, s.st.g)
			s.same(key, p.pos(f.Pos()), "decoding a text with a character outside of the alphabet", got, s, seqEmpty, bT)
			rep.Analysed["text shapes"]++
		})
	}
	for n := 0; n <= most; n++ {
		var zs []int
		for z := 0; z <= n; z++ {
			if z <= 2 || z == n || z == n-1 || z%10 == 0 && n < 32 || thorough() && n < 40 {
				zs = append(zs, z)
			}
		}
		for _, z := range zs {
			key := fmt.Sprintf("base58.Decode(%d characters, %d leading ones)", n, z)
			rep.decide(key, func() { decodeText(p, rep, sp, key, n, z) })
		}
	}
	rep.floor("text shapes", 50)
	return rep
}

func decodeText(p *Program, rep *Report, sp *specPkg, key string, n, z int) {
	s := newScene(p, rep)
	f := s.fn("pkg/base58", "Decode")
	if f == nil {
		unsup("no such function")
	}
	var chars []*V
	for i := 0; i < n; i++ {
		if i < z {
			chars = append(chars, vConst('1', 8))
			continue
		}
		c := symIntB(8, 9*i, "character", vConst(int64(i), 64))
		v := base58Valid(c)
		if i == z {
			v = and(v, not(iEq(c, vConst('1', 8))))
		}
		sumCare[symbolOf(c)] = v
		s.assume = and(s.assume, v)
		chars = append(chars, c)
	}
	s.st.g = s.assume
	text := vStrSeq(seqOf(segE(chars...)))
	w := newScene(p, rep)
	w.st.g = s.assume
	got := s.run(f, text)
	s.noPanic(key)
	want := w.run(sp.ssa.Func("Decode"), text)
	got, want = s.ip.sliceSeq(s.st, got, s.st.g), w.ip.sliceSeq(w.st, want, w.st.g)
	rep.Analysed["text shapes"]++
	if a, b := lastV(s.ip.bigBytes), lastV(w.ip.bigBytes); a != b {
		if a == nil || b == nil || !differAtPoint(a, b) {
			unsup("the number is computed in another way")
		}
	}
	s.same(key, p.pos(f.Pos()), "decoding a text", got, w, want, bT)
}

func lastV(l []*V) *V {
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

// differAtPoint confirms that two big sums of base58 digits have different values for some
// digits.
func differAtPoint(a, b *V) bool {
	for k := 0; k < 300; k++ {
		pt := newPoint(func(s *symInfo) *big.Int {
			if s.op != "character" {
				unsup("the number depends on %s", s)
			}
			c := "123zyx9ABCHJNPZakmn"[(k*7+s.index*(k%5))%19]
			if k < 58 {
				c = base58Alphabet[57-k]
			}
			if care, ok := sumCare[s]; ok && c == '1' && restrict(care, iEq(wholeSym(s), vConst('1', 8))) == bF {
				c = 'z'
			}
			return big.NewInt(int64(c))
		})
		if pt.form(sumTab[a]).Cmp(pt.form(sumTab[b])) != 0 {
			return true
		}
	}
	return false
}

func init() { checks["C21"] = checkBase58 }
