package main

import (
	"math/big"
	"sort"
)

// Sums: machine and big integers as linear combinations of bit vectors that are not
// themselves sums. Two sums are the same value when their combinations are, however the
// additions and multiplications by constants were grouped. Machine sums wrap at their width
// and are known to be exact when no wrapping is possible.

type sumTerm struct {
	atom *V
	coef *big.Int
}

type sumForm struct {
	w     int // 0: unbounded
	terms []sumTerm
	c     *big.Int
	max   *big.Int // largest value of the unreduced sum, nil when it may be negative
}

var (
	sumsOn bool
	sumTab = map[*V]*sumForm{}
	// values a symbol is known to take, so that functions of it have one form
	sumCare = map[*symInfo]B{}
)

func pow2(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

func stripZeros(v *V) *V {
	n := len(v.bits)
	for n > 1 && v.bits[n-1] == bF {
		n--
	}
	if n == len(v.bits) {
		return v
	}
	return vInt(v.bits[:n])
}

func (f *sumForm) exact() bool { return f.max != nil && (f.w == 0 || f.max.Cmp(pow2(f.w)) < 0) }

// sumOf is the form of an unsigned vector, as part of a sum of the given width.
func sumOf(v *V, w int) *sumForm {
	if v.k != KInt {
		unsup("sum of %s", v.short(1))
	}
	f := &sumForm{w: w, c: new(big.Int), max: new(big.Int)}
	cared := v
	if len(sumCare) > 0 && !v.isConst() {
		syms := map[*symInfo]bool{}
		seen := map[B]bool{}
		for _, b := range v.bits {
			supportB(b, seen, syms)
		}
		care := bT
		for s := range syms {
			if c, ok := sumCare[s]; ok {
				care = and(care, c)
			}
		}
		if care != bT {
			bits := make([]B, len(v.bits))
			for i, b := range v.bits {
				bits[i] = and(b, care)
			}
			cared = vInt(bits)
		}
	}
	s := stripZeros(cared)
	if s.isConst() {
		for i, b := range s.bits {
			if b == bT {
				f.c.SetBit(f.c, i, 1)
			}
		}
		f.max.Set(f.c)
		return f
	}
	if t := sumTab[s]; t != nil && (t.w == w || t.exact()) {
		f.terms, f.c, f.max = t.terms, t.c, t.max
		return f
	}
	f.terms = []sumTerm{{s, big.NewInt(1)}}
	f.max = new(big.Int).Sub(pow2(len(s.bits)), big.NewInt(1))
	return f
}

func (f *sumForm) reduce(x *big.Int) *big.Int {
	if f.w > 0 {
		return new(big.Int).Mod(x, pow2(f.w))
	}
	return x
}

// apart reports whether no bit can be set in both, so that adding is joining.
func apart(a, b *V) bool {
	for i := range a.bits {
		if a.bits[i] != bF && b.bits[i] != bF {
			return false
		}
	}
	return true
}

func sumAdd(a, b *sumForm, sign int64) *sumForm {
	f := &sumForm{w: a.w, c: new(big.Int)}
	sg := big.NewInt(sign)
	f.c = f.reduce(f.c.Add(a.c, new(big.Int).Mul(b.c, sg)))
	if sign > 0 && a.max != nil && b.max != nil {
		f.max = new(big.Int).Add(a.max, b.max)
	}
	m := map[*V]*big.Int{}
	for _, t := range a.terms {
		m[t.atom] = t.coef
	}
	for _, t := range b.terms {
		x := new(big.Int).Mul(t.coef, sg)
		if o := m[t.atom]; o != nil {
			x.Add(x, o)
		}
		m[t.atom] = x
	}
	for at, k := range m {
		if k = f.reduce(k); k.Sign() != 0 {
			f.terms = append(f.terms, sumTerm{at, k})
		}
	}
	sort.Slice(f.terms, func(i, j int) bool { return f.terms[i].atom.id < f.terms[j].atom.id })
	return f
}

func sumScale(a *sumForm, k *big.Int) *sumForm {
	f := &sumForm{w: a.w, c: new(big.Int)}
	f.c = f.reduce(new(big.Int).Mul(a.c, k))
	for _, t := range a.terms {
		if x := f.reduce(new(big.Int).Mul(t.coef, k)); x.Sign() != 0 {
			f.terms = append(f.terms, sumTerm{t.atom, x})
		}
	}
	if a.max != nil && k.Sign() >= 0 {
		f.max = new(big.Int).Mul(a.max, k)
	}
	return f
}

func (f *sumForm) bigConst() (*big.Int, bool) { return f.c, len(f.terms) == 0 }

// val is the vector holding the sum, of width w (or 8, as a name, for unbounded sums).
func (f *sumForm) val() *V {
	if f.w > 0 {
		if len(f.terms) == 0 {
			return vBigConst(f.c, f.w)
		}
		if len(f.terms) == 1 && f.c.Sign() == 0 && f.terms[0].coef.Cmp(big.NewInt(1)) == 0 {
			return iResize(f.terms[0].atom, f.w, false)
		}
	}
	n := 1
	grow := func(x *big.Int) {
		if x.BitLen()+2 > n {
			n = x.BitLen() + 2
		}
	}
	grow(f.c)
	for _, t := range f.terms {
		grow(t.coef)
	}
	args := []*V{vBigConst(f.c, n)}
	for _, t := range f.terms {
		args = append(args, t.atom, vBigConst(t.coef, n))
	}
	w, op := f.w, "sum"
	if w == 0 {
		w, op = 8, "bigsum"
	}
	v := symInt(w, op, args...)
	if sumTab[v] == nil {
		sumTab[v] = f
		sumSym[symbolOf(v)] = f
	}
	return v
}

var sumSym = map[*symInfo]*sumForm{}

func symbolOf(v *V) *symInfo {
	s, _ := levelSym(bd.nodes[v.bits[0]].level)
	return s
}

// ---- points: the value of a graph of sums for given inputs, to confirm that two graphs
// which are written differently denote different values.

type point struct {
	input func(s *symInfo) *big.Int
	memo  map[*symInfo]*big.Int
}

func newPoint(in func(s *symInfo) *big.Int) *point {
	return &point{in, map[*symInfo]*big.Int{}}
}

func (p *point) sym(s *symInfo) *big.Int {
	if x := p.memo[s]; x != nil {
		return x
	}
	var x *big.Int
	if f := sumSym[s]; f != nil {
		x = p.form(f)
	} else {
		x = p.input(s)
	}
	p.memo[s] = x
	return x
}

func (p *point) form(f *sumForm) *big.Int {
	x := new(big.Int).Set(f.c)
	for _, t := range f.terms {
		x.Add(x, new(big.Int).Mul(t.coef, p.val(t.atom)))
	}
	return f.reduce(x)
}

func (p *point) bit(f B) bool {
	for f > bT {
		n := bd.nodes[f]
		s, i := levelSym(n.level)
		if p.sym(s).Bit(i) != 0 {
			f = n.hi
		} else {
			f = n.lo
		}
	}
	return f == bT
}

func (p *point) val(v *V) *big.Int {
	x := new(big.Int)
	for i, b := range v.bits {
		if p.bit(b) {
			x.SetBit(x, i, 1)
		}
	}
	return x
}
