package main

// Integers that are a constant multiple of another value plus a constant, as far as no
// overflow is possible. Lets divisions by a constant undo multiplications exactly.

type linForm struct {
	base *V
	k, c int64
}

// counts are symbols counting time units, plus a constant. Dividing them further rounds
// differently from counting in the larger unit.
var counts = map[*V]linForm{}

var linTab = map[*V]linForm{}

func linOf(v *V) linForm {
	if f, ok := linTab[v]; ok {
		return f
	}
	if x, ok := v.sconst(); ok {
		return linForm{vConst(0, 64), 1, x}
	}
	return linForm{v, 1, 0}
}

// fits reports whether base*k+c stays within 63 bits for every value of base.
func (f linForm) fits() bool {
	w := len(f.base.bits)
	n := w
	for n > 1 && f.base.bits[n-2] == f.base.bits[w-1] {
		n--
	}
	// |base| <= 2^(n-1)
	if n > 62 {
		return f.k == 1 && f.c == 0
	}
	abs := func(x int64) int64 {
		if x < 0 {
			return -x
		}
		return x
	}
	return abs(f.k) < (1<<62)>>uint(n-1) && abs(f.c) < 1<<62
}

func (f linForm) val() *V {
	if f.k == 1 && f.c == 0 {
		return f.base
	}
	var r *V
	if f.k > -4096 && f.k < 4096 {
		k := f.k
		if k < 0 {
			k = -k
		}
		r = vConst(0, 64)
		for i := 0; i < 12; i++ {
			if k>>uint(i)&1 != 0 {
				r = iAdd(r, iShlC(f.base, i))
			}
		}
		if f.k < 0 {
			r = iNeg(r)
		}
		r = iAdd(r, vConst(f.c, 64))
	} else {
		r = symInt(64, "lin", f.base, vConst(f.k, 64), vConst(f.c, 64))
	}
	if _, ok := linTab[r]; !ok && !r.isConst() {
		linTab[r] = f
	}
	return r
}

// linAdd adds a constant to a known multiple.
func linAdd(x *V, c int64) (*V, bool) {
	if u, ok := counts[x]; ok {
		r := iAdd(x, vConst(c, 64))
		u.c += c
		counts[r] = u
		return r, true
	}
	f, ok := linTab[x]
	if !ok {
		return nil, false
	}
	f.c += c
	if !f.fits() {
		return nil, false
	}
	return f.val(), true
}

func linMul(x *V, c int64) (*V, bool) {
	if len(x.bits) != 64 || c == 0 || c > 1<<40 || c < -1<<40 {
		return nil, false
	}
	f := linOf(x)
	if (linForm{f.base, c, 0}).fits() && f.fits() {
		f.k *= c
		f.c *= c
		if f.fits() {
			return f.val(), true
		}
	}
	return nil, false
}

func linDiv(x *V, d int64, rem bool) (*V, bool) {
	if u, ok := counts[x]; ok && !rem && d > 1 {
		return symInt(64, "quotient", u.base, vConst(u.c, 64), vConst(d, 64)), true
	}
	f, ok := linTab[x]
	if !ok || d == 0 || f.k%d != 0 || f.c%d != 0 {
		return nil, false
	}
	if rem {
		return vConst(0, 64), true
	}
	f.k /= d
	f.c /= d
	return f.val(), true
}
