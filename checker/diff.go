package main

import (
	"fmt"
	"go/types"
)

// differ compares two abstract values, each within its own state.
type differ struct {
	ip     *Interp
	a, b   *State
	memo   map[string]B
	depth  int
	strict bool // nil and empty slices differ
	quick  int  // 1: any part of the difference will do; 2: any part not depending on widened values
}

func newDiffer(ip *Interp, a, b *State) *differ {
	return &differ{ip: ip, a: a, b: b, memo: map[string]B{}}
}

func newQuickDiffer(ip *Interp, a, b *State) *differ {
	d := newDiffer(ip, a, b)
	d.quick = 1
	return d
}

func (d *differ) enough(r B) bool {
	return r != bF && (d.quick == 1 || d.quick == 2 && !bImprecise(r))
}

// diff is the guard under which x (in state a) and y (in state b) differ, within g. The
// guard mentions an imprecise symbol where the difference may be due to widening.
func (d *differ) diff(x, y *V, g B) B {
	r := d.diff1(x, y, g)
	if r != bF && r == g && x != nil && y != nil && (vImprecise(x) || vImprecise(y)) && !bImprecise(r) {
		r = and(r, atom("?differs", x, y))
	}
	return r
}

func (d *differ) diff1(x, y *V, g B) B {
	if g == bF {
		return bF
	}
	if x == y && (d.ip == nil || d.a == d.b || !hasRef(x)) {
		return bF
	}
	if x == nil || y == nil {
		return g
	}
	if x.k == KUnion || y.k == KUnion {
		r := bF
		ga, va := alts(x, g)
		for i := range va {
			gb, vb := alts(y, ga[i])
			for j := range vb {
				r = or(r, d.diff(va[i], vb[j], gb[j]))
				if d.enough(r) {
					return r
				}
			}
		}
		return r
	}
	isSl := func(v *V) bool { return v.k == KSlice || v.k == KNil }
	if isSl(x) && isSl(y) && (x.k == KSlice || y.k == KSlice) {
		if x.k == KNil || y.k == KNil {
			s, st := x, d.a
			if x.k == KNil {
				s, st = y, d.b
			}
			_ = st
			return and(g, not(iEq(s.kids[2], vConst(0, 64))))
		}
		return seqDiff(d, d.ip.sliceSeq1(d.a, x, g), d.ip.sliceSeq1(d.b, y, g), g)
	}
	if x.k != y.k {
		return g
	}
	switch x.k {
	case KInt:
		if len(x.bits) != len(y.bits) {
			return g
		}
		r := bF
		for i := range x.bits {
			r = or(r, and(g, xor(x.bits[i], y.bits[i])))
			if d.enough(r) {
				return r
			}
		}
		return r
	case KBool:
		return and(g, xor(x.bits[0], y.bits[0]))
	case KStr:
		return seqDiff(d, x.kids[0], y.kids[0], g)
	case KSeq:
		return seqDiff(d, x, y, g)
	case KStruct, KTuple:
		if len(x.kids) != len(y.kids) {
			return g
		}
		r := bF
		for i := range x.kids {
			r = or(r, d.diff(x.kids[i], y.kids[i], g))
			if d.enough(r) {
				return r
			}
		}
		return r
	case KIface:
		if isErrIface(x) && isErrIface(y) {
			return bF
		}
		if !types.Identical(x.t, y.t) {
			return g
		}
		return d.diff(x.kids[0], y.kids[0], g)
	case KPtr:
		if d.ip == nil {
			return g
		}
		d.depth++
		defer func() { d.depth-- }()
		if d.depth > 30 {
			return g
		}
		return d.diff(d.ip.loadPath(d.ip.objContent(d.a, x.n), x.kids, g), d.ip.loadPath(d.ip.objContent(d.b, y.n), y.kids, g), g)
	case KMap:
		return d.diff(d.ip.objContent(d.a, x.n), d.ip.objContent(d.b, y.n), g)
	case KMapC:
		r := bF
		used := map[*V]bool{}
		for _, e := range x.kids {
			var f *V
			for _, c := range y.kids {
				if c.kids[0] == e.kids[0] {
					f = c
				}
			}
			if f == nil {
				r = or(r, and(g, e.gs[0]))
				continue
			}
			used[f] = true
			r = or(r, and(g, xor(e.gs[0], f.gs[0])))
			r = or(r, d.diff(e.kids[1], f.kids[1], andN(g, e.gs[0], f.gs[0])))
		}
		for _, f := range y.kids {
			if !used[f] {
				r = or(r, and(g, f.gs[0]))
			}
		}
		return r
	case KOpq:
		if x.s == y.s && len(x.kids) == len(y.kids) && len(x.kids) > 0 {
			r := bF
			for i := range x.kids {
				r = or(r, d.diff(x.kids[i], y.kids[i], g))
			}
			return r
		}
		return g
	case KSym, KFld:
		if x == y {
			return bF
		}
		return g
	case KFunc:
		if x.fn == y.fn {
			return bF
		}
	}
	return g
}

// whole reports whether a part of a symbolic sequence is all of it.
func whole(s *V) bool {
	return s.kids[1] == vConst(0, 64) && s.kids[2] == s.kids[0].kids[1]
}

// sub is a differ for complete answers.
func (d *differ) sub() *differ {
	if d.quick == 0 {
		return d
	}
	return &differ{ip: d.ip, a: d.a, b: d.b, memo: map[string]B{}, depth: d.depth, strict: d.strict}
}

// hasRef reports whether a value contains references into memory.
func hasRef(v *V) bool {
	switch v.k {
	case KPtr, KSlice, KMap:
		return true
	case KInt, KBool, KNil:
		return false
	}
	for _, k := range v.kids {
		if hasRef(k) {
			return true
		}
	}
	return false
}

// seqDiff is the guard under which two sequences differ, within g.
func seqDiff(d *differ, a, b *V, g B) B {
	if d == nil {
		d = &differ{memo: map[string]B{}}
	}
	return d.segs(a.kids, b.kids, g)
}

func idsOf(s []*V) string {
	out := make([]byte, 0, len(s)*5)
	for _, v := range s {
		out = append(out, byte(v.id), byte(v.id>>8), byte(v.id>>16), byte(v.id>>24))
	}
	return string(out)
}

func tailOf(s []*V) []*V { return s[1:] }

func cons(h *V, t []*V) []*V {
	return seqOf(append([]*V{h}, t...)...).kids
}

func (d *differ) segs(a, b []*V, g B) B {
	if g == bF {
		return bF
	}
	for len(a) > 0 && len(b) > 0 && a[0] == b[0] && (d.a == d.b || !hasRef(a[0])) {
		a, b = a[1:], b[1:]
	}
	if len(a) == 0 && len(b) == 0 {
		return bF
	}
	if len(a) == 0 || len(b) == 0 {
		rest := a
		if len(a) == 0 {
			rest = b
		}
		return and(g, not(iEq(seqLen(mk(V{k: KSeq, kids: rest})), vConst(0, 64))))
	}
	key := fmt.Sprintf("%s|%s|%d", idsOf(a), idsOf(b), g)
	if r, ok := d.memo[key]; ok {
		return r
	}
	r := d.segs1(a, b, g)
	d.memo[key] = r
	return r
}

func (d *differ) segs1(a, b []*V, g B) B {
	x, y := a[0], b[0]
	// skip segments that are empty under g
	for i, s := range []*V{x, y} {
		if s.k == KSegSub || s.k == KSegLoop || s.k == KSegFill {
			n := segLen(s)
			if s.k == KSegLoop {
				n = s.kids[0]
			}
			if implies(g, iEq(n, vConst(0, 64))) {
				if i == 0 {
					return d.segs(a[1:], b, g)
				}
				return d.segs(a, b[1:], g)
			}
		}
	}
	if x.k == KSegIte && y.k == KSegIte && x.gs[0] == y.gs[0] {
		c := x.gs[0]
		r := d.segs(cons(x.kids[0], a[1:]), cons(y.kids[0], b[1:]), and(g, c))
		if d.enough(r) {
			return r
		}
		return or(r, d.segs(cons(x.kids[1], a[1:]), cons(y.kids[1], b[1:]), and(g, not(c))))
	}
	if x.k == KSegIte {
		c := x.gs[0]
		r := d.segs(cons(x.kids[0], a[1:]), b, and(g, c))
		if d.enough(r) {
			return r
		}
		return or(r, d.segs(cons(x.kids[1], a[1:]), b, and(g, not(c))))
	}
	if y.k == KSegIte {
		c := y.gs[0]
		r := d.segs(a, cons(y.kids[0], b[1:]), and(g, c))
		if d.enough(r) {
			return r
		}
		return or(r, d.segs(a, cons(y.kids[1], b[1:]), and(g, not(c))))
	}
	if x.k == KSegUpd || y.k == KSegUpd {
		if x.k == KSegUpd && y.k == KSegUpd && len(a) == 1 && len(b) == 1 {
			r := and(g, not(iEq(x.kids[1], y.kids[1])))
			return orN(r, d.diff(x.kids[2], y.kids[2], g), seqDiff(d, x.kids[0], y.kids[0], g))
		}
		return g
	}
	if x.k == KSegVar && y.k == KSegVar {
		w := max(len(x.kids[0].bits), len(y.kids[0].bits))
		ne := and(g, not(iEq(iResize(x.kids[0], w, false), iResize(y.kids[0], w, false))))
		if d.enough(ne) {
			return ne
		}
		return or(ne, d.segs(a[1:], b[1:], and(g, not(ne))))
	}
	if x.k == KSegVar {
		return d.segs(cons(lebSeq(x.kids[0]), a[1:]), b, g)
	}
	if y.k == KSegVar {
		return d.segs(a, cons(lebSeq(y.kids[0]), b[1:]), g)
	}
	if x.k == KSegE && y.k == KSegE {
		n := min(len(x.kids), len(y.kids))
		r := bF
		for i := 0; i < n; i++ {
			r = or(r, d.diff(x.kids[i], y.kids[i], g))
			if d.enough(r) {
				return r
			}
		}
		ra, rb := a[1:], b[1:]
		if len(x.kids) > n {
			ra = append([]*V{segE(x.kids[n:]...)}, ra...)
		}
		if len(y.kids) > n {
			rb = append([]*V{segE(y.kids[n:]...)}, rb...)
		}
		return or(r, d.segs(ra, rb, and(g, not(r))))
	}
	if x.k == KSegE || y.k == KSegE {
		// peel one element off the symbolic side
		e, es, o, os, flip := x, a, y, b, false
		if y.k == KSegE {
			e, es, o, os, flip = y, b, x, a, true
		}
		n := o.kids[2]
		if o.k == KSegLoop || o.k == KSegFill {
			n = o.kids[0]
		}
		empty := and(g, iEq(n, vConst(0, 64)))
		full := and(g, not(empty))
		both := func(p, q []*V, g B) B {
			if flip {
				return d.segs(q, p, g)
			}
			return d.segs(p, q, g)
		}
		r := bF
		if empty != bF {
			r = both(es, os[1:], empty)
		}
		if d.enough(r) {
			return r
		}
		if full != bF {
			one := vConst(1, 64)
			var first, rest *V
			m := iSub(n, one)
			if c, ok := constUnder(m, full); ok {
				m = vConst(c, 64)
			}
			switch o.k {
			case KSegSub:
				first = segE(symElem(o.kids[0], o.kids[1], bT))
				rest = segSub(o.kids[0], iAdd(o.kids[1], one), m)
			case KSegFill:
				first = segE(o.kids[1])
				rest = segFill(m, o.kids[1])
			case KSegLoop:
				first = substIt(o.kids[2], o.kids[1], vConst(0, 64))
				rest = segLoop(m, o.kids[1], substIt(o.kids[2], o.kids[1], iAdd(o.kids[1], one)))
			default:
				return g
			}
			_ = e
			r = or(r, both(es, seqOf(append([]*V{first, rest}, os[1:]...)...).kids, full))
		}
		return r
	}
	// both symbolic
	asLoop := func(s *V) (n, it, body *V) {
		switch s.k {
		case KSegLoop:
			return s.kids[0], s.kids[1], s.kids[2]
		case KSegFill:
			return s.kids[0], itVar(0), seqOf(segE(s.kids[1]))
		case KSegSub:
			it := itVar(0)
			return s.kids[2], it, seqOf(segE(symElem(s.kids[0], iAdd(s.kids[1], it), bT)))
		}
		return nil, nil, nil
	}
	if x.k == KSegSub && y.k == KSegSub && x.kids[0] == y.kids[0] {
		none := iEq(x.kids[2], vConst(0, 64))
		ne := and(g, or(and(not(none), not(iEq(x.kids[1], y.kids[1]))), not(iEq(x.kids[2], y.kids[2]))))
		// different parts of one symbolic sequence: equal only where both are empty
		if d.enough(ne) {
			return ne
		}
		return or(ne, d.segs(a[1:], b[1:], and(g, not(ne))))
	}
	if x.k == KSegSub && y.k == KSegSub && whole(x) && whole(y) {
		// results of the same function on equal arguments
		p, q := x.kids[0].kids[0], y.kids[0].kids[0]
		if p.k == KOpq && q.k == KOpq && p.s == q.s && len(p.kids) == len(q.kids) && len(p.kids) > 0 && p.s != "elem" {
			ne := d.sub().diff(p, q, g)
			if ne != g && !onIteration(ne) {
				if d.enough(ne) {
					return ne
				}
				return or(ne, d.segs(a[1:], b[1:], and(g, not(ne))))
			}
		}
	}
	n1, i1, b1 := asLoop(x)
	n2, i2, b2 := asLoop(y)
	if n1 == nil || n2 == nil {
		return g
	}
	ne := and(g, not(iEq(n1, n2)))
	eq := and(g, not(ne))
	r := ne
	if eq != bF {
		// compare the bodies for an arbitrary iteration
		fresh := itVar(9 + d.depth)
		b1, b2 = substIt(b1, i1, fresh), substIt(b2, i2, fresh)
		d.depth++
		bd := seqDiff(d, b1, b2, andN(eq, iSlt(fresh, n1)))
		d.depth--
		r = or(r, bd)
		if d.enough(r) {
			return r
		}
		r = or(r, d.segs(a[1:], b[1:], and(eq, not(bd))))
	}
	return r
}

const itBits = 40

// itVar is the iteration variable of a loop at the given nesting depth.
func itVar(depth int) *V {
	return iResize(symInt(itBits, "it", vConst(int64(depth), 64)), 64, false)
}
