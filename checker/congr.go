package main

import "sort"

// Congruence: an uninterpreted function applied to arguments that are equal under some guard
// has equal results under that guard. Applications are tied together when they are made.

type appl struct {
	args []*V
	val  *V
}

var appls = map[string][]appl{}

// congruent is the application of op to args; mk makes the value of an application that
// equals no earlier one.
func congruent(op string, args []*V, mk func() *V) *V {
	prior := appls[op]
	for _, a := range prior {
		if sameArgs(a.args, args) {
			return a.val
		}
	}
	v := mk()
	if len(prior) <= 24 {
		for i := len(prior) - 1; i >= 0; i-- {
			a := prior[i]
			if len(a.args) != len(args) {
				continue
			}
			ne := bF
			d := newDiffer(nil, nil, nil)
			for k := range args {
				if hasRef(args[k]) || hasRef(a.args[k]) {
					ne = bT
					break
				}
				ne = or(ne, d.diff(args[k], a.args[k], bT))
			}
			if ne == bT || onIteration(ne) || bImprecise(ne) {
				continue
			}
			if v.k == KSeq {
				v = seqIte(not(ne), a.val, v)
			} else {
				v = vIte(not(ne), a.val, v)
			}
		}
	}
	appls[op] = append(prior, appl{args, v})
	return v
}

func sameArgs(a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// onIteration reports whether a guard speaks of an arbitrary element rather than of all.
func onIteration(f B) bool {
	out := map[*symInfo]bool{}
	supportB(f, map[B]bool{}, out)
	for s := range out {
		if s.op == "it" {
			return true
		}
	}
	return false
}

func appInt(w int, op string, args ...*V) *V {
	return congruent(op, args, func() *V { return symInt(w, op, args...) })
}

func appBool(op string, args ...*V) B {
	return congruent(op, args, func() *V { return vBool(atom(op, args...)) }).bits[0]
}

// Axioms: facts about uninterpreted symbols that the value graph does not spell out. A
// difference counts only where they hold.

// lawful is the part of a difference that agrees with the axioms of the symbols in it.
func lawful(f B) B {
	done := map[[2]int]bool{}
	for round := 0; round < 3 && f != bF; round++ {
		syms := map[*symInfo]bool{}
		supportB(f, map[B]bool{}, syms)
		var order []*symInfo
		for s := range syms {
			order = append(order, s)
		}
		sort.Slice(order, func(i, j int) bool { return order[i].index < order[j].index })
		more := false
		apply := func(i, j *symInfo, ax func() B) {
			k := [2]int{i.index, -1}
			if j != nil {
				k[1] = j.index
			}
			if !done[k] {
				done[k] = true
				more = true
				f = and(f, ax())
			}
		}
		for _, s := range order {
			switch {
			case s.op == "hasbyte":
				apply(s, nil, func() B { return hasByteAxiom(s) })
			case s.op == "len" && len(s.args) == 1 && s.args[0].k == KOpq && s.args[0].s == "before":
				apply(s, nil, func() B { return beforeLenAxiom(s.args[0]) })
			case s.op == "v" && len(s.args) == 1 && s.args[0].k == KOpq && s.args[0].s == "elem":
				seq, idx := s.args[0].kids[0], s.args[0].kids[1]
				if seq.k == KOpq && seq.s == "before" && idx.isConst() {
					apply(s, nil, func() B { return beforeAxiom(s, seq, idx) })
				}
				if idx.k != KInt {
					continue
				}
				for _, t := range order {
					if t.index > s.index && t.op == "v" && t.width == s.width && len(t.args) == 1 && t.args[0].k == KOpq && t.args[0].s == "elem" &&
						t.args[0].kids[0] == seq && t.args[0].kids[1].k == KInt {
						at := t.args[0].kids[1]
						if idx.isConst() && at.isConst() {
							continue
						}
						apply(s, t, func() B { return or(not(iEq(idx, at)), iEq(wholeSym(s), wholeSym(t))) })
					}
				}
			}
			if f == bF {
				return f
			}
		}
		if !more {
			break
		}
	}
	return f
}

func wholeSym(s *symInfo) *V { return vInt(symBits(s)) }

// hasByteAxiom ties whether c occurs in a sequence to the first few elements.
func hasByteAxiom(s *symInfo) B {
	seq, c := s.args[0], s.args[1]
	has := s.bit(0)
	n := seqLen(seq)
	const few = 8
	hit := bF
	for i := int64(0); i < few; i++ {
		in := iUlt(vConst(i, 64), n)
		if in == bF {
			break
		}
		hit = or(hit, and(in, iEq(narrow(seqGet(seq, vConst(i, 64), in), in), c)))
	}
	short := not(iUlt(vConst(few, 64), n))
	return and(or(not(hit), has), or(not(and(short, not(hit))), not(has)))
}

// beforeLenAxiom: what comes before a separator is shorter than a text that has one.
func beforeLenAxiom(before *V) B {
	text, c := before.kids[0], before.kids[1]
	n := seqLen(text)
	has := and(appBool("hasbyte", text, c), not(iEq(n, vConst(0, 64))))
	return or(not(has), iUlt(symLen(before), n))
}

// beforeAxiom: what comes before a separator is the beginning of the text, and is free of it.
func beforeAxiom(s *symInfo, before, idx *V) B {
	text, c := before.kids[0], before.kids[1]
	in := iUlt(idx, symLen(before))
	e := wholeSym(s)
	r := not(iEq(e, c))
	there := iUlt(idx, seqLen(text))
	if there != bF {
		x := narrow(seqGet(text, idx, there), there)
		if x.k == KInt && len(x.bits) == len(e.bits) {
			r = and(r, or(not(there), iEq(e, x)))
		}
	}
	return or(not(in), r)
}
