package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const (
	maxConstTrips = 20000
	maxSymTrips   = 70
)

// runLoop carries the states entering a loop header through the loop.
func (ip *Interp) runLoop(fr *frame, l *loopInfo, entries []edge) []edge {
	nObs, nRets, nAl := len(ip.obs), len(fr.rets), len(ip.allocs)
	var outs []edge
	cur := entries
	tried := false
	symbolic := 0
	// a summary that lost information, to fall back on
	var lossy []edge
	var lObs, lAl []obligation
	var lRets []retRec
	g0 := bF
	for _, e := range entries {
		g0 = or(g0, e.st.g)
	}
	for trip := 0; ; trip++ {
		g := bF
		for _, e := range cur {
			g = or(g, e.st.g)
		}
		r0 := len(fr.rets)
		back, exits := ip.runRegion(fr, l, cur)
		outs = append(outs, exits...)
		if len(back) == 0 {
			return ip.joinExits(fr, outs)
		}
		bg := bF
		for _, e := range back {
			bg = or(bg, e.st.g)
		}
		if bg != g || len(exits) > 0 || len(fr.rets) > r0 {
			symbolic++
		}
		// returns alone do not make the trip count symbolic
		if symbolic > 0 && !tried && (len(outs) > 0 || trip >= 24) {
			tried = true
			sObs, sRets, sAl := append([]obligation{}, ip.obs...), append([]retRec{}, fr.rets...), append([]obligation{}, ip.allocs...)
			ip.obs, fr.rets, ip.allocs = ip.obs[:nObs:nObs], fr.rets[:nRets:nRets], ip.allocs[:nAl:nAl]
			res, trips, ok := ip.summarise(fr, l, entries)
			if ok {
				if c, isC := trips.uconst(); !isC || c > 300 {
					if !ip.lossy || ip.widen || !implies(g0, iUlt(trips, vConst(21, 64))) {
						return ip.joinExits(fr, res)
					}
					lossy, lObs, lRets, lAl = res, ip.obs, fr.rets, ip.allocs
				}
			}
			ip.obs, fr.rets, ip.allocs = sObs, sRets, sAl
		}
		if lossy != nil && trip >= 20 {
			ip.obs, fr.rets, ip.allocs = lObs, lRets, lAl
			return ip.joinExits(fr, lossy)
		}
		if symbolic > maxSymTrips || trip > maxConstTrips {
			unsup("loop at %s in %s has no recognised trip count", ip.p.instrPos(l.header.Instrs[0]), fname(fr.fn))
		}
		for _, e := range back {
			ip.sharpen(e.st, entries)
		}
		cur = back
	}
}

// sharpen drops what the guard of a state excludes from the values that a loop body changed.
func (ip *Interp) sharpen(st *State, entries []edge) {
	if st.g == bT || len(entries) == 0 {
		return
	}
	old := entries[0].st
	mem, env := map[int]*V{}, map[ssa.Value]*V{}
	for k, v := range st.mem {
		if old.mem[k] != v && k != objPos {
			if w := narrowDeep(v, st.g); w != v {
				mem[k] = w
			}
		}
	}
	for k, v := range st.env {
		if old.env[k] != v {
			if w := narrowDeep(v, st.g); w != v {
				env[k] = w
			}
		}
	}
	for k, v := range mem {
		st.setMem(k, v)
	}
	for k, v := range env {
		st.setEnv(k, v)
	}
}

// byLength rewrites a choice between spelt-out byte sequences as a choice by length, keeping
// what g allows.
func byLength(v *V, g B) (*V, bool) {
	if g == bF {
		return v, true
	}
	if nIte(v) == 0 {
		e, ok := explicit(v)
		if !ok {
			return v, false
		}
		n, changed := make([]*V, len(e)), false
		for i, x := range e {
			n[i] = fewer(x, g)
			changed = changed || n[i] != x
		}
		if !changed {
			return v, true
		}
		return seqOf(segE(n...)), true
	}
	if nIte(v) > 12 {
		return v, false
	}
	type alt struct {
		g B
		e []*V
	}
	var expand func(segs []*V, g B) ([]alt, bool)
	expand = func(segs []*V, g B) ([]alt, bool) {
		if g == bF {
			return nil, true
		}
		if len(segs) == 0 {
			return []alt{{g, nil}}, true
		}
		var head []alt
		switch k := segs[0]; k.k {
		case KSegE:
			for _, x := range k.kids {
				if x.k != KInt || len(x.bits) != 8 {
					return nil, false
				}
			}
			head = []alt{{g, k.kids}}
		case KSegIte:
			a, ok := expand(k.kids[0].kids, and(g, k.gs[0]))
			if !ok {
				return nil, false
			}
			b, ok := expand(k.kids[1].kids, and(g, not(k.gs[0])))
			if !ok {
				return nil, false
			}
			head = append(a, b...)
		default:
			return nil, false
		}
		var out []alt
		for _, h := range head {
			rest, ok := expand(segs[1:], h.g)
			if !ok || len(out)+len(rest) > 64 {
				return nil, false
			}
			for _, r := range rest {
				out = append(out, alt{r.g, append(append([]*V{}, h.e...), r.e...)})
			}
		}
		return out, true
	}
	as, ok := expand(v.kids, g)
	if !ok || len(as) == 0 {
		return v, false
	}
	by := map[int][]alt{}
	var lens []int
	for _, a := range as {
		if by[len(a.e)] == nil {
			lens = append(lens, len(a.e))
		}
		by[len(a.e)] = append(by[len(a.e)], a)
	}
	if len(lens) > 4 {
		return v, false
	}
	sort.Ints(lens)
	var res *V
	for _, n := range lens {
		as := by[n]
		gn := bF
		for _, a := range as {
			gn = or(gn, a.g)
		}
		e := append([]*V{}, as[0].e...)
		for _, a := range as[1:] {
			for i := range e {
				e[i] = iIte(restrict(a.g, gn), a.e[i], e[i])
			}
		}
		for i := range e {
			e[i] = fewer(e[i], gn)
		}
		x := seqOf(segE(e...))
		if res == nil {
			res = x
		} else {
			res = seqIte(restrict(gn, g), x, res)
		}
	}
	return res, true
}

// spelt reports whether a sequence consists of elements and choices between such sequences.
func spelt(v *V) bool {
	for _, k := range v.kids {
		switch k.k {
		case KSegE:
		case KSegIte:
			if !spelt(k.kids[0]) || !spelt(k.kids[1]) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// fewer is x or, where g makes it depend on fewer symbols, x restricted to g.
func fewer(x *V, g B) *V {
	if x.k != KInt || x.isConst() || len(x.bits) > 64 {
		return x
	}
	n := make([]B, len(x.bits))
	changed := false
	for i, b := range x.bits {
		n[i] = restrict(b, g)
		changed = changed || n[i] != b
	}
	if !changed {
		return x
	}
	count := func(bs []B) int {
		out, seen := map[*symInfo]bool{}, map[B]bool{}
		for _, b := range bs {
			supportB(b, seen, out)
		}
		return len(out)
	}
	if count(n) < count(x.bits) {
		return vInt(n)
	}
	return x
}

// narrowDeep drops the alternatives of a value and its parts that g excludes.
func narrowDeep(v *V, g B) *V {
	switch v.k {
	case KInt:
		if v.isConst() || len(v.bits) > 64 {
			return v
		}
		// the high bits of a position or length are the usual gain
		if c, ok := constUnder(v, g); ok {
			return vConst(c, len(v.bits))
		}
		return v
	case KStruct, KTuple:
		var kids []*V
		for i, k := range v.kids {
			w := narrowDeep(k, g)
			if w != k && kids == nil {
				kids = append([]*V{}, v.kids...)
			}
			if kids != nil {
				kids[i] = w
			}
		}
		if kids == nil {
			return v
		}
		return mk(V{k: v.k, kids: kids, t: v.t, s: v.s, n: v.n, gs: v.gs, bits: v.bits})
	case KSeq:
		if w, ok := byLength(v, g); ok {
			return w
		}
		if !spelt(v) {
			return v
		}
		changed := false
		parts := make([]*V, len(v.kids))
		for i, k := range v.kids {
			parts[i] = k
			if k.k == KSegIte {
				switch {
				case implies(g, k.gs[0]):
					parts[i] = narrowDeep(k.kids[0], g)
				case implies(g, not(k.gs[0])):
					parts[i] = narrowDeep(k.kids[1], g)
				default:
					a, b := narrowDeep(k.kids[0], and(g, k.gs[0])), narrowDeep(k.kids[1], and(g, not(k.gs[0])))
					if a != k.kids[0] || b != k.kids[1] {
						parts[i] = seqIte(k.gs[0], a, b)
					}
				}
				changed = changed || parts[i] != k
			}
		}
		if !changed {
			return v
		}
		return seqOf(parts...)
	case KUnion:
		return narrow(v, g)
	}
	return v
}

// joinExits merges the states leaving over the same edge.
func (ip *Interp) joinExits(fr *frame, outs []edge) []edge {
	type key struct{ f, t *ssa.BasicBlock }
	idx := map[key]int{}
	var res []edge
	for _, e := range outs {
		if e.st.g == bF {
			continue
		}
		k := key{e.from, e.to}
		live := map[ssa.Value]bool{}
		for v := range fr.info.live[e.to] {
			live[v] = true
		}
		for _, in := range e.to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for j, x := range ph.Edges {
				if e.to.Preds[j] == e.from {
					live[x] = true
				}
			}
		}
		if len(outs) > 2 {
			e.st = ip.collect(fr, e.st, live, nil)
		}
		if i, ok := idx[k]; ok {
			res[i].st = ip.mergeStates(res[i].st, e.st, live)
			continue
		}
		idx[k] = len(res)
		res = append(res, e)
	}
	return res
}

// ---- widening

type clsKind int

const (
	cInv clsKind = iota
	cParts
	cInd
	cSeq
	cSlice
	cUpd
	cAt // one stored element of a sequence changes
	cPos
	cHavoc
)

// cls says how a value carried by a loop changes from one iteration to the next.
type cls struct {
	kind clsKind
	kids []*cls
	step *V // cInd: added per iteration
	mu   *V // cSeq, cSlice, cUpd: symbol standing for the contents at the start of an iteration
	muN  *V
	tail *V   // cSeq, cSlice: appended per iteration; cUpd: element stored at the iteration's index
	init *V   // contents before the loop
	hv   *V   // cHavoc: the unknown
	base *V   // cUpd: index stored to
	own  bool // cUpd: the index is the iteration's own, so contents from there on are the old ones
	why  string
}

type loopCtx struct {
	ip    *Interp
	h0    *State
	it    *V
	depth int
	muID  int
	obj   int // object being refined
}

// iteration variables from this depth on are bound inside the names of positions
const boundDepth = 100

var muCount int

// freeze makes data built within one iteration independent of memory.
func (lc *loopCtx) freeze(v *V, sb *State) *V {
	return freeze(v, func(id int) *V { return lc.ip.objContent(sb, id) }, func(id int) bool {
		if _, ok := lc.h0.mem[id]; ok {
			return false
		}
		if lc.perIteration(id) {
			return true
		}
		return lc.ip.implicit(id) == nil
	}, 0)
}

// perIteration recognises symbolic objects reached through an element at the iteration's
// own index; distinct elements are assumed not to share memory.
func (lc *loopCtx) perIteration(id int) bool {
	n := objName[id]
	if n == nil {
		return false
	}
	if _, ok := lc.h0.mem[id]; ok {
		return false
	}
	d := newDeps()
	d.addV(n)
	return dependsOnIt(d, lc.it)
}

func (lc *loopCtx) newMu(elem types.Type) *V {
	muCount++
	return vOpq(fmt.Sprintf("mu%d", muCount), nil)
}

func seqElemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

// assume is the value at the start of an arbitrary iteration.
func (lc *loopCtx) assume(c *cls, init *V, t types.Type, st *State) *V {
	switch c.kind {
	case cInv:
		return init
	case cParts:
		kids := make([]*V, len(init.kids))
		for i := range kids {
			kids[i] = lc.assume(c.kids[i], init.kids[i], partType(t, init, i), st)
		}
		n := *init
		n.kids = kids
		return mk(n)
	case cAt:
		u := init.kids[0].kids
		e := lc.assume(c.kids[0], u[2], seqElemType(t), st)
		return mk(V{k: KSeq, kids: []*V{mk(V{k: KSegUpd, kids: []*V{u[0], u[1], e}})}})
	case cInd:
		return iAdd(init, iMul(iResize(lc.it, len(init.bits), false), c.step))
	case cSeq, cUpd:
		if c.own {
			return seqOf(segSub(c.mu, vConst(0, 64), lc.it), seqSlice(c.init, lc.it, seqLen(c.init), bT))
		}
		return seqOf(segSub(c.mu, vConst(0, 64), c.mu.kids[1]))
	case cSlice:
		p := lc.ip.alloc(st, t, seqOf(segSub(c.mu, vConst(0, 64), c.mu.kids[1])))
		return vSlice(p, vConst(0, 64), c.mu.kids[1], c.mu.kids[1])
	case cPos:
		return vOpq("pos", nil, vOpq("lseg", nil, init, lc.it), vConst(0, 64))
	}
	return c.hv
}

func partType(t types.Type, v *V, i int) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok && v.k == KStruct {
		return s.Field(i).Type()
	}
	return nil
}

func havocLike(v *V, t types.Type, why string) *V {
	switch v.k {
	case KInt:
		return havocInt(len(v.bits), why)
	case KBool:
		return vBool(havocBool(why))
	case KStruct, KTuple:
		kids := make([]*V, len(v.kids))
		for i := range kids {
			kids[i] = havocLike(v.kids[i], partType(t, v, i), why)
		}
		n := *v
		n.kids = kids
		return mk(n)
	}
	havocCount++
	name := vOpq(fmt.Sprintf("?%s#%d", why, havocCount), nil)
	switch v.k {
	case KStr:
		return fresh(types.Typ[types.String], name)
	case KSeq:
		et := seqElemType(t)
		if et == nil {
			et = types.Typ[types.Uint8]
			if e, ok := explicit(v); ok && len(e) > 0 && !(e[0].k == KInt && len(e[0].bits) == 8) {
				unsup("unknown sequence contents")
			}
		}
		n := seqLen(v)
		if _, ok := n.uconst(); !ok || t == nil {
			n = symLen(name)
		} else if _, isArr := t.Underlying().(*types.Array); !isArr {
			n = symLen(name)
		}
		return seqOf(segSub(vSym(name, n, et), vConst(0, 64), n))
	case KOpq:
		if mergeOpq[v.s] && v.s != "pos" {
			kids := make([]*V, len(v.kids))
			for i := range kids {
				kids[i] = havocLike(v.kids[i], nil, why)
			}
			n := *v
			n.kids = kids
			return mk(n)
		}
		if v.s == "pos" {
			return vOpq("pos", nil, name, vConst(0, 64))
		}
	}
	if t != nil {
		return fresh(t, name)
	}
	unsup("unknown value for %s", v.short(2))
	return nil
}

// refine updates the class of a carried value given its value at the end of the iteration.
// cur is the value assumed at its start. It returns the (possibly coarser) class and
// whether it changed.
func (lc *loopCtx) refine(c *cls, init, cur, next *V, t types.Type, s, sb *State) (*cls, bool) {
	ip := lc.ip
	g := sb.g
	hav := func(why string) (*cls, bool) {
		if os.Getenv("VERIF_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop havoc %s: init=%s cur=%s next=%s\n", why, init.short(3), cur.short(3), next.short(3))
		}
		return &cls{kind: cHavoc, hv: havocLike(init, t, "loop"), why: why}, true
	}
	next = narrow(next, g)
	switch c.kind {
	case cHavoc:
		return c, false
	case cInv:
		if next == init {
			return c, false
		}
		if d := newQuickDiffer(ip, s, sb); init.k != KSlice && d.diff(init, next, g) == bF {
			return c, false
		}
		if init.k == KSlice && next.k == KSlice && init.kids[0] == next.kids[0] && d0(ip, s, sb, init, next, g) {
			return c, false
		}
		if init.k == KOpq && init.s == "pos" {
			return &cls{kind: cPos}, true
		}
		if init.k == KSlice || init.k == KNil && t != nil && isSliceType(t) {
			if next.k != KSlice {
				return hav("slice")
			}
			is := ip.sliceSeq(s, init, g)
			mu := lc.newMu(nil)
			et := seqElemType(t)
			if et == nil {
				return hav("slice type")
			}
			return &cls{kind: cSlice, mu: vSym(mu, symLen(mu), et), init: is}, true
		}
		if init.k == KUnion || init.k == KNil {
			return hav("alternatives")
		}
		if next.k != init.k {
			return hav("shape")
		}
		switch init.k {
		case KInt:
			for _, x := range []int64{1, -1} {
				if st := vConst(x, len(init.bits)); len(next.bits) == len(init.bits) && iAdd(init, st) == next {
					return &cls{kind: cInd, step: st}, true
				}
			}
			dd := newDeps()
			dd.addV(next)
			dd.addV(init)
			if len(dd.syms) > 3 && !init.isConst() {
				return hav("integer")
			}
			step := iSub(next, init)
			if x, ok := constUnder(step, g); ok && x != 0 {
				return &cls{kind: cInd, step: vConst(x, len(init.bits))}, true
			}
			return hav("integer")
		case KStr:
			k, _ := lc.refine(&cls{}, init.kids[0], cur.kids[0], next.kids[0], types.Typ[types.String], s, sb)
			return &cls{kind: cParts, kids: []*cls{k}}, true
		case KSeq:
			et := seqElemType(t)
			if et == nil {
				et = types.Typ[types.Uint8]
			}
			mu := lc.newMu(nil)
			if sameUpd(init, next) {
				k, _ := lc.refine(&cls{}, init.kids[0].kids[2], cur.kids[0].kids[2], next.kids[0].kids[2], et, s, sb)
				return &cls{kind: cAt, kids: []*cls{k}}, true
			}
			if isUpdOf(init, next) {
				n := seqLen(init)
				return &cls{kind: cUpd, mu: vSym(mu, n, et), init: init, own: true}, true
			}
			return &cls{kind: cSeq, mu: vSym(mu, symLen(mu), et), init: init}, true
		case KStruct, KTuple:
			ks := make([]*cls, len(init.kids))
			for i := range ks {
				ks[i], _ = lc.refine(&cls{}, init.kids[i], cur.kids[i], next.kids[i], partType(t, init, i), s, sb)
			}
			return &cls{kind: cParts, kids: ks}, true
		case KOpq:
			if mergeOpq[init.s] && len(init.kids) == len(next.kids) && init.s == next.s {
				ks := make([]*cls, len(init.kids))
				for i := range ks {
					ks[i], _ = lc.refine(&cls{}, init.kids[i], cur.kids[i], next.kids[i], nil, s, sb)
				}
				return &cls{kind: cParts, kids: ks}, true
			}
		}
		return hav("value")
	case cParts:
		if next.k != cur.k || len(next.kids) != len(cur.kids) {
			return hav("parts")
		}
		ch := false
		ks := make([]*cls, len(c.kids))
		for i := range ks {
			var k bool
			ks[i], k = lc.refine(c.kids[i], init.kids[i], cur.kids[i], next.kids[i], partType(t, init, i), s, sb)
			ch = ch || k
		}
		if !ch {
			return c, false
		}
		return &cls{kind: cParts, kids: ks}, true
	case cAt:
		if !sameUpd(cur, next) {
			return hav("stored element")
		}
		k, ch := lc.refine(c.kids[0], init.kids[0].kids[2], cur.kids[0].kids[2], next.kids[0].kids[2], seqElemType(t), s, sb)
		if !ch {
			return c, false
		}
		return &cls{kind: cAt, kids: []*cls{k}}, true
	case cInd:
		if next.k == KInt && implies(g, iEq(next, iAdd(cur, c.step))) {
			return c, false
		}
		return hav("induction")
	case cPos:
		if next.k == KOpq && next.s == "pos" {
			return c, false
		}
		if next.k == KUnion {
			for _, k := range next.kids {
				if k.k != KOpq || k.s != "pos" {
					return hav("position")
				}
			}
			return c, false
		}
		return hav("position")
	case cSeq, cSlice:
		if c.kind == cSlice {
			if next.k != KSlice {
				return hav("slice")
			}
			// elements stored in place through the assumed slice
			if next.kids[0] == cur.kids[0] && next == cur {
				nc := ip.objContent(sb, cur.kids[0].n)
				_ = nc
			}
			next = ip.sliceSeq(sb, next, g)
		}
		if next.k != KSeq || len(next.kids) == 0 {
			return hav("sequence")
		}
		f := next.kids[0]
		if f.k == KSegUpd || f.k != KSegSub || f.kids[0] != c.mu || !(f.kids[1].isConst() && allF(f.kids[1])) || f.kids[2] != c.mu.kids[1] {
			return hav("not an append: " + next.short(2))
		}
		tail := lc.freeze(seqOf(next.kids[1:]...), sb)
		d := newDeps()
		d.addV(tail)
		if d.opq[c.mu] {
			return hav("append depends on contents")
		}
		if c.tail == tail {
			return c, false
		}
		nc := *c
		nc.tail = tail
		// with a fixed number of elements per iteration the length is known
		if bl, ok := seqLen(tail).uconst(); ok && c.muN == nil && lc.obj != objOut {
			nc.muN = iAdd(seqLen(c.init), iMul(lc.it, vConstU(bl, 64)))
			nc.mu = vSym(c.mu.kids[0], nc.muN, c.mu.t)
			return &nc, true
		}
		if c.tail != nil && c.tail != tail {
			nc.why = "x"
			if c.why == "x" {
				return hav("unstable append")
			}
		}
		return &nc, true
	case cUpd:
		if c.own && !(next.k == KSeq && len(next.kids) == 1 && next.kids[0].k == KSegUpd && next.kids[0].kids[1] == lc.it) {
			nc := *c
			nc.own, nc.tail, nc.base = false, nil, nil
			if os.Getenv("VERIF_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "store not at the iteration's index: %s\n", next.short(4))
			}
			return &nc, true
		}
		if next.k != KSeq || len(next.kids) != 1 || next.kids[0].k != KSegUpd {
			return hav("store")
		}
		u := lc.freeze(next, sb).kids[0]
		b := u.kids[0]
		if b != cur {
			return hav("store base")
		}
		if c.tail == u.kids[2] && c.base == u.kids[1] {
			return c, false
		}
		nc := *c
		nc.tail, nc.base = u.kids[2], u.kids[1]
		if c.tail != nil {
			nc.why = "x"
			if c.why == "x" {
				return hav("unstable store")
			}
		}
		return &nc, true
	}
	return hav("?")
}

func d0(ip *Interp, s, sb *State, a, b *V, g B) bool {
	return newQuickDiffer(ip, s, sb).diff(vTuple(a.kids[1:]...), vTuple(b.kids[1:]...), g) == bF
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func sameUpd(a, b *V) bool {
	if a.k != KSeq || b.k != KSeq || len(a.kids) != 1 || len(b.kids) != 1 {
		return false
	}
	x, y := a.kids[0], b.kids[0]
	return x.k == KSegUpd && y.k == KSegUpd && x.kids[0] == y.kids[0] && x.kids[1] == y.kids[1]
}

func isUpdOf(init, next *V) bool {
	if len(next.kids) == 1 && next.kids[0].k == KSegUpd {
		return true
	}
	a, ok1 := explicit(init)
	b, ok2 := explicit(next)
	_ = a
	_ = b
	if ok1 && ok2 && len(a) == len(b) {
		return true
	}
	return false
}

// final adds to sub what a carried value becomes after n iterations.
var outCls *cls // class of the output, whose length nothing depends on

func (lc *loopCtx) final(c *cls, n *V, sub *substr) bool {
	switch c.kind {
	case cParts, cAt:
		for _, k := range c.kids {
			if !lc.final(k, n, sub) {
				return false
			}
		}
	case cSeq, cSlice:
		if c.tail == nil {
			return false
		}
		fin := seqOf(c.init, segLoop(n, lc.it, c.tail))
		sub.seqs[c.mu] = fin
		if c.muN == nil && c != outCls {
			sub.setInt(c.mu.kids[1], seqLen(fin))
		}
	case cUpd:
		if c.tail == nil || !c.base.isSym(lc.it) {
			return false
		}
		// the element at the iteration's own index still has its old contents
		in := newSubst()
		in.seqs[c.mu] = c.init
		t := in.v(c.tail)
		total := seqLen(c.init)
		rest := seqEmpty
		if total != n {
			rest = seqSlice(c.init, n, total, bT)
		}
		sub.seqs[c.mu] = seqOf(segLoop(n, lc.it, seqOf(segE(t))), rest)
	}
	return true
}

func (v *V) isSym(it *V) bool { return v == it }

// summarise widens the loop to a fixpoint and recognises its trip count.
func (ip *Interp) summarise(fr *frame, l *loopInfo, entries []edge) (res []edge, trips *V, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if u, isU := e.(unsupported); isU {
				if os.Getenv("VERIF_LOOP") != "" {
					fmt.Fprintln(os.Stderr, "loop:", u.what, string(debug.Stack()))
				}
				ok = false
				return
			}
			panic(e)
		}
	}()
	it := itVar(ip.loopD)
	ip.loopD++
	defer func() { ip.loopD-- }()
	lc := &loopCtx{ip: ip, it: it}
	h0 := ip.mergeEdges(fr, l.header, entries)
	if p, has := h0.mem[objPos]; has && ip.eofAtoms {
		h0.setMem(objPos, narrow(p, h0.g))
	}
	lc.h0 = h0
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, isPhi := in.(*ssa.Phi)
		if !isPhi {
			break
		}
		phis = append(phis, ph)
	}
	nObs, nRets, nAl, nCmps := len(ip.obs), len(fr.rets), len(ip.allocs), len(ip.cmps)
	pc := map[*ssa.Phi]*cls{}
	for _, ph := range phis {
		pc[ph] = &cls{}
	}
	mc := map[int]*cls{}
	var s, sb *State
	var back, exits []edge
	stable := false
	for round := 0; round < 12; round++ {
		ip.obs, fr.rets, ip.allocs = ip.obs[:nObs], fr.rets[:nRets], ip.allocs[:nAl]
		ip.cmps = ip.cmps[:nCmps]
		s = h0.clone()
		for _, ph := range phis {
			s.setEnv(ph, lc.assume(pc[ph], h0.env[ph], ph.Type(), s))
		}
		var objs []int
		for o := range mc {
			objs = append(objs, o)
		}
		sort.Ints(objs)
		for _, o := range objs {
			s.setMem(o, lc.assume(mc[o], ip.objContent(h0, o), objTypes[o], s))
		}
		start := s.clone()
		ip.recCmp++
		back, exits = ip.runRegion(fr, l, []edge{{nil, l.header, s.clone()}})
		ip.recCmp--
		if len(back) == 0 {
			return nil, nil, false
		}
		sb = ip.mergeEdges(fr, l.header, back)
		changed := false
		for _, ph := range phis {
			n, ch := lc.refine(pc[ph], h0.env[ph], start.env[ph], sb.env[ph], ph.Type(), start, sb)
			pc[ph] = n
			changed = changed || ch
		}
		objs = objs[:0]
		for o := range sb.mem {
			objs = append(objs, o)
		}
		sort.Ints(objs)
		for _, o := range objs {
			if _, existed := h0.mem[o]; !existed && ip.implicit(o) == nil {
				continue // allocated in the loop
			}
			if lc.perIteration(o) {
				continue
			}
			nv := sb.mem[o]
			cv := ip.objContent(start, o)
			if mc[o] == nil {
				if nv == cv {
					continue
				}
				mc[o] = &cls{}
			}
			lc.obj = o
			n, ch := lc.refine(mc[o], ip.objContent(h0, o), cv, nv, objTypes[o], start, sb)
			lc.obj = 0
			mc[o] = n
			changed = changed || ch
		}
		if !changed {
			stable = true
			s = start
			break
		}
	}
	if !stable {
		return nil, nil, false
	}
	// trip count
	var cands []*V
	seen := map[*V]bool{}
	addCand := func(v *V) {
		if len(v.bits) < 64 {
			v = iResize(v, 64, false)
		}
		for _, c := range []*V{v, iAdd(v, vConst(1, 64)), iSub(v, vConst(1, 64))} {
			if seen[c] {
				continue
			}
			seen[c] = true
			d := newDeps()
			d.addV(c)
			if dependsOnIt(d, it) || d.imprecise() {
				if os.Getenv("VERIF_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "rejected trip count (it %v imprecise %v) %s\n", dependsOnIt(d, it), d.imprecise(), c.short(12))
				}
				continue
			}
			cands = append(cands, c)
		}
	}
	for _, c := range ip.cmps[nCmps:] {
		addCand(c.a)
		addCand(c.b)
	}
	for _, ph := range phis {
		if h0.env[ph].k == KInt {
			addCand(h0.env[ph])
		}
	}
	var n *V
	var normal, early []edge
	for _, c := range cands {
		lt := iSlt(it, c)
		// iterations come in order and the loop ends at iteration c, or at once if c is
		// negative: later iterations are not reached
		reach := or(not(iSlt(c, it)), iEq(it, vConst(0, 64)))
		if !implies(and(sb.g, reach), lt) {
			continue
		}
		normal, early = nil, nil
		okC := true
		ng := bF
		for _, e := range exits {
			switch {
			case implies(and(e.st.g, reach), not(lt)):
				normal = append(normal, e)
				ng = or(ng, e.st.g)
			case implies(and(e.st.g, reach), lt):
				early = append(early, e)
			default:
				okC = false
			}
		}
		for _, r := range fr.rets[nRets:] {
			if !implies(and(r.st.g, reach), lt) {
				okC = false
			}
		}
		if okC && len(normal) > 0 && implies(and(and(s.g, reach), not(lt)), ng) {
			n = c
			break
		}
	}
	if n == nil {
		if os.Getenv("VERIF_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop at %s: no trip count among %d candidates\n", ip.p.instrPos(l.header.Instrs[0]), len(cands))
			for _, c := range cands {
				fmt.Fprintln(os.Stderr, "   ", c.short(3))
			}
		}
		if ip.widen {
			return ip.widened(fr, h0, it, exits, nRets), havocInt(64, "trips"), true
		}
		return nil, nil, false
	}
	neg := n.bits[63]
	if and(neg, h0.g) != bF {
		n = iIte(neg, vConst(0, 64), n)
	} else {
		n = iIte(restrict(neg, h0.g), vConst(0, 64), n)
	}
	if c, isC := constUnder(n, h0.g); isC {
		n = vConst(c, 64)
	}
	// early exits
	eg := bF
	for _, e := range early {
		eg = or(eg, e.st.g)
	}
	for _, r := range fr.rets[nRets:] {
		eg = or(eg, r.st.g)
	}
	okB := bT
	var egV *V
	if eg != bF {
		egV = substIt(vBool(restrict(eg, s.g)), it, itVar(boundDepth+ip.loopD-1))
		start := vNil
		if p, has := h0.mem[objPos]; has {
			start = p
		}
		okB = or(atom("loopok", n, egV, start), iEq(n, vConst(0, 64)))
	}
	ip.lossy = false
	var isLossy func(c *cls) bool
	isLossy = func(c *cls) bool {
		if c.kind == cHavoc {
			return true
		}
		for _, k := range c.kids {
			if k != nil && isLossy(k) {
				return true
			}
		}
		return false
	}
	for _, ph := range phis {
		ip.lossy = ip.lossy || isLossy(pc[ph])
	}
	for _, c := range mc {
		ip.lossy = ip.lossy || isLossy(c)
	}
	sub := newSubst()
	sub.setInt(it, n)
	for _, ph := range phis {
		if !lc.final(pc[ph], n, sub) {
			return nil, nil, false
		}
	}
	outCls = mc[objOut]
	for _, c := range mc {
		if !lc.final(c, n, sub) {
			return nil, nil, false
		}
	}
	// position after the loop depends on what each iteration reads
	if c := mc[objPos]; c != nil && c.kind == cPos {
		p0 := ip.objContent(h0, objPos)
		end := sb.mem[objPos]
		sub.vals[vOpq("lseg", nil, p0, it)] = vOpq("lseg", nil, p0, n, substIt(end, it, itVar(boundDepth+ip.loopD-1)))
	}
	// a loop body's own positions stay inside the loop segments: shield them
	apply := func(st *State, sb *substr, g B) *State {
		o := &State{mem: map[int]*V{}, env: map[ssa.Value]*V{}, memOwned: true, envOwned: true}
		o.g = and(sb.b(st.g), g)
		for k, v := range st.mem {
			if h, same := h0.mem[k]; same && h == v {
				o.mem[k] = v
				continue
			}
			o.mem[k] = sb.v(v)
		}
		for k, v := range st.env {
			o.env[k] = sb.v(v)
		}
		return o
	}
	for _, e := range normal {
		res = append(res, edge{e.from, e.to, apply(e.st, sub, and(h0.g, okB))})
	}
	if eg != bF {
		fsub := newSubst()
		fi := iResize(symInt(itBits, "failit", egV, n), 64, false)
		fsub.setInt(it, fi)
		for _, e := range early {
			res = append(res, edge{e.from, e.to, apply(e.st, fsub, and(h0.g, not(okB)))})
		}
		for i := nRets; i < len(fr.rets); i++ {
			r := &fr.rets[i]
			r.st = apply(r.st, fsub, and(h0.g, not(okB)))
			if r.val != nil {
				r.val = fsub.v(r.val)
			}
		}
	}
	return res, n, true
}

// widened leaves a loop through any of its exits after any number of iterations.
func (ip *Interp) widened(fr *frame, h0 *State, it *V, exits []edge, nRets int) (res []edge) {
	left := h0.g
	pick := func(last bool) (*substr, B) {
		sub := newSubst()
		sub.setInt(it, iResize(havocInt(itBits, "iteration"), 64, false))
		g := left
		if !last {
			g = and(g, havocBool("exit"))
		}
		left = and(left, not(g))
		return sub, g
	}
	move := func(st *State, sub *substr, g B) *State {
		o := &State{mem: map[int]*V{}, env: map[ssa.Value]*V{}, memOwned: true, envOwned: true}
		o.g = and(sub.b(st.g), g)
		for k, v := range st.mem {
			o.mem[k] = sub.v(v)
		}
		for k, v := range st.env {
			o.env[k] = sub.v(v)
		}
		return o
	}
	n := len(exits) + len(fr.rets) - nRets
	for _, e := range exits {
		n--
		sub, g := pick(n == 0)
		res = append(res, edge{e.from, e.to, move(e.st, sub, g)})
	}
	for i := nRets; i < len(fr.rets); i++ {
		r := &fr.rets[i]
		n--
		sub, g := pick(n == 0)
		r.st = move(r.st, sub, g)
		if r.val != nil {
			r.val = sub.v(r.val)
		}
	}
	return res
}

func dependsOnIt(d *depSet, it *V) bool {
	s, _ := levelSym(bd.nodes[it.bits[0]].level)
	return d.syms[s]
}
