package main

import (
	"go/types"
	"sort"
)

// ---- fresh symbolic values

func intWidth(t types.Type) (w int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func floatWidth(t types.Type) int {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0
	}
	switch b.Kind() {
	case types.Float32:
		return 32
	case types.Float64, types.UntypedFloat:
		return 64
	}
	return 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

const lenBits = 31 // lengths of caller-supplied strings and slices are below 2^31

func leafBase(name *V, w int) int {
	if w == 8 && name.k == KOpq && name.s == "elem" {
		if x, ok := name.kids[1].uconst(); ok && x < 4096 {
			return int(x) * 8
		}
		// n+c: like the elements they are likely to be compared with
		if i := name.kids[1]; i.k == KInt && len(i.bits) == 64 {
			return 8*zeroAt(i.bits[0]) + 16*zeroAt(i.bits[1])
		}
	}
	return 0
}

// zeroAt is the value of a function where all of its inputs are zero.
func zeroAt(b B) int {
	for b > bT {
		b = bd.nodes[b].lo
	}
	return int(b)
}

func symLen(name *V) *V {
	return iResize(symInt(lenBits, "len", name), 64, false)
}

func vSym(name, n *V, elem types.Type) *V {
	return mk(V{k: KSym, kids: []*V{name, n}, t: elem})
}

var symObjs = map[*V]int{}   // object of a symbolic pointer or slice, by name
var backing = map[int]bool{} // objects that are the elements of a symbolic slice
var objTypes = map[int]types.Type{}
var objName = map[int]*V{} // lazily materialised symbolic objects
var nextObj = 100

func newObjID(t types.Type) int {
	nextObj++
	objTypes[nextObj] = t
	return nextObj
}

// fresh makes a symbolic value of type t with the given name.
func fresh(t types.Type, name *V) *V {
	if w, _, ok := intWidth(t); ok {
		return symIntB(w, leafBase(name, w), "v", name)
	}
	if w := floatWidth(t); w > 0 {
		return symInt(w, "v", name)
	}
	if isBool(t) {
		return vBool(atom("v", name))
	}
	if qualName(t) == "time.Time" {
		return vTime(vOpq("instantof", nil, name), atom("isutc", name))
	}
	if qualName(t) == "math/big.Int" {
		return bigVal(symInt(numBits, "v", name))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			n := symLen(name)
			return vStrSeq(seqOf(segSub(vSym(name, n, types.Typ[types.Uint8]), vConst(0, 64), n)))
		}
		if u.Kind() == types.UnsafePointer {
			return vOpq("unsafe", t, name)
		}
	case *types.Struct:
		f := make([]*V, u.NumFields())
		for i := range f {
			f[i] = fresh(u.Field(i).Type(), vOpq("field", nil, name, vFld(i)))
		}
		return vStruct(f...)
	case *types.Array:
		s := vSym(name, vConst(u.Len(), 64), u.Elem())
		return seqOf(segSub(s, vConst(0, 64), vConst(u.Len(), 64)))
	case *types.Slice:
		n := symLen(name)
		id, ok := symObjs[name]
		if !ok {
			id = newObjID(t)
			symObjs[name] = id
			objName[id] = name
			backing[id] = true
		}
		return vSlice(vPtr(id), vConst(0, 64), n, n)
	case *types.Pointer:
		id, ok := symObjs[name]
		if !ok {
			id = newObjID(u.Elem())
			symObjs[name] = id
			objName[id] = name
		}
		isnil := atom("isnil", name)
		return mkUnion([]B{isnil, not(isnil)}, []*V{vNil, vPtr(id)})
	case *types.Interface:
		return vOpq("any", t, name)
	case *types.Map:
		return vOpq("map", t, name)
	case *types.Signature:
		return vOpq("func", t, name)
	}
	return vOpq("val", t, name)
}

// symContent is the initial content of a lazily materialised symbolic object.
func symContent(id int) *V {
	name := objName[id]
	t := objTypes[id]
	if s, ok := t.Underlying().(*types.Slice); ok && backing[id] {
		n := symLen(name)
		return seqOf(segSub(vSym(name, n, s.Elem()), vConst(0, 64), n))
	}
	return fresh(t, vOpq("deref", nil, name))
}

func zero(t types.Type) *V {
	if z := modelZero(t); z != nil {
		return z
	}
	if w, _, ok := intWidth(t); ok {
		return vConst(0, w)
	}
	if w := floatWidth(t); w > 0 {
		return vConst(0, w)
	}
	if isBool(t) {
		return vFals
	}
	if isString(t) {
		return vStr("")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]*V, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return vStruct(f...)
	case *types.Array:
		z := zero(u.Elem())
		return seqOf(segFill(vConst(u.Len(), 64), z))
	case *types.Tuple:
		f := make([]*V, u.Len())
		for i := range f {
			f[i] = zero(u.At(i).Type())
		}
		return vTuple(f...)
	}
	return vNil
}

// ---- sequences

const expandLimit = 600

func segE(e ...*V) *V { return mk(V{k: KSegE, kids: e}) }
func segSub(sym, lo, n *V) *V {
	return mk(V{k: KSegSub, kids: []*V{sym, lo, n}})
}
func segFill(n, e *V) *V { return mk(V{k: KSegFill, kids: []*V{n, e}}) }
func segVar(v *V) *V     { return mk(V{k: KSegVar, kids: []*V{v}}) }
func segLoop(n, it, body *V) *V {
	return mk(V{k: KSegLoop, kids: []*V{n, it, body}})
}
func segIte(g B, a, b *V) *V {
	return mk(V{k: KSegIte, gs: []B{g}, kids: []*V{a, b}})
}

func seqBytes(b []byte) *V {
	e := make([]*V, len(b))
	for i, c := range b {
		e[i] = vConst(int64(c), 8)
	}
	return seqOf(segE(e...))
}

var seqEmpty = mk(V{k: KSeq})

// seqOf concatenates segments and sequences into normal form.
func seqOf(parts ...*V) *V {
	var out []*V
	var elems []*V
	flush := func() {
		if len(elems) > 0 {
			out = append(out, segE(elems...))
			elems = nil
		}
	}
	var add func(p *V)
	add = func(p *V) {
		switch p.k {
		case KSeq:
			for _, s := range p.kids {
				add(s)
			}
		case KSegE:
			elems = append(elems, p.kids...)
		case KSegFill:
			if n, ok := p.kids[0].uconst(); ok && n <= expandLimit {
				for i := uint64(0); i < n; i++ {
					elems = append(elems, p.kids[1])
				}
				return
			}
			flush()
			out = append(out, p)
		case KSegSub:
			if n, ok := p.kids[2].uconst(); ok && n <= expandLimit {
				for i := uint64(0); i < n; i++ {
					elems = append(elems, symElem(p.kids[0], iAdd(p.kids[1], vConst(int64(i), 64)), bT))
				}
				return
			}
			flush()
			if len(out) > 0 {
				q := out[len(out)-1]
				if q.k == KSegSub && q.kids[0] == p.kids[0] && iAdd(q.kids[1], q.kids[2]) == p.kids[1] {
					out[len(out)-1] = segSub(p.kids[0], q.kids[1], iAdd(q.kids[2], p.kids[2]))
					return
				}
			}
			out = append(out, p)
		case KSegIte:
			switch {
			case p.gs[0] == bT:
				add(p.kids[0])
			case p.gs[0] == bF:
				add(p.kids[1])
			case p.kids[0] == p.kids[1]:
				add(p.kids[0])
			default:
				flush()
				out = append(out, p)
			}
		case KSegLoop:
			if n, ok := p.kids[0].uconst(); ok && n == 0 {
				return
			}
			flush()
			out = append(out, p)
		case KSegVar:
			if c, ok := p.kids[0].uconst(); ok {
				for c >= 0x80 {
					elems = append(elems, vConstU(c&0x7f|0x80, 8))
					c >>= 7
				}
				elems = append(elems, vConstU(c, 8))
				return
			}
			flush()
			out = append(out, p)
		default:
			flush()
			out = append(out, p)
		}
	}
	for _, p := range parts {
		add(p)
	}
	flush()
	return mk(V{k: KSeq, kids: out})
}

func symElem(sym, idx *V, g B) *V {
	if w, _, ok := intWidth(sym.t); ok && w == 8 && !idx.isConst() {
		cs, few := possible(idx, bT, 4)
		if !few && g != bT {
			cs, few = possible(idx, g, 8)
		}
		if few && len(cs) > 0 {
			r := symElem1(sym, vConst(cs[0], 64))
			for _, c := range cs[1:] {
				r = vIte(iEq(idx, vConst(c, 64)), symElem1(sym, vConst(c, 64)), r)
			}
			return r
		}
		for _, b := range idx.bits {
			if onIteration(b) {
				return symElem1(sym, idx)
			}
		}
		return congruent("elem", []*V{sym, idx}, func() *V { return symElem1(sym, idx) })
	}
	return symElem1(sym, idx)
}

func symElem1(sym, idx *V) *V {
	return fresh(sym.t, vOpq("elem", nil, sym.kids[0], idx))
}

var lenMemo = map[*V]*V{}

func segLen(s *V) *V {
	if n, ok := lenMemo[s]; ok {
		return n
	}
	n := segLen1(s)
	lenMemo[s] = n
	return n
}

func segLen1(s *V) *V {
	switch s.k {
	case KSegE:
		return vConst(int64(len(s.kids)), 64)
	case KSegSub:
		return s.kids[2]
	case KSegFill:
		return s.kids[0]
	case KSegIte:
		return iIte(s.gs[0], seqLen(s.kids[0]), seqLen(s.kids[1]))
	case KSegVar:
		v := s.kids[0]
		n := vConst(1, 64)
		for i := 1; i < 10 && 7*i < len(v.bits); i++ {
			n = iIte(not(iUlt(v, vConstU(1<<uint(7*i), len(v.bits)))), vConst(int64(i+1), 64), n)
		}
		return n
	case KSegUpd:
		return seqLen(s.kids[0])
	case KSegLoop:
		bl := seqLen(s.kids[2])
		if c, ok := bl.uconst(); ok {
			return iMul(s.kids[0], vConstU(c, 64))
		}
		return symInt(64, "looplen", s)
	}
	unsup("length of %s", s.short(2))
	return nil
}

func seqLen(s *V) *V {
	if n, ok := lenMemo[s]; ok {
		return n
	}
	n := seqLen1(s)
	lenMemo[s] = n
	return n
}

func seqLen1(s *V) *V {
	n := vConst(0, 64)
	vague := 0
	for _, k := range s.kids {
		if k.k != KSegE && !segLen(k).isConst() {
			vague++
		}
	}
	if vague > 3 {
		// too many independent terms: the length is only known to itself
		return iResize(vInt(symBits(symbol("sumlen", []*V{s}, 48, 0, true))), 64, false)
	}
	for _, k := range s.kids {
		n = iAdd(n, segLen(k))
	}
	return n
}

func symBits(s *symInfo) []B {
	b := make([]B, s.width)
	for i := range b {
		b[i] = s.bit(i)
	}
	return b
}

// explicit returns the elements of a sequence of fixed length.
func explicit(s *V) ([]*V, bool) {
	if len(s.kids) == 0 {
		return nil, true
	}
	if len(s.kids) == 1 && s.kids[0].k == KSegE {
		return s.kids[0].kids, true
	}
	return nil, false
}

func constStr(v *V) (string, bool) {
	e, ok := explicit(v.kids[0])
	if !ok {
		return "", false
	}
	b := make([]byte, len(e))
	for i, x := range e {
		c, ok := x.uconst()
		if !ok {
			return "", false
		}
		b[i] = byte(c)
	}
	return string(b), true
}

// seqGet reads element idx; g is the guard under which the read happens (idx in range).
func seqGet(s, idx *V, g B) *V {
	if c, ok := constUnder(idx, g); ok {
		idx = vConst(c, 64)
	}
	return seqGetSegs(s.kids, idx, g)
}

func seqGetSegs(segs []*V, idx *V, g B) *V {
	if len(segs) == 0 {
		unsup("element of an empty sequence")
	}
	s := segs[0]
	n := segLen(s)
	in := bT
	if len(segs) > 1 {
		in = iUlt(idx, n)
	}
	if and(in, g) == bF {
		return seqGetSegs(segs[1:], iSub(idx, n), g)
	}
	first := segGet(s, idx, and(g, in))
	if len(segs) == 1 || implies(g, in) {
		return first
	}
	return vIte(in, first, seqGetSegs(segs[1:], iSub(idx, n), and(g, not(in))))
}

func segGet(s, idx *V, g B) *V {
	if c, ok := constUnder(idx, g); ok {
		idx = vConst(c, 64)
	}
	switch s.k {
	case KSegE:
		if c, ok := idx.uconst(); ok {
			if c < uint64(len(s.kids)) {
				return s.kids[c]
			}
			unsup("index %d out of %d", c, len(s.kids))
		}
		if len(s.kids) > 1024 {
			unsup("symbolic index into %d elements", len(s.kids))
		}
		return muxElems(s.kids, idx)
	case KSegSub:
		return symElem(s.kids[0], iAdd(s.kids[1], idx), g)
	case KSegFill:
		return s.kids[1]
	case KSegIte:
		return vIte(s.gs[0], seqGetOr(s.kids[0], idx, and(g, s.gs[0])), seqGetOr(s.kids[1], idx, and(g, not(s.gs[0]))))
	case KSegLoop:
		bl, ok := seqLen(s.kids[2]).uconst()
		if ok && bl == 1 {
			return seqGet(substIt(s.kids[2], s.kids[1], idx), vConst(0, 64), g)
		}
	case KSegUpd:
		eq := iEq(s.kids[1], idx)
		if implies(g, eq) {
			return s.kids[2]
		}
		if and(g, eq) == bF {
			return seqGet(s.kids[0], idx, g)
		}
		return vIte(eq, s.kids[2], seqGet(s.kids[0], idx, g))
	case KSegVar:
		e := leb128(s.kids[0])
		return muxElems(e, idx)
	}
	unsup("element of %s", s.short(2))
	return nil
}

func seqGetOr(s, idx *V, g B) *V {
	if g == bF {
		// unreachable alternative, any value of the right shape will do
		if e, ok := explicit(s); ok && len(e) > 0 {
			return e[0]
		}
		return vNil
	}
	if n := seqLen(s); implies(g, not(iUlt(idx, n))) {
		return vNil
	}
	return seqGet(s, idx, g)
}

func muxElems(e []*V, idx *V) *V {
	// binary tree over the low index bits
	bits := 0
	for 1<<uint(bits) < len(e) {
		bits++
	}
	var rec func(lo, b int) *V
	rec = func(lo, b int) *V {
		if lo >= len(e) {
			return nil
		}
		if b == 0 {
			return e[lo]
		}
		l := rec(lo, b-1)
		h := rec(lo+1<<uint(b-1), b-1)
		if h == nil {
			return l
		}
		return vIte(idx.bits[b-1], h, l)
	}
	return rec(0, bits)
}

// leb128 lists up to ten bytes of the LEB128 form of v, the last one without continuation bit.
func leb128(v *V) []*V {
	var out []*V
	w := len(v.bits)
	for i := 0; 7*i < w; i++ {
		rest := iShrC(v, 7*i, false)
		more := bF
		if 7*(i+1) < w {
			more = not(iUlt(rest, vConst(0x80, w)))
		}
		b := iResize(rest, 8, false)
		bits := append([]B{}, b.bits...)
		bits[7] = more
		out = append(out, vInt(bits))
		if more == bF {
			break
		}
	}
	return out
}

// lebSeq is the explicit LEB128 sequence of v: one alternative per length.
func lebSeq(v *V) *V {
	e := leb128(v)
	n := segLen(segVar(v))
	return seqSlice(seqOf(segE(e...)), vConst(0, 64), n, bT)
}

// seqSlice is the part [lo, hi) of s, with g the guard under which it is taken.
func seqSlice(s, lo, hi *V, g B) *V {
	if c, ok := constUnder(lo, g); ok {
		lo = vConst(c, 64)
	}
	if c, ok := constUnder(hi, g); ok {
		hi = vConst(c, 64)
	}
	total := seqLen(s)
	if lc, ok := lo.uconst(); ok && lc == 0 && (hi == total || implies(g, iEq(hi, total))) {
		return s
	}
	e, isExp := explicit(s)
	if isExp {
		lc, lok := lo.uconst()
		hc, hok := hi.uconst()
		if lok && hok {
			if lc > hc || hc > uint64(len(e)) {
				unsup("slice bounds [%d:%d] of %d", lc, hc, len(e))
			}
			return seqOf(segE(e[lc:hc]...))
		}
		los, ok1 := possible(lo, g, 300)
		his, ok2 := possible(hi, g, 300)
		if !ok1 || !ok2 || len(los)*len(his) > 2000 {
			unsup("too many slice bounds")
		}
		var r *V
		for _, l := range los {
			for _, h := range his {
				if l > h || l < 0 || h > int64(len(e)) {
					continue
				}
				c := and(iEq(lo, vConst(l, 64)), iEq(hi, vConst(h, 64)))
				if and(c, g) == bF {
					continue
				}
				p := seqOf(segE(e[l:h]...))
				if r == nil {
					r = p
				} else {
					r = seqIte(restrict(c, g), p, r)
				}
			}
		}
		if r == nil {
			unsup("empty slice range")
		}
		return r
	}
	// drop whole segments from the front
	segs := s.kids
	for len(segs) > 0 {
		n := segLen(segs[0])
		if implies(g, not(iUlt(lo, n))) {
			if len(segs) == 1 {
				return seqEmpty
			}
			lo, hi = iSub(lo, n), iSub(hi, n)
			segs = segs[1:]
			continue
		}
		break
	}
	var out []*V
	pos := vConst(0, 64)
	for i, sg := range segs {
		n := segLen(sg)
		end := iAdd(pos, n)
		// entirely before hi?
		if implies(g, not(iUlt(hi, end))) {
			if i == 0 && !(lo.isConst() && allF(lo)) {
				out = append(out, segPart(sg, lo, n, g))
			} else {
				out = append(out, sg)
			}
			pos = end
			continue
		}
		if implies(g, not(iUlt(pos, hi))) {
			break
		}
		// hi falls (possibly) within this segment; it must not reach beyond
		h := iSub(hi, pos)
		if !implies(g, not(iUlt(n, h))) {
			unsup("slice bound across segments of %s", s.short(3))
		}
		l := vConst(0, 64)
		if i == 0 {
			l = lo
		}
		out = append(out, segPart(sg, l, h, g))
		break
	}
	return seqOf(out...)
}

func allF(v *V) bool {
	for _, b := range v.bits {
		if b != bF {
			return false
		}
	}
	return true
}

func segPart(sg, lo, hi *V, g B) *V {
	if c, ok := constUnder(lo, g); ok {
		lo = vConst(c, 64)
	}
	if c, ok := constUnder(hi, g); ok {
		hi = vConst(c, 64)
	}
	switch sg.k {
	case KSegE:
		return seqSlice(seqOf(sg), lo, hi, g)
	case KSegSub:
		n := iSub(hi, lo)
		if c, ok := constUnder(n, g); ok {
			n = vConst(c, 64)
		}
		return segSub(sg.kids[0], iAdd(sg.kids[1], lo), n)
	case KSegFill:
		return segFill(iSub(hi, lo), sg.kids[1])
	case KSegIte:
		a, b := and(g, sg.gs[0]), and(g, not(sg.gs[0]))
		switch {
		case a == bF:
			return seqSlice(sg.kids[1], lo, hi, b)
		case b == bF:
			return seqSlice(sg.kids[0], lo, hi, a)
		}
		return seqIte(sg.gs[0], seqSlice(sg.kids[0], lo, hi, a), seqSlice(sg.kids[1], lo, hi, b))
	case KSegLoop:
		if bl, ok := seqLen(sg.kids[2]).uconst(); ok && bl == 1 && lo.isConst() && allF(lo) {
			return segLoop(hi, sg.kids[1], sg.kids[2])
		}
	case KSegVar:
		return seqSlice(seqOf(segE(leb128(sg.kids[0])...)), lo, hi, g)
	}
	unsup("part of %s", sg.short(2))
	return nil
}

// seqSet replaces element idx.
func seqSet(s, idx, val *V, g B) *V {
	if c, ok := constUnder(idx, g); ok {
		idx = vConst(c, 64)
	}
	if len(s.kids) == 1 && s.kids[0].k == KSegUpd && s.kids[0].kids[1] == idx {
		s = s.kids[0].kids[0] // the earlier store is overwritten
	}
	segs := append([]*V{}, s.kids...)
	pos := vConst(0, 64)
	for i, sg := range segs {
		n := segLen(sg)
		rel := iSub(idx, pos)
		if implies(g, iUlt(rel, n)) {
			if sg.k == KSegE {
				if c, ok := rel.uconst(); ok {
					e := append([]*V{}, sg.kids...)
					e[c] = val
					segs[i] = segE(e...)
					return seqOf(segs...)
				}
				if len(sg.kids) <= 1024 {
					e := append([]*V{}, sg.kids...)
					for j := range e {
						e[j] = vIte(iEq(rel, vConst(int64(j), 64)), val, e[j])
					}
					segs[i] = segE(e...)
					return seqOf(segs...)
				}
			}
			break
		}
		if and(g, iUlt(rel, n)) != bF {
			break
		}
		pos = iAdd(pos, n)
	}
	return mk(V{k: KSeq, kids: []*V{mk(V{k: KSegUpd, kids: []*V{s, idx, val}})}})
}

// seqIte merges two sequences under a selector, keeping common prefixes and lengths.
func seqIte(g B, a, b *V) *V {
	if a == b || g == bT {
		return a
	}
	if g == bF {
		return b
	}
	ea, oka := explicit(a)
	eb, okb := explicit(b)
	if oka && okb && len(ea) == len(eb) {
		e := make([]*V, len(ea))
		for i := range e {
			e[i] = vIte(g, ea[i], eb[i])
		}
		return seqOf(segE(e...))
	}
	// single update of the other
	if len(a.kids) == 1 && len(b.kids) == 1 && a.kids[0].k == KSegUpd && b.kids[0].k == KSegUpd && a.kids[0].kids[1] == b.kids[0].kids[1] {
		x, y := a.kids[0].kids, b.kids[0].kids
		return mk(V{k: KSeq, kids: []*V{mk(V{k: KSegUpd, kids: []*V{seqIte(g, x[0], y[0]), x[1], vIte(g, x[2], y[2])}})}})
	}
	// a store on one side only
	if x := a; len(x.kids) == 1 && x.kids[0].k == KSegUpd && x.kids[0].kids[0] == b {
		u := x.kids[0].kids
		return mk(V{k: KSeq, kids: []*V{mk(V{k: KSegUpd, kids: []*V{b, u[1], vIte(g, u[2], seqGet(b, u[1], bT))}})}})
	}
	if x := b; len(x.kids) == 1 && x.kids[0].k == KSegUpd && x.kids[0].kids[0] == a {
		u := x.kids[0].kids
		return mk(V{k: KSeq, kids: []*V{mk(V{k: KSegUpd, kids: []*V{a, u[1], vIte(g, seqGet(a, u[1], bT), u[2])}})}})
	}
	// common prefix of segments
	i := 0
	for i < len(a.kids) && i < len(b.kids) && a.kids[i] == b.kids[i] {
		i++
	}
	prefix := append([]*V{}, a.kids[:i]...)
	ra, rb := append([]*V{}, a.kids[i:]...), append([]*V{}, b.kids[i:]...)
	if len(ra) > 0 && len(rb) > 0 && ra[0].k == KSegE && rb[0].k == KSegE {
		j := 0
		for j < len(ra[0].kids) && j < len(rb[0].kids) && ra[0].kids[j] == rb[0].kids[j] {
			j++
		}
		if j > 0 {
			prefix = append(prefix, segE(ra[0].kids[:j]...))
			ra[0], rb[0] = segE(ra[0].kids[j:]...), segE(rb[0].kids[j:]...)
		}
	}
	// same selector already there
	sa, sb := seqOf(ra...), seqOf(rb...)
	if len(sa.kids) == 1 && sa.kids[0].k == KSegIte && sa.kids[0].gs[0] == g {
		sa = sa.kids[0].kids[0]
	}
	if len(sb.kids) == 1 && sb.kids[0].k == KSegIte && sb.kids[0].gs[0] == g {
		sb = sb.kids[0].kids[1]
	}
	// parts of one symbol
	if len(sa.kids) == 1 && len(sb.kids) == 1 && sa.kids[0].k == KSegSub && sb.kids[0].k == KSegSub && sa.kids[0].kids[0] == sb.kids[0].kids[0] {
		x, y := sa.kids[0].kids, sb.kids[0].kids
		return seqOf(append(prefix, segSub(x[0], iIte(g, x[1], y[1]), iIte(g, x[2], y[2])))...)
	}
	return seqOf(append(prefix, segIte(g, sa, sb))...)
}

// ---- selection between arbitrary values

// endsAnywhere is set while the end of the input matters: a position then stands for the
// bytes left as well.
var endsAnywhere bool

func mkUnion(gs []B, vs []*V) *V {
	var g2 []B
	var v2 []*V
	var add func(g B, v *V)
	add = func(g B, v *V) {
		if g == bF {
			return
		}
		if v.k == KUnion {
			for i := range v.kids {
				add(and(g, v.gs[i]), v.kids[i])
			}
			return
		}
		for i, w := range v2 {
			if w == v {
				g2[i] = or(g2[i], g)
				return
			}
			if after, ok := skipsNothing(w, v, g2[i], g); ok {
				v2[i] = after
				g2[i] = or(g2[i], g)
				return
			}
			if mergeable(w, v) {
				v2[i] = vIte(restrict(g, or(g, g2[i])), v, w)
				g2[i] = or(g2[i], g)
				return
			}
		}
		g2 = append(g2, g)
		v2 = append(v2, v)
	}
	for i := range vs {
		add(gs[i], vs[i])
	}
	if len(v2) == 1 {
		return v2[0]
	}
	if len(v2) == 0 {
		return vNil
	}
	idx := make([]int, len(v2))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool { return v2[idx[i]].id < v2[idx[j]].id })
	g3, v3 := make([]B, len(v2)), make([]*V, len(v2))
	for i, j := range idx {
		g3[i], v3[i] = g2[j], v2[j]
	}
	return mk(V{k: KUnion, gs: g3, kids: v3})
}

// skipsNothing recognises two input positions of which one lies a symbolic number of bytes
// after the other, that number being zero wherever the other is meant.
func skipsNothing(a, b *V, ga, gb B) (*V, bool) {
	if endsAnywhere || a.k != KOpq || a.s != "pos" || b.k != KOpq || b.s != "pos" {
		return nil, false
	}
	try := func(p, q *V, gp B) bool { // q = p + n, n zero under gp
		sg := q.kids[0]
		return sg.k == KOpq && sg.s == "after" && sg.kids[0] == p.kids[0] && sg.kids[1] == p.kids[1] &&
			allF(q.kids[1]) && implies(gp, iEq(sg.kids[2], vConst(0, 64)))
	}
	if try(a, b, ga) {
		return b, true
	}
	if try(b, a, gb) {
		return a, true
	}
	return nil, false
}

func mergeable(a, b *V) bool {
	if a == b {
		return true
	}
	if a.k != b.k {
		return false
	}
	switch a.k {
	case KInt:
		return len(a.bits) == len(b.bits)
	case KBool, KStr, KSeq:
		return true
	case KStruct, KTuple:
		return len(a.kids) == len(b.kids)
	case KIface:
		return types.Identical(a.t, b.t)
	case KPtr:
		if a.n != b.n || len(a.kids) != len(b.kids) {
			return false
		}
		for i := range a.kids {
			if a.kids[i] != b.kids[i] && a.kids[i].k != KInt {
				return false
			}
		}
		return true
	case KSlice:
		return mergeable(a.kids[0], b.kids[0])
	case KFunc:
		return a.fn == b.fn && len(a.kids) == len(b.kids)
	case KOpq:
		if a.s == "pos" && b.s == "pos" && a.kids[0] != b.kids[0] {
			return false
		}
		return a.s == b.s && len(a.kids) == len(b.kids) && len(a.kids) > 0 && mergeOpq[a.s] && (a.t == b.t || (a.t != nil && b.t != nil && types.Identical(a.t, b.t)))
	case KMapC:
		return true
	}
	return false
}

// opaque tuples whose parts may be merged one by one
var mergeOpq = map[string]bool{"pos": true, "buf": true, "hash": true, "reader": true, "big": true}

func vIte(g B, a, b *V) *V {
	if a == b || g == bT {
		return a
	}
	if g == bF {
		return b
	}
	if a.k != KUnion && b.k != KUnion && mergeable(a, b) {
		switch a.k {
		case KInt:
			return iIte(g, a, b)
		case KBool:
			return vBool(ite(g, a.bits[0], b.bits[0]))
		case KSeq:
			return seqIte(g, a, b)
		case KMapC:
			return mapIte(g, a, b)
		}
		kids := make([]*V, len(a.kids))
		for i := range kids {
			kids[i] = vIte(g, a.kids[i], b.kids[i])
		}
		c := *a
		c.kids = kids
		return mk(c)
	}
	return mkUnion([]B{g, not(g)}, []*V{a, b})
}

func mapIte(g B, a, b *V) *V {
	var ents []*V
	find := func(m *V, k *V) *V {
		for _, e := range m.kids {
			if e.kids[0] == k {
				return e
			}
		}
		return nil
	}
	for _, e := range a.kids {
		f := find(b, e.kids[0])
		if f == nil {
			ents = append(ents, mk(V{k: KEntry, kids: e.kids, gs: []B{and(g, e.gs[0])}}))
		} else {
			ents = append(ents, mk(V{k: KEntry, kids: []*V{e.kids[0], vIte(g, e.kids[1], f.kids[1])}, gs: []B{ite(g, e.gs[0], f.gs[0])}}))
		}
	}
	for _, f := range b.kids {
		if find(a, f.kids[0]) == nil {
			ents = append(ents, mk(V{k: KEntry, kids: f.kids, gs: []B{and(not(g), f.gs[0])}}))
		}
	}
	return mkMapC(ents)
}

func mkMapC(ents []*V) *V {
	ents = append([]*V{}, ents...)
	sort.Slice(ents, func(i, j int) bool { return ents[i].kids[0].id < ents[j].kids[0].id })
	return mk(V{k: KMapC, kids: ents})
}

// alts lists the alternatives of v possible under g.
func alts(v *V, g B) (gs []B, vs []*V) {
	if v.k != KUnion {
		return []B{g}, []*V{v}
	}
	for i, k := range v.kids {
		if c := and(g, v.gs[i]); c != bF {
			gs = append(gs, c)
			vs = append(vs, k)
		}
	}
	return
}

// narrow drops the alternatives of v that g excludes.
func narrow(v *V, g B) *V {
	if v.k == KSeq {
		for i, k := range v.kids {
			if k.k == KSegIte && (implies(g, k.gs[0]) || implies(g, not(k.gs[0]))) {
				parts := append([]*V{}, v.kids[:i]...)
				for _, k := range v.kids[i:] {
					if k.k == KSegIte && implies(g, k.gs[0]) {
						k = narrow(k.kids[0], g)
					} else if k.k == KSegIte && implies(g, not(k.gs[0])) {
						k = narrow(k.kids[1], g)
					}
					parts = append(parts, k)
				}
				return seqOf(parts...)
			}
		}
	}
	if v.k != KUnion {
		return v
	}
	gs, vs := alts(v, g)
	if len(vs) == len(v.kids) {
		return v
	}
	if len(vs) == 1 {
		return vs[0]
	}
	if len(vs) == 0 {
		return v
	}
	for i := range gs {
		gs[i] = restrict(gs[i], g)
	}
	return mkUnion(gs, vs)
}

// ---- substitution

type substr struct {
	syms  map[*symInfo][]B // integer symbols to replace
	seqs  map[*V]*V        // KSym -> sequence
	vals  map[*V]*V        // opaque values
	memoV map[*V]*V
	memoB map[B]B
	memoS map[*symInfo][]B
}

func newSubst() *substr {
	return &substr{map[*symInfo][]B{}, map[*V]*V{}, map[*V]*V{}, map[*V]*V{}, map[B]B{}, map[*symInfo][]B{}}
}

func substIt(v, it, by *V) *V {
	s := newSubst()
	s.setInt(it, by)
	return s.v(v)
}

// setInt replaces the integer symbol it (all of whose non-constant bits belong to one symbol).
func (s *substr) setInt(it, by *V) {
	for i, b := range it.bits {
		if b > bT {
			si, k := levelSym(bd.nodes[b].level)
			if s.syms[si] == nil {
				s.syms[si] = make([]B, si.width)
			}
			s.syms[si][k] = by.bits[i]
		}
	}
}

func (s *substr) symBits(si *symInfo) []B {
	if r, ok := s.syms[si]; ok {
		return r
	}
	if r, ok := s.memoS[si]; ok {
		return r
	}
	args := make([]*V, len(si.args))
	same := true
	for i, a := range si.args {
		args[i] = s.v(a)
		if args[i] != a {
			same = false
		}
	}
	var r []B
	if !same {
		switch si.op {
		case "mul":
			r = iMul(args[0], args[1]).bits
		case "div", "sdiv":
			r = iDivRem(args[0], args[1], si.op[0] == 's', false).bits
		case "rem", "srem":
			r = iDivRem(args[0], args[1], si.op[0] == 's', true).bits
		case "v":
			r = symIntB(si.width, leafBase(args[0], si.width), "v", args[0]).bits
		case "looplen":
			if args[0].k == KSegLoop {
				r = segLen(args[0]).bits
			} else {
				r = seqLen(args[0]).bits
			}
		}
		if r == nil || len(r) < si.width {
			n := symbol(si.op, args, si.width, si.base, si.imprecise)
			r = make([]B, si.width)
			for i := range r {
				r[i] = n.bit(i)
			}
		}
	}
	s.memoS[si] = r
	return r
}

func (s *substr) b(f B) B {
	if f <= bT {
		return f
	}
	if r, ok := s.memoB[f]; ok {
		return r
	}
	n := bd.nodes[f]
	si, k := levelSym(n.level)
	lo, hi := s.b(n.lo), s.b(n.hi)
	var v B
	if r := s.symBits(si); r != nil {
		v = r[k]
	} else {
		v = si.bit(k)
	}
	r := ite(v, hi, lo)
	s.memoB[f] = r
	return r
}

func (s *substr) v(v *V) *V {
	if v == nil {
		return nil
	}
	if r, ok := s.memoV[v]; ok {
		return r
	}
	if r, ok := s.vals[v]; ok {
		return r
	}
	if r, ok := s.seqs[v]; ok {
		return r
	}
	var r *V
	switch v.k {
	case KSegLoop:
		// the loop's own iteration variable is bound here
		bound := false
		for _, b := range v.kids[1].bits {
			if b > bT {
				si, _ := levelSym(bd.nodes[b].level)
				bound = bound || s.syms[si] != nil
			}
		}
		if bound {
			r = segLoop(s.v(v.kids[0]), v.kids[1], v.kids[2])
			if n, ok := r.kids[0].uconst(); ok && n == 0 {
				r = seqEmpty
			}
			s.memoV[v] = r
			return r
		}
		n, body := s.v(v.kids[0]), s.v(v.kids[2])
		r = segLoop(n, v.kids[1], body)
		if c, ok := n.uconst(); ok && c == 0 {
			r = seqEmpty
		}
	case KPtr, KMap:
		kids := make([]*V, len(v.kids))
		for i, k := range v.kids {
			kids[i] = s.v(k)
		}
		c := *v
		c.kids = kids
		if lit, ok := litContent[v.n]; ok {
			c.n = litObj(s.v(lit), objTypes[v.n])
		}
		r = mk(c)
	case KInt, KBool:
		bits := make([]B, len(v.bits))
		for i, b := range v.bits {
			bits[i] = s.b(b)
		}
		r = mk(V{k: v.k, bits: bits})
	default:
		kids := make([]*V, len(v.kids))
		same := true
		for i, k := range v.kids {
			kids[i] = s.v(k)
			if kids[i] != k {
				same = false
			}
		}
		gs := v.gs
		if len(gs) > 0 {
			gs = make([]B, len(v.gs))
			for i, g := range v.gs {
				gs[i] = s.b(g)
				if gs[i] != v.gs[i] {
					same = false
				}
			}
		}
		if same {
			r = v
			break
		}
		switch v.k {
		case KUnion:
			r = mkUnion(gs, kids)
		case KSeq:
			r = seqOf(kids...)
		case KSegIte:
			r = seqIte(gs[0], kids[0], kids[1])
		case KSegSub:
			if kids[0].k == KSeq && v.kids[0].k == KSym && allF(v.kids[1]) && v.kids[2] == v.kids[0].kids[1] {
				r = kids[0] // all of a replaced symbol
			} else if kids[0].k == KSeq { // part of a replaced symbol
				r = seqSlice(kids[0], kids[1], iAdd(kids[1], kids[2]), bT)
			} else {
				c := *v
				c.kids = kids
				r = mk(c)
			}
		case KMapC:
			r = mkMapC(kids)
		case KSegUpd:
			r = seqSet(kids[0], kids[1], kids[2], bT)
		default:
			c := *v
			c.kids, c.gs = kids, gs
			r = mk(c)
		}
	}
	s.memoV[v] = r
	return r
}

// ---- literal objects: immutable contents referred to by value

var litContent = map[int]*V{}
var litByContent = map[*V]int{}

func litObj(content *V, t types.Type) int {
	if id, ok := litByContent[content]; ok {
		return id
	}
	id := newObjID(t)
	litContent[id] = content
	litByContent[content] = id
	return id
}

// freeze replaces references to local objects by references to literals with their contents.
func freeze(v *V, content func(id int) *V, local func(id int) bool, depth int) *V {
	if depth > 40 {
		unsup("cyclic data")
	}
	switch v.k {
	case KInt, KBool, KNil, KFld:
		return v
	case KPtr, KMap:
		if _, lit := litContent[v.n]; lit || !local(v.n) {
			return v
		}
		c := freeze(content(v.n), content, local, depth+1)
		n := *v
		n.n = litObj(c, objTypes[v.n])
		return mk(n)
	}
	kids := make([]*V, len(v.kids))
	same := true
	for i, k := range v.kids {
		kids[i] = freeze(k, content, local, depth+1)
		same = same && kids[i] == k
	}
	if same {
		return v
	}
	n := *v
	n.kids = kids
	return mk(n)
}
