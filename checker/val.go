package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Abstract values of the gated value graph, hash-consed: equal values are the same pointer.

type Kind uint8

const (
	KInt     Kind = iota // bits, least significant first (integers, floats by their bits)
	KBool                // bits[0]
	KNil                 // nil pointer, slice, map, func or interface
	KStruct              // kids = fields
	KTuple               // kids
	KPtr                 // n = object, kids = path of KFld and KInt
	KFld                 // n = field number
	KSlice               // kids = base pointer, offset, length, capacity
	KStr                 // kids[0] = sequence
	KSeq                 // kids = segments (array contents, slice backing, string contents, output)
	KSegE                // kids = elements
	KSegSub              // kids = sequence symbol, lo, n
	KSegLoop             // kids = n, iteration variable, body sequence
	KSegIte              // gs[0] = guard, kids = then sequence, else sequence
	KSegFill             // kids = n, element
	KSegVar              // kids = value: LEB128 form of an unsigned 32-bit value
	KSegUpd              // kids = base sequence, index, element
	KSym                 // symbolic sequence: kids[0] = name, kids[1] = length, t = element type
	KIface               // t = dynamic type, kids[0] = value
	KFunc                // fn, kids = bindings
	KMap                 // n = object
	KOpq                 // opaque s(kids) of type t
	KUnion               // gs[i] guards kids[i]
	KEntry               // map entry: kids = key, value, gs[0] = present
	KMapC                // map contents: kids = KEntry
)

type V struct {
	k    Kind
	id   int32
	t    types.Type
	bits []B
	kids []*V
	gs   []B
	s    string
	n    int
	fn   *ssa.Function
}

type unsupported struct{ what string }

func (u unsupported) Error() string { return u.what }

func unsup(format string, a ...interface{}) { panic(unsupported{fmt.Sprintf(format, a...)}) }

var (
	vtab    = map[string]*V{}
	typeIDs typeutil.Map
	nTypes  int
	fnIDs   = map[*ssa.Function]int{}
)

// resetGraph forgets all values, so that entry points do not weigh on each other.
func resetGraph() {
	bd = newBDD()
	keep := []*V{vNil, vTrue, vFals, seqEmpty}
	vtab = map[string]*V{}
	for _, v := range keep {
		c := *v
		if x := mk(c); x != v {
			vtab[lastKey] = v
			v.id = x.id
		}
	}
	symObjs, objTypes, objName = map[*V]int{}, map[int]types.Type{}, map[int]*V{}
	litContent, litByContent = map[int]*V{}, map[*V]int{}
	lenMemo = map[*V]*V{}
	backing = map[int]bool{}
	linTab = map[*V]linForm{}
	appls = map[string][]appl{}
	counts = map[*V]linForm{}
	sumTab, sumSym, sumCare = map[*V]*sumForm{}, map[*symInfo]*sumForm{}, map[*symInfo]B{}
	nextObj = 100
}

var lastKey string

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if x := typeIDs.At(t); x != nil {
		return x.(int)
	}
	nTypes++
	typeIDs.Set(t, nTypes)
	return nTypes
}

func mk(v V) *V {
	tick(0xfff)
	buf := make([]byte, 0, 32+4*len(v.bits)+4*len(v.kids))
	buf = append(buf, byte(v.k))
	buf = binary.AppendVarint(buf, int64(typeID(v.t)))
	buf = binary.AppendVarint(buf, int64(v.n))
	if v.fn != nil {
		i, ok := fnIDs[v.fn]
		if !ok {
			i = len(fnIDs) + 1
			fnIDs[v.fn] = i
		}
		buf = binary.AppendVarint(buf, int64(i))
	} else {
		buf = append(buf, 0)
	}
	buf = binary.AppendVarint(buf, int64(len(v.bits)))
	for _, b := range v.bits {
		buf = binary.LittleEndian.AppendUint32(buf, uint32(b))
	}
	buf = binary.AppendVarint(buf, int64(len(v.kids)))
	for _, b := range v.kids {
		buf = binary.LittleEndian.AppendUint32(buf, uint32(b.id))
	}
	for _, b := range v.gs {
		buf = binary.LittleEndian.AppendUint32(buf, uint32(b))
	}
	buf = append(buf, v.s...)
	key := string(buf)
	lastKey = key
	if x, ok := vtab[key]; ok {
		return x
	}
	x := new(V)
	*x = v
	x.id = int32(len(vtab) + 1)
	vtab[key] = x
	return x
}

// ---- constructors

func vBool(b B) *V { return mk(V{k: KBool, bits: []B{b}}) }
func vInt(bits []B) *V {
	return mk(V{k: KInt, bits: bits})
}

func vConst(x int64, w int) *V {
	bits := make([]B, w)
	for i := range bits {
		sh := i
		if sh > 63 {
			sh = 63
		}
		if x>>uint(sh)&1 != 0 {
			bits[i] = bT
		}
	}
	return vInt(bits)
}

func vConstU(x uint64, w int) *V {
	bits := make([]B, w)
	for i := range bits {
		if i < 64 && x>>uint(i)&1 != 0 {
			bits[i] = bT
		}
	}
	return vInt(bits)
}

func vBigConst(x *big.Int, w int) *V {
	y := new(big.Int).Set(x)
	if y.Sign() < 0 {
		y.Add(y, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	bits := make([]B, w)
	for i := range bits {
		if y.Bit(i) != 0 {
			bits[i] = bT
		}
	}
	return vInt(bits)
}

var (
	vNil  = mk(V{k: KNil})
	vTrue = vBool(bT)
	vFals = vBool(bF)
)

func vStruct(f ...*V) *V { return mk(V{k: KStruct, kids: f}) }
func vTuple(f ...*V) *V  { return mk(V{k: KTuple, kids: f}) }
func vPtr(obj int, path ...*V) *V {
	return mk(V{k: KPtr, n: obj, kids: path})
}
func vFld(i int) *V { return mk(V{k: KFld, n: i}) }
func vOpq(s string, t types.Type, kids ...*V) *V {
	return mk(V{k: KOpq, s: s, t: t, kids: kids})
}
func vIface(t types.Type, v *V) *V { return mk(V{k: KIface, t: t, kids: []*V{v}}) }
func vSlice(base, off, n, c *V) *V {
	return mk(V{k: KSlice, kids: []*V{base, off, n, c}})
}
func vStrSeq(seq *V) *V { return mk(V{k: KStr, kids: []*V{seq}}) }
func vStr(s string) *V  { return vStrSeq(seqBytes([]byte(s))) }

func atom(op string, args ...*V) B { return symbol(op, args, 1, 0, false).bit(0) }

func symInt(w int, op string, args ...*V) *V { return symIntB(w, 0, op, args...) }

func symIntB(w, base int, op string, args ...*V) *V {
	s := symbol(op, args, max(w, 2), base, false)
	bits := make([]B, w)
	for i := range bits {
		bits[i] = s.bit(i)
	}
	return vInt(bits)
}

var havocCount int

// havoc is a value the analysis knows nothing about.
func havocInt(w int, why string) *V {
	havocCount++
	s := symbol(fmt.Sprintf("?%s#%d", why, havocCount), nil, max(w, 2), 0, true)
	bits := make([]B, w)
	for i := range bits {
		bits[i] = s.bit(i)
	}
	return vInt(bits)
}

func havocBool(why string) B {
	havocCount++
	return symbol(fmt.Sprintf("?%s#%d", why, havocCount), nil, 1, 0, true).bit(0)
}

// ---- inspection

func (v *V) isConst() bool {
	if v.k != KInt && v.k != KBool {
		return false
	}
	for _, b := range v.bits {
		if b > bT {
			return false
		}
	}
	return true
}

func (v *V) uconst() (uint64, bool) {
	if !v.isConst() || v.k != KInt {
		return 0, false
	}
	var x uint64
	for i, b := range v.bits {
		if b == bT {
			if i >= 64 {
				return 0, false
			}
			x |= 1 << uint(i)
		}
	}
	return x, true
}

func (v *V) sconst() (int64, bool) {
	x, ok := v.uconst()
	if !ok {
		return 0, false
	}
	w := len(v.bits)
	if w < 64 && v.bits[w-1] == bT {
		x |= ^uint64(0) << uint(w)
	}
	return int64(x), true
}

// constUnder returns the value of v if the guard forces it to a constant.
func constUnder(v *V, g B) (int64, bool) {
	if x, ok := v.sconst(); ok {
		return x, true
	}
	var x uint64
	w := len(v.bits)
	for i, b := range v.bits {
		switch {
		case and(b, g) == bF:
		case implies(g, b):
			x |= 1 << uint(i)
		default:
			return 0, false
		}
	}
	if w < 64 && w > 0 && x>>(uint(w)-1)&1 == 1 {
		x |= ^uint64(0) << uint(w)
	}
	return int64(x), true
}

func (v *V) short(d int) string {
	if v == nil {
		return "<none>"
	}
	kids := func() string {
		if d <= 0 {
			return "…"
		}
		var p []string
		for i, k := range v.kids {
			if i >= 8 {
				p = append(p, fmt.Sprintf("…%d more", len(v.kids)-i))
				break
			}
			p = append(p, k.short(d-1))
		}
		return strings.Join(p, ", ")
	}
	switch v.k {
	case KInt:
		if x, ok := v.sconst(); ok {
			return fmt.Sprint(x)
		}
		sup := map[*symInfo]bool{}
		seen := map[B]bool{}
		for _, b := range v.bits {
			supportB(b, seen, sup)
		}
		if len(sup) == 1 {
			for s := range sup {
				same := len(v.bits) <= s.width
				for i, b := range v.bits {
					if !same || b != s.bit(i) {
						same = false
						break
					}
				}
				if same {
					return s.String()
				}
				return "f(" + s.String() + ")"
			}
		}
		return fmt.Sprintf("f(%d symbols)#%d", len(sup), v.id)
	case KBool:
		switch v.bits[0] {
		case bT:
			return "true"
		case bF:
			return "false"
		}
		return "cond(" + oneSat(v.bits[0]) + ")"
	case KNil:
		return "nil"
	case KStr:
		if s, ok := constStr(v); ok {
			return fmt.Sprintf("%q", s)
		}
		return "str[" + kids() + "]"
	case KIface:
		return fmt.Sprintf("%s(%s)", types.TypeString(v.t, nil), kids())
	case KPtr:
		return fmt.Sprintf("&obj%d[%s]", v.n, kids())
	case KFld:
		return fmt.Sprintf(".%d", v.n)
	case KOpq:
		if len(v.kids) == 0 {
			return v.s
		}
		return v.s + "(" + kids() + ")"
	case KUnion:
		var p []string
		for i, k := range v.kids {
			p = append(p, "{"+oneSat(v.gs[i])+"} "+k.short(d-1))
		}
		return "one of [" + strings.Join(p, " | ") + "]"
	case KFunc:
		return "func " + v.fn.Name()
	}
	names := map[Kind]string{KStruct: "struct", KTuple: "tuple", KSlice: "slice", KSeq: "seq", KSegE: "", KSegSub: "part", KSegLoop: "loop", KSegIte: "either", KSegFill: "fill", KSegVar: "varuint", KSegUpd: "upd", KSym: "sym", KMap: "map", KEntry: "entry", KMapC: "mapc"}
	g := ""
	if len(v.gs) > 0 {
		g = "{" + oneSat(v.gs[0]) + "}"
	}
	return names[v.k] + g + "[" + kids() + "]"
}

// deps collects the symbols a value depends on, through guards, arguments of opaque
// symbols and sequence symbols.
type depSet struct {
	seenV map[*V]bool
	seenB map[B]bool
	syms  map[*symInfo]bool
	opq   map[*V]bool
}

func newDeps() *depSet {
	return &depSet{map[*V]bool{}, map[B]bool{}, map[*symInfo]bool{}, map[*V]bool{}}
}

func (d *depSet) addB(f B) {
	if f <= bT || d.seenB[f] {
		return
	}
	d.seenB[f] = true
	n := bd.nodes[f]
	s, _ := levelSym(n.level)
	if !d.syms[s] {
		d.syms[s] = true
		for _, a := range s.args {
			d.addV(a)
		}
	}
	d.addB(n.lo)
	d.addB(n.hi)
}

func (d *depSet) addV(v *V) {
	if v == nil || d.seenV[v] {
		return
	}
	d.seenV[v] = true
	if v.k == KOpq || v.k == KSym {
		d.opq[v] = true
	}
	if v.k == KPtr || v.k == KMap {
		if c, ok := litContent[v.n]; ok {
			d.addV(c)
		}
	}
	for _, b := range v.bits {
		d.addB(b)
	}
	for _, b := range v.gs {
		d.addB(b)
	}
	for _, k := range v.kids {
		d.addV(k)
	}
}

func (d *depSet) imprecise() bool {
	for s := range d.syms {
		if s.imprecise || strings.HasPrefix(s.op, "?") {
			return true
		}
	}
	for v := range d.opq {
		if strings.HasPrefix(v.s, "?") {
			return true
		}
	}
	return false
}

func vImprecise(vs ...*V) bool {
	d := newDeps()
	for _, v := range vs {
		d.addV(v)
	}
	return d.imprecise()
}

func bImprecise(f B) bool {
	d := newDeps()
	d.addB(f)
	return d.imprecise()
}

// ---- integer arithmetic on bit vectors

func iNot(a *V) *V {
	bits := make([]B, len(a.bits))
	for i := range bits {
		bits[i] = not(a.bits[i])
	}
	return vInt(bits)
}

func iBitwise(op func(a, b B) B, a, b *V) *V {
	bits := make([]B, len(a.bits))
	for i := range bits {
		bits[i] = op(a.bits[i], b.bits[i])
	}
	return vInt(bits)
}

func addc(a, b *V, c B) *V {
	bits := make([]B, len(a.bits))
	for i := range bits {
		x, y := a.bits[i], b.bits[i]
		xy := xor(x, y)
		bits[i] = xor(xy, c)
		c = ite(xy, c, x)
	}
	return vInt(bits)
}

func iAdd(a, b *V) *V { return addc(a, b, bF) }
func iSub(a, b *V) *V { return addc(a, iNot(b), bT) }
func iNeg(a *V) *V    { return iSub(vConst(0, len(a.bits)), a) }

func iEq(a, b *V) B {
	r := bT
	for i := len(a.bits) - 1; i >= 0; i-- {
		r = and(r, not(xor(a.bits[i], b.bits[i])))
		if r == bF {
			return r
		}
	}
	return r
}

func iUlt(a, b *V) B {
	r := bF
	for i := range a.bits {
		x, y := a.bits[i], b.bits[i]
		r = ite(xor(x, y), y, r)
	}
	return r
}

func iSlt(a, b *V) B {
	w := len(a.bits)
	r := bF
	for i := range a.bits {
		x, y := a.bits[i], b.bits[i]
		if i == w-1 {
			x, y = y, x
		}
		r = ite(xor(x, y), y, r)
	}
	return r
}

func iLt(a, b *V, signed bool) B {
	if signed {
		return iSlt(a, b)
	}
	return iUlt(a, b)
}

func iResize(a *V, w int, signed bool) *V {
	if w == len(a.bits) {
		return a
	}
	bits := make([]B, w)
	for i := range bits {
		if i < len(a.bits) {
			bits[i] = a.bits[i]
		} else if signed && len(a.bits) > 0 {
			bits[i] = a.bits[len(a.bits)-1]
		}
	}
	return vInt(bits)
}

func iShlC(a *V, n int) *V {
	bits := make([]B, len(a.bits))
	for i := range bits {
		if i-n >= 0 {
			bits[i] = a.bits[i-n]
		}
	}
	return vInt(bits)
}

func iShrC(a *V, n int, signed bool) *V {
	w := len(a.bits)
	bits := make([]B, w)
	for i := range bits {
		if i+n < w {
			bits[i] = a.bits[i+n]
		} else if signed {
			bits[i] = a.bits[w-1]
		}
	}
	return vInt(bits)
}

// iShift shifts a by the unsigned amount n, left if left.
func iShift(a, n *V, left, signed bool) *V {
	w := len(a.bits)
	if c, ok := n.uconst(); ok {
		if c > uint64(w) {
			c = uint64(w)
		}
		if left {
			return iShlC(a, int(c))
		}
		return iShrC(a, int(c), signed)
	}
	r := a
	big := bF
	for i, b := range n.bits {
		if i < 31 && 1<<uint(i) < w {
			var s *V
			if left {
				s = iShlC(r, 1<<uint(i))
			} else {
				s = iShrC(r, 1<<uint(i), signed)
			}
			r = iIte(b, s, r)
		} else {
			big = or(big, b)
		}
	}
	over := vConst(0, w)
	if !left && signed {
		over = iShrC(a, w, true)
	}
	return iIte(big, over, r)
}

func iIte(g B, a, b *V) *V {
	if a == b || g == bT {
		return a
	}
	if g == bF {
		return b
	}
	bits := make([]B, len(a.bits))
	for i := range bits {
		bits[i] = ite(g, a.bits[i], b.bits[i])
	}
	return vInt(bits)
}

func popcount(x uint64) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

func iMul(a, b *V) *V {
	w := len(a.bits)
	ac, aok := a.uconst()
	bc, bok := b.uconst()
	if aok && bok {
		return vConstU(ac*bc, w)
	}
	if aok {
		a, b, ac, bc, aok, bok = b, a, bc, ac, bok, aok
	}
	if bok {
		if r, ok := linMul(a, int64(bc)); ok {
			return r
		}
	}
	if bok && (bc < 1<<12 || popcount(bc) <= 2) {
		r := vConst(0, w)
		for i := 0; i < w && i < 64; i++ {
			if bc>>uint(i)&1 != 0 {
				r = iAdd(r, iShlC(a, i))
			}
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return symInt(w, "?mul", a, b)
}

func iDivRem(a, b *V, signed, rem bool) *V {
	w := len(a.bits)
	if bc, ok := b.uconst(); ok && bc != 0 {
		if ac, ok := a.uconst(); ok {
			if signed {
				x, _ := a.sconst()
				y, _ := b.sconst()
				if rem {
					return vConst(x%y, w)
				}
				return vConst(x/y, w)
			}
			if rem {
				return vConstU(ac%bc, w)
			}
			return vConstU(ac/bc, w)
		}
		if w == 64 && (signed || a.bits[63] == bF) {
			if r, ok := linDiv(a, int64(bc), rem); ok {
				return r
			}
		}
		if bc&(bc-1) == 0 && (!signed || a.bits[w-1] == bF) {
			k := 0
			for 1<<uint(k) < bc {
				k++
			}
			if rem {
				bits := make([]B, w)
				copy(bits, a.bits[:k])
				return vInt(bits)
			}
			return iShrC(a, k, false)
		}
	}
	op := "?div"
	if rem {
		op = "?rem"
	}
	if signed {
		op += ":signed"
	}
	// leading bits of the result of dividing something known non-negative by a constant
	r := symInt(w, op, a, b)
	if bc, ok := b.uconst(); ok && (!signed || (a.bits[w-1] == bF && int64(bc) > 0)) {
		bits := append([]B{}, r.bits...)
		if rem {
			for i := range bits {
				if i < 64 && bc-1 < 1<<uint(i) {
					bits[i] = bF
				}
			}
		} else {
			top := w
			for top > 0 && a.bits[top-1] == bF {
				top--
			}
			k := 0
			for k < 63 && uint64(1)<<uint(k+1) <= bc {
				k++
			}
			for i := range bits {
				if i >= top-k {
					bits[i] = bF
				}
			}
		}
		r = vInt(bits)
	}
	return r
}

// possible enumerates the values an integer can take under g, up to limit of them.
func possible(v *V, g B, limit int) ([]int64, bool) {
	var out []int64
	var rec func(i int, g B, acc uint64) bool
	w := len(v.bits)
	rec = func(i int, g B, acc uint64) bool {
		if g == bF {
			return true
		}
		if i < 0 {
			if w < 64 && acc>>(uint(w)-1)&1 == 1 {
				acc |= ^uint64(0) << uint(w)
			}
			out = append(out, int64(acc))
			return len(out) <= limit
		}
		b := v.bits[i]
		if b == bF {
			return rec(i-1, g, acc)
		}
		if b == bT {
			return rec(i-1, g, acc|1<<uint(i))
		}
		return rec(i-1, and(g, not(b)), acc) && rec(i-1, and(g, b), acc|1<<uint(i))
	}
	if w > 64 {
		return nil, false
	}
	ok := rec(w-1, g, 0)
	return out, ok
}
