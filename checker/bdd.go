package main

import (
	"time"

	"fmt"
	"sort"
	"strings"
)

// Boolean functions over input bits in a canonical form (reduced ordered decision diagrams).
// They are the guards of the gated value graph and the bits of its integers: two equal
// functions are the same node, so comparing abstract values is comparing node numbers.

type B int32

const (
	bF B = 0
	bT B = 1
)

type bddNode struct {
	level  int64
	lo, hi B
}

type bddKey struct {
	level  int64
	lo, hi B
}

type symInfo struct {
	op        string
	args      []*V
	width     int
	base      int
	imprecise bool
	index     int
}

type bdd struct {
	nodes    []bddNode
	uniq     map[bddKey]B
	iteMemo  map[[3]B]B
	restMemo map[[2]B]B
	syms     []*symInfo
	symByKey map[string]*symInfo
}

const levelShift = 22

func newBDD() *bdd {
	b := &bdd{uniq: map[bddKey]B{}, iteMemo: map[[3]B]B{}, restMemo: map[[2]B]B{}, symByKey: map[string]*symInfo{}}
	b.nodes = []bddNode{{1 << 62, 0, 0}, {1 << 62, 1, 1}}
	return b
}

var bd = newBDD()

// opLimit bounds a single operation, see withinSize.
var opLimit int

type opTooLarge struct{}

// withinSize computes f unless its result takes more than n nodes.
func withinSize(n int, f func() *V) (v *V, ok bool) {
	old := opLimit
	opLimit = len(bd.nodes) + n
	defer func() {
		opLimit = old
		if e := recover(); e != nil {
			if _, is := e.(opTooLarge); !is {
				panic(e)
			}
			v, ok = nil, false
		}
	}()
	return f(), true
}

var bddLimit = 10_000_000

var (
	started  = time.Now()
	deadline time.Time // of the current obligation
	ticks    int
)

// tick gives up on an obligation that takes too long.
func tick(mask int) {
	ticks++
	if ticks&mask == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic(unsupported{"time limit of the obligation"})
	}
}

func (b *bdd) mk(level int64, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := bddKey{level, lo, hi}
	if n, ok := b.uniq[k]; ok {
		return n
	}
	if len(b.nodes) > bddLimit {
		panic(unsupported{"value graph too large"})
	}
	if opLimit > 0 && len(b.nodes) > opLimit {
		panic(opTooLarge{})
	}
	tick(0xfff)
	n := B(len(b.nodes))
	b.nodes = append(b.nodes, bddNode{level, lo, hi})
	b.uniq[k] = n
	return n
}

func ite(f, g, h B) B {
	switch {
	case f == bT:
		return g
	case f == bF:
		return h
	case g == h:
		return g
	case g == bT && h == bF:
		return f
	}
	if f == g {
		g = bT
	}
	if f == h {
		h = bF
	}
	k := [3]B{f, g, h}
	if r, ok := bd.iteMemo[k]; ok {
		return r
	}
	lv := bd.nodes[f].level
	if l := bd.nodes[g].level; l < lv {
		lv = l
	}
	if l := bd.nodes[h].level; l < lv {
		lv = l
	}
	f0, f1 := cof(f, lv)
	g0, g1 := cof(g, lv)
	h0, h1 := cof(h, lv)
	r := bd.mk(lv, ite(f0, g0, h0), ite(f1, g1, h1))
	bd.iteMemo[k] = r
	return r
}

func cof(f B, lv int64) (B, B) {
	n := &bd.nodes[f]
	if n.level == lv {
		return n.lo, n.hi
	}
	return f, f
}

func not(a B) B    { return ite(a, bF, bT) }
func and(a, b B) B { return ite(a, b, bF) }
func or(a, b B) B  { return ite(a, bT, b) }
func xor(a, b B) B { return ite(a, not(b), b) }
func diffB(a, b B) B {
	return and(a, not(b))
}
func implies(a, b B) bool { return and(a, not(b)) == bF }

func andN(xs ...B) B {
	r := bT
	for _, x := range xs {
		r = and(r, x)
	}
	return r
}

func orN(xs ...B) B {
	r := bF
	for _, x := range xs {
		r = or(r, x)
	}
	return r
}

// restrict simplifies f using c as a care set: the result agrees with f wherever c holds.
func restrict(f, c B) B {
	if c == bT || f == bT || f == bF {
		return f
	}
	if c == bF {
		return f
	}
	k := [2]B{f, c}
	if r, ok := bd.restMemo[k]; ok {
		return r
	}
	fl, cl := bd.nodes[f].level, bd.nodes[c].level
	var r B
	if cl < fl {
		n := bd.nodes[c]
		r = restrict(f, or(n.lo, n.hi))
	} else {
		n := bd.nodes[f]
		c0, c1 := cof(c, fl)
		switch {
		case c0 == bF:
			r = restrict(n.hi, c1)
		case c1 == bF:
			r = restrict(n.lo, c0)
		default:
			r = bd.mk(fl, restrict(n.lo, c0), restrict(n.hi, c1))
		}
	}
	bd.restMemo[k] = r
	return r
}

// symbol interns the symbol op(args) of the given width; base spreads neighbouring symbols
// over the variable order.
func symbol(op string, args []*V, width, base int, imprecise bool) *symInfo {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%d", op, width)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if s, ok := bd.symByKey[k]; ok {
		return s
	}
	s := &symInfo{op: op, args: args, width: width, base: base, imprecise: imprecise, index: len(bd.syms)}
	if s.index >= 1<<levelShift {
		panic(unsupported{"too many symbols"})
	}
	bd.syms = append(bd.syms, s)
	bd.symByKey[k] = s
	return s
}

func (s *symInfo) bit(i int) B {
	lv := int64(s.index)
	if s.width > 1 {
		lv |= int64(s.base+i+1) << levelShift
	}
	return bd.mk(lv, bF, bT)
}

func levelSym(lv int64) (*symInfo, int) {
	s := bd.syms[lv&(1<<levelShift-1)]
	if s.width == 1 {
		return s, 0
	}
	return s, int(lv>>levelShift) - 1 - s.base
}

func supportB(f B, seen map[B]bool, out map[*symInfo]bool) {
	if f <= bT || seen[f] {
		return
	}
	seen[f] = true
	n := bd.nodes[f]
	s, _ := levelSym(n.level)
	out[s] = true
	supportB(n.lo, seen, out)
	supportB(n.hi, seen, out)
}

// oneSat describes one assignment satisfying f, for reports.
func oneSat(f B) string {
	if f == bF {
		return "unsatisfiable"
	}
	vals := map[*symInfo]uint64{}
	bits := map[*symInfo]uint64{}
	var order []*symInfo
	for f != bT {
		n := bd.nodes[f]
		s, i := levelSym(n.level)
		if _, ok := bits[s]; !ok {
			order = append(order, s)
		}
		if i < 64 {
			bits[s] |= 1 << i
		}
		if n.lo != bF {
			f = n.lo
		} else {
			f = n.hi
			if i < 64 {
				vals[s] |= 1 << i
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].index < order[j].index })
	var parts []string
	for _, s := range order {
		if s.width == 1 {
			if vals[s] != 0 {
				parts = append(parts, s.String())
			} else {
				parts = append(parts, "not "+s.String())
			}
		} else {
			parts = append(parts, fmt.Sprintf("%s=%#x", s.String(), vals[s]))
		}
		if len(parts) >= 12 {
			parts = append(parts, "...")
			break
		}
	}
	return strings.Join(parts, ", ")
}

func (s *symInfo) String() string {
	if len(s.args) == 0 {
		return s.op
	}
	var a []string
	for _, x := range s.args {
		a = append(a, x.short(2))
	}
	return s.op + "(" + strings.Join(a, ",") + ")"
}
