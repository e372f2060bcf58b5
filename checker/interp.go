package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpreter computes a gated value graph: every SSA value and memory cell is
// mapped to an abstract value over the symbols of the entry point's inputs. Control-flow
// joins merge states (no path is followed on its own), loops are widened to induction
// variables and accumulators or, when their trip count is fixed by the program, repeated.

type State struct {
	g        B
	mem      map[int]*V
	env      map[ssa.Value]*V
	memOwned bool
	envOwned bool
}

func newState() *State {
	return &State{g: bT, mem: map[int]*V{}, env: map[ssa.Value]*V{}, memOwned: true, envOwned: true}
}

func (s *State) clone() *State {
	s.memOwned, s.envOwned = false, false
	c := *s
	return &c
}

func (s *State) setMem(o int, v *V) {
	if !s.memOwned {
		m := make(map[int]*V, len(s.mem)+8)
		for k, x := range s.mem {
			m[k] = x
		}
		s.mem, s.memOwned = m, true
	}
	s.mem[o] = v
}

func (s *State) setEnv(k ssa.Value, v *V) {
	if !s.envOwned {
		m := make(map[ssa.Value]*V, len(s.env)+8)
		for kk, x := range s.env {
			m[kk] = x
		}
		s.env, s.envOwned = m, true
	}
	s.env[k] = v
}

const (
	objOut = 1 // bytes written to the output
	objPos = 2 // position in the input
)

type obligation struct {
	kind string
	pos  string
	fn   string
	bad  B
	info string
	v    *V
}

type cmpRec struct{ a, b *V }

type Interp struct {
	p          *Program
	obs        []obligation
	allocs     []obligation // sizes of allocations
	eofMode    bool
	deep       bool  // recursion may go as deep as the code allows
	coarse     bool  // sums that take too long to write out are unknown
	widen      bool  // loops without a recognised trip count are widened
	eofAtoms   bool  // whether enough input is left is decided read by read
	maxList    int64 // upper bound of variable-length unsigned integers, 0 if none
	wellformed bool  // variable-length integers in the input are well formed
	callFail   bool  // user callbacks may fail
	lowlevel   bool  // interpret the variable-length primitives instead of using their summary
	cmps       []cmpRec
	recCmp     int
	loopD      int
	callD      int
	steps      int
	maxSteps   int
	stack      []*ssa.Function
	globals    map[*ssa.Global]int
	inits      map[*ssa.Package]bool
	base       map[int]*V // contents of globals after initialisation
	calls      map[string]int
	funcs      map[*ssa.Function]bool
	hooks      map[string]modelFn
	lossy      bool // the last loop summary lost information
	curPos     string
	events     []string
	iters      map[int]*iterInfo
	bigBytes   []*V // big integers written out as bytes
}

type iterInfo struct {
	seq *V
	m   *V
}

func newInterp(p *Program) *Interp {
	return &Interp{p: p, globals: map[*ssa.Global]int{}, inits: map[*ssa.Package]bool{}, base: map[int]*V{}, calls: map[string]int{}, funcs: map[*ssa.Function]bool{}, maxSteps: 3_000_000, hooks: map[string]modelFn{}, iters: map[int]*iterInfo{}}
}

// ---- control-flow structure

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	inf := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		inf.rpo = append(inf.rpo, post[i])
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range inf.rpo {
		num[b] = i
	}
	for _, b := range inf.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] { // back edge
				if !s.Dominates(b) {
					unsup("irreducible control flow in %s", fn)
				}
				l := inf.loops[s]
				if l == nil {
					l = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					inf.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, pr := range x.Preds {
						if seen[pr] {
							work = append(work, pr)
						}
					}
				}
			}
		}
	}
	// liveness
	for _, b := range inf.rpo {
		inf.live[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(inf.rpo) - 1; i >= 0; i-- {
			b := inf.rpo[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range inf.live[s] {
					l[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, e := range ph.Edges {
						if s.Preds[k] == b && track(e) {
							l[e] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				for _, op := range in.Operands(nil) {
					if track(*op) {
						l[*op] = true
					}
				}
			}
			// phis of b are defined at entry; they are live-in if used
			if len(l) != len(inf.live[b]) {
				inf.live[b] = l
				changed = true
			}
		}
	}
	fnInfos[fn] = inf
	return inf
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type retRec struct {
	st  *State
	val *V
}

type frame struct {
	fn     *ssa.Function
	info   *fnInfo
	rets   []retRec
	defers bool
	base   int // objects above this number were made during the call
}

// collect drops the objects made during the call that nothing live refers to, so that merging
// states does not combine contents nobody can read.
func (ip *Interp) collect(fr *frame, st *State, live map[ssa.Value]bool, val *V) *State {
	if fr.defers {
		return st
	}
	some := false
	for id := range st.mem {
		if id > fr.base && objName[id] == nil {
			some = true
			break
		}
	}
	if !some {
		return st
	}
	seen, objs := map[*V]bool{}, map[int]bool{}
	var visit func(v *V)
	visit = func(v *V) {
		switch v.k {
		case KInt, KBool, KNil:
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		if v.n > 0 && !objs[v.n] {
			objs[v.n] = true
			if c, ok := st.mem[v.n]; ok {
				visit(c)
			}
		}
		for _, k := range v.kids {
			visit(k)
		}
	}
	if val != nil {
		visit(val)
	}
	for k, v := range st.env {
		if live[k] {
			visit(v)
		}
	}
	for id, v := range st.mem {
		if id <= fr.base || objName[id] != nil || backing[id] {
			objs[id] = true
			visit(v)
		}
	}
	var drop []int
	for id := range st.mem {
		if !objs[id] {
			drop = append(drop, id)
		}
	}
	if len(drop) == 0 {
		return st
	}
	st = st.clone()
	m := make(map[int]*V, len(st.mem))
	for id, v := range st.mem {
		m[id] = v
	}
	for _, id := range drop {
		delete(m, id)
	}
	st.mem, st.memOwned = m, true
	return st
}

// ---- merging

func mergeVal(sel B, a, b *V) *V { // a where sel
	if coarse && a != b && a.k == KInt && b.k == KInt && len(a.bits) == len(b.bits) {
		v, ok := withinSize(20000, func() *V { return vIte(sel, a, b) })
		if !ok {
			v = havocInt(len(a.bits), "join")
		}
		return v
	}
	return vIte(sel, a, b)
}

// coarse lets integers that take too long to write out become unknown.
var coarse bool

func (ip *Interp) mergeStates(a, b *State, live map[ssa.Value]bool) *State {
	if a.g == bF {
		return b
	}
	if b.g == bF {
		return a
	}
	g := or(a.g, b.g)
	sel := restrict(a.g, g)
	if sel == bT || sel == bF {
		// overlapping guards cannot be told apart
		if and(a.g, b.g) != bF {
			sel = a.g
		}
	}
	out := &State{g: g, memOwned: true, envOwned: true}
	out.mem = make(map[int]*V, len(a.mem)+8)
	for k, x := range a.mem {
		y, ok := b.mem[k]
		if !ok {
			y = ip.implicit(k)
		}
		if y != nil && y != x {
			if k == objPos { // positions are compared under exact guards
				out.mem[k] = mkUnion([]B{a.g, and(b.g, not(a.g))}, []*V{x, y})
				continue
			}
			out.mem[k] = mergeVal(sel, x, y)
		} else {
			out.mem[k] = x
		}
	}
	for k, y := range b.mem {
		if _, ok := a.mem[k]; !ok {
			if x := ip.implicit(k); x != nil && x != y {
				y = mergeVal(sel, x, y)
			}
			out.mem[k] = y
		}
	}
	out.env = make(map[ssa.Value]*V, len(live)+8)
	for k, x := range a.env {
		if live != nil && !live[k] {
			continue
		}
		if y, ok := b.env[k]; ok && y != x {
			out.env[k] = mergeVal(sel, x, y)
		} else {
			out.env[k] = x
		}
	}
	for k, y := range b.env {
		if _, ok := a.env[k]; !ok && (live == nil || live[k]) {
			out.env[k] = y
		}
	}
	return out
}

// mergeEdges evaluates the phis of b on every incoming edge and joins the states.
func (ip *Interp) mergeEdges(fr *frame, b *ssa.BasicBlock, es []edge) *State {
	live := map[ssa.Value]bool{}
	for v := range fr.info.live[b] {
		live[v] = true
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		live[ph] = true
	}
	var acc *State
	for _, e := range es {
		st := e.st
		if len(phis) > 0 {
			k := -1
			for i, pr := range b.Preds {
				if pr == e.from {
					k = i
					break
				}
			}
			if k < 0 {
				unsup("edge without predecessor")
			}
			vals := make([]*V, len(phis))
			for i, ph := range phis {
				vals[i] = ip.get(st, ph.Edges[k])
			}
			st = st.clone()
			for i, ph := range phis {
				st.setEnv(ph, vals[i])
			}
		}
		if acc == nil {
			acc = st
		} else {
			acc = ip.mergeStates(acc, st, live)
		}
	}
	if len(es) == 1 {
		acc = acc.clone()
	}
	return acc
}

// ---- running

func (ip *Interp) call(fn *ssa.Function, args, bindings []*V, st *State) (*V, *State) {
	if fn.Blocks == nil {
		unsup("function %s has no body", fn)
	}
	if ip.callD > 60 && !(ip.deep && ip.callD < 8000) {
		unsup("call depth")
	}
	for _, f := range ip.stack {
		if f == fn {
			n := 0
			for _, f := range ip.stack {
				if f == fn {
					n++
				}
			}
			if n > 24 && !(ip.deep && n < 1100) {
				unsup("recursion of %s", fname(fn))
			}
			break
		}
	}
	ip.callD++
	ip.stack = append(ip.stack, fn)
	ip.funcs[fn] = true
	defer func() { ip.callD--; ip.stack = ip.stack[:len(ip.stack)-1] }()
	fr := &frame{fn: fn, info: infoOf(fn), base: nextObj}
	callerEnv := st.env
	s := st.clone()
	s.env = map[ssa.Value]*V{}
	s.envOwned = true
	if len(args) != len(fn.Params) {
		unsup("argument count of %s", fn)
	}
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		s.env[fv] = bindings[i]
	}
	ip.runRegion(fr, nil, []edge{{nil, fn.Blocks[0], s}})
	if len(fr.rets) == 0 {
		return nil, nil
	}
	var out *State
	var val *V
	for _, r := range fr.rets {
		if r.st.g == bF {
			continue
		}
		if len(fr.rets) > 2 {
			r.st = ip.collect(fr, r.st, nil, r.val)
		}
		if out == nil {
			out, val = r.st, r.val
			continue
		}
		g := or(out.g, r.st.g)
		sel := restrict(r.st.g, g)
		if val != nil {
			val = vIte(sel, r.val, val)
		}
		out = ip.mergeStates(out, r.st, map[ssa.Value]bool{})
	}
	if out == nil {
		return nil, nil
	}
	out = out.clone()
	out.env, out.envOwned = callerEnv, false
	return val, out
}

func (ip *Interp) runRegion(fr *frame, loop *loopInfo, entries []edge) (back, exits []edge) {
	pend := map[*ssa.BasicBlock][]edge{}
	for _, e := range entries {
		pend[e.to] = append(pend[e.to], e)
	}
	first := true
	for _, b := range fr.info.rpo {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		var outs []edge
		if l := fr.info.loops[b]; l != nil && l != loop {
			outs = ip.runLoop(fr, l, es)
		} else {
			var st *State
			if first && loop != nil && b == loop.header && len(es) == 1 && es[0].from == nil {
				st = es[0].st.clone() // header state prepared by the caller
			} else {
				st = ip.mergeEdges(fr, b, es)
			}
			outs = ip.execBlock(fr, b, st)
		}
		first = false
		for _, e := range outs {
			if e.st.g == bF {
				continue
			}
			switch {
			case loop != nil && e.to == loop.header:
				back = append(back, e)
			case loop != nil && !loop.blocks[e.to]:
				exits = append(exits, e)
			default:
				pend[e.to] = append(pend[e.to], e)
			}
		}
	}
	return
}

func (ip *Interp) execBlock(fr *frame, b *ssa.BasicBlock, st *State) []edge {
	for _, in := range b.Instrs {
		ip.steps++
		if ip.steps > ip.maxSteps {
			unsup("analysis budget exhausted in %s", fname(fr.fn))
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ip.get(st, in.Cond)
			cb := c.bits[0]
			t, f := and(st.g, cb), and(st.g, not(cb))
			var out []edge
			if t != bF && f != bF {
				s2 := st.clone()
				s2.g = f
				st = st.clone()
				st.g = t
				out = append(out, edge{b, b.Succs[0], st}, edge{b, b.Succs[1], s2})
			} else if t != bF {
				out = append(out, edge{b, b.Succs[0], st})
			} else if f != bF {
				out = append(out, edge{b, b.Succs[1], st})
			}
			return out
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var v *V
			switch len(in.Results) {
			case 0:
			case 1:
				v = ip.get(st, in.Results[0])
			default:
				vs := make([]*V, len(in.Results))
				for i, r := range in.Results {
					vs[i] = ip.get(st, r)
				}
				v = vTuple(vs...)
			}
			fr.rets = append(fr.rets, retRec{st, v})
			return nil
		case *ssa.Panic:
			ip.oblige(st, "panic", in, st.g)
			return nil
		case *ssa.RunDefers:
			if ip.runDefers(fr, st, b) {
				return nil
			}
		case *ssa.Defer:
			fr.defers = true
		default:
			if ip.step(st, in) {
				return nil
			}
			if st.g == bF {
				return nil
			}
		}
	}
	return nil
}

// runDefers carries out the deferred calls that every path to block b has registered; their
// operands are the values they had at the defer statement. It reports whether nothing is left.
func (ip *Interp) runDefers(fr *frame, st *State, b *ssa.BasicBlock) bool {
	if !fr.defers {
		return false
	}
	var ds []*ssa.Defer
	for _, d := range fr.fn.DomPreorder() {
		for _, in := range d.Instrs {
			df, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if !d.Dominates(b) {
				if blockReaches(d, b) {
					unsup("conditional defer in %s", fname(fr.fn))
				}
				continue
			}
			if cyclic(d) {
				unsup("defer in a loop in %s", fname(fr.fn))
			}
			ds = append(ds, df)
		}
	}
	for i := len(ds) - 1; i >= 0; i-- {
		_, ns := ip.callInstr(st, ds[i])
		if ns == nil || ns.g == bF {
			return true
		}
		if ns != st {
			*st = *ns
			st.memOwned, st.envOwned = false, false
		}
	}
	return st.g == bF
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

func cyclic(a *ssa.BasicBlock) bool {
	for _, s := range a.Succs {
		if blockReaches(s, a) {
			return true
		}
	}
	return false
}

// oblige records that the operation fails when bad holds and continues where it does not.
func (ip *Interp) oblige(st *State, kind string, in ssa.Instruction, bad B) {
	bad = and(st.g, bad)
	if bad == bF {
		return
	}
	o := obligation{kind: kind, bad: bad}
	if in != nil {
		o.pos, o.fn = ip.p.instrPos(in), fname(in.Parent())
		// report standard library internals at the calling repository function
		if !ip.p.inRepo(in.Parent()) {
			for i := len(ip.stack) - 1; i >= 0; i-- {
				if ip.p.inRepo(ip.stack[i]) {
					o.fn = fname(ip.stack[i]) + " via " + o.fn
					break
				}
			}
		}
	}
	ip.obs = append(ip.obs, o)
	st.g = and(st.g, not(bad))
}

func (ip *Interp) where() string {
	for i := len(ip.stack) - 1; i >= 0; i-- {
		if ip.p.inRepo(ip.stack[i]) {
			return fname(ip.stack[i])
		}
	}
	return "?"
}

func (ip *Interp) get(st *State, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return mk(V{k: KFunc, fn: v})
	case *ssa.Global:
		return vPtr(ip.globalObj(v))
	case *ssa.Builtin:
		unsup("builtin value")
	}
	x, ok := st.env[v]
	if !ok {
		unsup("value %s of %s not computed", v.Name(), v.Parent())
	}
	return narrow(x, st.g)
}

func constVal(c *ssa.Const) *V {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if w, _, ok := intWidth(t); ok {
		bi, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		return vBigConst(bi, w)
	}
	if w := floatWidth(t); w > 0 {
		f, _ := constant.Float64Val(c.Value)
		if w == 32 {
			return vConstU(uint64(math.Float32bits(float32(f))), 32)
		}
		return vConstU(math.Float64bits(f), 64)
	}
	if isBool(t) {
		if constant.BoolVal(c.Value) {
			return vTrue
		}
		return vFals
	}
	if isString(t) {
		return vStr(constant.StringVal(c.Value))
	}
	unsup("constant of type %s", t)
	return nil
}

func (ip *Interp) globalObj(g *ssa.Global) int {
	if id, ok := ip.globals[g]; ok {
		return id
	}
	et := g.Type().(*types.Pointer).Elem()
	id := newObjID(et)
	ip.globals[g] = id
	pk := g.Pkg
	if pk != nil && strings.HasPrefix(pk.Pkg.Path(), modPath+"/pkg/") {
		ip.base[id] = zero(et)
		ip.initPkg(pk)
		return id
	}
	name := g.RelString(nil)
	switch {
	case isErrorType(et):
		ip.base[id] = ip.errVal("err:" + name)
	case name == "encoding/binary.LittleEndian" || name == "encoding/binary.BigEndian" || name == "encoding/binary.NativeEndian":
		ip.base[id] = zero(et)
	default:
		ip.base[id] = fresh(et, vOpq("global:"+name, nil))
		if _, ok := et.Underlying().(*types.Pointer); ok {
			// library pointers are not nil
			ip.base[id] = ip.base[id].kids[len(ip.base[id].kids)-1]
			for _, k := range fresh(et, vOpq("global:"+name, nil)).kids {
				if k.k == KPtr {
					ip.base[id] = k
				}
			}
		}
	}
	return id
}

// initPkg computes the initial contents of the package's variables from its initialiser.
func (ip *Interp) initPkg(pk *ssa.Package) {
	if ip.inits[pk] {
		return
	}
	ip.inits[pk] = true
	fn := pk.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	st := newState()
	sub := *ip
	sub.stack, sub.callD, sub.loopD, sub.recCmp = nil, 0, 0, 0
	sub.hooks = map[string]modelFn{}
	_, out := sub.call(fn, nil, nil, st)
	ip.obs = ip.obs[:len(ip.obs)]
	if out != nil {
		for o, v := range out.mem {
			if o != objOut && o != objPos {
				ip.base[o] = v
			}
		}
	}
}

var errType types.Type

func (ip *Interp) errVal(name string) *V {
	if errType == nil {
		errType = types.NewPointer(ip.p.stdType("errors", "errorString"))
	}
	return vIface(errType, vOpq(name, nil))
}

func (ip *Interp) newErr() *V { return ip.errVal("error") }

// ---- memory

func (ip *Interp) alloc(st *State, t types.Type, content *V) *V {
	id := newObjID(t)
	st.setMem(id, content)
	return vPtr(id)
}

func (ip *Interp) objContent(st *State, id int) *V {
	if v, ok := st.mem[id]; ok {
		return v
	}
	if v, ok := ip.base[id]; ok {
		return v
	}
	if objName[id] != nil {
		return symContent(id)
	}
	if v, ok := litContent[id]; ok {
		return v
	}
	unsup("object %d without content", id)
	return nil
}

// implicit is the content of an object no state has written yet.
func (ip *Interp) implicit(id int) *V {
	if v, ok := ip.base[id]; ok {
		return v
	}
	if objName[id] != nil {
		return symContent(id)
	}
	if v, ok := litContent[id]; ok {
		return v
	}
	return nil
}

func (ip *Interp) loadPath(v *V, path []*V, g B) *V {
	for i, p := range path {
		v = narrow(v, g)
		if v.k == KUnion {
			gs, vs := alts(v, g)
			var out []*V
			for j := range vs {
				out = append(out, ip.loadPath(vs[j], path[i:], gs[j]))
			}
			return foldAlts(gs, out)
		}
		switch {
		case p.k == KFld && v.k == KStruct:
			v = v.kids[p.n]
		case p.k == KFld && v.k == KOpq:
			v = fresh(fieldType(v.t, p.n), vOpq("field", nil, v, p))
		case p.k == KInt && v.k == KSeq:
			v = seqGet(v, p, g)
		default:
			unsup("load through %s of %s", p.short(1), v.short(2))
		}
	}
	return v
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		unsup("field of an untyped value")
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("field of %s", t)
	}
	return s.Field(i).Type()
}

func foldAlts(gs []B, vs []*V) *V {
	if len(vs) == 0 {
		unsup("no alternative")
	}
	g, v := gs[0], vs[0]
	for i := 1; i < len(vs); i++ {
		n := or(g, gs[i])
		v = vIte(restrict(gs[i], n), vs[i], v)
		g = n
	}
	return v
}

func (ip *Interp) storePath(v *V, path []*V, val *V, g B) *V {
	if len(path) == 0 {
		return val
	}
	p := path[0]
	v = narrow(v, g)
	switch {
	case p.k == KFld && v.k == KStruct:
		kids := append([]*V{}, v.kids...)
		kids[p.n] = ip.storePath(v.kids[p.n], path[1:], val, g)
		return vStruct(kids...)
	case p.k == KInt && v.k == KSeq:
		if len(path) == 1 {
			return seqSet(v, p, val, g)
		}
		return seqSet(v, p, ip.storePath(seqGet(v, p, g), path[1:], val, g), g)
	case v.k == KUnion:
		r := v
		gs, vs := alts(v, g)
		for j := range vs {
			r = vIte(gs[j], ip.storePath(vs[j], path, val, gs[j]), r)
		}
		return r
	}
	unsup("store through %s of %s", p.short(1), v.short(2))
	return nil
}

func (ip *Interp) load(st *State, ptr *V, in ssa.Instruction) *V {
	gs, ps := alts(ptr, st.g)
	var rg []B
	var rv []*V
	for i, p := range ps {
		switch p.k {
		case KNil:
			ip.oblige(st, "nil dereference", in, gs[i])
		case KPtr:
			rg = append(rg, gs[i])
			rv = append(rv, ip.loadPath(ip.objContent(st, p.n), p.kids, gs[i]))
		case KOpq:
			unsup("load through %s", p.short(2))
		default:
			unsup("load through %s", p.short(2))
		}
	}
	if len(rv) == 0 {
		return nil
	}
	return foldAlts(rg, rv)
}

func (ip *Interp) store(st *State, ptr, val *V, in ssa.Instruction) {
	gs, ps := alts(ptr, st.g)
	for i, p := range ps {
		switch p.k {
		case KNil:
			ip.oblige(st, "nil dereference", in, gs[i])
		case KPtr:
			old := ip.objContent(st, p.n)
			nv := ip.storePath(old, p.kids, val, gs[i])
			if len(ps) > 1 {
				nv = vIte(restrict(gs[i], st.g), nv, old)
			}
			st.setMem(p.n, nv)
		default:
			unsup("store through %s", p.short(2))
		}
	}
}

// sliceSeq is the content of a slice value (nil is empty).
func (ip *Interp) sliceSeq(st *State, s *V, g B) *V {
	gs, vs := alts(s, g)
	var out []*V
	for i, v := range vs {
		switch v.k {
		case KNil:
			out = append(out, seqEmpty)
		case KSlice:
			out = append(out, ip.sliceSeq1(st, v, gs[i]))
		case KStr:
			out = append(out, v.kids[0])
		default:
			unsup("contents of %s", v.short(2))
		}
	}
	return foldAlts(gs, out)
}

func (ip *Interp) sliceSeq1(st *State, v *V, g B) *V {
	b := v.kids[0]
	c := ip.loadPath(ip.objContent(st, b.n), b.kids, g)
	if c.k != KSeq {
		unsup("slice over %s", c.short(2))
	}
	return seqSlice(c, v.kids[1], iAdd(v.kids[1], v.kids[2]), g)
}

func (ip *Interp) newSlice(st *State, t types.Type, seq *V) *V {
	n := seqLen(seq)
	p := ip.alloc(st, t, seq)
	return vSlice(p, vConst(0, 64), n, n)
}

// lenOf is the length of a string, slice, array pointer or map.
func (ip *Interp) lenOf(st *State, v *V) *V {
	gs, vs := alts(v, st.g)
	var out []*V
	for _, x := range vs {
		switch x.k {
		case KNil:
			out = append(out, vConst(0, 64))
		case KSlice:
			out = append(out, x.kids[2])
		case KStr:
			out = append(out, seqLen(x.kids[0]))
		case KSeq:
			out = append(out, seqLen(x))
		case KPtr:
			out = append(out, seqLen(ip.loadPath(ip.objContent(st, x.n), x.kids, st.g)))
		case KMap:
			n := vConst(0, 64)
			for _, e := range ip.objContent(st, x.n).kids {
				n = iIte(e.gs[0], iAdd(n, vConst(1, 64)), n)
			}
			out = append(out, n)
		case KOpq:
			out = append(out, symLen(x))
		default:
			unsup("len of %s", x.short(2))
		}
	}
	return foldAlts(gs, out)
}

// ---- instructions

// step executes a value or effect instruction; true means control does not continue.
func (ip *Interp) step(st *State, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		st.setEnv(in, ip.alloc(st, et, zero(et)))
	case *ssa.BinOp:
		st.setEnv(in, ip.binop(st, in))
	case *ssa.UnOp:
		v := ip.unop(st, in)
		if v == nil {
			return true
		}
		st.setEnv(in, v)
	case *ssa.Store:
		v := ip.get(st, in.Val)
		ip.store(st, ip.get(st, in.Addr), v, in)
	case *ssa.ChangeType:
		st.setEnv(in, ip.get(st, in.X))
	case *ssa.ChangeInterface:
		st.setEnv(in, ip.get(st, in.X))
	case *ssa.MakeInterface:
		st.setEnv(in, vIface(in.X.Type(), ip.get(st, in.X)))
	case *ssa.Convert:
		st.setEnv(in, ip.convert(st, ip.get(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		st.setEnv(in, ip.convert(st, ip.get(st, in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		t := ip.get(st, in.Tuple)
		if t.k != KTuple {
			unsup("extract from %s", t.short(2))
		}
		st.setEnv(in, t.kids[in.Index])
	case *ssa.Field:
		st.setEnv(in, ip.loadPath(ip.get(st, in.X), []*V{vFld(in.Field)}, st.g))
	case *ssa.FieldAddr:
		v := ip.ptrAdd(st, ip.get(st, in.X), vFld(in.Field), in)
		if v == nil {
			return true
		}
		st.setEnv(in, v)
	case *ssa.IndexAddr:
		v := ip.indexAddr(st, in)
		if v == nil || st.g == bF {
			return true
		}
		st.setEnv(in, v)
	case *ssa.Index:
		x := ip.get(st, in.X)
		idx := ip.index64(st, in.Index)
		if x.k == KStr {
			x = x.kids[0]
		}
		n := seqLen(x)
		ip.oblige(st, "index out of range", in, not(iUlt(idx, n)))
		if st.g == bF {
			return true
		}
		st.setEnv(in, seqGet(x, idx, st.g))
	case *ssa.Lookup:
		x := ip.get(st, in.X)
		if isString(in.X.Type()) {
			idx := ip.index64(st, in.Index)
			ip.oblige(st, "index out of range", in, not(iUlt(idx, seqLen(x.kids[0]))))
			if st.g == bF {
				return true
			}
			st.setEnv(in, seqGet(x.kids[0], idx, st.g))
			return false
		}
		st.setEnv(in, ip.mapLookup(st, x, ip.get(st, in.Index), in.X.Type().Underlying().(*types.Map).Elem(), in.CommaOk))
	case *ssa.MapUpdate:
		ip.mapUpdate(st, ip.get(st, in.Map), ip.get(st, in.Key), ip.get(st, in.Value), in)
	case *ssa.MakeMap:
		id := newObjID(in.Type())
		st.setMem(id, mkMapC(nil))
		st.setEnv(in, mk(V{k: KMap, n: id}))
	case *ssa.MakeSlice:
		n := iResize(ip.get(st, in.Len), 64, signedOf(in.Len.Type()))
		c := iResize(ip.get(st, in.Cap), 64, signedOf(in.Cap.Type()))
		ip.allocs = append(ip.allocs, obligation{kind: "make", pos: ip.p.instrPos(in), fn: fname(in.Parent()), bad: st.g, v: c})
		lim := vConst(1<<47, 64)
		ip.oblige(st, "make with a negative or oversized length", in, or(not(iUlt(n, lim)), orN(not(iUlt(c, lim)), iUlt(c, n))))
		if st.g == bF {
			return true
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		seq := seqOf(segFill(n, zero(et)))
		p := ip.alloc(st, in.Type(), seq)
		st.setEnv(in, vSlice(p, vConst(0, 64), n, c))
	case *ssa.Slice:
		v := ip.slice(st, in)
		if v == nil || st.g == bF {
			return true
		}
		st.setEnv(in, v)
	case *ssa.MakeClosure:
		b := make([]*V, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = ip.get(st, x)
		}
		st.setEnv(in, mk(V{k: KFunc, fn: in.Fn.(*ssa.Function), kids: b}))
	case *ssa.TypeAssert:
		v := ip.typeAssert(st, in)
		if v == nil {
			return true
		}
		st.setEnv(in, v)
	case *ssa.Range:
		x := ip.get(st, in.X)
		id := newObjID(in.Type())
		st.setMem(id, vConst(0, 64))
		var inf iterInfo
		switch x.k {
		case KStr:
			inf.seq = x.kids[0]
		case KMap:
			inf.m = ip.objContent(st, x.n)
		case KNil:
			inf.m = mkMapC(nil)
		default:
			unsup("range over %s", x.short(2))
		}
		ip.iters[id] = &inf
		st.setEnv(in, vPtr(id))
	case *ssa.Next:
		st.setEnv(in, ip.next(st, in))
	case *ssa.SliceToArrayPointer:
		s := ip.get(st, in.X)
		n := in.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		seq := ip.sliceSeq(st, s, st.g)
		ip.oblige(st, "slice to array conversion", in, iUlt(seqLen(seq), vConst(n, 64)))
		if s.k == KSlice {
			if off, ok := s.kids[1].uconst(); ok && off == 0 {
				if c := ip.loadPath(ip.objContent(st, s.kids[0].n), s.kids[0].kids, st.g); c.k == KSeq {
					if l, ok := constUnder(seqLen(c), st.g); ok && l == n {
						st.setEnv(in, s.kids[0])
						return false
					}
				}
			}
		}
		st.setEnv(in, ip.alloc(st, in.Type().(*types.Pointer).Elem(), seqSlice(seq, vConst(0, 64), vConst(n, 64), st.g)))
	case *ssa.Call:
		v, ns := ip.callInstr(st, in)
		if ns == nil || ns.g == bF {
			return true
		}
		if ns != st {
			*st = *ns
			st.memOwned, st.envOwned = false, false
		}
		if v == nil {
			v = vTuple()
		}
		st.setEnv(in, v)
	default:
		unsup("instruction %T in %s", in, fname(in.Parent()))
	}
	return false
}

// isGoInt reports whether t is int or uint, the types of lengths and positions.
func isGoInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Uint)
}

func signedOf(t types.Type) bool {
	_, s, _ := intWidth(t)
	return s
}

func (ip *Interp) index64(st *State, v ssa.Value) *V {
	x := ip.get(st, v)
	return iResize(x, 64, signedOf(v.Type()))
}

func (ip *Interp) ptrAdd(st *State, p, e *V, in ssa.Instruction) *V {
	gs, ps := alts(p, st.g)
	var rg []B
	var rv []*V
	for i, q := range ps {
		switch q.k {
		case KNil:
			ip.oblige(st, "nil dereference", in, gs[i])
		case KPtr:
			rg = append(rg, gs[i])
			rv = append(rv, vPtr(q.n, append(append([]*V{}, q.kids...), e)...))
		default:
			unsup("address within %s", q.short(2))
		}
	}
	if len(rv) == 0 || st.g == bF {
		return nil
	}
	return foldAlts(rg, rv)
}

func (ip *Interp) indexAddr(st *State, in *ssa.IndexAddr) *V {
	x := ip.get(st, in.X)
	idx := ip.index64(st, in.Index)
	gs, vs := alts(x, st.g)
	g0 := st.g
	var rg []B
	var rv []*V
	for i, v := range vs {
		switch v.k {
		case KNil:
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				ip.oblige(st, "nil dereference", in, gs[i])
			} else {
				ip.oblige(st, "index out of range", in, gs[i])
			}
		case KSlice:
			ok := iUlt(idx, v.kids[2])
			ip.oblige(st, "index out of range", in, and(gs[i], not(ok)))
			if and(g0, and(gs[i], ok)) != bF {
				rg = append(rg, and(gs[i], ok))
				b := v.kids[0]
				a := iAdd(v.kids[1], idx)
				if c, ok := constUnder(a, and(gs[i], ok)); ok {
					a = vConst(c, 64)
				}
				rv = append(rv, vPtr(b.n, append(append([]*V{}, b.kids...), a)...))
			}
		case KPtr:
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			ok := iUlt(idx, vConst(at.Len(), 64))
			ip.oblige(st, "index out of range", in, and(gs[i], not(ok)))
			if and(gs[i], ok) != bF {
				rg = append(rg, and(gs[i], ok))
				a := idx
				if c, ok := constUnder(a, and(gs[i], ok)); ok {
					a = vConst(c, 64)
				}
				rv = append(rv, vPtr(v.n, append(append([]*V{}, v.kids...), a)...))
			}
		default:
			unsup("index into %s", v.short(2))
		}
	}
	if len(rv) == 0 {
		return nil
	}
	return foldAlts(rg, rv)
}

func (ip *Interp) slice(st *State, in *ssa.Slice) *V {
	x := ip.get(st, in.X)
	opt := func(v ssa.Value) *V {
		if v == nil {
			return nil
		}
		return iResize(ip.get(st, v), 64, signedOf(v.Type()))
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = vConst(0, 64)
	}
	gs, vs := alts(x, st.g)
	var rg []B
	var rv []*V
	for i, v := range vs {
		g := gs[i]
		var n, c *V
		switch v.k {
		case KStr:
			n = seqLen(v.kids[0])
			c = n
		case KSlice:
			n, c = v.kids[2], v.kids[3]
		case KNil:
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				ip.oblige(st, "nil dereference", in, g)
				continue
			}
			n, c = vConst(0, 64), vConst(0, 64)
		case KPtr:
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			n = vConst(at.Len(), 64)
			c = n
		default:
			unsup("slice of %s", v.short(2))
		}
		h := hi
		if h == nil {
			h = n
		}
		bad := or(iUlt(h, lo), iUlt(c, h))
		if mx != nil {
			bad = orN(bad, iUlt(mx, h), iUlt(c, mx))
		}
		ip.oblige(st, "slice bounds out of range", in, and(g, bad))
		g = and(g, not(bad))
		if g == bF {
			continue
		}
		if cc, ok := constUnder(lo, g); ok {
			lo = vConst(cc, 64)
		}
		if cc, ok := constUnder(h, g); ok {
			h = vConst(cc, 64)
		}
		rg = append(rg, g)
		switch v.k {
		case KStr:
			rv = append(rv, vStrSeq(seqSlice(v.kids[0], lo, h, g)))
		case KSlice:
			nc := iSub(c, lo)
			if mx != nil {
				nc = iSub(mx, lo)
			}
			rv = append(rv, vSlice(v.kids[0], iAdd(v.kids[1], lo), iSub(h, lo), nc))
		case KNil:
			rv = append(rv, vNil)
		case KPtr:
			rv = append(rv, vSlice(v, lo, iSub(h, lo), iSub(c, lo)))
		}
	}
	if len(rv) == 0 {
		return nil
	}
	return foldAlts(rg, rv)
}

func (ip *Interp) unop(st *State, in *ssa.UnOp) *V {
	x := ip.get(st, in.X)
	switch in.Op {
	case token.MUL:
		v := ip.load(st, x, in)
		if v == nil || st.g == bF {
			return nil
		}
		return narrow(v, st.g)
	case token.NOT:
		return vBool(not(x.bits[0]))
	case token.SUB:
		if floatWidth(in.Type()) > 0 {
			return symInt(len(x.bits), "fneg", x)
		}
		return iNeg(x)
	case token.XOR:
		return iNot(x)
	}
	unsup("operator %s", in.Op)
	return nil
}

func (ip *Interp) binop(st *State, in *ssa.BinOp) *V {
	if coarse && (in.Op == token.ADD || in.Op == token.SUB || in.Op == token.MUL) {
		if w, _, ok := intWidth(in.X.Type()); ok {
			v, ok := withinSize(20000, func() *V { return ip.binop1(st, in) })
			if !ok {
				v = havocInt(w, "sum")
			}
			return v
		}
	}
	return ip.binop1(st, in)
}

func (ip *Interp) binop1(st *State, in *ssa.BinOp) *V {
	x, y := ip.get(st, in.X), ip.get(st, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		if ip.recCmp > 0 && x.k == KInt && y.k == KInt {
			ip.cmps = append(ip.cmps, cmpRec{x, y})
		}
		e := ip.valEq(st, x, y, st.g)
		if in.Op == token.NEQ {
			e = not(e)
		}
		return vBool(e)
	}
	if w, signed, ok := intWidth(t); ok {
		if sumsOn && (w == 32 || w == 64) && !(x.isConst() && y.isConst()) && !isGoInt(t) {
			switch in.Op {
			case token.ADD:
				if apart(x, y) {
					return iBitwise(or, x, y)
				}
				return sumAdd(sumOf(x, w), sumOf(y, w), 1).val()
			case token.SUB:
				return sumAdd(sumOf(x, w), sumOf(y, w), -1).val()
			case token.MUL:
				a, b := sumOf(x, w), sumOf(y, w)
				if _, ok := a.bigConst(); ok {
					a, b = b, a
				}
				if k, ok := b.bigConst(); ok {
					return sumScale(a, k).val()
				}
			}
		}
		switch in.Op {
		case token.ADD:
			if c, ok := y.sconst(); ok {
				if r, ok := linAdd(x, c); ok {
					return r
				}
			}
			if c, ok := x.sconst(); ok {
				if r, ok := linAdd(y, c); ok {
					return r
				}
			}
			return iAdd(x, y)
		case token.SUB:
			if c, ok := y.sconst(); ok {
				if r, ok := linAdd(x, -c); ok {
					return r
				}
			}
			return iSub(x, y)
		case token.MUL:
			if ip.widen && !x.isConst() && w > 16 {
				return havocInt(w, "product")
			}
			return iMul(x, y)
		case token.QUO, token.REM:
			ip.oblige(st, "division by zero", in, iEq(y, vConst(0, w)))
			return iDivRem(x, y, signed, in.Op == token.REM)
		case token.AND:
			return iBitwise(and, x, y)
		case token.OR:
			return iBitwise(or, x, y)
		case token.XOR:
			return iBitwise(xor, x, y)
		case token.AND_NOT:
			return iBitwise(diffB, x, y)
		case token.SHL, token.SHR:
			if signedOf(in.Y.Type()) {
				ip.oblige(st, "negative shift", in, y.bits[len(y.bits)-1])
			}
			return iShift(x, y, in.Op == token.SHL, signed)
		}
		if ip.recCmp > 0 {
			ip.cmps = append(ip.cmps, cmpRec{x, y})
		}
		switch in.Op {
		case token.LSS:
			return vBool(iLt(x, y, signed))
		case token.LEQ:
			return vBool(not(iLt(y, x, signed)))
		case token.GTR:
			return vBool(iLt(y, x, signed))
		case token.GEQ:
			return vBool(not(iLt(x, y, signed)))
		}
	}
	if fw := floatWidth(t); fw > 0 {
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return symInt(fw, "f"+in.Op.String(), x, y)
		default:
			return vBool(atom("f"+in.Op.String(), x, y))
		}
	}
	if isString(t) {
		switch in.Op {
		case token.ADD:
			return vStrSeq(seqOf(x.kids[0], y.kids[0]))
		case token.LSS:
			return vBool(atom("?strless", x, y))
		case token.GTR:
			return vBool(atom("?strless", y, x))
		case token.LEQ:
			return vBool(not(atom("?strless", y, x)))
		case token.GEQ:
			return vBool(not(atom("?strless", x, y)))
		}
	}
	unsup("operator %s on %s", in.Op, t)
	return nil
}

// valEq is the guard under which two values compare equal.
func (ip *Interp) valEq(st *State, a, b *V, g B) B {
	if a == b {
		return bT
	}
	if a.k == KUnion || b.k == KUnion {
		r := bF
		ga, va := alts(a, g)
		for i := range va {
			gb, vb := alts(b, ga[i])
			for j := range vb {
				r = or(r, and(gb[j], ip.valEq(st, va[i], vb[j], gb[j])))
			}
		}
		return restrict(r, g)
	}
	if a.k == KNil || b.k == KNil {
		if a.k == KNil {
			a, b = b, a
		}
		switch a.k {
		case KOpq:
			if a.s == "any" || a.s == "map" || a.s == "func" {
				return atom("isnil", a)
			}
			return bF
		case KSlice:
			return bF
		}
		return bF
	}
	if a.k != b.k {
		return bF
	}
	switch a.k {
	case KInt:
		return iEq(a, b)
	case KBool:
		return not(xor(a.bits[0], b.bits[0]))
	case KStr:
		return seqEq(a.kids[0], b.kids[0], g)
	case KSeq:
		return seqEq(a, b, g)
	case KStruct:
		r := bT
		for i := range a.kids {
			r = and(r, ip.valEq(st, a.kids[i], b.kids[i], g))
		}
		return r
	case KIface:
		if !types.Identical(a.t, b.t) {
			return bF
		}
		return ip.valEq(st, a.kids[0], b.kids[0], g)
	case KPtr:
		if a.n != b.n || len(a.kids) != len(b.kids) {
			return bF
		}
		r := bT
		for i := range a.kids {
			if a.kids[i].k == KInt && b.kids[i].k == KInt {
				r = and(r, iEq(a.kids[i], b.kids[i]))
			} else if a.kids[i] != b.kids[i] {
				return bF
			}
		}
		return r
	case KOpq:
		if strings.HasPrefix(a.s, "err") && strings.HasPrefix(b.s, "err") {
			return bF
		}
		if strings.HasPrefix(a.s, "rtype") && strings.HasPrefix(b.s, "rtype") {
			return bF // different types
		}
		if a.id > b.id {
			a, b = b, a
		}
		return atom("?eq", a, b)
	}
	unsup("comparison of %s and %s", a.short(2), b.short(2))
	return bF
}

// seqEq is the guard under which two sequences are equal.
func seqEq(a, b *V, g B) B {
	return restrict(not(seqDiff(nil, a, b, g)), g)
}

func (ip *Interp) convert(st *State, x *V, from, to types.Type) *V {
	fw, fs, fi := intWidth(from)
	tw, _, ti := intWidth(to)
	_ = fw
	switch {
	case fi && ti:
		return iResize(x, tw, fs)
	case fi && floatWidth(to) > 0:
		return symInt(floatWidth(to), "itof", x)
	case floatWidth(from) > 0 && ti:
		return symInt(tw, "ftoi", x)
	case floatWidth(from) > 0 && floatWidth(to) > 0:
		if floatWidth(from) == floatWidth(to) {
			return x
		}
		return symInt(floatWidth(to), "ftof", x)
	case fi && isString(to):
		return vStrSeq(utf8Seq(iResize(x, 32, fs), st.g))
	}
	if isString(from) {
		if s, ok := to.Underlying().(*types.Slice); ok {
			if w, _, _ := intWidth(s.Elem()); w == 8 {
				return ip.newSlice(st, to, x.kids[0])
			}
		}
		if isString(to) {
			return x
		}
	}
	if isString(to) {
		if s, ok := from.Underlying().(*types.Slice); ok {
			if w, _, _ := intWidth(s.Elem()); w == 8 {
				return vStrSeq(ip.sliceSeq(st, x, st.g))
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

// utf8Seq is the UTF-8 encoding of a rune.
func utf8Seq(r *V, g B) *V {
	one := seqOf(segE(iResize(r, 8, false)))
	small := iUlt(r, vConst(0x80, 32))
	if implies(g, small) {
		return one
	}
	b := func(hi int64, sh, n int) *V {
		bits := append([]B{}, iShrC(r, sh, false).bits[:8]...)
		for i := n; i < 8; i++ {
			bits[i] = bF
			if hi>>uint(i)&1 != 0 {
				bits[i] = bT
			}
		}
		return vInt(bits)
	}
	two := seqOf(segE(b(0xC0, 6, 5), b(0x80, 0, 6)))
	res := seqIte(small, one, two)
	m2 := iUlt(r, vConst(0x800, 32))
	if implies(g, m2) {
		return res
	}
	three := seqOf(segE(b(0xE0, 12, 4), b(0x80, 6, 6), b(0x80, 0, 6)))
	four := seqOf(segE(b(0xF0, 18, 3), b(0x80, 12, 6), b(0x80, 6, 6), b(0x80, 0, 6)))
	bad := seqBytes([]byte("\uFFFD"))
	inv := or(not(iUlt(r, vConst(0x110000, 32))), and(not(iUlt(r, vConst(0xD800, 32))), iUlt(r, vConst(0xE000, 32))))
	res = seqIte(not(m2), three, res)
	res = seqIte(and(not(iUlt(r, vConst(0x10000, 32))), not(inv)), four, res)
	return seqIte(inv, bad, res)
}

func (ip *Interp) next(st *State, in *ssa.Next) *V {
	it := ip.get(st, in.Iter)
	inf := ip.iters[it.n]
	pos := ip.objContent(st, it.n)
	if inf == nil {
		unsup("iterator")
	}
	if inf.m != nil {
		c, ok := pos.uconst()
		if !ok {
			unsup("symbolic map iteration")
		}
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if int(c) >= len(inf.m.kids) {
			return vTuple(vFals, zero(mt.Key()), zero(mt.Elem()))
		}
		e := inf.m.kids[c]
		if !implies(st.g, e.gs[0]) {
			unsup("iteration over a map with uncertain entries")
		}
		st.setMem(it.n, vConst(int64(c)+1, 64))
		return vTuple(vTrue, e.kids[0], e.kids[1])
	}
	// string: every byte below 0x80 is a rune of its own
	ok := iUlt(pos, seqLen(inf.seq))
	g := and(st.g, ok)
	if g == bF {
		return vTuple(vFals, vConst(0, 64), vConst(0, 32))
	}
	b := seqGet(inf.seq, pos, g)
	ascii := not(b.bits[7])
	r := iResize(b, 32, false)
	adv := vConst(1, 64)
	if !implies(g, ascii) {
		// some rune at or above 0x80; how many bytes it takes is not tracked
		hr := symInt(21, "rune", inf.seq, pos)
		bits := append([]B{}, hr.bits...)
		for len(bits) < 32 {
			bits = append(bits, bF)
		}
		wide := iBitwise(or, vInt(bits), vConst(0x80, 32))
		r = iIte(ascii, r, wide)
		w := symInt(2, "runewidth", inf.seq, pos)
		adv = iIte(ascii, adv, iAdd(vConst(1, 64), iResize(w, 64, false)))
	}
	st.setMem(it.n, iIte(ok, iAdd(pos, adv), pos))
	return vTuple(vBool(ok), pos, r)
}

func (ip *Interp) typeAssert(st *State, in *ssa.TypeAssert) *V {
	x := ip.get(st, in.X)
	gs, vs := alts(x, st.g)
	var rg []B
	var rv []*V
	okB := bF
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	z := zero(in.AssertedType)
	for i, v := range vs {
		switch v.k {
		case KNil:
			rg = append(rg, gs[i])
			rv = append(rv, z)
		case KIface:
			match := false
			if toIface {
				match = types.Implements(v.t, in.AssertedType.Underlying().(*types.Interface))
			} else {
				match = types.Identical(v.t, in.AssertedType)
			}
			rg = append(rg, gs[i])
			if match {
				okB = or(okB, gs[i])
				if toIface {
					rv = append(rv, v)
				} else {
					rv = append(rv, v.kids[0])
				}
			} else {
				rv = append(rv, z)
			}
		case KOpq:
			if toIface {
				at := atom("implements:"+in.AssertedType.String(), v)
				okB = or(okB, and(gs[i], at))
				rg = append(rg, and(gs[i], at), and(gs[i], not(at)))
				rv = append(rv, vOpq("any", in.AssertedType, v), z)
				break
			}
			at := ip.typeIs(v, in.AssertedType)
			okB = or(okB, and(gs[i], at))
			rg = append(rg, and(gs[i], at), and(gs[i], not(at)))
			rv = append(rv, ip.unwrapAny(v, in.AssertedType), z)
		default:
			unsup("type assertion on %s", v.short(2))
		}
	}
	val := foldAlts(rg, rv)
	if in.CommaOk {
		return vTuple(val, vBool(restrict(okB, st.g)))
	}
	ip.oblige(st, "failed type assertion", in, not(okB))
	if st.g == bF {
		return nil
	}
	return narrow(val, st.g)
}

// typeIs tests the dynamic type of an opaque interface value; the tests are exclusive
// because the type is an encoded number.
func (ip *Interp) typeIs(v *V, t types.Type) B {
	code := symInt(16, "typeof", v)
	return iEq(code, vConst(int64(typeID(t)), 16))
}

func (ip *Interp) unwrapAny(v *V, t types.Type) *V {
	r := fresh(t, vOpq("as:"+t.String(), nil, v))
	return r
}

// ---- maps

func (ip *Interp) mapLookup(st *State, m, key *V, et types.Type, commaOk bool) *V {
	gs, vs := alts(m, st.g)
	var rg []B
	var rv []*V
	found := bF
	z := zero(et)
	for i, v := range vs {
		switch v.k {
		case KNil:
			rg = append(rg, gs[i])
			rv = append(rv, z)
		case KMap:
			g := gs[i]
			val, f := z, bF
			for _, e := range ip.mapContent(st, v.n).kids {
				c := and(e.gs[0], ip.valEq(st, e.kids[0], key, and(g, e.gs[0])))
				if and(c, g) == bF {
					continue
				}
				f = or(f, c)
				val = vIte(restrict(c, g), e.kids[1], val)
			}
			found = or(found, and(g, f))
			rg = append(rg, g)
			rv = append(rv, val)
		case KOpq:
			has := atom("has", v, key)
			found = or(found, and(gs[i], has))
			rg = append(rg, and(gs[i], has), and(gs[i], not(has)))
			rv = append(rv, fresh(et, vOpq("at", nil, v, key)), z)
		default:
			unsup("lookup in %s", v.short(2))
		}
	}
	val := foldAlts(rg, rv)
	if commaOk {
		return vTuple(val, vBool(restrict(found, st.g)))
	}
	return val
}

func (ip *Interp) mapContent(st *State, id int) *V {
	c := ip.objContent(st, id)
	if c.k != KMapC {
		unsup("map of unknown content")
	}
	return c
}

func (ip *Interp) mapUpdate(st *State, m, key, val *V, in ssa.Instruction) {
	gs, vs := alts(m, st.g)
	for i, v := range vs {
		switch v.k {
		case KNil:
			ip.oblige(st, "assignment to nil map", in, gs[i])
		case KMap:
			g := restrict(gs[i], st.g)
			c := ip.mapContent(st, v.n)
			var ents []*V
			placed := false
			for _, e := range c.kids {
				if e.kids[0] == key {
					ents = append(ents, mk(V{k: KEntry, kids: []*V{key, vIte(g, val, e.kids[1])}, gs: []B{or(e.gs[0], g)}}))
					placed = true
					continue
				}
				if eq := ip.valEq(st, e.kids[0], key, gs[i]); and(eq, gs[i]) != bF {
					unsup("map update with a key that may be present")
				}
				ents = append(ents, e)
			}
			if !placed {
				ents = append(ents, mk(V{k: KEntry, kids: []*V{key, val}, gs: []B{g}}))
			}
			st.setMem(v.n, mkMapC(ents))
		default:
			unsup("update of %s", v.short(2))
		}
	}
}

// ---- calls

type modelFn func(ip *Interp, st *State, args []*V, in ssa.CallInstruction) (*V, *State)

func (ip *Interp) callInstr(st *State, in ssa.CallInstruction) (*V, *State) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]*V, len(c.Args))
		for i, a := range c.Args {
			args[i] = ip.get(st, a)
		}
		cl, isCall := in.(*ssa.Call)
		if !isCall {
			unsup("deferred %s", b.Name())
		}
		v := ip.builtin(st, b.Name(), args, cl)
		return v, st
	}
	args := make([]*V, len(c.Args))
	for i, a := range c.Args {
		args[i] = ip.get(st, a)
	}
	if c.IsInvoke() {
		return ip.invoke(st, ip.get(st, c.Value), c.Method, args, in)
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return ip.callValue(st, ip.get(st, mc), args, in)
		}
		return ip.callFn(st, f, args, nil, in)
	}
	return ip.callValue(st, ip.get(st, c.Value), args, in)
}

func (ip *Interp) callValue(st *State, fv *V, args []*V, in ssa.CallInstruction) (*V, *State) {
	gs, vs := alts(fv, st.g)
	return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
		switch vs[i].k {
		case KFunc:
			return ip.callFn(s, vs[i].fn, args, vs[i].kids, in)
		case KNil:
			ip.oblige(s, "call of nil function", in, s.g)
			return nil, nil
		case KOpq:
			if h := ip.hooks["func:"+vs[i].s]; h != nil {
				return h(ip, s, args, in)
			}
		}
		unsup("call of %s", vs[i].short(2))
		return nil, nil
	})
}

// split runs f once per alternative and joins the results.
func (ip *Interp) split(st *State, gs []B, n int, f func(i int, s *State) (*V, *State)) (*V, *State) {
	if n == 1 {
		return f(0, st)
	}
	var out *State
	var val *V
	for i := 0; i < n; i++ {
		s := st.clone()
		s.g = and(st.g, gs[i])
		if s.g == bF {
			continue
		}
		v, ns := f(i, s)
		if ns == nil || ns.g == bF {
			continue
		}
		if out == nil {
			out, val = ns, v
			continue
		}
		g := or(out.g, ns.g)
		if val != nil && v != nil {
			val = vIte(restrict(ns.g, g), v, val)
		}
		out = ip.mergeStates(out, ns, nil)
	}
	return val, out
}

func (ip *Interp) invoke(st *State, recv *V, m *types.Func, args []*V, in ssa.CallInstruction) (*V, *State) {
	gs, vs := alts(recv, st.g)
	return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
		v := vs[i]
		switch v.k {
		case KNil:
			ip.oblige(s, "method call on nil interface", in, s.g)
			return nil, nil
		case KIface:
			if v.kids[0].k == KOpq && v.kids[0].s == "errwrap" {
				return ip.model(s, "(error)."+m.Name(), append([]*V{v}, args...), in)
			}
			if isErrIface(v) {
				return ip.model(s, "(error)."+m.Name(), append([]*V{v}, args...), in)
			}
			fn := ip.p.SSA.LookupMethod(v.t, m.Pkg(), m.Name())
			if fn == nil {
				unsup("method %s of %s", m.Name(), v.t)
			}
			return ip.callFn(s, fn, append([]*V{v.kids[0]}, args...), nil, in)
		case KOpq:
			return ip.model(s, "iface:"+v.s+"."+m.Name(), append([]*V{v}, args...), in)
		}
		unsup("method %s on %s", m.Name(), v.short(2))
		return nil, nil
	})
}

func isErrIface(v *V) bool {
	return v.k == KIface && v.kids[0].k == KOpq && strings.HasPrefix(v.kids[0].s, "err")
}

func (ip *Interp) callFn(st *State, fn *ssa.Function, args, bind []*V, in ssa.CallInstruction) (*V, *State) {
	name := fn.RelString(nil)
	if o := fn.Object(); o != nil && fn.Synthetic == "" {
		if fo, ok := o.(*types.Func); ok {
			name = fo.FullName()
		}
	}
	if og := fn.Origin(); og != nil {
		name = og.RelString(nil)
	}
	if fn.Synthetic == "package initializer" && len(ip.stack) > 0 {
		return vTuple(), st
	}
	if h := ip.hooks[name]; h != nil {
		ip.calls[name]++
		return h(ip, st, args, in)
	}
	if !ip.lowlevel {
		if h := primModels[name]; h != nil {
			ip.calls[name]++
			return h(ip, st, args, in)
		}
	}
	if v, ok := ip.constFold(st, name, args); ok {
		ip.calls[name]++
		return v, st
	}
	if h := models[name]; h != nil {
		ip.calls[name]++
		return h(ip, st, args, in)
	}
	if ip.inlinable(fn) {
		if os.Getenv("VERIF_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "%s%s\n", strings.Repeat(" ", ip.callD), fname(fn))
		}
		return ip.call(fn, args, bind, st)
	}
	unsup("call of %s", name)
	return nil, nil
}

func (ip *Interp) model(st *State, name string, args []*V, in ssa.CallInstruction) (*V, *State) {
	ip.calls[name]++
	if h := ip.hooks[name]; h != nil {
		return h(ip, st, args, in)
	}
	if h := models[name]; h != nil {
		return h(ip, st, args, in)
	}
	unsup("call of %s", name)
	return nil, nil
}

var inlinePkgs = map[string]bool{"encoding/binary": true, "math/bits": true, "unicode/utf8": true, "slices": true, "cmp": true, "internal/byteorder": true}

func (ip *Interp) inlinable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if ip.p.inRepo(fn) {
		return true
	}
	pk := fnPkg(fn)
	if pk == nil {
		return fn.Synthetic != "" // wrappers and bound methods
	}
	if inlinePkgs[pk.Path()] || strings.HasPrefix(pk.Path(), "specs") {
		return true
	}
	if fn.Synthetic != "" && fn.Name() != "init" && (strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") || strings.Contains(fn.Synthetic, "thunk")) {
		return true
	}
	return false
}

func (ip *Interp) builtin(st *State, name string, args []*V, in *ssa.Call) *V {
	switch name {
	case "len":
		return ip.lenOf(st, args[0])
	case "cap":
		gs, vs := alts(args[0], st.g)
		var out []*V
		for _, v := range vs {
			switch v.k {
			case KNil:
				out = append(out, vConst(0, 64))
			case KSlice:
				out = append(out, v.kids[3])
			default:
				out = append(out, ip.lenOf(st, v))
			}
		}
		return foldAlts(gs, out)
	case "append":
		a := ip.sliceSeq(st, args[0], st.g)
		b := ip.sliceSeq(st, args[1], st.g)
		if len(b.kids) == 0 {
			return args[0]
		}
		return ip.appendSeq(st, args[0], in.Type(), a, b)
	case "copy":
		return ip.copySlice(st, args[0], args[1])
	case "min", "max":
		r := args[0]
		_, signed, ok := intWidth(in.Type())
		if !ok {
			unsup("min or max of %s", in.Type())
		}
		for _, a := range args[1:] {
			lt := iLt(a, r, signed)
			if name == "max" {
				lt = iLt(r, a, signed)
			}
			r = iIte(lt, a, r)
		}
		return r
	case "ssa:wrapnilchk":
		gs, vs := alts(args[0], st.g)
		for i, v := range vs {
			if v.k == KNil {
				ip.oblige(st, "nil dereference", in, gs[i])
			}
		}
		return narrow(args[0], st.g)
	case "print", "println":
		return vTuple()
	case "delete":
		gs, vs := alts(args[0], st.g)
		for i, v := range vs {
			if v.k != KMap {
				continue
			}
			var ents []*V
			for _, e := range ip.objContent(st, v.n).kids {
				eq := ip.valEq(st, e.kids[0], args[1], gs[i])
				ents = append(ents, mk(V{k: KEntry, kids: e.kids, gs: []B{and(e.gs[0], not(and(eq, gs[i])))}}))
			}
			st.setMem(v.n, mkMapC(ents))
		}
		return vTuple()
	}
	unsup("builtin %s", name)
	return nil
}

// appendSeq appends b to the slice s with contents a, in place where the array behind it is
// known to have room.
func (ip *Interp) appendSeq(st *State, s *V, t types.Type, a, b *V) *V {
	if _, vs := alts(s, st.g); len(vs) == 1 && vs[0].k == KSlice {
		d := vs[0]
		end := iAdd(d.kids[2], seqLen(b))
		if implies(st.g, not(iUlt(d.kids[3], end))) {
			total := seqLen(ip.loadPath(ip.objContent(st, d.kids[0].n), d.kids[0].kids, st.g))
			if implies(st.g, not(iUlt(total, iAdd(d.kids[1], end)))) {
				ip.overwrite(st, vSlice(d.kids[0], iAdd(d.kids[1], d.kids[2]), seqLen(b), seqLen(b)), b)
				return vSlice(d.kids[0], d.kids[1], end, d.kids[3])
			}
		}
	}
	return ip.newSlice(st, t, seqOf(a, b))
}

func (ip *Interp) copySlice(st *State, dst, src *V) *V {
	s := ip.sliceSeq(st, src, st.g)
	sn := seqLen(s)
	dn := ip.lenOf(st, dst)
	n := iIte(iUlt(dn, sn), dn, sn)
	if c, ok := constUnder(n, st.g); ok {
		n = vConst(c, 64)
	}
	if c, ok := n.uconst(); ok && c == 0 {
		return n
	}
	part := seqSlice(s, vConst(0, 64), n, st.g)
	ip.overwrite(st, dst, part)
	return n
}

// overwrite stores seq at the start of the slice dst.
func (ip *Interp) overwrite(st *State, dst, part *V) {
	gs, vs := alts(dst, st.g)
	for i, d := range vs {
		if d.k == KNil {
			continue
		}
		if d.k != KSlice {
			unsup("copy to %s", d.short(2))
		}
		b := d.kids[0]
		old := ip.loadPath(ip.objContent(st, b.n), b.kids, gs[i])
		lo := d.kids[1]
		end := iAdd(lo, seqLen(part))
		total := seqLen(old)
		head := seqSlice(old, vConst(0, 64), lo, gs[i])
		tail := seqEmpty
		if !implies(gs[i], iEq(end, total)) {
			tail = seqSlice(old, end, total, gs[i])
		}
		nv := seqOf(head, part, tail)
		if len(vs) > 1 {
			nv = seqIte(restrict(gs[i], st.g), nv, old)
		}
		st.setMem(b.n, ip.storePath(ip.objContent(st, b.n), b.kids, nv, gs[i]))
	}
}
