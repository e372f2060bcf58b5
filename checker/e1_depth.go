package main

// C11: every recursion under control of the input or of an ABI definition is bounded.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

const maxRecursionLimit = 100000

func checkC11(p *Program) *Report {
	rep := newReport("in the call graph reachable from decoding (and from ABI-driven encoding, leaving out the reflective encoder), every cycle passes through a function that compares a depth counter with a constant, returns an error beyond it and counts up before it recurses, or that records and skips definitions it has visited")
	g := p.callGraph()
	decoder := p.named("pkg/abi", "Decoder")
	abiT := p.named("pkg/chain", "Abi")
	encoder := p.named("pkg/abi", "Encoder")
	if decoder == nil || abiT == nil || encoder == nil {
		rep.fail("anchor", "-", "the types abi.Decoder, abi.Encoder and chain.Abi were not found")
		return rep
	}
	isMethodOf := func(fn *ssa.Function, n *types.Named) bool {
		r := fn.Signature.Recv()
		if r == nil {
			return false
		}
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		return types.Identical(t, n)
	}
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] || isMethodOf(f, encoder) {
			return
		}
		reach[f] = true
		for _, e := range g.out[f] {
			visit(e.to)
		}
	}
	for _, fn := range p.Funcs {
		if exportedAPI(fn) && (isMethodOf(fn, decoder) || isMethodOf(fn, abiT) || fn.Name() == "UnmarshalABI") {
			visit(fn)
		}
	}
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if reach[f] {
			fns = append(fns, f)
		}
	}
	rep.Analysed["reachable_functions"] = len(fns)
	next := func(f *ssa.Function) []*ssa.Function {
		var o []*ssa.Function
		for _, e := range g.out[f] {
			if reach[e.to] {
				o = append(o, e.to)
			}
		}
		return o
	}
	comp, cyc := sccs(fns, next)
	groups := map[int][]*ssa.Function{}
	for _, f := range fns {
		if cyc[comp[f]] {
			groups[comp[f]] = append(groups[comp[f]], f)
		}
	}
	var ids []int
	for id := range groups {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return fname(groups[ids[i]][0]) < fname(groups[ids[j]][0]) })
	for _, id := range ids {
		rep.Analysed["recursive_components"]++
		d := &depthCheck{p: p, rep: rep, g: g, in: map[*ssa.Function]bool{}}
		for _, f := range groups[id] {
			d.in[f] = true
		}
		d.check(groups[id])
	}
	rep.floor("recursive_components", 2)
	rep.Assumptions = append(rep.Assumptions, "user-supplied UnmarshalABI methods recurse only through the decoder they are given")
	return rep
}

type depthCheck struct {
	p   *Program
	rep *Report
	g   *callGraph
	in  map[*ssa.Function]bool
}

// recursive call sites of f within the component
func (d *depthCheck) sites(f *ssa.Function) []callEdge {
	var out []callEdge
	for _, e := range d.g.out[f] {
		if d.in[e.to] {
			out = append(out, e)
		}
	}
	return out
}

func (d *depthCheck) check(fns []*ssa.Function) {
	guarded := map[*ssa.Function]string{}
	field := map[*types.Var]bool{}
	depthParams := map[*ssa.Function]int{}
	depthDir := map[*ssa.Function]int{}
	for _, f := range fns {
		d.rep.Obligations++
		if w := d.memoGuard(f); w != "" {
			guarded[f] = w
			continue
		}
		if v, w := d.fieldGuard(f); w != "" {
			guarded[f] = w
			field[v] = true
			continue
		}
		if i, dir, w := d.paramGuard(f); w != "" {
			guarded[f] = w
			depthParams[f] = i
			depthDir[f] = dir
		}
	}
	// no cycle may avoid the guards
	if path := d.cycleWithout(fns, func(e callEdge) bool { return guarded[e.from] != "" }); path != "" {
		d.rep.fail("unbounded-recursion:"+d.p.cycleKey(path), d.p.pos(fns[0].Pos()), "the recursion %s passes through no depth check", path)
		return
	}
	for v := range field {
		d.counterDiscipline(v)
		// a fresh decoder inside of the recursion would start counting again
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if al, ok := in.(*ssa.Alloc); ok && ownsField(al.Type().Underlying().(*types.Pointer).Elem(), v) {
						d.rep.fail("counter-reset:"+fname(f), d.p.instrPos(in), "%s is part of a recursion bounded by %s and makes a new %s, which starts counting from zero", fname(f), v.Name(), al.Type())
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						if c := ci.Common().StaticCallee(); c != nil && d.p.inRepo(c) && !d.in[c] {
							for i := 0; i < c.Signature.Results().Len(); i++ {
								if pt, ok := c.Signature.Results().At(i).Type().(*types.Pointer); ok && ownsField(pt.Elem(), v) {
									d.rep.fail("counter-reset:"+fname(f), d.p.instrPos(in), "%s is part of a recursion bounded by %s and makes a new %s, which starts counting from zero", fname(f), v.Name(), pt)
								}
							}
						}
					}
				}
			}
		}
	}
	if len(depthParams) > 0 {
		d.paramDiscipline(fns, depthParams, depthDir)
	}
	var names []string
	for f, w := range guarded {
		names = append(names, fname(f)+" ("+w+")")
	}
	sort.Strings(names)
	d.rep.sample("recursion of %d functions bounded by %s", len(fns), strings.Join(names, ", "))
}

func (p *Program) cycleKey(path string) string {
	parts := strings.Split(path, " -> ")
	sort.Strings(parts)
	return parts[0]
}

func ownsField(t types.Type, v *types.Var) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == v {
			return true
		}
	}
	return false
}

// cycleWithout finds a cycle that uses no edge for which skip holds.
func (d *depthCheck) cycleWithout(fns []*ssa.Function, skip func(callEdge) bool) string {
	next := func(f *ssa.Function) []*ssa.Function {
		var o []*ssa.Function
		for _, e := range d.sites(f) {
			if !skip(e) {
				o = append(o, e.to)
			}
		}
		return o
	}
	comp, cyc := sccs(fns, next)
	for _, f := range fns {
		if !cyc[comp[f]] {
			continue
		}
		// walk within the component back to f
		path := []string{fname(f)}
		seen := map[*ssa.Function]bool{}
		cur := f
		for {
			seen[cur] = true
			var nx *ssa.Function
			for _, w := range next(cur) {
				if comp[w] == comp[f] && (w == f || !seen[w]) {
					nx = w
					if w == f {
						break
					}
				}
			}
			if nx == nil || nx == f {
				path = append(path, fname(f))
				return strings.Join(path, " -> ")
			}
			path = append(path, fname(nx))
			cur = nx
		}
	}
	return ""
}

func constInt(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Value)
}

// exceeded analyses "v OP const" and gives the successor taken when v is above the limit.
func exceeded(b *ssa.BasicBlock, isV func(ssa.Value) bool) (over, under *ssa.BasicBlock, limit int64, ok bool) {
	ifi, y := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !y {
		return
	}
	cond := ifi.Cond
	neg := false
	for {
		u, y := cond.(*ssa.UnOp)
		if !y || u.Op != token.NOT {
			break
		}
		neg = !neg
		cond = u.X
	}
	bo, y := cond.(*ssa.BinOp)
	if !y {
		return
	}
	op := bo.Op
	x, k := bo.X, bo.Y
	lim, isC := constInt(k)
	if !isC {
		lim, isC = constInt(x)
		x = k
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !isC || !isV(x) {
		return
	}
	t, f := b.Succs[0], b.Succs[1]
	if neg {
		t, f = f, t
	}
	switch op {
	case token.GTR, token.GEQ:
		return t, f, lim, true
	case token.LSS, token.LEQ:
		return f, t, lim, true
	case token.EQL:
		return t, f, lim, true // with counting by one, equality is reached first
	case token.NEQ:
		return f, t, lim, true
	}
	return
}

// dominatedBy: in is only reached through the edge into block b (b has a single predecessor
// or dominates).
func edgeDominates(from, b *ssa.BasicBlock, in ssa.Instruction) bool {
	if len(b.Preds) == 1 && b.Dominates(in.Block()) {
		return true
	}
	// otherwise: without that edge, in must be unreachable from the entry
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, s := range x.Succs {
			if x == from && s == b {
				continue
			}
			visit(s)
		}
	}
	visit(in.Parent().Blocks[0])
	return !seen[in.Block()]
}

// returnsError: every return reachable from b without passing avoid carries an error.
func (d *depthCheck) returnsError(b *ssa.BasicBlock) bool {
	idx := errResultIndex(b.Parent().Signature)
	if idx < 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	w := &errWalker{p: d.p, fn: b.Parent(), visited: map[string]bool{}}
	var visit func(x, from *ssa.BasicBlock)
	visit = func(x, from *ssa.BasicBlock) {
		if r, y := x.Instrs[len(x.Instrs)-1].(*ssa.Return); y {
			v := r.Results[idx]
			if ph, y := v.(*ssa.Phi); y && ph.Block() == x && from != nil {
				for i, pr := range x.Preds {
					if pr == from {
						v = ph.Edges[i]
					}
				}
			}
			st := &errState{env: map[ssa.Value]errAbs{}, benv: map[ssa.Value]boolAbs{}, cells: map[ssa.Value]errAbs{}, phiSrc: map[ssa.Value]ssa.Value{}}
			if w.evalErr(v, st) != eNonNil {
				ok = false
			}
			return
		}
		if seen[x] {
			return
		}
		seen[x] = true
		for _, s := range x.Succs {
			visit(s, x)
		}
	}
	visit(b, nil)
	if !ok {
		// results kept in variables (functions with deferred calls)
		ww := &errWalker{p: d.p, fn: b.Parent(), visited: map[string]bool{}}
		ww.walk(b, 0, newErrState())
		return ww.bad == "" && !ww.parked && len(ww.kept) == 0
	}
	return ok
}

// paramGuard: f compares one of its integer parameters with a constant before it recurses. The
// second result is the direction it has to count in (0 for a test of equality: either).
func (d *depthCheck) paramGuard(f *ssa.Function) (int, int, string) {
	for i, prm := range f.Params {
		bt, ok := prm.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		for _, b := range f.Blocks {
			over, under, lim, ok := exceeded(b, func(v ssa.Value) bool { _, same := offsetOf(v, prm); return same })
			if !ok {
				continue
			}
			dir := 1
			if equalityTest(b) {
				dir = 0
			}
			if dir == 1 && !d.returnsError(over) {
				over, under, dir = under, over, -1 // what is left of a budget
			}
			if lim > maxRecursionLimit || !d.returnsError(over) {
				continue
			}
			all := true
			for _, e := range d.sites(f) {
				if !edgeDominates(b, under, e.site) {
					all = false
				}
			}
			if all {
				return i, dir, fmt.Sprintf("parameter %s limited to %d", prm.Name(), lim)
			}
		}
	}
	return -1, 0, ""
}

func equalityTest(b *ssa.BasicBlock) bool {
	cond := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok {
			break
		}
		cond = u.X
	}
	bo, ok := cond.(*ssa.BinOp)
	return ok && (bo.Op == token.EQL || bo.Op == token.NEQ)
}

// offsetOf: v = base + c
func offsetOf(v, base ssa.Value) (int64, bool) {
	if v == base {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if k, ok := constInt(x.Y); ok {
			if o, ok := offsetOf(x.X, base); ok {
				if x.Op == token.ADD {
					return o + k, true
				}
				if x.Op == token.SUB {
					return o - k, true
				}
			}
		}
		if k, ok := constInt(x.X); ok && x.Op == token.ADD {
			if o, ok := offsetOf(x.Y, base); ok {
				return o + k, true
			}
		}
	case *ssa.Convert:
		return offsetOf(x.X, base)
	}
	return 0, false
}

// paramDiscipline: along every call in the component the depth parameter does not decrease,
// and every cycle increases it (or, for a budget, the reverse; the budget then starts from a
// constant).
func (d *depthCheck) paramDiscipline(fns []*ssa.Function, depth, dirs map[*ssa.Function]int) {
	dir := int64(0)
	for _, f := range fns {
		if _, ok := depth[f]; ok && dirs[f] != 0 {
			if dir != 0 && int64(dirs[f]) != dir {
				d.rep.undecided(fname(f), "the functions of the recursion count their depth in different directions")
				return
			}
			dir = int64(dirs[f])
		}
	}
	// propagate which parameter carries the depth to the helpers in between
	carrier := map[*ssa.Function]int{}
	for f, i := range depth {
		carrier[f] = i
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if _, ok := carrier[f]; ok {
				continue
			}
			for _, e := range d.sites(f) {
				ti, ok := carrier[e.to]
				if !ok {
					continue
				}
				a := argFor(e, ti)
				for i, prm := range f.Params {
					if a != nil {
						if _, ok := offsetOf(a, prm); ok {
							carrier[f] = i
							changed = true
						}
					}
				}
			}
		}
	}
	inc := map[ssa.Instruction]bool{}
	if dir == 0 {
		dir = 1
		for _, f := range fns {
			fi, ok := carrier[f]
			for _, e := range d.sites(f) {
				if ti, ok2 := carrier[e.to]; ok && ok2 {
					if a := argFor(e, ti); a != nil {
						if o, same := offsetOf(a, f.Params[fi]); same && o < 0 {
							dir = -1
						}
					}
				}
			}
		}
	}
	if dir < 0 {
		d.budgets(carrier)
	}
	for _, f := range fns {
		fi, ok := carrier[f]
		for _, e := range d.sites(f) {
			ti, ok2 := carrier[e.to]
			if !ok || !ok2 {
				continue
			}
			a := argFor(e, ti)
			if a == nil {
				continue
			}
			d.rep.Obligations++
			o, same := offsetOf(a, f.Params[fi])
			o *= dir
			if !same || o < 0 {
				d.rep.fail("depth-not-passed:"+fname(f)+"->"+fname(e.to), d.p.instrPos(e.site), "%s does not pass its depth on to %s", fname(f), fname(e.to))
				continue
			}
			if o > 0 {
				inc[e.site] = true
			}
		}
	}
	if path := d.cycleWithout(fns, func(e callEdge) bool { return inc[e.site] }); path != "" {
		d.rep.fail("depth-not-counted:"+d.p.cycleKey(path), d.p.pos(fns[0].Pos()), "the recursion %s does not increase its depth", path)
	}
}

// budgets: the calls into the recursion from outside hand it a constant budget.
func (d *depthCheck) budgets(carrier map[*ssa.Function]int) {
	for _, f := range d.p.Funcs {
		if _, ok := carrier[f]; ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				to := ci.Common().StaticCallee()
				ti, ok := carrier[to]
				if to == nil || !ok || ti >= len(ci.Common().Args) {
					continue
				}
				d.rep.Obligations++
				k, isC := constInt(ci.Common().Args[ti])
				if isC && k > maxRecursionLimit {
					d.rep.fail("depth-budget:"+fname(f)+"->"+fname(to), d.p.instrPos(in), "%s starts the recursion of %s with a budget of %d", fname(f), fname(to), k)
				} else if !isC {
					d.rep.undecided(fname(f), fmt.Sprintf("starts the recursion of %s with a budget that is no constant (%s)", fname(to), d.p.instrPos(in)))
				}
			}
		}
	}
}

func argFor(e callEdge, i int) ssa.Value {
	c := e.site.Common()
	if c.IsInvoke() {
		i--
	}
	if i < 0 || i >= len(c.Args) {
		return nil
	}
	return c.Args[i]
}

// fieldLoad: v is a load of field fv (through any base pointer).
func fieldLoad(v ssa.Value) *types.Var {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	return fieldAddrVar(u.X)
}

func fieldAddrVar(v ssa.Value) *types.Var {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// counterStep: in adds c to field v.
func counterStep(in ssa.Instruction, v *types.Var) (int64, bool) {
	st, ok := in.(*ssa.Store)
	if !ok || fieldAddrVar(st.Addr) != v {
		return 0, false
	}
	base, off := st.Val, int64(0)
	for {
		if fieldLoad(base) == v {
			return off, true
		}
		bo, ok := base.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		k, ok := constInt(bo.Y)
		if !ok {
			return 0, false
		}
		switch bo.Op {
		case token.ADD:
			off += k
		case token.SUB:
			off -= k
		default:
			return 0, false
		}
		base = bo.X
	}
}

// fieldGuard: f, itself or through a helper, compares a counter field with a constant,
// returns an error beyond it, and has increased it before every recursive call.
func (d *depthCheck) fieldGuard(f *ssa.Function) (*types.Var, string) {
	sites := d.sites(f)
	if len(sites) == 0 {
		return nil, ""
	}
	for _, b := range f.Blocks {
		var v *types.Var
		over, under, lim, ok := exceeded(b, func(x ssa.Value) bool {
			if bo, y := x.(*ssa.BinOp); y {
				if _, c := constInt(bo.Y); c {
					x = bo.X
				}
			}
			v = fieldLoad(x)
			return v != nil
		})
		if ok && lim <= maxRecursionLimit && d.returnsError(over) {
			all := true
			for _, e := range sites {
				if !edgeDominates(b, under, e.site) || !d.countedBefore(f, v, e.site) {
					all = false
				}
			}
			if all {
				return v, fmt.Sprintf("%s limited to %d", v.Name(), lim)
			}
		}
		// helper: err := h(); if err != nil return err
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			h := call.Call.StaticCallee()
			if h == nil || !d.p.inRepo(h) || h.Blocks == nil || d.in[h] || errResultIndex(h.Signature) < 0 {
				continue
			}
			v, lim := d.enteringHelper(h)
			if v == nil {
				continue
			}
			msg, _ := checkErrorCall(d.p, f, call)
			if msg != "" {
				continue
			}
			all := true
			for _, e := range sites {
				if !precedes(call, e.site) || !d.nilChecked(call, e.site) {
					all = false
				}
			}
			if all {
				return v, fmt.Sprintf("%s limited to %d by %s", v.Name(), lim, fname(h))
			}
		}
	}
	return nil, ""
}

// nilChecked: site is only reached when the error of call is nil.
func (d *depthCheck) nilChecked(call *ssa.Call, site ssa.Instruction) bool {
	var ev ssa.Value = call
	if call.Call.Signature().Results().Len() > 1 {
		ev = nil
		idx := errResultIndex(call.Call.Signature())
		for _, r := range *call.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == idx {
				ev = ex
			}
		}
	}
	if ev == nil {
		return false
	}
	for _, r := range *ev.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || (bo.Op != token.NEQ && bo.Op != token.EQL) {
			continue
		}
		for _, u := range *bo.Referrers() {
			ifi, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			nilSucc := ifi.Block().Succs[1]
			if bo.Op == token.EQL {
				nilSucc = ifi.Block().Succs[0]
			}
			if edgeDominates(ifi.Block(), nilSucc, site) {
				return true
			}
		}
	}
	return false
}

// enteringHelper: h returns an error if the counter is at its limit and has increased it when
// it returns nil.
func (d *depthCheck) enteringHelper(h *ssa.Function) (*types.Var, int64) {
	for _, b := range h.Blocks {
		var v *types.Var
		over, under, lim, ok := exceeded(b, func(x ssa.Value) bool { v = fieldLoad(x); return v != nil })
		if !ok || lim > maxRecursionLimit || !d.returnsError(over) {
			continue
		}
		_ = under
		all := true
		idx := errResultIndex(h.Signature)
		for _, rb := range h.Blocks {
			r, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return)
			if !ok || r.Results[idx] != nil && !isNilConst(r.Results[idx]) {
				continue
			}
			if !d.countedBefore(h, v, r) {
				all = false
			}
		}
		if all {
			return v, lim
		}
	}
	return nil, 0
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// countedBefore: on every path from entry to in, the net change of counter v is positive.
func (d *depthCheck) countedBefore(f *ssa.Function, v *types.Var, in ssa.Instruction) bool {
	n, ok := d.minNet(f, v, in)
	return ok && n > 0
}

// minNet: the least net change of counter v on a path from entry to just before in (or to any
// return if in is nil), by iteration; ok is false if it is unbounded below.
func (d *depthCheck) minNet(f *ssa.Function, v *types.Var, target ssa.Instruction) (int64, bool) {
	const inf = int64(1) << 40
	at := map[*ssa.BasicBlock]int64{}
	for _, b := range f.Blocks {
		at[b] = inf
	}
	at[f.Blocks[0]] = 0
	best := inf
	for round := 0; round < len(f.Blocks)+3; round++ {
		changed := false
		best = inf
		for _, b := range f.Blocks {
			if at[b] == inf {
				continue
			}
			n := at[b]
			for _, in := range b.Instrs {
				if in == target {
					best = min(best, n)
				}
				if s, ok := counterStep(in, v); ok {
					n += s
				}
				switch x := in.(type) {
				case *ssa.Call:
					n += d.helperNet(x.Call.StaticCallee(), v)
				case *ssa.RunDefers:
					n += d.deferredNet(f, v, b)
				case *ssa.Return:
					if target == nil {
						best = min(best, n)
					}
				}
			}
			for _, s := range b.Succs {
				if n < at[s] {
					at[s] = n
					changed = true
				}
			}
		}
		if !changed {
			return best, true
		}
	}
	return best, false
}

// deferredNet: least net change of the counter by the deferred calls that run in block b.
func (d *depthCheck) deferredNet(f *ssa.Function, v *types.Var, b *ssa.BasicBlock) int64 {
	n := int64(0)
	for _, db := range f.Blocks {
		for _, in := range db.Instrs {
			x, ok := in.(*ssa.Defer)
			if !ok || !blockReaches(db, b) {
				continue
			}
			h := x.Call.StaticCallee()
			if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
				h = mc.Fn.(*ssa.Function)
			}
			k := d.helperNet(h, v)
			switch {
			case k < 0 && cyclic(db):
				n -= 1 << 20
			case k < 0 || db.Dominates(b):
				n += k
			}
		}
	}
	return n
}

// helperNet: net change of the counter by a helper outside of the recursion.
func (d *depthCheck) helperNet(h *ssa.Function, v *types.Var) int64 {
	if h == nil || !d.p.inRepo(h) || h.Blocks == nil || d.in[h] {
		return 0
	}
	touches := false
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			if _, ok := counterStep(in, v); ok {
				touches = true
			}
		}
	}
	if !touches {
		return 0
	}
	if w, _ := d.enteringHelper(h); w == v {
		return 1
	}
	n, ok := d.minNet(h, v, nil)
	if !ok {
		return -1 << 20
	}
	return n
}

// counterDiscipline: nothing sets the counter except by counting, and no function ends with a
// lower count than it started with, unless it only undoes what its caller did.
func (d *depthCheck) counterDiscipline(v *types.Var) {
	for _, f := range d.p.Funcs {
		touches := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || fieldAddrVar(st.Addr) != v {
					continue
				}
				d.rep.Obligations++
				if fa := st.Addr.(*ssa.FieldAddr); isAlloc(fa.X) {
					continue // initialisation of a new object
				}
				if _, ok := counterStep(in, v); !ok {
					d.rep.fail("counter-set:"+fname(f), d.p.instrPos(in), "%s sets the depth counter %s instead of counting", fname(f), v.Name())
					continue
				}
				touches = true
			}
		}
		if touches && d.in[f] {
			if n, ok := d.minNet(f, v, nil); !ok || n < 0 {
				d.rep.fail("counter-leak:"+fname(f), d.p.pos(f.Pos()), "%s can lower the depth counter %s below its value on entry", fname(f), v.Name())
			}
		}
	}
}

func isAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

// memoGuard: f looks its key up in a map and returns if it is present, and enters the key
// before it recurses.
func (d *depthCheck) memoGuard(f *ssa.Function) string {
	sites := d.sites(f)
	if len(sites) == 0 {
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			up, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if _, ok := up.Key.(*ssa.Parameter); !ok {
				continue
			}
			looked := false
			for _, lb := range f.Blocks {
				for _, li := range lb.Instrs {
					lk, ok := li.(*ssa.Lookup)
					if ok && lk.Index == up.Key && sameCell(lk.X, up.Map) && presentReturns(lk) {
						looked = true
					}
				}
			}
			if !looked {
				continue
			}
			all := true
			for _, e := range sites {
				if !precedes(up, e.site) {
					all = false
				}
			}
			if all {
				return "each definition visited once"
			}
		}
	}
	return ""
}

func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, y := fieldLoad(a), fieldLoad(b)
	return x != nil && x == y
}

// presentReturns: the branch for a present key leaves the function without recursion.
func presentReturns(lk *ssa.Lookup) bool {
	var conds []ssa.Value
	var vals []ssa.Value = []ssa.Value{lk}
	if lk.CommaOk {
		vals = nil
		for _, r := range *lk.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok {
				if ex.Index == 1 {
					conds = append(conds, ex)
				} else {
					vals = append(vals, ex)
				}
			}
		}
	}
	neg := map[ssa.Value]bool{}
	for _, v := range vals {
		for _, r := range *v.Referrers() {
			if bo, ok := r.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) {
				conds = append(conds, bo)
				neg[bo] = bo.Op == token.EQL
			}
		}
	}
	for _, c := range conds {
		for _, r := range *c.Referrers() {
			ifi, ok := r.(*ssa.If)
			if !ok {
				continue
			}
			s := ifi.Block().Succs[0]
			if neg[c] {
				s = ifi.Block().Succs[1]
			}
			if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
	}
	return false
}
