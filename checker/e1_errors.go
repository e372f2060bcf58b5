package main

// C01: error typestate. For every call whose failure can stem from the reader, the writer
// or user code, walk the control flow forward from the call under the assumption that its
// error is non-nil; every way out of the function must return a non-nil error.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

type ioTypes struct {
	p               *Program
	reader, writer  *types.Interface
	encoder, decode types.Type
	encFn, decFn    types.Type
}

func newIOTypes(p *Program) *ioTypes {
	t := &ioTypes{p: p}
	if x := p.stdType("io", "Reader"); x != nil {
		t.reader, _ = x.Underlying().(*types.Interface)
	}
	if x := p.stdType("io", "Writer"); x != nil {
		t.writer, _ = x.Underlying().(*types.Interface)
	}
	if n := p.named("pkg/abi", "Encoder"); n != nil {
		t.encoder = types.NewPointer(n)
	}
	if n := p.named("pkg/abi", "Decoder"); n != nil {
		t.decode = types.NewPointer(n)
	}
	return t
}

// carries reports whether a value of type t gives access to the caller's reader or writer.
func (t *ioTypes) carries(x types.Type) bool {
	x = types.Unalias(x)
	if types.Identical(x, t.encoder) || types.Identical(x, t.decode) {
		return true
	}
	if it, ok := x.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return false
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			sig := m.Type().(*types.Signature)
			if m.Name() == "Read" || m.Name() == "Write" || m.Name() == "ReadByte" || m.Name() == "WriteByte" || m.Name() == "ReadFrom" || m.Name() == "WriteTo" {
				return true
			}
			for j := 0; j < sig.Params().Len(); j++ {
				pt := types.Unalias(sig.Params().At(j).Type())
				if types.Identical(pt, t.encoder) || types.Identical(pt, t.decode) {
					return true
				}
			}
		}
	}
	return false
}

// infallible sinks: their error result is nil by contract
func infallible(c *ssa.CallCommon) bool {
	n := calleeName(c)
	for _, pre := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(hash.Hash).", "(*github.com/greymass/go-eosio/pkg/ripemd160.digest).Write"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	if c.IsInvoke() {
		if nt, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "hash" {
			return true
		}
	}
	if strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "errors.") {
		return true
	}
	// fmt.Fprint* into an in-memory sink is covered by the argument type test in tracked
	return false
}

func errResultIndex(sig *types.Signature) int {
	r := sig.Results()
	if r.Len() == 0 {
		return -1
	}
	if isErrorType(r.At(r.Len() - 1).Type()) {
		return r.Len() - 1
	}
	return -1
}

func (t *ioTypes) tracked(c *ssa.CallCommon) bool {
	sig := c.Signature()
	if errResultIndex(sig) < 0 || infallible(c) {
		return false
	}
	if t.carries(c.Value.Type()) {
		return true
	}
	for _, a := range c.Args {
		if t.carries(a.Type()) && !inMemory(a) {
			return true
		}
	}
	// closures capturing the encoder/decoder
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			if t.carries(b.Type()) || ptrTo(b.Type(), t.carries) {
				return true
			}
		}
	}
	// calls of function values inside functions that handle an encoder/decoder
	if c.StaticCallee() == nil && !c.IsInvoke() {
		return true
	}
	// in-repo functions reaching I/O through their receiver or parameters
	if f := c.StaticCallee(); f != nil && t.p.inRepo(f) {
		for _, a := range c.Args {
			if structCarries(a.Type(), t) {
				return true
			}
		}
	}
	return false
}

func ptrTo(x types.Type, f func(types.Type) bool) bool {
	if pt, ok := x.Underlying().(*types.Pointer); ok {
		return f(pt.Elem())
	}
	return false
}

func structCarries(x types.Type, t *ioTypes) bool {
	if pt, ok := x.Underlying().(*types.Pointer); ok {
		x = pt.Elem()
	}
	st, ok := x.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if t.carries(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// inMemory: an interface value made from an in-memory buffer in the same expression.
func inMemory(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		s := mi.X.Type().String()
		return s == "*bytes.Buffer" || s == "*strings.Builder"
	}
	return false
}

// ---- abstract error values -------------------------------------------------------------

type errAbs int

const (
	eUnknown errAbs = iota
	eNil
	eNonNil
)

type boolAbs int

const (
	bUnknown boolAbs = iota
	bTrue
	bFalse
)

type errWalker struct {
	p       *Program
	fn      *ssa.Function
	call    ssa.Instruction
	errv    ssa.Value // the error under consideration
	visited map[string]bool
	steps   int
	bad     string
	badPos  string
	kept    map[ssa.Value]bool // captured variables that take the error over when the function returns
	parked  bool               // the error was stored where this analysis does not follow it
	cell    ssa.Value          // instead of errv: a captured variable holding the error (see cellKept)
}

type errState struct {
	env    map[ssa.Value]errAbs // phis and cells of error type
	benv   map[ssa.Value]boolAbs
	cells  map[ssa.Value]errAbs // stores to addresses (non-lifted variables)
	again  bool                 // the call has been executed again: errv itself is no longer the failed one
	eof    bool
	posEq  bool
	trail  []string
	phiSrc map[ssa.Value]ssa.Value // bool phi -> condition value it stands for
}

func (s *errState) clone() *errState {
	n := &errState{env: map[ssa.Value]errAbs{}, benv: map[ssa.Value]boolAbs{}, cells: map[ssa.Value]errAbs{}, phiSrc: map[ssa.Value]ssa.Value{}, again: s.again, eof: s.eof, posEq: s.posEq, trail: s.trail}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.benv {
		n.benv[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.phiSrc {
		n.phiSrc[k] = v
	}
	return n
}

func (s *errState) key(b *ssa.BasicBlock) string {
	var parts []string
	for k, v := range s.env {
		parts = append(parts, fmt.Sprintf("%s=%d", k.Name(), v))
	}
	for k, v := range s.benv {
		parts = append(parts, fmt.Sprintf("%s?%d", k.Name(), v))
	}
	for k, v := range s.cells {
		parts = append(parts, fmt.Sprintf("*%s=%d", k.Name(), v))
	}
	for k, v := range s.phiSrc {
		parts = append(parts, fmt.Sprintf("%s~%s", k.Name(), v.Name()))
	}
	sort.Strings(parts)
	return fmt.Sprintf("%d|%v%v%v|%s", b.Index, s.again, s.eof, s.posEq, strings.Join(parts, ","))
}

func (w *errWalker) evalErr(v ssa.Value, s *errState) errAbs {
	if v == w.errv && !s.again {
		return eNonNil
	}
	if a, ok := s.env[v]; ok {
		return a
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return eNil
		}
	case *ssa.MakeInterface:
		return eNonNil
	case *ssa.ChangeInterface:
		return w.evalErr(v.X, s)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok {
				if isErrorType(g.Type().(*types.Pointer).Elem()) {
					return eNonNil // package-level sentinel errors
				}
			}
			if a, ok := s.cells[v.X]; ok {
				return a
			}
		}
	case *ssa.Call:
		n := calleeName(&v.Call)
		switch n {
		case "errors.New", "fmt.Errorf":
			return eNonNil
		case "errors.Join":
			return eUnknown
		}
		if f := v.Call.StaticCallee(); f != nil && f.Blocks != nil && w.p.inRepo(f) {
			for i, a := range v.Call.Args {
				if isErrorType(a.Type()) && w.evalErr(a, s) == eNonNil && i < len(f.Params) {
					if preservesError(w.p, f, f.Params[i]) {
						return eNonNil
					}
				}
			}
			if alwaysError(f, map[*ssa.Function]bool{}) {
				return eNonNil
			}
		}
	}
	return eUnknown
}

// preservesError: f returns a non-nil error whenever parameter pv is non-nil.
func preservesError(p *Program, f *ssa.Function, pv ssa.Value) bool {
	if errResultIndex(f.Signature) < 0 {
		return false
	}
	w := &errWalker{p: p, fn: f, errv: pv, visited: map[string]bool{}}
	w.walk(f.Blocks[0], 0, &errState{env: map[ssa.Value]errAbs{}, benv: map[ssa.Value]boolAbs{}, cells: map[ssa.Value]errAbs{}, phiSrc: map[ssa.Value]ssa.Value{}})
	return w.bad == ""
}

// alwaysError: every return of f carries a freshly made error.
func alwaysError(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	idx := errResultIndex(f.Signature)
	if idx < 0 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		switch x := r.Results[idx].(type) {
		case *ssa.MakeInterface:
		case *ssa.Call:
			nm := calleeName(&x.Call)
			if nm == "errors.New" || nm == "fmt.Errorf" {
				continue
			}
			if g := x.Call.StaticCallee(); g == nil || g.Blocks == nil || !alwaysError(g, seen) {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

func isEOFGlobal(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
}

// isPosition: an int64 read from the decoder (field or accessor), possibly saved earlier.
func (w *errWalker) isPosition(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	isDec := func(t types.Type) bool {
		n := w.p.named("pkg/abi", "Decoder")
		if pt, ok := types.Unalias(t).(*types.Pointer); ok {
			t = pt.Elem()
		}
		return n != nil && types.Identical(types.Unalias(t), n)
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return isDec(fa.X.Type())
				}
			}
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && isDec(f.Signature.Recv().Type()) && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
			b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		}
	case *ssa.Convert:
		return w.isPosition(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != v && !w.isPosition(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

type condFact struct {
	val          boolAbs
	eofOn, posOn boolAbs // fact established when the condition has this value
}

func (w *errWalker) evalCond(v ssa.Value, s *errState) condFact {
	if b, ok := s.benv[v]; ok && b != bUnknown {
		return condFact{val: b}
	}
	if src, ok := s.phiSrc[v]; ok {
		return w.evalCond(src, s)
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return condFact{val: bTrue}
			}
			return condFact{val: bFalse}
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			c := w.evalCond(v.X, s)
			neg := func(b boolAbs) boolAbs {
				switch b {
				case bTrue:
					return bFalse
				case bFalse:
					return bTrue
				}
				return bUnknown
			}
			return condFact{neg(c.val), neg(c.eofOn), neg(c.posOn)}
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			on := bTrue
			if v.Op == token.NEQ {
				on = bFalse
			}
			if isErrorType(v.X.Type()) || isErrorType(v.Y.Type()) {
				a, b := w.evalErr(v.X, s), w.evalErr(v.Y, s)
				xs, ys := w.isE(v.X, s), w.isE(v.Y, s)
				if (xs && isEOFGlobal(v.Y)) || (ys && isEOFGlobal(v.X)) {
					return condFact{eofOn: on}
				}
				if (a == eNil && b == eNonNil) || (a == eNonNil && b == eNil) {
					if on == bTrue {
						return condFact{val: bFalse}
					}
					return condFact{val: bTrue}
				}
				if a == eNil && b == eNil {
					return condFact{val: on}
				}
			}
			if w.isPosition(v.X, 0) && w.isPosition(v.Y, 0) {
				return condFact{posOn: on}
			}
		}
	case *ssa.Call:
		if calleeName(&v.Call) == "errors.Is" && len(v.Call.Args) == 2 && w.isE(v.Call.Args[0], s) && isEOFGlobal(v.Call.Args[1]) {
			return condFact{eofOn: bTrue}
		}
	}
	return condFact{}
}

// isE: the value is (an alias of) the failing error itself.
func (w *errWalker) isE(v ssa.Value, s *errState) bool {
	return w.evalErr(v, s) == eNonNil && !isEOFGlobal(v)
}

func (w *errWalker) walk(b *ssa.BasicBlock, idx int, s *errState) {
	if w.bad != "" {
		return
	}
	w.steps++
	if w.steps > 200000 {
		w.bad, w.badPos = "control flow too complex to follow", w.p.pos(w.fn.Pos())
		return
	}
	for i := idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if w.call != nil && in == w.call {
			s.again = true
			for _, r := range *w.call.(ssa.Value).Referrers() {
				if ex, ok := r.(*ssa.Extract); ok {
					delete(s.benv, ex)
				}
			}
		}
		switch in := in.(type) {
		case *ssa.Store:
			if isErrorType(in.Val.Type()) {
				s.cells[in.Addr] = w.evalErr(in.Val, s)
			}
		case *ssa.Call:
			w.overwrites(in, s)
		case *ssa.UnOp:
			if in.Op == token.MUL && isErrorType(in.Type()) {
				if a, ok := s.cells[in.X]; ok {
					s.env[in] = a
				} else {
					delete(s.env, in)
				}
			}
		case *ssa.Return:
			ei := errResultIndex(w.fn.Signature)
			if s.eof && s.posEq {
				return
			}
			if w.cell != nil {
				if s.cells[w.cell] != eNonNil {
					w.bad = "overwritten"
				}
				return
			}
			if (ei < 0 || w.evalErr(in.Results[ei], s) != eNonNil) && w.handedOver(s) {
				return
			}
			if ei < 0 {
				w.bad = "the function returns normally and has no error result"
			} else if a := w.evalErr(in.Results[ei], s); a == eNil {
				w.bad = "the function returns a nil error"
			} else if a == eUnknown {
				w.bad = "the function returns another error value, which may be nil"
			}
			if w.bad != "" {
				w.badPos = w.p.instrPos(in)
				w.bad += via(s)
			}
			return
		case *ssa.Panic:
			if errResultIndex(w.fn.Signature) >= 0 {
				w.bad, w.badPos = "the function panics instead of returning the error"+via(s), w.p.instrPos(in)
			}
			return
		case *ssa.If:
			c := w.evalCond(in.Cond, s)
			for k, succ := range b.Succs {
				want := bTrue
				if k == 1 {
					want = bFalse
				}
				if c.val != bUnknown && c.val != want {
					continue
				}
				n := s.clone()
				if c.eofOn == want {
					n.eof = true
				}
				if c.posOn == want {
					n.posEq = true
				}
				if c.val == bUnknown {
					if _, isPhi := in.Cond.(*ssa.Phi); !isPhi {
						n.benv[in.Cond] = want
					}
				}
				n.trail = append(append([]string{}, s.trail...), w.p.instrPos(in))
				w.enter(b, succ, n)
			}
			return
		case *ssa.Jump:
			w.enter(b, b.Succs[0], s)
			return
		}
	}
}

// handedOver: the error is held by a variable that outlives the function: one captured from
// the enclosing function, which is followed there, or memory behind a pointer, which is not.
func (w *errWalker) handedOver(s *errState) bool {
	ok := false
	for a, e := range s.cells {
		if e != eNonNil {
			continue
		}
		switch a := a.(type) {
		case *ssa.FreeVar:
			if w.kept == nil {
				w.kept = map[ssa.Value]bool{}
			}
			w.kept[a] = true
			ok = true
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Parameter:
			w.parked = true
			ok = true
		}
	}
	return ok
}

// overwrites: a call of a closure that captures a variable holding the error may replace it.
func (w *errWalker) overwrites(in *ssa.Call, s *errState) {
	mc, ok := in.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if s.cells[b] == eNonNil && !cellKept(w.p, f, f.FreeVars[i]) {
			delete(s.cells, b)
		}
	}
}

// cellKept: f leaves the captured error variable fv non-nil when it is non-nil on entry.
func cellKept(p *Program, f *ssa.Function, fv *ssa.FreeVar) bool {
	w := &errWalker{p: p, fn: f, cell: fv, visited: map[string]bool{}}
	s := newErrState()
	s.cells[fv] = eNonNil
	w.walk(f.Blocks[0], 0, s)
	return w.bad == ""
}

func newErrState() *errState {
	return &errState{env: map[ssa.Value]errAbs{}, benv: map[ssa.Value]boolAbs{}, cells: map[ssa.Value]errAbs{}, phiSrc: map[ssa.Value]ssa.Value{}}
}

// followCaptured continues in the functions that call the closure w.fn, with the captured
// variables holding the error.
func (w *errWalker) followCaptured() {
	parent := w.fn.Parent()
	for fv := range w.kept {
		if parent == nil {
			w.parked = true
			continue
		}
		idx := -1
		for i, f := range w.fn.FreeVars {
			if f == fv {
				idx = i
			}
		}
		for _, b := range parent.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != w.fn {
					continue
				}
				for _, r := range *mc.Referrers() {
					call, ok := r.(*ssa.Call)
					if !ok || call.Call.Value != mc {
						w.parked = true // called from elsewhere
						continue
					}
					pw := &errWalker{p: w.p, fn: parent, visited: map[string]bool{}}
					s := newErrState()
					s.cells[mc.Bindings[idx]] = eNonNil
					pos := 0
					for i, x := range call.Block().Instrs {
						if x == ssa.Instruction(call) {
							pos = i + 1
						}
					}
					pw.walk(call.Block(), pos, s)
					pw.followCaptured()
					if pw.bad != "" {
						w.bad, w.badPos = pw.bad, pw.badPos
						return
					}
					w.parked = w.parked || pw.parked
				}
			}
		}
	}
}

// flagsOnError: the values a boolean result can have when the error result is not nil;
// ok is false if they are not all known.
func flagsOnError(f *ssa.Function, bi, ei int, seen map[*ssa.Function]bool) (t, fl, ok bool) {
	if seen[f] || f.Blocks == nil {
		return false, false, false
	}
	seen[f] = true
	defer delete(seen, f)
	ok = true
	var pair func(b, e ssa.Value, d int)
	pair = func(b, e ssa.Value, d int) {
		if !ok {
			return
		}
		if c, isC := e.(*ssa.Const); isC && c.IsNil() {
			return
		}
		if d < 6 {
			bp, b1 := b.(*ssa.Phi)
			ep, e1 := e.(*ssa.Phi)
			switch {
			case b1 && e1 && bp.Block() == ep.Block():
				for i := range bp.Edges {
					pair(bp.Edges[i], ep.Edges[i], d+1)
				}
				return
			case b1 && !e1:
				for i := range bp.Edges {
					pair(bp.Edges[i], e, d+1)
				}
				return
			case e1 && !b1:
				for i := range ep.Edges {
					pair(b, ep.Edges[i], d+1)
				}
				return
			}
		}
		if c, isC := b.(*ssa.Const); isC && c.Value != nil && c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				t = true
			} else {
				fl = true
			}
			return
		}
		bx, b1 := b.(*ssa.Extract)
		ex, e1 := e.(*ssa.Extract)
		if b1 && e1 && bx.Tuple == ex.Tuple {
			if call, isCall := bx.Tuple.(*ssa.Call); isCall && call.Call.StaticCallee() != nil {
				t1, f1, ok1 := flagsOnError(call.Call.StaticCallee(), bx.Index, ex.Index, seen)
				t, fl, ok = t || t1, fl || f1, ok1
				return
			}
		}
		ok = false
	}
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			pair(r.Results[bi], r.Results[ei], 0)
		}
	}
	return
}

func via(s *errState) string {
	if len(s.trail) == 0 {
		return ""
	}
	t := s.trail
	if len(t) > 6 {
		t = t[len(t)-6:]
	}
	return " (branches taken at " + strings.Join(t, ", ") + ")"
}

func (w *errWalker) enter(from, to *ssa.BasicBlock, s *errState) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type upd struct {
		v ssa.Value
		e errAbs
		b boolAbs
		k int
		c ssa.Value
	}
	var ups []upd
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isErrorType(ph.Type()) {
			ups = append(ups, upd{v: ph, e: w.evalErr(ph.Edges[pi], s)})
		} else if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			c := w.evalCond(ph.Edges[pi], s)
			ups = append(ups, upd{v: ph, b: c.val, k: 1, c: ph.Edges[pi]})
		}
	}
	for _, u := range ups {
		if u.k == 0 {
			s.env[u.v] = u.e
		} else {
			delete(s.phiSrc, u.v)
			if u.b == bUnknown {
				delete(s.benv, u.v)
				s.phiSrc[u.v] = u.c
			} else {
				s.benv[u.v] = u.b
			}
		}
	}
	// conditions defined in a block that is entered again are recomputed
	for _, in := range to.Instrs {
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := v.(*ssa.Phi); !isPhi {
				delete(s.benv, v)
			}
		}
	}
	k := s.key(to)
	if w.visited[k] {
		return
	}
	w.visited[k] = true
	w.walk(to, 0, s)
}

// checkErrorCall checks one call site; it returns "" if the error always surfaces.
func checkErrorCall(p *Program, fn *ssa.Function, in ssa.CallInstruction) (string, string) {
	c := in.Common()
	idx := errResultIndex(c.Signature())
	call, ok := in.(*ssa.Call)
	if !ok {
		return "the error of a deferred or concurrent call is lost", p.instrPos(in)
	}
	var ev ssa.Value
	if c.Signature().Results().Len() == 1 {
		ev = call
	} else {
		for _, r := range *call.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == idx {
				ev = ex
			}
		}
	}
	if ev == nil || len(*ev.Referrers()) == 0 {
		return "the error result is discarded", p.instrPos(in)
	}
	b := in.Block()
	pos := 0
	for i, x := range b.Instrs {
		if x == ssa.Instruction(call) {
			pos = i + 1
		}
	}
	w := &errWalker{p: p, fn: fn, call: call, errv: ev, visited: map[string]bool{}}
	st := newErrState()
	if f := c.StaticCallee(); f != nil && p.inRepo(f) {
		for _, r := range *call.Referrers() {
			ex, ok := r.(*ssa.Extract)
			if !ok || ex.Index == idx {
				continue
			}
			if bt, isB := ex.Type().Underlying().(*types.Basic); !isB || bt.Kind() != types.Bool {
				continue
			}
			if t, fl, ok := flagsOnError(f, ex.Index, idx, map[*ssa.Function]bool{}); ok && t != fl {
				st.benv[ex] = bFalse
				if t {
					st.benv[ex] = bTrue
				}
			}
		}
	}
	w.walk(b, pos, st)
	if w.bad == "" {
		w.followCaptured()
	}
	if w.bad == "" && w.parked {
		return "", "parked"
	}
	return w.bad, w.badPos
}

// countedRead: a direct Read in a loop whose byte count is used. A reader may return its error
// together with the last bytes asked for, so dropping it then loses nothing.
func countedRead(ci ssa.CallInstruction) bool {
	c := ci.Common()
	call, ok := ci.(*ssa.Call)
	if !ok || !c.IsInvoke() || c.Method.Name() != "Read" || c.Method.FullName() != "(io.Reader).Read" {
		return false
	}
	used := false
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 && len(*ex.Referrers()) > 0 {
			used = true
		}
	}
	return used && inCycle(call.Block())
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

func checkC01(p *Program) *Report {
	rep := newReport("for every call that can fail because of the reader, the writer or user code, every control-flow path on which its error is non-nil leaves the function with a non-nil error (or, for end of input at an unchanged position, the extension exception)")
	t := newIOTypes(p)
	for _, fn := range p.Funcs {
		switch pkgRel(fn) {
		case "pkg/abi", "pkg/chain":
		default:
			continue
		}
		any := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !t.tracked(ci.Common()) {
					continue
				}
				any = true
				rep.Obligations++
				rep.Analysed["call_sites"]++
				msg, pos := checkErrorCall(p, fn, ci)
				callee := calleeName(ci.Common())
				if callee == "" {
					callee = "function value"
				}
				callee = strings.ReplaceAll(callee, modPath+"/pkg/", "")
				if msg != "" && countedRead(ci) {
					rep.undecided(fname(fn), fmt.Sprintf("the error of %s (%s) is weighed against the number of bytes it read (C22 decides the reading)", callee, p.instrPos(ci)))
				} else if msg != "" {
					rep.fail("error-lost:"+fname(fn)+"->"+callee, p.instrPos(ci), "in %s, the error of %s (%s) can be lost: %s; exit at %s", fname(fn), callee, p.instrPos(ci), msg, pos)
				} else if pos == "parked" {
					rep.Undecided = append(rep.Undecided, fmt.Sprintf("%s: the error of %s (%s) is stored in memory that is not followed", fname(fn), callee, p.instrPos(ci)))
				} else {
					rep.sample("%s: error of %s at %s reaches every exit", fname(fn), callee, p.instrPos(ci))
				}
			}
		}
		if any {
			rep.Analysed["functions"]++
		}
	}
	rep.floor("call_sites", 60)
	rep.floor("functions", 30)
	rep.Assumptions = append(rep.Assumptions, "package-level error variables are non-nil", "bytes.Buffer, strings.Builder and hash.Hash writes do not fail (documented)")
	return rep
}
