package main

// Points-to analysis used for C14 (caller memory) and C16 (package state): inclusion based,
// field sensitive, with call-string contexts, run separately for every exported operation.
// Memory the caller brings along is one summary object per parameter; everything allocated
// on the way is one object per allocation site and context.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func hasPointers(t types.Type) bool { return hasPointersR(t, 0) }

func hasPointersR(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Array:
		return hasPointersR(t.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointersR(t.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if hasPointersR(t.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// an error or a type descriptor derived from an argument does not expose its memory
func opaqueResult(t types.Type) bool {
	return isErrorType(t) || t.String() == "reflect.Type"
}

// stdlib functions that write through an argument: callee -> argument indices
var stdWriters = map[string][]int{
	"encoding/hex.Decode": {0}, "encoding/hex.Encode": {0},
	"(*encoding/base64.Encoding).Decode": {1}, "(*encoding/base64.Encoding).Encode": {1},
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "(io.Reader).Read": {0}, "(*bytes.Reader).Read": {1},
	"encoding/binary.PutUvarint": {0}, "encoding/binary.PutVarint": {0},
	"(encoding/binary.littleEndian).PutUint16": {1}, "(encoding/binary.littleEndian).PutUint32": {1}, "(encoding/binary.littleEndian).PutUint64": {1},
	"(encoding/binary.bigEndian).PutUint16": {1}, "(encoding/binary.bigEndian).PutUint32": {1}, "(encoding/binary.bigEndian).PutUint64": {1},
	"(encoding/binary.ByteOrder).PutUint16": {0}, "(encoding/binary.ByteOrder).PutUint32": {0}, "(encoding/binary.ByteOrder).PutUint64": {0},
	"(*math/big.Int).FillBytes": {1},
	"sort.Slice":                {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Strings": {0}, "sort.Ints": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0},
	"encoding/json.Unmarshal":                     {1},
	"(encoding/binary.littleEndian).AppendUint16": {1}, "(encoding/binary.littleEndian).AppendUint32": {1}, "(encoding/binary.littleEndian).AppendUint64": {1},
	"encoding/binary.AppendUvarint": {0}, "encoding/binary.AppendVarint": {0},
	"encoding/hex.AppendEncode": {0}, "encoding/hex.AppendDecode": {0},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendQuote": {0},
	"(time.Time).AppendFormat": {1}, "(*math/big.Int).Append": {1},
	"(hash.Hash).Sum": {0},
}

var bigReadOnly = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "BitLen": true, "Bytes": true, "Int64": true, "Uint64": true, "String": true, "Text": true, "IsInt64": true, "IsUint64": true, "FillBytes": true, "Bit": true, "Append": true, "Format": true, "ProbablyPrime": true, "TrailingZeroBits": true, "MarshalText": true, "MarshalJSON": true, "Float64": true}

var reflectMutators = map[string]bool{"Set": true, "SetBool": true, "SetInt": true, "SetUint": true, "SetFloat": true, "SetString": true, "SetBytes": true, "SetLen": true, "SetCap": true, "SetMapIndex": true, "SetPointer": true, "SetZero": true, "SetIterKey": true, "SetIterValue": true, "Grow": true, "Clear": true, "SetComplex": true}

// obj is an abstract memory object. A summary object stands for everything reachable from it.
type obj struct {
	id      int
	name    string
	summary bool
	memT    types.Type // type of the memory, if known
	flat    bool       // field insensitive: reflection reaches any part
	depth   int
	root    *obj // the object this is a part of (itself for whole objects)
	kids    map[int]*obj
	pts     map[*obj]bool // what references stored here point to
	fn      *ssa.Function // function objects: code and captured cells
	typ     types.Type    // dynamic type of boxes
}

type ptsAnalysis struct {
	p       *Program
	n       int
	objs    map[string]*obj
	vals    map[string]map[ssa.Value]map[*obj]bool // ctx -> value -> objects
	tuples  map[string]map[ssa.Value]map[int]map[*obj]bool
	rets    map[string]map[int]map[*obj]bool // ctx+fn -> result -> objects
	active  map[string]bool
	work    []ptsFrame
	changed bool
	writes  map[*obj]map[string]bool
	extern  map[*obj]map[string]bool // handed to code outside of the repository that may keep it
	globals map[*ssa.Global]*obj
	// writes that the sync package orders: inside of Once.Do, or behind a package's mutex
	synced map[*obj]map[string]bool
	// memory handed back to a sync.Pool by calls after which the function returns memory
	pooled map[*obj]map[string]bool
}

type ptsFrame struct {
	ctx string
	fn  *ssa.Function
}

const elemKid = -1

const ctxDepth = 2

func newPts(p *Program) *ptsAnalysis {
	return &ptsAnalysis{p: p, objs: map[string]*obj{}, vals: map[string]map[ssa.Value]map[*obj]bool{}, tuples: map[string]map[ssa.Value]map[int]map[*obj]bool{}, rets: map[string]map[int]map[*obj]bool{}, active: map[string]bool{}, writes: map[*obj]map[string]bool{}, synced: map[*obj]map[string]bool{}, pooled: map[*obj]map[string]bool{}, globals: map[*ssa.Global]*obj{}}
}

func (a *ptsAnalysis) newObj(name string) *obj {
	a.n++
	o := &obj{id: a.n, name: name, kids: map[int]*obj{}, pts: map[*obj]bool{}}
	o.root = o
	return o
}

func (a *ptsAnalysis) summaryObj(name string) *obj {
	o := a.newObj(name)
	o.summary = true
	o.pts[o] = true
	return o
}

func (a *ptsAnalysis) site(ctx string, in ssa.Instruction, tag string) *obj {
	k := fmt.Sprintf("%s|%p|%s", ctx, in, tag)
	if o := a.objs[k]; o != nil {
		return o
	}
	o := a.newObj("memory made at " + a.p.instrPos(in))
	if tag == "box" || tag == "closure" || strings.HasPrefix(tag, "value") {
		o.depth = 2
	}
	a.objs[k] = o
	return o
}

// memOf is the type of the memory a value of type t points to.
func memOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return types.NewArray(u.Elem(), 0)
	}
	return nil
}

// fits: may memory o be accessed as type t?
func fits(o *obj, t types.Type) bool {
	if o.memT == nil || t == nil || o.root.flat || o.summary {
		return true
	}
	x, y := o.memT.Underlying(), t.Underlying()
	if ax, ok := x.(*types.Array); ok {
		if ay, ok := y.(*types.Array); ok {
			return types.Identical(ax.Elem().Underlying(), ay.Elem().Underlying())
		}
	}
	return types.Identical(x, y)
}

func (a *ptsAnalysis) kid(o *obj, i int) *obj {
	if o.summary || o.depth >= 4 || o.memT == nil && o.depth > 2 {
		return o
	}
	if o.root.flat {
		return o.root
	}
	if k := o.kids[i]; k != nil {
		return k
	}
	k := a.newObj(o.name)
	k.root = o.root
	k.depth = o.depth + 1
	if o.memT != nil {
		switch u := o.memT.Underlying().(type) {
		case *types.Struct:
			if i >= 0 && i < u.NumFields() {
				k.memT = u.Field(i).Type()
			}
		case *types.Array:
			k.memT = u.Elem()
		}
	}
	o.kids[i] = k
	return k
}

// flatten makes the whole object o belongs to field insensitive: its parts share one set of
// references.
func (a *ptsAnalysis) flatten(o *obj) {
	o = o.root
	if o.flat || o.summary {
		return
	}
	o.flat = true
	a.changed = true
	var merge func(k *obj)
	merge = func(k *obj) {
		for _, c := range k.kids {
			for q := range c.pts {
				o.pts[q] = true
			}
			c.pts = o.pts
			merge(c)
		}
	}
	merge(o)
	o.kids = map[int]*obj{}
}

func (a *ptsAnalysis) global(g *ssa.Global) *obj {
	if o := a.globals[g]; o != nil {
		return o
	}
	o := a.summaryObj("package variable " + g.Name())
	a.globals[g] = o
	return o
}

func (a *ptsAnalysis) add(dst map[*obj]bool, o *obj) {
	if !dst[o] {
		dst[o] = true
		a.changed = true
	}
}

func (a *ptsAnalysis) get(ctx string, v ssa.Value) map[*obj]bool {
	switch v := v.(type) {
	case *ssa.Global:
		return map[*obj]bool{a.global(v): true}
	case *ssa.Function:
		k := "fn|" + v.String()
		o := a.objs[k]
		if o == nil {
			o = a.newObj("function " + v.Name())
			o.fn = v
			a.objs[k] = o
		}
		return map[*obj]bool{o: true}
	case *ssa.Const:
		return nil
	}
	m := a.vals[ctx]
	if m == nil {
		m = map[ssa.Value]map[*obj]bool{}
		a.vals[ctx] = m
	}
	s := m[v]
	if s == nil {
		s = map[*obj]bool{}
		m[v] = s
	}
	return s
}

func (a *ptsAnalysis) flowInto(ctx string, v ssa.Value, src map[*obj]bool) {
	if v == nil || !hasPointers(v.Type()) {
		return
	}
	d := a.get(ctx, v)
	for o := range src {
		a.add(d, o)
	}
}

func (a *ptsAnalysis) tuple(ctx string, v ssa.Value, i int) map[*obj]bool {
	m := a.tuples[ctx]
	if m == nil {
		m = map[ssa.Value]map[int]map[*obj]bool{}
		a.tuples[ctx] = m
	}
	if m[v] == nil {
		m[v] = map[int]map[*obj]bool{}
	}
	if m[v][i] == nil {
		m[v][i] = map[*obj]bool{}
	}
	return m[v][i]
}

// load gives the value of type t stored at the objects in addr.
func (a *ptsAnalysis) load(addr map[*obj]bool, t types.Type) map[*obj]bool {
	out := map[*obj]bool{}
	if !hasPointers(t) {
		return out
	}
	for o := range addr {
		if isAggregate(t) {
			if !fits(o, t) && o.typ == nil {
				continue
			}
			out[o] = true
			continue
		}
		for q := range o.pts {
			out[q] = true
		}
	}
	return out
}

// store puts a value of type t into the objects in addr.
func (a *ptsAnalysis) store(addr, val map[*obj]bool, t types.Type) {
	if !hasPointers(t) {
		return
	}
	for o := range addr {
		if isAggregate(t) {
			for s := range val {
				a.copyObj(o, s, t)
			}
			continue
		}
		for q := range val {
			a.add(o.pts, q)
		}
	}
}

func (a *ptsAnalysis) copyObj(dst, src *obj, t types.Type) {
	if dst == src || !hasPointers(t) {
		return
	}
	if t.String() == "reflect.Value" {
		for q := range src.pts {
			a.add(dst.pts, q)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a.copyObj(a.kid(dst, i), a.kid(src, i), u.Field(i).Type())
		}
	case *types.Array:
		a.copyObj(a.kid(dst, elemKid), a.kid(src, elemKid), u.Elem())
	default:
		for q := range src.pts {
			a.add(dst.pts, q)
		}
	}
}

func (a *ptsAnalysis) write(os map[*obj]bool, in ssa.Instruction, what string) {
	for o := range os {
		r := o.root
		ws := a.writes
		if a.isGlobal(r) && a.orderedBySync(in) {
			ws = a.synced
		}
		if ws[r] == nil {
			ws[r] = map[string]bool{}
		}
		ws[r][fmt.Sprintf("%s in %s (%s)", what, fname(in.Parent()), a.p.instrPos(in))] = true
	}
}

func (a *ptsAnalysis) isGlobal(o *obj) bool {
	for _, g := range a.globals {
		if g == o {
			return true
		}
	}
	return false
}

// orderedBySync: the instruction runs inside of a function given to sync.Once (or OnceFunc and
// its kin), or after a Lock of a mutex that is a package variable.
func (a *ptsAnalysis) orderedBySync(in ssa.Instruction) bool {
	for f := in.Parent(); f != nil; f = f.Parent() {
		if givenToOnce(a.p, f) {
			return true
		}
	}
	for _, b := range in.Parent().Blocks {
		for i, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			switch calleeName(c.Common()) {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			default:
				continue
			}
			if !globalBase(c.Common().Args[0]) {
				continue
			}
			if b != in.Block() && b.Dominates(in.Block()) {
				return true
			}
			if b == in.Block() {
				for _, y := range b.Instrs[i+1:] {
					if y == in {
						return true
					}
				}
			}
		}
	}
	return false
}

func globalBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return false
		}
	}
}

var onceFns map[*ssa.Function]bool

func givenToOnce(p *Program, f *ssa.Function) bool {
	if onceFns == nil {
		onceFns = map[*ssa.Function]bool{}
		note := func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					switch n := calleeName(ci.Common()); {
					case n == "(*sync.Once).Do", strings.HasPrefix(n, "sync.Once"):
					default:
						continue
					}
					for _, x := range ci.Common().Args {
						if mc, ok := x.(*ssa.MakeClosure); ok {
							x = mc.Fn
						}
						if g, ok := x.(*ssa.Function); ok {
							onceFns[g] = true
						}
					}
				}
			}
		}
		for _, fn := range p.Funcs {
			note(fn)
		}
		for _, sp := range p.SPkgs {
			if fn := sp.Func("init"); fn != nil {
				note(fn)
			}
		}
	}
	return onceFns[f]
}

// returnsAfter: after in, the function can return memory.
func returnsAfter(in ssa.Instruction) bool {
	if _, ok := in.(*ssa.Defer); ok {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{in.Block()}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if _, isC := v.(*ssa.Const); !isC && hasPointers(v.Type()) && !isErrorType(v.Type()) {
					return true
				}
			}
		}
		todo = append(todo, b.Succs...)
	}
	return false
}

// reach is the closure of os over stored references and parts.
func (a *ptsAnalysis) reach(os map[*obj]bool) map[*obj]bool {
	out := map[*obj]bool{}
	var visit func(o *obj)
	visit = func(o *obj) {
		if out[o] {
			return
		}
		out[o] = true
		for q := range o.pts {
			visit(q)
		}
		for _, k := range o.kids {
			visit(k)
		}
	}
	for o := range os {
		visit(o)
	}
	return out
}

func (a *ptsAnalysis) enter(ctx string, fn *ssa.Function) string {
	k := ctx + "/" + fn.String()
	if !a.active[k] {
		a.active[k] = true
		a.work = append(a.work, ptsFrame{k, fn})
		a.changed = true
	}
	return k
}

// subCtx is the context of a call: the last call sites. Calls within a recursive component
// stay in the context the component was entered with.
func (a *ptsAnalysis) subCtx(ctx string, in ssa.Instruction, callee *ssa.Function) string {
	pre := strings.SplitN(ctx, "/", 2)[0]
	cg := a.p.callGraph()
	if c := cg.scc[callee]; cg.cyclic[c] && c == cg.scc[in.Parent()] {
		return pre
	}
	calls := append(strings.Split(pre, ";"), fmt.Sprintf("%p", in))
	if len(calls) > ctxDepth {
		calls = calls[len(calls)-ctxDepth:]
	}
	return strings.Join(calls, ";")
}

// run analyses fn as an entry point with the given objects as parameters.
func (a *ptsAnalysis) run(fn *ssa.Function, params []*obj) string {
	k := a.enter("", fn)
	for i, o := range params {
		if o != nil {
			a.get(k, fn.Params[i])[o] = true
		}
	}
	for round := 0; round < 60; round++ {
		a.changed = false
		for i := 0; i < len(a.work); i++ {
			f := a.work[i]
			for _, b := range f.fn.Blocks {
				for _, in := range b.Instrs {
					a.instr(f.ctx, in)
				}
			}
		}
		if debugOn {
			println("round", round, "frames", len(a.work), "objs", a.n)
		}
		if !a.changed {
			break
		}
	}
	return k
}

func (a *ptsAnalysis) instr(ctx string, in ssa.Instruction) {
	g := func(v ssa.Value) map[*obj]bool { return a.get(ctx, v) }
	switch in := in.(type) {
	case *ssa.Alloc:
		o := a.site(ctx, in, "")
		o.memT = in.Type().Underlying().(*types.Pointer).Elem()
		a.flowInto(ctx, in, map[*obj]bool{o: true})
	case *ssa.MakeSlice:
		o := a.site(ctx, in, "")
		o.memT = memOf(in.Type())
		a.flowInto(ctx, in, map[*obj]bool{o: true})
	case *ssa.MakeMap:
		a.flowInto(ctx, in, map[*obj]bool{a.site(ctx, in, ""): true})
	case *ssa.MakeChan:
		a.flowInto(ctx, in, map[*obj]bool{a.site(ctx, in, ""): true})
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		for o := range g(in.X) {
			if !fits(o, st) {
				continue // not memory of this type
			}
			a.flowInto(ctx, in, map[*obj]bool{a.kid(o, in.Field): true})
		}
	case *ssa.IndexAddr:
		st := memOf(in.X.Type())
		for o := range g(in.X) {
			if !fits(o, st) {
				continue
			}
			a.flowInto(ctx, in, map[*obj]bool{a.kid(o, elemKid): true})
		}
	case *ssa.Slice:
		a.flowInto(ctx, in, g(in.X))
	case *ssa.SliceToArrayPointer:
		a.flowInto(ctx, in, g(in.X))
	case *ssa.Phi:
		for _, x := range in.Edges {
			a.flowInto(ctx, in, g(x))
		}
	case *ssa.ChangeType:
		a.flowInto(ctx, in, g(in.X))
	case *ssa.ChangeInterface:
		a.flowInto(ctx, in, g(in.X))
	case *ssa.MultiConvert:
		a.flowInto(ctx, in, g(in.X))
	case *ssa.Convert:
		if isUnsafe(in.Type()) || isUnsafe(in.X.Type()) {
			a.flowInto(ctx, in, g(in.X))
		} else if _, ok := in.Type().Underlying().(*types.Slice); ok {
			o := a.site(ctx, in, "")
			o.memT = memOf(in.Type())
			a.flowInto(ctx, in, map[*obj]bool{o: true})
		}
	case *ssa.MakeInterface:
		o := a.site(ctx, in, "box")
		o.typ = in.X.Type()
		a.store(map[*obj]bool{o: true}, g(in.X), in.X.Type())
		a.flowInto(ctx, in, map[*obj]bool{o: true})
	case *ssa.TypeAssert:
		src := g(in.X)
		var out map[*obj]bool
		if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			out = src
		} else {
			sel := map[*obj]bool{}
			for o := range src {
				if o.typ == nil || types.Identical(o.typ, in.AssertedType) {
					sel[o] = true
				}
			}
			out = a.load(sel, in.AssertedType)
		}
		if in.CommaOk {
			d := a.tuple(ctx, in, 0)
			for o := range out {
				a.add(d, o)
			}
		} else {
			a.flowInto(ctx, in, out)
		}
	case *ssa.Extract:
		a.flowInto(ctx, in, a.tuple(ctx, in.Tuple, in.Index))
	case *ssa.Field:
		for o := range g(in.X) {
			a.flowInto(ctx, in, a.load(map[*obj]bool{a.kid(o, in.Field): true}, in.Type()))
		}
	case *ssa.Index:
		for o := range g(in.X) {
			a.flowInto(ctx, in, a.load(map[*obj]bool{a.kid(o, elemKid): true}, in.Type()))
		}
	case *ssa.Lookup:
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for o := range g(in.X) {
			v := a.load(map[*obj]bool{a.kid(o, elemKid): true}, mt.Elem())
			if in.CommaOk {
				d := a.tuple(ctx, in, 0)
				for q := range v {
					a.add(d, q)
				}
			} else {
				a.flowInto(ctx, in, v)
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			a.flowInto(ctx, in, a.load(g(in.X), in.Type()))
		}
	case *ssa.Range:
		d := a.get(ctx, in)
		for o := range g(in.X) {
			a.add(d, o)
		}
	case *ssa.Next:
		if rg, ok := in.Iter.(*ssa.Range); ok {
			if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
				for o := range g(in.Iter) {
					for q := range a.load(map[*obj]bool{a.kid(o, -2): true}, mt.Key()) {
						a.add(a.tuple(ctx, in, 1), q)
					}
					for q := range a.load(map[*obj]bool{a.kid(o, elemKid): true}, mt.Elem()) {
						a.add(a.tuple(ctx, in, 2), q)
					}
				}
			}
		}
	case *ssa.MakeClosure:
		o := a.site(ctx, in, "closure")
		o.fn = in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			for q := range g(b) {
				a.add(a.kid(o, i).pts, q)
			}
		}
		a.flowInto(ctx, in, map[*obj]bool{o: true})
	case *ssa.Store:
		a.write(g(in.Addr), in, "store")
		a.store(g(in.Addr), g(in.Val), in.Val.Type())
	case *ssa.MapUpdate:
		a.write(g(in.Map), in, "map update")
		mt := in.Map.Type().Underlying().(*types.Map)
		for o := range g(in.Map) {
			a.store(map[*obj]bool{a.kid(o, elemKid): true}, g(in.Value), mt.Elem())
			a.store(map[*obj]bool{a.kid(o, -2): true}, g(in.Key), mt.Key())
		}
	case *ssa.Return:
		if a.rets[ctx] == nil {
			a.rets[ctx] = map[int]map[*obj]bool{}
		}
		for i, r := range in.Results {
			if a.rets[ctx][i] == nil {
				a.rets[ctx][i] = map[*obj]bool{}
			}
			if !hasPointers(r.Type()) || opaqueResult(r.Type()) {
				continue
			}
			for o := range g(r) {
				a.add(a.rets[ctx][i], o)
			}
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		a.call(ctx, ci)
	}
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr)
}

func (a *ptsAnalysis) result(ctx string, ci ssa.CallInstruction, i, n int, src map[*obj]bool) {
	v := ci.Value()
	if v == nil {
		return
	}
	if n == 1 {
		a.flowInto(ctx, v, src)
		return
	}
	d := a.tuple(ctx, v, i)
	for o := range src {
		a.add(d, o)
	}
}

func (a *ptsAnalysis) callRepo(ctx string, ci ssa.CallInstruction, fn *ssa.Function, args []map[*obj]bool, fv *obj) {
	sub := a.enter(a.subCtx(ctx, ci, fn), fn)
	for i, s := range args {
		if i < len(fn.Params) {
			a.flowInto(sub, fn.Params[i], s)
		}
	}
	if fv != nil {
		for i, v := range fn.FreeVars {
			a.flowInto(sub, v, a.kid(fv, i).pts)
		}
	}
	n := fn.Signature.Results().Len()
	for i := 0; i < n; i++ {
		a.result(ctx, ci, i, n, a.rets[sub][i])
	}
}

func (a *ptsAnalysis) call(ctx string, ci ssa.CallInstruction) {
	c := ci.Common()
	g := func(v ssa.Value) map[*obj]bool { return a.get(ctx, v) }
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			s := g(c.Args[0])
			if !fullSlice(c.Args[0]) {
				a.write(s, ci, "append into spare capacity")
			}
			o := a.site(ctx, ci, "append")
			o.memT = memOf(c.Args[0].Type())
			res := map[*obj]bool{o: true}
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for q := range s {
				res[q] = true
				a.copyObj(a.kid(o, elemKid), a.kid(q, elemKid), el)
			}
			if len(c.Args) > 1 {
				for q := range g(c.Args[1]) {
					for d := range res {
						a.copyObj(a.kid(d, elemKid), a.kid(q, elemKid), el)
					}
				}
			}
			if v := ci.Value(); v != nil {
				a.flowInto(ctx, v, res)
			}
		case "copy":
			a.write(g(c.Args[0]), ci, "copy into it")
			if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				for d := range g(c.Args[0]) {
					for q := range g(c.Args[1]) {
						a.copyObj(a.kid(d, elemKid), a.kid(q, elemKid), st.Elem())
					}
				}
			}
		case "clear", "delete":
			a.write(g(c.Args[0]), ci, b.Name())
		}
		return
	}
	var args []map[*obj]bool
	for _, x := range c.Args {
		args = append(args, g(x))
	}
	name := calleeName(c)
	if c.IsInvoke() {
		for o := range g(c.Value) {
			if o.typ == nil {
				continue
			}
			sel := a.p.SSA.MethodSets.MethodSet(o.typ).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			fn := a.p.SSA.MethodValue(sel)
			if fn == nil || !a.p.inRepo(fn) || fn.Blocks == nil {
				continue
			}
			recv := a.load(map[*obj]bool{o: true}, o.typ)
			a.callRepo(ctx, ci, fn, append([]map[*obj]bool{recv}, args...), nil)
		}
		a.external(ctx, ci, name, nil, append([]map[*obj]bool{g(c.Value)}, args...), true)
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		if a.p.inRepo(fn) && fn.Blocks != nil {
			var fv *obj
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				for o := range g(mc) {
					fv = o
				}
			}
			a.callRepo(ctx, ci, fn, args, fv)
			return
		}
		a.external(ctx, ci, name, fn, args, false)
		return
	}
	for o := range g(c.Value) {
		if o.fn != nil && a.p.inRepo(o.fn) && o.fn.Blocks != nil {
			a.callRepo(ctx, ci, o.fn, args, o)
		}
	}
}

func (a *ptsAnalysis) external(ctx string, ci ssa.CallInstruction, name string, fn *ssa.Function, args []map[*obj]bool, invoke bool) {
	c := ci.Common()
	off := 0
	if invoke {
		off = 1
	}
	for _, i := range stdWriters[name] {
		if i+off < len(args) {
			a.write(args[i+off], ci, "passed to "+name+", which writes to it,")
		}
	}
	all := map[*obj]bool{}
	for _, s := range args {
		for o := range s {
			all[o] = true
		}
	}
	// function arguments may be called by the library
	for o := range all {
		if o.fn != nil && a.p.inRepo(o.fn) && o.fn.Blocks != nil {
			sub := a.enter(a.subCtx(ctx, ci, o.fn), o.fn)
			for i, v := range o.fn.FreeVars {
				a.flowInto(sub, v, a.kid(o, i).pts)
			}
		}
	}
	mn := name[strings.LastIndex(name, ".")+1:]
	if strings.HasPrefix(name, "(*math/big.Int).") {
		if bigReadOnly[mn] {
			a.freshResults(ctx, ci, nil)
			return
		}
		a.write(args[0], ci, "receiver of "+name+", which modifies it,")
		n := c.Signature().Results().Len()
		for i := 0; i < n; i++ {
			a.result(ctx, ci, i, n, args[0])
		}
		return
	}
	if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(*reflect.MapIter).") {
		if reflectMutators[mn] {
			a.write(a.valueTargets(args[0]), ci, "receiver of "+name)
			if len(args) > 1 {
				for o := range a.valueTargets(args[0]) {
					for q := range a.valueTargets(args[1]) {
						a.add(o.pts, q)
					}
				}
			}
			return
		}
		a.reflectResults(ctx, ci, a.reach(a.valueTargets(args[0])))
		return
	}
	switch name {
	case "reflect.ValueOf", "reflect.Indirect", "reflect.Append", "reflect.AppendSlice":
		a.reflectResults(ctx, ci, a.reach(all))
		return
	case "reflect.New", "reflect.MakeSlice", "reflect.MakeMap", "reflect.Zero", "reflect.MakeMapWithSize":
		o := a.site(ctx, ci, "new")
		o.flat = true
		a.reflectResults(ctx, ci, map[*obj]bool{o: true})
		return
	case "reflect.Copy":
		a.write(a.valueTargets(args[0]), ci, "reflect.Copy into it")
		return
	}
	if fn != nil && fn.Signature.Recv() != nil {
		switch fn.Signature.Recv().Type().String() {
		case "*bytes.Buffer", "*strings.Builder", "*container/list.List", "*math/rand.Rand":
			if mn != "Bytes" && mn != "String" && mn != "Len" {
				a.write(args[0], ci, "receiver of "+name)
			}
		}
	}
	if name == "(*sync.Pool).Put" && len(args) > 1 && returnsAfter(ci) {
		for o := range a.reach(args[1]) {
			if a.pooled[o.root] == nil {
				a.pooled[o.root] = map[string]bool{}
			}
			a.pooled[o.root][fmt.Sprintf("%s (%s)", fname(ci.Parent()), a.p.instrPos(ci))] = true
		}
	}
	if name == "(*sync.Pool).Get" {
		o := a.site(ctx, ci, "pool")
		o.summary = true
		o.pts[o] = true
		a.result(ctx, ci, 0, 1, map[*obj]bool{o: true})
		return
	}
	if ci.Value() == nil {
		return
	}
	pk := ""
	if fn != nil {
		if tp := fnPkg(fn); tp != nil {
			pk = tp.Path()
		}
	} else if c.IsInvoke() && c.Method.Pkg() != nil {
		pk = c.Method.Pkg().Path()
	}
	alias := false
	switch pk {
	case "bytes", "bufio", "slices", "io", "unsafe":
		switch name {
		case "bytes.Clone", "slices.Clone", "bytes.ToUpper", "bytes.ToLower", "bytes.Join", "bytes.Repeat", "bytes.Compare", "bytes.Equal", "io.ReadFull", "io.CopyN":
		default:
			alias = !strings.HasPrefix(name, pk+".New") && !strings.HasPrefix(mn, "New") && mn != "LimitReader" && mn != "TeeReader" && mn != "MultiReader"
		}
	}
	if strings.HasPrefix(mn, "Append") || name == "(hash.Hash).Sum" {
		alias = true
	}
	if alias {
		a.freshResults(ctx, ci, a.reach(all))
		n := c.Signature().Results().Len()
		for i := 0; i < n; i++ {
			if t := c.Signature().Results().At(i).Type(); hasPointers(t) && !opaqueResult(t) {
				a.result(ctx, ci, i, n, a.reach(all))
			}
		}
		return
	}
	if strings.HasPrefix(mn, "New") || mn == "LimitReader" || mn == "TeeReader" || mn == "MultiReader" {
		a.freshResults(ctx, ci, all)
		return
	}
	a.freshResults(ctx, ci, nil)
}

// freshResults: the call returns new memory which holds references to hold.
func (a *ptsAnalysis) freshResults(ctx string, ci ssa.CallInstruction, hold map[*obj]bool) {
	n := ci.Common().Signature().Results().Len()
	for i := 0; i < n; i++ {
		t := ci.Common().Signature().Results().At(i).Type()
		if !hasPointers(t) || opaqueResult(t) {
			continue
		}
		o := a.site(ctx, ci, fmt.Sprint("result", i))
		o.memT = memOf(t)
		for q := range hold {
			a.add(o.pts, q)
		}
		a.result(ctx, ci, i, n, map[*obj]bool{o: true})
	}
}

// reflect.Value values are aggregates: a set of carrier objects whose pts are the targets.
func (a *ptsAnalysis) valueTargets(v map[*obj]bool) map[*obj]bool {
	out := map[*obj]bool{}
	for o := range v {
		if o.summary {
			out[o] = true
			continue
		}
		for q := range o.pts {
			out[q] = true
		}
	}
	return out
}

func (a *ptsAnalysis) reflectResults(ctx string, ci ssa.CallInstruction, targets map[*obj]bool) {
	for o := range targets {
		if o.fn == nil {
			a.flatten(o)
		}
	}
	n := ci.Common().Signature().Results().Len()
	for i := 0; i < n; i++ {
		t := ci.Common().Signature().Results().At(i).Type()
		if !hasPointers(t) || opaqueResult(t) {
			continue
		}
		switch t.String() {
		case "reflect.Value", "*reflect.MapIter":
			o := a.site(ctx, ci, fmt.Sprint("value", i))
			for q := range targets {
				a.add(o.pts, q)
			}
			a.result(ctx, ci, i, n, map[*obj]bool{o: true})
		case "[]reflect.Value":
			o := a.site(ctx, ci, fmt.Sprint("values", i))
			for q := range targets {
				a.add(a.kid(o, elemKid).pts, q)
			}
			a.result(ctx, ci, i, n, map[*obj]bool{o: true})
		default:
			a.result(ctx, ci, i, n, targets)
		}
	}
}

// fullSlice: x[a:b:b], appending to it always reallocates.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.Max == s.High
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
