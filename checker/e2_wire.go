package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const pkgChain = modPath + "/pkg/chain"

// scene is one abstract run of an entry point.
type scene struct {
	p   *Program
	rep *Report
	ip  *Interp
	st  *State
	// inputs the property speaks of
	assume B
}

func newScene(p *Program, rep *Report) *scene {
	ip := newInterp(p)
	st := newState()
	ip.setupIO(st)
	return &scene{p, rep, ip, st, bT}
}

var only = os.Getenv("VERIF_ONLY")

// decide runs f, which analyses one entry point. Code outside the analysed language makes
// the entry point undecided.
func (rep *Report) decide(what string, f func()) {
	if only != "" && !strings.HasPrefix(what, only) && !strings.HasPrefix(what, "spec") {
		return
	}
	rep.Obligations++
	resetGraph()
	t0 := time.Now()
	if time.Since(started) > 600*time.Second {
		rep.undecided(what, "time limit of the check")
		return
	}
	deadline = t0.Add(120 * time.Second)
	defer func() { deadline = time.Time{} }()
	if debugOn {
		defer func() {
			fmt.Fprintf(os.Stderr, "%-40s %6.2fs %d nodes %d values\n", what, time.Since(t0).Seconds(), len(bd.nodes), len(vtab))
		}()
	}
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if os.Getenv("VERIF_PANIC") == "2" {
				panic(e)
			}
			if !ok {
				if os.Getenv("VERIF_PANIC") != "" {
					panic(e)
				}
				u = unsupported{fmt.Sprintf("internal: %v", e)}
			}
			rep.undecided(what, u.what)
		}
	}()
	f()
}

func (rep *Report) undecided(what, why string) {
	rep.Undecided = append(rep.Undecided, what+": "+why)
	rep.Analysed["undecided"]++
	if debugOn {
		fmt.Fprintf(os.Stderr, "UNDECIDED %s: %s\n", what, why)
	}
}

// run interprets fn; a nil result state means that it never returns.
func (s *scene) run(fn *ssa.Function, args ...*V) *V {
	if fn == nil {
		unsup("missing function")
	}
	v, st := s.ip.call(fn, args, nil, s.st)
	if st == nil {
		s.noPanic(fname(fn))
		unsup("%s never returns", fname(fn))
	}
	s.st = st
	s.rep.Analysed["entry points"]++
	return v
}

func (s *scene) fork() *scene {
	c := *s
	c.st = s.st.clone()
	return &c
}

func (s *scene) fn(pkg, name string) *ssa.Function { return s.p.function(pkg, name) }

// methodRecv calls a method on a value held in memory, whatever its receiver kind.
func (s *scene) callM(ptr *V, t types.Type, name string, args ...*V) *V {
	f := s.p.SSA.LookupMethod(types.NewPointer(t), nil, name)
	if f == nil {
		unsup("no method %s on %s", name, t)
	}
	return s.run(f, append([]*V{ptr}, args...)...)
}

func (s *scene) encoder() *V {
	return s.run(s.fn("pkg/chain", "NewEncoder"), vOpq("writer", nil))
}

func (s *scene) decoder() *V {
	return s.run(s.fn("pkg/chain", "NewDecoder"), vOpq("sysreader", nil))
}

func (s *scene) out() *V { return s.ip.objContent(s.st, objOut) }
func (s *scene) pos() *V { return s.ip.objContent(s.st, objPos) }

// alloc places a value in memory.
func (s *scene) alloc(t types.Type, v *V) *V { return s.ip.alloc(s.st, t, v) }

// judge reports a difference found under guard d.
func (s *scene) judge(key, pos, what string, d B, got, want *V) {
	s.rep.Analysed["equalities"]++
	d = lawful(and(d, s.assume))
	if d == bF {
		return
	}
	if bImprecise(d) {
		s.rep.undecided(key, what+" (difference depends on values the analysis widened)")
		if debugOn {
			fmt.Fprintf(os.Stderr, "   when %s\n   got  %s\n   want %s\n", oneSat(d), showV(got), showV(want))
		}
		return
	}
	s.rep.fail(key, pos, "%s\nwhen %s\ncomputed: %s\nexpected: %s", what, oneSat(d), showV(got), showV(want))
}

func showV(v *V) string {
	if v == nil {
		return "-"
	}
	t := v.short(6)
	if len(t) > 1500 {
		t = t[:1500] + "..."
	}
	return t
}

// same requires got (in s) to equal want (in w) wherever g holds.
func (s *scene) same(key, pos, what string, got *V, w *scene, want *V, g B) {
	d := newDiffer(s.ip, s.st, w.st)
	d.quick = 2
	g = andN(g, s.st.g, s.assume)
	x := d.diff(got, want, g)
	if x != bF && lawful(x) == bF {
		// the part of the difference looked at is none
		x = newDiffer(s.ip, s.st, w.st).diff(got, want, g)
	}
	s.judge(key, pos, what, x, got, want)
}

// errIff requires the error result to be non-nil exactly where bad holds.
func (s *scene) errIff(key, pos, what string, err *V, bad B, g B) {
	g = and(g, s.st.g)
	ok := errNil(err)
	s.judge(key, pos, what+": input accepted that has to be rejected", andN(g, bad, ok), err, nil)
	s.judge(key, pos, what+": input rejected that has to be accepted", andN(g, not(bad), not(ok)), err, nil)
}

// ---- wire layouts

type lkind int

const (
	lInt lkind = iota
	lBool
	lVaruint
	lVarint
	lStr
	lBytes
	lRaw
	lStruct
	lVec
	lPub
	lSig
	lArr
	lPtr
	lOpt
	lVariant
	lExt
)

type ssaFn = ssa.Function

type layout struct {
	kind   lkind
	w      int // lInt: bytes; lRaw: length
	fields []lfield
	elem   *layout
}

type lfield struct {
	name string
	l    *layout
}

func LI(w int) *layout             { return &layout{kind: lInt, w: w} }
func LS(f ...lfield) *layout       { return &layout{kind: lStruct, fields: f} }
func LV(e *layout) *layout         { return &layout{kind: lVec, elem: e} }
func LR(n int) *layout             { return &layout{kind: lRaw, w: n} }
func LK(k lkind) *layout           { return &layout{kind: k} }
func F(n string, l *layout) lfield { return lfield{n, l} }

// chainLayouts is the binary protocol of the chain types.
func chainLayouts() map[string]*layout {
	u64, u32, u16, u8 := LI(8), LI(4), LI(2), LI(1)
	perm := LS(F("Actor", u64), F("Permission", u64))
	bytesL := LK(lBytes)
	action := LS(F("Account", u64), F("Name", u64), F("Authorization", LV(perm)), F("Data", bytesL))
	asset := LS(F("Value", u64), F("Symbol", u64))
	i128 := LS(F("Lo", u64), F("Hi", u64))
	txh := LS(F("Expiration", u32), F("RefBlockNum", u16), F("RefBlockPrefix", u32), F("MaxNetUsageWords", LK(lVaruint)), F("MaxCpuUsageMs", u8), F("DelaySec", LK(lVaruint)))
	ext := LS(F("Type", u16), F("Data", bytesL))
	return map[string]*layout{
		"Name": u64, "Symbol": u64, "SymbolCode": u64, "TimePoint": u64, "Uint64": u64,
		"TimePointSec": u32, "BlockTimestamp": u32, "BlockNum": u32,
		"Uint128": i128, "Int128": i128, "Float128": LS(F("Data", LR(16))),
		"Checksum160": LR(20), "Checksum256": LR(32), "Checksum512": LR(64),
		"Bytes": bytesL, "Blob": bytesL, "PublicKey": LK(lPub), "Signature": LK(lSig),
		"PermissionLevel": perm, "Action": action, "Asset": asset,
		"ExtendedAsset":        LS(F("Quantity", asset), F("Contract", u64)),
		"TransactionHeader":    txh,
		"TransactionExtension": ext,
		"Transaction":          LS(F("TransactionHeader", txh), F("ContextFreeActions", LV(action)), F("Actions", LV(action)), F("Extensions", LV(ext))),
	}
}

func leBytes(v *V, w int) *V {
	var e []*V
	for i := 0; i < w; i++ {
		e = append(e, vInt(v.bits[8*i:8*i+8]))
	}
	return seqOf(segE(e...))
}

func fieldIndex(t types.Type, name string) (int, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("%s is not a struct", t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	unsup("%s has no field %s", t, name)
	return 0, nil
}

// wireEnc is the byte sequence the layout prescribes for v, and the guard under which v
// cannot be encoded.
func (s *scene) wireEnc(l *layout, t types.Type, v *V, g B, depth int) (seq *V, bad B) {
	switch l.kind {
	case lInt:
		if len(v.bits) != 8*l.w {
			unsup("%s does not have %d bytes", t, l.w)
		}
		return leBytes(v, l.w), bF
	case lBool:
		return seqOf(segE(iResize(vInt([]B{v.bits[0]}), 8, false))), bF
	case lVaruint:
		for _, b := range v.bits[32:] {
			if bad == 0 {
				bad = bF
			}
			bad = or(bad, b)
		}
		return seqOf(segVar(iResize(v, 32, false))), bad
	case lVarint:
		low := iResize(v, 32, false)
		z := iBitwise(xor, iShlC(low, 1), vInt(rep(low.bits[31], 32)))
		return seqOf(segVar(z)), not(iEq(iResize(low, 64, true), v))
	case lStr:
		n := seqLen(v.kids[0])
		return seqOf(segVar(iResize(n, 32, false)), v.kids[0]), bF
	case lBytes:
		c := s.ip.sliceSeq(s.st, v, g)
		return seqOf(segVar(iResize(seqLen(c), 32, false)), c), bF
	case lRaw:
		return v, bF
	case lStruct:
		bad = bF
		var parts []*V
		for _, f := range l.fields {
			i, ft := fieldIndex(t, f.name)
			p, b := s.wireEnc(f.l, ft, v.kids[i], g, depth)
			parts = append(parts, p)
			bad = or(bad, b)
		}
		return seqOf(parts...), bad
	case lVec:
		c := s.ip.sliceSeq(s.st, v, g)
		n := seqLen(c)
		it := itVar(depth)
		et := t.Underlying().(*types.Slice).Elem()
		ge := and(g, iSlt(it, n))
		body, b := s.wireEnc(l.elem, et, seqGet(c, it, ge), ge, depth+1)
		if b != bF {
			unsup("elements that cannot be encoded")
		}
		return seqOf(segVar(iResize(n, 32, false)), segLoop(n, it, body)), bF
	case lArr:
		bad = bF
		var parts []*V
		et := t.Underlying().(*types.Array).Elem()
		for i := 0; i < l.w; i++ {
			p, b := s.wireEnc(l.elem, et, seqGet(v, vConst(int64(i), 64), g), g, depth)
			parts = append(parts, p)
			bad = or(bad, b)
		}
		return seqOf(parts...), bad
	case lPtr:
		isnil := isNilB(v, g)
		in := s.fork()
		in.st.g = and(g, not(isnil))
		if in.st.g == bF {
			return seqEmpty, isnil
		}
		x := in.ip.load(in.st, narrow(v, in.st.g), nil)
		p, b := in.wireEnc(l.elem, deref(t), x, in.st.g, depth)
		return p, or(isnil, and(not(isnil), b))
	case lOpt:
		absent := s.ip.isZeroB(s.st, t, v, g)
		here := and(g, not(absent))
		p, b := s.wireEnc(l.elem, t, narrow(v, here), here, depth)
		return seqIte(restrict(absent, g), seqBytes([]byte{0}), seqOf(segE(vConst(1, 8)), p)), and(not(absent), b)
	case lVariant:
		var set []B
		for _, f := range l.fields {
			i, _ := fieldIndex(t, f.name)
			set = append(set, not(isNilB(v.kids[i], g)))
		}
		bad = g // unless exactly one alternative is set
		out := seqEmpty
		for k, f := range l.fields {
			i, ft := fieldIndex(t, f.name)
			only := g
			for j := range set {
				if j == k {
					only = and(only, set[j])
				} else {
					only = and(only, not(set[j]))
				}
			}
			if only == bF {
				continue
			}
			p, b := s.wireEnc(f.l, ft, narrow(v.kids[i], only), only, depth)
			out = seqIte(only, seqOf(segE(vConst(int64(k), 8)), p), out)
			bad = or(and(bad, not(only)), and(only, b))
		}
		return out, bad
	case lExt:
		return s.wireEnc(l.elem, t, v, g, depth)
	case lPub, lSig:
		ti, _ := fieldIndex(t, "Type")
		di, _ := fieldIndex(t, "Data")
		return seqOf(segE(v.kids[ti]), s.ip.sliceSeq(s.st, v.kids[di], g)), bF
	}
	unsup("layout")
	return nil, bF
}

// specVaruint reads a well-formed variable-length integer in the specification's state.
func (s *scene) specVaruint(signed bool) *V {
	var gs []B
	var vals, poss []*V
	for _, p := range s.ip.posAlts(s.st) {
		v, np := varAt(p, signed, s.ip.maxList > 0)
		gs = append(gs, p.g)
		vals = append(vals, v)
		poss = append(poss, np)
	}
	s.st.setMem(objPos, foldAlts(gs, poss))
	return foldAlts(gs, vals)
}

func (s *scene) specBytes(n *V) *V {
	seq, _, _ := s.ip.readN(s.st, n)
	return seq
}

func joinLE(seq *V, w int, g B) *V {
	var bits []B
	for i := 0; i < w; i++ {
		bits = append(bits, seqGet(seq, vConst(int64(i), 64), g).bits...)
	}
	return vInt(bits)
}

// wireDec is the value the layout prescribes for the input at the current position, and
// the guard under which the input is not acceptable.
func (s *scene) wireDec(l *layout, t types.Type, depth int) (v *V, bad B) {
	g := s.st.g
	bad = bF
	switch l.kind {
	case lInt:
		return joinLE(s.specBytes(vConst(int64(l.w), 64)), l.w, g), bF
	case lBool:
		b := joinLE(s.specBytes(vConst(1, 64)), 1, g)
		return vBool(not(iEq(b, vConst(0, 8)))), bF
	case lVaruint:
		return s.specVaruint(false), bF
	case lVarint:
		return s.specVaruint(true), bF
	case lStr:
		n := s.specVaruint(false)
		return vStrSeq(s.specBytes(n)), bF
	case lBytes:
		n := s.specVaruint(false)
		return s.ip.newSlice(s.st, t, s.specBytes(n)), bF
	case lRaw:
		return s.specBytes(vConst(int64(l.w), 64)), bF
	case lStruct:
		kids := append([]*V{}, zero(t).kids...)
		for _, f := range l.fields {
			i, ft := fieldIndex(t, f.name)
			var b B
			kids[i], b = s.wireDec(f.l, ft, depth)
			bad = or(bad, b)
		}
		return vStruct(kids...), bad
	case lVec:
		n := s.specVaruint(false)
		p0 := s.pos()
		it := itVar(depth)
		sc := s.fork()
		sc.st.g = and(g, iSlt(it, n))
		sc.st.setMem(objPos, vOpq("pos", nil, vOpq("lseg", nil, p0, it), vConst(0, 64)))
		et := t.Underlying().(*types.Slice).Elem()
		e, b := sc.wireDec(l.elem, et, depth+1)
		if b != bF {
			unsup("elements that cannot be decoded")
		}
		e = freeze(e, func(id int) *V { return s.ip.objContent(sc.st, id) }, func(int) bool { return true }, 0)
		end := sc.pos()
		s.st.setMem(objPos, vPos(vOpq("lseg", nil, p0, n, substIt(end, it, itVar(boundDepth+depth))), 0))
		return s.ip.newSlice(s.st, t, seqOf(segLoop(n, it, seqOf(segE(e))))), bF
	case lArr:
		et := t.Underlying().(*types.Array).Elem()
		var e []*V
		for i := 0; i < l.w; i++ {
			x, b := s.wireDec(l.elem, et, depth)
			e = append(e, x)
			bad = or(bad, b)
		}
		return seqOf(segE(e...)), bad
	case lPtr:
		x, b := s.wireDec(l.elem, deref(t), depth)
		return s.alloc(deref(t), x), b
	case lOpt:
		flag := joinLE(s.specBytes(vConst(1, 64)), 1, g)
		here := and(g, not(iEq(flag, vConst(0, 8))))
		in := s.fork()
		in.st.g = here
		x, b := in.wireDec(l.elem, t, depth)
		out := s.fork()
		out.st.g = and(g, not(here))
		v = vIte(restrict(here, g), x, zero(t))
		s.st = s.ip.mergeStates(in.st, out.st, nil)
		return v, b
	case lVariant:
		tag := joinLE(s.specBytes(vConst(1, 64)), 1, g)
		bad = g
		var acc *State
		for k, f := range l.fields {
			i, ft := fieldIndex(t, f.name)
			in := s.fork()
			in.st.g = and(g, iEq(tag, vConst(int64(k), 8)))
			x, b := in.wireDec(f.l, ft, depth)
			kids := append([]*V{}, zero(t).kids...)
			kids[i] = x
			w := vStruct(kids...)
			bad = or(and(bad, not(in.st.g)), b)
			if acc == nil {
				acc, v = in.st, w
			} else {
				v = vIte(in.st.g, w, v)
				acc = s.ip.mergeStates(acc, in.st, nil)
			}
		}
		s.st = acc
		return v, bad
	case lExt:
		return s.wireDec(l.elem, t, depth)
	case lPub, lSig:
		tag := joinLE(s.specBytes(vConst(1, 64)), 1, g)
		n1, nWA := int64(33), int64(34)
		if l.kind == lSig {
			n1, nWA = 65, 65
		}
		is := func(k int64) B { return and(g, iEq(tag, vConst(k, 8))) }
		a, b := s.fork(), s.fork()
		a.st.g, b.st.g = or(is(0), is(1)), is(2)
		da := a.specBytes(vConst(n1, 64))
		parts := []*V{b.specBytes(vConst(nWA, 64))}
		for i := 0; i < 1+int(l.kind-lPub); i++ {
			n := b.specVaruint(false)
			parts = append(parts, segVar(iResize(n, 32, false)), b.specBytes(n))
		}
		db := seqOf(parts...)
		s.st.g = or(a.st.g, b.st.g)
		s.st.setMem(objPos, vIte(a.st.g, a.pos(), b.pos()))
		ti, _ := fieldIndex(t, "Type")
		di, dt := fieldIndex(t, "Data")
		kids := append([]*V{}, zero(t).kids...)
		kids[ti] = tag
		kids[di] = s.ip.newSlice(s.st, dt, seqIte(a.st.g, da, db))
		return vStruct(kids...), and(g, not(s.st.g))
	}
	unsup("layout")
	return nil, bF
}

func nameOf(s string) *V { return vOpq(s, nil) }

// ---- C03

func checkWire(p *Program) *Report {
	rep := newReport("gated value graphs of every MarshalABI and UnmarshalABI equal the protocol layout for every field value and every input")
	lays := chainLayouts()
	for _, tn := range sortedKeys(lays) {
		l := lays[tn]
		t := p.named("pkg/chain", tn)
		if t == nil {
			rep.undecided(tn, "type not found")
			continue
		}
		rep.Analysed["types"]++
		checkWireEnc(p, rep, tn, t, l)
		checkWireDec(p, rep, tn, t, l, false)
	}
	rep.floor("types", 15)
	return rep
}

func checkWireEnc(p *Program, rep *Report, tn string, t types.Type, l *layout) {
	key := tn + ".MarshalABI"
	rep.decide(key, func() {
		s := newScene(p, rep)
		enc := s.encoder()
		ptr := s.alloc(t, fresh(t, nameOf("value")))
		v := s.ip.load(s.st, ptr, nil)
		err := s.callM(ptr, t, "MarshalABI", enc)
		want, bad := s.wireEnc(l, t, v, s.st.g, 0)
		pos := methodPos(p, t, "MarshalABI")
		s.errIff(key, pos, "marshalling "+tn, err, bad, bT)
		s.same(key, pos, "bytes written for "+tn, s.out(), s, want, not(bad))
		rep.sample("%s writes %s", key, want.short(4))
	})
}

func checkWireDec(p *Program, rep *Report, tn string, t types.Type, l *layout, dirty bool) {
	key := tn + ".UnmarshalABI"
	rep.decide(key, func() {
		s := newScene(p, rep)
		s.ip.wellformed = true
		dec := s.decoder()
		v0 := zero(t)
		if dirty {
			v0 = fresh(t, nameOf("old"))
		}
		ptr := s.alloc(t, v0)
		spec := s.fork()
		err := s.callM(ptr, t, "UnmarshalABI", dec)
		want, bad := spec.wireDec(l, t, 0)
		pos := methodPos(p, t, "UnmarshalABI")
		s.errIff(key, pos, "unmarshalling "+tn, err, bad, bT)
		s.same(key, pos, "value read for "+tn, s.ip.load(s.st, ptr, nil), spec, want, not(bad))
		s.same(key, pos, "input consumed for "+tn, s.pos(), spec, spec.pos(), not(bad))
		rep.sample("%s yields %s", key, want.short(4))
	})
}

func methodPos(p *Program, t types.Type, name string) string {
	f := p.SSA.LookupMethod(types.NewPointer(t), nil, name)
	if f == nil {
		return "-"
	}
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return p.pos(o.Pos())
	}
	return "-"
}

func init() { checks["C03"] = checkWire }
