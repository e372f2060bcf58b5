package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summaries of package reflect for values whose type is known to the analysis.
// A reflect.Value is rval(t, v) or raddr(t, pointer); the -ro forms stem from unexported fields.

func mkR(op string, t types.Type, v *V) *V { return vOpq(op, t, v) }

func rIsAddr(r *V) bool { return strings.HasPrefix(r.s, "raddr") }
func rIsRO(r *V) bool   { return strings.HasSuffix(r.s, "-ro") }
func rOp(addr, ro bool) string {
	s := "rval"
	if addr {
		s = "raddr"
	}
	if ro {
		s += "-ro"
	}
	return s
}

func (ip *Interp) rGet(st *State, r *V, in ssa.Instruction) *V {
	if rIsAddr(r) {
		return ip.load(st, r.kids[0], in)
	}
	return r.kids[0]
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func isNilB(v *V, g B) B {
	gs, vs := alts(v, g)
	r := bF
	for i, x := range vs {
		switch x.k {
		case KNil:
			r = or(r, gs[i])
		case KOpq:
			r = or(r, and(gs[i], atom("isnil", x)))
		}
	}
	return r
}

func vRtype(t types.Type) *V { return vOpq("rtype", t) }

// methodCount is the number of exported methods, as reflect counts them.
func (ip *Interp) methodCount(t types.Type) int64 {
	ms := ip.p.SSA.MethodSets.MethodSet(t)
	n := int64(0)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	}
	return ""
}

// isZeroB is the guard under which a value is its type's zero value.
func (ip *Interp) isZeroB(st *State, t types.Type, v *V, g B) B {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return isNilB(v, g)
	case *types.Struct:
		r := g
		for i := 0; i < u.NumFields(); i++ {
			r = and(r, ip.isZeroB(st, u.Field(i).Type(), v.kids[i], g))
		}
		return r
	case *types.Array:
		if w, _, ok := intWidth(u.Elem()); ok && w > 0 {
			return and(g, not(seqDiff(nil, v, zero(t), g)))
		}
		unsup("zero test of %s", t)
	}
	if v.k == KStr {
		return and(g, iEq(seqLen(v.kids[0]), vConst(0, 64)))
	}
	return and(g, not(newDiffer(ip, st, st).diff(v, zero(t), g)))
}

func init() {
	add := func(name string, f func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V) {
		models["(reflect.Value)."+name] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			gs, vs := alts(a[0], st.g)
			return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
				v := f(ip, s, vs[i], a[1:], in)
				if s.g == bF {
					return nil, nil
				}
				return v, s
			})
		}
	}
	bad := func(ip *Interp, st *State, in ssa.Instruction, what string) *V {
		ip.oblige(st, "reflect: "+what, in, st.g)
		return nil
	}
	// need requires a kind
	kinds := func(r *V, ks ...reflect.Kind) bool {
		if r.s == "rinvalid" {
			return false
		}
		k := kindOf(r.t)
		for _, x := range ks {
			if x == k {
				return true
			}
		}
		return false
	}
	rtypeOf := func(v *V) types.Type {
		if v.k == KIface && v.kids[0].k == KOpq && v.kids[0].s == "rtype" {
			v = v.kids[0]
		}
		if v.k != KOpq || v.s != "rtype" {
			unsup("reflect type %s", v.short(2))
		}
		return v.t
	}
	models["reflect.ValueOf"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		gs, vs := alts(a[0], st.g)
		return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
			switch v := vs[i]; v.k {
			case KNil:
				return vOpq("rinvalid", nil), s
			case KIface:
				return mkR("rval", v.t, v.kids[0]), s
			default:
				unsup("reflection on %s", v.short(2))
			}
			return nil, nil
		})
	}
	models["reflect.TypeOf"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		gs, vs := alts(a[0], st.g)
		return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
			switch v := vs[i]; v.k {
			case KNil:
				return vNil, s
			case KIface:
				return vRtype(v.t), s
			default:
				unsup("reflection on %s", v.short(2))
			}
			return nil, nil
		})
	}
	models["reflect.Indirect"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		gs, vs := alts(a[0], st.g)
		return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
			if !kinds(vs[i], reflect.Ptr) {
				return vs[i], s
			}
			return models["(reflect.Value).Elem"](ip, s, []*V{vs[i]}, in)
		})
	}
	add("Kind", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if r.s == "rinvalid" {
			return vConst(0, 64)
		}
		return vConst(int64(kindOf(r.t)), 64)
	})
	add("IsValid", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		return vBool(map[bool]B{true: bF, false: bT}[r.s == "rinvalid"])
	})
	add("Type", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if r.s == "rinvalid" {
			return bad(ip, st, in, "Type of the zero Value")
		}
		return vRtype(r.t)
	})
	add("CanInterface", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if r.s == "rinvalid" {
			return bad(ip, st, in, "CanInterface of the zero Value")
		}
		return vBool(map[bool]B{true: bF, false: bT}[rIsRO(r)])
	})
	add("CanAddr", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		return vBool(map[bool]B{false: bF, true: bT}[rIsAddr(r)])
	})
	add("CanSet", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		return vBool(map[bool]B{false: bF, true: bT}[rIsAddr(r) && !rIsRO(r)])
	})
	add("Interface", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if r.s == "rinvalid" || rIsRO(r) {
			return bad(ip, st, in, "Interface of an unexported field or the zero Value")
		}
		v := ip.rGet(st, r, in)
		if kindOf(r.t) == reflect.Interface {
			return v
		}
		return vIface(r.t, v)
	})
	add("Addr", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if !rIsAddr(r) {
			return bad(ip, st, in, "Addr of an unaddressable value")
		}
		return mkR(rOp(false, rIsRO(r)), types.NewPointer(r.t), r.kids[0])
	})
	add("IsNil", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if !kinds(r, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan) {
			return bad(ip, st, in, "IsNil of a value that cannot be nil")
		}
		return vBool(restrict(isNilB(ip.rGet(st, r, in), st.g), st.g))
	})
	add("IsZero", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if r.s == "rinvalid" {
			return bad(ip, st, in, "IsZero of the zero Value")
		}
		return vBool(restrict(ip.isZeroB(st, r.t, ip.rGet(st, r, in), st.g), st.g))
	})
	models["(reflect.Value).Elem"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		gs, vs := alts(a[0], st.g)
		return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
			r := vs[i]
			if !kinds(r, reflect.Ptr, reflect.Interface) {
				return bad(ip, s, in, "Elem of a value that is neither pointer nor interface"), nil
			}
			v := ip.rGet(s, r, in)
			g2, v2 := alts(v, s.g)
			return ip.split(s, g2, len(v2), func(j int, s2 *State) (*V, *State) {
				switch x := v2[j]; x.k {
				case KNil:
					return vOpq("rinvalid", nil), s2
				case KPtr:
					return mkR(rOp(true, rIsRO(r)), deref(r.t), x), s2
				case KIface:
					return mkR(rOp(false, rIsRO(r)), x.t, x.kids[0]), s2
				default:
					unsup("reflect Elem of %s", x.short(2))
				}
				return nil, nil
			})
		})
	}
	add("NumField", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if !kinds(r, reflect.Struct) {
			return bad(ip, st, in, "NumField of a value that is no struct")
		}
		return vConst(int64(r.t.Underlying().(*types.Struct).NumFields()), 64)
	})
	add("Field", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if !kinds(r, reflect.Struct) {
			return bad(ip, st, in, "Field of a value that is no struct")
		}
		s := r.t.Underlying().(*types.Struct)
		ip.oblige(st, "reflect: field index out of range", in, not(iUlt(a[0], vConst(int64(s.NumFields()), 64))))
		idx, ok := possible(a[0], st.g, 64)
		if !ok || st.g == bF {
			if st.g == bF {
				return nil
			}
			unsup("reflect field index")
		}
		var gs []B
		var vs []*V
		for _, i := range idx {
			f := s.Field(int(i))
			ro := rIsRO(r) || !f.Exported()
			g := and(st.g, iEq(a[0], vConst(i, 64)))
			var x *V
			if rIsAddr(r) {
				x = mkR(rOp(true, ro), f.Type(), vPtr(r.kids[0].n, append(append([]*V{}, r.kids[0].kids...), vFld(int(i)))...))
				if r.kids[0].k != KPtr {
					unsup("address of field")
				}
			} else {
				v := r.kids[0]
				if v.k != KStruct {
					unsup("field of %s", v.short(2))
				}
				x = mkR(rOp(false, ro), f.Type(), v.kids[i])
			}
			gs, vs = append(gs, g), append(vs, x)
		}
		return foldAlts(gs, vs)
	})
	add("Len", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if !kinds(r, reflect.Slice, reflect.Array, reflect.String, reflect.Map) {
			return bad(ip, st, in, "Len of a value without length")
		}
		if at, ok := r.t.Underlying().(*types.Array); ok {
			return vConst(at.Len(), 64)
		}
		return ip.lenOf(st, ip.rGet(st, r, in))
	})
	add("Cap", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		v := ip.rGet(st, r, in)
		if v.k == KNil {
			return vConst(0, 64)
		}
		if v.k != KSlice {
			unsup("reflect Cap")
		}
		return v.kids[3]
	})
	add("Index", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		idx := a[0]
		if c, ok := constUnder(idx, st.g); ok {
			idx = vConst(c, 64)
		}
		switch u := r.t.Underlying().(type) {
		case *types.Array:
			ip.oblige(st, "reflect: index out of range", in, not(iUlt(idx, vConst(u.Len(), 64))))
			if st.g == bF {
				return nil
			}
			if rIsAddr(r) {
				return mkR(r.s, u.Elem(), vPtr(r.kids[0].n, append(append([]*V{}, r.kids[0].kids...), idx)...))
			}
			return mkR(r.s, u.Elem(), seqGet(r.kids[0], idx, st.g))
		case *types.Slice:
			v := ip.rGet(st, r, in)
			n := ip.lenOf(st, v)
			ip.oblige(st, "reflect: index out of range", in, not(iUlt(idx, n)))
			if st.g == bF {
				return nil
			}
			v = narrow(v, st.g)
			gs, vs := alts(v, st.g)
			var rg []B
			var rv []*V
			for i, x := range vs {
				if x.k != KSlice {
					continue
				}
				at := iAdd(x.kids[1], idx)
				if c, ok := constUnder(at, gs[i]); ok {
					at = vConst(c, 64)
				}
				rg = append(rg, gs[i])
				rv = append(rv, mkR(rOp(true, rIsRO(r)), u.Elem(), vPtr(x.kids[0].n, append(append([]*V{}, x.kids[0].kids...), at)...)))
			}
			return foldAlts(rg, rv)
		}
		if kinds(r, reflect.String) {
			return mkR("rval", types.Typ[types.Uint8], seqGet(ip.rGet(st, r, in).kids[0], idx, st.g))
		}
		return bad(ip, st, in, "Index of a value that is no list")
	})
	num := func(name string, signed bool, ks ...reflect.Kind) {
		add(name, func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
			if !kinds(r, ks...) {
				return bad(ip, st, in, name+" of another kind")
			}
			return iResize(ip.rGet(st, r, in), 64, signed)
		})
		add("Set"+name, func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
			if !kinds(r, ks...) || !rIsAddr(r) || rIsRO(r) {
				return bad(ip, st, in, "Set"+name+" of another kind or an unsettable value")
			}
			w, _, _ := intWidth(r.t)
			ip.store(st, r.kids[0], iResize(a[0], w, false), in)
			return vTuple()
		})
	}
	num("Int", true, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	num("Uint", false, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	plain := func(name string, ks ...reflect.Kind) {
		add(name, func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
			if !kinds(r, ks...) {
				return bad(ip, st, in, name+" of another kind")
			}
			return ip.rGet(st, r, in)
		})
		add("Set"+name, func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
			if !kinds(r, ks...) || !rIsAddr(r) || rIsRO(r) {
				return bad(ip, st, in, "Set"+name+" of another kind or an unsettable value")
			}
			ip.store(st, r.kids[0], a[0], in)
			return vTuple()
		})
	}
	plain("Bool", reflect.Bool)
	plain("String", reflect.String)
	plain("Bytes", reflect.Slice)
	add("Set", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		if !rIsAddr(r) || rIsRO(r) {
			return bad(ip, st, in, "Set of an unsettable value")
		}
		gs, vs := alts(a[0], st.g)
		var xs []*V
		for _, x := range vs {
			if x.k != KOpq || x.s == "rinvalid" || rIsRO(x) {
				return bad(ip, st, in, "Set to an unusable value")
			}
			if !types.AssignableTo(x.t, r.t) {
				return bad(ip, st, in, "Set to a value of another type")
			}
			v := ip.rGet(st, x, in)
			if kindOf(r.t) == reflect.Interface && kindOf(x.t) != reflect.Interface {
				v = vIface(x.t, v)
			}
			xs = append(xs, v)
		}
		ip.store(st, r.kids[0], foldAlts(gs, xs), in)
		return vTuple()
	})
	add("SetLen", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		v := ip.rGet(st, r, in)
		if v.k != KSlice {
			unsup("reflect SetLen")
		}
		ip.oblige(st, "reflect: SetLen out of range", in, iUlt(v.kids[3], a[0]))
		ip.store(st, r.kids[0], vSlice(v.kids[0], v.kids[1], a[0], v.kids[3]), in)
		return vTuple()
	})
	add("Slice", func(ip *Interp, st *State, r *V, a []*V, in ssa.CallInstruction) *V {
		v := ip.rGet(st, r, in)
		if v.k != KSlice {
			unsup("reflect Slice")
		}
		ip.oblige(st, "reflect: slice bounds out of range", in, or(iUlt(a[1], a[0]), iUlt(v.kids[3], a[1])))
		return mkR("rval", r.t, vSlice(v.kids[0], iAdd(v.kids[1], a[0]), iSub(a[1], a[0]), iSub(v.kids[3], a[0])))
	})
	models["reflect.New"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		t := rtypeOf(a[0])
		return mkR("rval", types.NewPointer(t), ip.alloc(st, t, zero(t))), st
	}
	models["reflect.Zero"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		t := rtypeOf(a[0])
		return mkR("rval", t, zero(t)), st
	}
	models["reflect.MakeSlice"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		t := rtypeOf(a[0])
		ip.allocs = append(ip.allocs, obligation{kind: "reflect.MakeSlice", pos: ip.p.instrPos(in), fn: fname(in.Parent()), bad: st.g, v: a[2]})
		ip.oblige(st, "reflect: MakeSlice with negative or inconsistent size", in, orN(a[1].bits[63], a[2].bits[63], iSlt(a[2], a[1])))
		if st.g == bF {
			return nil, nil
		}
		et := t.Underlying().(*types.Slice).Elem()
		n := a[1]
		if c, ok := constUnder(n, st.g); ok {
			n = vConst(c, 64)
		}
		return mkR("rval", t, ip.newSlice(st, t, seqOf(segFill(n, zero(et))))), st
	}
	models["reflect.Append"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		gs, vs := alts(a[0], st.g)
		return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
			r := vs[i]
			seq := ip.sliceSeq(s, ip.rGet(s, r, in), s.g)
			more, ok := explicit(ip.sliceSeq(s, a[1], s.g))
			if !ok {
				unsup("reflect Append of a list")
			}
			var e []*V
			for _, x := range more {
				e = append(e, ip.rGet(s, x, in))
			}
			return mkR("rval", r.t, ip.newSlice(s, r.t, seqOf(seq, segE(e...)))), s
		})
	}
	for _, name := range []string{"reflect.New", "reflect.Zero", "reflect.MakeSlice"} {
		f := models[name]
		models[name] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			gs, vs := alts(a[0], st.g)
			return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
				return f(ip, s, append([]*V{vs[i]}, a[1:]...), in)
			})
		}
	}
	models["(reflect.StructTag).Get"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		gs, vs := alts(a[0], st.g)
		key, ok := constStr(a[1])
		if !ok {
			unsup("tag key")
		}
		return ip.split(st, gs, len(vs), func(i int, s *State) (*V, *State) {
			tag, ok := constStr(vs[i])
			if !ok {
				unsup("tag %s", vs[i].short(2))
			}
			return vStr(reflect.StructTag(tag).Get(key)), s
		})
	}
	models["(reflect.StructTag).Lookup"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		tag, ok1 := constStr(a[0])
		key, ok2 := constStr(a[1])
		if !ok1 || !ok2 {
			unsup("tag")
		}
		v, ok := reflect.StructTag(tag).Lookup(key)
		return tup(vStr(v), vBool(map[bool]B{false: bF, true: bT}[ok])), st
	}
	tadd := func(name string, f func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V) {
		models["iface:rtype."+name] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			v := f(ip, st, a[0].t, a[1:], in)
			if st.g == bF {
				return nil, nil
			}
			return v, st
		}
	}
	tadd("Kind", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		return vConst(int64(kindOf(t)), 64)
	})
	tadd("String", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		return vStr(rtypeString(t))
	})
	tadd("Name", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V { return vStr(typeName(t)) })
	tadd("PkgPath", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return vStr(n.Obj().Pkg().Path())
		}
		return vStr("")
	})
	tadd("NumMethod", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		return vConst(ip.methodCount(t), 64)
	})
	tadd("NumField", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return bad(ip, st, in, "NumField of a type that is no struct")
		}
		return vConst(int64(s.NumFields()), 64)
	})
	tadd("Len", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		s, ok := t.Underlying().(*types.Array)
		if !ok {
			return bad(ip, st, in, "Len of a type that is no array")
		}
		return vConst(s.Len(), 64)
	})
	tadd("Elem", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return vRtype(u.Elem())
		case *types.Slice:
			return vRtype(u.Elem())
		case *types.Array:
			return vRtype(u.Elem())
		case *types.Map:
			return vRtype(u.Elem())
		}
		return bad(ip, st, in, "Elem of a type without elements")
	})
	tadd("Key", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		if m, ok := t.Underlying().(*types.Map); ok {
			return vRtype(m.Key())
		}
		return bad(ip, st, in, "Key of a type that is no map")
	})
	tadd("Implements", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		it, ok := rtypeOf(a[0]).Underlying().(*types.Interface)
		if !ok {
			return bad(ip, st, in, "Implements of a type that is no interface")
		}
		return vBool(map[bool]B{false: bF, true: bT}[types.Implements(t, it)])
	})
	tadd("Field", func(ip *Interp, st *State, t types.Type, a []*V, in ssa.CallInstruction) *V {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return bad(ip, st, in, "Field of a type that is no struct")
		}
		ip.oblige(st, "reflect: field index out of range", in, not(iUlt(a[0], vConst(int64(s.NumFields()), 64))))
		if st.g == bF {
			return nil
		}
		idx, ok := possible(a[0], st.g, 64)
		if !ok {
			unsup("reflect field index")
		}
		sft := ip.p.stdType("reflect", "StructField")
		if sft == nil {
			unsup("reflect.StructField")
		}
		su := sft.Underlying().(*types.Struct)
		var gs []B
		var vs []*V
		for _, i := range idx {
			f := s.Field(int(i))
			kids := append([]*V{}, zero(sft).kids...)
			for j := 0; j < su.NumFields(); j++ {
				switch su.Field(j).Name() {
				case "Name":
					kids[j] = vStr(f.Name())
				case "PkgPath":
					if !f.Exported() {
						kids[j] = vStr("main")
					}
				case "Type":
					kids[j] = vRtype(f.Type())
				case "Tag":
					kids[j] = vStr(s.Tag(int(i)))
				case "Anonymous":
					if f.Anonymous() {
						kids[j] = vTrue
					}
				}
			}
			gs = append(gs, and(st.g, iEq(a[0], vConst(i, 64))))
			vs = append(vs, vStruct(kids...))
		}
		return foldAlts(gs, vs)
	})
	models["(reflect.StructField).IsExported"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		pp := a[0].kids[1]
		return vBool(iEq(seqLen(pp.kids[0]), vConst(0, 64))), st
	}
	models["(reflect.Kind).String"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		return ip.opaqueStr("kindname", a[0]), st
	}
}

// rtypeString is what reflect.Type.String returns.
func rtypeString(t types.Type) string {
	var w func(t types.Type) types.Type
	w = func(t types.Type) types.Type { // byte and rune are aliases
		switch u := types.Unalias(t).(type) {
		case *types.Basic:
			return types.Typ[u.Kind()]
		case *types.Pointer:
			return types.NewPointer(w(u.Elem()))
		case *types.Slice:
			return types.NewSlice(w(u.Elem()))
		case *types.Array:
			return types.NewArray(w(u.Elem()), u.Len())
		case *types.Map:
			return types.NewMap(w(u.Key()), w(u.Elem()))
		}
		return types.Unalias(t)
	}
	return types.TypeString(w(t), (*types.Package).Name)
}
