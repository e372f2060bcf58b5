package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Summaries of math/big.Int: integers of up to bigBits bits in two's complement. Values that
// come from outside are bounded to numBits bits.

const bigBits = 256

func bigVal(v *V) *V { return vOpq("big", nil, iResize(v, bigBits, true)) }

func bigModels(m map[string]modelFn) {
	get := func(ip *Interp, st *State, p *V, in ssa.CallInstruction) *V {
		v := ip.load(st, p, in)
		if v.k != KOpq || v.s != "big" {
			unsup("big integer %s", v.short(2))
		}
		return v.kids[0]
	}
	put := func(f func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V) modelFn {
		return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			ip.store(st, a[0], bigVal(f(ip, st, a, in)), in)
			return a[0], st
		}
	}
	ret := func(f func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V) modelFn {
		return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			return f(ip, st, a, in), st
		}
	}
	m["math/big.NewInt"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		return ip.alloc(st, deref(in.Value().Type()), bigVal(a[0])), st
	}
	const p = "(*math/big.Int)."
	bin := func(f func(x, y *V) *V) modelFn {
		return put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
			return f(get(ip, st, a[1], in), get(ip, st, a[2], in))
		})
	}
	un := func(f func(x *V) *V) modelFn {
		return put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
			return f(get(ip, st, a[1], in))
		})
	}
	amount := func(n *V) int {
		c, ok := n.uconst()
		if !ok || c > bigBits-numBits && c > 200 {
			unsup("shift of a big integer by a variable amount")
		}
		return int(c)
	}
	// in sums, big integers are combinations of unbounded size
	sumGet := func(ip *Interp, st *State, p *V, in ssa.CallInstruction) *sumForm {
		v := ip.load(st, p, in)
		if v.k != KOpq || v.s != "bigsum" && v.s != "big" {
			unsup("big integer %s", v.short(2))
		}
		if v.s == "bigsum" {
			return sumTab[v.kids[0]]
		}
		x := v.kids[0]
		if x.bits[len(x.bits)-1] != bF {
			unsup("negative big integer in a sum")
		}
		return sumOf(x, 0)
	}
	summed := func(plain modelFn, f func(x, y *sumForm) *sumForm) modelFn {
		return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			if !sumsOn {
				return plain(ip, st, a, in)
			}
			r := f(sumGet(ip, st, a[1], in), sumGet(ip, st, a[2], in))
			ip.store(st, a[0], vOpq("bigsum", nil, r.val()), in)
			return a[0], st
		}
	}
	m[p+"Add"] = summed(bin(iAdd), func(x, y *sumForm) *sumForm { return sumAdd(x, y, 1) })
	m[p+"Sub"] = bin(iSub)
	m[p+"And"] = bin(func(x, y *V) *V { return iBitwise(and, x, y) })
	m[p+"Or"] = bin(func(x, y *V) *V { return iBitwise(or, x, y) })
	m[p+"Xor"] = bin(func(x, y *V) *V { return iBitwise(xor, x, y) })
	m[p+"AndNot"] = bin(func(x, y *V) *V { return iBitwise(and, x, iNot(y)) })
	m[p+"Mul"] = summed(put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x, y := get(ip, st, a[1], in), get(ip, st, a[2], in)
		if !ip.widen {
			unsup("product of big integers")
		}
		_, _ = x, y
		return havocInt(bigBits, "product")
	}), func(x, y *sumForm) *sumForm {
		if _, ok := x.bigConst(); ok {
			x, y = y, x
		}
		k, ok := y.bigConst()
		if !ok {
			unsup("product of big integers")
		}
		return sumScale(x, k)
	})
	m[p+"Bytes"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		if sumsOn {
			f := sumGet(ip, st, a[0], in)
			if c, ok := f.bigConst(); ok {
				return ip.newSlice(st, types.NewSlice(types.Typ[types.Uint8]), seqBytes(c.Bytes())), st
			}
			v := f.val()
			ip.bigBytes = append(ip.bigBytes, v)
			return ip.opaqueBytes(st, "bigbytes", nil, v), st
		}
		if !ip.widen {
			unsup("bytes of a big integer")
		}
		return ip.opaqueBytes(st, "?bigbytes", nil, get(ip, st, a[0], in)), st
	}
	m[p+"Neg"] = un(iNeg)
	m[p+"Not"] = un(iNot)
	set := un(func(x *V) *V { return x })
	m[p+"Set"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		if sumsOn {
			ip.store(st, a[0], ip.load(st, a[1], in), in)
			return a[0], st
		}
		return set(ip, st, a, in)
	}
	abs := func(x *V) *V { return iIte(x.bits[bigBits-1], iNeg(x), x) }
	m[p+"Abs"] = un(abs)
	m[p+"Lsh"] = put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		return iShlC(get(ip, st, a[1], in), amount(a[2]))
	})
	m[p+"Rsh"] = put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		return iShrC(get(ip, st, a[1], in), amount(a[2]), true)
	})
	m[p+"SetInt64"] = put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V { return iResize(a[1], bigBits, true) })
	m[p+"SetUint64"] = put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V { return iResize(a[1], bigBits, false) })
	m[p+"SetBytes"] = put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		e, ok := explicit(ip.sliceSeq(st, a[1], st.g))
		if !ok || len(e) > 31 {
			unsup("big integer from bytes of variable length")
		}
		r := vConst(0, bigBits)
		for _, b := range e {
			r = iBitwise(or, iShlC(r, 8), iResize(b, bigBits, false))
		}
		return r
	})
	m[p+"SetBit"] = put(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x := get(ip, st, a[1], in)
		bit := iShlC(vConst(1, bigBits), amount(a[2]))
		return iIte(iEq(a[3], vConst(0, len(a[3].bits))), iBitwise(and, x, iNot(bit)), iBitwise(or, x, bit))
	})
	m[p+"SetString"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		base, ok := a[2].uconst()
		if !ok {
			unsup("number base")
		}
		form, _, neg, mag := number(narrowDeep(argStr(a[1]), st.g), base)
		v := iResize(mag, bigBits, false)
		v = iIte(neg, iNeg(v), v)
		old := ip.load(st, a[0], in)
		bad := vOpq("big", nil, symInt(bigBits, "?bigundefined", argStr(a[1])))
		_ = old
		ip.store(st, a[0], vIte(form, bigVal(v), bad), in)
		return tup(vIte(form, a[0], vNil), vBool(form)), st
	}
	m[p+"Cmp"] = ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x, y := get(ip, st, a[0], in), get(ip, st, a[1], in)
		return iIte(iSlt(x, y), vConst(-1, 64), iIte(iEq(x, y), vConst(0, 64), vConst(1, 64)))
	})
	m[p+"CmpAbs"] = ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x, y := abs(get(ip, st, a[0], in)), abs(get(ip, st, a[1], in))
		return iIte(iSlt(x, y), vConst(-1, 64), iIte(iEq(x, y), vConst(0, 64), vConst(1, 64)))
	})
	m[p+"Sign"] = ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x := get(ip, st, a[0], in)
		return iIte(x.bits[bigBits-1], vConst(-1, 64), iIte(iEq(x, vConst(0, bigBits)), vConst(0, 64), vConst(1, 64)))
	})
	m[p+"BitLen"] = ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x := abs(get(ip, st, a[0], in))
		r := vConst(0, 64)
		for i := 0; i < bigBits; i++ {
			r = iIte(x.bits[i], vConst(int64(i+1), 64), r)
		}
		return r
	})
	m[p+"Bit"] = ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		return iResize(vInt([]B{get(ip, st, a[0], in).bits[amount(a[1])], bF}), 64, false)
	})
	m[p+"IsUint64"] = ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x := get(ip, st, a[0], in)
		return vBool(iEq(x, iResize(iResize(x, 64, false), bigBits, false)))
	})
	m[p+"IsInt64"] = ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		x := get(ip, st, a[0], in)
		return vBool(iEq(x, iResize(iResize(x, 64, true), bigBits, true)))
	})
	low := ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		return iResize(get(ip, st, a[0], in), 64, false)
	})
	m[p+"Uint64"], m[p+"Int64"] = low, low
	m[p+"FillBytes"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		x := abs(get(ip, st, a[0], in))
		n, ok := ip.lenOf(st, a[1]).uconst()
		if !ok || n > bigBits/8 {
			unsup("filling bytes of variable length")
		}
		over := not(iEq(x, iResize(iResize(x, max(int(8*n), 1), false), bigBits, false)))
		ip.oblige(st, "big integer does not fit the buffer", in, over)
		var out []*V
		for i := int(n) - 1; i >= 0; i-- {
			out = append(out, iResize(iShrC(x, 8*i, false), 8, false))
		}
		ip.overwrite(st, a[1], seqOf(segE(out...)))
		return a[1], st
	}
	str := ret(func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) *V {
		base := uint64(10)
		if len(a) > 1 {
			b, ok := a[1].uconst()
			if !ok {
				unsup("number base")
			}
			base = b
		}
		x := get(ip, st, a[0], in)
		return ip.opaqueStr("bigtext", vConst(int64(base), 64), x)
	})
	m[p+"String"], m[p+"Text"] = str, str
}
