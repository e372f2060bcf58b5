package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summaries of library functions, by full name.

var models map[string]modelFn
var primModels map[string]modelFn

const pkgAbi = modPath + "/pkg/abi"
const pkgRip = modPath + "/pkg/ripemd160"

func qualName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// modelZero is the zero value of library types that are not interpreted field by field.
func modelZero(t types.Type) *V {
	switch qualName(t) {
	case "bytes.Buffer", "strings.Builder":
		return vOpq("buf", t, seqEmpty)
	case "math/big.Int":
		return bigVal(vConst(0, 2))
	case "reflect.Value":
		return vOpq("rinvalid", nil)
	case "time.Time":
		return vOpq("time", nil, vOpq("zerotime", nil), vFals)
	}
	return nil
}

func errNil(v *V) B { // guard under which an error value is nil
	if v.k != KUnion {
		if v.k == KNil {
			return bT
		}
		if v.k == KOpq {
			return atom("isnil", v)
		}
		return bF
	}
	r := bF
	for i, k := range v.kids {
		r = or(r, and(v.gs[i], errNil(k)))
	}
	return r
}

func (ip *Interp) condErr(ok B) *V { return vIte(ok, vNil, ip.newErr()) }

// ---- input positions

type posAlt struct {
	g   B
	seg *V
	off int64
}

func (ip *Interp) posAlts(st *State) []posAlt {
	p := ip.objContent(st, objPos)
	gs, vs := alts(p, st.g)
	var out []posAlt
	for i, v := range vs {
		if v.k != KOpq || v.s != "pos" {
			unsup("input position %s", v.short(3))
		}
		offs, ok := possible(v.kids[1], gs[i], 64)
		if !ok {
			unsup("input offset has too many values")
		}
		for _, o := range offs {
			g := and(gs[i], iEq(v.kids[1], vConst(o, 64)))
			if g != bF {
				out = append(out, posAlt{g, v.kids[0], o})
			}
		}
	}
	return out
}

func vPos(seg *V, off int64) *V { return vOpq("pos", nil, seg, vConst(off, 64)) }

func streamSym(seg *V) *V {
	return vSym(vOpq("stream", nil, seg), vConst(1<<62, 64), types.Typ[types.Uint8])
}

func startSeg() *V { return vOpq("input", nil) }

func (ip *Interp) setupIO(st *State) {
	st.setMem(objOut, seqEmpty)
	st.setMem(objPos, vPos(startSeg(), 0))
}

// avail is the number of bytes the input holds from the start of seg.
func avail(seg *V) *V { return iResize(symInt(33, "avail", seg), 64, false) }

// readN consumes n bytes. It returns the bytes, the guard under which all were there and
// the guard under which none was. The position only advances where all were there.
func (ip *Interp) readN(st *State, n *V) (seq *V, ok, none B) {
	if c, isC := constUnder(n, st.g); isC {
		n = vConst(c, 64)
	}
	var gs []B
	var seqs, poss []*V
	ok, none = bF, bF
	old := ip.objContent(st, objPos)
	for _, a := range ip.posAlts(st) {
		ns, few := possible(n, a.g, 6)
		add := func(g B, n *V, next *V) {
			if g == bF {
				return
			}
			gs = append(gs, g)
			seqs = append(seqs, seqOf(segSub(streamSym(a.seg), vConst(a.off, 64), n)))
			poss = append(poss, next)
			if !ip.eofMode {
				ok = or(ok, g)
				return
			}
			zero := iEq(n, vConst(0, 64))
			if ip.eofAtoms {
				enough := or(zero, atom("enough", a.seg, vConst(a.off, 64), n))
				ok = or(ok, and(g, enough))
				none = or(none, andN(g, not(enough), atom("ended", a.seg, vConst(a.off, 64))))
				return
			}
			l := avail(a.seg)
			ok = or(ok, and(g, or(zero, not(iUlt(l, iAdd(vConst(a.off, 64), n))))))
			none = or(none, and(g, and(not(zero), not(iUlt(vConst(a.off, 64), l)))))
		}
		if few {
			for _, c := range ns {
				add(and(a.g, iEq(n, vConst(c, 64))), vConst(c, 64), vPos(a.seg, a.off+c))
			}
			continue
		}
		if ip.eofMode && a.seg.k == KOpq && a.seg.s == "aftervar" && a.off == 0 {
			// the length that precedes, however it was computed
			off, _ := a.seg.kids[1].sconst()
			l, _ := varAt(posAlt{a.g, a.seg.kids[0], off}, false, ip.maxList > 0)
			if implies(and(st.g, a.g), iEq(n, l)) {
				n = l
			}
		}
		add(a.g, n, vPos(vOpq("after", nil, a.seg, vConst(a.off, 64), n), 0))
	}
	seq = foldAlts(gs, seqs)
	np := foldAlts(gs, poss)
	st.setMem(objPos, vIte(restrict(ok, st.g), np, old))
	return seq, restrict(ok, st.g), restrict(none, st.g)
}

// shortCount is how much was read where not all was there, 1 or 3.
func (ip *Interp) shortCount(args ...*V) *V {
	if ip.eofAtoms {
		return vConst(1, 64)
	}
	return iResize(symInt(2, "short", args...), 64, false)
}

func (ip *Interp) eofErr(ok, none B) *V {
	return vIte(ok, vNil, vIte(none, ip.errVal("err:io.EOF"), ip.errVal("err:io.ErrUnexpectedEOF")))
}

func tup(v ...*V) *V { return vTuple(v...) }

func argStr(v *V) *V { return v.kids[0] } // sequence of a string value

func (ip *Interp) opaqueStr(op string, args ...*V) *V {
	name := vOpq(op, nil, args...)
	n := symLen(name)
	return vStrSeq(seqOf(segSub(vSym(name, n, types.Typ[types.Uint8]), vConst(0, 64), n)))
}

func (ip *Interp) opaqueBytes(st *State, op string, n *V, args ...*V) *V {
	name := vOpq(op, nil, args...)
	if n == nil {
		n = symLen(name)
	}
	return ip.newSlice(st, types.NewSlice(types.Typ[types.Uint8]), seqOf(segSub(vSym(name, n, types.Typ[types.Uint8]), vConst(0, 64), n)))
}

func digest(alg string, n int64, seq *V) *V {
	return congruent("digest:"+alg, []*V{seq}, func() *V { return digestSym(alg, n, seq) })
}

func digestSym(alg string, n int64, seq *V) *V {
	return seqOf(segSub(vSym(vOpq("digest:"+alg, nil, seq), vConst(n, 64), types.Typ[types.Uint8]), vConst(0, 64), vConst(n, 64)))
}

var hashSize = map[string]int64{"sha256": 32, "sha512": 64, "ripemd160": 20}

func hashNew(alg string) modelFn {
	return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		p := ip.alloc(st, nil, vOpq("hash", nil, vStr(alg), seqEmpty))
		return vOpq("hashref", nil, p), st
	}
}

func (ip *Interp) bufGet(st *State, p *V, in ssa.Instruction) *V {
	b := ip.load(st, p, in)
	if b == nil || b.k != KOpq || b.s != "buf" {
		unsup("buffer %s", b.short(2))
	}
	return b
}

func (ip *Interp) bufAppend(st *State, p, seq *V, in ssa.Instruction) {
	b := ip.bufGet(st, p, in)
	ip.store(st, p, vOpq("buf", b.t, seqOf(b.kids[0], seq)), in)
}

// call a method of the repository by name, as the library would through an interface
func (ip *Interp) callMethod(st *State, recv *V, t types.Type, name string, args []*V, in ssa.CallInstruction) (*V, *State) {
	fn := ip.p.SSA.LookupMethod(t, nil, name)
	if fn == nil {
		unsup("no method %s", name)
	}
	return ip.callFn(st, fn, append([]*V{recv}, args...), nil, in)
}

func init() {
	type M = modelFn
	ret := func(f func(ip *Interp, st *State, a []*V) *V) M {
		return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			return f(ip, st, a), st
		}
	}
	newError := ret(func(ip *Interp, st *State, a []*V) *V { return ip.newErr() })
	bits := ret(func(ip *Interp, st *State, a []*V) *V { return a[0] })
	opqStr := func(op string) M {
		return ret(func(ip *Interp, st *State, a []*V) *V {
			var k []*V
			for _, x := range a {
				k = append(k, ip.byValue(st, x))
			}
			return ip.opaqueStr(op, k...)
		})
	}
	u8 := types.Typ[types.Uint8]
	bytesT := types.NewSlice(u8)

	models = map[string]M{
		"errors.New":    newError,
		"fmt.Errorf":    newError,
		"(error).Error": ret(func(ip *Interp, st *State, a []*V) *V { return ip.opaqueStr("errtext") }),
		"errors.Is": ret(func(ip *Interp, st *State, a []*V) *V {
			return vBool(ip.valEq(st, a[0], a[1], st.g))
		}),
		"math.Float32bits":     bits,
		"math.Float64bits":     bits,
		"math.Float32frombits": bits,
		"math.Float64frombits": bits,

		"iface:writer.Write": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			seq := ip.sliceSeq(st, a[1], st.g)
			st.setMem(objOut, seqOf(narrow(ip.objContent(st, objOut), st.g), seq))
			return tup(seqLen(seq), vNil), st
		},
		"io.ReadFull": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			n := ip.lenOf(st, a[1])
			seq, ok, none := ip.readFrom(st, a[0], n)
			if ok != bF {
				if ok == bT {
					ip.overwrite(st, a[1], seq)
				} else {
					s2 := st.clone()
					ip.overwrite(s2, a[1], seq)
					s1 := st.clone()
					s1.g, s2.g = and(st.g, not(ok)), and(st.g, ok)
					*st = *ip.mergeStates(s2, s1, nil)
				}
			}
			cnt := n
			if ok != bT {
				cnt = iIte(ok, n, iIte(none, vConst(0, 64), ip.shortCount(n, ip.objContent(st, objPos))))
				cnt = iIte(or(ok, none), cnt, iBitwise(or, cnt, vConst(1, 64)))
			}
			return tup(cnt, ip.eofErr(ok, none)), st
		},
		"io.ReadAtLeast": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			if !implies(st.g, iEq(a[2], ip.lenOf(st, a[1]))) {
				unsup("ReadAtLeast with a minimum below the buffer length")
			}
			return models["io.ReadFull"](ip, st, a[:2], in)
		},
		"io.CopyN": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			seq, ok, none := ip.readFrom(st, a[1], a[2])
			dst := a[0]
			if dst.k != KIface {
				unsup("copy to %s", dst.short(2))
			}
			if q := qualName(deref(dst.t)); q != "bytes.Buffer" && q != "strings.Builder" {
				unsup("copy to %s", dst.t)
			}
			pn := iBitwise(or, ip.shortCount(seq), vConst(1, 64))
			part := seqOf(segSub(vSym(vOpq("partial", nil, seq), pn, u8), vConst(0, 64), pn))
			ip.bufAppend(st, dst.kids[0], seqIte(ok, seq, seqIte(none, seqEmpty, part)), in)
			cnt := a[2]
			if ok != bT {
				cnt = iIte(ok, cnt, iIte(none, vConst(0, 64), pn))
			}
			e := vIte(ok, vNil, ip.errVal("err:io.EOF"))
			return tup(cnt, e), st
		},
		"bytes.NewReader": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			seq := ip.sliceSeq(st, a[0], st.g)
			return ip.alloc(st, nil, vOpq("reader", nil, seq, vConst(0, 64))), st
		},
		"bytes.NewBuffer": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			bt := in.Value().Type().(*types.Pointer).Elem()
			return ip.alloc(st, bt, vOpq("buf", bt, ip.sliceSeq(st, a[0], st.g))), st
		},
		"bytes.NewBufferString": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			bt := in.Value().Type().(*types.Pointer).Elem()
			return ip.alloc(st, bt, vOpq("buf", bt, argStr(a[0]))), st
		},
		"bytes.Compare": ret(func(ip *Interp, st *State, a []*V) *V {
			return symInt(64, "?bytescompare", ip.byValue(st, a[0]), ip.byValue(st, a[1]))
		}),
		"bytes.Equal": ret(func(ip *Interp, st *State, a []*V) *V {
			return vBool(seqEq(ip.sliceSeq(st, a[0], st.g), ip.sliceSeq(st, a[1], st.g), st.g))
		}),

		// digests
		"crypto.RegisterHash": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) { return nil, st },
		"crypto/sha256.New":   hashNew("sha256"),
		"crypto/sha512.New":   hashNew("sha512"),
		"iface:hashref.Write": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			h := ip.load(st, a[0].kids[0], in)
			seq := ip.sliceSeq(st, a[1], st.g)
			ip.store(st, a[0].kids[0], vOpq("hash", nil, h.kids[0], seqOf(h.kids[1], seq)), in)
			return tup(seqLen(seq), vNil), st
		},
		"iface:hashref.Sum": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			h := ip.load(st, a[0].kids[0], in)
			alg, _ := constStr(h.kids[0])
			return ip.appendSeq(st, a[1], bytesT, ip.sliceSeq(st, a[1], st.g), digest(alg, hashSize[alg], h.kids[1])), st
		},
		"iface:hashref.Reset": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			h := ip.load(st, a[0].kids[0], in)
			ip.store(st, a[0].kids[0], vOpq("hash", nil, h.kids[0], seqEmpty), in)
			return tup(), st
		},
		"iface:hashref.Size": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			h := ip.load(st, a[0].kids[0], in)
			alg, _ := constStr(h.kids[0])
			return vConst(hashSize[alg], 64), st
		},
		"io.WriteString": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			b := ip.newSlice(st, bytesT, argStr(a[1]))
			m := types.NewFunc(0, nil, "Write", nil)
			return ip.invoke(st, a[0], m, []*V{b}, in)
		},
		"crypto/sha256.Sum256": ret(func(ip *Interp, st *State, a []*V) *V { return digest("sha256", 32, ip.sliceSeq(st, a[0], st.g)) }),
		"crypto/sha512.Sum512": ret(func(ip *Interp, st *State, a []*V) *V { return digest("sha512", 64, ip.sliceSeq(st, a[0], st.g)) }),

		// text
		"encoding/hex.DecodedLen": ret(func(ip *Interp, st *State, a []*V) *V { return iShrC(a[0], 1, false) }),
		"encoding/hex.EncodedLen": ret(func(ip *Interp, st *State, a []*V) *V { return iShlC(a[0], 1) }),
		"encoding/hex.EncodeToString": ret(func(ip *Interp, st *State, a []*V) *V {
			return vStrSeq(hexSeq(ip.sliceSeq(st, a[0], st.g)))
		}),
		"encoding/hex.Encode": ret(func(ip *Interp, st *State, a []*V) *V {
			h := hexSeq(ip.sliceSeq(st, a[1], st.g))
			ip.overwrite(st, a[0], h)
			return seqLen(h)
		}),
		"encoding/hex.DecodeString": ret(func(ip *Interp, st *State, a []*V) *V {
			src := argStr(a[0])
			ok, data := hexDecode(src)
			b := ip.newSlice(st, bytesT, data)
			return tup(vIte(ok, b, ip.opaqueBytes(st, "hexpartial", nil, src)), ip.condErr(ok))
		}),
		"encoding/hex.Decode": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			src := ip.sliceSeq(st, a[1], st.g)
			ok, data := hexDecode(src)
			n := seqLen(data)
			dn := ip.lenOf(st, a[0])
			ip.oblige(st, "hex.Decode destination too short", in, iUlt(dn, n))
			if st.g == bF {
				return nil, nil
			}
			part := seqOf(segSub(vSym(vOpq("hexpartial", nil, src), n, u8), vConst(0, 64), n))
			ip.overwrite(st, a[0], seqIte(ok, data, part))
			return tup(iIte(ok, n, iResize(symInt(31, "hexcount", src), 64, false)), ip.condErr(ok)), st
		},
		"(*encoding/base64.Encoding).EncodeToString": ret(func(ip *Interp, st *State, a []*V) *V {
			return ip.opaqueStr("base64:"+b64name(ip, a[0]), ip.sliceSeq(st, a[1], st.g))
		}),
		"(*encoding/base64.Encoding).DecodeString": ret(func(ip *Interp, st *State, a []*V) *V {
			src := argStr(a[1])
			nm := b64name(ip, a[0])
			ok := appBool("b64ok:"+nm, src)
			data := congruent("b64dec:"+nm, []*V{src}, func() *V { return argStr(ip.opaqueStr("b64dec:"+nm, src)) })
			return tup(ip.newSlice(st, bytesT, data), ip.condErr(ok))
		}),
		"strconv.FormatUint": ret(func(ip *Interp, st *State, a []*V) *V { return ip.formatInt(st, a[0], a[1], false) }),
		"strconv.FormatInt":  ret(func(ip *Interp, st *State, a []*V) *V { return ip.formatInt(st, a[0], a[1], true) }),
		"strconv.Itoa":       ret(func(ip *Interp, st *State, a []*V) *V { return ip.formatInt(st, a[0], vConst(10, 64), true) }),
		"strconv.AppendUint": ret(func(ip *Interp, st *State, a []*V) *V {
			s := ip.formatInt(st, a[1], a[2], false)
			return ip.newSlice(st, bytesT, seqOf(ip.sliceSeq(st, a[0], st.g), argStr(s)))
		}),
		"strconv.AppendInt": ret(func(ip *Interp, st *State, a []*V) *V {
			s := ip.formatInt(st, a[1], a[2], true)
			return ip.newSlice(st, bytesT, seqOf(ip.sliceSeq(st, a[0], st.g), argStr(s)))
		}),
		"strconv.ParseUint": ret(func(ip *Interp, st *State, a []*V) *V { return ip.parseInt(st, a[0], a[1], a[2], false) }),
		"strconv.ParseInt":  ret(func(ip *Interp, st *State, a []*V) *V { return ip.parseInt(st, a[0], a[1], a[2], true) }),
		"strconv.Atoi": ret(func(ip *Interp, st *State, a []*V) *V {
			return ip.parseInt(st, a[0], vConst(10, 64), vConst(64, 64), true)
		}),
		"strconv.ParseFloat": ret(func(ip *Interp, st *State, a []*V) *V {
			return tup(symInt(64, "parsefloat", argStr(a[0])), ip.condErr(atom("isfloat", argStr(a[0]))))
		}),
		"strconv.Quote": ret(func(ip *Interp, st *State, a []*V) *V {
			q := seqBytes([]byte{'"'})
			if c, ok := constStr(a[0]); ok {
				return vStr(strconv.Quote(c))
			}
			if wroteNumber(argStr(a[0]), 10) != nil {
				return vStrSeq(seqOf(q, argStr(a[0]), q))
			}
			return ip.opaqueStr("?quote", argStr(a[0]))
		}),
		"strings.Split": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			return ip.newSlice(st, in.Value().Type(), splitSeq(ip, argStr(a[0]), argStr(a[1]), st.g)), st
		},
		"strings.SplitN": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			n, ok := a[2].sconst()
			if !ok || n >= 0 && n < 2 {
				unsup("SplitN limit")
			}
			if n < 0 {
				return ip.newSlice(st, in.Value().Type(), splitSeq(ip, argStr(a[0]), argStr(a[1]), st.g)), st
			}
			if n > 3 {
				unsup("SplitN limit")
			}
			s := argStr(a[0])
			found, at := findByte(s, sepByte(argStr(a[1])), st.g)
			pre, post := cutAt(s, sepByte(argStr(a[1])), found, at, st.g)
			two := []*V{vStrSeq(pre), vStrSeq(post)}
			res := seqOf(segE(two...))
			if n == 3 {
				f2, at2 := findByte(post, sepByte(argStr(a[1])), and(st.g, found))
				p2, q2 := cutAt(post, sepByte(argStr(a[1])), f2, at2, and(st.g, found))
				res = seqIte(f2, seqOf(segE(two[0], vStrSeq(p2), vStrSeq(q2))), res)
			}
			return ip.newSlice(st, in.Value().Type(), seqIte(found, res, seqOf(segE(a[0])))), st
		},
		"strings.Cut": ret(func(ip *Interp, st *State, a []*V) *V {
			s := argStr(a[0])
			found, at := findByte(s, sepByte(argStr(a[1])), st.g)
			pre, post := cutAt(s, sepByte(argStr(a[1])), found, at, st.g)
			return tup(vStrSeq(seqIte(found, pre, s)), vStrSeq(seqIte(found, post, seqEmpty)), vBool(found))
		}),
		"strings.Count": ret(func(ip *Interp, st *State, a []*V) *V {
			parts := seqLen(splitSeq(ip, argStr(a[0]), argStr(a[1]), st.g))
			return iSub(parts, vConst(1, 64))
		}),
		"strings.HasPrefix": ret(func(ip *Interp, st *State, a []*V) *V { return vBool(hasPrefix(argStr(a[0]), argStr(a[1]), st.g)) }),
		"strings.HasSuffix": ret(func(ip *Interp, st *State, a []*V) *V { return vBool(hasSuffix(argStr(a[0]), argStr(a[1]), st.g)) }),
		"strings.TrimSuffix": ret(func(ip *Interp, st *State, a []*V) *V {
			s, suf := argStr(a[0]), argStr(a[1])
			h := hasSuffix(s, suf, st.g)
			if and(h, st.g) == bF {
				return a[0]
			}
			cut := seqSlice(s, vConst(0, 64), iSub(seqLen(s), seqLen(suf)), and(st.g, h))
			return vStrSeq(seqIte(h, cut, s))
		}),
		"strings.TrimPrefix": ret(func(ip *Interp, st *State, a []*V) *V {
			s, pre := argStr(a[0]), argStr(a[1])
			h := hasPrefix(s, pre, st.g)
			if and(h, st.g) == bF {
				return a[0]
			}
			cut := seqSlice(s, seqLen(pre), seqLen(s), and(st.g, h))
			return vStrSeq(seqIte(h, cut, s))
		}),
		"strings.TrimRight": ret(func(ip *Interp, st *State, a []*V) *V {
			if v := trimRight(argStr(a[0]), argStr(a[1]), st.g); v != nil {
				return v
			}
			return ip.opaqueStr("trimright", argStr(a[0]), argStr(a[1]))
		}),
		"bytes.TrimRight": ret(func(ip *Interp, st *State, a []*V) *V {
			if v := trimRight(ip.sliceSeq(st, a[0], st.g), argStr(a[1]), st.g); v != nil {
				return ip.newSlice(st, bytesT, argStr(v))
			}
			return ip.opaqueBytes(st, "trimright", nil, ip.sliceSeq(st, a[0], st.g), argStr(a[1]))
		}),
		"strings.Contains": ret(func(ip *Interp, st *State, a []*V) *V {
			if e, ok := explicit(argStr(a[1])); ok && len(e) == 1 {
				f, _ := findByte(argStr(a[0]), e[0], st.g)
				return vBool(f)
			}
			return vBool(strPred("?contains", a, func(x, y string) bool { return strings.Contains(x, y) }))
		}),
		"strings.ContainsRune": ret(func(ip *Interp, st *State, a []*V) *V {
			if !implies(st.g, iUlt(a[1], vConst(0x80, 32))) {
				unsup("search of a wide character")
			}
			f, _ := findByte(argStr(a[0]), iResize(a[1], 8, false), st.g)
			return vBool(f)
		}),
		"strings.EqualFold":  ret(func(ip *Interp, st *State, a []*V) *V { return vBool(strPred("?equalfold", a, strings.EqualFold)) }),
		"strings.ToUpper":    opqStr("upper"),
		"strings.ToLower":    opqStr("lower"),
		"strings.TrimSpace":  opqStr("trimspace"),
		"strings.Trim":       opqStr("trim"),
		"strings.TrimLeft":   opqStr("trimleft"),
		"strings.ReplaceAll": opqStr("replaceall"),
		"strings.Replace":    opqStr("replace"),
		"strings.Repeat": ret(func(ip *Interp, st *State, a []*V) *V {
			s := argStr(a[0])
			if e, ok := explicit(s); ok && len(e) == 1 {
				return vStrSeq(seqOf(segFill(a[1], e[0])))
			}
			return vStrSeq(seqOf(segLoop(a[1], itVar(0), s)))
		}),
		"strings.Index": ret(func(ip *Interp, st *State, a []*V) *V {
			if x, ok := constStr(a[0]); ok {
				if y, ok := constStr(a[1]); ok {
					return vConst(int64(strings.Index(x, y)), 64)
				}
			}
			if e, ok := explicit(argStr(a[1])); ok && len(e) == 1 {
				return indexByte(argStr(a[0]), e[0], st.g)
			}
			return symInt(64, "?strindex", argStr(a[0]), argStr(a[1]))
		}),
		"strings.IndexRune": ret(func(ip *Interp, st *State, a []*V) *V {
			if !implies(st.g, iUlt(a[1], vConst(0x80, 32))) {
				unsup("search of a wide character")
			}
			return indexByte(argStr(a[0]), iResize(a[1], 8, false), st.g)
		}),
		"strings.IndexByte": ret(func(ip *Interp, st *State, a []*V) *V { return indexByte(argStr(a[0]), a[1], st.g) }),
		"bytes.IndexByte": ret(func(ip *Interp, st *State, a []*V) *V {
			return indexByte(ip.sliceSeq(st, a[0], st.g), a[1], st.g)
		}),
		"fmt.Sprint":   ret(func(ip *Interp, st *State, a []*V) *V { return ip.sprint(st, a[0]) }),
		"fmt.Sprintf":  ret(func(ip *Interp, st *State, a []*V) *V { return ip.sprintf(st, a[0], a[1]) }),
		"fmt.Sprintln": opqStr("?sprintln"),
		"sort.Slice": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			unsup("sort")
			return nil, nil
		},
	}
	bigModels(models)
	timeModels(models)
	templateModels(models)
	for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
		p := "(*" + b + ")."
		models[p+"Write"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			s := ip.sliceSeq(st, a[1], st.g)
			ip.bufAppend(st, a[0], s, in)
			return tup(seqLen(s), vNil), st
		}
		models[p+"WriteString"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			ip.bufAppend(st, a[0], argStr(a[1]), in)
			return tup(seqLen(argStr(a[1])), vNil), st
		}
		models[p+"WriteByte"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			ip.bufAppend(st, a[0], segE(a[1]), in)
			return vNil, st
		}
		models[p+"WriteRune"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			s := utf8Seq(a[1], st.g)
			ip.bufAppend(st, a[0], s, in)
			return tup(seqLen(s), vNil), st
		}
		models[p+"Len"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			return seqLen(ip.bufGet(st, a[0], in).kids[0]), st
		}
		models[p+"String"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			return vStrSeq(ip.bufGet(st, a[0], in).kids[0]), st
		}
		models[p+"Reset"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			ip.store(st, a[0], vOpq("buf", ip.bufGet(st, a[0], in).t, seqEmpty), in)
			return tup(), st
		}
		models[p+"Grow"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			ip.allocs = append(ip.allocs, obligation{kind: "Grow", pos: ip.p.instrPos(in), fn: fname(in.Parent()), bad: st.g, v: a[1]})
			return tup(), st
		}
	}
	models["(*bytes.Buffer).Next"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		b := ip.bufGet(st, a[0], in)
		n := seqLen(b.kids[0])
		if !implies(st.g, not(a[1].bits[63])) {
			unsup("negative count")
		}
		m := iIte(iUlt(a[1], n), a[1], n)
		head, rest := seqSlice(b.kids[0], vConst(0, 64), m, st.g), seqSlice(b.kids[0], m, n, st.g)
		ip.store(st, a[0], vOpq("buf", b.t, rest), in)
		return ip.newSlice(st, bytesT, head), st
	}
	models["(*bytes.Buffer).Truncate"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		b := ip.bufGet(st, a[0], in)
		n := seqLen(b.kids[0])
		ip.oblige(st, "truncation out of range", in, or(a[1].bits[63], iUlt(n, a[1])))
		if st.g == bF {
			return nil, nil
		}
		ip.store(st, a[0], vOpq("buf", b.t, seqSlice(b.kids[0], vConst(0, 64), a[1], st.g)), in)
		return tup(), st
	}
	models["(*bytes.Buffer).Bytes"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		s := ip.bufGet(st, a[0], in).kids[0]
		return ip.newSlice(st, bytesT, s), st
	}
	const encT, decT = "(*" + pkgAbi + ".Encoder).", "(*" + pkgAbi + ".Decoder)."
	writeVar := func(ip *Interp, st *State, enc, v *V, bad B, in ssa.CallInstruction) (*V, *State) {
		return ip.split(st, []B{and(st.g, bad), and(st.g, not(bad))}, 2, func(i int, s *State) (*V, *State) {
			if i == 0 {
				return ip.newErr(), s
			}
			b := ip.newSlice(s, bytesT, seqOf(segVar(v)))
			return ip.callMethod(s, enc, types.NewPointer(ip.p.named("pkg/abi", "Encoder")), "WriteBytes", []*V{b}, in)
		})
	}
	readVar := func(signed bool) M {
		return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			g0 := st.g
			pa := ip.posAlts(st)
			var gs []B
			var vals, poss []*V
			bad, cut := bF, bF
			for _, p := range pa {
				name := vOpq("varint", nil, p.seg, vConst(p.off, 64))
				gs = append(gs, p.g)
				z, np := varAt(p, signed, ip.maxList > 0)
				vals = append(vals, z)
				poss = append(poss, np)
				bad = or(bad, and(p.g, atom("badvarint", name)))
				cut = or(cut, and(p.g, atom("cutvarint", name)))
			}
			if !ip.eofMode {
				cut = bF
			}
			if ip.wellformed {
				bad = bF
			}
			v, ns := ip.callMethod(st, a[0], types.NewPointer(ip.p.named("pkg/abi", "Decoder")), "ReadByte", nil, in)
			if ns == nil {
				return nil, nil
			}
			first := errNil(v.kids[1])
			fail := ip.objContent(ns, objPos)
			ok := andN(first, not(bad), not(cut))
			val := vIte(ok, foldAlts(gs, vals), vConst(0, 64))
			err := vIte(ok, vNil, vIte(first, vIte(cut, ip.errVal("err:io.ErrUnexpectedEOF"), ip.newErr()), v.kids[1]))
			ns.setMem(objPos, vIte(restrict(first, g0), foldAlts(gs, poss), fail))
			return tup(narrow(val, ns.g), narrow(err, ns.g)), ns
		}
	}
	primModels = map[string]M{
		encT + "WriteVaruint": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			bad := bF
			for _, b := range a[1].bits[32:] {
				bad = or(bad, b)
			}
			return writeVar(ip, st, a[0], iResize(a[1], 32, false), bad, in)
		},
		encT + "WriteVarint": func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
			low := iResize(a[1], 32, false)
			bad := not(iEq(iResize(low, 64, true), a[1]))
			z := iBitwise(xor, iShlC(low, 1), vInt(rep(low.bits[31], 32)))
			return writeVar(ip, st, a[0], z, bad, in)
		},
		decT + "ReadVaruint": readVar(false),
		decT + "ReadVarint":  readVar(true),
		pkgRip + ".New":      hashNew("ripemd160"),
	}
}

// varAt is the variable-length integer at a position of the input, and the position after it.
func varAt(p posAlt, signed, short bool) (v, next *V) {
	w := 32
	if short && !signed {
		w = 12
	}
	z := symInt(w, "v", vOpq("varint", nil, p.seg, vConst(p.off, 64)))
	if signed { // zig-zag
		z = iBitwise(xor, iShrC(z, 1, false), vInt(rep(z.bits[0], 32)))
	}
	return iResize(z, 64, signed), vPos(vOpq("aftervar", nil, p.seg, vConst(p.off, 64)), 0)
}

func rep(b B, n int) []B {
	r := make([]B, n)
	for i := range r {
		r[i] = b
	}
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// byValue replaces a reference by the contents it refers to, to serve as argument of an
// opaque function.
func (ip *Interp) byValue(st *State, v *V) *V {
	return freeze(v, func(id int) *V { return ip.objContent(st, id) }, func(int) bool { return true }, 0)
}

func (ip *Interp) readFrom(st *State, r, n *V) (seq *V, ok, none B) {
	if r.k == KOpq && r.s == "sysreader" {
		return ip.readN(st, n)
	}
	unsup("read from %s", r.short(2))
	return
}

func hexDigit(n *V) *V { // n: 4 bits in an 8-bit value
	ten := iUlt(n, vConst(10, 8))
	return iIte(ten, iAdd(n, vConst('0', 8)), iAdd(n, vConst('a'-10, 8)))
}

func hexSeq(s *V) *V {
	if e, ok := explicit(s); ok {
		var out []*V
		for _, b := range e {
			out = append(out, hexDigit(iShrC(b, 4, false)), hexDigit(iBitwise(and, b, vConst(15, 8))))
		}
		return seqOf(segE(out...))
	}
	name := vOpq("hex", nil, s)
	n := iShlC(seqLen(s), 1)
	return seqOf(segSub(vSym(name, n, types.Typ[types.Uint8]), vConst(0, 64), n))
}

// hexDecode gives the guard of a valid hex text and the bytes it stands for.
func hexDecode(src *V) (B, *V) {
	return appBool("ishex", src), congruent("unhex", []*V{src}, func() *V { return unhexSym(src) })
}

func unhexSym(src *V) *V {
	name := vOpq("unhex", nil, src)
	n := iShrC(seqLen(src), 1, false)
	return seqOf(segSub(vSym(name, n, types.Typ[types.Uint8]), vConst(0, 64), n))
}

func b64name(ip *Interp, p *V) string {
	if p.k == KPtr && objName[p.n] != nil {
		return objName[p.n].s
	}
	return p.short(2)
}

func (ip *Interp) formatInt(st *State, v, base *V, signed bool) *V {
	b, ok := base.uconst()
	if !ok {
		unsup("number base")
	}
	if c, ok := v.uconst(); ok {
		if signed {
			x, _ := v.sconst()
			if b == 10 {
				return vStr(fmt.Sprint(x))
			}
		}
		if b == 10 {
			return vStr(fmt.Sprint(c))
		}
	}
	v = iResize(v, 64, signed)
	// below 2^63 signed and unsigned text agree
	s := signed
	if and(st.g, v.bits[63]) == bF {
		s = false
		bits := append([]B{}, v.bits...)
		bits[63] = bF
		v = vInt(bits)
	}
	name := vOpq(fmt.Sprintf("decimal:%d:%v", b, s), nil, v)
	n := iAdd(iResize(symInt(6, "numlen", name), 64, false), vConst(1, 64))
	return vStrSeq(seqOf(segSub(vSym(name, n, types.Typ[types.Uint8]), vConst(0, 64), n)))
}

// number is the meaning of a decimal (or other base) text: whether it is a number with an
// optional sign, whether it has one, whether it is negative, and its magnitude.
const numBits = 200

func number(seq *V, base uint64) (form, signed, neg B, mag *V) {
	if e, ok := explicit(seq); ok {
		c := make([]byte, len(e))
		for i, x := range e {
			u, ok := x.uconst()
			if !ok {
				goto symbolic
			}
			c[i] = byte(u)
		}
		z, ok := new(big.Int).SetString(string(c), int(base))
		if !ok {
			return bF, bF, bF, vConst(0, numBits)
		}
		g := func(b bool) B {
			if b {
				return bT
			}
			return bF
		}
		return bT, g(c[0] == '+' || c[0] == '-'), g(z.Sign() < 0), vBigConst(new(big.Int).Abs(z), numBits)
	}
symbolic:
	if v := wroteNumber(seq, base); v != nil {
		neg := v.bits[len(v.bits)-1]
		m := iIte(neg, iNeg(v), v)
		return bT, neg, neg, iResize(m, numBits, false)
	}
	for i, k := range seq.kids {
		if k.k == KSegIte && nIte(seq) <= 4 {
			part := func(x *V) *V {
				return seqOf(append(append(append([]*V{}, seq.kids[:i]...), x), seq.kids[i+1:]...)...)
			}
			g := k.gs[0]
			f1, s1, n1, m1 := number(part(k.kids[0]), base)
			f2, s2, n2, m2 := number(part(k.kids[1]), base)
			return ite(g, f1, f2), ite(g, s1, s2), ite(g, n1, n2), iIte(g, m1, m2)
		}
	}
	some := not(iEq(seqLen(seq), vConst(0, 64)))
	if some == bF {
		return bF, bF, bF, vConst(0, numBits)
	}
	c := narrow(seqGet(seq, vConst(0, 64), some), some)
	minus := iEq(c, vConst('-', 8))
	sign := or(minus, iEq(c, vConst('+', 8)))
	digit := bT
	if base > 0 && base <= 10 {
		digit = and(not(iUlt(c, vConst('0', 8))), iUlt(c, vConst('0'+int64(base), 8)))
	}
	name := fmt.Sprintf("number:%d", base)
	if e, ok := explicit(seq); ok && base > 0 && base <= 10 {
		form = digit
		if len(e) > 1 {
			form = or(digit, sign)
		}
		for _, x := range e[1:] {
			form = andN(form, not(iUlt(x, vConst('0', 8))), iUlt(x, vConst('0'+int64(base), 8)))
		}
	} else {
		form = andN(some, or(sign, digit), appBool("is"+name, seq))
	}
	return form, and(form, sign), and(form, minus), congruent(name, []*V{seq}, func() *V { return symIntB(numBits, -1000, name, seq) })
}

// nIte counts the choices in a sequence.
func nIte(s *V) int {
	n := 0
	for _, k := range s.kids {
		if k.k == KSegIte {
			n += 1 + nIte(k.kids[0]) + nIte(k.kids[1])
		}
	}
	return n
}

// wroteNumber is the integer (256 bits, two's complement) whose text the sequence is, if it
// came from a number formatter.
func wroteNumber(seq *V, base uint64) *V {
	if len(seq.kids) != 1 {
		return nil
	}
	s := seq.kids[0]
	if s.k != KSegSub || s.kids[0].k != KSym {
		return nil
	}
	name := s.kids[0].kids[0]
	if name.k != KOpq || s.kids[1] != vConst(0, 64) || s.kids[2] != s.kids[0].kids[1] {
		return nil
	}
	switch name.s {
	case "bigtext":
		if name.kids[0] == vConst(int64(base), 64) {
			return name.kids[1]
		}
	case fmt.Sprintf("decimal:%d:true", base):
		return iResize(name.kids[0], bigBits, true)
	case fmt.Sprintf("decimal:%d:false", base):
		return iResize(name.kids[0], bigBits, false)
	}
	return nil
}

func (ip *Interp) parseInt(st *State, s, base, size *V, signed bool) *V {
	b, ok1 := base.uconst()
	sz, ok2 := size.uconst()
	if !ok1 || !ok2 {
		unsup("number base or size")
	}
	if sz == 0 {
		sz = 64
	}
	form, hasSign, neg, mag := number(narrowDeep(argStr(s), st.g), b)
	one := func(n uint64) *V { return iShlC(vConst(1, numBits), int(n)) }
	var ok B
	var val, over *V
	low := iResize(mag, 64, false)
	if signed {
		ok = and(form, ite(neg, not(iUlt(one(sz-1), mag)), iUlt(mag, one(sz-1))))
		val = iIte(neg, iNeg(low), low)
		over = iIte(neg, iResize(iNeg(one(sz-1)), 64, false), iResize(iSub(one(sz-1), vConst(1, numBits)), 64, false))
	} else {
		form = and(form, not(hasSign))
		ok = and(form, iUlt(mag, one(sz)))
		val = low
		over = iResize(iSub(one(sz), vConst(1, numBits)), 64, false)
	}
	return tup(iIte(ok, val, iIte(form, over, vConst(0, 64))), ip.condErr(ok))
}

func hasPrefix(s, pre *V, g B) B {
	n := seqLen(pre)
	long := not(iUlt(seqLen(s), n))
	g2 := and(g, long)
	if g2 == bF {
		return bF
	}
	return and(long, seqEq(seqSlice(s, vConst(0, 64), n, g2), pre, g2))
}

func hasSuffix(s, suf *V, g B) B {
	n, l := seqLen(suf), seqLen(s)
	long := not(iUlt(l, n))
	g2 := and(g, long)
	if g2 == bF {
		return bF
	}
	return and(long, seqEq(seqSlice(s, iSub(l, n), l, g2), suf, g2))
}

func trimRight(s, set *V, g B) *V {
	e, ok := explicit(s)
	c, ok2 := explicit(set)
	if !ok || !ok2 {
		return nil
	}
	in := func(x *V) B {
		r := bF
		for _, y := range c {
			r = or(r, iEq(x, y))
		}
		return r
	}
	res := seqEmpty
	for i := 1; i <= len(e); i++ {
		res = seqIte(not(in(e[i-1])), seqOf(segE(e[:i]...)), res)
	}
	return vStrSeq(res)
}

func strPred(op string, a []*V, f func(x, y string) bool) B {
	if x, ok := constStr(a[0]); ok {
		if y, ok := constStr(a[1]); ok {
			if f(x, y) {
				return bT
			}
			return bF
		}
	}
	return atom("?"+op, argStr(a[0]), argStr(a[1]))
}

func indexByte(s, c *V, g B) *V {
	found, at := findByte(s, c, g)
	return iIte(found, at, vConst(-1, 64))
}

func sepByte(sep *V) *V {
	e, ok := explicit(sep)
	if !ok || len(e) != 1 {
		unsup("separator that is not one byte")
	}
	return e[0]
}

// findByte is whether c occurs in s, and where first.
func findByte(s, c *V, g B) (found B, at *V) {
	if e, ok := explicit(s); ok {
		found, at = bF, vConst(0, 64)
		for i := len(e) - 1; i >= 0; i-- {
			hit := iEq(e[i], c)
			found = or(found, hit)
			at = iIte(hit, vConst(int64(i), 64), at)
		}
		return restrict(found, g), at
	}
	// an explicit beginning
	if k := s.kids[0]; k.k == KSegE {
		f0, a0 := findByte(seqOf(k), c, g)
		g2 := and(g, not(f0))
		if g2 == bF {
			return bT, a0
		}
		f1, a1 := findByte(seqOf(s.kids[1:]...), c, g2)
		return or(f0, f1), iIte(f0, a0, iAdd(a1, vConst(int64(len(k.kids)), 64)))
	}
	n := seqLen(s)
	found = and(appBool("hasbyte", s, c), not(iEq(n, vConst(0, 64))))
	return found, seqLen(cutPart("before", s, c))
}

// cutPart is the text before or after the first c in s.
func cutPart(which string, s, c *V) *V {
	return congruent(which, []*V{s, c}, func() *V {
		name := vOpq(which, nil, s, c)
		n := symLen(name)
		return seqOf(segSub(vSym(name, n, types.Typ[types.Uint8]), vConst(0, 64), n))
	})
}

// noByte is the guard under which c does not occur in s.
func noByte(s, c *V, g B) B {
	if e, ok := explicit(s); ok {
		r := bT
		for _, x := range e {
			r = and(r, not(iEq(x, c)))
		}
		return r
	}
	found, _ := findByte(s, c, g)
	return not(found)
}

// cutAt is s before and after position at, where found.
func cutAt(s, c *V, found B, at *V, g B) (pre, post *V) {
	g = and(g, found)
	if g == bF {
		return s, seqEmpty
	}
	if len(s.kids) > 0 && s.kids[0].k != KSegE {
		return cutPart("before", s, c), cutPart("after", s, c)
	}
	ps, few := possible(at, g, 40)
	if !few || len(ps) > 40 {
		return seqSlice(s, vConst(0, 64), at, g), seqSlice(s, iAdd(at, vConst(1, 64)), seqLen(s), g)
	}
	for i := len(ps) - 1; i >= 0; i-- {
		here := and(g, iEq(at, vConst(ps[i], 64)))
		a := seqSlice(s, vConst(0, 64), vConst(ps[i], 64), here)
		b := seqSlice(s, vConst(ps[i]+1, 64), seqLen(s), here)
		if pre == nil {
			pre, post = a, b
			continue
		}
		pre, post = seqIte(restrict(here, g), a, pre), seqIte(restrict(here, g), b, post)
	}
	return
}

// splitSeq is the sequence of the parts of s between separators.
func splitSeq(ip *Interp, s, sep *V, g B) *V {
	c := sepByte(sep)
	found, at := findByte(s, c, g)
	pre, post := cutAt(s, c, found, at, g)
	g2 := and(g, found)
	one := seqOf(segE(vStrSeq(s)))
	if g2 == bF {
		return one
	}
	none := noByte(post, c, g2)
	name := vOpq("splitrest", nil, post, c)
	n := iAdd(iResize(symInt(lenBits-1, "len", name), 64, false), vConst(2, 64))
	more := seqOf(segE(vStrSeq(pre)), segSub(vSym(name, n, types.Typ[types.String]), vConst(0, 64), n))
	return seqIte(found, seqIte(none, seqOf(segE(vStrSeq(pre), vStrSeq(post))), more), one)
}

func (ip *Interp) sprint(st *State, args *V) *V {
	seq := ip.sliceSeq(st, args, st.g)
	if e, ok := explicit(seq); ok && len(e) == 1 {
		if s := ip.showAny(st, e[0]); s != nil {
			return s
		}
	}
	return ip.opaqueStr("sprint", ip.byValue(st, seq))
}

// showAny is the %v form of a value of basic type, nil if it is anything else.
func (ip *Interp) showAny(st *State, v *V) *V {
	if v.k != KIface {
		return nil
	}
	if ip.p.SSA.MethodSets.MethodSet(v.t).Lookup(nil, "String") != nil || ip.p.SSA.MethodSets.MethodSet(v.t).Lookup(nil, "Error") != nil {
		return nil
	}
	if _, signed, ok := intWidth(v.t); ok {
		return ip.formatInt(st, iResize(v.kids[0], 64, signed), vConst(10, 64), signed)
	}
	if isString(v.t) {
		return v.kids[0]
	}
	return nil
}

func (ip *Interp) sprintf(st *State, format, args *V) *V {
	f, ok := constStr(format)
	seq := ip.sliceSeq(st, args, st.g)
	e, ok2 := explicit(seq)
	if ok && ok2 {
		out := seqEmpty
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out = seqOf(out, seqBytes([]byte{f[i]}))
				continue
			}
			i++
			if i >= len(f) {
				goto opaque
			}
			if f[i] == '%' {
				out = seqOf(out, seqBytes([]byte{'%'}))
				continue
			}
			if k >= len(e) || e[k].k != KIface {
				goto opaque
			}
			switch f[i] {
			case 'd':
				_, signed, isInt := intWidth(e[k].t)
				if !isInt {
					goto opaque
				}
				out = seqOf(out, argStr(ip.formatInt(st, iResize(e[k].kids[0], 64, signed), vConst(10, 64), signed)))
			case 's', 'v':
				s := ip.showAny(st, e[k])
				if s == nil || (f[i] == 's' && !isString(e[k].t)) {
					goto opaque
				}
				out = seqOf(out, argStr(s))
			default:
				goto opaque
			}
			k++
		}
		return vStrSeq(out)
	}
opaque:
	return ip.opaqueStr("?sprintf", argStr(format), ip.byValue(st, seq))
}
