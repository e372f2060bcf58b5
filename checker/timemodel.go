package main

import (
	"golang.org/x/tools/go/ssa"
)

// Summaries of package time. A time is an instant and whether its location is known to be UTC.
// An instant is either symbolic or a triple (v, k, c) standing for v*k+c nanoseconds since the
// Unix epoch.

const (
	nsMicro = int64(1000)
	nsMilli = int64(1000000)
	nsSec   = int64(1000000000)
)

func vTime(inst *V, utc B) *V { return vOpq("time", nil, inst, vBool(utc)) }

func instant(v *V, unit int64) *V {
	f := linOf(v)
	return vOpq("instant", nil, f.base, vConst(f.k, 64), vConst(unit, 64), vConst(f.c, 64))
}

// instNanos splits an instant into a base, its factor and an offset in nanoseconds.
func instNanos(i *V) (base *V, k, c int64, ok bool) {
	if i.k != KOpq || i.s != "instant" {
		return nil, 0, 0, false
	}
	k, _ = i.kids[1].sconst()
	u, _ := i.kids[2].sconst()
	c, _ = i.kids[3].sconst()
	return i.kids[0], k * u, c * u, true
}

// halfSeconds is the number of half seconds since the epoch closest to a symbolic instant.
func halfSeconds(inst *V) *V { return iResize(appInt(41, "halfseconds", inst), 64, true) }

func timeParts(v *V) (*V, B) {
	if v.k != KOpq || v.s != "time" {
		unsup("time %s", v.short(2))
	}
	return v.kids[0], v.kids[1].bits[0]
}

// unixIn is the count of whole units since the epoch.
func unixIn(inst *V, unit int64) *V {
	if b, k, c, ok := instNanos(inst); ok {
		if k%unit == 0 && c%unit == 0 {
			return linForm{b, k / unit, c / unit}.val()
		}
		return symInt(64, "?unix", inst, vConst(unit, 64))
	}
	op := map[int64]string{nsSec: "unix", nsMilli: "unixmilli", nsMicro: "unixmicro", 1: "unixnano"}[unit]
	if op == "" {
		unsup("time unit")
	}
	v := appInt(64, op, inst)
	counts[v] = linForm{v, 1, 0}
	return v
}

func timeModels(m map[string]modelFn) {
	ret := func(f func(ip *Interp, st *State, a []*V) *V) modelFn {
		return func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) { return f(ip, st, a), st }
	}
	m["time.Unix"] = ret(func(ip *Interp, st *State, a []*V) *V {
		if implies(st.g, iEq(a[1], vConst(0, 64))) {
			return vTime(instant(a[0], nsSec), bF)
		}
		if implies(st.g, iEq(a[0], vConst(0, 64))) {
			return vTime(instant(a[1], 1), bF)
		}
		return vTime(vOpq("?instant", nil, a[0], a[1]), bF)
	})
	m["time.UnixMilli"] = ret(func(ip *Interp, st *State, a []*V) *V { return vTime(instant(a[0], nsMilli), bF) })
	m["time.UnixMicro"] = ret(func(ip *Interp, st *State, a []*V) *V { return vTime(instant(a[0], nsMicro), bF) })
	const p = "(time.Time)."
	m[p+"UTC"] = ret(func(ip *Interp, st *State, a []*V) *V {
		i, _ := timeParts(a[0])
		return vTime(i, bT)
	})
	m[p+"Local"] = ret(func(ip *Interp, st *State, a []*V) *V {
		i, _ := timeParts(a[0])
		return vTime(i, bF)
	})
	for n, u := range map[string]int64{"Unix": nsSec, "UnixMilli": nsMilli, "UnixMicro": nsMicro, "UnixNano": 1} {
		m[p+n] = ret(func(ip *Interp, st *State, a []*V) *V {
			i, _ := timeParts(a[0])
			return unixIn(i, u)
		})
	}
	m[p+"Round"] = ret(func(ip *Interp, st *State, a []*V) *V {
		i, utc := timeParts(a[0])
		d, ok := a[1].sconst()
		if !ok {
			unsup("rounding to a variable duration")
		}
		if b, k, c, ok := instNanos(i); ok && k%d == 0 && c%d == 0 {
			_ = b
			return a[0]
		}
		if d == 500*nsMilli {
			return vTime(vOpq("instant", nil, halfSeconds(i), vConst(1, 64), vConst(d, 64), vConst(0, 64)), utc)
		}
		return vTime(vOpq("round", nil, i, a[1]), utc)
	})
	m[p+"Truncate"] = ret(func(ip *Interp, st *State, a []*V) *V {
		i, utc := timeParts(a[0])
		return vTime(vOpq("truncate", nil, i, a[1]), utc)
	})
	m[p+"Add"] = ret(func(ip *Interp, st *State, a []*V) *V {
		i, utc := timeParts(a[0])
		return vTime(vOpq("?addtime", nil, i, a[1]), utc)
	})
	m[p+"Equal"] = ret(func(ip *Interp, st *State, a []*V) *V {
		x, _ := timeParts(a[0])
		y, _ := timeParts(a[1])
		if x == y {
			return vTrue
		}
		b1, k1, c1, ok1 := instNanos(x)
		b2, k2, c2, ok2 := instNanos(y)
		if !ok1 || !ok2 || k1 != k2 || k1 == 0 || (c1-c2)%k1 != 0 {
			return vBool(atom("?timeequal", x, y))
		}
		return vBool(iEq(iAdd(b1, vConst((c1-c2)/k1, 64)), b2))
	})
	m[p+"Format"] = ret(func(ip *Interp, st *State, a []*V) *V {
		i, utc := timeParts(a[0])
		return ip.opaqueStr("timetext", canonInstant(i), argStr(a[1]), vBool(utc))
	})
	m[p+"AppendFormat"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		i, utc := timeParts(a[0])
		s := ip.opaqueStr("timetext", canonInstant(i), argStr(a[2]), vBool(utc))
		return ip.newSlice(st, in.Value().Type(), seqOf(ip.sliceSeq(st, a[1], st.g), argStr(s))), st
	}
	m["time.ParseInLocation"] = ret(func(ip *Interp, st *State, a []*V) *V {
		if a[2].k == KPtr && objName[a[2].n] != nil && objName[a[2].n].s == "global:time.UTC" {
			return parseTime(ip, argStr(a[0]), argStr(a[1]))
		}
		r := parseTime(ip, argStr(a[0]), argStr(a[1]))
		return tup(vTime(vOpq("parsedin", nil, argStr(a[0]), argStr(a[1])), bF), r.kids[1])
	})
	m[p+"In"] = ret(func(ip *Interp, st *State, a []*V) *V {
		i, _ := timeParts(a[0])
		if a[1].k == KPtr && objName[a[1].n] != nil && objName[a[1].n].s == "global:time.UTC" {
			return vTime(i, bT)
		}
		return vTime(i, bF)
	})
	m["time.Parse"] = ret(func(ip *Interp, st *State, a []*V) *V {
		return parseTime(ip, argStr(a[0]), argStr(a[1]))
	})
}

func canonInstant(i *V) *V {
	if b, k, c, ok := instNanos(i); ok {
		return vOpq("instant", nil, b, vConst(k, 64), vConst(1, 64), vConst(c, 64))
	}
	return i
}

func parseTime(ip *Interp, layout, text *V) *V {
	ok := appBool("istime", layout, text)
	return tup(vTime(vOpq("parsed", nil, layout, text), bT), ip.condErr(ok))
}
