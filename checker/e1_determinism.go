package main

// C15: outputs depend on the value only.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

var ambientPkgs = map[string]string{
	"math/rand": "random numbers", "math/rand/v2": "random numbers", "crypto/rand": "random numbers",
	"os": "the environment", "os/user": "the environment", "syscall": "the environment", "hash/maphash": "a random seed",
	"runtime": "the runtime", "runtime/debug": "the runtime", "unsafe": "addresses", "net": "the network",
}

var zoneDependent = map[string]bool{"Format": true, "AppendFormat": true, "String": true, "GoString": true, "Date": true, "Clock": true, "Year": true, "Month": true, "Day": true, "Hour": true, "Minute": true, "Second": true, "Weekday": true, "YearDay": true, "ISOWeek": true, "Zone": true, "Location": true, "MarshalText": true, "MarshalJSON": true, "MarshalBinary": true, "GobEncode": true, "AppendText": true}

func checkC15(p *Program) *Report {
	rep := newReport("no library function consults the clock, random numbers, the environment, addresses or the local time zone, starts goroutines or selects between channels; nothing collected while iterating over a map is written, hashed, concatenated or returned before it has been sorted")
	for _, fn := range p.Funcs {
		switch pkgRel(fn) {
		case "pkg/abi", "pkg/chain", "pkg/base58", "pkg/ripemd160":
		default:
			continue
		}
		rep.Analysed["functions"]++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				rep.Analysed["instructions"]++
				switch x := in.(type) {
				case *ssa.Go:
					rep.fail("goroutine:"+fname(fn), p.instrPos(in), "%s starts a goroutine", fname(fn))
				case *ssa.Select:
					rep.fail("select:"+fname(fn), p.instrPos(in), "%s selects between channels", fname(fn))
				case *ssa.Convert:
					if isUnsafe(x.Type()) && !isUnsafe(x.X.Type()) {
						if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
							rep.fail("address:"+fname(fn), p.instrPos(in), "%s turns an address into a number", fname(fn))
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					checkAmbientCall(p, rep, fn, ci)
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "time" && g.Name() == "Local" {
						rep.fail("local-zone:"+fname(fn), p.instrPos(in), "%s uses the local time zone", fname(fn))
					}
				}
			}
		}
		checkMapOrder(p, rep, fn)
	}
	rep.floor("functions", 100)
	rep.floor("map_iterations", 1)
	rep.floor("zone_dependent_calls", 1)
	rep.Assumptions = append(rep.Assumptions, "fmt prints maps in sorted order (documented)")
	return rep
}

func checkAmbientCall(p *Program, rep *Report, fn *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	f := c.StaticCallee()
	name := calleeName(c)
	rep.Analysed["calls"]++
	if f == nil {
		return
	}
	pk := ""
	if tp := fnPkg(f); tp != nil {
		pk = tp.Path()
	}
	if what, ok := ambientPkgs[pk]; ok && !(pk == "os" && f.Signature.Recv() != nil) {
		rep.Obligations++
		rep.fail("ambient:"+fname(fn)+"->"+name, p.instrPos(ci), "%s calls %s and so depends on %s", fname(fn), name, what)
		return
	}
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.LoadLocation", "(time.Time).Local", "time.NewTimer", "time.After", "time.Tick":
		rep.Obligations++
		rep.fail("ambient:"+fname(fn)+"->"+name, p.instrPos(ci), "%s calls %s and so depends on the clock or the local time zone", fname(fn), name)
		return
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr":
		rep.fail("address:"+fname(fn), p.instrPos(ci), "%s obtains an address through %s", fname(fn), name)
		return
	case "fmt.Sprintf", "fmt.Fprintf", "fmt.Appendf":
		for _, a := range c.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
				rep.fail("address:"+fname(fn), p.instrPos(ci), "%s formats an address", fname(fn))
			}
		}
		return
	case "time.ParseInLocation", "time.Date":
		rep.Obligations++
		rep.Analysed["zone_dependent_calls"]++
		if !isUTCLocation(c.Args[len(c.Args)-1]) {
			rep.fail("zone:"+fname(fn), p.instrPos(ci), "%s calls %s with a location other than UTC", fname(fn), name)
		}
		return
	}
	if strings.HasPrefix(name, "(time.Time).") {
		mn := name[len("(time.Time)."):]
		if !zoneDependent[mn] {
			return
		}
		rep.Obligations++
		rep.Analysed["zone_dependent_calls"]++
		if w := notUTC(p, c.Args[0], map[ssa.Value]bool{}); w != "" {
			rep.fail("zone:"+fname(fn)+"->"+mn, p.instrPos(ci), "%s calls %s on a time that is not known to be in UTC (%s)", fname(fn), name, w)
		} else {
			rep.sample("%s calls %s on a UTC time", fname(fn), name)
		}
	}
}

func isUTCLocation(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "time" && g.Name() == "UTC"
}

// notUTC returns "" if the time value is known to be in UTC, else where it comes from.
func notUTC(p *Program, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		n := calleeName(&v.Call)
		switch n {
		case "(time.Time).UTC":
			return ""
		case "(time.Time).In":
			if isUTCLocation(v.Call.Args[1]) {
				return ""
			}
			return "In of another location"
		case "time.Date":
			if isUTCLocation(v.Call.Args[len(v.Call.Args)-1]) {
				return ""
			}
			return "Date in another location"
		case "(time.Time).Round", "(time.Time).Truncate", "(time.Time).Add", "(time.Time).AddDate":
			return notUTC(p, v.Call.Args[0], seen)
		case "time.Unix", "time.UnixMilli", "time.UnixMicro":
			return n + ", which is in the local time zone"
		}
		if f := v.Call.StaticCallee(); f != nil && p.inRepo(f) && f.Blocks != nil {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range r.Results {
						if res.Type().String() == "time.Time" {
							x := res
							if prm, ok := x.(*ssa.Parameter); ok {
								for i, q := range f.Params {
									if q == prm && i < len(v.Call.Args) {
										x = v.Call.Args[i]
									}
								}
							}
							if w := notUTC(p, x, seen); w != "" {
								return w
							}
						}
					}
				}
			}
			return ""
		}
		return n
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			switch calleeName(&c.Call) {
			case "time.Parse":
				// a layout without a zone gives UTC
				if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
					l := constant.StringVal(k.Value)
					if !strings.Contains(l, "MST") && !strings.Contains(l, "07") {
						return ""
					}
				}
				return "time.Parse with a zone in the layout"
			case "time.ParseInLocation":
				if isUTCLocation(c.Call.Args[2]) {
					return ""
				}
			}
			if f := c.Call.StaticCallee(); f != nil && p.inRepo(f) && f.Blocks != nil {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && v.Index < len(r.Results) {
						if w := notUTC(p, r.Results[v.Index], seen); w != "" {
							return w
						}
					}
				}
				return ""
			}
		}
		return "a call result"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if w := notUTC(p, e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Const:
		return ""
	case *ssa.Parameter:
		// all callers inside the repository must pass UTC times; exported functions can be given any
		fn := v.Parent()
		if exportedAPI(fn) {
			return "parameter " + v.Name()
		}
		idx := -1
		for i, q := range fn.Params {
			if q == v {
				idx = i
			}
		}
		found := false
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn && idx < len(ci.Common().Args) {
						found = true
						if w := notUTC(p, ci.Common().Args[idx], seen); w != "" {
							return w
						}
					}
				}
			}
		}
		if !found {
			return "parameter " + v.Name()
		}
		return ""
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok {
				// a package variable: what its initialiser stores
				for _, f := range p.Funcs {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
								if w := notUTC(p, st.Val, seen); w != "" {
									return w
								}
							}
						}
					}
				}
				return ""
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if w := notUTC(p, st.Val, seen); w != "" {
							return w
						}
					}
				}
				return ""
			}
		}
	}
	return "an unknown value"
}

// ---- map iteration order ---------------------------------------------------------------

// checkMapOrder finds values whose order stems from map iteration and what is done with them.
func checkMapOrder(p *Program, rep *Report, fn *ssa.Function) {
	type src struct {
		loop map[*ssa.BasicBlock]bool // body, for range loops
		seq  ssa.Value                // or an unordered sequence
		at   ssa.Instruction
	}
	var srcs []src
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					for _, r := range *x.Referrers() {
						if nx, ok := r.(*ssa.Next); ok {
							srcs = append(srcs, src{loop: loopBody(nx.Block()), at: in})
						}
					}
				}
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "(reflect.Value).MapKeys":
					srcs = append(srcs, src{seq: x, at: in})
				case "(*reflect.MapIter).Next":
					srcs = append(srcs, src{loop: loopBody(x.Block()), at: in})
				case "maps.Keys", "maps.Values", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
					srcs = append(srcs, src{seq: x, at: in})
				}
			}
		}
	}
	done := map[ssa.Value]bool{}
	for len(srcs) > 0 {
		s := srcs[0]
		srcs = srcs[1:]
		if s.seq != nil {
			if done[s.seq] {
				continue
			}
			done[s.seq] = true
			rep.Obligations++
			rep.Analysed["map_iterations"]++
			// aliases of the sequence: stores to and loads from local cells, interfaces, phis
			alias := aliases(s.seq)
			var sorts []ssa.Instruction
			for a := range alias {
				for _, r := range *a.Referrers() {
					if ci, ok := r.(ssa.CallInstruction); ok && isSort(ci) {
						sorts = append(sorts, r)
					}
				}
			}
			sorted := func(in ssa.Instruction) bool {
				for _, so := range sorts {
					if so == in || precedes(so, in) {
						return true
					}
				}
				return false
			}
			for a := range alias {
				for _, r := range *a.Referrers() {
					if sorted(r) {
						continue
					}
					switch r := r.(type) {
					case *ssa.IndexAddr:
						if inLoop(r.Block()) {
							srcs = append(srcs, src{loop: loopBody(r.Block()), at: r})
						}
					case *ssa.Return:
						rep.fail("map-order:"+fname(fn), p.instrPos(r), "%s returns a sequence in map iteration order", fname(fn))
					case *ssa.Call:
						n := calleeName(&r.Call)
						if strings.HasPrefix(n, "builtin.") || isSort(r) || strings.HasPrefix(n, "(reflect.Value).Len") {
							continue
						}
						if takesOutput(r, nil) || n == "strings.Join" || n == "bytes.Join" || strings.HasPrefix(n, "fmt.") {
							rep.fail("map-order:"+fname(fn), p.instrPos(r), "%s passes a sequence in map iteration order to %s", fname(fn), n)
						}
					}
				}
			}
			continue
		}
		rep.Obligations++
		rep.Analysed["map_iterations"]++
		for b := range s.loop {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" {
							srcs = append(srcs, src{seq: x, at: in})
						}
						continue
					}
					if takesOutput(x, s.loop) {
						n := calleeName(&x.Call)
						if n == "" {
							n = "a function value"
						}
						rep.fail("map-order:"+fname(fn), p.instrPos(in), "%s writes output while iterating over a map (%s), in random order", fname(fn), n)
					}
				case *ssa.BinOp:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && bt.Info()&types.IsString != 0 {
						if ph, ok := x.X.(*ssa.Phi); ok && s.loop[ph.Block()] {
							rep.fail("map-order:"+fname(fn), p.instrPos(in), "%s concatenates text in map iteration order", fname(fn))
						}
					}
				}
			}
		}
		rep.sample("%s iterates over a map at %s without order-dependent output", fname(fn), p.instrPos(s.at))
	}
}

// loopBody: the blocks of the innermost cycle through b.
func loopBody(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, x := range b.Parent().Blocks {
		if x == b || reaches(b, x) && reaches(x, b) {
			out[x] = true
		}
	}
	return out
}

func aliases(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if out[v] {
			return
		}
		out[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				visit(r)
			case *ssa.MakeInterface:
				visit(r)
			case *ssa.ChangeType:
				visit(r)
			case *ssa.Slice:
				visit(r)
			case *ssa.Store:
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, l := range *al.Referrers() {
						if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
							visit(u)
						}
					}
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && r.Call.Args[0] == v {
					visit(r)
				}
			}
		}
	}
	visit(v)
	return out
}

func isSort(ci ssa.CallInstruction) bool {
	n := calleeName(ci.Common())
	if !(strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")) {
		return false
	}
	// the comparison must depend on both elements
	for _, a := range ci.Common().Args {
		for _, f := range funcArgs(a) {
			used := 0
			for _, prm := range f.Params {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 && dependsOn(r.Results[0], prm, map[ssa.Value]bool{}) {
						used++
						break
					}
				}
			}
			if used < len(f.Params) {
				return false
			}
		}
	}
	return true
}

// precedes: a is executed before b on every path to b.
func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// takesOutput: the call is given an encoder, writer, hash or builder made outside of the loop.
func takesOutput(c *ssa.Call, loop map[*ssa.BasicBlock]bool) bool {
	vals := append([]ssa.Value{}, c.Call.Args...)
	if c.Call.IsInvoke() {
		vals = append(vals, c.Call.Value)
	}
	for _, v := range vals {
		if !outputType(v.Type()) {
			continue
		}
		r := v
		for {
			switch x := r.(type) {
			case *ssa.MakeInterface:
				r = x.X
				continue
			case *ssa.ChangeInterface:
				r = x.X
				continue
			}
			break
		}
		if in, ok := r.(ssa.Instruction); ok && loop[in.Block()] {
			if _, ok := r.(*ssa.UnOp); !ok {
				continue // made in this iteration
			}
		}
		return true
	}
	return false
}

func outputType(t types.Type) bool {
	s := t.String()
	if strings.HasSuffix(s, "abi.Encoder") || s == "io.Writer" || s == "*bytes.Buffer" || s == "*strings.Builder" || s == "hash.Hash" || s == "*text/template.Template" {
		return true
	}
	return false
}
