package main

// C14 (caller memory) and C16 (package state).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = checkC14
	checks["C16"] = checkC16
}

func exportedAPI(fn *ssa.Function) bool {
	o := fn.Object()
	if o == nil || fn.Parent() != nil {
		return false
	}
	if fn.Signature.Recv() != nil {
		return o.Exported()
	}
	return o.Exported()
}

func isInitFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			return true
		}
	}
	return false
}

func checkC16(p *Program) *Report {
	rep := newReport("no function outside package initialisation stores to a package-level variable, writes through memory reachable from one, or hands such memory to a caller")
	var gl []*ssa.Global
	for rel, sp := range p.SPkgs {
		if !strings.HasPrefix(rel, "pkg/") {
			continue
		}
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				gl = append(gl, g)
			}
		}
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].String() < gl[j].String() })
	rep.Analysed["package_variables"] = len(gl)
	for _, fn := range p.Funcs {
		if isInitFn(fn) {
			continue
		}
		rep.Analysed["functions"]++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				rep.Analysed["instructions"]++
				if _, ok := in.(*ssa.Go); ok {
					rep.fail("goroutine:"+fname(fn), p.instrPos(in), "%s starts a goroutine", fname(fn))
				}
			}
		}
		if fn.Parent() != nil {
			continue // analysed with its parent
		}
		a := newPts(p)
		if debugOn {
			println(fn.String())
		}
		params := make([]*obj, len(fn.Params))
		for i, prm := range fn.Params {
			params[i] = a.summaryObj("parameter " + prm.Name())
		}
		k := a.run(fn, params)
		if exportedAPI(fn) {
			for _, s := range a.rets[k] {
				for o := range a.reach(s) {
					for _, w := range sortedKeys(a.pooled[o.root]) {
						rep.fail("pooled-memory:"+fname(fn), p.pos(fn.Pos()), "%s returns memory that %s hands back to a pool", fname(fn), w)
					}
				}
			}
		}
		var used []*ssa.Global
		for g := range a.globals {
			used = append(used, g)
		}
		sort.Slice(used, func(i, j int) bool { return used[i].String() < used[j].String() })
		for _, g := range used {
			if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/pkg/") {
				continue
			}
			rep.Obligations++
			rep.Analysed["uses"]++
			o := a.globals[g]
			et := g.Type().(*types.Pointer).Elem()
			ws := sortedKeys(a.writes[o])
			for _, w := range ws {
				rep.fail("package-state:"+fname(fn)+":"+g.Name(), w, "%s modifies package variable %s: %s", fname(fn), g.String(), w)
				break
			}
			if len(ws) == 0 && len(a.synced[o]) > 0 {
				rep.undecided(fname(fn), fmt.Sprintf("package variable %s is modified, ordered by the sync package: %s", g.Name(), sortedKeys(a.synced[o])[0]))
			} else if len(ws) == 0 {
				rep.sample("%s only reads %s", fname(fn), g.Name())
			}
			if isErrorType(et) || !mutableRef(et) || !exportedAPI(fn) {
				continue
			}
			for _, s := range a.rets[k] {
				if a.reach(s)[o] {
					rep.fail("package-state-escapes:"+fname(fn)+":"+g.Name(), p.pos(fn.Pos()), "%s returns memory of package variable %s to its caller", fname(fn), g.String())
				}
			}
			for i, r := range params {
				if a.reach(map[*obj]bool{r: true})[o] {
					rep.fail("package-state-escapes:"+fname(fn)+":"+g.Name(), p.pos(fn.Pos()), "%s stores memory of package variable %s in parameter %s", fname(fn), g.String(), fn.Params[i].Name())
				}
			}
		}
	}
	rep.floor("functions", 100)
	rep.floor("package_variables", 8)
	rep.Assumptions = append(rep.Assumptions, "text/template execution and errors do not modify their package variables")
	return rep
}

// mutableRef: sharing a value of this type would let the receiver modify package memory.
func mutableRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Pointer:
		s := t.String()
		return s != "*text/template.Template"
	}
	return false
}

type memRule struct {
	fn     *ssa.Function
	arg    int
	what   string
	write  bool // must not be written
	keep   bool // must not be kept
	result bool // must not be aliased by a result
}

func checkC14(p *Program) *Report {
	rep := newReport("memory reachable from a caller's argument is not written, not stored and not returned by encoding, hashing, formatting and parsing operations; values returned by the decoder's read methods do not alias the decoder's own memory")
	var rules []memRule
	for _, fn := range p.Funcs {
		if !exportedAPI(fn) {
			continue
		}
		pk := pkgRel(fn)
		name := fn.Name()
		recv := fn.Signature.Recv()
		switch pk {
		case "pkg/chain", "pkg/abi", "pkg/base58", "pkg/ripemd160":
		default:
			continue
		}
		recvIs := func(n string) bool {
			return recv != nil && strings.HasSuffix(recv.Type().String(), n)
		}
		for i, prm := range fn.Params {
			if !hasPointers(prm.Type()) {
				continue
			}
			isRecv := recv != nil && i == 0
			if isRecv {
				switch {
				case recvIs("abi.Decoder"):
					// what the decoder returns must be the caller's own
					rules = append(rules, memRule{fn, i, "decoder memory", false, false, true})
				case recvIs("abi.Encoder"):
				case strings.HasPrefix(name, "Unmarshal"), strings.HasPrefix(name, "Scan"):
				case pk == "pkg/ripemd160" && (name == "Write" || name == "Reset"):
				case pk == "pkg/ripemd160":
					rules = append(rules, memRule{fn, i, "the hash state", true, true, true})
				default:
					textual := name == "MarshalText" || name == "MarshalJSON" || name == "MarshalABI" || name == "Bytes" || name == "BigInt"
					rules = append(rules, memRule{fn, i, "the receiver", true, true, textual})
				}
				continue
			}
			if !dataType(prm.Type()) {
				continue
			}
			ctor := recv == nil && strings.HasPrefix(name, "New")
			switch {
			case strings.HasPrefix(name, "Decode") || name == "UnmarshalABI":
				// destinations
			case pk == "pkg/ripemd160" && name == "Sum":
				// hash.Hash: Sum appends to its argument
			case ctor:
				// constructors wrap what they are given; they must not modify it
				rules = append(rules, memRule{fn, i, "argument " + prm.Name(), true, false, false})
			default:
				rules = append(rules, memRule{fn, i, "argument " + prm.Name(), true, true, true})
			}
		}
	}
	byFn := map[*ssa.Function][]memRule{}
	var order []*ssa.Function
	for _, r := range rules {
		if byFn[r.fn] == nil {
			order = append(order, r.fn)
		}
		byFn[r.fn] = append(byFn[r.fn], r)
	}
	for _, fn := range order {
		a := newPts(p)
		if debugOn {
			println(fn.String())
		}
		params := make([]*obj, len(fn.Params))
		for i, prm := range fn.Params {
			if hasPointers(prm.Type()) {
				params[i] = a.summaryObj("parameter " + prm.Name())
			}
		}
		k := a.run(fn, params)
		rep.Analysed["activations"] += len(a.work)
		for _, r := range byFn[fn] {
			rep.Obligations++
			rep.Analysed["arguments"]++
			o := params[r.arg]
			key := fname(fn) + ":" + r.what
			bad := false
			if r.write {
				for _, w := range sortedKeys(a.writes[o]) {
					bad = true
					rep.fail("caller-memory-written:"+key, w, "%s modifies memory of %s: %s", fname(fn), r.what, w)
					break
				}
			}
			if r.keep {
				var holders []string
				for i, q := range params {
					if q != nil && q != o && a.reach(map[*obj]bool{q: true})[o] {
						holders = append(holders, "memory of "+fn.Params[i].Name())
					}
				}
				for g, q := range a.globals {
					if a.reach(map[*obj]bool{q: true})[o] {
						holders = append(holders, "package variable "+g.Name())
					}
				}
				sort.Strings(holders)
				for _, h := range holders {
					bad = true
					rep.fail("caller-memory-kept:"+key, p.pos(fn.Pos()), "%s stores a reference to memory of %s in %s", fname(fn), r.what, h)
				}
			}
			if r.result {
				for i := 0; i < fn.Signature.Results().Len(); i++ {
					if isErrorType(fn.Signature.Results().At(i).Type()) || !a.reach(a.rets[k][i])[o] {
						continue
					}
					bad = true
					rep.fail("caller-memory-returned:"+key, p.pos(fn.Pos()), "result %d of %s shares memory with %s", i, fname(fn), r.what)
				}
			}
			if !bad {
				rep.sample("%s leaves %s alone", fname(fn), r.what)
			}
		}
	}
	for rel, pk := range p.Pkgs {
		if strings.HasPrefix(rel, "pkg/") {
			rep.Obligations++
			for imp := range pk.Imports {
				if imp == "unsafe" {
					rep.fail("unsafe:"+rel, rel, "package %s imports unsafe, which defeats the aliasing argument", rel)
				}
			}
		}
	}
	rep.floor("arguments", 60)
	rep.Assumptions = append(rep.Assumptions, "writers do not modify or retain the slice passed to Write, readers write only into the slice they are given (io contracts)")
	return rep
}

// dataType: arguments that carry caller data, as opposed to readers, writers and callbacks.
func dataType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Pointer:
		s := t.String()
		return !strings.HasSuffix(s, "abi.Encoder") && !strings.HasSuffix(s, "abi.Decoder")
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Struct:
		return t.String() == "reflect.Value"
	}
	return false
}
