package main

// C22: input is only consumed through full reads.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

func isReaderType(p *Program, t types.Type) bool {
	rd := p.stdType("io", "Reader")
	if rd == nil {
		return false
	}
	return types.Implements(t, rd.Underlying().(*types.Interface))
}

func checkC22(p *Program) *Report {
	rep := newReport("readers are only passed to functions that fail on a short read (io.ReadFull, io.CopyN, ReadAtLeast of the whole buffer), stored, or read in a loop that accumulates the count; the error of every such call surfaces")
	for _, fn := range p.Funcs {
		switch pkgRel(fn) {
		case "pkg/abi", "pkg/chain", "pkg/base58":
		default:
			continue
		}
		rep.Analysed["functions"]++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				checkReaderCall(p, rep, fn, ci)
			}
		}
	}
	rep.floor("reads", 1)
	rep.Assumptions = append(rep.Assumptions, "io.ReadFull, io.CopyN and binary.ReadUvarint/ReadVarint return an error unless they obtained everything they asked for (documented)")
	return rep
}

func checkReaderCall(p *Program, rep *Report, fn *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	name := calleeName(c)
	bad := func(format string, a ...interface{}) {
		rep.fail("partial-read:"+fname(fn)+"->"+strings.ReplaceAll(name, modPath+"/pkg/", ""), p.instrPos(ci), format, a...)
	}
	// direct Read of an interface or library reader
	isRead := false
	var buf ssa.Value
	if c.IsInvoke() && c.Method.Name() == "Read" && len(c.Args) == 1 {
		isRead, buf = true, c.Args[0]
	} else if strings.HasSuffix(name, ".Read") && strings.HasPrefix(name, "(") && len(c.Args) == 2 && !strings.Contains(name, modPath) {
		isRead, buf = true, c.Args[1]
	}
	if isRead {
		rep.Obligations++
		rep.Analysed["reads"]++
		if passThroughRead(fn, buf) || accumulatingRead(ci, buf) {
			rep.sample("%s reads in an accumulating loop at %s", fname(fn), p.instrPos(ci))
			return
		}
		bad("%s calls %s directly: it may return fewer bytes than asked for without an error", fname(fn), name)
		return
	}
	if strings.Contains(name, modPath) || c.StaticCallee() == nil {
		return // readers passed on inside the repository are followed there
	}
	if c.StaticCallee().Signature.Recv() != nil {
		return
	}
	for i, a := range c.Args {
		if !isReaderType(p, a.Type()) && !isReaderArg(p, c, i) {
			continue
		}
		rep.Obligations++
		rep.Analysed["reads"]++
		switch name {
		case "io.ReadFull", "io.CopyN", "encoding/binary.ReadUvarint", "encoding/binary.ReadVarint", "encoding/binary.Read":
			if msg, pos := checkErrorCall(p, fn, ci); msg != "" && name != "encoding/binary.Read" {
				bad("a short read by %s can be taken for a complete one: %s; exit at %s", name, msg, pos)
				return
			}
			rep.sample("%s reads with %s at %s", fname(fn), name, p.instrPos(ci))
		case "io.ReadAtLeast":
			if len(c.Args) == 3 && isLenOf(c.Args[2], c.Args[1]) {
				continue
			}
			bad("io.ReadAtLeast may stop before the buffer is full")
		case "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "io.CopyBuffer":
			if limited(a) {
				bad("%s on a limited reader stops early without an error when the input is short", name)
			}
		case "io.LimitReader", "io.TeeReader", "io.MultiReader", "bufio.NewReader", "bufio.NewReaderSize", "io.NopCloser":
			// wrappers: judged where they are read
		case "fmt.Fscan", "fmt.Fscanf", "fmt.Fscanln":
			bad("%s stops early on short input", name)
		}
	}
}

func isReaderArg(p *Program, c *ssa.CallCommon, i int) bool {
	sig := c.Signature()
	if i >= sig.Params().Len() {
		return false
	}
	s := sig.Params().At(i).Type().String()
	return s == "io.Reader" || s == "io.ByteReader"
}

func limited(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		return calleeName(&v.Call) == "io.LimitReader"
	case *ssa.MakeInterface:
		return v.X.Type().String() == "*io.LimitedReader"
	case *ssa.ChangeInterface:
		return limited(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if limited(e) {
				return true
			}
		}
	}
	return false
}

func isLenOf(n, buf ssa.Value) bool {
	if call, ok := n.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return call.Call.Args[0] == buf
		}
	}
	var l ssa.Value
	switch b := buf.(type) {
	case *ssa.MakeSlice:
		l = b.Len
	case *ssa.Slice:
		if b.High == nil && b.Low == nil {
			if pt, ok := b.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					if k, ok := n.(*ssa.Const); ok && k.Value != nil {
						v, _ := constant.Int64Val(constant.ToInt(k.Value))
						return v == at.Len()
					}
				}
			}
		}
		if b.Low == nil {
			l = b.High
		}
	}
	if l == nil {
		return false
	}
	if l == n {
		return true
	}
	a, ok1 := l.(*ssa.Const)
	k, ok2 := n.(*ssa.Const)
	return ok1 && ok2 && a.Value != nil && k.Value != nil && constant.Compare(a.Value, token.EQL, k.Value)
}

// passThroughRead: a Read method that forwards its own buffer.
func passThroughRead(fn *ssa.Function, buf ssa.Value) bool {
	return fn.Name() == "Read" && fn.Signature.Recv() != nil && len(fn.Params) == 2 && buf == ssa.Value(fn.Params[1])
}

// accumulatingRead: the call is in a loop, reads into buf[acc:], and its count is added to acc.
func accumulatingRead(ci ssa.CallInstruction, buf ssa.Value) bool {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return false
	}
	var n ssa.Value
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
			n = ex
		}
	}
	if n == nil || !inLoop(call.Block()) {
		return false
	}
	// buf[acc:] with acc = phi(..., acc+n), or buf = phi(..., buf[n:])
	s, ok := buf.(*ssa.Slice)
	if ok && s.Low != nil {
		return dependsOn(s.Low, n, map[ssa.Value]bool{})
	}
	if ph, ok := buf.(*ssa.Phi); ok {
		return dependsOn(ph, n, map[ssa.Value]bool{})
	}
	return false
}

func dependsOn(v, on ssa.Value, seen map[ssa.Value]bool) bool {
	if v == on {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al && dependsOn(st.Val, on, seen) {
					return true
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, on, seen) {
			return true
		}
	}
	return false
}

// inLoop: the block can reach itself.
func inLoop(b *ssa.BasicBlock) bool { return reaches(b, b) }

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(from)
}
