package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"
)

// Constant folding of pure library functions: when every argument is a known constant the
// result is computed here.

var foldFuncs = map[string]interface{}{
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Split": strings.Split,
	"strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.Join": strings.Join, "strings.Title": strings.Title,
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.Contains": strings.Contains,
	"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimSpace": strings.TrimSpace, "strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte,
	"strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex,
	"strings.LastIndexByte": strings.LastIndexByte, "strings.Count": strings.Count, "strings.Repeat": strings.Repeat,
	"strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare, "strings.Cut": strings.Cut,
	"strconv.Atoi": strconv.Atoi, "strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.ParseInt": strconv.ParseInt,
	"strconv.ParseUint": strconv.ParseUint, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
}

var errIfaceType = reflect.TypeOf((*error)(nil)).Elem()

// constFold evaluates a pure function of constants.
func (ip *Interp) constFold(st *State, name string, args []*V) (*V, bool) {
	f, ok := foldFuncs[name]
	if !ok {
		return nil, false
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		pt := ft.In(i)
		switch pt.Kind() {
		case reflect.String:
			if a.k != KStr {
				return nil, false
			}
			s, ok := constStr(a)
			if !ok {
				return nil, false
			}
			in[i] = reflect.ValueOf(s)
		case reflect.Int, reflect.Int32, reflect.Int64:
			c, ok := a.sconst()
			if !ok {
				return nil, false
			}
			in[i] = reflect.ValueOf(c).Convert(pt)
		case reflect.Uint8, reflect.Uint64:
			c, ok := a.uconst()
			if !ok {
				return nil, false
			}
			in[i] = reflect.ValueOf(c).Convert(pt)
		case reflect.Slice:
			if a.k != KSlice {
				return nil, false
			}
			e, ok := explicit(ip.sliceSeq(st, a, st.g))
			if !ok {
				return nil, false
			}
			var ss []string
			for _, x := range e {
				if x.k != KStr {
					return nil, false
				}
				s, ok := constStr(x)
				if !ok {
					return nil, false
				}
				ss = append(ss, s)
			}
			in[i] = reflect.ValueOf(ss)
		default:
			return nil, false
		}
	}
	if name == "strings.Repeat" && (in[1].Int() < 0 || in[1].Int() > 1<<16) {
		return nil, false
	}
	var out []*V
	for _, r := range fv.Call(in) {
		switch {
		case r.Kind() == reflect.String:
			out = append(out, vStr(r.String()))
		case r.Kind() == reflect.Bool:
			out = append(out, vBool(map[bool]B{false: bF, true: bT}[r.Bool()]))
		case r.Kind() == reflect.Int || r.Kind() == reflect.Int64:
			out = append(out, vConst(r.Int(), 64))
		case r.Kind() == reflect.Uint64:
			out = append(out, vConst(int64(r.Uint()), 64))
		case r.Type() == errIfaceType:
			if r.IsNil() {
				out = append(out, vNil)
			} else {
				out = append(out, ip.newErr())
			}
		case r.Kind() == reflect.Slice:
			var e []*V
			for i := 0; i < r.Len(); i++ {
				e = append(e, vStr(r.Index(i).String()))
			}
			seq := seqEmpty
			if len(e) > 0 {
				seq = seqOf(segE(e...))
			}
			out = append(out, ip.newSlice(st, types.NewSlice(types.Typ[types.String]), seq))
		default:
			return nil, false
		}
	}
	if len(out) == 1 {
		return out[0], true
	}
	return vTuple(out...), true
}

// goValue is the constant a value stands for, in a form package template can traverse.
func (ip *Interp) goValue(st *State, t types.Type, v *V) interface{} {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.NumMethods() > 0 {
		unsup("template data with methods: %s", t)
	}
	if v.k == KUnion {
		if gs, vs := alts(v, st.g); len(vs) == 1 && gs != nil {
			v = vs[0]
		}
	}
	if v.k == KNil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if s, ok := constStr(v); ok {
				return s
			}
		case u.Info()&types.IsBoolean != 0:
			if v == vTrue {
				return true
			} else if v == vFals {
				return false
			}
		case u.Info()&types.IsInteger != 0:
			if c, ok := v.sconst(); ok {
				return int(c)
			}
		}
	case *types.Pointer:
		return ip.goValue(st, u.Elem(), ip.load(st, v, nil))
	case *types.Interface:
		if v.k == KIface {
			return ip.goValue(st, v.t, v.kids[0])
		}
	case *types.Struct:
		m := map[string]interface{}{}
		for i := 0; i < u.NumFields(); i++ {
			m[u.Field(i).Name()] = ip.goValue(st, u.Field(i).Type(), v.kids[i])
		}
		return m
	case *types.Slice:
		if e, ok := explicit(ip.sliceSeq(st, v, st.g)); ok {
			l := []interface{}{}
			for _, x := range e {
				l = append(l, ip.goValue(st, u.Elem(), x))
			}
			return l
		}
	case *types.Map:
		unsup("template data of type %s", t)
	}
	unsup("template data that is not constant: %s", v.short(2))
	return nil
}

// templateModels: text/template with constant templates and constant data.
func templateModels(models map[string]modelFn) {
	const T = "(*text/template.Template)."
	tmpl := func(v *V) string {
		if v.k != KOpq || v.s != "template" {
			unsup("template %s", v.short(2))
		}
		s, ok := constStr(v.kids[0])
		if !ok {
			unsup("template text is not constant")
		}
		return s
	}
	models["text/template.New"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		return vOpq("template", nil, vStr("")), st
	}
	models[T+"Parse"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		if tmpl(a[0]) != "" {
			unsup("template parsed twice")
		}
		r := vOpq("template", nil, a[1])
		if _, err := template.New("").Parse(tmpl(r)); err != nil {
			return tup(vNil, ip.newErr()), st
		}
		return tup(r, vNil), st
	}
	models["text/template.Must"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		if a[1] != vNil {
			unsup("template that does not parse")
		}
		return a[0], st
	}
	models[T+"Execute"] = func(ip *Interp, st *State, a []*V, in ssa.CallInstruction) (*V, *State) {
		t, err := template.New("").Option("missingkey=error").Parse(tmpl(a[0]))
		if err != nil {
			unsup("template that does not parse")
		}
		dst := a[1]
		if dst.k != KIface {
			unsup("rendering to %s", dst.short(2))
		}
		if q := qualName(deref(dst.t)); q != "bytes.Buffer" && q != "strings.Builder" {
			unsup("rendering to %s", dst.t)
		}
		if a[2].k != KIface {
			unsup("rendering %s", a[2].short(2))
		}
		var out strings.Builder
		if err := t.Execute(&out, ip.goValue(st, a[2].t, a[2].kids[0])); err != nil {
			return ip.errVal(fmt.Sprintf("template: %v", err)), st
		}
		ip.bufAppend(st, dst.kids[0], argStr(vStr(out.String())), in)
		return vNil, st
	}
}
