package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aliases finds texts that share their bytes with a buffer that's used again, and outlive the request.
//
// Every value has a mask: bit 0 is set if it can share the bytes of a buffer, bit i+1 if it can share those of parameter i.
type aliases struct {
	w      *World
	mask   map[ssa.Value]uint64
	fields map[string]bool
	rets   map[*ssa.Function][]uint64
	params map[*ssa.Function]uint64 // the parameters that can get such a value
	again  bool
	sinks  int
	bad    func(fn *ssa.Function, in ssa.Instruction, msg string)
}

// sharesBytes tells if values of a type can share bytes with others.
func sharesBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice, *types.Interface, *types.Struct, *types.Pointer, *types.Array, *types.Map, *types.Tuple, *types.Signature:
		return true
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *aliases) or(v ssa.Value, m uint64) {
	if m != 0 && sharesBytes(v.Type()) && x.mask[v]|m != x.mask[v] {
		x.mask[v] |= m
		x.again = true
	}
}

// real tells if a value in a function can share the bytes of a buffer.
func (x *aliases) real(fn *ssa.Function, m uint64) bool {
	return m&1 != 0 || (m>>1)&x.params[fn] != 0
}

func implementsError(t types.Type) bool {
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e) || types.Implements(types.NewPointer(t), e)
}

// ofBuffers tells if a field is one of the parser or of the context of a request.
func ofBuffers(fa *ssa.FieldAddr) bool {
	return strings.HasPrefix(fieldName(fa), "bytecode.") || strings.HasPrefix(fieldName(fa), "yarql.Ctx.")
}

// certainlyText tells if a text certainly isn't empty.
func certainlyText(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && len(v.Value.ExactString()) > 2
	case *ssa.BinOp:
		return v.Op == token.ADD && (certainlyText(v.X) || certainlyText(v.Y))
	}
	return false
}

var aliasSinks = map[string]string{
	"errors.New":                     "an error",
	"(reflect.Value).SetString":      "an argument",
	"(reflect.Value).SetBytes":       "an argument",
	"reflect.ValueOf":                "an argument",
	"(reflect.Value).SetMapIndex":    "an argument",
	"(*sync.Map).Store":              "a map",
	"context.WithValue":              "a context",
	"(*strings.Builder).WriteString": "",
}

func (x *aliases) call(fn *ssa.Function, c ssa.CallInstruction, report bool) {
	common := c.Common()
	var res ssa.Value
	if v, ok := c.(*ssa.Call); ok {
		res = v
	}
	if b, ok := common.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && res != nil {
			x.or(res, x.mask[common.Args[0]])
			if !isByteSlice(common.Args[0].Type()) && len(common.Args) > 1 {
				x.or(res, x.mask[common.Args[1]])
			}
		}
		if (b.Name() == "String" || b.Name() == "StringData" || b.Name() == "Slice" || b.Name() == "SliceData") && res != nil {
			x.or(res, x.mask[common.Args[0]])
		}
		return
	}
	name := calleeName(c)
	if what := aliasSinks[name]; what != "" && report {
		for _, a := range common.Args {
			if x.sinks++; x.real(fn, x.mask[a]) && (isText(a.Type()) || isByteSlice(a.Type()) || x.mask[a]&1 != 0) {
				x.bad(fn, c, "the text of "+what+" shares its bytes with a buffer that the next request uses")
			}
		}
	}
	var callees []*ssa.Function
	args := common.Args
	if f := common.StaticCallee(); f != nil {
		callees = append(callees, f)
	} else if !common.IsInvoke() {
		// a function value
		for _, f := range x.w.functions() {
			if f.Parent() != nil && types.Identical(f.Signature, common.Signature()) {
				callees = append(callees, f)
			}
		}
	}
	for _, f := range callees {
		if !x.w.InScope(f) || len(f.Blocks) == 0 {
			// code of others
			if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/fastjson") && res != nil && isByteSlice(res.Type()) {
				x.or(res, 1) // bytes of the parser
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "strings" && f.Name() != "Clone" && res != nil {
				for _, a := range args {
					x.or(res, x.mask[a])
				}
			}
			for _, a := range args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for _, p := range g.Params {
						if isByteSlice(p.Type()) {
							x.or(p, 1)
						}
					}
				}
			}
			continue
		}
		for i, a := range args {
			if i < len(f.Params) && i < 62 {
				bit := uint64(1) << uint(i)
				if x.real(fn, x.mask[a]) && x.params[f]&bit == 0 {
					x.params[f] |= bit
					x.again = true
				}
			}
		}
		if res == nil {
			continue
		}
		for i, m := range x.rets[f] {
			out := m & 1
			for j, a := range args {
				if j < 62 && m>>uint(j+1)&1 != 0 {
					out |= x.mask[a]
				}
			}
			if f.Signature.Results().Len() == 1 {
				x.or(res, out)
			} else {
				for _, ref := range *res.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
						x.or(e, out)
					}
				}
			}
		}
	}
}

func (x *aliases) step(fn *ssa.Function, in ssa.Instruction, report bool) {
	m := func(v ssa.Value) uint64 { return x.mask[v] }
	switch in := in.(type) {
	case *ssa.Phi:
		for _, e := range in.Edges {
			x.or(in, m(e))
		}
	case *ssa.Slice:
		x.or(in, m(in.X))
		if fa, ok := in.X.(*ssa.FieldAddr); ok && isByteSlice(in.Type()) && ofBuffers(fa) {
			x.or(in, 1)
		}
	case *ssa.ChangeType:
		x.or(in, m(in.X))
	case *ssa.ChangeInterface:
		x.or(in, m(in.X))
	case *ssa.MakeInterface:
		x.or(in, m(in.X))
		if report && isText(in.X.Type()) && implementsError(in.X.Type()) {
			x.sinks++
			if x.real(fn, m(in.X)) {
				x.bad(fn, in, "the text of an error shares its bytes with a buffer that the next request uses")
			}
		}
	case *ssa.TypeAssert:
		x.or(in, m(in.X))
	case *ssa.Extract:
		if _, ok := in.Tuple.(*ssa.Call); !ok {
			x.or(in, m(in.Tuple))
		}
	case *ssa.Convert:
		if isByteSlice(in.X.Type()) && isText(in.Type()) || isText(in.X.Type()) && !isText(in.Type()) {
			return // a copy
		}
		if mm := m(in.X); mm != 0 && x.mask[in]|mm != x.mask[in] {
			x.mask[in] |= mm // also of unsafe pointers
			x.again = true
		}
	case *ssa.BinOp:
		if in.Op == token.ADD && isText(in.Type()) {
			for _, pair := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
				if !certainlyText(pair[1]) {
					x.or(in, m(pair[0])) // nothing is copied if the other one is empty
				}
			}
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if i < len(g.FreeVars) && x.real(fn, m(b)) {
				x.or(g.FreeVars[i], 1)
			}
		}
	case *ssa.Field:
		x.or(in, m(in.X))
	case *ssa.Index:
		x.or(in, m(in.X))
	case *ssa.Lookup:
		x.or(in, m(in.X))
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return
		}
		if fa, ok := in.X.(*ssa.FieldAddr); ok {
			if x.fields[fieldName(fa)] || isByteSlice(in.Type()) && ofBuffers(fa) {
				x.or(in, 1)
			}
		}
		x.or(in, m(in.X))
	case *ssa.FieldAddr:
		if _, ok := in.X.(*ssa.Alloc); ok {
			return
		}
	case *ssa.IndexAddr:
		if !isByteSlice(in.X.Type()) {
			x.or(in, m(in.X))
		}
	case *ssa.Store:
		v := m(in.Val)
		if v == 0 || !sharesBytes(in.Val.Type()) {
			return
		}
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			name := fieldName(a)
			owner := fieldOwner(a)
			real := x.real(fn, v)
			if report && owner != nil && implementsError(owner) && isText(in.Val.Type()) {
				x.sinks++
				if real {
					x.bad(fn, in, "the text of an error shares its bytes with a buffer that the next request uses")
				}
			}
			if real && isText(in.Val.Type()) && !x.fields[name] {
				x.fields[name] = true
				x.again = true
			}
		case *ssa.Global:
			if report && x.real(fn, v) && isText(in.Val.Type()) {
				x.bad(fn, in, "a package level variable gets a text that shares its bytes with a buffer")
			}
		case *ssa.IndexAddr:
			x.or(a.X, v)
		default:
			x.or(in.Addr, v)
		}
	case *ssa.MapUpdate:
		x.sinks++
		if report && x.real(fn, m(in.Key)) && isText(in.Key.Type()) {
			x.bad(fn, in, "the key of a map shares its bytes with a buffer that the next request uses")
		}
		if x.real(fn, m(in.Value)) {
			x.or(in.Map, m(in.Value))
		}
	case *ssa.Return:
		if len(x.rets[fn]) < len(in.Results) {
			x.rets[fn] = make([]uint64, len(in.Results))
		}
		for i, v := range in.Results {
			if sharesBytes(v.Type()) && x.rets[fn][i]|m(v) != x.rets[fn][i] {
				x.rets[fn][i] |= m(v)
				x.again = true
			}
			if report && isText(v.Type()) && fn.Object() != nil && fn.Object().Exported() && fn.Pkg == x.w.Root {
				x.sinks++
				if x.real(fn, m(v)) {
					x.bad(fn, in, "a text that's returned shares its bytes with a buffer that the next request uses")
				}
			}
		}
	case ssa.CallInstruction:
		x.call(fn, in, report)
	}
}

// sharedTexts decides that no text that's handed out shares its bytes with a buffer that's used again.
func (r *Report) sharedTexts() {
	w := r.W
	x := &aliases{w: w, mask: map[ssa.Value]uint64{}, fields: map[string]bool{}, rets: map[*ssa.Function][]uint64{}, params: map[*ssa.Function]uint64{}}
	x.bad = func(fn *ssa.Function, in ssa.Instruction, msg string) {
		r.Obl(false)
		r.Bad(fn, in.Pos(), "shared", fn.Name(), "%s", msg)
	}
	fns := w.requestFuncs()
	for _, fn := range fns {
		for i, p := range fn.Params {
			if sharesBytes(p.Type()) && i < 62 {
				x.mask[p] = 2 << uint(i)
			}
		}
	}
	run := func(report bool) {
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					x.step(fn, in, report)
				}
			}
		}
	}
	for x.again = true; x.again; {
		x.again = false
		run(false)
	}
	run(true)
	for i := 0; i < x.sinks; i++ {
		r.Obl(true)
	}
	shared := 0
	for v, m := range x.mask {
		if m&1 != 0 && isText(v.Type()) {
			shared++
		}
	}
	r.Count("texts that share the bytes of a buffer", shared)
	r.Count("places where texts outlive the request", x.sinks)
	if x.sinks == 0 {
		r.Need("places where texts outlive the request", 0, 1)
	}
}
