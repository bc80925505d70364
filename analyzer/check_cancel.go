package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C19", "Abstract interpretation of everything below Resolve with the state of the context of the request: after every call of a resolver the context is asked if it ended before the value is resolved, "+
		"and if it did the value isn't resolved, null is written and the error of the context is recorded.", runCancel)
}

func runCancel(r *Report) {
	w := r.W
	const result = "yarql.Schema.Result"
	const errors = "bytecode.ParserCtx.Errors"
	const outType = "yarql.objMethod.outType"
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("Resolve", b2i(resolve != nil), 1)
	if resolve == nil {
		return
	}
	context := w.contextField()
	r.Need("the context of a request", b2i(context != ""), 1)
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		request[fn] = true
	}
	isDir := func(fn *ssa.Function) bool { return directiveResult(fn) && request[fn] }
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.KeepResults = true
	const asked = "error of the context"
	e.Keep = func(tag string) bool { return tag == asked || tag == "bool" }
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = nothingModel
	writes := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, map[string]bool{result: true}) })
	calls := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, map[string]bool{"(reflect.Value).Call": true}) })
	asks := w.reaching(func(fn *ssa.Function) bool {
		return mentionsField(fn, map[string]bool{context: true}) || w.calls(fn, map[string]bool{"(context.Context).Err": true})
	})
	records := w.always(func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fieldName(fa) == errors
	})
	e.Relevant = func(fn *ssa.Function) (bool, bool) {
		return calls(fn) || asks(fn), calls(fn) || asks(fn)
	}
	sites := w.callSites()
	part := func(fn *ssa.Function) bool {
		return fn != nil && writes(fn) && calls(fn) && e.Recursive(fn) && len(sites[fn]) > 1
	}
	e.LocalGhosts = part
	clear := func(st *absint.State) {
		for _, g := range []string{"called", "asked", "ended", "recorded", "given", "dir"} {
			st.SetGhostBool(g, false)
		}
	}
	e.H.Entry = func(fn *ssa.Function, st *absint.State) {
		if part(fn) {
			clear(st)
		}
	}
	const option, optName = "yarql.ResolveOptions.Context", ".Context"
	resolved, ends, begins := 0, 0, 0
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if st.GhostBool("dir") {
			return st
		}
		if callee != nil && isDir(callee) {
			st.SetGhostBool("dir", true)
			return st
		}
		if records[callee] && st.GhostBool("ended") {
			st.SetGhostBool("recorded", true)
		}
		if part(callee) && !e.Recursive(a.Fn) {
			begins++
			if !r.Obl(st.GhostBool("given")) {
				e.Report(a, in, "given", "the context of the options isn't that of the request")
			}
		}
		if part(callee) {
			for i := range args {
				if fa, ok := in.Common().Args[i].(*ssa.FieldAddr); ok && fieldName(fa) == outType {
					resolved++
					if !r.Obl(st.GhostBool("asked")) {
						e.Report(a, in, "asked", "the output of a resolver is resolved without asking the context if it ended")
					}
				}
			}
			if !r.Obl(!st.GhostBool("ended")) {
				e.Report(a, in, "ended", "the output of a resolver is resolved though the context ended")
			}
			return st
		}
		if calleeName(in) == "(reflect.Value).Call" {
			st.SetGhostBool("called", true)
			st.SetGhostBool("asked", false)
		}
		return st
	}
	e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
		if callee != nil && isDir(callee) && !isDir(a.Fn) {
			st.SetGhostBool("dir", false)
			return
		}
		if calleeName(in) == "(context.Context).Err" {
			st.SetTag(v, asked)
		}
	}
	e.H.NilEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x absint.Val, isNil bool) {
		if cmp, ok := in.(*ssa.BinOp); ok && isNil {
			for _, op := range []ssa.Value{cmp.X, cmp.Y} {
				if fa := loadedField(op); fa != nil && fieldName(fa) == option {
					st.SetGhostBool("given", true)
				}
			}
		}
		if !st.GhostBool("called") {
			return
		}
		switch st.Tag(x) {
		case asked:
			st.SetGhostBool("asked", true)
			if !isNil {
				st.SetGhostBool("ended", true)
			}
		default:
			cmp, ok := in.(*ssa.BinOp)
			if !ok || !isNil {
				return
			}
			for _, op := range []ssa.Value{cmp.X, cmp.Y} {
				switch strings.TrimPrefix(typeString(op.Type()), "*") {
				case "context.Context":
					st.SetGhostBool("asked", true)
				}
			}
		}
	}
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		switch absint.CellTag(o, p.P) {
		case context:
			ptr, ok := v.(absint.VPtr)
			st.SetGhostBool("given", ok && strings.HasSuffix(ptr.P, optName) || st.Tag(v) == option)
		case errors:
			if st.GhostBool("ended") {
				st.SetGhostBool("recorded", true)
			}
		}
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if !part(a.Fn) {
			return
		}
		if st.GhostBool("ended") {
			ends++
			if !r.Obl(st.GhostBool("recorded")) {
				e.Report(a, in, "error", "that the context ended isn't recorded as error")
			}
		}
		clear(st)
	}
	e.Run(resolve, nil)
	r.Engine(e)
	r.engineFindings(e)
	r.Need("outputs that are resolved", resolved, 1)
	r.Need("ends of contexts", ends, 1)
	r.Need("begins of requests", begins, 1)
}

// contextField returns the field of Ctx with the context of the request.
func (w *World) contextField() string {
	st, ok := w.named("Ctx").Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		switch typeString(st.Field(i).Type()) {
		case "*context.Context", "context.Context":
			return "yarql.Ctx." + st.Field(i).Name()
		}
	}
	return ""
}

// always returns the functions in which every path from the entry to a return has one of the instructions, or calls another such function.
func (w *World) always(has func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.functions() {
			if out[fn] || len(fn.Blocks) == 0 {
				continue
			}
			marked := func(b *ssa.BasicBlock) bool {
				for _, in := range b.Instrs {
					if has(in) {
						return true
					}
					if c, ok := in.(*ssa.Call); ok && out[c.Common().StaticCallee()] {
						return true
					}
				}
				return false
			}
			// is there a path around them?
			seen := map[*ssa.BasicBlock]bool{}
			around := false
			todo := []*ssa.BasicBlock{fn.Blocks[0]}
			for len(todo) > 0 {
				b := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				if seen[b] || marked(b) {
					continue
				}
				seen[b] = true
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					around = true
				}
				todo = append(todo, b.Succs...)
			}
			if !around {
				out[fn] = true
				changed = true
			}
		}
	}
	return out
}
