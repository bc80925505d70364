package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C14", "Abstract interpretation of everything below Resolve that counts elements and resolver calls: the elements of a list are taken in order without a gap up to its length, "+
		"each is put on the stack of values and resolved before the next one is taken, a resolver is called at most once for a field, "+
		"and the value that's resolved for a method is the output of that call.", runResolve)
}

func runResolve(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "reflect does what its documentation says")
	const result = "yarql.Schema.Result"
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("Resolve", b2i(resolve != nil), 1)
	if resolve == nil {
		return
	}
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		request[fn] = true
	}
	isDir := func(fn *ssa.Function) bool { return directiveResult(fn) && request[fn] }
	const cursor = ".charNr"
	stacks := w.valueStacks()
	r.Need("stacks of values", len(stacks), 1)
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.KeepResults, e.KeepGhosts = true, true
	const outNr, outType, fieldIdx = "yarql.objMethod.outNr", "yarql.objMethod.outType", "yarql.obj.structFieldIdx"
	const output = "call:(reflect.Value).Call"
	e.Keep = func(tag string) bool {
		return strings.HasPrefix(tag, output) || tag == "element" || tag == "bool" || tag == "yarql.Ctx"+cursor || tag == fieldIdx || tag == "length"
	}
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = nothingModel
	writes := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, map[string]bool{result: true}) })
	calls := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, map[string]bool{"(reflect.Value).Call": true}) })
	stack := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, stacks) })
	moves := w.reaching(func(fn *ssa.Function) bool { return storesField(fn, "yarql.Ctx"+cursor) })
	sets := w.reaching(func(fn *ssa.Function) bool {
		return w.calls(fn, valueSetters) || w.calls(fn, map[string]bool{"(reflect.Value).Set": true})
	})
	member := w.members(calls, writes, sets)
	takes := w.reaching(func(fn *ssa.Function) bool {
		return w.calls(fn, map[string]bool{"(reflect.Value).Field": true, "(reflect.Value).Method": true, "(reflect.Value).Index": true, "(reflect.Value).Len": true}) && member(fn)
	})
	e.Relevant = func(fn *ssa.Function) (bool, bool) {
		if takes(fn) {
			return true, true
		}
		return calls(fn) || stack(fn), calls(fn) || stack(fn) || moves(fn)
	}
	// a function that's only called at one place is looked at as part of the one that calls it
	sites := w.callSites()
	part := func(fn *ssa.Function) bool {
		return fn != nil && writes(fn) && calls(fn) && e.Recursive(fn) && len(sites[fn]) > 1
	}
	clear := func(st *absint.State) {
		for _, g := range []string{"called", "taken", "unset", "out", "moved"} {
			st.SetGhostBool(g, false)
		}
		st.SetGhost("next", absint.VInt{})
		st.SetGhost("len", absint.VNil{})
	}
	e.H.Entry = func(fn *ssa.Function, st *absint.State) {
		if part(fn) {
			clear(st)
		}
	}
	e.LocalGhosts = part
	_, cells := w.cursor(cursor)
	elems, lists, resolvers, values, fields := 0, 0, 0, 0, 0
	done := func(a *absint.Activation, st *absint.State, in ssa.Instruction) {
		if !r.Obl(!st.GhostBool("taken")) {
			e.Report(a, in, "left out", "an element of a list isn't resolved")
		}
	}
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if st.GhostBool("dir") {
			return st
		}
		if callee != nil && isDir(callee) {
			st.SetGhostBool("dir", true)
			return st
		}
		if part(callee) {
			isOutput := false
			for i, x := range args {
				if st.Tag(x) == "element" {
					st.SetGhostBool("unset", false)
				}
				if fa, ok := in.Common().Args[i].(*ssa.FieldAddr); ok && fieldName(fa) == outType {
					isOutput = true
				}
			}
			if isOutput {
				values++
				if !r.Obl(st.GhostBool("called") && st.GhostBool("out")) {
					e.Report(a, in, "output", "the value of a method that's resolved isn't an output of a call of it")
				}
			}
			if st.Ghost("len") != (absint.VNil{}) && st.Ghost("len") != nil {
				elems++
				if !r.Obl(st.GhostBool("taken")) {
					e.Report(a, in, "twice", "something is resolved for a list without taking the next element")
				}
				if !r.Obl(!st.GhostBool("unset")) {
					e.Report(a, in, "value", "an element is resolved without its value")
				}
				if !r.Obl(!st.GhostBool("moved")) {
					e.Report(a, in, "selection", "an element isn't resolved with the same selection as the first one")
				}
				st.SetGhostBool("moved", cells)
			}
			st.SetGhostBool("taken", false)
			return st
		}
		switch calleeName(in) {
		case "(reflect.Value).Index":
			if !member(a.Fn) {
				return st
			}
			done(a, st, in)
			i, ok := args[1].(absint.VInt)
			next, ok2 := st.Ghost("next").(absint.VInt)
			if !r.Obl(ok && ok2 && st.SameInt(i, next)) {
				e.Report(a, in, "order", "the elements of a list aren't taken one by one from the first one")
			}
			st.SetGhostBool("taken", true)
			st.SetGhostBool("unset", true)
			next.K++
			st.SetGhost("next", next)
		case "(reflect.Value).Call":
			resolvers++
			if !r.Obl(!st.GhostBool("called")) {
				e.Report(a, in, "again", "a resolver is called more than once for one field")
			}
			st.SetGhostBool("called", true)
			st.SetGhostBool("out", false)
		case "(reflect.Value).Field", "(reflect.Value).Method":
			if member(a.Fn) {
				fields++
				if !r.Obl(st.Tag(args[1]) == fieldIdx) {
					e.Report(a, in, "field", "the field or method of a value that's resolved isn't that of the field of the query")
				}
			}
		}
		return st
	}
	e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
		if callee != nil && isDir(callee) && !isDir(a.Fn) {
			st.SetGhostBool("dir", false)
			return
		}
		if st.GhostBool("dir") || !member(a.Fn) {
			return
		}
		switch calleeName(in) {
		case "(reflect.Value).Index":
			st.SetTag(v, "element")
		case "(reflect.Value).Len":
			if n, ok := v.(absint.VInt); ok {
				st.SetTag(v, "length")
				st.SetGhost("len", n)
			}
		}
	}
	e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
		if ia, ok := in.(*ssa.IndexAddr); ok && strings.HasPrefix(st.Tag(a.Value(st, ia.X)), output) && st.Tag(idx) == outNr {
			st.SetGhostBool("out", true)
		}
	}
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		if i, ok := v.(absint.VInt); ok && absint.CellTag(o, p.P) == "yarql.Ctx"+cursor && i.K == 0 && st.Tag(v) == "yarql.Ctx"+cursor {
			st.SetGhostBool("moved", false)
		}
		if st.Tag(v) == "element" && stacks[strings.TrimSuffix(absint.CellTag(o, p.P), "[]")] {
			st.SetGhostBool("unset", false)
		}
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if !part(a.Fn) {
			return
		}
		critical := false
		if n := len(results); n > 0 {
			if b, ok := results[n-1].(absint.VBool); ok {
				known, is := st.BoolOf(b)
				critical = known && is
			}
		}
		if n, ok := st.Ghost("len").(absint.VInt); ok && !critical {
			lists++
			done(a, st, in)
			next, ok := st.Ghost("next").(absint.VInt)
			if !r.Obl(ok && st.Leq(n, next, 0)) {
				e.Report(a, in, "all", "not every element of a list is resolved")
			}
		}
		clear(st)
	}
	e.Run(resolve, nil)
	r.Engine(e)
	r.engineFindings(e)
	r.Need("elements that are resolved", elems, 1)
	r.Need("ends of lists", lists, 1)
	r.Need("calls of resolvers", resolvers, 1)
	r.Need("outputs that are resolved", values, 1)
	r.Need("fields and methods of values", fields, 1)
}

// valueStacks returns the fields of Ctx with a slice of values of which elements are changed.
func (w *World) valueStacks() map[string]bool {
	out := map[string]bool{}
	st, ok := w.named("Ctx").Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeString(st.Field(i).Type()) == "[]reflect.Value" {
			out["yarql.Ctx."+st.Field(i).Name()] = true
		}
	}
	return out
}

// cursor tells if Ctx has an integer field for the place in the query.
func (w *World) cursor(path string) (string, bool) {
	st := w.named("Ctx").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if "."+st.Field(i).Name() == path && typeString(st.Field(i).Type()) == "int" {
			return st.Field(i).Name(), true
		}
	}
	return "", false
}

// callSites returns the places where functions are called.
func (w *World) callSites() map[*ssa.Function][]ssa.CallInstruction {
	out := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range w.functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						out[g] = append(out[g], c)
					}
				}
			}
		}
	}
	return out
}
