package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

const errorsField = "bytecode.ParserCtx.Errors"

func init() {
	register("C04", "Abstract interpretation of everything below Resolve with the error of the last resolver, and whether an error was recorded since a field started, as ghost state: "+
		"after a resolver was called its error output is found nil, or recorded with its text, on every path to the end of the field; a resolver or directive isn't called when binding its arguments recorded an error; "+
		"a function only tells that resolving has to stop after an error was recorded. The list of errors of a request is only appended to, each of its elements is written, and the whole list is returned.", runFailures)
}

func runFailures(r *Report) {
	w := r.W
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("Resolve", b2i(resolve != nil), 1)
	if resolve == nil {
		return
	}
	runResolverErrors(r, resolve)
	runStops(r, resolve)
	runErrorList(r, resolve)
	runReturnedErrors(r, resolve)
}

const callOutput = "call:(reflect.Value).Call"

// runResolverErrors decides that the errors of resolvers are recorded.
func runResolverErrors(r *Report, resolve *ssa.Function) {
	w := r.W
	const result = "yarql.Schema.Result"
	const errorNr = "yarql.objMethod.errorOutNr"
	const errVal, errText = "error output", "text of error output"
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		request[fn] = true
	}
	isDir := func(fn *ssa.Function) bool { return directiveResult(fn) && request[fn] }
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.KeepResults = true
	e.Keep = func(tag string) bool {
		return strings.HasPrefix(tag, callOutput) || strings.Contains(tag, errVal) || strings.Contains(tag, errorNr) || tag == "bool"
	}
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = nothingModel
	writes := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, map[string]bool{result: true}) })
	calls := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, map[string]bool{"(reflect.Value).Call": true}) })
	adds := w.reaching(func(fn *ssa.Function) bool { return storesField(fn, errorsField) })
	e.Relevant = func(fn *ssa.Function) (bool, bool) {
		for _, p := range fn.Params {
			if t := typeString(p.Type()); t == "reflect.Value" || t == "[]reflect.Value" || t == "error" || strings.HasSuffix(t, "objMethod") {
				return calls(fn) || adds(fn), true
			}
		}
		return calls(fn) || adds(fn), calls(fn) || adds(fn)
	}
	sites := w.callSites()
	part := func(fn *ssa.Function) bool {
		return fn != nil && writes(fn) && calls(fn) && e.Recursive(fn) && len(sites[fn]) > 1
	}
	clear := func(st *absint.State) {
		for _, g := range []string{"pending", "made", "index", "dir"} {
			st.SetGhostBool(g, false)
		}
	}
	e.H.Entry = func(fn *ssa.Function, st *absint.State) {
		if part(fn) {
			clear(st)
		}
	}
	e.LocalGhosts = part
	resolvers, nils, recorded := 0, 0, 0
	dropped := func(a *absint.Activation, st *absint.State, in ssa.Instruction) {
		if !r.Obl(!st.GhostBool("pending")) {
			e.Report(a, in, "dropped", "the error a resolver returned can still be unreported")
			st.SetGhostBool("pending", false)
		}
	}
	handled := func(st *absint.State) { st.SetGhostBool("pending", false) }
	e.Models["(reflect.Value).IsNil"] = func(c *absint.CallCtx) []absint.Ret {
		v := c.St.FreshResult(c.Sig, "")
		if c.St.Tag(c.Args[0]) != errVal {
			return []absint.Ret{{St: c.St, V: v}}
		}
		s := c.St.Clone()
		nils++
		handled(s)
		return []absint.Ret{{St: s, V: absint.VBool{Known: true, B: true}}, {St: c.St, V: absint.VBool{Known: true}}}
	}
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if st.GhostBool("dir") {
			return st
		}
		if callee != nil && isDir(callee) {
			st.SetGhostBool("dir", true)
			return st
		}
		for _, x := range args {
			if !request[callee] && strings.HasPrefix(st.Tag(x), errText) {
				st.SetGhostBool("made", true)
			}
		}
		if calleeName(in) == "(reflect.Value).Call" {
			resolvers++
			dropped(a, st, in)
			st.SetGhostBool("pending", true)
			st.SetGhostBool("made", false)
		}
		return st
	}
	e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
		if callee != nil && isDir(callee) && !isDir(a.Fn) {
			st.SetGhostBool("dir", false)
			return
		}
		var recv absint.Val
		if in.Common().IsInvoke() {
			recv = a.Value(st, in.Common().Value)
		} else if len(in.Common().Args) > 0 {
			recv = a.Value(st, in.Common().Args[0])
		}
		if recv == nil || !strings.HasPrefix(st.Tag(recv), errVal) {
			return
		}
		switch calleeName(in) {
		case "(reflect.Value).Interface":
			st.SetTag(v, errVal)
		case "(error).Error":
			st.SetTag(v, errText)
		}
	}
	e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
		if ia, ok := in.(*ssa.IndexAddr); ok && strings.HasPrefix(st.Tag(a.Value(st, ia.X)), callOutput) {
			st.SetGhostBool("index", strings.Contains(st.Tag(idx), errorNr))
		}
	}
	e.H.Loaded = func(a *absint.Activation, st *absint.State, in *ssa.UnOp, p absint.VPtr, v absint.Val) {
		if st.GhostBool("index") && typeString(in.Type()) == "reflect.Value" {
			st.SetTag(v, errVal)
			st.SetGhostBool("index", false)
		}
	}
	e.H.NilEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x absint.Val, isNil bool) {
		if tag := st.Tag(x); isNil && (strings.HasPrefix(tag, errorNr) || strings.HasPrefix(tag, errVal)) {
			nils++
			handled(st)
		}
	}
	// the output is an error, Parse has checked that
	e.H.Branch = func(a *absint.Activation, st *absint.State, in *ssa.If, taken bool) bool {
		if x, ok := in.Cond.(*ssa.Extract); ok && !taken {
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && strings.HasPrefix(st.Tag(a.Value(st, ta.X)), errVal) {
				return false
			}
		}
		return true
	}
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		if tag := st.Tag(v); strings.HasPrefix(tag, errVal) || strings.HasPrefix(tag, errText) {
			st.SetGhostBool("made", true)
		}
		if absint.CellTag(o, p.P) == errorsField && st.GhostBool("made") {
			recorded++
			handled(st)
			st.SetGhostBool("made", false)
		}
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if part(a.Fn) {
			dropped(a, st, in)
			clear(st)
		}
	}
	e.Run(resolve, nil)
	r.Engine(e)
	r.engineFindings(e)
	r.Need("calls of resolvers", resolvers, 1)
	r.Need("errors found nil", nils, 1)
	r.Need("errors of resolvers that are recorded", recorded, 1)
}

// callNames are the functions that call a resolver or directive.
var callNames = map[string]bool{"(reflect.Value).Call": true, "(reflect.Value).CallSlice": true}

// fieldStores returns the stores a function does to a field.
func (w *World) fieldStores(fn *ssa.Function, field string) (out []*ssa.Store) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == field {
				out = append(out, st)
			}
		}
	}
	return
}

type resultPos struct {
	fn *ssa.Function
	i  int
}

// failureResults returns the results that tell that something failed, and how many functions always fail.
func (w *World) failureResults() (map[resultPos]bool, int) {
	adds := w.reaching(func(fn *ssa.Function) bool { return len(w.fieldStores(fn, errorsField)) > 0 })
	out := map[resultPos]bool{}
	always := 0
	isBool := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	returns := func(fn *ssa.Function) (rs []*ssa.Return) {
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				rs = append(rs, r)
			}
		}
		return
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.functions() {
			if !adds(fn) {
				continue
			}
			for _, r := range returns(fn) {
				for i, v := range r.Results {
					if !isBool(v.Type()) || out[resultPos{fn, i}] {
						continue
					}
					seen := map[ssa.Value]bool{}
					var is func(v ssa.Value) bool
					is = func(v ssa.Value) bool {
						if seen[v] {
							return false
						}
						seen[v] = true
						switch v := v.(type) {
						case *ssa.Phi:
							for _, e := range v.Edges {
								if is(e) {
									return true
								}
							}
						case *ssa.Call:
							if g := v.Call.StaticCallee(); g != nil {
								return out[resultPos{g, 0}] && g.Signature.Results().Len() == 1
							}
						case *ssa.Extract:
							if c, ok := v.Tuple.(*ssa.Call); ok {
								if g := c.Call.StaticCallee(); g != nil {
									return out[resultPos{g, v.Index}]
								}
							}
						}
						return false
					}
					if is(v) {
						out[resultPos{fn, i}] = true
						changed = true
					}
				}
			}
			// always true, with an error
			if fn.Signature.Results().Len() == 1 && isBool(fn.Signature.Results().At(0).Type()) && !out[resultPos{fn, 0}] {
				all := true
				rs := returns(fn)
				for _, r := range rs {
					if len(r.Results) == 0 {
						all = false
						continue
					}
					c, ok := r.Results[0].(*ssa.Const)
					if !ok || c.Value == nil || c.Value.String() != "true" {
						all = false
					}
				}
				if all && len(rs) > 0 {
					out[resultPos{fn, 0}] = true
					always++
					changed = true
				}
			}
		}
	}
	return out, always
}

// runStops decides that nothing is called with arguments that couldn't be bound, and that resolving doesn't stop without an error.
func runStops(r *Report, resolve *ssa.Function) {
	w := r.W
	const result = "yarql.Schema.Result"
	fails, always := w.failureResults()
	r.Need("functions that record an error and tell so", always, 1)
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		request[fn] = true
	}
	isDir := func(fn *ssa.Function) bool { return directiveResult(fn) && request[fn] }
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.KeepResults = true
	e.Keep = func(tag string) bool { return tag == "bool" }
	e.PartitionGhost = map[string]bool{"failed": true}
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = nothingModel
	writes := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, map[string]bool{result: true}) })
	calls := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, callNames) })
	adds := w.reaching(func(fn *ssa.Function) bool { return storesField(fn, errorsField) })
	e.Relevant = func(fn *ssa.Function) (bool, bool) { return calls(fn) || adds(fn), false }
	sites := w.callSites()
	local := func(fn *ssa.Function) bool {
		return fn != nil && (isDir(fn) || writes(fn) && calls(fn) && e.Recursive(fn) && len(sites[fn]) > 1)
	}
	e.H.Entry = func(fn *ssa.Function, st *absint.State) {
		if local(fn) {
			st.SetGhostBool("failed", false)
		}
	}
	e.LocalGhosts = local
	e.Models["(*github.com/valyala/fastjson.Object).Visit"] = visitModel
	called, stops := 0, 0
	failed := func(st *absint.State, fn *ssa.Function, i int, v absint.Val) (can, is bool) {
		if !fails[resultPos{fn, i}] {
			return false, false
		}
		b, ok := v.(absint.VBool)
		if !ok {
			return true, false
		}
		known, val := st.BoolOf(b)
		return !known || val, known && val
	}
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if callNames[calleeName(in)] {
			called++
			if !r.Obl(!st.GhostBool("failed")) {
				e.Report(a, in, "unbound", "this can be called after something went wrong with its arguments")
			}
		}
		return st
	}
	e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
		if !local(callee) {
			return
		}
		if t, ok := v.(absint.VTuple); ok {
			for i, x := range t.E {
				if _, is := failed(st, callee, i, x); is {
					st.SetGhostBool("failed", true)
				}
			}
		} else if _, is := failed(st, callee, 0, v); is {
			st.SetGhostBool("failed", true)
		}
	}
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		if absint.CellTag(o, p.P) == errorsField {
			st.SetGhostBool("failed", true)
		}
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		for i, v := range results {
			if can, _ := failed(st, a.Fn, i, v); can {
				stops++
				if !r.Obl(st.GhostBool("failed")) {
					e.Report(a, in, "silent", a.Fn.Name()+" can tell that something failed without an error that tells what")
				}
			}
		}
	}
	e.Run(resolve, nil)
	r.Engine(e)
	r.engineFindings(e)
	r.Need("calls with arguments", called, 1)
	r.Need("returns that tell something failed", stops, 1)
}

// visitModel calls the function for no, one or two keys.
func visitModel(c *absint.CallCtx) []absint.Ret {
	f, ok := c.Args[1].(absint.VFunc)
	if !ok {
		return nil
	}
	states := []*absint.State{c.St}
	out := []absint.Ret{{St: c.St.Clone(), V: absint.VTuple{}}}
	for n := 0; n < 2; n++ {
		var next []*absint.State
		for _, st := range states {
			var args []absint.Val
			for _, p := range f.Fn.Params {
				args = append(args, st.Fresh(p.Type(), ""))
			}
			for _, ret := range c.Act.Invoke(st, f, args, c.Instr) {
				out = append(out, absint.Ret{St: ret.St.Clone(), V: absint.VTuple{}})
				next = append(next, ret.St)
			}
		}
		states = next
	}
	return out
}

// runErrorList decides that errors stay in the list of errors, and that the whole list is written and returned.
func runErrorList(r *Report, resolve *ssa.Function) {
	w := r.W
	const errElem, errText = "error of the list", "text of error of the list"
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		request[fn] = true
	}
	e := resolverEngine(w)
	e.Singleton = func(n *types.Named) bool {
		return n.Obj().Pkg() != nil && (n.Obj().Pkg().Name() == "yarql" && (n.Obj().Name() == "Schema" || n.Obj().Name() == "Ctx") || n.Obj().Name() == "ParserCtx")
	}
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.KeepResults, e.KeepGhosts, e.NoContent = true, true, true
	e.Keep = func(tag string) bool { return tag == errorsField || tag == errElem || tag == errText }
	e.FieldBool = func(tag string) (bool, bool) {
		return tag == "yarql.Schema.parsed", tag == "yarql.Schema.parsed" || tag == "yarql.ResolveOptions.NoMeta"
	}
	e.Pin = func(tag string) bool { return tag == errorsField }
	uses := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, map[string]bool{errorsField: true}) })
	e.Relevant = func(fn *ssa.Function) (bool, bool) {
		for _, p := range fn.Params {
			if typeString(p.Type()) == "error" {
				return true, true
			}
		}
		return uses(fn), false
	}
	calls := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, callNames) })
	list := func(st *absint.State) (absint.VSlice, bool) {
		for _, t := range []types.Type{w.named("Ctx"), w.Byte.Pkg.Scope().Lookup("ParserCtx").Type()} {
			cells, _ := st.SingleCells(t)
			for path, v := range cells {
				if strings.HasSuffix(path, strings.TrimPrefix(errorsField, "bytecode.ParserCtx")) {
					x, ok := v.(absint.VSlice)
					return x, ok
				}
			}
		}
		return absint.VSlice{}, false
	}
	appended, written, ends, starts := 0, 0, 0, 0
	e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
		st.SetGhost("appended", absint.VNil{})
		b, ok := before.(absint.VSlice)
		l, ok2 := list(st)
		x, ok3 := after.(absint.VSlice)
		if ok && ok2 && ok3 && st.Tag(before) == errorsField && st.SameInt(b.Len, l.Len) {
			st.SetGhost("appended", x.Len)
		}
	}
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		if absint.CellTag(o, p.P) != errorsField {
			return
		}
		x, ok := v.(absint.VSlice)
		n, ok2 := st.Ghost("appended").(absint.VInt)
		st.SetGhost("appended", absint.VNil{})
		if ok && ok2 && st.SameInt(x.Len, n) {
			appended++
			r.Obl(true)
			st.SetGhostBool("added", true)
			return
		}
		if l, ok2 := list(st); ok && ok2 && st.SameInt(x.Len, l.Len) && st.Tag(v) == errorsField {
			return // the same list
		}
		if !r.Obl(!st.GhostBool("added")) {
			e.Report(a, in, "lost", "the errors that are recorded can be replaced, those before are lost")
		}
	}
	e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
		if ia, ok := in.(*ssa.IndexAddr); ok && st.Tag(a.Value(st, ia.X)) == errorsField {
			st.SetGhost("index", idx)
			st.SetGhostBool("element", true)
		}
	}
	e.H.Loaded = func(a *absint.Activation, st *absint.State, in *ssa.UnOp, p absint.VPtr, v absint.Val) {
		if o := st.CellTagOf(p); o == errorsField {
			st.SetTag(v, errorsField)
		}
		if st.GhostBool("element") && typeString(in.Type()) == "error" {
			st.SetTag(v, errElem)
			st.SetGhostBool("element", false)
		}
	}
	e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
		if in.Common().IsInvoke() && st.Tag(a.Value(st, in.Common().Value)) == errElem && calleeName(in) == "(error).Error" {
			st.SetTag(v, errText)
		}
	}
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if callee == nil || !w.InScope(callee) {
			return st
		}
		if calls(callee) && !st.GhostBool("resolved") {
			starts++
			l, ok := list(st)
			_, hi := st.Range(l.Len)
			if !r.Obl(ok && hi <= 0) {
				e.Report(a, in, "invalid", "a query with errors can be resolved")
			}
			st.SetGhostBool("resolved", true)
		}
		for _, x := range args {
			if st.Tag(x) == errText {
				written++
				i, ok := st.Ghost("index").(absint.VInt)
				next, ok2 := st.Ghost("next").(absint.VInt)
				if !r.Obl(ok && ok2 && st.SameInt(i, next)) {
					e.Report(a, in, "order", "the errors aren't written one by one from the first one")
				}
				next.K++
				st.SetGhost("next", next)
			}
		}
		return st
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if a.Fn != resolve {
			return
		}
		ends++
		l, ok := list(st)
		next, ok2 := st.Ghost("next").(absint.VInt)
		if !r.Obl(ok && ok2 && st.Leq(l.Len, next, 0)) {
			e.Report(a, in, "unwritten", "an error of the request can be left out of the response")
		}
		lo, _ := st.Range(l.Len)
		if !r.Obl(st.GhostBool("resolved") || ok && lo > 0) {
			e.Report(a, in, "nothing", "a request can end without anything resolved and without an error")
		}
		x, ok2 := results[0].(absint.VSlice)
		if !r.Obl(ok && ok2 && st.Tag(x) == errorsField && st.SameInt(x.Len, l.Len)) {
			e.Report(a, in, "unreturned", "the errors that are returned aren't those of the request")
		}
	}
	e.Run(resolve, func(st *absint.State, args []absint.Val) { st.SetGhost("next", absint.VInt{}) })
	r.Engine(e)
	r.engineFindings(e)
	r.Need("errors that are recorded", appended, 1)
	r.Need("errors that are written", written, 1)
	r.Need("ends of requests", ends, 1)
	r.Need("starts of resolving", starts, 1)
}

// givesError tells if the last result of a function is an error.
func givesError(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() > 0 && typeString(res.At(res.Len()-1).Type()) == "error"
}

// givesErrors tells if a function of the root package has an error or a list of errors as result.
func (w *World) givesErrors(fn *ssa.Function) bool {
	if fn.Pkg != w.Root {
		return false
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if t := typeString(res.At(i).Type()); t == "error" || t == "[]error" {
			return true
		}
	}
	return false
}

// runReturnedErrors decides that what handles requests returns all of the errors of Resolve.
func runReturnedErrors(r *Report, resolve *ssa.Function) {
	w := r.W
	const tag = "errors of a request"
	reach := w.reaching(func(fn *ssa.Function) bool { return fn == resolve })
	var roots []*ssa.Function
	for _, fn := range w.functions() {
		if fn != resolve && reach(fn) && fn.Object() != nil && fn.Object().Exported() && fn.Pkg == w.Root {
			roots = append(roots, fn)
		}
	}
	r.Need("functions that handle requests", len(roots), 1)
	taken := 0
	const one = tag + ", one of them"
	open := func(st *absint.State) bool {
		n, ok := st.Ghost("len").(absint.VInt)
		next, ok2 := st.Ghost("next").(absint.VInt)
		return st.GhostBool("open") && !(ok && ok2 && st.Leq(n, next, 0))
	}
	for _, root := range roots {
		e := resolverEngine(w)
		e.StepLimit = maxSteps
		e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
		e.KeepResults, e.NoContent, e.KeepGhosts = true, true, true
		e.Keep = func(t string) bool { return strings.HasPrefix(t, tag) }
		below := w.reachable(root)
		e.Relevant = func(fn *ssa.Function) (bool, bool) {
			ok := reach(fn) || below[fn] && w.givesErrors(fn)
			return ok, ok
		}
		e.Models[resolve.Object().(*types.Func).FullName()] = func(c *absint.CallCtx) []absint.Ret {
			taken++
			if !r.Obl(!open(c.St)) {
				e.Report(c.Act, c.Instr, "unreturned", "the errors of a request of a batch are dropped")
			}
			c.St.SetGhostBool("open", true)
			c.St.SetGhost("next", absint.VInt{})
			v := c.St.FreshResult(c.Sig, tag)
			if x, ok := v.(absint.VSlice); ok {
				c.St.SetGhost("len", x.Len)
			}
			return []absint.Ret{{St: c.St, V: v}}
		}
		// or one by one
		e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
			if ia, ok := in.(*ssa.IndexAddr); ok && st.Tag(a.Value(st, ia.X)) == tag {
				st.SetGhost("index", idx)
				st.SetGhostBool("element", true)
			}
		}
		e.H.Loaded = func(a *absint.Activation, st *absint.State, in *ssa.UnOp, p absint.VPtr, v absint.Val) {
			if st.GhostBool("element") && typeString(in.Type()) == "error" {
				st.SetTag(v, one)
				st.SetGhostBool("element", false)
			}
		}
		e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
			i, ok := st.Ghost("index").(absint.VInt)
			next, ok2 := st.Ghost("next").(absint.VInt)
			if st.Tag(v) == one && ok && ok2 && st.SameInt(i, next) {
				next.K++
				st.SetGhost("next", next)
				st.SetGhostBool("stored", true)
			}
		}
		// errors of reading the request
		e.H.NilEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x absint.Val, isNil bool) {
			cmp, ok := in.(*ssa.BinOp)
			if !ok || isNil || typeString(cmp.X.Type()) != "error" || st.Tag(x) == one || a.Fn != root && a.Fn.Parent() != root && !givesError(a.Fn) {
				return
			}
			if !r.Obl(!st.GhostBool("pending") || st.Ghost("err") == x) {
				e.Report(a, in, "unreturned", "an error of reading the request before is dropped")
			}
			st.SetGhostBool("pending", true)
			st.SetGhost("err", x)
		}
		e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
			sl, ok := after.(absint.VSlice)
			if ok && typeString(in.(ssa.Value).Type()) == "[]error" {
				if len(a.Elements(st, added)) > 0 {
					st.SetGhostBool("pending", false)
				}
				if b, ok := before.(absint.VSlice); st.GhostBool("closed") && strings.HasPrefix(st.Tag(before), tag) {
					n, ok2 := st.Ghost("total").(absint.VInt)
					if !r.Obl(ok && ok2 && st.SameInt(b.Len, n)) {
						e.Report(a, in, "unreturned", "the errors of the requests before are dropped")
					}
				}
				st.SetGhost("total", sl.Len)
			}
			if st.GhostBool("stored") {
				st.SetGhostBool("stored", false)
				st.SetGhostBool("closed", true)
				st.SetTag(after, tag+" so far")
			} else if x, ok := added.(absint.VSlice); ok && st.Tag(added) == tag && st.Ghost("len") != nil && st.SameInt(x.Len, st.Ghost("len")) {
				st.SetTag(after, tag+" so far")
				st.SetGhostBool("open", false)
				st.SetGhostBool("closed", true)
			} else if strings.HasPrefix(st.Tag(before), tag) {
				st.SetTag(after, tag+" so far")
			}
		}
		e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
			if a.Fn != root {
				if n := len(results); givesError(a.Fn) && st.GhostBool("pending") {
					if !r.Obl(st.NilState(results[n-1]) == 2) {
						e.Report(a, in, "unreturned", "an error of reading the request is dropped")
					}
					st.SetGhostBool("pending", false)
				}
				return
			}
			if st.GhostBool("pending") {
				some := false
				for i, x := range results {
					if l, ok := x.(absint.VSlice); ok && typeString(root.Signature.Results().At(i).Type()) == "[]error" {
						lo, _ := st.Range(l.Len)
						some = some || lo > 0 && !strings.HasPrefix(st.Tag(x), tag)
					}
				}
				if !r.Obl(some) {
					e.Report(a, in, "unreturned", "an error of reading the request is dropped")
				}
			}
			direct, soFar := false, false
			for _, x := range results {
				n, _ := st.Ghost("len").(absint.VInt)
				l, ok := x.(absint.VSlice)
				direct = direct || ok && st.Tag(x) == tag && st.SameInt(l.Len, n)
				soFar = soFar || strings.HasPrefix(st.Tag(x), tag+" so far")
			}
			if !r.Obl(!open(st) || direct) || !r.Obl(!st.GhostBool("closed") || soFar) {
				e.Report(a, in, "unreturned", "the errors of a request aren't returned")
			}
		}
		e.Run(root, nil)
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("requests of which the errors are used", taken, 1)
}
