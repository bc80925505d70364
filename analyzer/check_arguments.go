package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C12", "Abstract interpretation of everything that binds arguments, with the value that has to be set, and what was done with it, as ghost state of every call of a function that binds: "+
		"it only tells that it succeeded after the value was set or null was found, a key of an object is bound to the field of its own input, list elements are bound one by one to a new value each and are all part of the list, "+
		"a resolver is called with new values only.", runArguments)
}

const (
	argTarget  = "arg:target"     // the value that's bound by the current call
	argNew     = "arg:new"        // a pointer to a new value
	argFresh   = "arg:fresh"      // a new value
	argBound   = "arg:bound"      // a new value that was bound
	argUsed    = "arg:used"       // a bound value that's part of a list
	argList    = "arg:list"       // a list with everything that was added
	argOld     = "arg:old list"   // a list before something was added to it
	argElement = "arg:element"    // an element of a list
	argField   = "arg:field"      // the field of an input
	argInput   = "arg:inputs"     // one of the arguments
	argItem    = "arg:json item"  // an element of a JSON array
	argArray   = "arg:json array" // a JSON array
	argVar     = "arg:variable"   // the value of a variable
	argText    = "arg:text"       // a whole text
	argKind    = "arg:json kind"  // the type of a JSON value
	inputField = "yarql.input.goFieldIdx"
)

// binders returns the functions that bind a value, and the position of the parameter with that value.
func (w *World) binders() map[*ssa.Function]int {
	out := map[*ssa.Function]int{}
	for _, fn := range w.requestFuncs() {
		target, input := -1, false
		for i, p := range fn.Params {
			switch typeString(p.Type()) {
			case "*reflect.Value":
				target = i
			case "*yarql.input":
				input = true
			}
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				target, input = -1, false
				break
			}
		}
		if target >= 0 && input {
			out[fn] = target
		}
	}
	return out
}

func runArguments(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "reflect and fastjson do what their documentation says")
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("Resolve", b2i(resolve != nil), 1)
	if resolve == nil {
		return
	}
	all := w.binders()
	fails, _ := w.failureResults()
	sites := w.callSites()
	binds := w.reaching(func(fn *ssa.Function) bool { _, ok := all[fn]; return ok })
	adds := w.reaching(func(fn *ssa.Function) bool { return storesField(fn, errorsField) })
	calls := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, callNames) })
	inRequest := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		inRequest[fn] = true
	}
	rec := absint.New(w.Prog, w.Scope)
	local := func(fn *ssa.Function) bool {
		_, ok := all[fn]
		return ok && rec.Recursive(fn) && (len(sites[fn]) > 1 || fn.Parent() != nil)
	}
	roots := map[*ssa.Function]bool{}
	n, starts := 0, 0
	for fn := range all {
		if local(fn) && fn.Parent() == nil {
			n++
			roots[fn] = true
		}
	}
	for fn := range inRequest {
		if _, ok := all[fn]; !ok && binds(fn) && fn.Parent() == nil && w.calls(fn, callNames) {
			starts++
			roots[fn] = true
		}
	}
	r.Need("functions that bind values", n, 1)
	r.Need("functions that call with arguments", starts, 1)
	keyFunc := func(fn *ssa.Function) bool {
		return fn != nil && fn.Parent() != nil && len(fn.Params) > 0 && typeString(fn.Params[0].Type()) == "[]byte" && binds(fn)
	}
	walker := func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 1 && typeString(s.Params().At(0).Type()) == "[]byte" {
				return true
			}
		}
		return false
	}
	targets, sets, returns, fields, items, keys, inputs, texts, truths, news := 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
	same := func(x, y absint.Val) bool {
		p, ok := x.(absint.VPtr)
		q, ok2 := y.(absint.VPtr)
		return ok && ok2 && p.O == q.O && p.P == q.P
	}
	valueOf := func(st *absint.State, p absint.Val) absint.Val {
		if q, ok := p.(absint.VPtr); ok {
			return st.Load(q, w.reflectValue())
		}
		return nil
	}
	// result tells if a call of fn failed, and if it has set the value
	result := func(st *absint.State, fn *ssa.Function, v absint.Val) (failed, ok, set, null bool) {
		vs := []absint.Val{v}
		if t, is := v.(absint.VTuple); is {
			vs = t.E
		}
		ok, set = true, true
		for i, x := range vs {
			b, is := x.(absint.VBool)
			known, val := false, false
			if is {
				known, val = st.BoolOf(b)
			}
			if fails[resultPos{fn, i}] {
				failed = failed || known && val
				ok = ok && known && !val
			} else if is || typeString(fn.Signature.Results().At(i).Type()) == "bool" {
				set = set && known && val
				null = null || known && !val
			}
		}
		return
	}
	nullKind, nullType := w.constant("bytecode", "ValueNull"), w.constant("github.com/valyala/fastjson", "TypeNull")
	trueType, falseType := w.constant("github.com/valyala/fastjson", "TypeTrue"), w.constant("github.com/valyala/fastjson", "TypeFalse")
	kinds, variableKind := w.valueKinds(), w.constant("bytecode", "ValueVariable")
	endAction := w.constant("bytecode", "ActionEnd")
	for _, root := range w.requestFuncs() {
		if !roots[root] {
			continue
		}
		root := root
		e := resolverEngine(w)
		e.StepLimit = maxSteps
		e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
		e.KeepResults, e.KeepGhosts, e.NoContent = true, true, true
		e.Keep = func(tag string) bool {
			return strings.Contains(tag, "arg:") || strings.HasPrefix(tag, "String(") || tag == "bool" || tag == inputField || tag == "reflect.Value" || tag == "yarql.Ctx.ctxReflection"
		}
		e.Relevant = func(fn *ssa.Function) (bool, bool) {
			_, is := all[fn]
			for _, p := range fn.Params {
				if t := typeString(p.Type()); strings.HasSuffix(t, "reflect.Value") || t == "*fastjson.Value" {
					is = is || inRequest[fn]
				}
			}
			return binds(fn) || is || adds(fn) || calls(fn), false
		}
		keep := e.Keep
		e.Keep = func(tag string) bool { return keep(tag) || strings.HasPrefix(tag, "yarql.input.is") }
		e.LocalGhosts = local
		start := func(fn *ssa.Function, st *absint.State, args []absint.Val) {
			if i, ok := all[fn]; ok {
				st.SetGhost("target", args[i])
			}
			st.SetGhost("next", absint.VInt{})
		}
		e.H.Local = func(fn *ssa.Function, st *absint.State, args, bindings []absint.Val) { start(fn, st, args) }
		for fn := range roots {
			if _, ok := all[fn]; ok {
				e.Models[fn.Object().(*types.Func).FullName()] = bindModel(fn, fails)
			}
		}
		e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
			if keyFunc(callee) {
				st.SetGhostBool("key", true)
				st.SetGhostBool("ended", false)
			}
			if local(callee) {
				t := args[all[callee]]
				v := valueOf(st, t)
				tag := st.Tag(v)
				targets++
				st.SetGhost("binding", t)
				if same(t, st.Ghost("target")) {
					tag = argTarget
				}
				switch tag {
				case argTarget, argField, argFresh, argElement:
					r.Obl(true)
				default:
					debugf("%s target %s", w.Pos(in.Pos()), tag)
					r.Obl(false)
					e.Report(a, in, "target", "a value is bound to something that isn't the value, a field of it or a new element")
				}
				if tag != argTarget {
					if !r.Obl(!st.GhostBool("open")) {
						e.Report(a, in, "unused", "the value that was bound before isn't used")
					}
				}
				item := false
				for _, x := range args {
					item = item || st.Tag(x) == argItem
				}
				st.SetGhostBool("ended", false)
				if st.Ghost("length") != nil && tag != argTarget {
					items++
					i, ok := st.Ghost("item").(absint.VInt)
					next, ok2 := st.Ghost("next").(absint.VInt)
					if st.GhostBool("counted") {
						next.K--
						st.SetGhostBool("counted", false)
					}
					if !r.Obl(item && ok && ok2 && st.SameInt(i, next)) {
						e.Report(a, in, "order", "the elements of a list aren't bound one by one from the first one")
					}
					if tag == argElement {
						st.SetGhostBool("placed", true)
						k, ok := st.Ghost("element").(absint.VInt)
						if !r.Obl(ok && ok2 && st.SameInt(k, next)) {
							e.Report(a, in, "place", "an element of a list isn't bound to the element at the same place")
						}
					}
					next.K++
					st.SetGhost("next", next)
					st.SetGhost("item", nil)
					st.SetGhost("element", nil)
				}
				if st.GhostBool("present") {
					json := false
					for _, x := range args {
						json = json || st.Tag(x) == argVar
					}
					if !r.Obl(json) {
						e.Report(a, in, "variable", "something else than the value of the variable is bound")
					}
				}
				return st
			}
			if len(args) == 0 {
				return st
			}
			name := calleeName(in)
			switch {
			case valueSetters[name]:
				if st.Tag(args[0]) != argTarget {
					return st
				}
				sets++
				st.SetGhostBool("set", true)
				switch name {
				case "(reflect.Value).SetString":
					texts++
					tag := st.Tag(args[1])
					if !r.Obl(strings.HasSuffix(tag, argText) || strings.HasPrefix(tag, "String(")) {
						e.Report(a, in, "text", "a text isn't set to the whole text that was given")
					}
				case "(reflect.Value).SetBool":
					b, ok := args[1].(absint.VBool)
					want, has := st.Ghost("true").(absint.VBool)
					if !has {
						return st // made of a number
					}
					truths++
					known, val := st.BoolOf(b)
					if !r.Obl(ok && known && val == want.B) {
						e.Report(a, in, "boolean", "a boolean isn't set to what was given")
					}
				}
			case name == "(reflect.Value).Set":
				if st.Tag(args[0]) != argTarget {
					return st
				}
				sets++
				switch st.Tag(args[1]) {
				case argNew:
					if !r.Obl(st.GhostBool("open") && !st.GhostBool("nothing")) {
						e.Report(a, in, "empty", "a pointer is set to something that wasn't bound")
					}
					st.SetGhostBool("open", false)
				case argOld:
					r.Obl(false)
					e.Report(a, in, "old list", "the list that's set doesn't have what was added last")
				case argList:
					all := st.GhostBool("ended")
					if n, ok := st.Ghost("length").(absint.VInt); ok {
						next, ok := st.Ghost("next").(absint.VInt)
						all = ok && st.Leq(n, next, 0)
					}
					if !r.Obl(all) {
						e.Report(a, in, "part", "a list is set before all of its elements are bound")
					}
					made, _ := st.Ghost("made").(absint.VInt)
					if !r.Obl(!st.GhostBool("placed") || st.SameInt(made, st.Ghost("length"))) {
						e.Report(a, in, "length", "a list doesn't have one element for each that was given")
					}
					if !r.Obl(!st.GhostBool("open")) {
						e.Report(a, in, "unused", "a list is set without an element that was bound")
					}
				case argFresh, argBound, argUsed, argField, argElement, argTarget:
					r.Obl(false)
					e.Report(a, in, "other", "a value is set to something that isn't what was bound")
				}
				st.SetGhostBool("set", true)
			case name == "(reflect.Value).Field":
				if t := st.Tag(args[0]); t == argTarget || t == argInput {
					st.SetGhostBool("field", st.Tag(args[1]) == inputField)
				}
			case name == "(reflect.Value).Index":
				if st.Tag(args[0]) == argList {
					st.SetGhost("element", args[1])
				}
			case callNames[name]:
				inputs++
			}
			return st
		}
		e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
			if b, ok := v.(absint.VBool); ok && keyFunc(callee) {
				if known, val := st.BoolOf(b); known && val {
					st.SetGhostBool("failed", true)
				}
			}
			if !local(callee) {
				args := in.Common().Args
				arg := func(i int) string { return st.Tag(a.Value(st, args[i])) }
				if n, ok := v.(absint.VInt); ok && callee != nil && inRequest[callee] && typeString(callee.Signature.Results().At(0).Type()) == "uint32" {
					st.SetGhost("size", n)
				}
				switch calleeName(in) {
				case "reflect.New":
					st.SetTag(v, argNew)
				case "(reflect.Value).Elem":
					if arg(0) == argNew {
						st.SetTag(v, argFresh)
					}
				case "reflect.MakeSlice":
					st.SetTag(v, argList)
					if n, ok := a.Value(st, args[1]).(absint.VInt); ok {
						st.SetGhost("made", n)
					}
				case "reflect.Append":
					e.H.Append(a, st, in, a.Value(st, args[0]), a.Value(st, args[1]), v)
				case "(reflect.Value).Index":
					if arg(0) == argList {
						st.SetTag(v, argElement)
					}
				case "(reflect.Value).Field":
					if f := st.GhostBool("field"); f && (arg(0) == argTarget || arg(0) == argInput) {
						fields++
						st.SetTag(v, argField)
						st.SetGhostBool("field", false)
					}
				case "(*github.com/valyala/fastjson.Value).GetArray", "(*github.com/valyala/fastjson.Value).Array":
					x := v
					if t, ok := v.(absint.VTuple); ok {
						x = t.E[0]
					}
					if l, ok := x.(absint.VSlice); ok {
						st.SetTag(x, argArray)
						st.SetGhost("length", l.Len)
					}
				case "(*github.com/valyala/fastjson.Value).Get":
					st.SetTag(v, argVar)
				case "(*github.com/valyala/fastjson.Value).GetStringBytes":
					st.SetTag(v, argText)
				case "(*github.com/valyala/fastjson.Value).Type":
					st.SetTag(v, argKind)
				}
				return
			}
			failed, ok, set, null := result(st, callee, v)
			t := st.Ghost("binding")
			x := valueOf(st, t)
			if failed {
				st.SetGhostBool("failed", true)
				return
			}
			if !ok {
				debugf("unknown result of %s %v", callee.Name(), v)
			}
			st.SetGhostBool("key", false)
			if same(t, st.Ghost("target")) {
				if set {
					st.SetGhostBool("set", true)
				} else if null {
					st.SetGhostBool("null", true)
				}
				return
			}
			if st.Tag(x) == argFresh {
				st.SetTag(x, argBound)
				st.SetGhostBool("open", true)
				st.SetGhostBool("nothing", null)
				if null {
					st.SetGhostBool("null", true)
				}
			} else if st.Tag(x) != argField && st.Tag(x) != argElement {
				debugf("%s bound %s", w.Pos(in.Pos()), st.Tag(x))
			}
		}
		e.H.Loaded = func(a *absint.Activation, st *absint.State, in *ssa.UnOp, p absint.VPtr, v absint.Val) {
			switch typeString(in.Type()) {
			case "reflect.Value":
				if same(p, st.Ghost("target")) {
					st.SetTag(v, argTarget)
				} else if st.GhostBool("input") {
					st.SetTag(v, argInput)
					st.SetGhostBool("input", false)
				}
			case "*fastjson.Value":
				if st.Ghost("item") != nil {
					st.SetTag(v, argItem)
				}
			}
		}
		e.Models["(*github.com/valyala/fastjson.Object).Visit"] = func(c *absint.CallCtx) []absint.Ret {
			c.St.SetGhostBool("key", true)
			out := visitModel(c)
			for _, ret := range out {
				ret.St.SetGhostBool("set", true)
				ret.St.SetGhostBool("key", false)
			}
			return out
		}
		e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
			elems := a.Elements(st, added)
			if c, ok := in.(ssa.CallInstruction); ok && calleeName(c) == "" && typeString(in.(ssa.Value).Type()) == "[]reflect.Value" && all[a.Fn] == 0 {
				for _, x := range elems {
					news++
					tag := st.Tag(x)
					if !r.Obl(tag == argFresh || tag == "yarql.Ctx.ctxReflection") {
						e.Report(a, in, "not new", "an argument that's not a new value is added to those of a call")
					}
					if tag == argFresh {
						st.SetTag(x, argInput)
					}
				}
				return
			}
			if c, ok := in.(ssa.CallInstruction); ok && calleeName(c) == "reflect.Append" {
				if st.Tag(before) != argList {
					return
				}
				for _, x := range elems {
					if !r.Obl(st.Tag(x) == argBound) {
						debugf("%s appended %s", w.Pos(in.Pos()), st.Tag(x))
						e.Report(a, in, "element", "something is added to a list that isn't a new value that was just bound")
					}
					st.SetTag(x, argUsed)
				}
				n, ok := st.ConstOf(st.Ghost("made"))
				if !r.Obl(ok && n == 0) {
					e.Report(a, in, "length", "a list that doesn't start empty is added to")
				}
				st.SetGhostBool("open", false)
				st.SetTag(before, argOld)
				st.SetTag(after, argList)
			}
		}
		e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			x := a.Value(st, ia.X)
			switch typeString(ia.X.Type()) {
			case "[]*fastjson.Value":
				if st.Tag(x) == argArray {
					st.SetGhost("item", idx)
					st.SetGhostBool("counted", false)
				}
			case "[]reflect.Value":
				st.SetGhostBool("input", st.Tag(idx) == "yarql.referToInput.inputIdx")
			}
		}
		e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
			if absint.CellTag(o, p.P) == errorsField {
				st.SetGhostBool("failed", true)
			}
		}
		e.H.Slice = func(a *absint.Activation, st *absint.State, in *ssa.Slice, x, res absint.Val) {
			if s, ok := res.(absint.VSlice); ok && strings.HasPrefix(st.Tag(x), "yarql.Ctx.") && typeString(in.Type()) == "[]reflect.Value" && w.calls(root, callNames) {
				news++
				n, ok := st.ConstOf(s.Len)
				if !r.Obl(ok && n == 0) {
					e.Report(a, in, "not new", "an argument of an earlier call can be used again")
				}
			}
			if s, ok := res.(absint.VSlice); ok && st.Ghost("size") != nil {
				whole := st.SameInt(s.Len, st.Ghost("size"))
				if b, ok := in.High.(*ssa.BinOp); ok && b.Op == token.ADD && in.Low != nil {
					low, size := a.Value(st, in.Low), st.Ghost("size")
					x, y := a.Value(st, b.X), a.Value(st, b.Y)
					whole = whole || st.SameInt(x, low) && st.SameInt(y, size) || st.SameInt(y, low) && st.SameInt(x, size)
				}
				if whole {
					st.SetTag(res, argText)
				}
			}
		}
		e.H.NilEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x absint.Val, isNil bool) {
			if !isNil && st.Tag(x) == argVar {
				st.SetGhostBool("present", true)
			}
		}
		e.H.IntEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
			if c, ok := st.ConstOf(y); ok && c == variableKind && !eq {
				// the parser writes one of the kinds
				st.SetTag(x, "arg:kind")
				st.AssumeSet(x, kinds.Minus(absint.RangeSet(c, c)))
			}
			if c, ok := st.ConstOf(y); ok && c == variableKind && !eq {
				// the parser writes one of the kinds
				st.AssumeSet(x, kinds.Minus(absint.RangeSet(c, c)))
			}
			if c, ok := st.ConstOf(y); ok && c == '1' && st.Ghost("target") != nil {
				st.SetGhost("true", absint.VBool{Known: true, B: eq})
			}
			if !eq || st.Ghost("target") == nil && !walker(a.Fn) {
				return
			}
			if b, ok := in.(*ssa.BinOp); ok {
				if _, ok := b.X.(*ssa.Const); ok {
					x, y = y, x
				}
			}
			c, ok := st.ConstOf(y)
			if !ok {
				return
			}
			if st.Tag(x) == argKind {
				switch c {
				case nullType:
					st.SetGhostBool("null", true)
					st.SetGhostBool("key", false)
					// an element that's null can stay what it is
					made, next := st.Ghost("made"), st.Ghost("next")
					if n, ok := next.(absint.VInt); ok && made != nil && !st.GhostBool("counted") && st.SameInt(made, st.Ghost("length")) && st.SameInt(st.Ghost("item"), n) {
						n.K++
						st.SetGhost("next", n)
						st.SetGhostBool("counted", true)
					}
				case trueType, falseType:
					st.SetGhost("true", absint.VBool{Known: true, B: c == trueType})
				}
				return
			}
			switch c {
			case nullKind:
				st.SetGhostBool("null", true)
				st.SetGhostBool("key", false)
			case endAction:
				st.SetGhostBool("ended", true)
			}
		}
		e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
			if keyFunc(a.Fn) || walker(a.Fn) {
				failed := st.GhostBool("failed")
				for i, x := range results {
					if b, ok := x.(absint.VBool); ok && fails[resultPos{a.Fn, i}] {
						known, val := st.BoolOf(b)
						failed = failed || known && val
					}
				}
				if keyFunc(a.Fn) {
					keys++
					if !r.Obl(failed || !st.GhostBool("key")) {
						e.Report(a, in, "key", "a key of an object can be left out")
					}
				} else if !r.Obl(failed || st.GhostBool("ended")) {
					e.Report(a, in, "part", "not every key of an object is bound")
				} else {
					st.SetGhostBool("set", true)
				}
				return
			}
			if !local(a.Fn) {
				return
			}
			var v absint.Val = absint.VTuple{E: results}
			if len(results) == 1 {
				v = results[0]
			}
			failed, ok, set, null := result(st, a.Fn, v)
			if failed {
				return
			}
			returns++
			if !ok {
				debugf("unknown return of %s %v", a.Fn.Name(), v)
			}
			if !r.Obl(!set || !st.GhostBool("open")) {
				e.Report(a, in, "unused", "a value that was bound isn't used")
			}
			good := set && st.GhostBool("set") || null && st.GhostBool("null")
			if !r.Obl(good) {
				debugf("%s returns %v set=%v null=%v", w.Pos(in.Pos()), v, st.GhostBool("set"), st.GhostBool("null"))
				e.Report(a, in, "unset", "this can tell that an argument was bound without setting it")
			}
		}
		e.Run(root, func(st *absint.State, args []absint.Val) {
			if i, ok := all[root]; ok {
				st.SetTag(args[i], "arg:place")
				p := st.PointTo(args[i], w.reflectValue())
				args[i] = p
				st.Store(p, st.Fresh(w.reflectValue(), argTarget), w.reflectValue())
			}
			start(root, st, args)
		})
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("values that are bound", targets, 1)
	r.Need("values that are set", sets, 1)
	r.Need("texts that are set", texts, 1)
	r.Need("booleans that are set", truths, 1)
	r.Need("new arguments", news, 1)
	r.Need("fields of inputs", fields, 1)
	r.Need("elements of JSON arrays", items, 1)
	r.Need("keys of objects", keys, 1)
	r.Need("calls with arguments", inputs, 1)
	r.Need("ends of binding a value", returns, 1)
}

// bindModel gives the ways in which a function that binds a value can end.
func bindModel(fn *ssa.Function, fails map[resultPos]bool) absint.Model {
	return func(c *absint.CallCtx) []absint.Ret {
		var out []absint.Ret
		for _, failed := range []bool{true, false} {
			for _, set := range []bool{true, false} {
				t := absint.VTuple{}
				other := false
				for i := 0; i < c.Sig.Results().Len(); i++ {
					v := failed
					if !fails[resultPos{fn, i}] {
						v, other = set, true
					}
					t.E = append(t.E, absint.VBool{Known: true, B: v})
				}
				if !set && !other {
					continue
				}
				var v absint.Val = t
				if len(t.E) == 1 {
					v = t.E[0]
				}
				out = append(out, absint.Ret{St: c.St.Clone(), V: v})
			}
		}
		return out
	}
}

// reflectValue returns the type reflect.Value.
func (w *World) reflectValue() types.Type {
	return w.Prog.ImportedPackage("reflect").Pkg.Scope().Lookup("Value").Type()
}

// constant returns the value of a constant of a package, or -1.
func (w *World) constant(pkg, name string) int64 {
	for _, p := range w.Prog.AllPackages() {
		if p.Pkg.Path() == pkg || p.Pkg.Path() == modPath+"/"+pkg {
			if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
					return v
				}
			}
		}
	}
	return -1
}

// valueKinds returns the kinds of values a parsed query can have.
func (w *World) valueKinds() absint.Set {
	var all absint.Set
	scope := w.Byte.Pkg.Scope()
	for _, name := range scope.Names() {
		if c, ok := scope.Lookup(name).(*types.Const); ok && strings.HasPrefix(name, "Value") {
			if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				all = all.Or(absint.RangeSet(v, v))
			}
		}
	}
	return all
}
