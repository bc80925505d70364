package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C15", "Abstract interpretation of everything below Resolve with the place on the stack of Go values relative to where a function started: every function that resolves a part of a "+
		"selection leaves the stack where it was, the members of an object are those of the value at the place of that object, a value is put on the stack before it's resolved, "+
		"what resolves the fields of an object doesn't change its place, and an operation starts with the root object of its kind.", runObjects)
}

// stackIndexes returns the integer fields of Ctx with which elements of a stack of values are selected, with those stacks.
func (w *World) stackIndexes(stacks map[string]bool) (out, used map[string]bool) {
	out, used = map[string]bool{}, map[string]bool{}
	for _, fn := range w.requestFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				of, by := loadedField(ia.X), loadedField(ia.Index)
				if of != nil && by != nil && stacks[fieldName(of)] && strings.HasPrefix(fieldName(by), "yarql.Ctx.") {
					out[fieldName(by)] = true
					used[fieldName(of)] = true
				}
			}
		}
	}
	return out, used
}

// rootObjects returns the fields of Schema with a root object, with the field that has its Go value.
func (w *World) rootObjects() map[string]string {
	out := map[string]string{}
	st, ok := w.named("Schema").Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if typeString(f.Type()) != "*yarql.obj" {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			if g := st.Field(j); typeString(g.Type()) == "reflect.Value" && strings.HasPrefix(g.Name(), f.Name()) {
				out["yarql.Schema."+f.Name()] = "yarql.Schema." + g.Name()
			}
		}
	}
	return out
}

// inLoop tells if an instruction can be executed again in the same call.
func inLoop(in ssa.Instruction) bool { return follows(in, in) && loops(in.Block()) }

func loops(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

func runObjects(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "reflect does what its documentation says", "a Go value of an interface type has the kind of one", "the kind of an operation in a parsed query is one of those the parser writes",
		"Parse stores the objects of the query and mutation type with their values")
	resolve := w.Method(w.Root, "Schema", "Resolve")
	stacks := w.valueStacks()
	roots := w.rootObjects()
	r.Need("Resolve", b2i(resolve != nil), 1)
	r.Need("root objects", len(roots), 2)
	if resolve == nil || len(roots) < 2 {
		return
	}
	indexes, stacks := w.stackIndexes(stacks)
	r.Need("places on a stack of values", len(indexes), 1)
	if len(indexes) != 1 {
		return
	}
	index := sortedNames(indexes)[0]
	const result = "yarql.Schema.Result"
	ctxT, cell := w.named("Ctx"), strings.TrimPrefix(index, "yarql.Ctx")
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.KeepResults, e.KeepGhosts = true, true
	isStack := func(tag string) bool { return stacks[strings.TrimSuffix(tag, "[]")] && strings.HasSuffix(tag, "[]") }
	rootTags := map[string]bool{}
	for k, v := range roots {
		rootTags[k], rootTags[v] = true, true
	}
	e.Keep = func(tag string) bool { return tag == index || rootTags[tag] || isStack(tag) }
	e.Pin = func(tag string) bool { return tag == index }
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = nothingModel
	writes := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, map[string]bool{result: true}) })
	calls := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, map[string]bool{"(reflect.Value).Call": true}) })
	stackFields := map[string]bool{index: true}
	for s := range stacks {
		stackFields[s] = true
	}
	memberNames := map[string]bool{"(reflect.Value).Field": true, "(reflect.Value).Method": true}
	sets := w.reaching(func(fn *ssa.Function) bool {
		return w.calls(fn, valueSetters) || w.calls(fn, map[string]bool{"(reflect.Value).Set": true})
	})
	member := w.members(calls, writes, sets)
	touches := w.reaching(func(fn *ssa.Function) bool {
		return mentionsField(fn, stackFields) || mentionsField(fn, rootTags) || w.calls(fn, memberNames) && member(fn)
	})
	e.Relevant = func(fn *ssa.Function) (bool, bool) { return touches(fn), touches(fn) }
	isDir := func(fn *ssa.Function) bool { return directiveResult(fn) }
	cycle := func(fn *ssa.Function) bool {
		return fn != nil && writes(fn) && calls(fn) && e.Recursive(fn) && !isDir(fn)
	}
	// a function that's called by one other function is a part of it
	part := map[*ssa.Function]int{}
	helper := func(fn *ssa.Function) bool {
		if part[fn] == 0 {
			part[fn] = 1
			if by := w.onlyCaller(fn); by != nil && by != fn && cycle(by) && len(w.callSites()[fn]) == 1 {
				part[fn] = 2
			}
		}
		return part[fn] == 2
	}
	none := absint.VNil{}
	clear := func(st *absint.State) {
		st.SetGhost("set", none)
		st.SetGhost("val", none)
	}
	current := func(st *absint.State) (absint.VInt, bool) {
		cells, ok := st.SingleCells(ctxT)
		if !ok {
			return absint.VInt{}, false
		}
		i, ok := cells[cell].(absint.VInt)
		return i, ok
	}
	e.H.Entry = func(fn *ssa.Function, st *absint.State) {
		if cycle(fn) && !helper(fn) {
			clear(st)
			st.SetGhost("base", none)
			if now, ok := current(st); ok {
				st.SetGhost("base", now)
			}
		}
	}
	e.LocalGhosts = func(fn *ssa.Function) bool { return cycle(fn) && !helper(fn) }
	entry := func(st *absint.State) (absint.VInt, bool) {
		i, ok := st.Ghost("base").(absint.VInt)
		return i, ok
	}
	// functions that can change what is at the place they are called with
	own := map[*ssa.Function]bool{}
	type event struct {
		caller, callee *ssa.Function
		in             ssa.CallInstruction
	}
	unset := map[event]*absint.Activation{}
	stored := func(a *absint.Activation, st *absint.State) {
		if !cycle(a.Fn) {
			return
		}
		i, ok := st.Ghost("set").(absint.VInt)
		was, ok2 := entry(st)
		if ok && ok2 && !st.Leq(was, i, -1) {
			own[a.Fn] = true
		}
	}
	kinds := operationNames(w)
	r.Need("kinds of operations", len(kinds), 2)
	resolved, taken, rets, started := 0, 0, 0, 0
	e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok || !stacks[st.Tag(a.Value(st, ia.X))] {
			return
		}
		now, ok := current(st)
		for _, ref := range *ia.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr != ia {
					continue
				}
				st.SetGhost("set", idx)
				st.SetGhost("val", a.Value(st, ref.Val))
				stored(a, st)
			case *ssa.UnOp:
				if ref.Op == token.MUL && !r.Obl(ok && st.SameInt(idx, now)) {
					e.Report(a, in, "place", "a value is taken from another place of the stack than that of the object at hand")
				}
			}
		}
	}
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if cycle(callee) {
			now, ok := current(st)
			set, ok2 := st.Ghost("set").(absint.VInt)
			here := ok && ok2 && st.SameInt(now, set)
			if !cycle(a.Fn) {
				// an operation starts
				for i, x := range args {
					val, isRoot := roots[st.Tag(x)]
					if !isRoot {
						continue
					}
					op, known := st.Ghost("op").(absint.VInt)
					if !known {
						continue
					}
					started++
					debugf("ROOT %s %+v want %s", st.Tag(st.Ghost("val")), st.Ghost("val"), val)
					if !r.Obl(st.Tag(st.Ghost("val")) == val) {
						e.Report(a, in, "root", "the Go value of the root object isn't that of its type")
					}
					if n, ok := st.ConstOf(op); ok {
						name := operationName(w, n)
						want := "yarql.Schema.rootQuery"
						if name == "OperatorMutation" {
							want = "yarql.Schema.rootMethod"
						}
						if name != "" && roots[want] != "" && !r.Obl(st.Tag(args[i]) == want) {
							e.Report(a, in, "kind", "an operation can start with the root object of another kind of operation")
						}
					}
				}
				clear(st)
				return st
			}
			resolved++
			if was, ok3 := entry(st); !here {
				if !helper(callee) && !r.Obl(ok && ok3 && st.SameInt(now, was)) {
					e.Report(a, in, "value", "something is resolved without its value being put on the stack")
				} else {
					unset[event{a.Fn, callee, in}] = a
				}
			}
			if !helper(callee) {
				clear(st)
			}
			return st
		}
		if memberNames[calleeName(in)] && member(a.Fn) {
			taken++
			if !r.Obl(isStack(st.Tag(args[0]))) {
				e.Report(a, in, "object", "the field or method that's resolved isn't one of the object at hand")
			}
			if was, ok := entry(st); cycle(a.Fn) {
				now, ok2 := current(st)
				if !r.Obl(ok && ok2 && st.SameInt(now, was)) {
					e.Report(a, in, "object", "the field or method that's resolved isn't one of the object the selection is of")
				}
			}
		}
		return st
	}
	e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
		if callee != nil && !cycle(callee) {
			stored(a, st)
		}
	}
	e.H.Branch = func(a *absint.Activation, st *absint.State, in *ssa.If, taken bool) bool {
		b, ok := in.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return true
		}
		x, y := b.X, b.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		c, ok := y.(*ssa.Const)
		if ok && c.Value != nil && !cycle(a.Fn) && types.Identical(c.Type().Underlying(), types.Typ[types.Uint8]) && operationName(w, c.Int64()) != "" {
			// this is not the first comparison, or the last possible kind
			not := "not " + operationName(w, c.Int64())
			if taken == (b.Op == token.EQL) {
				if st.GhostBool(not) {
					return false
				}
				st.SetGhost("op", absint.VInt{K: c.Int64()})
				return true
			}
			if op, ok := st.Ghost("op").(absint.VInt); ok && op.S == 0 && op.K == c.Int64() {
				return false
			}
			st.SetGhostBool(not, true)
			for _, name := range kinds {
				if !st.GhostBool("not " + name) {
					return true
				}
			}
			return false
		}
		call, ok2 := x.(*ssa.Call)
		if !ok || !ok2 || calleeName(call) != "(reflect.Value).Kind" || c.Value == nil || c.Int64() != 20 {
			return true
		}
		return taken == (b.Op == token.EQL)
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if !cycle(a.Fn) || helper(a.Fn) {
			return
		}
		now, ok := current(st)
		was, ok2 := entry(st)
		rets++
		//debugf("RET %s:%d now=%+v %v was=%+v %v same=%v nowtag=%s", a.Fn.Name(), w.Prog.Fset.Position(in.Pos()).Line, now, ok, was, ok2, st.SameInt(now, was), st.Tag(now))
		if !r.Obl(ok && ok2 && st.SameInt(now, was)) {
			e.Report(a, in, "balance", "the stack of values isn't left where it was")
		}
		clear(st)
	}
	e.Run(resolve, func(st *absint.State, params []absint.Val) {
		st.SetSingle(ctxT, cell, st.Fresh(types.Typ[types.Int], index))
	})
	for again := true; again; {
		again = false
		for ev := range unset {
			if own[ev.callee] && !own[ev.caller] {
				own[ev.caller] = true
				again = true
			}
		}
	}
	for ev, a := range unset {
		if !r.Obl(!(own[ev.callee] && inLoop(ev.in))) {
			e.Report(a, ev.in, "kept", "the value of an object can be replaced by that of one of its fields while there are more fields to resolve")
		}
	}
	r.Engine(e)
	r.engineFindings(e)
	r.Need("parts that are resolved", resolved, 1)
	r.Need("fields and methods of objects", taken, 1)
	r.Need("returns at which the stack is compared", rets, 3)
	r.Need("starts of operations", started, 1)
}

// operationNames returns the names of all kinds of operations.
func operationNames(w *World) []string {
	var out []string
	scope := w.Byte.Pkg.Scope()
	for _, name := range scope.Names() {
		if c, ok := scope.Lookup(name).(*types.Const); ok && strings.HasPrefix(name, "Operator") && c.Val().Kind() == constant.Int {
			out = append(out, name)
		}
	}
	return out
}

// operationName names the kind of an operation.
func operationName(w *World, n int64) string {
	scope := w.Byte.Pkg.Scope()
	for _, name := range scope.Names() {
		c, ok := scope.Lookup(name).(*types.Const)
		if !ok || !strings.HasPrefix(name, "Operator") {
			continue
		}
		if c.Val().String() == strconv.FormatInt(n, 10) {
			return name
		}
	}
	return ""
}

// members returns the functions that select fields and methods of objects, in contrast with those of arguments.
func (w *World) members(calls, writes, sets func(*ssa.Function) bool) func(fn *ssa.Function) bool {
	sites := w.callSites()
	memo := map[*ssa.Function]int{}
	var member func(fn *ssa.Function) bool
	member = func(fn *ssa.Function) bool {
		if calls(fn) && writes(fn) {
			return true
		}
		if calls(fn) || sets(fn) || fn.Parent() != nil || len(sites[fn]) == 0 || memo[fn] == 1 {
			return false
		}
		if memo[fn] == 0 {
			memo[fn] = 1
			ok := true
			for _, c := range sites[fn] {
				ok = ok && member(c.Parent())
			}
			if ok {
				memo[fn] = 2
			}
		}
		return memo[fn] == 2
	}
	return member
}
