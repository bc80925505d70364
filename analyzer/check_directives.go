package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C09", "Abstract interpretation of everything below Resolve with the outcome of every directive as ghost state: after a directive that skips nothing is written, resolved or called "+
		"until the function for that part of the selection returns, and it wrote nothing before; if no directive skips the part isn't left out. "+
		"The methods of skip and include are interpreted for both values of their argument, and the locations they're registered for are enumerated.", runDirectives)
}

const modifierType = "yarql.DirectiveModifier"

// directiveFuncs returns the functions that return what a directive of the query does.
func directiveResult(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil {
		return false
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if typeString(res.At(i).Type()) == modifierType {
			return true
		}
	}
	return false
}

func runDirectives(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "the bytecode has the directives of a selection in front of it, as the parser writes them")
	const result = "yarql.Schema.Result"
	const fragments = "bytecode.ParserCtx.FragmentLocations"
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("Resolve", b2i(resolve != nil), 1)
	if resolve == nil {
		return
	}
	const skipTag = modifierType + ".Skip"
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		request[fn] = true
	}
	isDir := func(fn *ssa.Function) bool { return directiveResult(fn) && request[fn] }
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.KeepResults = true
	e.PartitionGhost = map[string]bool{"loc": true}
	e.Partition = func(t types.Type) bool { return typeString(t) == "yarql.DirectiveLocation" }
	e.Keep = func(tag string) bool {
		return tag == skipTag || tag == "bool" || tag == "location" || tag == "yarql.Directive.Name"
	}
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = nothingModel
	calls := w.reaching(isDir)
	writes := w.reaching(func(fn *ssa.Function) bool {
		return mentionsField(fn, map[string]bool{result: true}) || w.calls(fn, map[string]bool{"(reflect.Value).Call": true})
	})
	named := w.reaching(func(fn *ssa.Function) bool {
		return request[fn] && mentionsField(fn, map[string]bool{"yarql.Directive.Name": true})
	})
	e.Relevant = func(fn *ssa.Function) (bool, bool) {
		if named(fn) {
			return true, true
		}
		return calls(fn) || writes(fn), calls(fn) || isDir(fn)
	}
	// the functions for a part of a selection
	part := func(fn *ssa.Function) bool { return fn != nil && calls(fn) && e.Recursive(fn) }
	skipping := func(st *absint.State) bool {
		if st.GhostBool("skipped") {
			return true
		}
		m, ok := st.Ghost("mod").(absint.VBool)
		if !ok {
			return false
		}
		known, b := st.BoolOf(m)
		return !known || b
	}
	settle := func(st *absint.State) {
		if m, ok := st.Ghost("mod").(absint.VBool); ok {
			if known, b := st.BoolOf(m); !known || b {
				st.SetGhostBool("skipped", true)
			}
		}
		st.SetGhost("mod", absint.VNil{})
	}
	clear := func(st *absint.State) {
		st.SetGhost("mod", absint.VNil{})
		for _, g := range []string{"skipped", "dir", "went", "wrote", "frags", "crit", "ran"} {
			st.SetGhostBool(g, false)
		}
		st.SetGhost("loc", absint.VNil{})
	}
	happens := func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string) {
		if st.GhostBool("in") {
			return
		}
		if !r.Obl(!skipping(st)) {
			e.Report(a, in, "skip", what+" after a directive that can skip it")
		}
	}
	evaluated, exits := map[ssa.Instruction]bool{}, 0
	byName := w.directivesByName(request)
	loops := map[*ssa.Function][]map[*ssa.BasicBlock]bool{}
	// loopsOf returns the loops in which directives are evaluated.
	loopsOf := func(fn *ssa.Function) []map[*ssa.BasicBlock]bool {
		ls, ok := loops[fn]
		if ok {
			return ls
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g == nil || part(g) || isDir(fn) || !isDir(g) && !calls(g) {
						continue
					}
					if l := cycleOf(b); l != nil {
						ls = append(ls, l)
					}
				}
			}
		}
		loops[fn] = ls
		return ls
	}
	e.H.Branch = func(a *absint.Activation, st *absint.State, in *ssa.If, taken bool) bool {
		for _, l := range loopsOf(a.Fn) {
			to := in.Block().Succs[b2i(!taken)]
			if !l[in.Block()] || l[to] || st.GhostBool("crit") || skipping(st) {
				continue
			}
			exits++
			cmp, ok := in.Cond.(*ssa.BinOp)
			if ok {
				t, is := cmp.X.Type().Underlying().(*types.Basic)
				ok = is && t.Info()&types.IsInteger != 0
				counts := false
				for _, op := range []ssa.Value{cmp.X, cmp.Y} {
					ok = ok && (!isConst(op) || isZero(op)) && (isConst(op) || plainCount(op, l))
					if v, is := op.(ssa.Instruction); is && l[v.Block()] {
						counts = true
					}
				}
				ok = ok && counts
			}
			if !r.Obl(ok) {
				e.Report(a, in, "all", "not every directive is evaluated")
			}
		}
		return true
	}
	e.H.Entry = func(fn *ssa.Function, st *absint.State) {
		if part(fn) {
			clear(st)
		}
	}
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		switch {
		case callee != nil && isDir(callee):
			if !isDir(a.Fn) {
				evaluated[in] = true
				settle(st)
				if !r.Obl(!st.GhostBool("wrote")) {
					e.Report(a, in, "order", "a part of the field is already written when its directives are evaluated")
				}
				st.SetGhost("loc", absint.VNil{})
				for i, p := range callee.Params {
					if typeString(p.Type()) == "yarql.DirectiveLocation" && i < len(args) {
						st.SetGhost("loc", args[i])
						st.SetTag(args[i], "location")
					}
				}
				st.SetGhostBool("frags", false)
				st.SetGhostBool("in", true)
				st.SetGhostBool("named", byName)
				st.SetGhostBool("ran", false)
			}
		case part(callee):
			happens(a, st, in, "a part of the selection is resolved")
			if loc, ok := st.Ghost("loc").(absint.VInt); ok && st.GhostBool("dir") {
				if c, ok := st.ConstOf(loc); ok {
					isFrag := c == 1
					if c != 0 && !r.Obl(isFrag == st.GhostBool("frags")) {
						e.Report(a, in, "location", "the directives of a fragment are looked up for another location than where they are")
					}
				}
			}
			st.SetGhostBool("went", true)
		}
		switch calleeName(in) {
		case "(reflect.Value).Call":
			if st.GhostBool("in") {
				if !r.Obl(st.GhostBool("named")) {
					e.Report(a, in, "name", "a directive with another name than was given is called")
				}
				st.SetGhostBool("ran", true)
				return st
			}
			happens(a, st, in, "a resolver is called")
			st.SetGhostBool("went", true)
		case "bytes.Equal":
			st.SetGhostBool("went", true)
		}
		return st
	}
	e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
		if callee == nil || !isDir(callee) || isDir(a.Fn) {
			return
		}
		st.SetGhostBool("in", false)
		st.SetGhostBool("went", false)
		res := callee.Signature.Results()
		vals := []absint.Val{v}
		if t, ok := v.(absint.VTuple); ok {
			vals = t.E
		}
		critical := false
		for i, x := range vals {
			if i >= res.Len() {
				break
			}
			if b, ok := x.(absint.VBool); ok && i == res.Len()-1 {
				known, is := st.BoolOf(b)
				critical = known && is
			}
		}
		st.SetGhostBool("crit", critical)
		if critical {
			return
		}
		if !r.Obl(st.GhostBool("ran")) {
			e.Report(a, in, "evaluated", "a directive is passed over without being called and without an error that ends the request")
		}
		for i, x := range vals {
			if agg, ok := x.(absint.VAgg); ok && typeString(res.At(i).Type()) == modifierType {
				m, ok := agg.Cells[".Skip"].(absint.VBool)
				if !ok {
					m = st.Fresh(types.Typ[types.Bool], skipTag).(absint.VBool)
					agg.Cells[".Skip"] = m
				}
				st.SetGhost("mod", m)
				st.SetGhostBool("dir", true)
			}
		}
	}
	e.H.Fork = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) (absint.VBool, bool) {
		m, ok := st.Ghost("mod").(absint.VBool)
		return m, ok && callee != nil && isDir(callee) && !isDir(a.Fn)
	}
	e.H.StrEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
		if st.Tag(x) == "yarql.Directive.Name" || st.Tag(y) == "yarql.Directive.Name" {
			if eq {
				st.SetGhostBool("named", true)
			}
		}
		st.SetGhostBool("went", true)
	}
	e.H.Load = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr) {
		if absint.CellTag(o, p.P) == fragments {
			st.SetGhostBool("frags", true)
		}
	}
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		if absint.CellTag(o, p.P) == result && !st.GhostBool("in") {
			happens(a, st, in, "something is written")
			st.SetGhostBool("wrote", true)
			st.SetGhostBool("went", true)
		}
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if !part(a.Fn) {
			return
		}
		critical := false
		if n := len(results); n > 0 {
			if b, ok := results[n-1].(absint.VBool); ok {
				known, is := st.BoolOf(b)
				critical = known && is
			}
		}
		if st.GhostBool("dir") && !critical && !skipping(st) {
			if !r.Obl(st.GhostBool("went")) {
				e.Report(a, in, "left out", "a part of the selection is left out though none of its directives skips it")
			}
		}
		clear(st)
	}
	e.Run(resolve, nil)
	r.Engine(e)
	r.engineFindings(e)
	r.Count("exits of loops over directives", exits)
	r.Need("places where a directive is evaluated", len(evaluated), 1)
	for in := range evaluated {
		r.Sample("a directive is evaluated at %s in %s", w.Pos(in.Pos()), in.Parent().Name())
	}
	r.builtinDirectives()
}

// plainCount tells if a number that's compared to leave a loop is as it's read, or changed by one for every time the loop is run.
func plainCount(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var plain func(v ssa.Value) bool
	plain = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Convert:
			return plain(v.X)
		case *ssa.ChangeType:
			return plain(v.X)
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !plain(x) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if !loop[v.Block()] || v.Op != token.ADD && v.Op != token.SUB {
				return false
			}
			c, ok := v.Y.(*ssa.Const)
			return ok && c.Value != nil && (c.Value.String() == "1" || c.Value.String() == "-1") && plain(v.X)
		}
		return true
	}
	return plain(v)
}

func isConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.String() == "0"
}

// cycleOf returns the blocks of the innermost loop a block is in, or nil.
func cycleOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	reach := func(from *ssa.BasicBlock, next func(*ssa.BasicBlock) []*ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		out := map[*ssa.BasicBlock]bool{}
		todo := append([]*ssa.BasicBlock(nil), next(from)...)
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if !out[x] {
				out[x] = true
				todo = append(todo, next(x)...)
			}
		}
		return out
	}
	to := reach(b, func(x *ssa.BasicBlock) []*ssa.BasicBlock { return x.Succs })
	from := reach(b, func(x *ssa.BasicBlock) []*ssa.BasicBlock { return x.Preds })
	if !to[b] {
		return nil
	}
	out := map[*ssa.BasicBlock]bool{}
	for x := range to {
		if from[x] {
			out[x] = true
		}
	}
	return out
}

// directivesByName tells if directives are looked up in a map with their names as keys.
func (w *World) directivesByName(request map[*ssa.Function]bool) bool {
	for fn := range request {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				l, ok := in.(*ssa.Lookup)
				if !ok {
					continue
				}
				m, ok := l.X.Type().Underlying().(*types.Map)
				if ok && typeString(m.Key()) == "string" && strings.TrimPrefix(typeString(m.Elem()), "*") == "yarql.Directive" {
					return true
				}
			}
		}
	}
	return false
}

// builtinDirectives decides what the directives skip and include do.
func (r *Report) builtinDirectives() {
	w := r.W
	found := map[string]int{}
	for _, fn := range w.functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "yarql.Directive.Name" {
					continue
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Value == nil {
					continue
				}
				name := strings.Trim(c.Value.ExactString(), `"`)
				if name != "skip" && name != "include" {
					continue
				}
				for _, ref := range *fa.X.Referrers() {
					ofa, ok := ref.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, use := range *ofa.Referrers() {
						s, ok := use.(*ssa.Store)
						if !ok || s.Addr != ofa {
							continue
						}
						switch fieldName(ofa) {
						case "yarql.Directive.Method":
							if m := methodOf(s.Val); m != nil {
								found[name+" method"]++
								r.directiveMethod(name, m)
							}
						case "yarql.Directive.Where":
							if locs, ok := constElems(s.Val); ok {
								found[name+" where"]++
								for loc := int64(0); loc < 3; loc++ {
									if !r.Obl(locs[loc]) {
										r.Bad(fn, s.Pos(), "where", name, "the directive %s isn't registered for location %d", name, loc)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, name := range []string{"skip", "include"} {
		r.Need("methods of the directive "+name, found[name+" method"], 1)
		r.Count("registered locations of the directive "+name, found[name+" where"])
	}
}

func methodOf(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return methodOf(v.X)
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return methodOf(v.X)
	}
	return nil
}

// constElems returns the constants that are stored in the array behind a slice.
func constElems(v ssa.Value) (map[int64]bool, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	alloc, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	out := map[int64]bool{}
	for _, ref := range *alloc.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n := 0
		for _, use := range *ia.Referrers() {
			if s, ok := use.(*ssa.Store); ok && s.Addr == ia {
				c, ok := s.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				out[c.Int64()] = true
				n++
			}
		}
		if n == 0 {
			out[0] = true
		}
	}
	return out, true
}

// directiveMethod interprets the method of a directive for both values of its argument.
func (r *Report) directiveMethod(name string, fn *ssa.Function) {
	w := r.W
	for _, arg := range []bool{false, true} {
		arg := arg
		e := absint.New(w.Prog, w.Scope)
		e.StepLimit = maxSteps
		rets := 0
		e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
			if a.Fn != fn || len(results) == 0 {
				return
			}
			rets++
			skip, _ := results[0].(absint.VAgg).Cells[".Skip"].(absint.VBool)
			known, b := st.BoolOf(skip)
			if results[0].(absint.VAgg).Zero && results[0].(absint.VAgg).Cells[".Skip"] == nil {
				known, b = true, false
			}
			if !r.Obl(known && b == (arg == (name == "skip"))) {
				e.Report(a, in, name, "the directive "+name+" doesn't skip exactly when it should")
			}
		}
		e.Run(fn, func(st *absint.State, params []absint.Val) {
			for i, p := range fn.Params {
				s, ok := p.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				agg := absint.VAgg{T: p.Type(), Cells: map[string]absint.Val{}}
				for j := 0; j < s.NumFields(); j++ {
					if strings.EqualFold(s.Field(j).Name(), "if") {
						agg.Cells["."+s.Field(j).Name()] = absint.VBool{Known: true, B: arg}
					}
				}
				params[i] = agg
			}
		})
		r.Engine(e)
		r.engineFindings(e)
		r.Need("results of the directive "+name, rets, 1)
	}
}
