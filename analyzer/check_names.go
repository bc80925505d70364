package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C16", "Abstract interpretation of the resolving of selections, with the names that were compared and the places of the ends of names in the parsed query as ghost "+
		"state: a field found by its key may only be resolved when its whole name was compared with the one in the query, a selection set behind a type condition only "+
		"when the type's name was, and one of a fragment only when its name, up to its end, is the one of the spread. The same for variables and the name of the operation. "+
		"No function of a request may compare or change names with functions that ignore case or a part of them.", runNames)
}

const codeField = "bytecode.ParserCtx.Res"

// inexact are functions that tell if strings are alike, or make ones alike that aren't.
var inexact = map[string]bool{}

func init() {
	for _, f := range []string{"EqualFold", "HasPrefix", "HasSuffix", "Contains", "ContainsAny", "ContainsRune", "Index", "LastIndex", "IndexByte", "ToLower", "ToUpper", "ToTitle", "Title",
		"Trim", "TrimSpace", "TrimPrefix", "TrimSuffix", "TrimLeft", "TrimRight", "TrimFunc", "Map", "Replace", "ReplaceAll", "CutPrefix", "CutSuffix"} {
		inexact["strings."+f] = true
		inexact["bytes."+f] = true
	}
}

func runNames(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "bytes.Equal does what its documentation says", "the names of a schema are different from each other (that's decided when it's parsed)")
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("Resolve", b2i(resolve != nil), 1)
	if resolve == nil {
		return
	}
	r.inexactNames(resolve)
	r.selectionNames()
	r.variableNames()
	r.operationName()
}

func (r *Report) inexactNames(resolve *ssa.Function) {
	n := 0
	for fn := range r.W.reachable(resolve) {
		if !r.W.InScope(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n++
				if name := calleeName(c); !r.Obl(!inexact[name]) {
					r.Bad(fn, in.Pos(), "exact", fn.String()+": "+name, "%s is used in a request, what's alike isn't the same name", name)
				}
			}
		}
	}
	r.Need("calls in functions of a request", n, 100)
}

// selectionNames decides the names of fields, types and fragments.
func (r *Report) selectionNames() {
	w := r.W
	const (
		field    = "field compared"
		typ      = "type compared"
		fragment = "fragment compared"
		inFrag   = "in a fragment"
		open     = "end of the compared part"
	)
	names := map[string]string{"yarql.obj.qlFieldName": field, "yarql.obj.typeNameBytes": typ, "yarql.obj.typeName": typ}
	const locations = "bytecode.ParserCtx.FragmentLocations"
	// the function everything of a selection is a part of
	roots := map[*ssa.Function]bool{}
	request := w.requestFuncs()
	for _, fn := range request {
		looks := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok && isFieldMap(l.X.Type()) {
					looks = true
				}
			}
		}
		if looks || mentionsField(fn, map[string]bool{locations: true}) && fn.Pkg == w.Root {
			roots[w.wholeOf(fn)] = true
		}
	}
	reaches := w.reaching(func(fn *ssa.Function) bool { return roots[fn] })
	reads := w.reaching(func(fn *ssa.Function) bool {
		return mentionsField(fn, map[string]bool{codeField: true, "yarql.Ctx.charNr": true})
	})
	used := map[string]map[ssa.Instruction]bool{field: {}, typ: {}, fragment: {}}
	for root := range roots {
		root := root
		e := resolverEngine(w)
		e.PartitionGhost = map[string]bool{field: true, typ: true, fragment: true, inFrag: true}
		e.Keep = func(tag string) bool {
			return tag == "bool" || tag == "yarql.Ctx.charNr" || strings.HasSuffix(tag, codeField) || tag == locations || names[tag] != "" || strings.HasPrefix(tag, "yarql.obj.objContents")
		}
		rel := func(fn *ssa.Function) bool {
			return fn == root || w.wholeOf(fn) == root || reads(fn) && !reaches(fn) && w.small(fn)
		}
		e.Relevant = func(fn *ssa.Function) (bool, bool) { return rel(fn), rel(fn) }
		is := func(st *absint.State, g string) bool {
			n, _ := st.ConstOf(st.Ghost(g))
			return n == 1
		}
		set := func(st *absint.State, g string) { st.SetGhost(g, absint.VInt{K: 1}) }
		reset := func(st *absint.State) {
			for g := range e.PartitionGhost {
				st.SetGhost(g, absint.VInt{})
			}
		}
		ended := r.queryNames(e)
		equal := func(st *absint.State, x, y absint.Val) {
			part := func(v absint.Val) bool { return strings.HasSuffix(st.Tag(v), "part of "+codeField) }
			for i := 0; i < 2; i++ {
				switch kind := names[strings.TrimPrefix(st.Tag(x), "copy ")]; {
				case kind == field && part(y), kind == typ && part(y) && ended(st, y):
					set(st, kind)
				case part(x) && part(y) && ended(st, x):
					if ended(st, y) {
						set(st, fragment)
					} else if high, ok := st.Attr(symOfText(y), "high"); ok {
						st.SetGhost(open, high)
					}
				}
				x, y = y, x
			}
		}
		onEqual(e, func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
			if eq {
				equal(st, x, y)
			}
		})
		index, intEq := e.H.Index, e.H.IntEq
		e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
			index(a, st, in, what, idx, length, inclusive)
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if st.Tag(a.Value(st, ia.X)) == locations {
				set(st, inFrag)
				st.SetGhost(fragment, absint.VInt{})
				st.SetGhost(open, absint.VNil{})
			}
		}
		e.H.IntEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
			intEq(a, st, in, x, y, eq)
			for i := 0; i < 2; i++ {
				if n, ok := st.ConstOf(y); ok && n == 0 && eq && isByte(in) {
					if at := st.Ghost(nameEnd); at != nil {
						if to := st.Ghost(open); to != nil && st.SameInt(to, at) {
							set(st, fragment)
						}
					}
				}
				x, y = y, x
			}
		}
		e.H.Loop = func(a *absint.Activation, st *absint.State, b *ssa.BasicBlock, back bool) {
			if a.Fn == root {
				reset(st)
			}
		}
		bad := func(a *absint.Activation, st *absint.State, in ssa.Instruction, msg string) {
			e.Report(a, in, "name", msg)
			st.Dead = true
		}
		e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
			if callee == nil || !reaches(callee) {
				return st
			}
			if callee == root {
				used[typ][in] = true
				if !r.Obl(is(st, typ)) {
					bad(a, st, in, "the selection of a fragment can be resolved on another type than its condition")
				} else if is(st, inFrag) {
					used[fragment][in] = true
					if !r.Obl(is(st, fragment)) {
						bad(a, st, in, "another fragment than the one of the spread can be resolved")
					}
				}
				return st
			}
			for _, v := range args {
				if strings.HasPrefix(st.Tag(v), "yarql.obj.objContents") {
					used[field][in] = true
					if !r.Obl(is(st, field)) {
						bad(a, st, in, "a field can be resolved for another name than its own")
					}
				}
			}
			return st
		}
		e.Run(root, func(st *absint.State, params []absint.Val) { reset(st) })
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("calls that resolve a field", len(used[field]), 1)
	r.Need("calls that resolve a fragment", len(used[typ]), 1)
	r.Need("calls that resolve a named fragment", len(used[fragment]), 1)
}

// variableNames decides that the definition of a variable is the one with its name.
func (r *Report) variableNames() {
	w := r.W
	const start = "yarql.Ctx.operatorArgumentsStartAt"
	const (
		inside   = "in the definitions of variables"
		compared = "definition compared"
	)
	roots := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		if fn.Pkg == w.Root && loadsField(fn, start) {
			roots[w.wholeOf(fn)] = true
		}
	}
	reads := w.reaching(func(fn *ssa.Function) bool {
		return mentionsField(fn, map[string]bool{codeField: true, "yarql.Ctx.charNr": true})
	})
	used := map[ssa.Instruction]bool{}
	for root := range roots {
		root := root
		e := resolverEngine(w)
		ended := r.queryNames(e)
		e.PartitionGhost = map[string]bool{inside: true, compared: true}
		e.Keep = func(tag string) bool {
			return tag == "bool" || tag == "yarql.Ctx.charNr" || strings.HasSuffix(tag, codeField)
		}
		part := func(fn *ssa.Function) bool {
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			return fn == root || w.wholeOf(fn) == root
		}
		rel := func(fn *ssa.Function) bool { return part(fn) || reads(fn) && w.small(fn) }
		e.Relevant = func(fn *ssa.Function) (bool, bool) { return rel(fn), rel(fn) }
		e.H.Load = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr) {
			if st.CellTagOf(p) == start {
				st.SetGhost(inside, absint.VInt{K: 1})
				st.SetGhost(compared, absint.VInt{})
			}
		}
		onEqual(e, func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
			isPart := func(v absint.Val) bool { return strings.HasSuffix(st.Tag(v), "part of "+codeField) && ended(st, v) }
			if in, _ := st.ConstOf(st.Ghost(inside)); in == 1 && isPart(x) && isPart(y) {
				st.SetGhost(compared, absint.VInt{K: int64(b2i(eq))})
			}
		})
		e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
			if callee == nil || !w.InScope(callee) {
				return st
			}
			if on, _ := st.ConstOf(st.Ghost(inside)); on != 1 {
				return st
			}
			for i := range args {
				if callee.Signature.Recv() != nil && i == 0 {
					continue
				}
				if t := in.Common().Args[i].Type(); strings.TrimPrefix(typeString(t), "*") == "reflect.Value" {
					used[in] = true
					if n, _ := st.ConstOf(st.Ghost(compared)); !r.Obl(n == 1) {
						e.Report(a, in, "variable", "a value can be bound to the definition of another variable")
						return nil
					}
				}
			}
			return st
		}
		if obj, ok := root.Object().(*types.Func); ok {
			ctxType := w.named("Ctx")
			e.Models[obj.FullName()] = func(c *absint.CallCtx) []absint.Ret {
				c.St.ForgetCells(c.St.PointTo(c.Args[0], ctxType))
				return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, "")}}
			}
		}
		e.Run(root, func(st *absint.State, params []absint.Val) {
			st.SetGhost(inside, absint.VInt{})
			st.SetGhost(compared, absint.VInt{})
		})
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("calls that bind a variable", len(used), 1)
}

// loadsField tells if a function reads a field.
func loadsField(fn *ssa.Function, field string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa) == field {
				for _, ref := range *fa.Referrers() {
					if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
						return true
					}
				}
			}
		}
	}
	return false
}

// toItsEnd tells if in is x[i:len(x)] of a field x, that's read twice.
func toItsEnd(in *ssa.Slice) bool {
	c, ok := in.High.(*ssa.Call)
	if !ok || c.Block() != in.Block() {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return false
	}
	of := func(v ssa.Value) string {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Block() != in.Block() {
			return ""
		}
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa)
		}
		return ""
	}
	if f := of(in.X); f == "" || f != of(c.Call.Args[0]) {
		return false
	}
	for _, x := range in.Block().Instrs {
		switch x := x.(type) {
		case *ssa.Store:
			return false
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		}
		if x == ssa.Instruction(in) {
			break
		}
	}
	return true
}

// fromCache tells if what's stored comes from the cache.
func (w *World) fromCache(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	v := s.Val
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	c, ok := v.(*ssa.Call)
	return ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().Pkg == w.Cache
}

// operationName decides that the operation that's asked for is the one with its name.
func (r *Report) operationName() {
	w := r.W
	const (
		index    = "bytecode.ParserCtx.TargetIdx"
		has      = "bytecode.ParserCtx.hasTarget"
		target   = "bytecode.ParserCtx.target"
		compared = "name of the operation compared"
	)
	storing := w.reaching(func(fn *ssa.Function) bool { return fn.Pkg == w.Byte && storesField(fn, index) })
	roots := map[*ssa.Function]bool{}
	for _, fn := range w.functions() {
		if obj := fn.Object(); obj != nil && obj.Exported() && fn.Pkg == w.Byte && storing(fn) {
			roots[fn] = true
		}
	}
	stores := map[ssa.Instruction]bool{}
	for root := range roots {
		e := absint.New(w.Prog, w.Scope)
		r.queryNames(e)
		e.Singleton = func(n *types.Named) bool { return typeString(n) == "bytecode.ParserCtx" }
		e.PartitionGhost = map[string]bool{compared: true}
		e.Keep = func(tag string) bool {
			return tag == "bool" || tag == has || strings.HasPrefix(tag, target)
		}
		rel := func(fn *ssa.Function) bool {
			return fn == root || storing(fn) || mentionsField(fn, map[string]bool{has: true, target: true}) && w.small(fn)
		}
		e.Relevant = func(fn *ssa.Function) (bool, bool) { return rel(fn), rel(fn) }
		e.H.Slice = func(a *absint.Activation, st *absint.State, in *ssa.Slice, x, part absint.Val) {
			if x, ok := x.(absint.VSlice); ok && st.Tag(x) == codeField {
				if high, ok := st.Attr(symOfText(part), "high"); ok && (st.SameInt(high, x.Len) || toItsEnd(in)) {
					st.SetAttr(symOfText(part), "ended", absint.VBool{Known: true, B: true})
				}
			}
		}
		onEqual(e, func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
			for i := 0; i < 2; i++ {
				if is, ok := st.Attr(symOfText(x), "ended"); eq && ok && is.(absint.VBool).B && st.Tag(y) == target+"*" {
					st.SetGhost(compared, absint.VInt{K: 1})
				}
				x, y = y, x
			}
		})
		e.H.Loop = func(a *absint.Activation, st *absint.State, b *ssa.BasicBlock, back bool) {
			if back && a.Fn == root {
				st.SetGhost(compared, absint.VInt{})
			}
		}
		e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
			if st.CellTagOf(p) != index {
				return
			}
			if _, known := st.ConstOf(v); known || w.fromCache(in) {
				return
			}
			stores[in] = true
			asked := true
			for path, cell := range o.Cells {
				switch absint.CellTag(o, path) {
				case has:
					if known, b := st.BoolOf(cell); known && !b {
						asked = false
					}
				case target:
					if st.NilState(cell) == 1 {
						asked = false
					}
				}
			}
			if n, _ := st.ConstOf(st.Ghost(compared)); !r.Obl(!asked || n == 1) {
				e.Report(a, in, "operation", "an operation with another name than the one that's asked for can be taken")
			}
		}
		e.Run(root, func(st *absint.State, params []absint.Val) {
			st.SetGhost(compared, absint.VInt{})
			for i, p := range params {
				if typeString(root.Params[i].Type()) == "*string" {
					st.SetTag(p, target)
				}
			}
		})
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("operations that are asked for", len(stores), 1)
}

const (
	lastRead = "last read"
	nameEnd  = "end of a name"
)

// queryNames makes an engine follow where names in the parsed query end: it tells if a part of it ends before a zero that was read.
func (r *Report) queryNames(e *absint.Engine) func(st *absint.State, v absint.Val) bool {
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.Skip, e.KeepGhosts, e.PartTags, e.KeepBounds, e.KeepResults = true, true, true, true, true
	ended := func(st *absint.State, v absint.Val) bool {
		s := symOfText(v)
		if is, ok := st.Attr(s, "ended"); ok {
			return is.(absint.VBool).B
		}
		high, ok := st.Attr(s, "high")
		return ok && st.Ghost(nameEnd) != nil && st.SameInt(high, st.Ghost(nameEnd))
	}
	// the same bytes as another type
	for _, fn := range r.W.functions() {
		if obj, ok := fn.Object().(*types.Func); ok && isUnsafeText(fn) {
			e.Models[obj.FullName()] = func(c *absint.CallCtx) []absint.Ret {
				v := c.St.Fresh(c.Sig.Results().At(0).Type(), c.St.Tag(c.Args[0]))
				for _, k := range []string{"low", "high", "ended"} {
					if x, ok := c.St.Attr(symOfText(c.Args[0]), k); ok {
						c.St.SetAttr(symOfText(v), k, x)
					}
				}
				return []absint.Ret{{St: c.St, V: v}}
			}
		}
	}
	e.H.Slice = func(a *absint.Activation, st *absint.State, in *ssa.Slice, x, part absint.Val) {
		if strings.HasSuffix(st.Tag(part), "part of "+codeField) && ended(st, part) {
			st.SetAttr(part.(absint.VSlice).S, "ended", absint.VBool{Known: true, B: true})
		}
	}
	e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
		if ia, ok := in.(*ssa.IndexAddr); ok && strings.HasSuffix(st.Tag(a.Value(st, ia.X)), codeField) {
			st.SetGhost(lastRead, idx)
		}
	}
	e.H.IntEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
		for i := 0; i < 2; i++ {
			if n, ok := st.ConstOf(y); ok && n == 0 && eq && isByte(in) {
				if at := st.Ghost(lastRead); at != nil {
					st.SetGhost(nameEnd, at)
				}
			}
			x, y = y, x
		}
	}
	return ended
}

// onEqual sees what is compared with something else.
func onEqual(e *absint.Engine, equal func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool)) {
	e.Models["bytes.Equal"] = func(c *absint.CallCtx) []absint.Ret {
		other := c.St.Clone()
		equal(c.Act, c.St, c.Instr, c.Args[0], c.Args[1], true)
		equal(c.Act, other, c.Instr, c.Args[0], c.Args[1], false)
		return []absint.Ret{{St: c.St, V: absint.VBool{Known: true, B: true}}, {St: other, V: absint.VBool{Known: true}}}
	}
	e.H.StrEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
		equal(a, st, in, x, y, eq)
	}
}

func symOfText(v absint.Val) absint.Sym {
	switch v := v.(type) {
	case absint.VSlice:
		return v.S
	case absint.VStr:
		return v.S
	}
	return 0
}

// isUnsafeText tells if fn gives the bytes of a string or the string of bytes, without a copy.
func isUnsafeText(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 || len(fn.Blocks) != 1 {
		return false
	}
	isText := func(t types.Type) bool { return typeString(t) == "string" || typeString(t) == "[]byte" }
	if !isText(s.Params().At(0).Type()) || !isText(s.Results().At(0).Type()) {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case ssa.CallInstruction, *ssa.Slice, *ssa.BinOp:
			return false
		case *ssa.Convert:
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				return true
			}
		}
	}
	return false
}

func isFieldMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && strings.TrimPrefix(typeString(m.Elem()), "*") == "yarql.obj" && typeString(m.Key()) == "uint32"
}

// isByte tells if an instruction compares bytes.
func isByte(in ssa.Instruction) bool {
	b, ok := in.(*ssa.BinOp)
	return ok && typeString(b.X.Type()) == "byte" || ok && typeString(b.X.Type()) == "uint8"
}

// wholeOf returns the function that fn is a part of: a function that's called by only one other is a part of it.
func (w *World) wholeOf(fn *ssa.Function) *ssa.Function {
	for seen := map[*ssa.Function]bool{}; !seen[fn]; {
		seen[fn] = true
		by := w.onlyCaller(fn)
		if by == nil {
			return fn
		}
		fn = by
	}
	return fn
}

// small tells if a function calls nothing but small functions.
func (w *World) small(fn *ssa.Function) bool {
	return len(w.reachable(fn)) < 8
}
