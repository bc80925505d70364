package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C26", "Abstract interpretation of HandleRequest, Resolve and every exported method of the request context with all optional parts of a request "+
		"possibly absent: a value whose type is the type of an optional part (or a pointer to it) must be known not to be nil wherever it's dereferenced, "+
		"called or has a method called on it.", runOptional)
}

// named returns a named type of the root package.
func (w *World) named(name string) *types.Named {
	t, ok := w.Root.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// exported returns the exported methods of a type of the root package.
func (w *World) exported(name string) []*ssa.Function {
	n := w.named(name)
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	ms := w.Prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			if f := w.Prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
				out = append(out, f)
			}
		}
	}
	return out
}

func runOptional(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "the functions HandleRequest gets to read the query, the form and the body are given whenever the method and content type need them")
	// The types of the optional parts
	var optional []types.Type
	has := func(t types.Type) bool {
		for _, o := range optional {
			if types.Identical(o, t) {
				return true
			}
		}
		return false
	}
	for _, name := range []string{"RequestOptions", "ResolveOptions"} {
		n := w.named(name)
		if n == nil {
			r.Need("option types", 0, 2)
			return
		}
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			if !nillable(t) {
				continue
			}
			for _, t := range []types.Type{t, types.NewPointer(t)} {
				if !has(t) {
					optional = append(optional, t)
				}
			}
		}
		optional = append(optional, types.NewPointer(n))
	}
	r.Need("optional types", len(optional), 6)
	// The fields of the request context that hold them
	ctxT := w.named("Ctx")
	if ctxT == nil {
		r.Need("request context", 0, 1)
		return
	}
	keep := map[string]bool{}
	cs := ctxT.Underlying().(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		if has(cs.Field(i).Type()) {
			keep["yarql.Ctx."+cs.Field(i).Name()] = true
		}
	}
	r.Need("fields with an optional part", len(keep), 3)
	sites := map[ssa.Instruction]bool{}
	operand := func(in ssa.Instruction) ssa.Value {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			return in.X
		case *ssa.UnOp:
			return in.X
		case *ssa.Store:
			return in.Addr
		case *ssa.Call:
			return in.Call.Value
		case *ssa.IndexAddr:
			return in.X
		}
		return nil
	}
	// the pointers to an optional interface always point at one that isn't nil, the stores are checked for that
	behindPointer := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		if _, ok := v.Type().Underlying().(*types.Interface); !ok {
			return false
		}
		switch u.X.(type) {
		case *ssa.FieldAddr, *ssa.Alloc, *ssa.Global:
			return false
		}
		return true
	}
	roots := append([]*ssa.Function{w.Method(w.Root, "Schema", "HandleRequest"), w.Method(w.Root, "Schema", "Resolve")}, w.exported("Ctx")...)
	n := 0
	for _, fn := range roots {
		if fn != nil {
			n++
		}
	}
	r.Need("entry points", n, 6)
	for _, field := range append(sortedNames(keep), "") {
		e := resolverEngine(w)
		e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
		e.Keep = func(tag string) bool { return tag == field }
		var mine []types.Type
		for i := 0; i < cs.NumFields(); i++ {
			if "yarql.Ctx."+cs.Field(i).Name() == field {
				mine = append(mine, cs.Field(i).Type())
				if p, ok := cs.Field(i).Type().(*types.Pointer); ok {
					mine = append(mine, p.Elem())
				}
			}
		}
		if field == "" {
			mine = []types.Type{types.NewPointer(w.named("RequestOptions")), w.named("ResolveOptions")}
		}
		ours := func(t types.Type) bool {
			for _, m := range mine {
				if types.Identical(m, t) {
					return true
				}
			}
			return false
		}
		uses := w.usesTypes(mine)
		e.Relevant = func(fn *ssa.Function) (bool, bool) { return uses(fn), false }
		e.HavocKeeps = func(st *absint.State, tn string) bool {
			// a resolver can change the request's context and values with the methods of Ctx
			return strings.HasPrefix(tn, "yarql.") && tn != "yarql.Ctx"
		}
		e.H.Deref = func(a *absint.Activation, st *absint.State, in ssa.Instruction, v absint.Val) {
			op := operand(in)
			if op == nil || !ours(op.Type()) || !has(op.Type()) {
				return
			}
			sites[in] = true
			if st.NilState(v) == 2 || behindPointer(op) {
				return
			}
			e.Report(a, in, "nil", fmt.Sprintf("%s can be nil here as this part of a request is optional", describe(op, st.Tag(v))))
		}
		e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
			s, ok := in.(*ssa.Store)
			if !ok || !has(s.Val.Type()) || !ours(s.Val.Type()) {
				return
			}
			if _, ok := s.Val.Type().Underlying().(*types.Interface); ok {
				switch s.Addr.(type) {
				case *ssa.FieldAddr, *ssa.Alloc, *ssa.Global:
					return
				}
				sites[in] = true
				if st.NilState(v) != 2 {
					e.Report(a, in, "nil", "a nil "+s.Val.Type().String()+" can be stored behind a pointer that isn't nil")
				}
				return
			}
			if q, ok := v.(absint.VPtr); ok && keep[absint.CellTag(o, p.P)] {
				pt, ok := s.Val.Type().Underlying().(*types.Pointer)
				if !ok {
					return
				}
				if _, ok := pt.Elem().Underlying().(*types.Interface); !ok {
					return
				}
				sites[in] = true
				if st.NilState(st.Load(q, pt.Elem())) != 2 {
					e.Report(a, in, "nil", "the pointer that's stored here can point at a nil "+pt.Elem().String())
				}
			}
		}
		for _, fn := range roots {
			if fn != nil && (uses(fn) || field == "") {
				e.Run(fn, nil)
			}
		}
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("uses of an optional part", len(sites), 6)
	for in := range sites {
		r.Obl(true)
		r.Sample("%s in %s", w.Pos(in.Pos()), in.Parent().Name())
	}
}

// engineFindings reports what an abstract interpretation found.
func (r *Report) engineFindings(e *absint.Engine) {
	for _, v := range e.Violations() {
		r.Obl(false)
		pos := v.Pos
		f := r.Bad(nil, pos, v.Rule, v.Func+": "+v.Msg, "%s", v.Msg)
		f.Func, f.Trace = v.Func, v.Trace
	}
}

func describe(v ssa.Value, tag string) string {
	if tag != "" {
		return tag
	}
	if _, ok := v.(*ssa.Parameter); ok {
		return v.Name()
	}
	return "a " + v.Type().String()
}

// usesTypes tells which functions have, or reach functions that have, values of one of the types.
func (w *World) usesTypes(ts []types.Type) func(fn *ssa.Function) bool {
	is := func(t types.Type) bool {
		for _, o := range ts {
			if types.Identical(t, o) || types.Identical(t, types.NewPointer(o)) {
				return true
			}
		}
		return false
	}
	return w.reaching(func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			if is(p.Type()) {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && is(v.Type()) {
					return true
				}
			}
		}
		return false
	})
}

// reaching tells which functions have a property or can reach one that has it.
func (w *World) reaching(direct func(fn *ssa.Function) bool) func(fn *ssa.Function) bool {
	yes := map[*ssa.Function]bool{}
	cg := w.callGraph()
	var work []*ssa.Function
	for _, fn := range w.functions() {
		if direct(fn) {
			yes[fn] = true
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range cg.callers[fn] {
			if !yes[c] {
				yes[c] = true
				work = append(work, c)
			}
		}
	}
	return func(fn *ssa.Function) bool { return yes[fn] }
}

type callGraph struct {
	callees, callers map[*ssa.Function][]*ssa.Function
}

// callGraph has an edge for every function of the analysed packages another one calls, or takes the value of.
func (w *World) callGraph() *callGraph {
	if w.cg != nil {
		return w.cg
	}
	g := &callGraph{map[*ssa.Function][]*ssa.Function{}, map[*ssa.Function][]*ssa.Function{}}
	for _, fn := range w.functions() {
		seen := map[*ssa.Function]bool{}
		add := func(f *ssa.Function) {
			if f != nil && !seen[f] && len(f.Blocks) > 0 {
				if f.Synthetic != "" && f.Object() != nil {
					// a wrapper, or a bound method
					if o, ok := f.Object().(*types.Func); ok {
						if real := w.Prog.FuncValue(o); real != nil {
							f = real
						}
					}
				}
				if !w.InScope(f) {
					return
				}
				seen[f] = true
				g.callees[fn] = append(g.callees[fn], f)
				g.callers[f] = append(g.callers[f], fn)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, f := range w.functions() {
						if f.Name() == c.Common().Method.Name() && f.Signature.Recv() != nil &&
							types.Implements(f.Signature.Recv().Type(), c.Common().Value.Type().Underlying().(*types.Interface)) {
							add(f)
						}
					}
				}
			}
		}
	}
	w.cg = g
	return g
}

// reachable returns everything that can be called from the roots.
func (w *World) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	cg := w.callGraph()
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, c := range cg.callees[f] {
			walk(c)
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return out
}

var _ = token.NoPos
