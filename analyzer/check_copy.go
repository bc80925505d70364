package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C06", "Effect analysis of everything a request can run: nothing is ever stored in the types that make up the definition of a schema, nor in a package "+
		"level variable. Abstract interpretation of Copy: everything in the copy that a request changes is made by Copy, and not taken from the original. "+
		"Values that keep a reference to their schema are made again for the copy.", runCopyShares)
}

// requestEntries returns the functions that are called through reflection while a request is handled: functions that are
// stored in a field or are converted to an interface, and the methods of the types of the introspection.
func (w *World) storedFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					if _, ok := in.Addr.(*ssa.FieldAddr); ok {
						v = in.Val
					}
				case *ssa.MakeInterface:
					v = in.X
				}
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				switch f := v.(type) {
				case *ssa.Function:
					out = append(out, f)
				case *ssa.MakeClosure:
					g := f.Fn.(*ssa.Function)
					if g.Synthetic != "" && g.Object() != nil {
						if o, ok := g.Object().(*types.Func); ok {
							if real := w.Prog.FuncValue(o); real != nil {
								g = real
							}
						}
					}
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// typesIn returns the named types of the repository a type is made of.
func (w *World) typesIn(t types.Type) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch t := t.(type) {
		case *types.Named:
			if !w.inScopePkg(t.Obj().Pkg()) || out[t] || t == w.named("Schema") {
				return
			}
			out[t] = true
			add(t.Underlying())
		case *types.Pointer:
			add(t.Elem())
		case *types.Slice:
			add(t.Elem())
		case *types.Array:
			add(t.Elem())
		case *types.Map:
			add(t.Key())
			add(t.Elem())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				add(t.Field(i).Type())
			}
		}
	}
	add(t)
	return out
}

// definition returns the structs that make up the definition of a schema: what's reachable from a schema, without what
// belongs to a request, and without what's made while a request is handled.
func (w *World) definition() map[*types.Named]bool {
	schema, ctx := w.named("Schema"), w.named("Ctx")
	if schema == nil || ctx == nil {
		return nil
	}
	all := w.typesIn(schema.Underlying())
	for n := range w.typesIn(ctx) {
		delete(all, n)
	}
	for _, fn := range w.requestAndStored() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					n, ok := a.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
					if !ok || !all[n] {
						continue
					}
					for _, r := range *a.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok {
							for _, rr := range *fa.Referrers() {
								if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
									delete(all, n) // requests make them
								}
							}
						}
					}
				}
			}
		}
	}
	return all
}

func (w *World) requestAndStored() []*ssa.Function {
	roots := append([]*ssa.Function{w.Method(w.Root, "Schema", "HandleRequest"), w.Method(w.Root, "Schema", "Resolve")}, w.exported("Ctx")...)
	reach := w.reachable(append(roots, w.storedFuncs()...)...)
	var out []*ssa.Function
	for _, fn := range w.functions() {
		if reach[fn] {
			out = append(out, fn)
		}
	}
	return out
}

// fieldType returns the type of the field with the given name (with package and type).
func fieldType(n *types.Named, name string) types.Type {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasSuffix(name, "."+st.Field(i).Name()) {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// partOf names the field of the definition an address, map or slice is part of, if it is.
func partOf(v ssa.Value, def map[*types.Named]bool, schema *types.Named, seen map[ssa.Value]bool) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.FieldAddr:
		if isNew(v) {
			return ""
		}
		if n := fieldOwner(v); n != nil && (def[n] || n == schema) {
			return fieldName(v)
		}
		return partOf(v.X, def, schema, seen)
	case *ssa.IndexAddr:
		if isNew(v) {
			return ""
		}
		return partOf(v.X, def, schema, seen)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return partOf(v.X, def, schema, seen)
		}
	case *ssa.Slice:
		return partOf(v.X, def, schema, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if p := partOf(e, def, schema, seen); p != "" {
				return p
			}
		}
	case *ssa.ChangeType:
		return partOf(v.X, def, schema, seen)
	case *ssa.Lookup:
		return partOf(v.X, def, schema, seen)
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok {
			return partOf(l.X, def, schema, seen)
		}
	case *ssa.Field:
		return partOf(v.X, def, schema, seen)
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && def[n] {
			if !isNew(v) {
				return typeString(n)
			}
		}
	}
	if n, ok := v.Type().(*types.Named); ok && def[n] {
		switch n.Underlying().(type) {
		case *types.Map, *types.Slice:
			return typeString(n)
		}
	}
	return ""
}

// sorters change the slice they get.
func changesArg(c ssa.CallInstruction) bool {
	n := calleeName(c)
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse")
}

func runCopyShares(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "resolvers don't share state between requests themselves", "types of package reflect, and the values the query and mutation structs hold, may be shared")
	schema, ctxT := w.named("Schema"), w.named("Ctx")
	cp := w.Method(w.Root, "Schema", "Copy")
	r.Need("Copy", b2i(cp != nil && schema != nil && ctxT != nil), 1)
	if cp == nil || schema == nil || ctxT == nil {
		return
	}
	def := w.definition()
	r.Need("types in the definition of a schema", len(def), 5)
	// what requests change of the schema itself
	reqField := map[string]bool{}
	for _, f := range w.requestFields() {
		reqField[f.name] = true
	}
	fns := w.requestAndStored()
	parse := w.Method(w.Root, "Schema", "Parse")
	// what's called by a function, not what it keeps for later
	var directly func(fn *ssa.Function, reach map[*ssa.Function]bool)
	directly = func(fn *ssa.Function, reach map[*ssa.Function]bool) {
		if reach[fn] {
			return
		}
		reach[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						directly(g, reach)
					}
					for _, x := range c.Common().Args {
						if m, ok := x.(*ssa.MakeClosure); ok {
							directly(m.Fn.(*ssa.Function), reach)
						}
					}
				}
			}
		}
	}
	// the fields that are set when a schema is defined
	defined := map[string]bool{}
	defining := map[*ssa.Function]bool{}
	reqs := map[*ssa.Function]bool{}
	for _, n := range []string{"HandleRequest", "Resolve"} {
		if f := w.Method(w.Root, "Schema", n); f != nil {
			directly(f, reqs)
		}
	}
	for _, fn := range w.exported("Schema") {
		if !reqs[fn] && fn != cp {
			directly(fn, defining)
		}
	}
	for fn := range defining {
		if reqs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var p string
				switch in := in.(type) {
				case *ssa.Store:
					p = partOf(in.Addr, nil, schema, map[ssa.Value]bool{})
				case *ssa.MapUpdate:
					p = partOf(in.Map, nil, schema, map[ssa.Value]bool{})
				}
				if p != "" {
					defined[p] = true
				}
			}
		}
	}
	stored := map[string]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var target ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					target = in.Addr
				case *ssa.MapUpdate:
					target = in.Map
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear", "copy":
							target = in.Common().Args[0]
						case "append":
							// only writes to what it gets if that's a part
							if s, ok := in.Common().Args[0].(*ssa.Slice); ok && s.High != nil {
								target = s
							}
						}
					} else if changesArg(in) {
						target = in.Common().Args[0]
						if m, ok := target.(*ssa.MakeInterface); ok {
							target = m.X
						}
					}
				}
				if target == nil {
					continue
				}
				g, ok := rootObject(target).(*ssa.Global)
				if u, isLoad := target.(*ssa.UnOp); isLoad && !ok && u.Op == token.MUL {
					g, ok = u.X.(*ssa.Global)
				}
				if ok {
					r.Obl(false)
					r.Bad(fn, in.Pos(), "global", "global "+g.Name(), "%s is written while a request is handled, it's shared by all schemas", g.Name())
					continue
				}
				p := partOf(target, def, schema, map[ssa.Value]bool{})
				if p == "" {
					continue
				}
				own := strings.HasPrefix(p, "yarql.Schema.")
				if own && !defined[p] {
					// its own state, as long as a copy gets its own
					stored[p] = true
					continue
				}
				r.Obl(false)
				r.Bad(fn, in.Pos(), "definition", p, "%s is changed while a request is handled, it's shared by requests and copies", p)
			}
		}
		r.Obl(true)
	}
	r.Count("functions of which the effects were analysed", len(fns))
	// the parts of the definition that Copy itself changes
	changed := map[*types.Named]bool{}
	inCopy := w.reachable(cp)
	for _, fn := range w.functions() {
		if !inCopy[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && !isNew(st.Addr) {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if n := fieldOwner(fa); n != nil && def[n] {
							changed[n] = true
						}
					}
				}
			}
		}
	}
	// the copy
	mutable := func(tag string, t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
		case *types.Interface:
		case *types.Struct:
			_ = u
			return strings.HasPrefix(typeString(t), "reflect.Value") && !strings.HasPrefix(tag, "yarql.Schema.")
		default:
			return false
		}
		if typeString(t) == "*yarql.Schema" {
			return true
		}
		if strings.HasPrefix(tag, "yarql.Schema.") {
			for n := range w.typesIn(t) {
				if changed[n] {
					return true
				}
			}
			return stored[tag] || typeString(t) == "*yarql.Ctx"
		}
		return true
	}
	captures := map[*ssa.Function]bool{}
	if parse != nil {
		reach := map[*ssa.Function]bool{}
		directly(parse, reach)
		for _, fn := range w.functions() {
			if !reach[fn] || fn.Signature.Recv() == nil || typeString(fn.Signature.Recv().Type()) != "*yarql.Schema" || fn == parse {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					m, ok := in.(*ssa.MakeClosure)
					if !ok || !keepsClosure(m) {
						continue
					}
					for _, x := range m.Bindings {
						if strings.TrimLeft(typeString(x.Type()), "*") == "yarql.Schema" {
							captures[fn] = true
						}
					}
				}
			}
		}
	}
	state := map[string]bool{"*yarql.Schema": true, "*yarql.Ctx": true, "*bytecode.ParserCtx": true, "*yarql.tracer": true}
	touches := w.reaching(func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if state[typeString(in.Type())] {
						return true
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && state[typeString(fa.X.Type())] {
						return true
					}
				}
			}
		}
		return false
	})
	r.Need("functions that make values that keep their schema", len(captures), 1)
	remade := map[*ssa.Function]bool{}
	e := absint.New(w.Prog, w.Scope)
	e.StepLimit = maxSteps
	e.Skip = true
	e.PartTags = true
	e.KeepResults = true
	// what copies consist of, without the definition of the schema
	e.Keep = func(tag string) bool {
		for _, p := range []string{"yarql.Schema.", "yarql.Ctx.", "bytecode.ParserCtx.", "yarql.tracer", "new ", "call:"} {
			if strings.HasPrefix(tag, p) {
				return true
			}
		}
		return false
	}
	e.HavocKeeps = func(st *absint.State, tn string) bool { return true }
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	e.Relevant = func(fn *ssa.Function) (bool, bool) { return touches(fn), touches(fn) }
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if callee != nil && callee.Signature.Recv() != nil && typeString(callee.Signature.Recv().Type()) == "*yarql.Schema" && len(args) > 0 {
			makes := map[*ssa.Function]bool{}
			directly(callee, makes)
			any := false
			for f := range captures {
				if makes[f] {
					remade[f], any = true, true
				}
			}
			if any {
				p, ok := args[0].(absint.VPtr)
				if !r.Obl(ok && st.NewObj(p)) {
					e.Report(a, in, "schema", "this makes a value that keeps a reference to the original schema")
				}
			}
		}
		return st
	}
	e.Models["reflect.ValueOf"] = func(c *absint.CallCtx) []absint.Ret {
		tag := "value"
		if p, ok := absint.Unwrap(c.Args[0]).(absint.VPtr); ok && c.St.NewObj(p) {
			tag = "new value"
		}
		return []absint.Ret{{St: c.St, V: absint.VRef{S: c.St.FreshSym(absint.Fact{Nil: 2, Tag: tag})}}}
	}
	rets, checked := 0, map[string]bool{}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if a.Fn != cp || len(results) != 1 {
			return
		}
		rets++
		seen := map[absint.ObjID]bool{}
		var visit func(v absint.Val, from string)
		visit = func(v absint.Val, from string) {
			p, ok := v.(absint.VPtr)
			if !ok || !st.NewObj(p) {
				r.Obl(false)
				e.Report(a, in, "shared", from+" of a copy is the one of the original")
				return
			}
			if seen[p.O] {
				return
			}
			seen[p.O] = true
			if p.P != "" {
				return
			}
			st.Leaves(p, func(path, tag string, t types.Type, v absint.Val) {
				if !mutable(tag, t) {
					return
				}
				checked[tag] = true
				if v == nil {
					r.Obl(false)
					e.Report(a, in, "shared", tag+" of a copy can be the one of the original")
					return
				}
				if _, ok := v.(absint.VNil); ok {
					r.Obl(true)
					return
				}
				if q, ok := v.(absint.VPtr); ok {
					if !r.Obl(st.NewObj(q)) {
						e.Report(a, in, "shared", tag+" of a copy is the one of the original")
						return
					}
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						if n, ok := pt.Elem().(*types.Named); ok && w.inScopePkg(n.Obj().Pkg()) {
							visit(v, tag)
						}
					}
					return
				}
				if st.NewArray(v) {
					r.Obl(true)
					return
				}
				vt := strings.TrimPrefix(strings.TrimPrefix(st.Tag(v), "part of "), "copy ")
				if !r.Obl(strings.HasPrefix(vt, "new ") || strings.HasPrefix(vt, "call:")) {
					e.Report(a, in, "shared", tag+" of a copy can be "+vt+" of the original")
				}
			})
		}
		visit(results[0], "the schema")
	}
	e.Run(cp, nil)
	r.Engine(e)
	r.engineFindings(e)
	r.Need("returns of Copy", rets, 1)
	for fn := range captures {
		if !r.Obl(remade[fn]) {
			r.Bad(fn, fn.Pos(), "schema", fn.Name(), "what %s makes keeps a reference to its schema, Copy doesn't make it again", fn.Name())
		}
	}
	for t := range checked {
		r.Sample("%s", t)
	}
	r.Need("parts of a copy that requests change", len(checked), 8)
}

// keepsClosure tells if a closure is kept in a field or an interface.
func keepsClosure(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if _, ok := r.Addr.(*ssa.FieldAddr); ok {
				return true
			}
		case *ssa.MakeInterface:
			return !strings.HasPrefix(calleeOfUse(r), "sort.")
		case *ssa.ChangeType:
			for _, rr := range *r.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					if _, ok := st.Addr.(*ssa.FieldAddr); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func calleeOfUse(v ssa.Value) string {
	for _, r := range *v.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			return calleeName(c)
		}
	}
	return ""
}
