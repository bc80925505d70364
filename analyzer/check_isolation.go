package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C05", "The fields of everything that lives as long as the schema, and that are written while a request is handled, are enumerated. For each of them "+
		"abstract interpretation of HandleRequest and Resolve shows that a value of an earlier request is never used: on every path the field is given a new value "+
		"before it's used, at most the storage of a slice is used again. No package level variable is written.", runIsolation)
}

// persistent returns the structs of the analysed packages that are reachable from a schema.
func (w *World) persistent() map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch t := t.(type) {
		case *types.Named:
			if t.Obj().Pkg() == nil || !w.inScopePkg(t.Obj().Pkg()) || out[t] {
				return
			}
			out[t] = true
			add(t.Underlying())
		case *types.Pointer:
			add(t.Elem())
		case *types.Slice:
			add(t.Elem())
		case *types.Array:
			add(t.Elem())
		case *types.Map:
			add(t.Key())
			add(t.Elem())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				add(t.Field(i).Type())
			}
		}
	}
	if n := w.named("Schema"); n != nil {
		add(n)
	}
	return out
}

// fieldOwner returns the named struct a field address is in.
func fieldOwner(fa *ssa.FieldAddr) *types.Named {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	return n
}

// ownCopy tells if v is the value of the same field, or is made of nothing else.
func ownCopy(v ssa.Value, field string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldName(fa) == field
}

// requestFuncs returns what can run while a request is handled.
func (w *World) requestFuncs() []*ssa.Function {
	roots := append([]*ssa.Function{w.Method(w.Root, "Schema", "HandleRequest"), w.Method(w.Root, "Schema", "Resolve")}, w.exported("Ctx")...)
	reach := w.reachable(roots...)
	var out []*ssa.Function
	for _, fn := range w.functions() {
		if reach[fn] {
			out = append(out, fn)
		}
	}
	return out
}

// rootObject follows an address to what it's in.
func rootObject(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// isNew tells if v is an object made by the function itself, that's not part of a schema yet.
func isNew(v ssa.Value) bool {
	_, ok := rootObject(v).(*ssa.Alloc)
	return ok
}

func (w *World) inScopePkg(p *types.Package) bool {
	for _, q := range w.Scope {
		if p == q {
			return true
		}
	}
	return false
}

func containsField(t types.Type, field string) bool {
	n, ok := t.(*types.Named)
	if ok {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if typeString(n)+"."+st.Field(i).Name() == field {
					return true
				}
			}
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if containsField(st.Field(i).Type(), field) {
				return true
			}
		}
	}
	return false
}

type requestField struct {
	name   string
	t      types.Type
	owner  *types.Named
	writes int
	elems  bool // its elements are written
}

// requestFields returns the fields that are written while a request is handled.
func (w *World) requestFields() []*requestField {
	pers := w.persistent()
	m := map[string]*requestField{}
	get := func(n *types.Named, i int) *requestField {
		f := n.Underlying().(*types.Struct).Field(i)
		name := typeString(n) + "." + f.Name()
		if m[name] == nil {
			m[name] = &requestField{name: name, t: f.Type(), owner: n}
		}
		return m[name]
	}
	var all func(n types.Type, except map[string]ssa.Value)
	all = func(t types.Type, except map[string]ssa.Value) {
		n, ok := t.(*types.Named)
		if !ok || !pers[n] {
			return
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			name := typeString(n) + "." + st.Field(i).Name()
			if v, ok := except[name]; ok && ownCopy(v, name) {
				continue
			}
			if u, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && u.NumFields() > 0 {
				if _, given := except[name]; given {
					continue
				}
			}
			get(n, i).writes++
			all(st.Field(i).Type(), nil)
		}
	}
	for _, fn := range w.requestFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if isNew(in.Addr) {
						continue
					}
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						n := fieldOwner(a)
						if n == nil || !pers[n] || ownCopy(in.Val, fieldName(a)) {
							continue
						}
						get(n, a.Field).writes++
						all(a.Type().Underlying().(*types.Pointer).Elem(), nil)
					case *ssa.IndexAddr:
						if fa := loadedField(a.X); fa != nil {
							if n := fieldOwner(fa); n != nil && pers[n] {
								f := get(n, fa.Field)
								f.writes++
								f.elems = true
							}
						}
					default:
						// a struct as a whole
						given := map[string]ssa.Value{}
						if u, ok := in.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
							if lit, ok := u.X.(*ssa.Alloc); ok {
								for _, r := range *lit.Referrers() {
									fa, ok := r.(*ssa.FieldAddr)
									if !ok {
										continue
									}
									for _, rr := range *fa.Referrers() {
										if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
											given[fieldName(fa)] = st.Val
										}
									}
								}
							}
						}
						all(in.Val.Type(), given)
					}
				}
			}
		}
	}
	var out []*requestField
	for _, f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// loadedField returns the field a value was loaded from.
func loadedField(v ssa.Value) *ssa.FieldAddr {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, _ := u.X.(*ssa.FieldAddr)
	return fa
}

// consumed tells if something depends on the value, instead of it only being moved.
func consumed(v ssa.Value, f *requestField, inScope func(*ssa.Function) bool, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			switch a := r.Addr.(type) {
			case *ssa.FieldAddr:
				if r.Val != v || fieldName(a) != f.name {
					return true
				}
			case *ssa.Alloc:
				for _, rr := range *a.Referrers() {
					switch rr := rr.(type) {
					case *ssa.Store, *ssa.DebugRef:
					case *ssa.UnOp:
						if consumed(rr, f, inScope, seen) {
							return true
						}
					default:
						return true
					}
				}
			default:
				return true
			}
		case *ssa.Phi:
			if consumed(r, f, inScope, seen) {
				return true
			}
		case *ssa.Slice:
			if c, ok := r.High.(*ssa.Const); ok && r.X == v && c.Value != nil && c.Value.String() == "0" {
				continue // only the storage
			}
			return true
		case *ssa.IndexAddr:
			return true
		case ssa.CallInstruction:
			if b, ok := r.Common().Value.(*ssa.Builtin); ok {
				if b.Name() == "cap" {
					continue
				}
				return true
			}
			g := r.Common().StaticCallee()
			if g == nil || !inScope(g) {
				return true
			}
			for i, a := range r.Common().Args {
				if a == v && i < len(g.Params) && consumed(g.Params[i], f, inScope, seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// restored tells if a value that was loaded from a field is put back after something else was stored in the field.
func restored(load ssa.Value, f *requestField) bool {
	from, ok := load.(ssa.Instruction)
	if !ok {
		return false
	}
	// where the value is stored in the field again
	var back []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				follow(r)
			case *ssa.UnOp:
				if _, ok := r.X.(*ssa.Alloc); ok && r.Op == token.MUL {
					follow(r)
				}
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				switch a := r.Addr.(type) {
				case *ssa.FieldAddr:
					if fieldName(a) == f.name && !isNew(a) {
						back = append(back, r)
					}
				case *ssa.Alloc:
					follow(a)
				}
			}
		}
	}
	follow(load)
	if len(back) == 0 {
		return false
	}
	for _, b := range from.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || isNew(st.Addr) {
				continue
			}
			fa, isField := st.Addr.(*ssa.FieldAddr)
			if !(isField && fieldName(fa) == f.name) && !containsField(st.Val.Type(), f.name) {
				continue
			}
			for _, to := range back {
				if to != in && follows(from, in) && follows(in, to) {
					return true
				}
			}
		}
	}
	return false
}

// follows tells if b can be executed after a, in the same call.
func follows(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b.Block() {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

func runIsolation(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "the schema was parsed", "an element of a reused slice is not read before elements were written to it",
		"resolvers don't keep what belongs to a request")
	resolve, handle := w.Method(w.Root, "Schema", "Resolve"), w.Method(w.Root, "Schema", "HandleRequest")
	r.Need("entry points", b2i(resolve != nil)+b2i(handle != nil), 2)
	if resolve == nil || handle == nil {
		return
	}
	fields := w.requestFields()
	r.Need("fields written by requests", len(fields), 15)
	r.sharedTexts()
	// package level variables
	for _, fn := range w.requestFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := rootObject(st.Addr).(*ssa.Global); ok {
					r.Obl(false)
					r.Bad(fn, in.Pos(), "global", "global "+g.Name(), "%s is written while a request is handled, so requests can see each other", g.Name())
				}
			}
		}
	}
	// what was returned
	returned := map[string]bool{}
	for _, fn := range []*ssa.Function{resolve, handle} {
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range ret.Results {
				if fa := loadedField(v); fa != nil && fieldOwner(fa) != w.named("Schema") {
					returned[fieldName(fa)] = true
				}
			}
		}
	}
	for _, fn := range w.requestFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !returned[fieldName(fa)] {
					continue
				}
				if !r.Obl(!reusesStorage(st.Val, fieldName(fa), map[ssa.Value]bool{})) {
					r.Bad(fn, in.Pos(), "reused", fieldName(fa), "%s was returned for an earlier request, its storage can't be used again", fieldName(fa))
				}
			}
		}
	}
	r.Need("fields that are returned", len(returned), 1)
	ctxT := w.named("Ctx")
	perRequest := w.usesTypes(nil)
	if ctxT != nil {
		var ts []types.Type
		ts = append(ts, ctxT)
		if p, ok := w.Byte.Members["ParserCtx"].(*ssa.Type); ok {
			ts = append(ts, p.Type())
		}
		perRequest = w.usesTypes(ts)
	}
	flags := map[string]bool{}
	for _, f := range fields {
		if b, ok := f.t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			flags[f.name] = true
		}
	}
	exported := w.reachable(w.exported("Ctx")...)
	for _, f := range fields {
		f := f
		if w.memo(f, perRequest) {
			r.Count("values that only depend on the schema", 1)
			continue
		}
		if f.elems && w.onlyGrows(f) {
			r.Count("fields that are only storage", 1)
			r.Sample("%s: elements are assigned one by one, not decided", f.name)
			continue
		}
		mentions := func(fn *ssa.Function) bool {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.FieldAddr:
						if fieldName(in) == f.name {
							return true
						}
					case *ssa.Store:
						if containsField(in.Val.Type(), f.name) {
							return true
						}
					}
				}
			}
			return false
		}
		touches := w.reaching(mentions)
		userReads := false
		for _, fn := range w.functions() {
			if !exported[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa) == f.name && consumed(u, f, w.InScope, map[ssa.Value]bool{}) {
							userReads = true
						}
					}
				}
			}
		}
		e := resolverEngine(w)
		e.StepLimit = maxSteps
		e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
		e.PartTags = true
		e.Keep = func(tag string) bool { return tag == f.name || flags[tag] }
		e.Relevant = func(fn *ssa.Function) (bool, bool) { return touches(fn), false }
		e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
		uses := 0
		use := func(a *absint.Activation, st *absint.State, in ssa.Instruction) {
			if !r.Obl(st.GhostBool("new")) {
				e.Report(a, in, "stale", f.name+" can still have the value of an earlier request where it's used here")
				st.SetGhostBool("new", true) // once is enough
			}
		}
		e.H.Load = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr) {
			if absint.CellTag(o, p.P) != f.name {
				return
			}
			v, ok := in.(ssa.Value)
			if ok && (consumed(v, f, w.InScope, map[ssa.Value]bool{}) || restored(v, f)) {
				use(a, st, in)
			}
		}
		e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
			if s, ok := in.(*ssa.Store); ok && isNew(s.Addr) {
				return
			}
			tag := absint.CellTag(o, p.P)
			fresh := func(v absint.Val) {
				if st.Tag(v) != f.name {
					st.SetGhostBool("new", true)
				}
			}
			if tag == f.name {
				fresh(v)
				return
			}
			agg, ok := v.(absint.VAgg)
			if !ok || !containsField(agg.T, f.name) {
				return
			}
			found := false
			for k, c := range agg.Cells {
				if absint.CellTag(o, p.P+k) == f.name {
					found = true
					fresh(c)
				}
			}
			if !found && agg.Zero {
				st.SetGhostBool("new", true)
			}
		}
		// a field that has a new value keeps it till the end of the request, there's nothing more to see
		e.H.Branch = func(a *absint.Activation, st *absint.State, in *ssa.If, taken bool) bool { return !st.GhostBool("new") }
		e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
			if st.GhostBool("new") {
				return nil
			}
			for _, x := range args {
				if p, ok := x.(absint.VPtr); ok && st.CellTagOf(p) == f.name {
					use(a, st, in)
				}
			}
			if callee != nil && w.InScope(callee) {
				return st
			}
			if callNames[calleeName(in)] && userReads {
				use(a, st, in) // a resolver can ask for it
			}
			for _, x := range in.Common().Args {
				if m, ok := x.(*ssa.MakeInterface); ok {
					x = m.X
				}
				q, ok := x.Type().Underlying().(*types.Pointer)
				if ok && containsField(q.Elem(), f.name) && !isNew(x) {
					use(a, st, in) // it can read all of it
				}
			}
			return st
		}
		e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
			if a.Fn == resolve && token.IsExported(f.name[strings.LastIndex(f.name, ".")+1:]) && f.owner == w.named("Schema") {
				use(a, st, in)
			}
		}
		e.Run(handle, nil)
		e.Run(resolve, nil)
		for _, fn := range w.requestFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa) == f.name && consumed(u, f, w.InScope, map[ssa.Value]bool{}) {
							uses++
							r.Obl(true)
						}
					}
				}
			}
		}
		r.Engine(e)
		r.engineFindings(e)
		r.Sample("%s: written in %d places, %d uses", f.name, f.writes, uses)
		r.Count("uses", uses)
	}
	r.Need("uses of such a field", r.Counts["uses"], 20)
}

// memo tells if everything stored in a field is computed from the schema alone.
func (w *World) memo(f *requestField, perRequest func(fn *ssa.Function) bool) bool {
	if f.owner != w.named("Schema") {
		return false
	}
	if token.IsExported(f.name[strings.LastIndex(f.name, ".")+1:]) {
		return false
	}
	n := 0
	for _, fn := range w.requestFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == f.name && !isNew(fa) {
						n++
						if perRequest(fn) {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0
}

// onlyGrows tells if a field is never replaced by anything else than itself with zero values behind it.
func (w *World) onlyGrows(f *requestField) bool {
	zero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value == nil
	}
	for _, fn := range w.requestFuncs() {
		for _, st := range w.fieldStores(fn, f.name) {
			if ownCopy(st.Val, f.name) {
				continue
			}
			c, ok := st.Val.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || !ownCopy(c.Call.Args[0], f.name) {
				return false
			}
			sl, ok := c.Call.Args[1].(*ssa.Slice)
			if !ok {
				return false
			}
			for _, r := range *sl.X.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, rr := range *ia.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && !zero(s.Val) {
						return false
					}
				}
			}
		}
	}
	return true
}

// reusesStorage tells if v is a shorter version of what's in the field.
func reusesStorage(v ssa.Value, field string, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		return v.High != nil && (ownCopy(v.X, field) || reusesStorage(v.X, field, seen))
	case *ssa.Phi:
		for _, e := range v.Edges {
			if reusesStorage(e, field, seen) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return reusesStorage(v.Call.Args[0], field, seen)
		}
	}
	return false
}
