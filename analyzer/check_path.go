package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C03", "Abstract interpretation of everything below Resolve with the length of the path of the field at hand: every function that resolves a part of a selection "+
		"leaves the path as long as it was, the path is extended before and not shortened until after the errors of a field or element are recorded, what it's extended with is "+
		"the name that's written as key, or the index of the element, and a recorded error gets a copy of the whole path.", runPath)
}

// pathField returns the name of the field of Ctx with the path of the field that's resolved: what GetPath reads.
func (w *World) pathField() string {
	for _, fn := range w.exported("Ctx") {
		if fn.Name() != "GetPath" {
			continue
		}
		for g := range w.reachable(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldName(fa), "yarql.Ctx.") {
						if p, ok := fa.Type().Underlying().(*types.Pointer); ok && typeString(p.Elem()) == "[]byte" {
							return fieldName(fa)
						}
					}
				}
			}
		}
	}
	return ""
}

// mentions tells if a function has the address of one of the fields.
func mentionsField(fn *ssa.Function, fields map[string]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fields[fieldName(fa)] {
				return true
			}
		}
	}
	return false
}

// storesField tells if a function changes a field.
func storesField(fn *ssa.Function, field string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == field {
					return true
				}
			}
		}
	}
	return false
}

// pathErrors returns the error types of the root package that have a path: a slice of bytes.
func (w *World) pathErrors() map[string]bool {
	out := map[string]bool{}
	scope := w.Root.Pkg.Scope()
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok || !types.Implements(named, errT) && !types.Implements(types.NewPointer(named), errT) {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if typeString(st.Field(i).Type()) == "[]byte" {
				out[typeString(named)+"."+st.Field(i).Name()] = true
			}
		}
	}
	return out
}

func runPath(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "strconv writes the number it gets", "the text between the separators is decided by C01")
	path := w.pathField()
	const errors = "bytecode.ParserCtx.Errors"
	const result = "yarql.Schema.Result"
	const code = "bytecode.ParserCtx.Res"
	errPaths := w.pathErrors()
	pathErrorTypes := map[string]bool{}
	for f := range errPaths {
		pathErrorTypes[f[:strings.LastIndexByte(f, '.')]] = true
	}
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("the path of a request", b2i(path != ""), 1)
	r.Need("error types with a path", len(errPaths), 1)
	r.Need("Resolve", b2i(resolve != nil), 1)
	if path == "" || resolve == nil {
		return
	}
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
	e.PartTags = true
	e.PartLow = true
	e.SamePart = func(tag string) bool { return tag == code }
	const copied = "copy of the path"
	e.Keep = func(tag string) bool { return tag == path || tag == "part of "+code || tag == copied }
	e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.Schema.parsed" }
	touches := w.reaching(func(fn *ssa.Function) bool {
		return mentionsField(fn, map[string]bool{path: true})
	})
	writes := w.reaching(func(fn *ssa.Function) bool {
		return mentionsField(fn, map[string]bool{result: true})
	})
	extends := w.reaching(func(fn *ssa.Function) bool { return storesField(fn, path) })
	e.Relevant = func(fn *ssa.Function) (bool, bool) {
		if touches(fn) {
			return true, true
		}
		return writes(fn), false
	}
	ctxT, pathCell := w.named("Ctx"), strings.TrimPrefix(path, "yarql.Ctx")
	cell := func(st *absint.State) (absint.VSlice, bool) {
		cells, ok := st.SingleCells(ctxT)
		if !ok {
			return absint.VSlice{}, false
		}
		s, ok := cells[pathCell].(absint.VSlice)
		return s, ok
	}
	// the functions that resolve selections, fields and values
	cycle := func(fn *ssa.Function) bool {
		return fn != nil && extends(fn) && e.Recursive(fn)
	}
	forget := func(st *absint.State) {
		st.SetGhostBool("popped", false)
		st.SetGhostBool("early", false)
		for _, g := range []string{"path", "key", "pathidx", "elem"} {
			st.SetGhost(g, absint.VNil{})
		}
	}
	samePart := func(st *absint.State, x, y absint.VSlice) bool {
		if x.S == y.S && x.S != 0 {
			return true
		}
		lx, ok1 := st.Attr(x.S, "low")
		ly, ok2 := st.Attr(y.S, "low")
		return ok1 && ok2 && st.SameInt(lx, ly) && st.SameInt(x.Len, y.Len)
	}
	// whole tells if a value has the bytes of the path without the first one.
	whole := func(st *absint.State, v absint.Val) bool {
		s, ok := v.(absint.VSlice)
		c, ok2 := cell(st)
		if !ok || !ok2 || !strings.HasSuffix(st.Tag(v), "part of "+path) {
			return false
		}
		low, ok := st.Attr(s.S, "low")
		return ok && st.SameInt(low, absint.VInt{K: 1}) && st.Leq(s.Len, c.Len, -1) && st.Leq(c.Len, s.Len, 1)
	}
	e.H.Copy = func(a *absint.Activation, st *absint.State, in ssa.Instruction, dst, src absint.Val) {
		d, ok := dst.(absint.VSlice)
		v, ok2 := src.(absint.VSlice)
		if ok && ok2 && whole(st, src) && st.NewArray(dst) && st.SameInt(d.Len, v.Len) && !strings.HasPrefix(st.Tag(dst), "part of ") {
			st.SetTag(dst, copied)
		}
	}
	decimal := func(st *absint.State, base []absint.Val) bool {
		if len(base) == 0 {
			return true
		}
		n, ok := st.ConstOf(base[0])
		return ok && n == 10
	}
	names, elems := 0, 0
	agree := func(a *absint.Activation, st *absint.State, in ssa.Instruction) {
		p, ok1 := st.Ghost("path").(absint.VSlice)
		k, ok2 := st.Ghost("key").(absint.VSlice)
		if ok1 && ok2 {
			names++
			if !r.Obl(samePart(st, p, k)) {
				e.Report(a, in, "name", "the path isn't extended with the name that's written as key")
			}
		}
		i, ok1 := st.Ghost("pathidx").(absint.VInt)
		j, ok2 := st.Ghost("elem").(absint.VInt)
		if ok1 && ok2 {
			elems++
			if !r.Obl(st.SameInt(i, j)) {
				e.Report(a, in, "index", "the path isn't extended with the index of the element that's resolved")
			}
		}
		if ok1 != ok2 && ok2 {
			r.Obl(false)
			e.Report(a, in, "index", "an element is resolved without its index in the path")
		}
	}
	e.H.Call = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []absint.Val) *absint.State {
		if cycle(callee) {
			agree(a, st, in)
			if !r.Obl(!st.GhostBool("popped")) {
				e.Report(a, in, "early", "the path is already shortened where a part of the field is resolved")
			}
			forget(st)
		}
		name := calleeName(in)
		switch name {
		case "strconv.AppendInt", "strconv.AppendUint":
			if len(args) > 1 && st.Tag(args[0]) == path {
				if v, ok := args[1].(absint.VInt); ok && decimal(st, args[2:]) {
					st.SetGhost("pathidx", v)
				}
			}
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
			if cycle(a.Fn) {
				if v, ok := args[0].(absint.VInt); ok && decimal(st, args[1:]) {
					st.SetGhost("pathidx", v)
				}
			}
		case "(reflect.Value).Index":
			if v, ok := args[1].(absint.VInt); ok && cycle(a.Fn) {
				st.SetGhost("elem", v)
			}
		}
		return st
	}
	e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
		part, isPart := added.(absint.VSlice)
		isPart = isPart && strings.HasPrefix(st.Tag(added), "part of "+code)
		if b, ok := before.(absint.VSlice); ok && st.Leq(b.Len, absint.VInt{}, 0) && (st.NewArray(before) || b.S == 0 || st.NilState(b) == 1) && whole(st, added) {
			st.SetTag(after, copied)
		}
		switch strings.TrimPrefix(st.Tag(before), "part of ") {
		case errors:
			for _, v := range a.Elements(st, added) {
				i, ok := v.(absint.VIface)
				c, ok2 := cell(st)
				plain := !ok || !pathErrorTypes[typeString(i.T)]
				if a.Fn == resolve || !touches(a.Fn) {
					continue
				}
				if !r.Obl(!plain || ok2 && st.Leq(c.Len, absint.VInt{}, 0)) {
					e.Report(a, in, "path", "an error without a path is recorded for a field")
				}
			}
		case path:
			if isPart {
				st.SetGhost("path", part)
			}
		case result:
			if isPart {
				st.SetGhost("key", part)
			}
		}
	}
	recorded, copies, stored := 0, 0, 0
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		tag := absint.CellTag(o, p.P)
		switch {
		case tag == path:
			n, ok := v.(absint.VSlice)
			if ok {
				st.SetTag(n, path)
			}
			old, ok2 := cell(st)
			if !ok || !ok2 {
				return
			}
			if st.Leq(old.Len, n.Len, -1) { // grows
				if !r.Obl(!st.GhostBool("early")) {
					e.Report(a, in, "late", "the path is only extended after an error is recorded")
				}
				st.SetGhostBool("popped", false)
			} else if st.Leq(n.Len, old.Len, -1) {
				agree(a, st, in)
				forget(st)
				st.SetGhostBool("popped", true)
			}
			stored++
		case errPaths[tag]:
			copies++
			if !r.Obl(st.Tag(v) == copied || strings.HasPrefix(st.Tag(v), "copy ") && whole(st, v)) {
				e.Report(a, in, "copy", "the path of an error isn't a copy of the whole path")
			}
		case tag == errors:
			if a.Fn == resolve || in.Pos() == token.NoPos {
				return
			}
			recorded++
			if !r.Obl(!st.GhostBool("popped")) {
				e.Report(a, in, "early", "the path is already shortened where this error is recorded")
			}
			st.SetGhostBool("early", true)
		}
	}
	rets := 0
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if !cycle(a.Fn) {
			return
		}
		agree(a, st, in)
		forget(st)
		now, ok := cell(st)
		was, ok2 := a.EntryCell(ctxT, pathCell).(absint.VSlice)
		if !ok || !ok2 {
			return
		}
		rets++

		if !r.Obl(st.SameInt(now.Len, was.Len)) {
			e.Report(a, in, "balance", "the path isn't as long as it was")
		}
	}
	e.Pin = func(tag string) bool { return tag == path }
	e.Run(resolve, func(st *absint.State, params []absint.Val) {
		st.SetSingle(ctxT, pathCell, st.Fresh(types.NewSlice(types.Typ[types.Byte]), path))
	})
	r.Engine(e)
	r.engineFindings(e)
	r.Count("changes of the path", stored)
	r.Need("returns at which the path is compared", rets, 3)
	r.Need("errors that are recorded", recorded, 1)
	r.Need("paths of errors", copies, 1)
	r.Need("names in the path compared with the key", names, 1)
	r.Need("indexes in the path compared with the element", elems, 1)
}
