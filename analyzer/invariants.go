package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

// functions returns every function of the analysed packages, closures included.
func (w *World) functions() []*ssa.Function {
	if w.fns != nil {
		return w.fns
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !w.InScope(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range []*ssa.Package{w.Root, w.Byte, w.Cache, w.Help} {
		for _, name := range sortedNames(p.Members) {
			switch m := p.Members[name].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.Prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	w.fns = out
	return out
}

// fieldSet returns every value that's ever stored in a field with a small integer type, including 0.
func (w *World) fieldSet(tag string) (absint.Set, bool) {
	if s, ok := w.sets[tag]; ok {
		return s, s != absint.FullSet
	}
	res := absint.Set{}
	res.Add(0)
	for _, fn := range w.functions() {
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != tag {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							has = true
							continue
						}
						res = absint.FullSet
					case *ssa.UnOp:
					default:
						res = absint.FullSet // its address escapes
					}
				}
			}
		}
		if !has {
			continue
		}
		e := absint.New(w.Prog, w.Scope)
		e.Keep = func(string) bool { return false }
		e.Relevant = func(*ssa.Function) (bool, bool) { return false, false }
		e.Skip = true
		e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
			if a.Fn != fn || !strings.HasSuffix(absint.CellTag(o, p.P), tag) {
				return
			}
			if st.Tag(v) == tag {
				return // a copy
			}
			s, ok := st.SetOf(v)
			if !ok {
				s = absint.FullSet
			}
			res = res.Or(s)
		}
		e.Run(fn, nil)
	}
	if w.sets == nil {
		w.sets = map[string]absint.Set{}
	}
	w.sets[tag] = res
	return res, res != absint.FullSet
}
