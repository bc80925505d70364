package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Path exploration over SSA with facts about booleans and nil. From every place where a name of a request wasn't found (the missing side of a lookup in a map of a definition, the end "+
		"of a search that compares names) every path to the end of the request has to record an error, through the functions that return what was found. The function that resolves a value is explored "+
		"for each kind of value with and without a selection set: what has fields isn't resolved without one, what has none isn't written with one, both are errors.", runMissing)
}

const (
	asFalse = 1 + iota
	asTrue
	asNil
	theParam // the definition of the value that's resolved
)

type facts map[ssa.Value]int

func (f facts) clone() facts {
	out := facts{}
	for k, v := range f {
		out[k] = v
	}
	return out
}

func (f facts) key() string {
	var parts []string
	for k, v := range f {
		parts = append(parts, fmt.Sprintf("%s:%d", k.Name(), v))
	}
	sort.Strings(parts)
	return strings.Join(parts, ",")
}

// outcome is a way a function returns without an error being recorded.
type outcome struct {
	results []int // what's known of its results
	touched bool
	reached int // where the path ended within the function
}

const (
	selectionReached = 1 + iota
	handedOver
	handedOverOther
)

type missing struct {
	r       *Report
	w       *World
	fns     []*ssa.Function
	request map[*ssa.Function]bool
	always  map[*ssa.Function]bool // functions that record an error whatever happens
	records func(fn *ssa.Function) bool
	sites   map[*ssa.Function][]ssa.CallInstruction
	stop    func(call *ssa.Call, f facts) int // tells where a path ends
	touch   func(call *ssa.Call) bool
	inline  func(g *ssa.Function) bool
	cond    func(f facts, v *ssa.BinOp) int
	exempt  bool // paths where the name is one that's known
	steps   int
	over    bool
}

func runMissing(r *Report) {
	w := r.W
	x := &missing{r: r, w: w, fns: w.requestFuncs(), request: map[*ssa.Function]bool{}, always: map[*ssa.Function]bool{}, sites: w.callSites()}
	for _, fn := range x.fns {
		x.request[fn] = true
	}
	x.records = w.reaching(func(fn *ssa.Function) bool { return storesField(fn, errorsField) })
	for again := true; again; {
		again = false
		for _, fn := range x.fns {
			if !x.always[fn] && len(fn.Blocks) > 0 && !x.passes(fn) {
				x.always[fn] = true
				again = true
			}
		}
	}
	r.Need("functions that record errors", len(x.always), 2)
	x.lookups()
	x.searches()
	r.Need("names of requests", r.Counts["names that are looked up"]+r.Counts["searches for a name"], 5)
	x.shapes()
	if x.over {
		r.Bad(nil, token.NoPos, "undecided", "paths", "there are too many paths to follow")
	}
	debugf("steps %d", x.steps)
	r.Assume = append(r.Assume, "definitions are complete: what isn't in them doesn't exist (C07 for copies, registration fills them)")
}

// passes tells if a function can return without recording an error.
func (x *missing) passes(fn *ssa.Function) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if x.isRecord(in) {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(fn.Blocks[0])
}

func (x *missing) isRecord(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Store:
		fa, ok := in.Addr.(*ssa.FieldAddr)
		if ok && fieldName(fa) == errorsField {
			_, cut := in.Val.(*ssa.Slice)
			return !cut && !isNilConst(in.Val)
		}
	case *ssa.Call:
		f := in.Call.StaticCallee()
		return f != nil && x.always[f]
	case *ssa.Panic:
		return true
	}
	return false
}

// explore follows all paths from an instruction, and returns how the function can return without an error being recorded.
func (x *missing) explore(fn *ssa.Function, b *ssa.BasicBlock, at int, known facts, depth int) (out []outcome) {
	type state struct {
		b       *ssa.BasicBlock
		at      int
		f       facts
		touched bool
	}
	seen := map[string]bool{}
	todo := []state{{b, at, known.clone(), false}}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		x.steps++
		if x.steps > 2_000_000 {
			x.over = true
			return out
		}
		ended := false
	instrs:
		for i := s.at; i < len(s.b.Instrs); i++ {
			in := s.b.Instrs[i]
			if x.isRecord(in) {
				ended = true
				break
			}
			switch in := in.(type) {
			case *ssa.UnOp:
				delete(s.f, in)
				switch {
				case in.Op == token.NOT && s.f[in.X] == asTrue:
					s.f[in] = asFalse
				case in.Op == token.NOT && s.f[in.X] == asFalse:
					s.f[in] = asTrue
				case in.Op == token.MUL && s.f[in.X] != 0:
					if _, ok := in.X.(*ssa.Alloc); ok {
						s.f[in] = s.f[in.X]
					}
				}
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); ok {
					delete(s.f, a)
					if k := x.known(s.f, in.Val); k != 0 {
						s.f[a] = k
					}
				}
			case *ssa.BinOp:
				delete(s.f, in)
				if in.Op != token.EQL && in.Op != token.NEQ {
					continue
				}
				a, b := x.known(s.f, in.X), x.known(s.f, in.Y)
				if a != 0 && b != 0 && (a == b || a != asNil && b != asNil) {
					if (a == b) == (in.Op == token.EQL) {
						s.f[in] = asTrue
					} else {
						s.f[in] = asFalse
					}
				}
				if x.cond != nil && s.f[in] == 0 {
					if k := x.cond(s.f, in); k != 0 {
						s.f[in] = k
					}
				}
			case *ssa.Call:
				delete(s.f, in)
				for _, ref := range *in.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok {
						delete(s.f, e)
					}
				}
				for k := range s.f {
					if a, ok := k.(*ssa.Alloc); ok && isCaptured(a) {
						delete(s.f, k)
					}
				}
				if x.stop != nil {
					if k := x.stop(in, s.f); k != 0 {
						out = append(out, outcome{reached: k})
						ended = true
						break instrs
					}
				}
				if x.touch != nil && x.touch(in) {
					s.touched = true
				}
				g := in.Call.StaticCallee()
				if g == nil || x.inline == nil || !x.inline(g) || depth <= 0 {
					continue
				}
				inner := facts{}
				for j, p := range g.Params {
					if k := x.known(s.f, in.Call.Args[j]); k != 0 {
						inner[p] = k
					}
				}
				for _, o := range x.explore(g, g.Blocks[0], 0, inner, depth-1) {
					if o.reached != 0 {
						out = append(out, o)
						continue
					}
					f := s.f.clone()
					if len(o.results) == 1 && o.results[0] != 0 {
						f[in] = o.results[0]
					}
					// extracts of tuples follow the call
					for _, ref := range *in.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index < len(o.results) && o.results[e.Index] != 0 {
							f[e] = o.results[e.Index]
						}
					}
					next := state{s.b, i + 1, f, s.touched || o.touched}
					k := fmt.Sprintf("%d/%d/%v/%s", s.b.Index, i+1, next.touched, f.key())
					if !seen[k] {
						seen[k] = true
						todo = append(todo, next)
					}
				}
				ended = true
				break instrs
			case *ssa.Lookup:
				if in.CommaOk && x.stop != nil {
					s.touched = s.touched || !isText(in.X.Type())
				}
			case *ssa.Return:
				o := outcome{touched: s.touched}
				for _, v := range in.Results {
					o.results = append(o.results, x.known(s.f, v))
				}
				out = append(out, o)
				ended = true
				break instrs
			}
		}
		if ended {
			continue
		}
		cond, isIf := s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If)
		for i, next := range s.b.Succs {
			f := s.f
			if isIf {
				k := x.known(s.f, cond.Cond)
				if k == asTrue && i == 1 || k == asFalse && i == 0 {
					continue
				}
				if x.exempt && x.isKnownName(cond.Cond, i == 0, 0) {
					continue
				}
				f = f.clone()
				if i == 0 {
					f[cond.Cond] = asTrue
				} else {
					f[cond.Cond] = asFalse
				}
				if k == 0 {
					x.implied(f, cond.Cond, i == 0)
				}
			}
			f = x.enter(f, s.b, next)
			k := fmt.Sprintf("%d/%v/%s", next.Index, s.touched, f.key())
			if !seen[k] {
				seen[k] = true
				todo = append(todo, state{next, 0, f, s.touched})
			}
		}
	}
	return out
}

func isCaptured(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.MakeClosure, *ssa.Call:
			return true
		case *ssa.Store:
			if r.Val == ssa.Value(a) {
				return true
			}
		}
	}
	return false
}

// implied is what a condition tells of others.
func (x *missing) implied(f facts, cond ssa.Value, side bool) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			if side {
				f[c.X] = asFalse
			} else {
				f[c.X] = asTrue
			}
		}
	case *ssa.BinOp:
		if isNilConst(c.Y) && (c.Op == token.EQL) == side {
			f[c.X] = asNil
		}
	}
}

// enter goes to another block, what's only known within a turn of a loop is forgotten.
func (x *missing) enter(f facts, from, to *ssa.BasicBlock) facts {
	out := f.clone()
	at := 0
	for i, p := range to.Preds {
		if p == from {
			at = i
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		delete(out, phi)
		if k := x.known(f, phi.Edges[at]); k != 0 {
			out[phi] = k
		}
	}
	for v := range out {
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && in.Parent() == to.Parent() {
			if _, isAlloc := v.(*ssa.Alloc); !isAlloc && !in.Block().Dominates(to) {
				delete(out, v)
			}
		}
	}
	return out
}

func (x *missing) known(f facts, v ssa.Value) int {
	if k := f[v]; k != 0 {
		return k
	}
	c, ok := v.(*ssa.Const)
	if !ok {
		return 0
	}
	if c.IsNil() {
		return asNil
	}
	if c.Value != nil && c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			return asTrue
		}
		return asFalse
	}
	return 0
}

// isKnownName tells if a side of a condition is the one where a name is one that's written in the code.
func (x *missing) isKnownName(cond ssa.Value, side bool, depth int) bool {
	if depth > 3 {
		return false
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		return c.Op == token.NOT && x.isKnownName(c.X, !side, depth+1)
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ || (c.Op == token.EQL) != side {
			return false
		}
		return isTextConst(c.X) || isTextConst(c.Y)
	case *ssa.Call:
		if !side {
			return false
		}
		for _, a := range c.Call.Args {
			if isTextConst(a) {
				return true
			}
		}
		g := c.Call.StaticCallee()
		if g == nil || !x.w.InScope(g) {
			return false
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if ok && len(ret.Results) == 1 && x.isKnownName(ret.Results[0], true, depth+1) {
				return true
			}
		}
	}
	return false
}

func isTextConst(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.String && constant.StringVal(v.Value) != ""
	case *ssa.Convert:
		return isTextConst(v.X)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return isText(v.Type()) && g.Pkg != nil
		}
	}
	return false
}

// ofRequest tells if a text or key is (made of) a text of the request.
func (x *missing) ofRequest(v ssa.Value, depth int, seen map[ssa.Value]bool) (is, other bool) {
	if seen[v] || depth > 8 {
		return false, false
	}
	seen[v] = true
	join := func(vs ...ssa.Value) (bool, bool) {
		is, other := false, false
		for _, u := range vs {
			a, b := x.ofRequest(u, depth+1, seen)
			is, other = is || a, other || b
		}
		return is, other
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Global:
		return false, false
	case *ssa.Slice:
		return join(v.X)
	case *ssa.Convert:
		return join(v.X)
	case *ssa.ChangeType:
		return join(v.X)
	case *ssa.Phi:
		return join(v.Edges...)
	case *ssa.Extract:
		return join(v.Tuple)
	case *ssa.BinOp:
		return join(v.X, v.Y)
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(v) {
				a, b := join(s.Val)
				is, other = is || a, other || b
			}
		}
		return is, other
	case *ssa.IndexAddr:
		return join(v.X)
	case *ssa.FreeVar:
		for i, fv := range v.Parent().FreeVars {
			if fv != v {
				continue
			}
			for _, r := range *closuresOf(v.Parent()) {
				if mc, ok := r.(*ssa.MakeClosure); ok && mc.Fn == v.Parent() {
					a, b := join(mc.Bindings[i])
					is, other = is || a, other || b
				}
			}
		}
		return is, other
	case *ssa.Parameter:
		fn := v.Parent()
		for i, p := range fn.Params {
			if p != v {
				continue
			}
			called := false
			for _, c := range x.sites[fn] {
				if i < len(c.Common().Args) {
					called = true
					a, b := join(c.Common().Args[i])
					is, other = is || a, other || b
				}
			}
			if !called && fn.Parent() != nil {
				return true, false // a key that's handed to a visitor
			}
		}
		return is, other
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false, false
		}
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			switch {
			case fieldName(fa) == codeField:
				return true, false
			case isText(fa.Type().(*types.Pointer).Elem()) && fieldOwner(fa) != nil:
				return false, true
			}
			return false, false
		}
		return join(v.X)
	case *ssa.Field:
		return false, isText(v.Type())
	case *ssa.Call:
		n := calleeName(v)
		if strings.HasPrefix(n, "(reflect.") || strings.HasPrefix(n, "reflect.") {
			return false, true
		}
		if strings.Contains(n, "fastjson.") {
			return isText(v.Type()) || strings.Contains(n, "StringBytes"), false
		}
		if g := v.Call.StaticCallee(); g != nil && x.w.InScope(g) && mentionsField(g, map[string]bool{codeField: true}) {
			return true, false
		}
		return join(v.Call.Args...)
	}
	return false, false
}

func closuresOf(fn *ssa.Function) *[]ssa.Instruction {
	var out []ssa.Instruction
	if p := fn.Parent(); p != nil {
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					out = append(out, mc)
				}
			}
		}
	}
	return &out
}

// unreported tells if a request can go on, or end, without an error.
func (x *missing) unreported(fn *ssa.Function, outs []outcome, depth int, seen map[string]bool) bool {
	for _, o := range outs {
		any := false
		for _, k := range o.results {
			any = any || k != 0
		}
		calls := x.sites[fn]
		if !any || depth <= 0 || len(calls) == 0 {
			return true
		}
		for _, c := range calls {
			call, ok := c.(*ssa.Call)
			caller := c.Parent()
			if !ok || !x.request[caller] {
				continue
			}
			f := facts{}
			if len(o.results) == 1 {
				f[call] = o.results[0]
			}
			for _, ref := range *call.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index < len(o.results) && o.results[e.Index] != 0 {
					f[e] = o.results[e.Index]
				}
			}
			k := fmt.Sprint(call.Pos(), o.results, depth)
			if seen[k] {
				continue
			}
			seen[k] = true
			at := 0
			for i, in := range call.Block().Instrs {
				if in == ssa.Instruction(call) {
					at = i + 1
				}
			}
			// extracts come first and keep what's known
			for at < len(call.Block().Instrs) {
				if _, ok := call.Block().Instrs[at].(*ssa.Extract); !ok {
					break
				}
				at++
			}
			if x.unreported(caller, x.explore(caller, call.Block(), at, f, 3), depth-1, seen) {
				return true
			}
		}
	}
	return false
}

// lookups decides that names that aren't in a definition are errors.
func (x *missing) lookups() {
	x.exempt = true
	for _, fn := range x.fns {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				l, ok := in.(*ssa.Lookup)
				if !ok || isText(l.X.Type()) {
					continue
				}
				m := loadedField(l.X)
				if m == nil || fieldOwner(m) == nil || !x.w.definition()[fieldOwner(m)] && fieldOwner(m).Obj().Name() != "Schema" {
					continue
				}
				is, other := x.ofRequest(l.Index, 0, map[ssa.Value]bool{})
				if !is || other {
					continue
				}
				f := facts{}
				if l.CommaOk {
					for _, ref := range *l.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
							f[e] = asFalse
						} else if ok {
							f[e] = asNil
						}
					}
				} else {
					f[l] = asNil
				}
				at := i + 1
				for at < len(b.Instrs) {
					if _, ok := b.Instrs[at].(*ssa.Extract); !ok {
						break
					}
					at++
				}
				x.steps = 0
				x.r.Count("names that are looked up", 1)
				x.r.Sample("%s: %s in %s", x.w.Pos(l.Pos()), "lookup", fieldName(m))
				if !x.r.Obl(!x.unreported(fn, x.explore(fn, b, at, f, 3), 3, map[string]bool{})) {
					x.r.Bad(fn, l.Pos(), "missing", "lookup in "+fieldName(m), "a name that isn't in %s can stay without an error", fieldName(m))
				}
			}
		}
	}
	x.exempt = false
}

// comparison returns what texts a condition compares.
func comparison(v ssa.Value) (a, b ssa.Value, equal bool) {
	switch v := v.(type) {
	case *ssa.BinOp:
		if (v.Op == token.EQL || v.Op == token.NEQ) && isText(v.X.Type()) && !isTextConst(v.X) && !isTextConst(v.Y) {
			if k, ok := v.Y.(*ssa.Const); ok && k.Value != nil {
				return nil, nil, false
			}
			return v.X, v.Y, v.Op == token.EQL
		}
	case *ssa.Call:
		if calleeName(v) == "bytes.Equal" {
			return v.Call.Args[0], v.Call.Args[1], true
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			a, b, eq := comparison(v.X)
			return a, b, !eq
		}
	}
	return nil, nil, false
}

// searches decides that names that aren't found by comparing them are errors.
func (x *missing) searches() {
	x.exempt = true
	for _, fn := range x.fns {
		if fn.Pkg != x.w.Root && (fn.Parent() == nil || fn.Parent().Pkg != x.w.Root) {
			continue
		}
		for h, body := range loopsOf(fn) {
			var found []*ssa.BasicBlock
			var pos token.Pos
			for b := range body {
				cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				p, q, eq := comparison(cond.Cond)
				if p == nil {
					continue
				}
				is1, other1 := x.ofRequest(p, 0, map[ssa.Value]bool{})
				is2, other2 := x.ofRequest(q, 0, map[ssa.Value]bool{})
				if !(is1 && !other1) && !(is2 && !other2) {
					continue
				}
				s := b.Succs[0]
				if !eq {
					s = b.Succs[1]
				}
				// where it's found the search ends
				if len(s.Preds) == 1 && !goesTo(s, h, body) {
					found = append(found, s)
					pos = cond.Cond.Pos()
				}
			}
			if len(found) == 0 || x.nested(fn, h, found) {
				continue
			}
			x.steps = 0
			x.r.Count("searches for a name", 1)
			x.r.Sample("%s: search", x.w.Pos(pos))
			ok := true
			for b := range body {
				skip := false
				for _, f := range found {
					skip = skip || f.Dominates(b)
				}
				if skip {
					continue
				}
				for i, s := range b.Succs {
					if body[s] {
						continue
					}
					isFound := false
					for _, f := range found {
						isFound = isFound || f == s
					}
					if isFound {
						continue
					}
					f := facts{}
					if cond, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If); isIf {
						f[cond.Cond] = asTrue
						if i == 1 {
							f[cond.Cond] = asFalse
						}
					}
					// what's set where it's found isn't yet
					for _, in := range h.Instrs {
						if phi, isPhi := in.(*ssa.Phi); isPhi {
							k := 0
							for j, e := range phi.Edges {
								if e == ssa.Value(phi) {
									continue
								}
								if v := x.known(facts{}, e); v == 0 || j > 0 && k != 0 && v != k {
									k = -1
								} else if k == 0 {
									k = v
								}
							}
							if k > 0 {
								f[phi] = k
							}
						}
					}
					for v, k := range x.before(fn, h, body) {
						f[v] = k
					}
					f = x.enter(f, b, s)
					ok = ok && !x.unreported(fn, x.explore(fn, s, 0, f, 3), 3, map[string]bool{})
				}
				for _, in := range b.Instrs {
					if ret, isRet := in.(*ssa.Return); isRet {
						o := outcome{}
						for _, v := range ret.Results {
							o.results = append(o.results, x.known(facts{}, v))
						}
						ok = ok && !x.unreported(fn, []outcome{o}, 3, map[string]bool{})
					}
				}
			}
			if !x.r.Obl(ok) {
				x.r.Bad(fn, pos, "missing", "search in "+fn.Name(), "a name that isn't found can stay without an error")
			}
		}
	}
	x.exempt = false
}

// before is what variables are when a loop starts, that are only changed where it's left.
func (x *missing) before(fn *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) facts {
	out := facts{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			k, good := 0, !isCaptured(a)
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) && s.Block().Dominates(h) && !body[s.Block()] {
					if k != 0 {
						good = false
					}
					k = x.known(facts{}, s.Val)
				}
			}
			if good && k != 0 {
				out[a] = k
			}
		}
	}
	return out
}

// nested tells if a search within the loop is the one that's meant.
func (x *missing) nested(fn *ssa.Function, h *ssa.BasicBlock, found []*ssa.BasicBlock) bool {
	for h2, body2 := range loopsOf(fn) {
		if h2 == h || !h.Dominates(h2) {
			continue
		}
		for _, f := range found {
			for _, p := range f.Preds {
				if body2[p] {
					return true
				}
			}
		}
	}
	return false
}

func goesTo(from, to *ssa.BasicBlock, within map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{from}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == to {
			return true
		}
		if seen[b] || !within[b] {
			continue
		}
		seen[b] = true
		todo = append(todo, b.Succs...)
	}
	return false
}

// shapes decides that selection sets are there for what has fields, and aren't for what hasn't.
func (x *missing) shapes() {
	// what's on the way from a value to the values within it
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range x.fns {
		calls[fn] = map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						calls[fn][g] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					calls[fn][mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		todo := []*ssa.Function{from}
		for len(todo) > 0 {
			f := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for g := range calls[f] {
				if g == to {
					return true
				}
				if !seen[g] {
					seen[g] = true
					todo = append(todo, g)
				}
			}
		}
		return false
	}
	for _, fn := range x.fns {
		if !reaches(fn, fn) {
			continue
		}
		for at, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				continue
			}
			is := x.tellsSelection(fn, at)
			if is == 0 {
				continue
			}
			kinds, of := x.kinds(fn)
			if len(kinds) < 4 {
				continue
			}
			x.shapesOf(fn, at, is, kinds, of, func(g *ssa.Function) bool { return reaches(g, fn) })
		}
	}
	if x.r.Counts["kinds of values"] == 0 {
		x.r.Bad(nil, token.NoPos, "undecided", "kinds", "no function was found that's told if there's a selection set and tells kinds of values apart")
	}
}

// tellsSelection tells if a parameter gets the answer if there's a selection set, and which answer says so.
func (x *missing) tellsSelection(fn *ssa.Function, at int) int {
	for _, c := range x.sites[fn] {
		if at >= len(c.Common().Args) {
			continue
		}
		if q := c.Common().Args[at]; isEndQuestion(q) {
			if q.(*ssa.BinOp).Op == token.NEQ {
				return asTrue
			}
			return asFalse
		}
	}
	return 0
}

// isEndQuestion tells if a value is a comparison with the instruction that ends a field.
func isEndQuestion(v ssa.Value) bool {
	return isQuestion(v, 'e')
}

func isBranch(in ssa.Instruction) bool {
	_, ok := in.(*ssa.If)
	return ok
}

// isQuestion tells if a value is a comparison with an instruction.
func isQuestion(v ssa.Value, instruction int64) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.NEQ && b.Op != token.EQL {
		return false
	}
	k, isConst := b.Y.(*ssa.Const)
	if !isConst || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	c, _ := constant.Int64Val(k.Value)
	return c == instruction
}

// asksSelection tells if a value is only made of answers to the question if there's a selection set.
func asksSelection(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !asksSelection(e, fn, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return isEndQuestion(v)
	case *ssa.Const:
		return false
	case *ssa.UnOp:
		return v.Op != token.NOT || asksSelection(v.X, fn, seen)
	}
	return true // a call, or something that was stored
}

// kinds returns with what constants the kind of a parameter is compared.
func (x *missing) kinds(fn *ssa.Function) (map[int64]bool, func(ssa.Value) ssa.Value) {
	best := map[int64]bool{}
	var of func(ssa.Value) ssa.Value
	fields := map[string]map[int64]bool{}
	isKind := func(v ssa.Value) string {
		l, ok := v.(*ssa.UnOp)
		if !ok || l.Op != token.MUL {
			return ""
		}
		fa, ok := l.X.(*ssa.FieldAddr)
		if !ok || fieldOwner(fa) == nil || !x.w.definition()[fieldOwner(fa)] {
			return ""
		}
		if _, named := l.Type().(*types.Named); !named {
			return ""
		}
		if _, ok := fa.X.(*ssa.Parameter); !ok {
			return "elsewhere " + fieldName(fa)
		}
		return fieldName(fa)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.BinOp)
			if !ok || c.Op != token.EQL && c.Op != token.NEQ {
				continue
			}
			n := isKind(c.X)
			k, isConst := c.Y.(*ssa.Const)
			if n == "" || !isConst || k.Value == nil || k.Value.Kind() != constant.Int {
				continue
			}
			if fields[n] == nil {
				fields[n] = map[int64]bool{}
			}
			v, _ := constant.Int64Val(k.Value)
			if strings.HasPrefix(n, "elsewhere ") {
				continue
			}
			fields[n][v] = true
			if len(fields[n]) > len(best) {
				best = fields[n]
				of = func(v ssa.Value) ssa.Value {
					if k := isKind(v); k == n || k == "elsewhere "+n {
						return v.(*ssa.UnOp).X.(*ssa.FieldAddr).X
					}
					return nil
				}
			}
		}
	}
	return best, of
}

func (x *missing) shapesOf(fn *ssa.Function, at, is int, kinds map[int64]bool, of func(ssa.Value) ssa.Value, resolves func(*ssa.Function) bool) {
	has := asFalse
	arguments, asked, takes := false, false, false
	x.inline = func(g *ssa.Function) bool {
		if !x.request[g] || g == fn || len(g.Blocks) == 0 || resolves(g) && len(x.sites[g]) != 1 {
			return false
		}
		return len(x.sites[g]) == 1 || len(g.Blocks) <= 8 && g.Signature.Results().Len() == 1
	}
	x.stop = func(call *ssa.Call, f facts) int {
		g := call.Call.StaticCallee()
		switch {
		case g == nil:
			return 0
		case g == fn:
			k := x.known(f, call.Call.Args[at])
			if k == has || k == 0 && asksSelection(call.Call.Args[at], fn, map[ssa.Value]bool{}) {
				return handedOver
			}
			return handedOverOther
		case resolves(g) && !x.inline(g):
			return selectionReached
		}
		return 0
	}
	x.touch = func(call *ssa.Call) bool {
		for _, a := range call.Call.Args {
			takes = takes || isQuestion(a, 'v')
		}
		n := calleeName(call)
		if strings.HasPrefix(n, "(reflect.Value)") || strings.HasPrefix(n, "(*reflect.Value)") {
			return true
		}
		for _, a := range call.Call.Args {
			t := a.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if t.String() == "reflect.Value" {
				return true
			}
		}
		return false
	}
	defer func() { x.inline, x.stop, x.touch, x.cond = nil, nil, nil, nil }()
	var all []int64
	for k := range kinds {
		all = append(all, k)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	objAt := -1
	for i, p := range fn.Params {
		for _, ref := range *p.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok {
				for _, l := range *fa.Referrers() {
					if u, ok := l.(*ssa.UnOp); ok && of(u) == ssa.Value(p) {
						objAt = i
					}
				}
			}
		}
	}
	if objAt < 0 {
		return
	}
	var unasked []string
	for _, kind := range all {
		x.cond = func(f facts, v *ssa.BinOp) int {
			if arguments && isQuestion(v, 'v') {
				asked = asked || len(*v.Referrers()) > 0 && isBranch((*v.Referrers())[0])
				if v.Op == token.EQL {
					return asTrue
				}
				return asFalse
			}
			k, ok := v.Y.(*ssa.Const)
			if !ok || k.Value == nil || (v.Op != token.EQL && v.Op != token.NEQ) || of(v.X) == nil || x.known(f, of(v.X)) != theParam {
				return 0
			}
			c, _ := constant.Int64Val(k.Value)
			if (c == kind) == (v.Op == token.EQL) {
				return asTrue
			}
			return asFalse
		}
		run := func(k int) []outcome {
			has = k
			x.steps = 0
			return x.explore(fn, fn.Blocks[0], 0, facts{fn.Params[at]: k, fn.Params[objAt]: theParam}, 3)
		}
		with, without := run(is), run(asTrue+asFalse-is)
		selects, hands := false, false
		for _, o := range with {
			selects = selects || o.reached == selectionReached
			hands = hands || o.reached == handedOver || o.reached == handedOverOther
		}
		x.r.Count("kinds of values", 1)
		name := x.constName(fn, of, kind)
		for _, o := range append(with, without...) {
			if !x.r.Obl(o.reached != handedOverOther) {
				x.r.Bad(fn, fn.Pos(), "shape", name, "a value of kind %s says of the values within it that they have a selection set when there's none, or the reverse", name)
			}
		}
		refuses := hands
		for _, o := range without {
			refuses = refuses && o.reached != handedOver
		}
		switch {
		case selects || refuses:
			for _, o := range without {
				if !x.r.Obl(o.reached != selectionReached) {
					x.r.Bad(fn, fn.Pos(), "shape", name, "a value of kind %s is resolved without a selection set", name)
				}
				if !x.r.Obl(o.reached != 0 || o.touched) {
					x.r.Bad(fn, fn.Pos(), "shape", name, "a value of kind %s without a selection set stays without an error", name)
				}
			}
		case hands:
			continue
		default:
			for _, o := range with {
				if !x.r.Obl(!o.touched) {
					x.r.Bad(fn, fn.Pos(), "shape", name, "a value of kind %s, that has no fields, is written with a selection set", name)
				}
			}
		}
		arguments, takes = true, false
		outs := run(is) // the arguments are where the selection set would be
		arguments = false
		if takes {
			continue
		}
		for _, o := range outs {
			if o.reached == 0 && !o.touched {
				unasked = append(unasked, name)
				break
			}
		}
	}
	if !asked {
		x.r.Bad(nil, token.NoPos, "undecided", "arguments", "what happens with the arguments of what has none isn't decided where values are resolved")
		return
	}
	for range all {
		x.r.Obl(true)
	}
	for _, name := range unasked {
		x.r.Obl(false)
		x.r.Bad(fn, fn.Pos(), "arguments", name, "a value of kind %s, that has no arguments, is written with arguments", name)
	}
}

// constName returns the name of a kind.
func (x *missing) constName(fn *ssa.Function, of func(ssa.Value) ssa.Value, kind int64) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.BinOp)
			if !ok || of(c.X) == nil {
				continue
			}
			named := c.X.Type().(*types.Named)
			scope := named.Obj().Pkg().Scope()
			for _, n := range scope.Names() {
				k, ok := scope.Lookup(n).(*types.Const)
				if ok && types.Identical(k.Type(), named) {
					if v, exact := constant.Int64Val(k.Val()); exact && v == kind {
						return n
					}
				}
			}
		}
	}
	return fmt.Sprint(kind)
}
