package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Largest number of calls within each other that's still seen as bounded.
const deepest = 100000

// How a value of a function that's called relates to one of the function that calls it.
type change struct {
	same    bool // it isn't more
	less    bool // it's a part of it
	up      bool // it's a higher number
	down    bool // it's a lower number
	limited bool // the number was compared with a limit
}

type fromTo struct{ from, to int }

// callEdge is what a call does to the values of functions that call each other.
type callEdge struct {
	from, to *ssa.Function
	rel      map[fromTo]change
	needs    map[int]bool // what booleans of the caller must be
	sets     map[int]bool // what booleans of the callee are
	pos      token.Pos
	via      string
}

func (e *callEdge) key() string {
	var parts []string
	for p, c := range e.rel {
		parts = append(parts, fmt.Sprintf("%d>%d%v", p.from, p.to, c))
	}
	for i, b := range e.needs {
		parts = append(parts, fmt.Sprintf("n%d%v", i, b))
	}
	for i, b := range e.sets {
		parts = append(parts, fmt.Sprintf("s%d%v", i, b))
	}
	sort.Strings(parts)
	return e.from.String() + "|" + e.to.String() + "|" + strings.Join(parts, ",")
}

func better(a, b change) change {
	score := func(c change) int {
		n := 0
		if c.less || (c.up != c.down && c.limited) {
			n += 8
		}
		if c.up != c.down {
			n += 2
		}
		if c.limited {
			n += 4
		}
		return n
	}
	if score(a) >= score(b) {
		return a
	}
	return b
}

func compose(a, b *callEdge, boolean func(f *ssa.Function, i int) bool) *callEdge {
	out := &callEdge{from: a.from, to: b.to, rel: map[fromTo]change{}, needs: map[int]bool{}, sets: map[int]bool{}, pos: a.pos, via: a.via + ", " + b.via}
	for i, v := range a.needs {
		out.needs[i] = v
	}
	for i, v := range b.needs {
		if k, ok := a.sets[i]; ok && k != v {
			return nil
		}
		for p := range a.rel {
			if p.to == i && boolean(a.to, i) {
				if k, ok := out.needs[p.from]; ok && k != v {
					return nil
				}
				out.needs[p.from] = v
			}
		}
	}
	for j, v := range b.sets {
		out.sets[j] = v
	}
	for p, x := range a.rel {
		for q, y := range b.rel {
			if p.to != q.from {
				continue
			}
			c := change{same: true, less: x.less || y.less, up: x.up || y.up, down: x.down || y.down, limited: x.limited || y.limited}
			at := fromTo{p.from, q.to}
			if old, ok := out.rel[at]; ok {
				c = better(old, c)
			}
			out.rel[at] = c
		}
	}
	for q := range b.rel {
		if v, ok := a.sets[q.from]; ok && boolean(b.to, q.to) {
			out.sets[q.to] = v
		}
	}
	return out
}

// origin is where a value comes from.
type origin struct {
	at   int // position of the value of the function
	less bool
	add  int64
	ref  bool // it's what's named by it
}

type rec struct {
	t       *terms
	in      map[*ssa.Function]bool // functions that call each other
	written map[string]bool        // fields requests write
	refs    map[ssa.Value]bool     // parameters that are what's named
	self    map[*ssa.Function]bool // functions that (indirectly) call themselves
}

// position of the cursors, behind parameters and captured values
func (x *rec) positions(f *ssa.Function) int { return len(f.Params) + len(f.FreeVars) }

func (x *rec) boolean(f *ssa.Function, i int) bool {
	var t types.Type
	if i < len(f.Params) {
		t = f.Params[i].Type()
	} else if i < x.positions(f) {
		t = f.FreeVars[i-len(f.Params)].Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
	} else {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (x *rec) origin(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) (origin, bool) {
	none := origin{}
	if seen[v] || len(seen) > 40 {
		return none, false
	}
	seen[v] = true
	defer delete(seen, v)
	part := func(v ssa.Value) (origin, bool) {
		o, ok := x.origin(f, v, seen)
		o.less = true
		return o, ok && o.add == 0 && !o.ref
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == v {
				return origin{at: i, ref: x.refs[v]}, true
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == v {
				return origin{at: len(f.Params) + i}, true
			}
		}
	case *ssa.ChangeType:
		return x.origin(f, v.X, seen)
	case *ssa.Convert:
		return x.origin(f, v.X, seen)
	case *ssa.Alloc:
		// a copy of something
		return x.stored(f, v, nil, seen)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return none, false
		}
		switch a := v.X.(type) {
		case *ssa.Alloc:
			return x.stored(f, a, v, seen)
		case *ssa.FreeVar:
			return x.origin(f, a, seen)
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return x.origin(f, a, seen)
		case *ssa.Parameter:
			return x.origin(f, a, seen) // what it points to
		}
		return x.origin(f, v.X, seen)
	case *ssa.FieldAddr:
		if named := namedIn(v.Type()); named != nil && x.t.w.persistent()[named] && fieldOwner(v) != nil && fieldOwner(v).Obj().Name() == "Ctx" {
			return none, false // not a part of it
		}
		if o, ok := x.origin(f, v.X, seen); ok && o.ref {
			return o, true // a part of what's named
		}
		return part(v.X)
	case *ssa.IndexAddr:
		o, ok := x.origin(f, v.X, seen)
		if ok && o.ref {
			// an element of what's named: the implementations of an interface
			if sl, isSlice := v.X.Type().Underlying().(*types.Slice); isSlice {
				if _, isPtr := sl.Elem().Underlying().(*types.Pointer); isPtr {
					return origin{at: o.at, less: true}, true
				}
			}
		}
		o.less = true
		return o, ok && o.add == 0 && !o.ref
	case *ssa.Field:
		return part(v.X)
	case *ssa.Index:
		return part(v.X)
	case *ssa.Lookup:
		if o, ok := part(v.X); ok && !x.definitions(v.X) {
			return o, true
		}
		// something that's named
		if o, ok := x.origin(f, v.Index, seen); ok && o.less {
			return origin{at: o.at, ref: true}, true
		}
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && x.t.w.InScope(g) {
				return x.returned(f, call, v.Index, seen)
			}
		}
		return x.origin(f, v.Tuple, seen)
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			return part(r.X)
		}
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			if k, ok := v.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
				o, ok := x.origin(f, v.X, seen)
				n := k.Int64()
				if v.Op == token.SUB {
					n = -n
				}
				o.add += n
				return o, ok && !o.less
			}
		}
	case *ssa.Phi:
		var out origin
		any := false
		for _, e := range v.Edges {
			if seen[e] {
				continue
			}
			if isNilConst(e) {
				continue
			}
			o, ok := x.origin(f, e, seen)
			if !ok || any && (o.at != out.at || o.add != out.add) {
				return none, false
			}
			if !any {
				out = o
			} else {
				out.less = out.less && o.less
				out.ref = out.ref || o.ref
			}
			any = true
		}
		return out, any
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && x.t.w.InScope(g) {
			return x.returned(f, v, 0, seen)
		}
		n := calleeName(v)
		if strings.Contains(n, "fastjson.") {
			var recv ssa.Value
			if len(v.Call.Args) > 0 {
				recv = v.Call.Args[0]
			}
			if recv != nil {
				return part(recv)
			}
		}
		if strings.HasPrefix(n, "(reflect.") && strings.HasSuffix(n, ".Elem") {
			if v.Call.IsInvoke() {
				return part(v.Call.Value)
			}
			return part(v.Call.Args[0])
		}
	}
	return none, false
}

// returned is where what a function returns comes from.
func (x *rec) returned(f *ssa.Function, call *ssa.Call, index int, seen map[ssa.Value]bool) (origin, bool) {
	g := call.Call.StaticCallee()
	if len(g.Blocks) == 0 || x.self[g] || len(seen) > 20 {
		return origin{}, false
	}
	find := func() (out origin, any bool) {
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if index >= len(ret.Results) {
				return origin{}, false
			}
			if isNilConst(ret.Results[index]) {
				continue // there's nothing in it
			}
			o, ok := x.origin(g, ret.Results[index], map[ssa.Value]bool{})
			if !ok || any && o != out {
				return origin{}, false
			}
			out, any = o, true
		}
		return out, any
	}
	out, ok := find()
	if !ok || out.at >= len(call.Call.Args) {
		return origin{}, false
	}
	o, ok := x.origin(f, call.Call.Args[out.at], seen)
	if !ok || out.less && o.add != 0 || o.less && out.add != 0 {
		return origin{}, false
	}
	if o.ref {
		// it's given something that's named
		p := ssa.Value(g.Params[out.at])
		x.refs[p] = true
		out, ok = find()
		delete(x.refs, p)
		return origin{at: o.at, less: out.less, ref: out.ref}, ok && out.add == 0
	}
	return origin{at: o.at, less: o.less || out.less, add: o.add + out.add, ref: out.ref}, true
}

// stored is where the value of a variable comes from when it's loaded.
func (x *rec) stored(f *ssa.Function, a *ssa.Alloc, at ssa.Instruction, seen map[ssa.Value]bool) (origin, bool) {
	var stores []*ssa.Store
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) {
				return origin{}, false
			}
			stores = append(stores, r)
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b != ssa.Value(a) {
					continue
				}
				for _, fr := range *g.FreeVars[i].Referrers() {
					switch fr := fr.(type) {
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						_ = fr
					default:
						return origin{}, false
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		default:
			return origin{}, false
		}
	}
	var out origin
	any := false
	for _, s := range stores {
		if at != nil && !follows(s, at) {
			continue
		}
		if seen[s.Val] {
			continue
		}
		o, ok := x.origin(f, s.Val, seen)
		if !ok || any && (o.at != out.at || o.add != out.add) {
			return origin{}, false
		}
		if !any {
			out = o
		} else {
			out.less = out.less && o.less
			out.ref = out.ref || o.ref
		}
		any = true
	}
	return out, any
}

func namedIn(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// definitions tells if a map is one of the schema: what it has isn't part of what names it.
func (x *rec) definitions(v ssa.Value) bool {
	fa := loadedField(v)
	return fa != nil && fieldOwner(fa) != nil && fieldOwner(fa).Obj().Name() == "Schema"
}

// limit tells if a number was compared with a limit before an instruction. dir is the step it makes.
func (x *rec) limit(f *ssa.Function, at ssa.Instruction, o origin, dir int64, depth int) bool {
	b := at.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		cond, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if len(s.Preds) != 1 || !s.Dominates(b) {
				continue
			}
			if x.compared(f, cond.Cond, i == 0, o, dir, depth) {
				return true
			}
		}
	}
	return false
}

// answered tells if a function only gives an answer when a number is limited.
func (x *rec) answered(f *ssa.Function, call *ssa.Call, index int, side bool, o origin, dir int64, depth int) bool {
	g := call.Call.StaticCallee()
	if g == nil || !x.t.w.InScope(g) || len(g.Blocks) == 0 || depth > 3 {
		return false
	}
	for j, a := range call.Call.Args {
		oa, ok := x.origin(f, a, map[ssa.Value]bool{})
		if !ok || oa.at != o.at || oa.less || oa.ref {
			continue
		}
		og := origin{at: j, add: o.add - oa.add}
		all, any := true, false
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || index >= len(ret.Results) {
				continue
			}
			v := ret.Results[index]
			if k := x.constant(v); k != nil && k.Kind() == constant.Bool && constant.BoolVal(k) != side {
				continue
			}
			any = true
			all = all && (x.limit(g, ret, og, dir, depth+1) || x.compared(g, v, side, og, dir, depth+1))
		}
		if any && all {
			return true
		}
	}
	return false
}

func (x *rec) constant(v ssa.Value) constant.Value {
	for _, c := range x.t.cursors {
		return c.constOf(v)
	}
	if k, ok := v.(*ssa.Const); ok {
		return k.Value
	}
	return nil
}

// compared tells if a condition limits a number.
func (x *rec) compared(f *ssa.Function, cond ssa.Value, side bool, o origin, dir int64, depth int) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return x.compared(f, u.X, !side, o, dir, depth)
	}
	if call, i := callOf(cond); call != nil {
		return x.answered(f, call, i, side, o, dir, depth)
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, p := range []struct {
		x, y ssa.Value
		op   token.Token
	}{{cmp.X, cmp.Y, cmp.Op}, {cmp.Y, cmp.X, flip(cmp.Op)}} {
		op := p.op
		if !side {
			op = negated(op)
		}
		v := p.x
		if c, ok := v.(*ssa.Convert); ok && sizeOf(c.X.Type()) <= sizeOf(c.Type()) {
			v = c.X
		}
		y := p.y
		for {
			c, ok := y.(*ssa.Convert)
			if !ok || sizeOf(c.X.Type()) > sizeOf(c.Type()) {
				break
			}
			y = c.X
		}
		size := sizeOf(p.x.Type())
		var most *int64
		if k, ok := y.(*ssa.Const); ok && k.Value != nil {
			if n, exact := constant.Int64Val(constant.ToInt(k.Value)); exact {
				most = &n
			}
		}
		// a limit minus the number
		if d, ok := v.(*ssa.BinOp); ok && d.Op == token.SUB && most != nil && size == 64 {
			if k, ok := d.X.(*ssa.Const); ok && k.Value != nil {
				n := k.Int64() - *most
				most, v, op = &n, d.Y, flip(op)
			}
		}
		of, ok := x.origin(f, v, map[ssa.Value]bool{})
		if !ok || of.at != o.at || of.less || of.ref {
			continue
		}
		if dir > 0 {
			if most != nil {
				if *most > deepest {
					continue
				}
				switch op {
				case token.LSS:
					return true
				case token.LEQ:
					return size > 8 || *most < 255
				case token.NEQ:
					return dir == 1 && of.add == o.add && *most > 0
				}
				continue
			}
			fa := loadedField(y)
			if fa == nil || x.written[fieldName(fa)] {
				continue
			}
			small := sizeOf(y.Type()) <= 16
			switch op {
			case token.LSS:
				return small
			case token.LEQ:
				return small && size > sizeOf(y.Type())
			case token.NEQ:
				return small && size == sizeOf(y.Type()) && dir == 1 && of.add == o.add
			}
		}
		if dir < 0 && most != nil {
			switch op {
			case token.GTR:
				return *most >= 0
			case token.GEQ:
				return *most >= 1
			case token.NEQ:
				return *most == 0 && dir == -1
			}
		}
	}
	return false
}

func sizeOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	}
	return 64
}

// needs tells what booleans of a function must be for a call to be made.
func (x *rec) needs(f *ssa.Function, call ssa.Instruction) map[int]bool {
	out := map[int]bool{}
	b := call.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		cond, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if len(s.Preds) != 1 || !s.Dominates(b) {
				continue
			}
			v, side := cond.Cond, i == 0
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, side = u.X, !side
			}
			if o, ok := x.origin(f, v, map[ssa.Value]bool{}); ok && !o.less && x.boolean(f, o.at) {
				out[o.at] = side
			}
		}
	}
	return out
}

// args makes the relations of a call.
func (x *rec) args(f, g *ssa.Function, call ssa.Instruction, values []ssa.Value, first int, e *callEdge) {
	for j, v := range values {
		at := first + j
		if at >= x.positions(g) {
			break
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			e.sets[at] = constant.BoolVal(k.Value)
			continue
		}
		o, ok := x.origin(f, v, map[ssa.Value]bool{})
		if !ok || o.ref {
			continue
		}
		c := change{same: true, less: o.less, up: o.add > 0, down: o.add < 0}
		if o.add != 0 {
			c.limited = x.limit(f, call, o, o.add, 0)
		} else if !o.less && isNumber(v.Type()) {
			// it may be compared without being changed
			c.limited = x.limit(f, call, o, 2, 0) || x.limit(f, call, o, -2, 0)
		}
		e.rel[fromTo{o.at, at}] = c
	}
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// counted tells if a function is given a number that's counted.
func (x *rec) counted(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isNumber(p.Type()) {
			return true
		}
	}
	return false
}

// recursions decides that functions that call each other can't do so without end.
func (t *terms) recursions() {
	w := t.w
	x := &rec{t: t, in: map[*ssa.Function]bool{}, written: map[string]bool{}, self: map[*ssa.Function]bool{}, refs: map[ssa.Value]bool{}}
	set := map[*ssa.Function]bool{}
	for _, fn := range t.fns {
		set[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && !isNew(fa) {
						x.written[fieldName(fa)] = true
					}
				}
			}
		}
	}
	cg := w.callGraph()
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range t.fns {
		r := map[*ssa.Function]bool{}
		for _, c := range cg.callees[fn] {
			for f := range w.reachable(c) {
				r[f] = true
			}
		}
		reach[fn] = r
		if r[fn] {
			x.in[fn], x.self[fn] = true, true
		}
	}
	// what only depends on the schema is left out
	ofRequest := func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			n := namedIn(p.Type())
			for _, c := range t.cursors {
				if n != nil && hasPrefixDot(c.field, n) {
					return true
				}
			}
		}
		return false
	}
	for fn := range x.in {
		of := ofRequest(fn)
		for g := range reach[fn] {
			of = of || x.in[g] && reach[g][fn] && ofRequest(g)
		}
		if !of {
			delete(x.in, fn)
			t.r.Count("functions that call each other depending on the schema only", 1)
		}
	}
	t.r.Count("functions that call each other", len(x.in))
	together := func(f, g *ssa.Function) bool { return x.in[f] && x.in[g] && reach[f][g] && reach[g][f] }
	// what a function does with a function it's given
	type given struct {
		fn    *ssa.Function
		param int
	}
	uses := map[given][]*ssa.Call{}
	escapes := map[given]bool{}
	for _, fn := range t.fns {
		for i, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			for _, ref := range *p.Referrers() {
				if c, ok := ref.(*ssa.Call); ok && c.Call.Value == ssa.Value(p) {
					uses[given{fn, i}] = append(uses[given{fn, i}], c)
				} else if _, ok := ref.(*ssa.DebugRef); !ok {
					escapes[given{fn, i}] = true
				}
			}
		}
	}
	var edges []*callEdge
	var cur *cursor
	for _, c := range t.cursors {
		if strings.HasPrefix(c.field, w.Root.Pkg.Name()+".") {
			cur = c
		}
	}
	moved := map[ssa.Instruction]*movedBy{}
	calling := map[*ssa.Function]bool{}
	for fn := range x.in {
		calling[fn] = true
	}
	for g := range uses {
		calling[g.fn] = true
	}
	for fn := range calling {
		if cur == nil {
			break
		}
		cur.flow(fn, fn.Blocks[0], nil, func(m *movedBy, in ssa.Instruction) {
			if _, ok := in.(ssa.CallInstruction); ok {
				moved[in], _ = joinMovedBy(moved[in], m)
			}
		})
	}
	moves := func(e *callEdge, call ssa.Instruction) *callEdge {
		if m := moved[call]; m != nil && m.ok && m.min >= 0 {
			e.rel[fromTo{1000, 1000}] = change{same: true, less: m.min > 0}
		}
		return e
	}
	add := func(e *callEdge) { edges = append(edges, e) }
	fns := make([]*ssa.Function, 0, len(x.in))
	for _, fn := range t.fns {
		if x.in[fn] {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				common := call.Common()
				mk := func(g *ssa.Function) *callEdge {
					return &callEdge{from: fn, to: g, rel: map[fromTo]change{}, needs: x.needs(fn, in), sets: map[int]bool{}, pos: in.Pos(), via: fn.Name() + " calls " + g.Name()}
				}
				g := common.StaticCallee()
				if g != nil && together(fn, g) {
					e := mk(g)
					x.args(fn, g, in, common.Args, 0, e)
					if mc, ok := common.Value.(*ssa.MakeClosure); ok {
						x.args(fn, g, in, mc.Bindings, len(g.Params), e)
					}
					add(moves(e, in))
				}
				// functions that are given to others
				for i, a := range common.Args {
					mc, ok := a.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					c := mc.Fn.(*ssa.Function)
					if !together(fn, c) {
						continue
					}
					bindings := func(e *callEdge) { x.args(fn, c, in, mc.Bindings, len(c.Params), e) }
					if g != nil && w.InScope(g) && len(g.Blocks) > 0 {
						if escapes[given{g, i}] {
							e := mk(c)
							bindings(e)
							add(moves(e, in))
							continue
						}
						for _, u := range uses[given{g, i}] {
							first := mk(g)
							x.args(fn, g, in, common.Args, 0, first)
							moves(first, in)
							second := &callEdge{from: g, to: c, rel: map[fromTo]change{}, needs: x.needs(g, u), sets: map[int]bool{}, pos: u.Pos(), via: g.Name() + " calls " + c.Name()}
							x.args(g, c, u, u.Call.Args, 0, second)
							moves(second, u)
							e := compose(first, second, x.boolean)
							if e == nil {
								continue
							}
							bindings(e)
							add(e)
						}
						continue
					}
					// code of others: what it gives is a part of what it was given
					e := mk(c)
					bindings(e)
					if strings.Contains(calleeName(call), "fastjson.") && len(common.Args) > 0 {
						if o, ok := x.origin(fn, common.Args[0], map[ssa.Value]bool{}); ok && !o.ref && o.add == 0 {
							for j, p := range c.Params {
								if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr {
									e.rel[fromTo{o.at, j}] = change{same: true, less: true}
								}
							}
						}
					}
					add(moves(e, in))
				}
				// functions of variables, except of parameters: they're seen where they're given
				if g == nil && !common.IsInvoke() {
					if _, isParam := common.Value.(*ssa.Parameter); isParam {
						continue
					}
					if _, isBuiltin := common.Value.(*ssa.Builtin); isBuiltin {
						continue
					}
					for _, c := range fns {
						if c.Parent() != nil && types.Identical(c.Signature, common.Signature()) && together(fn, c) {
							e := mk(c)
							x.args(fn, c, in, common.Args, 0, e)
							add(moves(e, in))
						}
					}
				}
			}
		}
	}
	t.r.Count("calls between functions that call each other", len(edges))
	// all combinations
	all := map[string]*callEdge{}
	var list []*callEdge
	put := func(e *callEdge) {
		if k := e.key(); all[k] == nil {
			all[k] = e
			list = append(list, e)
		}
	}
	for _, e := range edges {
		debugf("edge %s rel %v needs %v sets %v", e.via, e.rel, e.needs, e.sets)
		put(e)
	}
	base := append([]*callEdge(nil), list...)
	const most = 60000
	for i := 0; i < len(list) && len(list) < most; i++ {
		for _, b := range base {
			if list[i].to == b.from {
				if c := compose(list[i], b, x.boolean); c != nil {
					put(c)
				}
			}
		}
	}
	t.r.Count("combinations of calls", len(list))
	if len(list) >= most {
		t.r.Obl(false)
		t.r.Bad(nil, token.NoPos, "undecided", "recursions", "there are too many combinations of calls")
		return
	}
	reported := map[*ssa.Function]bool{}
	for _, e := range list {
		if e.from != e.to {
			continue
		}
		twice := compose(e, e, x.boolean)
		if twice == nil || twice.key() != e.key() {
			continue
		}
		ok := false
		for p, c := range e.rel {
			if p.from == p.to && (c.less || c.limited && c.up != c.down) {
				ok = true
			}
		}
		what := "nothing bounds how deep this recursion gets"
		if ok {
			// what's found by name can be found again and again
			for i, p := range e.from.Params {
				n := namedIn(p.Type())
				if n == nil || !w.definition()[n] || n.Obj().Name() == "Schema" || !x.counted(e.from) {
					continue
				}
				if _, has := e.rel[fromTo{i, i}]; !has {
					ok = false
					for p, c := range e.rel {
						ok = ok || p.from == p.to && c.limited && c.up != c.down
					}
					what = "nothing counts how deep objects are nested"
				}
			}
		}
		if !t.r.Obl(ok) && !reported[e.from] {
			reported[e.from] = true
			t.r.Bad(e.from, e.pos, "recursion", e.from.Name(), "%s: %s", what, e.via)
		}
	}
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}
