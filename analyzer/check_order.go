package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Effect analysis of all loops over maps (range, reflect.MapIter, reflect.Value.MapKeys), which Go goes over in another order every time: a list that's filled in one has to be sorted as a whole, "+
		"by a comparison of both elements, on every path from the loop to where the list is used or left behind; entries that a key has several of need more than one criterion. "+
		"No error is recorded and nothing is written to the response within such a loop of a request.", runOrder)
}

type ordered struct {
	r   *Report
	w   *World
	say func(fn *ssa.Function) bool // writes to the response or records an error

	sites map[*ssa.Function][]ssa.CallInstruction
	depth int
}

// slot is what holds a list: a variable, a field or a value.
type slot struct {
	alloc ssa.Value
	field string
}

func runOrder(r *Report) {
	w := r.W
	x := &ordered{r: r, w: w, sites: w.callSites()}
	x.say = w.reaching(func(fn *ssa.Function) bool {
		return storesField(fn, errorsField) || mentionsField(fn, map[string]bool{"yarql.Schema.Result": true})
	})
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestFuncs() {
		request[fn] = true
	}
	for _, fn := range w.functions() {
		for h, body := range loopsOf(fn) {
			if !overMap(h) {
				continue
			}
			r.Count("loops over maps", 1)
			r.Sample("%s: loop over a map in %s", w.Pos(loopPos(h)), fn.Name())
			for s, at := range x.filled(h, body) {
				x.decide(fn, h, body, s, at)
			}
			if !request[fn] {
				continue
			}
			for b := range body {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := c.Call.StaticCallee()
					if g == nil || !w.InScope(g) {
						continue
					}
					if !r.Obl(!x.say(g)) {
						r.Bad(fn, c.Pos(), "order", g.Name(), "the response is written in the order of a map")
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(c), "reflect.Value).MapKeys") {
					continue
				}
				r.Count("loops over maps", 1)
				if x.left(fn, b, i+1, slot{alloc: c}, map[*ssa.BasicBlock]bool{}, nil) {
					r.Obl(false)
					r.Bad(fn, c.Pos(), "order", "MapKeys", "the keys of a map are used in the order of the map")
				}
			}
		}
	}
	r.Need("loops over maps", r.Counts["loops over maps"], 3)
	r.Assume = append(r.Assume, "the names of the types of a schema, and of the fields, arguments and values of one, are unique (they are keys of maps)")
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, p := range h.Preds {
		for _, in := range p.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				return r.Pos()
			}
		}
	}
	return token.NoPos
}

// overMap tells if a loop takes the entries of a map.
func overMap(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Next:
			return !in.IsString
		case *ssa.Call:
			if strings.HasSuffix(calleeName(in), "reflect.MapIter).Next") {
				return true
			}
		}
	}
	return false
}

// filled returns the lists from outside of the loop that get elements within it, and if that's in a loop within it.
func (x *ordered) filled(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) map[slot]bool {
	out := map[slot]bool{}
	add := func(v ssa.Value, b *ssa.BasicBlock) {
		for s := range x.slots(v, h, body, map[ssa.Value]bool{}) {
			out[s] = out[s] || inner(b, h, body)
		}
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia := elementOf(in.Addr); ia != nil {
					if _, isConst := ia.Index.(*ssa.Const); !isConst {
						add(ia.X, b)
					}
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					add(in.Call.Args[0], b)
				}
			}
		}
	}
	return out
}

// elementOf returns the element of a list an address is (a part of).
func elementOf(v ssa.Value) *ssa.IndexAddr {
	for {
		switch a := v.(type) {
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Slice); !ok {
				return nil
			}
			return a
		case *ssa.FieldAddr:
			v = a.X
		default:
			return nil
		}
	}
}

// inner tells if a block is in a loop within the loop.
func inner(b, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for h2, body2 := range loopsOf(b.Parent()) {
		if h2 != h && body[h2] && body2[b] {
			return true
		}
	}
	return false
}

// slots returns what holds a list, if it's not made within the loop.
func (x *ordered) slots(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) map[slot]bool {
	out := map[slot]bool{}
	if seen[v] {
		return out
	}
	seen[v] = true
	merge := func(v ssa.Value) {
		for s := range x.slots(v, h, body, seen) {
			out[s] = true
		}
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == h {
			out[slot{alloc: v}] = true
			return out
		}
		if !body[v.Block()] {
			out[slot{alloc: v}] = true
			return out
		}
		for _, e := range v.Edges {
			merge(e)
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			merge(v.Call.Args[0])
		} else if !body[v.Block()] {
			out[slot{alloc: v}] = true
		}
	case *ssa.Slice:
		merge(v.X)
	case *ssa.MakeSlice:
		if !body[v.Block()] {
			out[slot{alloc: v}] = true
		}
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.Alloc:
			if !body[a.Block()] {
				out[slot{alloc: a}] = true
			}
		case *ssa.FreeVar:
			out[slot{alloc: a}] = true
		case *ssa.Global:
			out[slot{alloc: a}] = true
		case *ssa.FieldAddr:
			if base, ok := a.X.(*ssa.Alloc); ok && body[base.Block()] {
				return out
			}
			if x.ofEntry(a.X, h, body, map[ssa.Value]bool{}) {
				return out // a list of the entry
			}
			out[slot{field: fieldName(a)}] = true
		}
	case *ssa.Parameter:
		out[slot{alloc: v}] = true
	}
	return out
}

// ofEntry tells if a value is, or is of, the entry a turn of the loop is about.
func (x *ordered) ofEntry(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !body[in.Block()] {
		return false
	}
	switch v := v.(type) {
	case *ssa.Next, *ssa.Lookup:
		return true
	case *ssa.Call:
		return true
	case *ssa.Extract:
		return x.ofEntry(v.Tuple, h, body, seen)
	case *ssa.UnOp:
		return x.ofEntry(v.X, h, body, seen)
	case *ssa.FieldAddr:
		return x.ofEntry(v.X, h, body, seen)
	case *ssa.IndexAddr:
		return x.ofEntry(v.X, h, body, seen)
	case *ssa.Alloc:
		return true
	}
	return false
}

func (x *ordered) decide(fn *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s slot, several bool) {
	x.r.Count("lists filled from maps", 1)
	var sorts []*ssa.Call
	bad := false
	for b := range body {
		for _, next := range b.Succs {
			if !body[next] && x.left(fn, next, 0, s, map[*ssa.BasicBlock]bool{}, &sorts) {
				bad = true
			}
		}
	}
	name := s.field
	if name == "" {
		name = s.alloc.Name()
		if a, ok := s.alloc.(*ssa.Alloc); ok && a.Comment != "" {
			name = a.Comment
		}
	}
	if !x.r.Obl(!bad) {
		x.r.Bad(fn, loopPos(h), "order", "list "+name, "%s is filled in the order of a map and isn't sorted on every path to where it's used", name)
		return
	}
	for _, c := range sorts {
		n, ok := x.criteria(c)
		if !x.r.Obl(ok) {
			x.r.Bad(fn, c.Pos(), "criterion", "list "+name, "the elements of %s aren't compared with each other", name)
		} else if !x.r.Obl(n > 1 || !several) {
			x.r.Bad(fn, c.Pos(), "ties", "list "+name, "a key of the map can have several elements of %s, what's equal stays in the order of the map", name)
		}
	}
}

// holds tells if a value is the list in a slot.
func (s slot) holds(v ssa.Value) bool {
	if s.alloc != nil && v == s.alloc {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	if s.alloc != nil && u.X == s.alloc {
		return true
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && s.field != "" && fieldName(fa) == s.field
}

// left follows all paths, it tells if a list is used, or left behind, without being sorted.
func (x *ordered) left(fn *ssa.Function, b *ssa.BasicBlock, at int, s slot, seen map[*ssa.BasicBlock]bool, sorts *[]*ssa.Call) bool {
	if at == 0 {
		if seen[b] {
			return false
		}
		seen[b] = true
	}
	for _, in := range b.Instrs[at:] {
		if c, ok := in.(*ssa.Call); ok && x.isSort(c, s) {
			if sorts != nil {
				has := false
				for _, o := range *sorts {
					has = has || o == c
				}
				if !has {
					*sorts = append(*sorts, c)
				}
			}
			return false
		}
		if st, ok := in.(*ssa.Store); ok && s.holds(st.Val) {
			// from here on it's there
			switch a := st.Addr.(type) {
			case *ssa.Alloc:
				s = slot{alloc: a}
				continue
			case *ssa.FieldAddr:
				if s.field == "" {
					s = slot{field: fieldName(a)}
					continue
				}
			}
		}
		if ret, ok := in.(*ssa.Return); ok {
			for i, v := range ret.Results {
				if s.holds(v) {
					return x.returned(fn, i, sorts)
				}
			}
		}
		if x.uses(in, s) {
			return true
		}
		if _, ok := in.(*ssa.Return); ok {
			_, param := s.alloc.(*ssa.Parameter)
			_, free := s.alloc.(*ssa.FreeVar)
			_, global := s.alloc.(*ssa.Global)
			return s.field != "" || param || free || global
		}
	}
	for _, next := range b.Succs {
		t := s
		for _, in := range next.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range next.Preds {
				if p == b && s.alloc != nil && phi.Edges[i] == s.alloc {
					t = slot{alloc: phi}
				}
			}
		}
		if t != s {
			if x.left(fn, next, 0, t, map[*ssa.BasicBlock]bool{}, sorts) {
				return true
			}
			continue
		}
		if x.left(fn, next, 0, s, seen, sorts) {
			return true
		}
	}
	return false
}

// returned tells if a caller uses a list that's returned to it without sorting it.
func (x *ordered) returned(fn *ssa.Function, at int, sorts *[]*ssa.Call) bool {
	calls := x.sites[fn]
	if len(calls) == 0 || x.depth > 2 || fn.Object() != nil && fn.Object().Exported() {
		return true
	}
	x.depth++
	defer func() { x.depth-- }()
	for _, c := range calls {
		call, ok := c.(*ssa.Call)
		if !ok {
			return true
		}
		var v ssa.Value = call
		var in ssa.Instruction = call
		if fn.Signature.Results().Len() > 1 {
			v = nil
			for _, ref := range *call.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index == at {
					v, in = e, e
				}
			}
			if v == nil {
				continue
			}
		}
		for i, o := range in.Block().Instrs {
			if o == in && x.left(call.Parent(), in.Block(), i+1, slot{alloc: v}, map[*ssa.BasicBlock]bool{}, sorts) {
				return true
			}
		}
	}
	return false
}

// uses tells if an instruction uses the elements of a list in their order.
func (x *ordered) uses(in ssa.Instruction, s slot) bool {
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return false
	case *ssa.Call:
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap":
				return false
			case "append":
				// more elements, or the elements in another list
				if s.holds(in.Call.Args[0]) {
					return false
				}
			}
		}
	case *ssa.MakeInterface:
		if s.holds(in.X) {
			for _, ref := range *in.Referrers() {
				if c, ok := ref.(*ssa.Call); !ok || !sortName(calleeName(c)) {
					return true
				}
			}
		}
		return false
	case *ssa.ChangeType:
		if s.holds(in.X) {
			for _, ref := range *in.Referrers() {
				if _, ok := ref.(*ssa.MakeInterface); !ok {
					return true
				}
			}
		}
		return false
	case *ssa.MakeClosure:
		for _, bind := range in.Bindings {
			if bind != s.alloc || bind == nil {
				continue
			}
			for _, ref := range *in.Referrers() {
				if c, ok := ref.(*ssa.Call); !ok || !sortName(calleeName(c)) {
					return true
				}
			}
		}
		return false
	case *ssa.IndexAddr:
		if !s.holds(in.X) {
			return false
		}
		for _, ref := range *in.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(in) {
				continue
			}
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			return true
		}
		return false
	case *ssa.Store:
		return s.holds(in.Val) && !(s.alloc != nil && in.Addr == s.alloc)
	case *ssa.UnOp, *ssa.FieldAddr:
		return false
	case *ssa.BinOp:
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && s.holds(*op) {
			return true
		}
	}
	return false
}

func sortName(n string) bool {
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")
}

// isSort tells if a call sorts all of a list.
func (x *ordered) isSort(c *ssa.Call, s slot) bool {
	given := func(v ssa.Value) bool {
		for {
			switch w := v.(type) {
			case *ssa.MakeInterface:
				v = w.X
			case *ssa.ChangeType:
				v = w.X
			case *ssa.Slice:
				if w.Low != nil || w.High != nil {
					return false
				}
				v = w.X
			default:
				return s.holds(v)
			}
		}
	}
	if sortName(calleeName(c)) {
		return len(c.Call.Args) > 0 && given(c.Call.Args[0])
	}
	g := c.Call.StaticCallee()
	if g == nil || !x.w.InScope(g) || len(g.Blocks) == 0 {
		return false
	}
	for i, a := range c.Call.Args {
		if !given(a) || i >= len(g.Params) {
			continue
		}
		if x.sortsParam(g, g.Params[i]) {
			return true
		}
	}
	return false
}

// sortsParam tells if a function sorts what it's given before anything else.
func (x *ordered) sortsParam(g *ssa.Function, p *ssa.Parameter) bool {
	s := slot{alloc: p}
	for _, ref := range *p.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Val == ssa.Value(p) {
			if a, ok := st.Addr.(*ssa.Alloc); ok {
				s = slot{alloc: a}
			}
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && x.isSort(c, s) && (b == g.Blocks[0] || !x.left(g, g.Blocks[0], 0, slot{alloc: p}, map[*ssa.BasicBlock]bool{}, nil)) {
				return true
			}
		}
	}
	return false
}

// criteria returns by how many things a call sorts.
func (x *ordered) criteria(c *ssa.Call) (int, bool) {
	n := calleeName(c)
	if n != "sort.Slice" && n != "sort.SliceStable" && !strings.HasPrefix(n, "slices.SortFunc") && !strings.HasPrefix(n, "slices.SortStableFunc") {
		return 2, true // by their value, or by methods
	}
	var less *ssa.Function
	switch f := c.Call.Args[len(c.Call.Args)-1].(type) {
	case *ssa.MakeClosure:
		less = f.Fn.(*ssa.Function)
	case *ssa.Function:
		less = f
	}
	if less == nil || len(less.Params) < 2 {
		return 2, true
	}
	p, q := less.Params[len(less.Params)-2], less.Params[len(less.Params)-1]
	paths := map[string]bool{}
	crossed, ordering, texts := false, false, false
	for _, b := range less.Blocks {
		for _, in := range b.Instrs {
			var l, r ssa.Value
			switch in := in.(type) {
			case *ssa.BinOp:
				l, r = in.X, in.Y
				switch in.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					ordering = true
				case token.EQL, token.NEQ:
				default:
					continue
				}
			case *ssa.Call:
				if len(in.Call.Args) < 2 {
					continue
				}
				l, r = in.Call.Args[len(in.Call.Args)-2], in.Call.Args[len(in.Call.Args)-1]
				ordering = true
				if g := in.Call.StaticCallee(); g != nil && x.w.InScope(g) && from(l, p, q)|from(r, p, q) == 3 {
					texts = true
					paths["call"], paths["more"] = true, true
				}
			default:
				continue
			}
			lp, rp := from(l, p, q), from(r, p, q)
			if lp == 0 || rp == 0 || lp == rp || lp == 3 || rp == 3 {
				continue
			}
			crossed = true
			texts = texts || isText(l.Type()) || isText(r.Type())
			if path := pathOf(l); path == pathOf(r) {
				paths[path] = true
			}
		}
	}
	return len(paths), crossed && ordering && texts // numbers and kinds don't tell entries apart
}

// from tells of which of two parameters a value is made.
func from(v ssa.Value, p, q *ssa.Parameter) int {
	out, seen := 0, map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v {
		case ssa.Value(p):
			out |= 1
		case ssa.Value(q):
			out |= 2
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				visit(*op)
			}
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
					visit(st.Val)
				}
			}
		}
	}
	visit(v)
	return out
}

// pathOf describes which part of an element a value is.
func pathOf(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		return pathOf(v.X) + "*"
	case *ssa.FieldAddr:
		return pathOf(v.X) + "." + fieldName(v)
	case *ssa.Field:
		return pathOf(v.X) + ".f"
	case *ssa.IndexAddr:
		if c, ok := v.Index.(*ssa.Const); ok {
			return pathOf(v.X) + "[" + c.String() + "]"
		}
		return "[]"
	case *ssa.Call:
		return "call " + calleeName(v)
	case *ssa.Alloc:
		for _, ref := range *v.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
				return pathOf(st.Val)
			}
		}
	}
	return ""
}
