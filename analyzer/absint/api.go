package absint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AppendThrough appends content to the slice ptr points at.
func (a *Activation) AppendThrough(st *State, in ssa.Instruction, ptr Val, c *Content) {
	p, ok := ptr.(VPtr)
	if !ok {
		return
	}
	o := st.objw(p.O)
	t := cellType(o.T, p.P)
	cur := o.Cells[p.P]
	if cur == nil && t != nil {
		cur = st.Load(p, t)
	}
	l := st.FreshLen()
	y := VSlice{S: st.FreshSym(Fact{Nil: 2}), Len: l, C: c}
	v := a.appendTo(st, in, cur, y)
	if a.E.H.Store != nil {
		a.E.H.Store(a, st, in, st.heap[p.O], p, v)
	}
	st.objw(p.O).Cells[p.P] = v
}

// ForgetCells forgets everything below a cell.
func (st *State) ForgetCells(p VPtr) {
	o := st.objw(p.O)
	for k := range o.Cells {
		if strings.HasPrefix(k, p.P) {
			delete(o.Cells, k)
		}
	}
}

// Cell returns the value of a cell of the object with the given name.
func (st *State) Cell(obj, path string) Val {
	for _, o := range st.heap {
		if o.Name == obj {
			return o.Cells[path]
		}
	}
	return nil
}

// Describe prints a value.
func Describe(v Val) string { return fmt.Sprintf("%+v", v) }

// Dump prints how many summaries and states there are (only for debugging).
func (e *Engine) Dump() {
	type c struct{ n, st, ex int }
	m := map[string]*c{}
	for _, s := range e.order {
		x := m[s.fn.String()]
		if x == nil {
			x = &c{}
			m[s.fn.String()] = x
		}
		x.n++
		for _, b := range s.blocks {
			x.st += len(b)
		}
		x.ex += len(s.exits)
	}
	for _, k := range sortedKeys(m) {
		fmt.Println(k, "sums", m[k].n, "states", m[k].st, "exits", m[k].ex)
	}
	fmt.Println("steps", e.Steps, "-----")
}

func (e *Engine) relevantCall(fn *ssa.Function, args, bindings []Val) bool {
	t, v := e.Relevant(fn)
	if t || v {
		return true
	}
	var touches func(v Val) bool
	touches = func(v Val) bool {
		switch v := v.(type) {
		case VFunc:
			if t, _ := e.Relevant(v.Fn); t {
				return true
			}
			for _, b := range v.B {
				if touches(b) {
					return true
				}
			}
		case VIface:
			return touches(v.V)
		}
		return false
	}
	for _, a := range args {
		if touches(a) {
			return true
		}
	}
	return false
}

// forgetUntracked forgets what a function that does not touch what is tracked can change.
func (st *State) forgetUntracked(args, bindings []Val) {
	seen := map[ObjID]bool{}
	var walk func(v Val)
	visit := func(id ObjID) {
		if seen[id] || id == ghostObj {
			return
		}
		seen[id] = true
		o := st.heap[id]
		if o == nil {
			return
		}
		for _, k := range sortedKeys(o.Cells) {
			walk(o.Cells[k])
		}
		w := st.objw(id)
		if !o.Zero {
			for k := range w.Cells {
				if !st.eng.keep(cellTag(o, k)) {
					delete(w.Cells, k)
				}
			}
			return
		}
		cells := map[string]Val{}
		if o.T != nil {
			st.eng.leaves(o.T, "", func(path string, t types.Type) {
				if !st.eng.keep(cellTag(o, path)) {
					return
				}
				if v, ok := o.Cells[path]; ok {
					cells[path] = v
				} else {
					cells[path] = st.Zero(t)
				}
			})
		}
		w.Cells = cells
		w.Zero = false
	}
	walk = func(v Val) {
		switch v := v.(type) {
		case VPtr:
			visit(v.O)
		case VSlice:
			if v.Base != 0 {
				visit(v.Base)
			}
		case VAgg:
			for _, k := range sortedKeys(v.Cells) {
				walk(v.Cells[k])
			}
		case VIface:
			walk(v.V)
		case VFunc:
			for _, b := range v.B {
				walk(b)
			}
		case VTuple:
			for _, b := range v.E {
				walk(b)
			}
		}
	}
	for _, a := range args {
		walk(a)
	}
	for _, a := range bindings {
		walk(a)
	}
	for id, o := range st.heap {
		if id != ghostObj && !o.Zero {
			visit(id)
		}
	}
}

// blur makes a result that's not tracked less precise.
func (st *State) blur(v Val) Val {
	switch v := v.(type) {
	case VPtr:
		o := st.heap[v.O]
		if v.O <= st.opins || o == nil || !o.Zero {
			return v
		}
		return VRef{S: st.FreshSym(Fact{Nil: 2})}
	case VAgg:
		r := VAgg{T: v.T, Tag: v.Tag, Cells: map[string]Val{}}
		return r
	case VIface:
		return VRef{S: st.FreshSym(Fact{Nil: 2})}
	case VRef:
		return VRef{S: st.FreshSym(Fact{Nil: st.NilState(v), Tag: st.Tag(v)})}
	case VSlice:
		if v.C == nil {
			return VSlice{S: st.FreshSym(Fact{Nil: st.NilState(v), Tag: st.Tag(v)}), Len: st.FreshLen()}
		}
	case VInt:
		if v.S != 0 && !st.eng.keep(st.facts[v.S].Tag) {
			return v
		}
	}
	return v
}

// carry brings a value of another state to this one.
func (st *State) carry(from *State, v Val) Val {
	switch v := v.(type) {
	case nil:
		return nil
	case VInt:
		if v.S == 0 {
			return v
		}
		f := from.facts[v.S]
		r := VInt{S: st.FreshSym(f), K: v.K}
		lo, hi := from.Range(VInt{S: v.S})
		if lo > -inf {
			st.assertLeq(VInt{K: lo}, VInt{S: r.S}, 0)
		}
		if hi < inf {
			st.assertLeq(VInt{S: r.S}, VInt{K: hi}, 0)
		}
		return r
	case VBool:
		if k, b := from.BoolOf(v); k {
			return VBool{Known: true, B: b}
		}
		return VBool{S: st.FreshSym(Fact{})}
	case VNil:
		return v
	case VRef:
		return VRef{S: st.FreshSym(from.facts[v.S])}
	case VPtr:
		return VRef{S: st.FreshSym(Fact{Nil: 2})}
	case VStr:
		return VStr{S: st.FreshSym(from.facts[v.S]), Len: st.carry(from, v.Len).(VInt), C: v.C}
	case VSlice:
		return VSlice{S: st.FreshSym(from.facts[v.S]), Len: st.carry(from, v.Len).(VInt), C: v.C}
	case VAgg:
		return VAgg{T: v.T, Tag: v.Tag, Cells: map[string]Val{}}
	case VTuple:
		r := VTuple{}
		for _, e := range v.E {
			r.E = append(r.E, st.carry(from, e))
		}
		return r
	}
	return VRef{S: st.FreshSym(Fact{Nil: 2})}
}

// Dump prints the memory of a state.
func (st *State) Dump() string {
	var sb strings.Builder
	for id := ObjID(1); id < 40; id++ {
		o := st.heap[id]
		if o == nil {
			continue
		}
		fmt.Fprintf(&sb, "%d %s %s zero=%v\n", id, o.Name, typeName(o.T), o.Zero)
		for _, k := range sortedKeys(o.Cells) {
			fmt.Fprintf(&sb, "   %s = %+v", k, o.Cells[k])
			if s, ok := o.Cells[k].(VSlice); ok {
				fmt.Fprintf(&sb, " %s", s.C)
			}
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// DumpEntries prints the entries of a function.
func (e *Engine) DumpEntries(name string) {
	for _, s := range e.order {
		if s.fn.Name() == name {
			fmt.Println("ENTRY", s.entrySk, "exits", len(s.exits))
		}
	}
}

// SetOf returns the possible values of a small integer.
func (st *State) SetOf(v Val) (Set, bool) {
	i, ok := v.(VInt)
	if !ok {
		return Set{}, false
	}
	return st.setOf(i)
}

// AssumeSet assumes that a small integer is one of a set, it tells if that's possible.
func (st *State) AssumeSet(v Val, s Set) bool {
	i, ok := v.(VInt)
	return !ok || st.assertLeq(VInt{K: 0}, i, 0) && st.assertLeq(i, VInt{K: 255}, 0) && st.restrict(i, s)
}

// CellTag names a cell.
func CellTag(o *Obj, path string) string { return cellTag(o, path) }

// SetSingle sets a cell of the only object of a type.
func (st *State) SetSingle(t types.Type, path string, v Val) {
	name := "single " + typeName(t)
	for id, o := range st.heap {
		if o.Name == name {
			st.objw(id).Cells[path] = v
			return
		}
	}
	id := st.newObj(&Obj{T: t, Name: name, Cells: map[string]Val{path: v}})
	_ = id
}

// Overrun tells if the analysis was cut short.
func (e *Engine) Overrun() bool { return e.StepLimit > 0 && e.Steps > e.StepLimit }

// FreshResult returns an unknown result of a call.
func (st *State) FreshResult(sig *types.Signature, tag string) Val { return st.freshResult(sig, tag) }

// Value returns the value of v.
func (a *Activation) Value(st *State, v ssa.Value) Val { return a.val(st, v) }

// Elements returns the elements of a slice of known length, or nil.
func (a *Activation) Elements(st *State, v Val) []Val {
	s, ok := v.(VSlice)
	if !ok || s.Base == 0 {
		return nil
	}
	n, ok := st.constOf(s.Len)
	if !ok || n > 16 {
		return nil
	}
	o := st.heap[s.Base]
	var out []Val
	for i := int64(0); i < n; i++ {
		e, ok := o.Cells[fmt.Sprintf("[%d]", i)]
		if !ok {
			return nil
		}
		out = append(out, e)
	}
	return out
}

// SetTag says where a value comes from.
func (st *State) SetTag(v Val, tag string) {
	set := func(s Sym) {
		if s != 0 {
			f := st.facts[s]
			f.Tag = tag
			st.setFact(s, f)
		}
	}
	switch v := v.(type) {
	case VInt:
		set(v.S)
	case VBool:
		set(v.S)
	case VRef:
		set(v.S)
	case VStr:
		set(v.S)
	case VSlice:
		set(v.S)
	case VTuple:
		for _, e := range v.E {
			st.SetTag(e, tag)
		}
	}
}

// SingleCells returns the cells of the only object of a type, if there is one.
func (st *State) SingleCells(t types.Type) (map[string]Val, bool) {
	for _, o := range st.heap {
		if o.Name == "single "+typeName(t) {
			return o.Cells, true
		}
	}
	return nil, false
}

// EntryCell returns a cell of the only object of a type as it is when the function starts.
func (a *Activation) EntryCell(t types.Type, path string) Val {
	cells, ok := a.Sum.entry.SingleCells(t)
	if !ok {
		return nil
	}
	return cells[path]
}

// CellTagOf names the cell a pointer points at.
func (st *State) CellTagOf(p VPtr) string {
	o := st.heap[p.O]
	if o == nil {
		return ""
	}
	return cellTag(o, p.P)
}

// Clone copies a state.
func (st *State) Clone() *State { return st.clone() }

// AssumeRange assumes lo <= v <= hi, it tells if that's possible.
func (st *State) AssumeRange(v VInt, lo, hi int64) bool {
	if lo > -inf && !st.assertLeq(VInt{K: lo}, v, 0) {
		return false
	}
	if hi < inf && !st.assertLeq(v, VInt{K: hi}, 0) {
		return false
	}
	return st.trim(v)
}

// AssumeNil assumes that a value is nil, or that it isn't.
func (st *State) AssumeNil(v Val, isNil bool) bool { return st.assumeNil(v, isNil) }

// ConstOf returns the only value an integer can have.
func (st *State) ConstOf(v Val) (int64, bool) {
	i, ok := v.(VInt)
	if !ok {
		return 0, false
	}
	return st.constOf(i)
}

// SameInt tells if two integers are equal.
func (st *State) SameInt(x, y Val) bool {
	a, ok := x.(VInt)
	b, ok2 := y.(VInt)
	return ok && ok2 && st.Upper(a, b) <= 0 && st.Upper(b, a) <= 0
}

// Inf is more than every number that's tracked.
const Inf = inf

// Leaves calls f for every field of the object p points at. v is nil if it's unknown.
func (st *State) Leaves(p VPtr, f func(path, tag string, t types.Type, v Val)) (known bool) {
	o := st.heap[p.O]
	if o == nil || o.T == nil || p.P != "" {
		return false
	}
	st.eng.leaves(o.T, "", func(path string, t types.Type) {
		v, ok := o.Cells[path]
		if !ok && o.Zero {
			v = VNil{}
		}
		f(path, cellTag(o, path), t, v)
	})
	return !o.Sym
}

// NewObj tells if p points at an object made by the analysed code.
func (st *State) NewObj(p VPtr) bool {
	o := st.heap[p.O]
	return o != nil && !o.Sym
}

// NewArray tells if v is a slice of an array made by the analysed code.
func (st *State) NewArray(v Val) bool {
	s, ok := v.(VSlice)
	if !ok || s.Base == 0 {
		return false
	}
	o := st.heap[s.Base]
	return o != nil && !o.Sym
}

// Unwrap returns what's in an interface.
func Unwrap(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.V
	}
	return v
}

// EntryGhost returns a cell of a monitor as it is when the function starts.
func (a *Activation) EntryGhost(name string) Val { return a.Sum.entry.Ghost(name) }

// SetValue sets the value of an instruction.
func (st *State) SetValue(v ssa.Value, x Val) { st.env[v] = x }

// sum is x+y.
func (st *State) sum(x, y VInt) VInt {
	if c, ok := st.constOf(x); ok {
		return VInt{y.S, y.K + c}
	}
	if c, ok := st.constOf(y); ok {
		return VInt{x.S, x.K + c}
	}
	return st.sumFresh(types.Typ[types.Int], x, y, 1)
}

// Plus is x plus a constant.
func Plus(x Val, c int64) Val {
	i, ok := x.(VInt)
	if !ok {
		return nil
	}
	return VInt{i.S, i.K + c}
}

// Sum is x+y.
func (st *State) Sum(x, y VInt) VInt { return st.sum(x, y) }

// PointTo makes a pointer of which nothing is known point at something.
func (st *State) PointTo(v Val, elem types.Type) VPtr {
	p, _ := (&Activation{E: st.eng}).deref(st, v, elem, nil)
	return p
}

// AssumeSame assumes that x == y, it tells if that's possible.
func (st *State) AssumeSame(x, y VInt) bool {
	return st.assertLeq(x, y, 0) && st.assertLeq(y, x, 0)
}

// AssumeLess assumes that x < y, it tells if that's possible.
func (st *State) AssumeLess(x, y VInt) bool { return st.assertLeq(x, y, -1) }

// ZoneString prints the zone.
func (st *State) ZoneString() string { return fmt.Sprint(st.facts) + st.z.String() }

// Invoke calls a closure.
func (a *Activation) Invoke(st *State, f VFunc, args []Val, in ssa.CallInstruction) []Ret {
	if !a.E.analysed(f.Fn) {
		return []Ret{{St: st, V: st.freshResult(f.Fn.Signature, "")}}
	}
	return a.call(st, f.Fn, args, f.B, in)
}
