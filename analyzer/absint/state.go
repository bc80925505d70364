package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Object 1 holds the cells of the monitors.
const ghostObj ObjID = 1

// State is an abstract state.
type State struct {
	eng   *Engine
	env   map[ssa.Value]Val
	heap  map[ObjID]*Obj
	owned map[ObjID]bool // objects this state may write in place
	z     *Zone
	zOwn  bool
	facts map[Sym]Fact
	fOwn  bool
	attrs map[Sym]map[string]Val // results of pure functions of a symbol
	aOwn  bool
	pins  int // symbols 1..pins are those of the entry of the function
	opins ObjID
	// the lengths of the pinned cells at the entry of the function
	pinLens []VInt

	nextSym Sym
	nextObj ObjID

	// Dead is set by a hook to give up on a path, after it reported what's wrong with it
	Dead bool
}

func (e *Engine) newState() *State {
	st := &State{
		eng: e, env: map[ssa.Value]Val{}, heap: map[ObjID]*Obj{}, owned: map[ObjID]bool{},
		z: NewZone(), zOwn: true, facts: map[Sym]Fact{}, fOwn: true, attrs: map[Sym]map[string]Val{}, aOwn: true,
		nextSym: 1, nextObj: 2,
	}
	st.heap[ghostObj] = &Obj{Name: "ghost", Cells: map[string]Val{}}
	return st
}

func (st *State) clone() *State {
	n := *st
	n.env = make(map[ssa.Value]Val, len(st.env))
	for k, v := range st.env {
		n.env[k] = v
	}
	n.heap = make(map[ObjID]*Obj, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	st.owned, n.owned = map[ObjID]bool{}, map[ObjID]bool{}
	st.zOwn, n.zOwn = false, false
	st.fOwn, n.fOwn = false, false
	st.aOwn, n.aOwn = false, false
	return &n
}

func (st *State) zw() *Zone {
	if !st.zOwn {
		st.z = st.z.Clone()
		st.zOwn = true
	}
	return st.z
}

func (st *State) setFact(s Sym, f Fact) {
	if !st.fOwn {
		n := make(map[Sym]Fact, len(st.facts)+1)
		for k, v := range st.facts {
			n[k] = v
		}
		st.facts = n
		st.fOwn = true
	}
	st.facts[s] = f
}

// SetAttr remembers the result of a pure function of s.
func (st *State) SetAttr(s Sym, name string, v Val) {
	if !st.aOwn {
		n := make(map[Sym]map[string]Val, len(st.attrs)+1)
		for k, v := range st.attrs {
			n[k] = v
		}
		st.attrs = n
		st.aOwn = true
	}
	m := make(map[string]Val, len(st.attrs[s])+1)
	for k, v := range st.attrs[s] {
		m[k] = v
	}
	m[name] = v
	st.attrs[s] = m
}

// Attr returns an earlier result.
func (st *State) Attr(s Sym, name string) (Val, bool) {
	v, ok := st.attrs[s][name]
	return v, ok
}

func (st *State) sym() Sym {
	if st.nextSym < symBase {
		st.nextSym = symBase
	}
	st.nextSym++
	return st.nextSym
}

func (st *State) newObj(o *Obj) ObjID {
	if st.nextObj < objBase {
		st.nextObj = objBase
	}
	st.nextObj++
	if o.Cells == nil {
		o.Cells = map[string]Val{}
	}
	st.heap[st.nextObj] = o
	st.owned[st.nextObj] = true
	return st.nextObj
}

func (st *State) objw(id ObjID) *Obj {
	o := st.heap[id]
	if o == nil {
		o = &Obj{Cells: map[string]Val{}}
		st.heap[id] = o
		st.owned[id] = true
		return o
	}
	if !st.owned[id] {
		o = o.clone()
		st.heap[id] = o
		st.owned[id] = true
	}
	return o
}

// Ghost reads the cell of a monitor.
func (st *State) Ghost(name string) Val { return st.heap[ghostObj].Cells[name] }

// SetGhost writes the cell of a monitor.
func (st *State) SetGhost(name string, v Val) {
	o := st.objw(ghostObj)
	if v == nil {
		delete(o.Cells, name)
	} else {
		o.Cells[name] = v
	}
}

// GhostBool reads a boolean cell of a monitor, unset is false.
func (st *State) GhostBool(name string) bool {
	b, ok := st.Ghost(name).(VBool)
	return ok && b.Known && b.B
}

// SetGhostBool writes a boolean cell of a monitor.
func (st *State) SetGhostBool(name string, b bool) {
	if !b {
		st.SetGhost(name, nil)
		return
	}
	st.SetGhost(name, VBool{Known: true, B: true})
}

// Fact returns the facts of a symbol.
func (st *State) Fact(s Sym) Fact { return st.facts[s] }

// Tag returns where a value comes from.
func (st *State) Tag(v Val) string {
	switch v := v.(type) {
	case VInt:
		if v.S != 0 && v.K == 0 {
			return st.facts[v.S].Tag
		}
	case VBool:
		return st.facts[v.S].Tag
	case VRef:
		return st.facts[v.S].Tag
	case VStr:
		return st.facts[v.S].Tag
	case VSlice:
		return st.facts[v.S].Tag
	case VAgg:
		return v.Tag
	case VIface:
		return st.Tag(v.V)
	}
	return ""
}

const maxTag = 120

func clipTag(t string) string {
	if len(t) > maxTag {
		return t[:maxTag]
	}
	return t
}

// ---- integers ----

// Upper returns the best upper bound of a - b.
func (st *State) Upper(a, b VInt) int64 {
	return satAdd(st.z.Bound(a.S, b.S), a.K-b.K)
}

// Leq tells if a <= b + c is certain.
func (st *State) Leq(a, b VInt, c int64) bool { return st.Upper(a, b) <= c }

// Range returns the bounds of v.
func (st *State) Range(v VInt) (lo, hi int64) {
	hi = st.Upper(v, VInt{})
	lo = -st.Upper(VInt{}, v)
	return
}

// assertLeq assumes a <= b + c.
func (st *State) assertLeq(a, b VInt, c int64) bool {
	return st.zw().Assert(a.S, b.S, satAdd(c, b.K-a.K))
}

func isConst(v VInt) bool { return v.S == 0 }

// constOf returns the value of v if it can only be one.
func (st *State) constOf(v VInt) (int64, bool) {
	if v.S == 0 {
		return v.K, true
	}
	lo, hi := st.Range(v)
	if lo == hi {
		return lo, true
	}
	return 0, false
}

// setOf returns the possible values of an integer as a set.
func (st *State) setOf(v VInt) (Set, bool) {
	if v.S == 0 {
		if v.K >= 0 && v.K < 256 {
			var s Set
			s.Add(int(v.K))
			return s, true
		}
		return Set{}, false
	}
	lo, hi := st.Range(v)
	f := st.facts[v.S]
	if f.HasS {
		s := f.Set
		if v.K != 0 {
			var n Set
			for i := 0; i < 256; i++ {
				if s.Has(i) {
					j := int64(i) + v.K
					if j < 0 || j > 255 {
						return Set{}, false
					}
					n.Add(int(j))
				}
			}
			s = n
		}
		if lo < 0 {
			lo = 0
		}
		return s.And(RangeSet(lo, hi)), true
	}
	if lo >= 0 && hi <= 255 {
		return RangeSet(lo, hi), true
	}
	return Set{}, false
}

// restrict assumes that v is in s, it returns false if it cannot be.
func (st *State) restrict(v VInt, s Set) bool {
	old, ok := st.setOf(v)
	if !ok {
		// values outside of 0..255 are possible: only usable as a bound when s is all there is
		return true
	}
	n := old.And(s)
	if n.Empty() {
		return false
	}
	if v.S == 0 {
		return true
	}
	if n == old {
		return true
	}
	f := st.facts[v.S]
	if v.K == 0 {
		f.HasS = true
		f.Set = n
		st.setFact(v.S, f)
	}
	if !st.assertLeq(v, VInt{K: int64(n.Max())}, 0) || !st.assertLeq(VInt{K: int64(n.Min())}, v, 0) {
		return false
	}
	// other names of the same number
	if v.K == 0 {
		for _, o := range st.z.syms {
			if o == 0 || o == v.S {
				continue
			}
			if st.z.Bound(o, v.S) == 0 && st.z.Bound(v.S, o) == 0 {
				of := st.facts[o]
				if of.HasS {
					m := of.Set.And(n)
					if m.Empty() {
						return false
					}
					if m != of.Set {
						of.Set = m
						st.setFact(o, of)
					}
				}
			}
		}
	}
	return true
}

// ---- fresh values ----

func intRange(t *types.Basic) (lo, hi int64, small bool) {
	switch t.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Int8:
		return -128, 127, false
	case types.Int16:
		return -32768, 32767, false
	case types.Uint16:
		return 0, 65535, false
	case types.Int32:
		return -1 << 31, 1<<31 - 1, false
	case types.Uint32:
		return 0, 1<<32 - 1, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf, false
	}
	return -inf, inf, false
}

// FreshInt returns an unknown integer.
func (st *State) FreshInt(t types.Type, tag string) VInt {
	s := st.sym()
	b, _ := t.Underlying().(*types.Basic)
	f := Fact{Tag: clipTag(tag), T: t}
	if b != nil {
		lo, hi, small := intRange(b)
		z := st.zw()
		z.add(s)
		if hi < inf {
			z.Assert(s, 0, hi)
		}
		if lo > -inf {
			z.Assert(0, s, -lo)
		}
		if small {
			f.HasS, f.Set = true, FullSet
		}
	}
	if n, ok := t.(*types.Named); ok {
		if set, ok := st.eng.enumSet(n); ok {
			f.HasS, f.Set, f.Disc = true, set, true
			z := st.zw()
			z.Assert(s, 0, int64(set.Max()))
			z.Assert(0, s, -int64(set.Min()))
		}
	}
	if st.eng.FieldSet != nil {
		if set, ok := st.eng.FieldSet(f.Tag); ok {
			if f.HasS {
				set = set.And(f.Set)
			}
			f.HasS, f.Set = true, set
			z := st.zw()
			z.Assert(s, 0, int64(set.Max()))
			z.Assert(0, s, -int64(set.Min()))
		}
	}
	st.setFact(s, f)
	return VInt{S: s}
}

// FreshLen returns an unknown length.
func (st *State) FreshLen() VInt {
	s := st.sym()
	st.zw().add(s)
	st.z.Assert(0, s, 0)
	return VInt{S: s}
}

// FreshSym returns a new symbol with a fact.
func (st *State) FreshSym(f Fact) Sym {
	s := st.sym()
	f.Tag = clipTag(f.Tag)
	st.setFact(s, f)
	return s
}

// Fresh returns an unknown value of a type.
func (st *State) Fresh(t types.Type, tag string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return st.FreshInt(t, tag)
		case u.Info()&types.IsBoolean != 0:
			if st.eng.FieldBool != nil {
				if b, ok := st.eng.FieldBool(tag); ok {
					return VBool{Known: true, B: b}
				}
			}
			return VBool{S: st.FreshSym(Fact{Tag: tag, T: t})}
		case u.Info()&types.IsString != 0:
			return VStr{S: st.FreshSym(Fact{Tag: tag, T: t}), Len: st.FreshLen(), C: st.eng.contentFor(tag)}
		case u.Kind() == types.UntypedNil:
			return VNil{}
		}
		return VRef{S: st.FreshSym(Fact{Tag: tag, T: t})}
	case *types.Slice:
		return VSlice{S: st.FreshSym(Fact{Tag: tag, T: t}), Len: st.FreshLen(), C: st.eng.contentFor(tag)}
	case *types.Struct:
		if st.eng.isAtom(t) {
			return VRef{S: st.FreshSym(Fact{Tag: tag, T: t, Nil: 2})}
		}
		return VAgg{T: t, Tag: clipTag(tag)}
	case *types.Array:
		return VAgg{T: t, Tag: clipTag(tag)}
	case *types.Tuple:
		if u.Len() == 0 {
			return VTuple{}
		}
		vt := VTuple{}
		for i := 0; i < u.Len(); i++ {
			vt.E = append(vt.E, st.Fresh(u.At(i).Type(), tag+"#"+strconv.Itoa(i)))
		}
		return vt
	}
	return VRef{S: st.FreshSym(Fact{Tag: tag, T: t})}
}

// Zero returns the zero value of a type.
func (st *State) Zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{}
		case u.Info()&types.IsBoolean != 0:
			return VBool{Known: true}
		case u.Info()&types.IsString != 0:
			return VStr{C: Const("")}
		}
		return VRef{S: st.FreshSym(Fact{Tag: "zero", T: t})}
	case *types.Struct:
		if st.eng.isAtom(t) {
			return VRef{S: st.FreshSym(Fact{Tag: "zero", T: t, Nil: 2})}
		}
		return VAgg{T: t, Zero: true}
	case *types.Array:
		return VAgg{T: t, Zero: true}
	}
	return VNil{}
}

// ---- memory ----

func (e *Engine) isAtom(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	return !e.inScope(n.Obj().Pkg())
}

// cellType returns the type of a path below t.
func cellType(t types.Type, path string) types.Type {
	for path != "" {
		if t == nil {
			return nil
		}
		if strings.HasPrefix(path, "[") {
			i := strings.IndexByte(path, ']')
			path = path[i+1:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
			continue
		}
		path = path[1:]
		i := strings.IndexAny(path, ".[")
		name := path
		if i >= 0 {
			name, path = path[:i], path[i:]
		} else {
			path = ""
		}
		su, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		t = nil
		for j := 0; j < su.NumFields(); j++ {
			if su.Field(j).Name() == name {
				t = su.Field(j).Type()
				break
			}
		}
	}
	return t
}

// typeName returns a short name of a type.
func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// cellTag returns the default tag of a cell: the innermost named struct with the field.
func cellTag(o *Obj, path string) string {
	if o.T == nil {
		return o.Name + path
	}
	t := o.T
	name := typeName(t)
	if o.Name != "" && !strings.HasPrefix(o.Name, "single ") {
		name = o.Name
	}
	rest := path
	for rest != "" {
		i := strings.IndexAny(rest[1:], ".[")
		var seg string
		if rest[0] == '[' {
			j := strings.IndexByte(rest, ']')
			seg, rest = rest[:j+1], rest[j+1:]
		} else if i < 0 {
			seg, rest = rest, ""
		} else {
			seg, rest = rest[:i+1], rest[i+1:]
		}
		t = cellType(t, seg)
		if rest == "" {
			if seg[0] == '[' {
				return name + "[]"
			}
			return name + seg
		}
		if n, ok := t.(*types.Named); ok {
			name = typeName(n)
		} else if seg[0] == '[' {
			name += "[]"
		} else {
			name += seg
		}
	}
	return name
}

func isAggType(e *Engine, t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct:
		return !e.isAtom(t)
	case *types.Array:
		return true
	}
	return false
}

// Load reads a cell.
func (st *State) Load(p VPtr, t types.Type) Val {
	o := st.heap[p.O]
	if o == nil {
		return st.Fresh(t, "?")
	}
	if isAggType(st.eng, t) {
		agg := VAgg{T: t, Zero: o.Zero && !o.hasElemWrite(p.P), Cells: map[string]Val{}, Tag: cellTag(o, p.P)}
		for k, v := range o.Cells {
			if strings.HasPrefix(k, p.P) && len(k) > len(p.P) && (k[len(p.P)] == '.' || k[len(p.P)] == '[') {
				agg.Cells[k[len(p.P):]] = v
			}
		}
		return agg
	}
	if strings.HasSuffix(p.P, "[*]") {
		// smashed elements
		if v, ok := o.Cells[p.P]; ok && v != nil {
			// every element is like it, but not the same one
			if o.Zero {
				return st.Fresh(t, st.tagOr(v, cellTag(o, p.P)))
			}
		}
		v := st.Fresh(t, cellTag(o, p.P))
		return v
	}
	if v, ok := o.Cells[p.P]; ok {
		return v
	}
	if o.Zero && !o.hasElemWrite(p.P) {
		return st.Zero(t)
	}
	v := st.Fresh(t, cellTag(o, p.P))
	st.eng.onMaterialise(st, o, p, v)
	st.objw(p.O).Cells[p.P] = v
	return v
}

func (st *State) tagOr(v Val, def string) string {
	if t := st.Tag(v); t != "" {
		return t
	}
	return def
}

func (o *Obj) hasElemWrite(path string) bool {
	if strings.HasPrefix(path, "[") {
		_, ok := o.Cells["[*]"]
		return ok
	}
	return false
}

// Store writes a cell.
func (st *State) Store(p VPtr, v Val, t types.Type) {
	o := st.objw(p.O)
	if o.Sym {
		// every other object that could be the same one
		for id, other := range st.heap {
			if id != p.O && other.Sym && other.T != nil && o.T != nil && types.Identical(other.T, o.T) {
				w := st.objw(id)
				for k := range w.Cells {
					if overlaps(k, p.P) {
						delete(w.Cells, k)
					}
				}
			}
		}
	}
	if strings.HasSuffix(p.P, "[*]") {
		for k := range o.Cells {
			if strings.HasPrefix(k, strings.TrimSuffix(p.P, "*]")) && k != p.P {
				delete(o.Cells, k)
			}
		}
		if _, ok := o.Cells[p.P]; ok {
			o.Cells[p.P] = st.Fresh(t, "?")
		} else {
			o.Cells[p.P] = v
		}
		delete(o.Cells, "bytes")
		return
	}
	if strings.HasPrefix(p.P, "[") {
		delete(o.Cells, "bytes")
		if n, err := strconv.Atoi(p.P[1:strings.IndexByte(p.P, ']')]); err == nil && n > 16 && o.T != nil {
			// a loop over the elements, don't tell them apart
			for k := range o.Cells {
				if strings.HasPrefix(k, "[") {
					delete(o.Cells, k)
				}
			}
			if et := cellType(o.T, "[*]"); et != nil {
				o.Cells["[*]"] = st.Fresh(et, "?")
			}
			return
		}
	}
	for k := range o.Cells {
		if strings.HasPrefix(k, p.P) && len(k) > len(p.P) && (k[len(p.P)] == '.' || k[len(p.P)] == '[') {
			delete(o.Cells, k)
		}
	}
	agg, ok := v.(VAgg)
	if !ok {
		o.Cells[p.P] = v
		return
	}
	for k, c := range agg.Cells {
		o.Cells[p.P+k] = c
	}
	if agg.Zero != o.Zero {
		st.eng.leaves(agg.T, "", func(path string, lt types.Type) {
			if _, ok := o.Cells[p.P+path]; ok {
				return
			}
			if agg.Zero {
				o.Cells[p.P+path] = st.Zero(lt)
			} else {
				o.Cells[p.P+path] = st.Fresh(lt, cellTag(&Obj{T: agg.T}, path))
			}
		})
	}
}

func overlaps(a, b string) bool {
	return a == b || strings.HasPrefix(a, b) || strings.HasPrefix(b, a) || strings.HasPrefix(a, "[") && strings.HasPrefix(b, "[")
}

func (e *Engine) leaves(t types.Type, path string, f func(string, types.Type)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if e.isAtom(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			e.leaves(u.Field(i).Type(), path+"."+u.Field(i).Name(), f)
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				e.leaves(u.Elem(), path+"["+strconv.FormatInt(i, 10)+"]", f)
			}
		}
		return
	}
	f(path, t)
}

// Havoc forgets the cells of the objects reachable from v.
func (st *State) Havoc(v Val) {
	seen := map[ObjID]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch v := v.(type) {
		case VPtr:
			if seen[v.O] || v.O == ghostObj {
				return
			}
			seen[v.O] = true
			o := st.heap[v.O]
			if o == nil {
				return
			}
			cells := o.Cells
			if st.eng.havocKeeps(st, v, o) {
				return
			}
			w := st.objw(v.O)
			w.Cells = map[string]Val{}
			w.Zero = false
			for _, k := range sortedKeys(cells) {
				walk(cells[k])
			}
		case VSlice:
			if v.Base != 0 {
				walk(VPtr{O: v.Base})
			}
		case VAgg:
			for _, k := range sortedKeys(v.Cells) {
				walk(v.Cells[k])
			}
		case VIface:
			walk(v.V)
		case VFunc:
			for _, b := range v.B {
				walk(b)
			}
		case VTuple:
			for _, b := range v.E {
				walk(b)
			}
		}
	}
	walk(v)
}

// ---- nil and truth ----

// NilState returns 1 if v is nil, 2 if it is not and 0 if both are possible.
func (st *State) NilState(v Val) int8 {
	switch v := v.(type) {
	case VNil:
		return 1
	case VRef:
		return st.facts[v.S].Nil
	case VSlice:
		if v.S == 0 {
			return 2
		}
		return st.facts[v.S].Nil
	case nil:
		return 0
	}
	return 2
}

// assumeNil assumes that v is nil (or not), it returns false if that's impossible.
func (st *State) assumeNil(v Val, isNil bool) bool {
	want := int8(2)
	if isNil {
		want = 1
	}
	cur := st.NilState(v)
	if cur != 0 {
		return cur == want
	}
	var s Sym
	switch v := v.(type) {
	case VRef:
		s = v.S
	case VSlice:
		s = v.S
		if isNil && !st.assertLeq(v.Len, VInt{}, 0) {
			return false
		}
	default:
		return true
	}
	f := st.facts[s]
	f.Nil = want
	st.setFact(s, f)
	return true
}

// BoolOf returns the value of a boolean if it is known.
func (st *State) BoolOf(v Val) (known, b bool) {
	x, ok := v.(VBool)
	if !ok {
		return false, false
	}
	if x.Known {
		return true, x.B
	}
	switch st.facts[x.S].Truth {
	case 1:
		return true, false
	case 2:
		return true, true
	}
	return false, false
}

// assumeBool assumes the value of a boolean.
func (st *State) assumeBool(v Val, b bool) bool {
	known, cur := st.BoolOf(v)
	if known {
		return cur == b
	}
	x, ok := v.(VBool)
	if !ok {
		return true
	}
	f := st.facts[x.S]
	f.Truth = 1
	if b {
		f.Truth = 2
	}
	st.setFact(x.S, f)
	return true
}

// ---- normal form ----

const (
	symBase Sym   = 1 << 24
	objBase ObjID = 1 << 20
	slotSym Sym   = 1 << 20 // the first symbol that isn't that of an entry
	slotObj ObjID = 1 << 16
)

type namedVal struct {
	name string
	key  ssa.Value
	v    Val
}

const (
	modeBlock = iota
	modeEntry
	modeExit
)

// normaliser renames everything in a state in the order in which it is found.
type normaliser struct {
	st     *State
	out    *State
	sb     strings.Builder
	syms   map[Sym]Sym
	objs   map[ObjID]ObjID
	queue  []ObjID
	symQ   []Sym
	refs   map[Sym]int
	slots  []VInt // old values of the int slots, in the order of their new symbols
	slotS  []Sym
	keep   int // frames that are kept of a run
	coarse bool

	trackedOK   bool
	trackedLens []VInt

	mode    int
	entry   bool // number the symbols and objects as those of an entry
	cuts    map[Sym]Sym
	symBack map[Sym]Sym // new to old, of symbols that aren't slots
	objBack map[ObjID]ObjID
	slotOf  map[Sym]VInt
	cutsAt  []*Run
	retVal  Val
}

func (n *normaliser) newSym() Sym {
	n.out.nextSym++
	return n.out.nextSym
}

func (n *normaliser) ref(s Sym) Sym {
	if s == 0 {
		return 0
	}
	if r, ok := n.syms[s]; ok {
		fmt.Fprintf(&n.sb, "%d", r)
		return r
	}
	var r Sym
	if !n.entry && s <= Sym(n.st.pins) {
		r = s
	} else {
		r = n.newSym()
	}
	n.syms[s] = r
	n.symBack[r] = s
	f, ok := n.st.facts[s]
	if n.coarse && !n.st.eng.keep(f.Tag) {
		f.Tag = ""
		if n.mode == modeEntry {
			f.Nil, f.Truth = 0, 0
		}
	}
	if ok {
		n.out.facts[r] = f
	}
	fmt.Fprintf(&n.sb, "%d(%d%d", r, f.Nil, f.Truth)
	if f.HasS {
		// sets of symbols that aren't ints do not exist
		n.sb.WriteString(f.Set.String())
	}
	n.sb.WriteString(f.Tag)
	n.sb.WriteByte(')')
	if m := n.st.attrs[s]; n.coarse && n.mode != modeBlock && !(n.st.eng.KeepBounds && m["low"] != nil) {
		// only what leads to something that is tracked
		if p, ok := m["*"].(VPtr); ok && n.st.heap[p.O] != nil && n.st.hasKept(n.st.heap[p.O]) && !strings.HasPrefix(n.st.heap[p.O].Name, "single ") {
			n.symQ = append(n.symQ, s)
		}
	} else if len(m) > 0 {
		n.symQ = append(n.symQ, s)
	}
	return r
}

func (n *normaliser) slotLen(v VInt) VInt { return n.slotOf2(v, true) }

func (n *normaliser) slot(v VInt) VInt { return n.slotOf2(v, false) }

func (n *normaliser) slotOf2(v VInt, isLen bool) VInt {
	r := n.newSym()
	if n.coarse && v.S != 0 && !n.st.eng.KeepBounds {
		if f := n.st.facts[v.S]; !n.st.eng.keep(f.Tag) && !n.related(v, isLen) {
			n.slotOf[r] = v
			n.sb.WriteByte('i')
			return VInt{S: r}
		}
	}
	n.slots = append(n.slots, v)
	n.slotS = append(n.slotS, r)
	n.slotOf[r] = v
	f := Fact{}
	if v.S != 0 && v.K == 0 {
		f = n.st.facts[v.S]
	}
	if set, ok := n.st.setOf(v); ok && (f.HasS || v.S == 0) {
		f.HasS = true
		f.Set = set
	} else {
		f.HasS = false
	}
	if f.Tag != "" || f.HasS || f.T != nil {
		n.out.facts[r] = f
	}
	fmt.Fprintf(&n.sb, "i%d%s", r, f.Tag)
	if f.Disc {
		n.sb.WriteString(f.Set.String())
	}
	return VInt{S: r}
}

func (n *normaliser) obj(id ObjID) ObjID {
	if id == ghostObj {
		return id
	}
	if r, ok := n.objs[id]; ok {
		return r
	}
	var r ObjID
	if !n.entry && id <= n.st.opins {
		r = id
	} else {
		n.out.nextObj++
		r = n.out.nextObj
	}
	n.objs[id] = r
	n.objBack[r] = id
	n.queue = append(n.queue, id)
	return r
}

func (n *normaliser) content(c *Content) *Content {
	if c != nil && c.K == CRun && n.entry {
		c = n.cut(c)
	}
	n.sb.WriteString(c.String())
	return c
}

const (
	keepFrames    = 1  // of the runs at the entry of a recursive function
	keepFramesAll = 99 // of others
)

// cut forgets the frames a function that's called will not look at.
func (n *normaliser) cut(c *Content) *Content {
	r := *c.Run
	if r.Mode == '!' {
		return c
	}
	n.cutsAt = append(n.cutsAt, c.Run)
	if len(r.Frames) > n.keep {
		r.Frames = r.Frames[len(r.Frames)-n.keep:]
		r.Below = true
	}
	r.Cut = Sym(len(n.cutsAt))
	r.At = len(r.Frames)
	r.Elems = 0
	r.Many = false
	return &Content{K: CRun, Run: &r}
}

func (n *normaliser) val(v Val) Val {
	switch v := v.(type) {
	case nil:
		n.sb.WriteByte('_')
		return nil
	case VInt:
		return n.slot(v)
	case VBool:
		if known, b := n.st.BoolOf(v); known {
			if b {
				n.sb.WriteByte('T')
			} else {
				n.sb.WriteByte('F')
			}
			return VBool{Known: true, B: b}
		}
		n.sb.WriteByte('b')
		return VBool{S: n.ref(v.S)}
	case VNil:
		n.sb.WriteByte('N')
		return v
	case VRef:
		n.sb.WriteByte('r')
		if n.st.facts[v.S].Nil == 1 {
			n.sb.WriteByte('0')
		}
		return VRef{S: n.ref(v.S)}
	case VPtr:
		if ho := n.st.heap[v.O]; n.coarse && n.mode != modeBlock && ho != nil && v.O != ghostObj && !ho.Zero && !n.st.hasKept(ho) && !(n.mode == modeExit && v.O <= n.st.opins) {
			r := n.newSym()
			n.out.facts[r] = Fact{Nil: 2}
			fmt.Fprintf(&n.sb, "rp")
			return VRef{S: r}
		}
		o := n.obj(v.O)
		fmt.Fprintf(&n.sb, "p%d%s", o, v.P)
		return VPtr{O: o, P: v.P}
	case VStr:
		n.sb.WriteByte('"')
		r := VStr{S: n.ref(v.S)}
		r.C = n.content(v.C)
		if v.C != nil && v.C.K == CConst {
			r.Len = VInt{K: int64(len(v.C.Str))}
		} else {
			r.Len = n.slotLen(v.Len)
		}
		return r
	case VSlice:
		n.sb.WriteByte('[')
		r := VSlice{S: n.ref(v.S), Len: n.slotLen(v.Len)}
		r.C = n.content(v.C)
		if v.Base != 0 {
			r.Base = n.obj(v.Base)
			fmt.Fprintf(&n.sb, "@%d", r.Base)
		}
		if !n.entry {
			for _, h := range v.Hist {
				n.sb.WriteByte('h')
				r.Hist = append(r.Hist, Checkpoint{Len: n.slot(h.Len), C: n.content(h.C)})
			}
		}
		return r
	case VAgg:
		r := VAgg{T: v.T, Zero: v.Zero, Tag: v.Tag, Cells: map[string]Val{}}
		fmt.Fprintf(&n.sb, "{%v%s%s", v.Zero, typeName(v.T), v.Tag)
		for _, k := range sortedKeys(v.Cells) {
			n.sb.WriteString(k)
			n.sb.WriteByte('=')
			r.Cells[k] = n.val(v.Cells[k])
		}
		n.sb.WriteByte('}')
		return r
	case VTuple:
		r := VTuple{}
		n.sb.WriteByte('(')
		for _, e := range v.E {
			r.E = append(r.E, n.val(e))
			n.sb.WriteByte(',')
		}
		n.sb.WriteByte(')')
		return r
	case VFunc:
		r := VFunc{Fn: v.Fn}
		fmt.Fprintf(&n.sb, "f%s(", v.Fn.String())
		for _, e := range v.B {
			r.B = append(r.B, n.val(e))
			n.sb.WriteByte(',')
		}
		n.sb.WriteByte(')')
		return r
	case VIface:
		fmt.Fprintf(&n.sb, "I%s:", typeName(v.T))
		return VIface{T: v.T, V: n.val(v.V)}
	}
	panic(fmt.Sprintf("val %T", v))
}

// countRefs counts how often every symbol is used.
func (st *State) countRefs(env []namedVal) map[Sym]int {
	refs := map[Sym]int{}
	var walk func(v Val)
	walk = func(v Val) {
		switch v := v.(type) {
		case VInt:
			refs[v.S]++
		case VBool:
			refs[v.S]++
		case VRef:
			refs[v.S]++
		case VStr:
			refs[v.S]++
			refs[v.Len.S]++
		case VSlice:
			refs[v.S]++
			refs[v.Len.S]++
			for _, h := range v.Hist {
				refs[h.Len.S]++
			}
		case VAgg:
			for _, c := range v.Cells {
				walk(c)
			}
		case VTuple:
			for _, c := range v.E {
				walk(c)
			}
		case VFunc:
			for _, c := range v.B {
				walk(c)
			}
		case VIface:
			walk(v.V)
		}
	}
	for _, nv := range env {
		walk(nv.v)
	}
	for _, o := range st.heap {
		for _, c := range o.Cells {
			walk(c)
		}
	}
	for _, m := range st.attrs {
		for _, c := range m {
			walk(c)
		}
	}
	return refs
}

// vacuous tells if a cell says nothing that a fresh value would not.
func (n *normaliser) vacuous(o *Obj, path string, v Val) bool {
	if o.Zero || n.st.eng.Pin != nil && n.st.eng.Pin(cellTag(o, path)) {
		return false
	}
	free := func(s Sym) bool {
		if s == 0 || n.refs[s] > 1 || (!n.entry && s <= Sym(n.st.pins)) || len(n.st.attrs[s]) > 0 {
			return false
		}
		f := n.st.facts[s]
		return f.Nil == 0 && f.Truth == 0 && (f.Tag == "" || f.Tag == clipTag(cellTag(o, path)) || f.Tag == "?")
	}
	freeInt := func(v VInt) bool {
		if v.S == 0 || v.K != 0 {
			return false
		}
		if n.refs[v.S] > 1 || (!n.entry && v.S <= Sym(n.st.pins)) {
			return false
		}
		f := n.st.facts[v.S]
		lo, hi := -inf, inf
		if f.T != nil {
			if b, ok := f.T.Underlying().(*types.Basic); ok {
				lo, hi, _ = intRange(b)
			}
			if nm, ok := f.T.(*types.Named); ok {
				if set, ok := n.st.eng.enumSet(nm); ok {
					if f.Set != set {
						return false
					}
					lo, hi = int64(set.Min()), int64(set.Max())
				}
			} else if f.HasS && f.Set != FullSet {
				return false
			}
		}
		return !n.st.z.Constrained(v.S, lo, hi)
	}
	freeLen := func(v VInt) bool {
		if v.S == 0 || v.K != 0 || n.refs[v.S] > 1 || (!n.entry && v.S <= Sym(n.st.pins)) {
			return false
		}
		return !n.st.z.Constrained(v.S, 0, inf)
	}
	switch v := v.(type) {
	case VInt:
		return freeInt(v) && free(v.S)
	case VBool:
		return !v.Known && free(v.S)
	case VRef:
		return free(v.S)
	case VStr:
		return v.S != 0 && free(v.S) && freeLen(v.Len) && v.C.String() == n.st.eng.contentFor(cellTag(o, path)).String()
	case VSlice:
		return v.S != 0 && v.Base == 0 && free(v.S) && freeLen(v.Len) && len(v.Hist) == 0 && v.C.String() == n.st.eng.contentFor(cellTag(o, path)).String()
	}
	return false
}

// related tells if an integer is worth keeping: those compared to the length of tracked content.
func (n *normaliser) related(v VInt, isLen bool) bool {
	if n.st.eng.KeepGhosts {
		for _, g := range n.st.heap[ghostObj].Cells {
			if i, ok := g.(VInt); ok && (i == v || n.st.Leq(i, v, 0) && n.st.Leq(v, i, 0)) {
				return true
			}
		}
	}
	if n.mode == modeBlock {
		f := n.st.facts[v.S]
		if f.HasS {
			return true
		}
		lo, hi := n.st.Range(v)
		if hi < inf || lo > 0 || !isLen && lo > -inf {
			return true
		}
	}
	for _, l := range n.tracked() {
		if n.st.eng.Pin != nil && n.mode == modeBlock && n.st.Upper(v, l) < inf {
			return true
		}
		if n.st.Leq(v, l, 0) && n.st.Leq(l, v, 0) {
			return true
		}
	}
	return false
}

// tracked returns the lengths of the slices with tracked content.
func (n *normaliser) tracked() []VInt {
	if n.trackedOK {
		return n.trackedLens
	}
	n.trackedOK = true
	add := func(v Val) {
		s, ok := v.(VSlice)
		if !ok || s.C == nil || s.C.K != CRun {
			return
		}
		n.trackedLens = append(n.trackedLens, s.Len)
		for _, h := range s.Hist {
			n.trackedLens = append(n.trackedLens, h.Len)
		}
	}
	for _, v := range n.st.env {
		add(v)
	}
	for _, o := range n.st.heap {
		for _, v := range o.Cells {
			add(v)
		}
	}
	n.trackedLens = append(n.trackedLens, n.st.pinnedLens()...)
	n.trackedLens = append(n.trackedLens, n.st.pinLens...)
	return n.trackedLens
}

// pinnedLens returns the lengths of the slices in pinned cells.
func (st *State) pinnedLens() []VInt {
	var out []VInt
	if st.eng.KeepGhosts {
		for _, g := range st.heap[ghostObj].Cells {
			if i, ok := g.(VInt); ok {
				out = append(out, i)
			}
		}
	}
	if st.eng.Pin == nil {
		return out
	}
	for _, o := range st.heap {
		for k, v := range o.Cells {
			switch v := v.(type) {
			case VSlice:
				if st.eng.Pin(cellTag(o, k)) {
					out = append(out, v.Len)
				}
			case VInt:
				if v.S != 0 && st.eng.Pin(cellTag(o, k)) {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

func (st *State) hasKept(o *Obj) bool {
	if o.Zero && len(o.Cells) > 0 {
		return true
	}
	for k := range o.Cells {
		if st.eng.keep(cellTag(o, k)) {
			return true
		}
	}
	return false
}

// normalise returns the canonical form of a state and its skeleton.
//
// If entry is set the result is the entry state of a function.
func (st *State) normalise(env []namedVal, mode int) (*State, string, *normaliser) {
	return st.normaliseFor(env, mode, keepFrames)
}

func (st *State) normaliseFor(env []namedVal, mode, keep int) (*State, string, *normaliser) {
	entry := mode == modeEntry
	out := st.eng.newState()
	n := &normaliser{
		st: st, out: out, syms: map[Sym]Sym{}, objs: map[ObjID]ObjID{}, entry: entry,
		coarse: st.eng.Keep != nil, mode: mode, keep: keep,
		symBack: map[Sym]Sym{}, objBack: map[ObjID]ObjID{}, slotOf: map[Sym]VInt{},
	}
	all := env
	if entry {
		for k, v := range st.env {
			all = append(all, namedVal{"", k, v})
		}
	}
	n.refs = st.countRefs(all)
	if entry {
		out.nextSym = 0
		out.nextObj = ghostObj
	} else {
		out.nextSym = slotSym
		out.nextObj = slotObj
		out.pins, out.opins, out.pinLens = st.pins, st.opins, st.pinLens
	}
	// the monitors, the objects of the entry and the globals are always there
	n.queue = append(n.queue, ghostObj)
	if !entry {
		for id := ghostObj + 1; id <= st.opins; id++ {
			n.obj(id)
		}
	}
	var globals []ObjID
	for id, o := range st.heap {
		if strings.HasPrefix(o.Name, "global ") && (!n.coarse || !st.eng.constGlobal(o)) || strings.HasPrefix(o.Name, "single ") && (!n.coarse || st.hasKept(o)) {
			globals = append(globals, id)
		}
	}
	sort.Slice(globals, func(i, j int) bool { return st.heap[globals[i]].Name < st.heap[globals[j]].Name })
	for _, id := range globals {
		n.sb.WriteString(st.heap[id].Name)
		fmt.Fprintf(&n.sb, "=%d;", n.obj(id))
	}
	for _, nv := range env {
		n.sb.WriteString(nv.name)
		n.sb.WriteByte('=')
		v := n.val(nv.v)
		if i, ok := nv.v.(VInt); ok && nv.key != nil && st.eng.Partition != nil && st.eng.Partition(nv.key.Type()) {
			if c, ok := st.ConstOf(i); ok {
				n.sb.WriteString(strconv.FormatInt(c, 10))
			}
		}
		if nv.key != nil {
			out.env[nv.key] = v
		} else {
			n.retVal = v
		}
		n.sb.WriteByte(';')
	}
	for len(n.queue) > 0 || len(n.symQ) > 0 {
		if len(n.queue) > 0 {
			id := n.queue[0]
			n.queue = n.queue[1:]
			o := st.heap[id]
			nid := id
			if id != ghostObj {
				nid = n.objs[id]
			}
			if o == nil {
				out.heap[nid] = &Obj{Cells: map[string]Val{}}
				continue
			}
			no := &Obj{T: o.T, Zero: o.Zero, Sym: o.Sym, Name: o.Name, Cells: map[string]Val{}}
			out.heap[nid] = no
			fmt.Fprintf(&n.sb, "\n%d:%s%v%v{", nid, typeName(o.T), o.Zero, o.Sym)
			for _, k := range sortedKeys(o.Cells) {
				v := o.Cells[k]
				if id != ghostObj && (n.vacuous(o, k, v) || st.eng.forget(o, k) || n.coarse && !o.Zero && !st.eng.keep(cellTag(o, k))) {
					continue
				}
				n.sb.WriteString(k)
				n.sb.WriteByte('=')
				no.Cells[k] = n.val(v)
				if i, ok := v.(VInt); ok && id == ghostObj && st.eng.PartitionGhost[strings.TrimPrefix(k, ".")] {
					if c, ok := st.ConstOf(i); ok {
						n.sb.WriteString(strconv.FormatInt(c, 10))
					}
				}
				n.sb.WriteByte(';')
			}
			n.sb.WriteByte('}')
			continue
		}
		s := n.symQ[0]
		n.symQ = n.symQ[1:]
		m := st.attrs[s]
		fmt.Fprintf(&n.sb, "\n$%d{", n.syms[s])
		nm := map[string]Val{}
		for _, k := range sortedKeys(m) {
			if n.vacuousAttr(m[k]) || n.coarse && n.mode != modeBlock && k != "*" && !(st.eng.KeepBounds && (k == "low" || k == "high" || k == "ended")) {
				continue
			}
			n.sb.WriteString(k)
			n.sb.WriteByte('=')
			nm[k] = n.val(m[k])
			n.sb.WriteByte(';')
		}
		n.sb.WriteByte('}')
		if len(nm) > 0 {
			out.attrs[n.syms[s]] = nm
		}
	}
	// facts of the symbols of the entry
	if !entry {
		for s := Sym(1); s <= Sym(st.pins); s++ {
			f, ok := st.facts[s]
			if !ok {
				continue
			}
			if n.coarse && n.mode == modeExit && !st.eng.keep(f.Tag) {
				f.Nil, f.Truth, f.Disc, f.HasS = 0, 0, false, false
			}
			out.facts[s] = f
			if _, done := n.syms[s]; !done && (f.Nil != 0 || f.Truth != 0) {
				fmt.Fprintf(&n.sb, "\n#%d(%d%d)", s, f.Nil, f.Truth)
			}
			if f.Disc {
				fmt.Fprintf(&n.sb, "\n#%d%s", s, f.Set.String())
			}
		}
	}
	// the zone over the slots and the symbols of the entry
	z := &Zone{idx: map[Sym]int{0: 0}, syms: []Sym{0}}
	old := []VInt{{}}
	if !entry {
		for s := Sym(1); s <= Sym(st.pins); s++ {
			if n.coarse && !st.eng.keep(st.facts[s].Tag) && !n.related(VInt{S: s}, true) {
				continue
			}
			if _, ok := st.z.idx[s]; ok && st.eng.pinInt(st, s) {
				z.idx[s] = len(z.syms)
				z.syms = append(z.syms, s)
				old = append(old, VInt{S: s})
			}
		}
	}
	for i, s := range n.slotS {
		z.idx[s] = len(z.syms)
		z.syms = append(z.syms, s)
		old = append(old, n.slots[i])
	}
	z.m = make([][]int64, len(old))
	at := make([]int, len(old))
	for i, v := range old {
		at[i] = -1
		if j, ok := st.z.idx[v.S]; ok {
			at[i] = j
		}
	}
	for i := range old {
		row := make([]int64, len(old))
		for j := range old {
			switch {
			case i == j:
			case old[i].S == old[j].S:
				row[j] = old[i].K - old[j].K
			case at[i] < 0 || at[j] < 0:
				row[j] = inf
			default:
				row[j] = satAdd(st.z.m[at[i]][at[j]], old[i].K-old[j].K)
			}
		}
		z.m[i] = row
	}
	out.z = z
	if entry {
		out.pins = int(out.nextSym)
		out.opins = out.nextObj
	}
	return out, n.sb.String(), n
}

func (n *normaliser) vacuousAttr(v Val) bool {
	free := func(s Sym) bool {
		if s == 0 || n.refs[s] > 1 || (!n.entry && s <= Sym(n.st.pins)) || len(n.st.attrs[s]) > 0 {
			return false
		}
		f := n.st.facts[s]
		return f.Nil == 0 && f.Truth == 0 && !f.Disc
	}
	switch v := v.(type) {
	case VBool:
		return !v.Known && free(v.S)
	case VRef:
		return free(v.S)
	}
	return false
}

// merge joins b into a (same skeleton), it reports whether a changed.
func (a *State) merge(b *State, widen bool) (*State, bool) {
	changed := false
	res := a
	if !zoneLeq(b.z, a.z) {
		res = a.clone()
		res.z = joinZone(a.z, b.z, widen)
		res.zOwn = false
		changed = true
	}
	for s, f := range a.facts {
		if !f.HasS || f.Disc {
			continue
		}
		g := b.facts[s]
		set := FullSet
		if g.HasS {
			set = g.Set
		}
		if !set.Sub(f.Set) {
			if res == a {
				res = a.clone()
			}
			f.Set = f.Set.Or(set)
			if !g.HasS {
				f.HasS = false
			}
			res.setFact(s, f)
			changed = true
		}
	}
	return res, changed
}
