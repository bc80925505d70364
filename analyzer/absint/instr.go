package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// val returns the value of an operand.
func (a *Activation) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return a.constVal(st, v)
	case *ssa.Function:
		return VFunc{Fn: v}
	case *ssa.Global:
		return VPtr{O: a.globalObj(st, v)}
	case *ssa.Builtin:
		return VRef{}
	}
	if x, ok := st.env[v]; ok {
		return x
	}
	// dead value that is used after all, or a value that was dropped
	x := st.Fresh(v.Type(), "?")
	st.env[v] = x
	return x
}

func (a *Activation) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		if isAggType(a.E, c.Type()) {
			return VAgg{T: c.Type(), Zero: true}
		}
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return st.Zero(c.Type())
		}
		if _, ok := c.Type().(*types.Tuple); ok {
			return VTuple{}
		}
		return st.Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{Known: true, B: constant.BoolVal(c.Value)}
	case constant.String:
		s := constant.StringVal(c.Value)
		return VStr{C: Const(s), Len: VInt{K: int64(len(s))}}
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(c.Value); ok && i < inf && i > -inf {
				return VInt{K: i}
			}
			return st.FreshInt(c.Type(), "const")
		}
	}
	return VRef{S: st.FreshSym(Fact{Tag: "const " + c.Value.String(), T: c.Type(), Nil: 2})}
}

func (a *Activation) globalObj(st *State, g *ssa.Global) ObjID {
	name := "global " + g.String()
	for id, o := range st.heap {
		if o.Name == name {
			return id
		}
	}
	id := st.newObj(&Obj{T: g.Type().(*types.Pointer).Elem(), Name: name})
	return id
}

// deref returns the cell a pointer points at, a new object is made for unknown pointers.
func (a *Activation) deref(st *State, v Val, elem types.Type, instr ssa.Instruction) (VPtr, bool) {
	switch p := v.(type) {
	case VPtr:
		return p, true
	case VNil:
		return VPtr{}, false
	case VRef:
		if at, ok := st.Attr(p.S, "*"); ok {
			return at.(VPtr), true
		}
		o := &Obj{T: elem, Sym: true}
		if n, ok := types.Unalias(elem).(*types.Named); ok && a.E.Singleton != nil && a.E.Singleton(n) {
			name := "single " + typeName(n)
			for id, so := range st.heap {
				if so.Name == name {
					ptr := VPtr{O: id}
					st.SetAttr(p.S, "*", ptr)
					return ptr, true
				}
			}
			o.Name = name
			o.Sym = false
		}
		if !isAggType(a.E, elem) {
			o.Name = st.Tag(v) + "*"
		}
		ptr := VPtr{O: st.newObj(o)}
		st.SetAttr(p.S, "*", ptr)
		return ptr, true
	}
	return VPtr{O: st.newObj(&Obj{T: elem, Sym: true, Name: "?"})}, true
}

func (a *Activation) runBlock(b *ssa.BasicBlock, st *State) {
	states := []*State{st}
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); ok {
			i++
			continue
		}
		break
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		var next []*State
		for _, s := range states {
			a.E.Steps++
			if a.E.Steps > a.E.StepLimit {
				panic("absint: too many steps, in " + a.Fn.String())
			}
			if a.E.Steps&0xfff == 0 && !Deadline.IsZero() && time.Now().After(Deadline) {
				panic("absint: too much time, in " + a.Fn.String())
			}
			switch in := in.(type) {
			case *ssa.If:
				a.branch(b, s, in)
			case *ssa.Jump:
				a.flow(b, b.Succs[0], s)
			case *ssa.Return:
				var res []Val
				for _, r := range in.Results {
					res = append(res, a.val(s, r))
				}
				if a.E.H.Return != nil {
					a.E.H.Return(a, s, in, res)
					if s.Dead {
						continue
					}
				}
				a.exit(s, res)
			case *ssa.Panic:
				if a.E.H.Panic != nil {
					a.E.H.Panic(a, s, in)
				}
			default:
				next = append(next, a.step(s, in)...)
			}
		}
		states = next
		if len(states) == 0 {
			return
		}
	}
}

func (a *Activation) branch(b *ssa.BasicBlock, st *State, in *ssa.If) {
	v := a.val(st, in.Cond)
	known, bv := st.BoolOf(v)
	for i, want := range []bool{true, false} {
		if known && bv != want {
			continue
		}
		s := st
		if !known && want {
			s = st.clone()
		}
		if !s.assumeBool(v, want) {
			continue
		}
		if a.E.H.Branch != nil && !a.E.H.Branch(a, s, in, want) {
			continue
		}
		a.flow(b, b.Succs[i], s)
	}
}

func one(st *State) []*State { return []*State{st} }

// split returns the states in which cond is true and those in which it is false, bound to v.
func split(st *State, v ssa.Value, onTrue, onFalse func(s *State) bool) []*State {
	var out []*State
	t := st.clone()
	if onTrue(t) {
		t.env[v] = VBool{Known: true, B: true}
		out = append(out, t)
	}
	if onFalse(st) {
		st.env[v] = VBool{Known: true, B: false}
		out = append(out, st)
	}
	return out
}

func (a *Activation) step(st *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.RunDefers:
		return a.runDefers(st, in)
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		st.env[in] = VPtr{O: st.newObj(&Obj{T: t, Zero: true})}
		return one(st)
	case *ssa.FieldAddr:
		x := a.val(st, in.X)
		if a.E.H.Deref != nil {
			a.E.H.Deref(a, st, in, x)
		}
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		if !st.assumeNil(x, false) {
			return nil
		}
		p, ok := a.deref(st, x, pt, in)
		if !ok {
			return nil
		}
		f := pt.Underlying().(*types.Struct).Field(in.Field)
		if a.E.isAtom(pt) {
			// a field of a type that's not analysed
			st.env[in] = VPtr{O: st.newObj(&Obj{T: f.Type(), Sym: true, Name: typeName(pt) + "." + f.Name()})}
			return one(st)
		}
		st.env[in] = VPtr{O: p.O, P: p.P + "." + f.Name()}
		return one(st)
	case *ssa.Field:
		x := a.val(st, in.X)
		f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
		st.env[in] = a.aggField(st, x, "."+f.Name(), f.Type(), in.X.Type())
		return one(st)
	case *ssa.IndexAddr:
		return a.indexAddr(st, in)
	case *ssa.Index:
		x := a.val(st, in.X)
		idx := a.intVal(st, in.Index)
		if s, ok := x.(VStr); ok {
			return a.readByte(st, in, s, idx)
		}
		if agg, ok := x.(VAgg); ok {
			if c, ok := st.constOf(idx); ok {
				st.env[in] = a.aggField(st, agg, "["+strconv.FormatInt(c, 10)+"]", in.Type(), in.X.Type())
				return one(st)
			}
			st.env[in] = st.Fresh(in.Type(), agg.Tag+"[]")
			return one(st)
		}
		st.env[in] = st.Fresh(in.Type(), "?")
		return one(st)
	case *ssa.UnOp:
		return a.unop(st, in)
	case *ssa.BinOp:
		return a.binop(st, in)
	case *ssa.Store:
		p := a.val(st, in.Addr)
		if a.E.H.Deref != nil {
			a.E.H.Deref(a, st, in, p)
		}
		if !st.assumeNil(p, false) {
			return nil
		}
		t := in.Val.Type()
		ptr, ok := a.deref(st, p, t, in)
		if !ok {
			return nil
		}
		v := a.val(st, in.Val)
		if a.E.H.Store != nil {
			a.E.H.Store(a, st, in, st.heap[ptr.O], ptr, v)
		}
		st.Store(ptr, v, t)
		return one(st)
	case *ssa.Convert:
		return a.convert(st, in, in.X, in.Type())
	case *ssa.ChangeType:
		st.env[in] = a.val(st, in.X)
		return one(st)
	case *ssa.ChangeInterface:
		st.env[in] = a.val(st, in.X)
		return one(st)
	case *ssa.MultiConvert:
		return a.convert(st, in, in.X, in.Type())
	case *ssa.MakeInterface:
		st.env[in] = VIface{T: in.X.Type(), V: a.val(st, in.X)}
		return one(st)
	case *ssa.MakeClosure:
		f := VFunc{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.B = append(f.B, a.val(st, b))
		}
		st.env[in] = f
		return one(st)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		st.env[v] = VRef{S: st.FreshSym(Fact{Nil: 2, Tag: "new " + typeName(v.Type()), T: v.Type()})}
		return one(st)
	case *ssa.MakeSlice:
		l := a.intVal(st, in.Len)
		if !st.assertLeq(VInt{}, l, 0) {
			return nil
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		id := st.newObj(&Obj{T: in.Type(), Zero: true})
		s := VSlice{Base: id, Len: l}
		s.S = st.FreshSym(Fact{Nil: 2, Tag: "new " + typeName(in.Type()), T: in.Type()})
		_ = et
		st.env[in] = s
		return one(st)
	case *ssa.Slice:
		return a.slice(st, in)
	case *ssa.Lookup:
		return a.lookup(st, in)
	case *ssa.MapUpdate:
		if a.E.H.Store != nil {
			m := a.val(st, in.Map)
			a.E.H.Store(a, st, in, &Obj{Name: "map " + st.Tag(m)}, VPtr{P: "[map]"}, a.val(st, in.Value))
		}
		return one(st)
	case *ssa.Extract:
		t := a.val(st, in.Tuple)
		if vt, ok := t.(VTuple); ok && in.Index < len(vt.E) {
			st.env[in] = vt.E[in.Index]
			return one(st)
		}
		st.env[in] = st.Fresh(in.Type(), st.Tag(t)+"#"+strconv.Itoa(in.Index))
		return one(st)
	case *ssa.TypeAssert:
		return a.typeAssert(st, in)
	case *ssa.Range:
		x := a.val(st, in.X)
		st.env[in] = VTuple{E: []Val{x, VRef{S: st.FreshSym(Fact{Nil: 2, Tag: "range " + st.Tag(x)})}}}
		return one(st)
	case *ssa.Next:
		it := a.val(st, in.Iter)
		if vt, ok := it.(VTuple); ok && a.E.H.Rune != nil && len(vt.E) == 2 && in.IsString {
			if s, ok := vt.E[0].(VStr); ok {
				return a.E.H.Rune(a, st, in, s)
			}
		}
		tag := "?"
		if vt, ok := it.(VTuple); ok && len(vt.E) == 2 {
			tag = st.Tag(vt.E[0])
		}
		tt := in.Type().(*types.Tuple)
		vt := VTuple{E: []Val{VBool{S: st.FreshSym(Fact{})}, VRef{}, VRef{}}}
		for i := 1; i < 3; i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			n := "key"
			if i == 2 {
				n = "elem"
			}
			vt.E[i] = st.Fresh(tt.At(i).Type(), tag+"["+n+"]")
		}
		st.env[in] = vt
		return one(st)
	case *ssa.SliceToArrayPointer:
		st.env[in] = st.Fresh(in.Type(), "?")
		return one(st)
	case *ssa.Call:
		var out []*State
		for _, r := range a.doCall(st, in) {
			r.St.env[in] = r.V
			out = append(out, r.St)
		}
		return out
	case *ssa.Defer, *ssa.Go:
		ci := in.(ssa.CallInstruction)
		if a.E.H.Call != nil {
			for _, x := range ci.Common().Args {
				_ = x
			}
		}
		return one(st)
	case *ssa.Send:
		return one(st)
	case *ssa.Select:
		st.env[in] = st.Fresh(in.Type(), "select")
		return one(st)
	}
	panic(fmt.Sprintf("absint: instruction %T", in))
}

func (a *Activation) intVal(st *State, v ssa.Value) VInt {
	x := a.val(st, v)
	if i, ok := x.(VInt); ok {
		return i
	}
	return st.FreshInt(v.Type(), "?")
}

func (a *Activation) aggField(st *State, x Val, path string, ft, xt types.Type) Val {
	agg, ok := x.(VAgg)
	if !ok {
		return st.Fresh(ft, typeName(xt)+path)
	}
	if isAggType(a.E, ft) {
		r := VAgg{T: ft, Zero: agg.Zero, Cells: map[string]Val{}, Tag: typeName(ft)}
		for k, v := range agg.Cells {
			if strings.HasPrefix(k, path) && len(k) > len(path) && (k[len(path)] == '.' || k[len(path)] == '[') {
				r.Cells[k[len(path):]] = v
			}
		}
		return r
	}
	if v, ok := agg.Cells[path]; ok {
		return v
	}
	if agg.Zero {
		return st.Zero(ft)
	}
	return st.Fresh(ft, cellTag(&Obj{T: xt}, path))
}

// boundCheck continues with the states in which the index is in range.
func (a *Activation) boundCheck(st *State, in ssa.Instruction, what string, idx, length VInt, inclusive bool, then func(*State)) []*State {
	if a.E.H.Index != nil {
		a.E.H.Index(a, st, in, what, idx, length, inclusive)
	}
	c := int64(-1)
	if inclusive {
		c = 0
	}
	if !st.assertLeq(VInt{}, idx, 0) || !st.assertLeq(idx, length, c) {
		return nil
	}
	then(st)
	return one(st)
}

// readByte reads a byte of a string.
func (a *Activation) readByte(st *State, in ssa.Instruction, s VStr, idx VInt) []*State {
	v := in.(ssa.Value)
	out := a.boundCheck(st, in, "index", idx, s.Len, false, func(st *State) {
		st.env[v] = a.byteAt(st, s.C, idx, v.Type())
	})
	if a.E.H.Byte == nil || (s.C != nil && s.C.K == CConst) {
		return out
	}
	var split []*State
	for _, st := range out {
		split = append(split, a.E.H.Byte(a, st, v, s, idx)...)
	}
	return split
}

func (a *Activation) byteAt(st *State, c *Content, idx VInt, t types.Type) Val {
	v := st.FreshInt(t, "byte")
	if c == nil {
		return v
	}
	if c.K == CConst {
		if k, ok := st.constOf(idx); ok && k >= 0 && k < int64(len(c.Str)) {
			return VInt{K: int64(c.Str[k])}
		}
	}
	if c.K == CSeq {
		if k, ok := st.constOf(idx); ok && k >= 0 && k < int64(len(c.Seq)) {
			st.restrict(v, c.Seq[k])
			return v
		}
	}
	if s, ok := c.bytes(); ok && !s.Empty() {
		st.restrict(v, s)
	}
	return v
}

func (a *Activation) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	x := a.val(st, in.X)
	idx := a.intVal(st, in.Index)
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		// pointer to an array
		if a.E.H.Deref != nil {
			a.E.H.Deref(a, st, in, x)
		}
		arr := pt.Elem().Underlying().(*types.Array)
		if !st.assumeNil(x, false) {
			return nil
		}
		p, ok := a.deref(st, x, pt.Elem(), in)
		if !ok {
			return nil
		}
		return a.boundCheck(st, in, "index", idx, VInt{K: arr.Len()}, false, func(st *State) {
			if c, ok := st.constOf(idx); ok {
				st.env[in] = VPtr{O: p.O, P: p.P + "[" + strconv.FormatInt(c, 10) + "]"}
				return
			}
			st.env[in] = VPtr{O: p.O, P: p.P + "[*]"}
		})
	}
	s, ok := x.(VSlice)
	if !ok {
		if _, isNil := x.(VNil); isNil {
			s = VSlice{}
			if a.E.H.Index != nil {
				a.E.H.Index(a, st, in, "index", idx, VInt{}, false)
			}
			return nil
		}
		s = VSlice{Len: st.FreshLen()}
	}
	et := in.Type().Underlying().(*types.Pointer).Elem()
	return a.boundCheck(st, in, "index", idx, s.Len, false, func(st *State) {
		if isByte(et) {
			// a view of one byte: reads go through the content
			ptr := VPtr{O: st.newObj(&Obj{T: et, Name: "byte of " + st.Tag(s), Zero: false}), P: ""}
			o := st.heap[ptr.O]
			o.Cells[""] = a.byteAt(st, a.sliceContent(st, s), idx, et)
			if s.Base != 0 {
				o.Cells["base"] = VPtr{O: s.Base}
				o.Cells["idx"] = idx
			}
			st.env[in] = ptr
			return
		}
		if s.Base != 0 {
			o := st.heap[s.Base]
			if o != nil {
				if c, ok := st.constOf(idx); ok && o.T != nil {
					if _, isArr := o.T.Underlying().(*types.Array); isArr || true {
						_ = isArr
						st.env[in] = VPtr{O: s.Base, P: "[" + strconv.FormatInt(c, 10) + "]"}
						return
					}
				}
				st.env[in] = VPtr{O: s.Base, P: "[*]"}
				return
			}
		}
		// an element of an unknown slice
		tag := st.Tag(s)
		o := &Obj{T: et, Sym: true, Name: tag + "[]"}
		if isAggType(a.E, et) {
			o.Name = ""
		}
		id := st.newObj(o)
		st.env[in] = VPtr{O: id}
	})
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// sliceContent returns the content of a slice.
func (a *Activation) sliceContent(st *State, s VSlice) *Content {
	if a.E.NoContent {
		return nil
	}
	if s.Base != 0 && s.C == nil {
		o := st.heap[s.Base]
		if o == nil {
			return nil
		}
		if b, ok := o.Cells["bytes"].(VStr); ok {
			return b.C
		}
		if arr, ok := o.T.Underlying().(*types.Array); ok && isByte(arr.Elem()) && arr.Len() <= 64 && o.Zero {
			if l, ok := st.constOf(s.Len); ok && l == arr.Len() {
				if _, ok := o.Cells["[*]"]; ok {
					return nil
				}
				if len(o.Cells) == 0 {
					return nil
				}
				var seq []Set
				for i := int64(0); i < arr.Len(); i++ {
					v, ok := o.Cells["["+strconv.FormatInt(i, 10)+"]"].(VInt)
					if !ok {
						v = VInt{}
					}
					set, ok := st.setOf(v)
					if !ok {
						set = FullSet
					}
					seq = append(seq, set)
				}
				return seqContent(seq)
			}
		}
	}
	return s.C
}

func seqContent(seq []Set) *Content {
	buf := make([]byte, 0, len(seq))
	for _, s := range seq {
		if s.Count() != 1 {
			return &Content{K: CSeq, Seq: seq}
		}
		buf = append(buf, byte(s.Min()))
	}
	return Const(string(buf))
}

// ContentOfVal returns the content of a string or slice.
func (a *Activation) ContentOfVal(st *State, v Val) *Content {
	switch v := v.(type) {
	case VStr:
		return v.C
	case VSlice:
		return a.sliceContent(st, v)
	case VNil:
		return Const("")
	}
	return nil
}

func (a *Activation) unop(st *State, in *ssa.UnOp) []*State {
	x := a.val(st, in.X)
	switch in.Op {
	case token.MUL:
		if a.E.H.Deref != nil {
			a.E.H.Deref(a, st, in, x)
		}
		if g, ok := in.X.(*ssa.Global); ok {
			gi := a.E.globalOf(g)
			if gi.fixed && gi.c != nil {
				l := VInt{K: int64(len(gi.c.Str))}
				if _, ok := in.Type().Underlying().(*types.Slice); ok {
					st.env[in] = VSlice{S: st.FreshSym(Fact{Nil: 2, Tag: g.String()}), Len: l, C: gi.c}
				} else {
					st.env[in] = VStr{S: st.FreshSym(Fact{Tag: g.String()}), Len: l, C: gi.c}
				}
				return one(st)
			}
		}
		if !st.assumeNil(x, false) {
			return nil
		}
		p, ok := a.deref(st, x, in.Type(), in)
		if !ok {
			return nil
		}
		if a.E.H.Load != nil {
			a.E.H.Load(a, st, in, st.heap[p.O], p)
		}
		v := a.reinterpret(st, st.Load(p, in.Type()), in.Type())
		st.env[in] = v
		if a.E.H.Loaded != nil {
			a.E.H.Loaded(a, st, in, p, v)
		}
		return one(st)
	case token.NOT:
		known, b := st.BoolOf(x)
		if known {
			st.env[in] = VBool{Known: true, B: !b}
			return one(st)
		}
		return split(st, in, func(s *State) bool { return s.assumeBool(x, false) }, func(s *State) bool { return s.assumeBool(x, true) })
	case token.SUB:
		if i, ok := x.(VInt); ok {
			if c, ok := st.constOf(i); ok {
				st.env[in] = VInt{K: -c}
				return one(st)
			}
			r := st.FreshInt(in.Type(), "")
			lo, hi := st.Range(i)
			if hi < inf {
				st.assertLeq(VInt{K: -hi}, r, 0)
			}
			if lo > -inf {
				st.assertLeq(r, VInt{K: -lo}, 0)
			}
			st.env[in] = r
			return one(st)
		}
	}
	st.env[in] = st.Fresh(in.Type(), "")
	return one(st)
}

// reinterpret turns a slice into a string or the other way around after an unsafe cast of the pointer to it.
func (a *Activation) reinterpret(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case VSlice:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return VStr{S: x.S, Len: x.Len, C: a.sliceContent(st, x)}
		}
	case VStr:
		if _, ok := t.Underlying().(*types.Slice); ok {
			return VSlice{S: x.S, Len: x.Len, C: x.C}
		}
	case VNil:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return VStr{C: Const("")}
		}
	}
	return v
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// wrap makes the result of arithmetic on t from the exact result.
func (a *Activation) wrap(st *State, v VInt, t types.Type) VInt {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	lo, hi, _ := intRange(b)
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return v // overflow of 64 bit integers is not considered
	case types.Uint, types.Uint64, types.Uintptr:
		l, _ := st.Range(v)
		if l >= 0 {
			return v
		}
		return st.FreshInt(t, "")
	}
	l, h := st.Range(v)
	if l >= lo && h <= hi {
		return v
	}
	if c, ok := st.constOf(v); ok && hi > 0 {
		m := hi - lo + 1
		r := (c - lo) % m
		if r < 0 {
			r += m
		}
		return VInt{K: r + lo}
	}
	return st.FreshInt(t, "")
}

func (a *Activation) binop(st *State, in *ssa.BinOp) []*State {
	x, y := a.val(st, in.X), a.val(st, in.Y)
	xi, okx := x.(VInt)
	yi, oky := y.(VInt)
	if okx && oky {
		switch in.Op {
		case token.ADD:
			if c, ok := st.constOf(yi); ok {
				st.env[in] = a.wrap(st, VInt{xi.S, xi.K + c}, in.Type())
				return one(st)
			}
			if c, ok := st.constOf(xi); ok {
				st.env[in] = a.wrap(st, VInt{yi.S, yi.K + c}, in.Type())
				return one(st)
			}
			r := st.sumFresh(in.Type(), xi, yi, 1)
			st.env[in] = a.narrow(st, r, in.Type())
			return one(st)
		case token.SUB:
			if c, ok := st.constOf(yi); ok {
				st.env[in] = a.wrap(st, VInt{xi.S, xi.K - c}, in.Type())
				return one(st)
			}
			if xi.S == yi.S {
				st.env[in] = a.wrap(st, VInt{K: xi.K - yi.K}, in.Type())
				return one(st)
			}
			r := st.sumFresh(in.Type(), xi, yi, -1)
			st.env[in] = a.narrow(st, r, in.Type())
			return one(st)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return a.compareInts(st, in, in.Op, xi, yi)
		}
		st.env[in] = a.otherArith(st, in, xi, yi)
		return one(st)
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		return a.compareOther(st, in, x, y)
	case token.ADD:
		xs, okx := x.(VStr)
		ys, oky := y.(VStr)
		if okx && oky {
			c := concat(xs.C, ys.C)
			l := st.FreshLen()
			s := VStr{S: st.FreshSym(Fact{Tag: "concat"}), Len: l, C: c}
			if c != nil && c.K == CConst {
				s.Len = VInt{K: int64(len(c.Str))}
			} else {
				lo1, hi1 := st.Range(xs.Len)
				lo2, hi2 := st.Range(ys.Len)
				st.assertLeq(VInt{K: satAdd(lo1, lo2)}, l, 0)
				if h := satAdd(hi1, hi2); h < inf {
					st.assertLeq(l, VInt{K: h}, 0)
				}
			}
			st.env[in] = s
			if a.E.H.Concat != nil {
				a.E.H.Concat(a, st, in, x, y, s)
			}
			return one(st)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		st.env[in] = VBool{S: st.FreshSym(Fact{})}
		return one(st)
	}
	st.env[in] = st.Fresh(in.Type(), "")
	return one(st)
}

// narrow drops a result that can be out of the range of a small type.
func (a *Activation) narrow(st *State, v VInt, t types.Type) VInt {
	return a.wrap(st, v, t)
}

// sumFresh returns x + sign*y as far as a zone can express it.
func (st *State) sumFresh(t types.Type, x, y VInt, sign int64) VInt {
	s := st.sym()
	st.zw().add(s)
	st.setFact(s, Fact{T: t})
	r := VInt{S: s}
	xlo, xhi := st.Range(x)
	ylo, yhi := st.Range(y)
	if sign > 0 {
		// x + ylo <= r <= x + yhi
		if yhi < inf {
			st.assertLeq(r, x, yhi)
		}
		if ylo > -inf {
			st.assertLeq(x, r, -ylo)
		}
		if xhi < inf {
			st.assertLeq(r, y, xhi)
		}
		if xlo > -inf {
			st.assertLeq(y, r, -xlo)
		}
		return r
	}
	if ylo > -inf {
		st.assertLeq(r, x, -ylo)
	}
	if yhi < inf {
		st.assertLeq(x, r, yhi)
	}
	if up := st.Upper(x, y); up < inf {
		st.assertLeq(r, VInt{K: up}, 0)
	}
	if up := st.Upper(y, x); up < inf {
		st.assertLeq(VInt{K: -up}, r, 0)
	}
	return r
}

func (a *Activation) otherArith(st *State, in *ssa.BinOp, x, y VInt) Val {
	r := st.FreshInt(in.Type(), "")
	cx, okx := st.constOf(x)
	cy, oky := st.constOf(y)
	if okx && oky {
		switch in.Op {
		case token.MUL:
			return a.wrap(st, VInt{K: cx * cy}, in.Type())
		case token.AND:
			return VInt{K: cx & cy}
		case token.OR:
			return VInt{K: cx | cy}
		case token.SHL:
			if cy < 60 && cy >= 0 {
				return a.wrap(st, VInt{K: cx << uint(cy)}, in.Type())
			}
		case token.SHR:
			if cy >= 0 && cy < 64 {
				return VInt{K: cx >> uint(cy)}
			}
		case token.QUO:
			if cy != 0 {
				return VInt{K: cx / cy}
			}
		case token.REM:
			if cy != 0 {
				return VInt{K: cx % cy}
			}
		case token.XOR:
			return VInt{K: cx ^ cy}
		}
	}
	lo, hi := st.Range(x)
	switch in.Op {
	case token.AND:
		for _, p := range [][2]VInt{{x, y}, {y, x}} {
			if c, ok := st.constOf(p[0]); ok && c >= 0 {
				st.assertLeq(VInt{}, r, 0)
				st.assertLeq(r, VInt{K: c}, 0)
				if set, ok := st.setOf(p[1]); ok && c < 256 {
					var n Set
					for i := 0; i < 256; i++ {
						if set.Has(i) {
							n.Add(i & int(c))
						}
					}
					f := st.facts[r.S]
					f.HasS, f.Set = true, n
					st.setFact(r.S, f)
				}
			}
		}
	case token.SHR:
		if cy, ok := st.constOf(y); ok && cy >= 0 && cy < 63 && lo >= 0 {
			st.assertLeq(VInt{}, r, 0)
			if hi < inf {
				st.assertLeq(r, VInt{K: hi >> uint(cy)}, 0)
			}
			if set, ok := st.setOf(x); ok {
				var n Set
				for i := 0; i < 256; i++ {
					if set.Has(i) {
						n.Add(i >> uint(cy))
					}
				}
				f := st.facts[r.S]
				f.HasS, f.Set = true, n
				st.setFact(r.S, f)
			}
		}
	case token.REM:
		if cy, ok := st.constOf(y); ok && cy > 0 && lo >= 0 {
			st.assertLeq(VInt{}, r, 0)
			st.assertLeq(r, VInt{K: cy - 1}, 0)
		}
	case token.QUO:
		if cy, ok := st.constOf(y); ok && cy > 0 && lo >= 0 {
			st.assertLeq(VInt{}, r, 0)
			st.assertLeq(r, x, 0)
		}
	case token.MUL:
		if lo >= 0 {
			if l2, _ := st.Range(y); l2 >= 0 {
				st.assertLeq(VInt{}, r, 0)
			}
		}
	}
	return r
}

// assumeCmp assumes x op y.
func (st *State) assumeCmp(op token.Token, x, y VInt) bool {
	switch op {
	case token.EQL:
		if !st.assertLeq(x, y, 0) || !st.assertLeq(y, x, 0) {
			return false
		}
		if s, ok := st.setOf(y); ok {
			if !st.restrict(x, s) {
				return false
			}
		}
		if s, ok := st.setOf(x); ok {
			if !st.restrict(y, s) {
				return false
			}
		}
		return true
	case token.NEQ:
		up, down := st.Upper(x, y), st.Upper(y, x)
		if up == 0 && down == 0 {
			return false
		}
		if up == 0 {
			if !st.assertLeq(x, y, -1) {
				return false
			}
		}
		if down == 0 {
			if !st.assertLeq(y, x, -1) {
				return false
			}
		}
		if c, ok := st.constOf(y); ok {
			if s, ok := st.setOf(x); ok && c >= 0 && c < 256 {
				var one Set
				one.Add(int(c))
				if !st.restrict(x, s.Minus(one)) {
					return false
				}
			}
		}
		if c, ok := st.constOf(x); ok {
			if s, ok := st.setOf(y); ok && c >= 0 && c < 256 {
				var one Set
				one.Add(int(c))
				if !st.restrict(y, s.Minus(one)) {
					return false
				}
			}
		}
		return true
	case token.LSS:
		return st.assertLeq(x, y, -1) && st.trim(x) && st.trim(y)
	case token.LEQ:
		return st.assertLeq(x, y, 0) && st.trim(x) && st.trim(y)
	case token.GTR:
		return st.assertLeq(y, x, -1) && st.trim(x) && st.trim(y)
	case token.GEQ:
		return st.assertLeq(y, x, 0) && st.trim(x) && st.trim(y)
	}
	return true
}

// trim makes the set of a number agree with its bounds.
func (st *State) trim(v VInt) bool {
	if v.S == 0 {
		return true
	}
	if f := st.facts[v.S]; f.HasS {
		s, ok := st.setOf(v)
		if !ok {
			return true
		}
		if s.Empty() {
			return false
		}
		return st.restrict(v, s)
	}
	return true
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	}
	return token.LSS
}

func (a *Activation) compareInts(st *State, v ssa.Value, op token.Token, x, y VInt) []*State {
	assume := func(op token.Token) func(s *State) bool {
		return func(s *State) bool {
			if !s.assumeCmp(op, x, y) {
				return false
			}
			if in, ok := v.(ssa.Instruction); ok && a.E.H.IntEq != nil && (op == token.EQL || op == token.NEQ) {
				a.E.H.IntEq(a, s, in, x, y, op == token.EQL)
			}
			return true
		}
	}
	return split(st, v, assume(op), assume(negate(op)))
}

func (a *Activation) compareOther(st *State, in *ssa.BinOp, x, y Val) []*State {
	eq := in.Op == token.EQL
	res := func(s *State, isEq bool) *State {
		s.env[in] = VBool{Known: true, B: isEq == eq}
		return s
	}
	// comparison with nil
	for i := 0; i < 2; i++ {
		_, isNil := y.(VNil)
		if _, ok := y.(VRef); ok && st.NilState(y) == 1 {
			isNil = true
		}
		if isNil {
			var out []*State
			t := st.clone()
			if t.assumeNil(x, true) {
				if a.E.H.NilEq != nil {
					a.E.H.NilEq(a, t, in, x, true)
				}
				out = append(out, res(t, true))
			}
			if st.assumeNil(x, false) {
				if a.E.H.NilEq != nil {
					a.E.H.NilEq(a, st, in, x, false)
				}
				out = append(out, res(st, false))
			}
			return out
		}
		x, y = y, x
	}
	if xb, ok := x.(VBool); ok {
		if yb, ok := y.(VBool); ok {
			var out []*State
			for _, bx := range []bool{true, false} {
				for _, by := range []bool{true, false} {
					s := st.clone()
					if s.assumeBool(xb, bx) && s.assumeBool(yb, by) {
						out = append(out, res(s, bx == by))
					}
				}
			}
			return out
		}
	}
	xs, okx := x.(VStr)
	ys, oky := y.(VStr)
	if okx && oky {
		if xs.C != nil && ys.C != nil && xs.C.K == CConst && ys.C.K == CConst {
			return one(res(st, xs.C.Str == ys.C.Str))
		}
		var out []*State
		t := st.clone()
		if t.assumeStrEq(xs, ys) {
			if a.E.H.StrEq != nil {
				a.E.H.StrEq(a, t, in, xs, ys, true)
			}
			out = append(out, res(t, true))
		}
		if xs.S == 0 || xs.S != ys.S {
			for i := 0; i < 2; i++ {
				if ys.C != nil && ys.C.K == CConst && ys.C.Str == "" {
					if !st.assertLeq(VInt{K: 1}, xs.Len, 0) {
						return out
					}
				}
				xs, ys = ys, xs
			}
			if a.E.H.StrEq != nil {
				a.E.H.StrEq(a, st, in, xs, ys, false)
			}
			out = append(out, res(st, false))
		}
		return out
	}
	if xr, ok := x.(VRef); ok {
		if yr, ok := y.(VRef); ok && xr.S == yr.S && xr.S != 0 {
			if b, ok := in.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
				return one(res(st, true))
			}
		}
	}
	if xp, ok := x.(VPtr); ok {
		if yp, ok := y.(VPtr); ok {
			if xp == yp {
				return one(res(st, true))
			}
		}
	}
	t := st.clone()
	return []*State{res(t, true), res(st, false)}
}

func (st *State) assumeStrEq(x, y VStr) bool {
	if !st.assertLeq(x.Len, y.Len, 0) || !st.assertLeq(y.Len, x.Len, 0) {
		return false
	}
	return true
}

func (a *Activation) convert(st *State, v ssa.Value, xv ssa.Value, t types.Type) []*State {
	x := a.val(st, xv)
	tb, _ := t.Underlying().(*types.Basic)
	switch x := x.(type) {
	case VInt:
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			lo, hi, _ := intRange(tb)
			l, h := st.Range(x)
			sb := xv.Type().Underlying().(*types.Basic)
			wide := tb.Kind() == types.Int || tb.Kind() == types.Int64
			srcUnsigned64 := sb.Kind() == types.Uint64 || sb.Kind() == types.Uint || sb.Kind() == types.Uintptr
			if wide && !srcUnsigned64 {
				st.env[v] = x
				return one(st)
			}
			if (tb.Kind() == types.Uint || tb.Kind() == types.Uint64 || tb.Kind() == types.Uintptr) && l >= 0 {
				st.env[v] = x
				return one(st)
			}
			if l >= lo && h <= hi && h < inf {
				st.env[v] = x
				return one(st)
			}
			if !wide && lo > -inf && hi < inf {
				// the value either fits and stays the same or it becomes another one
				fits := st.clone()
				var out []*State
				if fits.assertLeq(x, VInt{K: hi}, 0) && fits.assertLeq(VInt{K: lo}, x, 0) {
					fits.env[v] = x
					out = append(out, fits)
				}
				for _, side := range []int{0, 1} {
					o := st.clone()
					if side == 0 && !o.assertLeq(VInt{K: hi + 1}, x, 0) || side == 1 && !o.assertLeq(x, VInt{K: lo - 1}, 0) {
						continue
					}
					tag := st.Tag(x)
					if tag != "" {
						tag = "wrapped " + tag
					}
					o.env[v] = o.FreshInt(t, tag)
					out = append(out, o)
				}
				return out
			}
			st.env[v] = st.FreshInt(t, st.Tag(x))
			return one(st)
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			// string(byte or rune)
			s := VStr{S: st.FreshSym(Fact{Tag: "string(" + st.Tag(x) + ")"}), Len: st.FreshLen()}
			if set, ok := st.setOf(x); ok && set.Sub(RangeSet(0, 127)) {
				s.C = seqContent([]Set{set})
				s.Len = VInt{K: 1}
			} else {
				st.assertLeq(VInt{K: 1}, s.Len, 0)
				st.assertLeq(s.Len, VInt{K: 4}, 0)
			}
			st.env[v] = s
			return one(st)
		}
	case VStr:
		if _, ok := t.Underlying().(*types.Slice); ok {
			r := VSlice{S: st.FreshSym(Fact{Nil: 2, Tag: "copy " + st.Tag(x)}), Len: x.Len, C: x.C}
			a.keepLow(st, x.S, r.S)
			st.env[v] = r
			return one(st)
		}
		st.env[v] = x
		return one(st)
	case VSlice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			r := VStr{S: st.FreshSym(Fact{Tag: "copy " + st.Tag(x)}), Len: x.Len, C: a.sliceContent(st, x)}
			a.keepLow(st, x.S, r.S)
			st.env[v] = r
			return one(st)
		}
		st.env[v] = x
		return one(st)
	case VNil:
		if tb != nil && tb.Info()&types.IsString != 0 {
			st.env[v] = VStr{C: Const("")}
			return one(st)
		}
		st.env[v] = x
		return one(st)
	case VPtr, VFunc, VIface:
		st.env[v] = x
		return one(st)
	case VRef:
		if tb == nil || tb.Kind() == types.UnsafePointer {
			st.env[v] = x
			return one(st)
		}
		if sb, ok := xv.Type().Underlying().(*types.Basic); ok {
			tag := st.Tag(x)
			if tag != "" && sb.Info()&types.IsFloat != 0 && (tb.Info()&types.IsInteger != 0 || tb.Kind() == types.Float32 && sb.Kind() != types.Float32) {
				tag = "rounded " + tag
			}
			r := st.Fresh(t, tag)
			st.env[v] = r
			return one(st)
		}
		st.env[v] = st.Fresh(t, st.Tag(x))
		return one(st)
	}
	st.env[v] = st.Fresh(t, st.Tag(x))
	return one(st)
}

// keepLow says that y is a copy of x.
func (a *Activation) keepLow(st *State, x, y Sym) {
	if low, ok := st.Attr(x, "low"); ok && a.E.PartLow {
		st.SetAttr(y, "low", low)
	}
	if a.E.KeepBounds {
		for _, k := range []string{"low", "high", "ended"} {
			if v, ok := st.Attr(x, k); ok {
				st.SetAttr(y, k, v)
			}
		}
	}
}

// linear adds the terms of a sum of integers.
func linear(v ssa.Value, sign int64, terms map[ssa.Value]int64, k *int64) {
	switch x := v.(type) {
	case nil:
		return
	case *ssa.Const:
		if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			*k += sign * n
			return
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			linear(x.X, sign, terms, k)
			if x.Op == token.SUB {
				sign = -sign
			}
			linear(x.Y, sign, terms, k)
			return
		}
	}
	terms[v] += sign
}

func sameSum(x, y ssa.Value) bool {
	if x == nil || y == nil {
		return x == y
	}
	terms, k := map[ssa.Value]int64{}, int64(0)
	linear(x, 1, terms, &k)
	linear(y, -1, terms, &k)
	for _, n := range terms {
		if n != 0 {
			return false
		}
	}
	return k == 0
}

// samePart returns an earlier slice expression with the same bounds of the same field.
func samePart(in *ssa.Slice) *ssa.Slice {
	from := func(v ssa.Value) string {
		path := ""
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return ""
				}
				path += "*"
				v = x.X
			case *ssa.FieldAddr:
				path += fmt.Sprintf(".%d", x.Field)
				v = x.X
			case *ssa.Parameter, *ssa.FreeVar:
				return path + " " + v.Name()
			case *ssa.Alloc:
				// a variable that's only assigned once
				n := 0
				for _, r := range *x.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						n++
						if r.Val == v {
							return ""
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						return ""
					}
				}
				if n != 1 {
					return ""
				}
				return path + " " + v.Name()
			default:
				return ""
			}
		}
	}
	f := from(in.X)
	if f == "" {
		return nil
	}
	for b := in.Block(); b != nil; b = b.Idom() {
		for _, o := range b.Instrs {
			if o == ssa.Instruction(in) {
				break
			}
			if s, ok := o.(*ssa.Slice); ok && from(s.X) == f && sameSum(s.Low, in.Low) && sameSum(s.High, in.High) {
				return s
			}
		}
	}
	return nil
}

func (a *Activation) slice(st *State, in *ssa.Slice) []*State {
	x := a.val(st, in.X)
	low := VInt{}
	if in.Low != nil {
		low = a.intVal(st, in.Low)
	}
	var base VSlice
	isStr := false
	var str VStr
	switch v := x.(type) {
	case VSlice:
		base = v
	case VStr:
		isStr = true
		str = v
		base = VSlice{S: v.S, Len: v.Len, C: v.C}
	case VNil:
		base = VSlice{}
	case VPtr, VRef:
		pt := in.X.Type().Underlying().(*types.Pointer)
		arr := pt.Elem().Underlying().(*types.Array)
		if p, ok := v.(VPtr); ok && p.P == "" {
			base = VSlice{Base: p.O, Len: VInt{K: arr.Len()}}
		} else {
			base = VSlice{Len: VInt{K: arr.Len()}}
		}
		base.S = st.FreshSym(Fact{Nil: 2, Tag: "array"})
		base.C = a.sliceContent(st, base)
	default:
		base = VSlice{Len: st.FreshLen()}
	}
	high := base.Len
	if in.High != nil {
		high = a.intVal(st, in.High)
	}
	if a.E.SamePart != nil && a.E.SamePart(st.Tag(x)) {
		// the same part of something that doesn't change
		if first := samePart(in); first != nil {
			if v, ok := st.env[first]; ok {
				st.env[in] = v
				return one(st)
			}
		}
	}
	full := in.Low == nil && in.High == nil
	if full {
		if isStr {
			st.env[in] = str
		} else {
			st.env[in] = base
		}
		return one(st)
	}
	if a.E.H.Index != nil {
		// the upper bound is the capacity for slices, which is only known to be at least the length
		a.E.H.Index(a, st, in, "slice", high, base.Len, true)
		a.E.H.Index(a, st, in, "slice", low, high, true)
	}
	if !st.assertLeq(VInt{}, low, 0) || !st.assertLeq(low, high, 0) {
		return nil
	}
	if isStr && !st.assertLeq(high, base.Len, 0) {
		return nil
	}
	c := a.sliceContent(st, base)
	cl, lowConst := st.constOf(low)
	ch, highConst := st.constOf(high)
	highIsLen := in.High == nil || (st.Leq(high, base.Len, 0) && st.Leq(base.Len, high, 0))
	var nc *Content
	var hist []Checkpoint
	switch {
	case lowConst && cl == 0 && highIsLen:
		nc = c
		hist = base.Hist
	case c != nil && c.K == CConst && lowConst && highConst && cl >= 0 && ch <= int64(len(c.Str)) && cl <= ch:
		nc = Const(c.Str[cl:ch])
	case c != nil && c.K == CConst && lowConst && highIsLen && cl <= int64(len(c.Str)):
		nc = Const(c.Str[cl:])
	case lowConst && cl == 0 && highConst && ch == 0:
		nc = st.emptyContent(a, base)
	case lowConst && cl == 0:
		for i := len(base.Hist) - 1; i >= 0; i-- {
			h := base.Hist[i]
			if st.Leq(h.Len, high, 0) && st.Leq(high, h.Len, 0) {
				nc = h.C
				hist = base.Hist[:i]
				break
			}
		}
		if nc == nil && c != nil && c.K != CRun {
			if s, ok := c.bytes(); ok {
				nc = Bytes(s)
			}
		}
	case lowConst && cl == 1 && highIsLen && c != nil && c.K == CRun:
		nc = dropFirst(c)
	default:
		if c != nil && c.K != CRun {
			if s, ok := c.bytes(); ok {
				nc = Bytes(s)
			}
		}
	}
	var l VInt
	switch {
	case lowConst:
		l = VInt{high.S, high.K - cl}
	case low.S == high.S:
		l = VInt{K: high.K - low.K}
	default:
		l = st.sumFresh(types.Typ[types.Int], high, low, -1)
	}
	if !st.assertLeq(VInt{}, l, 0) {
		return nil
	}
	tag := st.Tag(x)
	if nc == nil && a.E.SliceContent != nil {
		nc = a.E.SliceContent(tag)
	}
	if (isStr || a.E.PartTags) && tag != "" && !(lowConst && cl == 0 && highIsLen) {
		tag = clipTag("part of " + strings.TrimPrefix(tag, "part of "))
	}
	if isStr {
		v := VStr{S: st.FreshSym(Fact{Tag: tag}), Len: l, C: nc}
		st.env[in] = v
		if a.E.StrBounds != nil && a.E.StrBounds(tag) {
			// where the part is in the whole
			if at, ok := st.Attr(str.S, "low"); ok {
				low, high = st.sum(at.(VInt), low), st.sum(at.(VInt), high)
			}
			st.SetAttr(v.S, "low", low)
			st.SetAttr(v.S, "high", high)
		}
		return one(st)
	}
	r := VSlice{S: st.FreshSym(Fact{Nil: st.NilState(base), Tag: tag}), Len: l, C: nc, Hist: hist}
	if base.Base != 0 && highIsLen && lowConst && cl == 0 {
		r.Base = base.Base
	}
	st.env[in] = r
	if a.E.PartLow || a.E.KeepBounds {
		st.SetAttr(r.S, "low", low)
	}
	if a.E.KeepBounds {
		st.SetAttr(r.S, "high", high)
	}
	if a.E.H.Slice != nil {
		a.E.H.Slice(a, st, in, x, r)
	}
	return one(st)
}

// emptyContent is the content of x[:0].
func (st *State) emptyContent(a *Activation, x VSlice) *Content {
	if a.E.EmptyContent != nil {
		if c := a.E.EmptyContent(st.Tag(x)); c != nil {
			return c
		}
	}
	return Const("")
}

func (a *Activation) lookup(st *State, in *ssa.Lookup) []*State {
	x := a.val(st, in.X)
	if s, ok := x.(VStr); ok {
		return a.readByte(st, in, s, a.intVal(st, in.Index))
	}
	tag := st.Tag(x) + "[]"
	if in.CommaOk {
		t := in.Type().(*types.Tuple)
		found := st.clone()
		found.env[in] = VTuple{E: []Val{found.Fresh(t.At(0).Type(), tag), VBool{Known: true, B: true}}}
		st.env[in] = VTuple{E: []Val{st.Zero(t.At(0).Type()), VBool{Known: true, B: false}}}
		return []*State{found, st}
	}
	st.env[in] = st.Fresh(in.Type(), tag)
	return one(st)
}

func (a *Activation) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x := a.val(st, in.X)
	if i, ok := x.(VIface); ok {
		var match bool
		if it, isIface := in.AssertedType.Underlying().(*types.Interface); isIface {
			match = types.Implements(i.T, it)
			if match {
				if in.CommaOk {
					st.env[in] = VTuple{E: []Val{x, VBool{Known: true, B: true}}}
				} else {
					st.env[in] = x
				}
				return one(st)
			}
		} else {
			match = types.Identical(i.T, in.AssertedType)
			if match {
				if in.CommaOk {
					st.env[in] = VTuple{E: []Val{i.V, VBool{Known: true, B: true}}}
				} else {
					st.env[in] = i.V
				}
				return one(st)
			}
		}
		if !in.CommaOk {
			if a.E.H.Panic != nil {
				a.E.H.Panic(a, st, in)
			}
			return nil
		}
		t := in.Type().(*types.Tuple)
		st.env[in] = VTuple{E: []Val{st.Zero(t.At(0).Type()), VBool{Known: true, B: false}}}
		return one(st)
	}
	tag := st.Tag(x) + ".(" + typeName(in.AssertedType) + ")"
	fresh := func(s *State) Val {
		v := s.Fresh(in.AssertedType, tag)
		if r, ok := v.(VRef); ok {
			if _, isIface := in.AssertedType.Underlying().(*types.Interface); isIface {
				f := s.facts[r.S]
				f.Nil = 2
				s.setFact(r.S, f)
			}
		}
		return v
	}
	if !in.CommaOk {
		st.env[in] = fresh(st)
		return one(st)
	}
	t := in.Type().(*types.Tuple)
	var out []*State
	yes := st.clone()
	if yes.assumeNil(x, false) {
		yes.env[in] = VTuple{E: []Val{fresh(yes), VBool{Known: true, B: true}}}
		out = append(out, yes)
	}
	st.env[in] = VTuple{E: []Val{st.Zero(t.At(0).Type()), VBool{Known: true, B: false}}}
	return append(out, st)
}

// ---- calls ----

// deferred returns the calls that are certainly deferred where they are run, in the order in which they are run.
func deferred(in *ssa.RunDefers) []*ssa.Defer {
	var out []*ssa.Defer
	for _, b := range in.Parent().DomPreorder() {
		for _, x := range b.Instrs {
			if d, ok := x.(*ssa.Defer); ok && b.Dominates(in.Block()) && !reenters(b) {
				if _, ok := d.Call.Value.(*ssa.Builtin); !ok {
					out = append([]*ssa.Defer{d}, out...)
				}
			}
		}
	}
	return out
}

// reenters tells if a block is part of a loop.
func reenters(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if walk(y) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

func (a *Activation) runDefers(st *State, in *ssa.RunDefers) []*State {
	states := one(st)
	for _, d := range deferred(in) {
		var next []*State
		for _, s := range states {
			for _, r := range a.doCall(s, d) {
				next = append(next, r.St)
			}
		}
		states = next
	}
	return states
}

func (a *Activation) doCall(st *State, in ssa.CallInstruction) []Ret {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return a.builtin(st, in.(*ssa.Call), b)
	}
	var args []Val
	var callee *ssa.Function
	var bindings []Val
	var fn *types.Func
	if c.IsInvoke() {
		recv := a.val(st, c.Value)
		fn = c.Method
		if i, ok := recv.(VIface); ok {
			if m := a.E.Prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				callee = m
				recv = i.V
				if o, ok := m.Object().(*types.Func); ok {
					fn = o
				}
			}
		} else {
			if a.E.H.Deref != nil {
				a.E.H.Deref(a, st, in, recv)
			}
			if !st.assumeNil(recv, false) {
				return nil
			}
		}
		args = append(args, recv)
	} else {
		fv := a.val(st, c.Value)
		if f, ok := fv.(VFunc); ok {
			callee = f.Fn
			bindings = f.B
			fn, _ = callee.Object().(*types.Func)
		} else if !st.assumeNil(fv, false) {
			if a.E.H.Deref != nil {
				a.E.H.Deref(a, st, in, fv)
			}
			return nil
		} else if a.E.H.Deref != nil {
			a.E.H.Deref(a, st, in, fv)
		}
	}
	for _, x := range c.Args {
		args = append(args, a.val(st, x))
	}
	if a.E.H.Call != nil {
		st = a.E.H.Call(a, st, in, callee, fn, args)
		if st == nil {
			return nil
		}
	}
	rets := a.apply(st, in, callee, fn, args, bindings, c.Signature())
	if a.E.H.Called != nil {
		for _, r := range rets {
			a.E.H.Called(a, r.St, in, callee, r.V)
		}
	}
	if a.E.H.Fork != nil {
		var out []Ret
		for _, r := range rets {
			b, ok := a.E.H.Fork(a, r.St, in, callee, r.V)
			if !ok {
				out = append(out, r)
				continue
			}
			for _, want := range []bool{true, false} {
				s := r.St.clone()
				if s.assumeBool(b, want) {
					out = append(out, Ret{s, r.V})
				}
			}
		}
		rets = out
	}
	return rets
}

func (a *Activation) apply(st *State, in ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args, bindings []Val, sig *types.Signature) []Ret {
	e := a.E
	name := ""
	if fn != nil {
		name = fn.FullName()
	} else if callee != nil {
		name = callee.String()
	}
	cc := &CallCtx{E: e, St: st, Instr: in, Fn: fn, Args: args, Sig: sig, Act: a}
	if m, ok := e.Models[name]; ok {
		if r := m(cc); r != nil {
			return r
		}
	}
	if callee != nil && e.analysed(callee) {
		return a.call(st, callee, args, bindings, in)
	}
	if m, ok := models[name]; ok {
		if r := m(cc); r != nil {
			return r
		}
	}
	if name == "" {
		name = "func value of type " + sig.String()
	}
	e.Unknown[name]++
	for _, x := range args {
		st.Havoc(x)
	}
	// functions that are handed to unknown code could be called by it
	for _, x := range args {
		if f, ok := x.(VFunc); ok && e.analysed(f.Fn) {
			return a.callRepeatedly(st, in, f, sig, name)
		}
	}
	return []Ret{{st, st.freshResult(sig, "call:"+name)}}
}

func (st *State) freshResult(sig *types.Signature, tag string) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return VTuple{}
	case 1:
		return st.Fresh(r.At(0).Type(), tag)
	}
	return st.Fresh(r, tag)
}

// CallRepeatedly is the effect of code that calls f any number of times.
func (a *Activation) callRepeatedly(st *State, in ssa.CallInstruction, f VFunc, sig *types.Signature, name string) []Ret {
	all := map[string]*State{}
	var keys []string
	work := []*State{st}
	rounds := map[string]int{}
	// the registers of the caller and the closure have to survive
	var regs []namedVal
	lv := a.E.liveOf(a.Fn)
	for k, v := range st.env {
		regs = append(regs, namedVal{fmt.Sprint(lv.order[k]), k, v})
	}
	sortNamed(regs, lv)
	conv := func(s *State) (*State, string) {
		cur := make([]namedVal, 0, len(regs)+1)
		for _, r := range regs {
			cur = append(cur, namedVal{r.name, r.key, s.env[r.key]})
		}
		n, sk, _ := s.normalise(cur, modeBlock)
		return n, sk
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		n, sk := conv(s)
		n.nextSym, n.nextObj = symBase, objBase
		old, ok := all[sk]
		if ok {
			m, changed := old.merge(n, rounds[sk] > 2)
			if !changed {
				continue
			}
			rounds[sk]++
			all[sk] = m
			n = m
		} else {
			all[sk] = n
			keys = append(keys, sk)
		}
		run := n.clone()
		run.nextSym, run.nextObj = symBase, objBase
		fv := f
		// find the closure again under its new names
		for _, r := range regs {
			if vf, ok := run.env[r.key].(VFunc); ok && vf.Fn == f.Fn {
				fv = vf
			}
		}
		var args []Val
		for i := 0; i < fv.Fn.Signature.Params().Len(); i++ {
			args = append(args, run.Fresh(fv.Fn.Signature.Params().At(i).Type(), "arg:"+name+"#"+strconv.Itoa(i)))
		}
		for _, r := range a.call(run, fv.Fn, args, fv.B, in) {
			work = append(work, r.St)
		}
		if len(keys) > 500 {
			panic("absint: callback has too many states in " + a.Fn.String())
		}
	}
	var out []Ret
	for _, k := range keys {
		s := all[k].clone()
		s.nextSym, s.nextObj = symBase, objBase
		out = append(out, Ret{s, s.freshResult(sig, "call:"+name)})
	}
	return out
}

func (a *Activation) builtin(st *State, in *ssa.Call, b *ssa.Builtin) []Ret {
	c := in.Common()
	var args []Val
	for _, x := range c.Args {
		args = append(args, a.val(st, x))
	}
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case VStr:
			return []Ret{{st, v.Len}}
		case VSlice:
			return []Ret{{st, v.Len}}
		case VNil:
			return []Ret{{st, VInt{}}}
		}
		if t, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return []Ret{{st, VInt{K: t.Len()}}}
		}
		return []Ret{{st, st.FreshLen()}}
	case "cap":
		l := st.FreshLen()
		if v, ok := args[0].(VSlice); ok {
			st.assertLeq(v.Len, l, 0)
		}
		return []Ret{{st, l}}
	case "append":
		return []Ret{{st, a.appendTo(st, in, args[0], args[1])}}
	case "copy":
		if a.E.H.Copy != nil {
			a.E.H.Copy(a, st, in, args[0], args[1])
		}
		return []Ret{{st, a.copyTo(st, args[0], args[1])}}
	case "delete":
		if a.E.H.Store != nil {
			a.E.H.Store(a, st, in, &Obj{Name: "map " + st.Tag(args[0])}, VPtr{P: "[map]"}, VNil{})
		}
		return []Ret{{st, VTuple{}}}
	case "panic":
		return nil
	case "recover":
		return []Ret{{st, st.Fresh(in.Type(), "recover")}}
	case "min", "max":
		if in.Type() != nil {
			return []Ret{{st, st.Fresh(in.Type(), b.Name())}}
		}
	case "ssa:wrapnilchk":
		return []Ret{{st, args[0]}}
	}
	if in.Type() == nil {
		return []Ret{{st, VTuple{}}}
	}
	return []Ret{{st, st.Fresh(in.Type(), "builtin "+b.Name())}}
}

func (a *Activation) asSlice(st *State, v Val) VSlice {
	switch v := v.(type) {
	case VSlice:
		return v
	case VStr:
		return VSlice{S: v.S, Len: v.Len, C: v.C}
	case VNil:
		return VSlice{S: 0, Len: VInt{}, C: Const("")}
	}
	return VSlice{S: st.FreshSym(Fact{}), Len: st.FreshLen()}
}

// appendTo is append(x, y...).
func (a *Activation) appendTo(st *State, in ssa.Instruction, x, y Val) Val {
	xs, ys := a.asSlice(st, x), a.asSlice(st, y)
	if _, isNil := y.(VNil); isNil {
		return x
	}
	cy := a.sliceContent(st, ys)
	cx := a.sliceContent(st, xs)
	st.assertLeq(VInt{K: minLen(cy)}, ys.Len, 0)
	if cx == nil {
		if l, ok := st.constOf(xs.Len); ok && l == 0 {
			cx = Const("")
		}
	}
	r := VSlice{C: concat(cx, cy)}
	r.S = st.FreshSym(Fact{Nil: appendNil(st, ys), Tag: st.Tag(x)})
	if c, ok := st.constOf(ys.Len); ok {
		r.Len = VInt{xs.Len.S, xs.Len.K + c}
	} else {
		r.Len = st.sumFresh(types.Typ[types.Int], xs.Len, ys.Len, 1)
	}
	st.assertLeq(VInt{}, r.Len, 0)
	if cx != nil {
		r.Hist = append(append([]Checkpoint(nil), xs.Hist...), Checkpoint{xs.Len, cx})
	}
	if a.E.H.Append != nil {
		a.E.H.Append(a, st, in, xs, ys, r)
	}
	return r
}

func appendNil(st *State, ys VSlice) int8 {
	if lo, _ := st.Range(ys.Len); lo > 0 {
		return 2
	}
	return 0
}

func (a *Activation) copyTo(st *State, x, y Val) Val {
	xs, ys := a.asSlice(st, x), a.asSlice(st, y)
	n := st.FreshLen()
	st.assertLeq(n, xs.Len, 0)
	st.assertLeq(n, ys.Len, 0)
	if xs.Base != 0 {
		o := st.objw(xs.Base)
		if st.Leq(xs.Len, ys.Len, 0) && st.Leq(ys.Len, xs.Len, 0) {
			c := a.sliceContent(st, ys)
			o.Cells = map[string]Val{}
			o.Cells["bytes"] = VStr{S: st.FreshSym(Fact{Tag: "copied"}), Len: ys.Len, C: c}
		} else {
			o.Cells = map[string]Val{"[*]": st.FreshInt(types.Typ[types.Uint8], "copied")}
		}
	}
	return n
}
