package absint

import "go/types"

// bufType is the type of the content of bytes.Buffer and strings.Builder.
var bufType = types.NewSlice(types.Typ[types.Uint8])

const bufCell = ".buf"

// bufAppend is a model of a method that appends its argument to a buffer.
func bufAppend(kind string) Model {
	return func(c *CallCtx) []Ret {
		p, ok := c.Args[0].(VPtr)
		if !ok {
			return nil
		}
		var y Val
		switch kind {
		case "byte":
			s := VSlice{S: c.St.FreshSym(Fact{Nil: 2}), Len: VInt{K: 1}}
			if i, ok := c.Args[1].(VInt); ok {
				if set, ok := c.St.setOf(i); ok {
					s.C = seqContent([]Set{set})
				}
			}
			y = s
		case "rune":
			s := VSlice{S: c.St.FreshSym(Fact{Nil: 2}), Len: c.St.FreshLen()}
			if i, ok := c.Args[1].(VInt); ok {
				if lo, hi := c.St.Range(i); lo == hi && lo >= 0 && lo < 128 {
					s.C = Const(string(rune(lo)))
					s.Len = VInt{K: 1}
				}
			}
			y = s
		default:
			y = c.Args[1]
		}
		at := VPtr{O: p.O, P: p.P + bufCell}
		cur := c.St.Load(at, bufType)
		v := c.Act.appendTo(c.St, c.Instr, cur, y)
		if c.E.H.Store != nil {
			c.E.H.Store(c.Act, c.St, c.Instr, c.St.heap[p.O], at, v)
		}
		c.St.objw(p.O).Cells[at.P] = v
		return fresh(c, "call:buffer")
	}
}

func bufRead(str bool) Model {
	return func(c *CallCtx) []Ret {
		p, ok := c.Args[0].(VPtr)
		if !ok {
			return nil
		}
		v := c.Act.asSlice(c.St, c.St.Load(VPtr{O: p.O, P: p.P + bufCell}, bufType))
		if str {
			return []Ret{{c.St, VStr{S: c.St.FreshSym(Fact{}), Len: v.Len, C: c.Act.sliceContent(c.St, v)}}}
		}
		return []Ret{{c.St, v}}
	}
}

func bufLen(c *CallCtx) []Ret {
	p, ok := c.Args[0].(VPtr)
	if !ok {
		return nil
	}
	return []Ret{{c.St, c.Act.asSlice(c.St, c.St.Load(VPtr{O: p.O, P: p.P + bufCell}, bufType)).Len}}
}

func bufReset(c *CallCtx) []Ret {
	p, ok := c.Args[0].(VPtr)
	if !ok {
		return nil
	}
	c.St.objw(p.O).Cells[p.P+bufCell] = VNil{}
	return []Ret{{c.St, VTuple{}}}
}

func bufNew(c *CallCtx) []Ret {
	t := c.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	id := c.St.newObj(&Obj{T: t, Zero: true, Cells: map[string]Val{}})
	v := c.Args[0]
	if _, ok := v.(VStr); ok {
		v = c.Act.asSlice(c.St, v)
	}
	c.St.objw(id).Cells[bufCell] = v
	return []Ret{{c.St, VPtr{O: id}}}
}

func bufferModels(m map[string]Model) {
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		m[t+"Write"] = bufAppend("")
		m[t+"WriteString"] = bufAppend("")
		m[t+"WriteByte"] = bufAppend("byte")
		m[t+"WriteRune"] = bufAppend("rune")
		m[t+"Len"] = bufLen
		m[t+"String"] = bufRead(true)
		m[t+"Bytes"] = bufRead(false)
		m[t+"Reset"] = bufReset
		m[t+"Grow"] = nothing
	}
	m["bytes.NewBuffer"] = bufNew
	m["bytes.NewBufferString"] = bufNew
}
