package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const (
	lowest  = -16
	highest = 8
)

// pending is what's known about a call that was made: how far the cursor was before it, and how far it movedBy since.
type pending struct{ base, since int }

// byteSet is a set of bytes.
type byteSet [4]uint64

var allBytes = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (s byteSet) empty() bool     { return s == byteSet{} }
func (s byteSet) has(b byte) bool { return s[b>>6]>>(b&63)&1 != 0 }
func (s *byteSet) add(b byte)     { s[b>>6] |= 1 << (b & 63) }
func (s byteSet) or(o byteSet) byteSet {
	return byteSet{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]}
}
func (s byteSet) and(o byteSet) byteSet {
	return byteSet{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}

// How a byte relates to the text.
const (
	unknownByte   = iota
	constByte     // it's always the same
	cursorByte    // it's the one at the cursor
	cursorOrConst // it's the one at the cursor, or 0
)

// movedBy is how far a cursor moved at least since the start.
type movedBy struct {
	ok      bool
	min     int
	param   int                  // it was moved to where this parameter says, counting from 1
	still   bool                 // it certainly wasn't moved
	rets    map[*ssa.Call]uint64 // the ways calls can have returned
	bools   map[ssa.Value]bool   // values that are known
	loads   map[ssa.Value]int    // how far the cursor was where it was read
	current map[ssa.Value]bool   // those that are where the cursor is
	cur     byteSet              // what can be at the cursor
	at      map[ssa.Value]int    // what's the byte at the cursor
	sets    map[ssa.Value]byteSet
	fresh   map[*ssa.Call]bool // calls since which the cursor wasn't moved
}

func newMovedBy(cur byteSet) *movedBy {
	return &movedBy{ok: true, still: true, cur: cur, rets: map[*ssa.Call]uint64{}, bools: map[ssa.Value]bool{}, loads: map[ssa.Value]int{}, current: map[ssa.Value]bool{},
		at: map[ssa.Value]int{}, sets: map[ssa.Value]byteSet{}, fresh: map[*ssa.Call]bool{}}
}

func (m *movedBy) clone() *movedBy {
	c := newMovedBy(m.cur)
	c.ok, c.min, c.still, c.param = m.ok, m.min, m.still, m.param
	for k, v := range m.rets {
		c.rets[k] = v
	}
	for k, v := range m.bools {
		c.bools[k] = v
	}
	for k, v := range m.loads {
		c.loads[k] = v
	}
	for k := range m.current {
		c.current[k] = true
	}
	for k, v := range m.at {
		c.at[k] = v
	}
	for k, v := range m.sets {
		c.sets[k] = v
	}
	for k := range m.fresh {
		c.fresh[k] = true
	}
	return c
}

// left forgets what's known about where the cursor is.
func (m *movedBy) left() {
	m.current, m.at, m.fresh = map[ssa.Value]bool{}, map[ssa.Value]int{}, map[*ssa.Call]bool{}
	m.cur = allBytes
	m.still = false
	m.param = 0
}

func (m *movedBy) lost() {
	m.left()
	m.ok, m.min = false, 0
}

// by moves the cursor.
func (m *movedBy) by(n int) {
	m.left()
	if !m.ok {
		return
	}
	m.min += n
	if m.min > highest {
		m.min = highest
	}
	if m.min < lowest {
		m.lost()
	}
}

// key is what's kept apart.
func (m *movedBy) key() int {
	if m.param > 0 {
		return 200 + m.param
	}
	if !m.ok {
		return 100
	}
	if m.still {
		return 50
	}
	k := max(-3, min(2, m.min))
	if len(m.current) > 0 {
		k += 1000 // what's known about where it is is kept apart
	}
	return k
}

func joinMovedBy(a, b *movedBy) (*movedBy, bool) {
	if a == nil {
		return b.clone(), true
	}
	out, changed := a.clone(), false
	if out.param != b.param && out.param != 0 {
		out.param, changed = 0, true
	}
	if out.ok && !b.ok {
		out.lost()
		changed = true
	}
	if out.ok && b.min < out.min {
		out.min, changed = b.min, true
	}
	if out.still && !b.still {
		out.still, changed = false, true
	}
	for k, v := range out.rets {
		o, ok := b.rets[k]
		if !ok {
			delete(out.rets, k)
			changed = true
		} else if u := v | o; u != v {
			out.rets[k] = u
			changed = true
		}
	}
	for k, v := range out.bools {
		if o, ok := b.bools[k]; !ok || o != v {
			delete(out.bools, k)
			changed = true
		}
	}
	for k, v := range out.loads {
		o, ok := b.loads[k]
		if !ok {
			delete(out.loads, k)
			changed = true
		} else if o < v {
			out.loads[k] = o
			changed = true
		}
	}
	for k := range out.current {
		if !b.current[k] {
			delete(out.current, k)
			changed = true
		}
	}
	for k := range out.fresh {
		if !b.fresh[k] {
			delete(out.fresh, k)
			changed = true
		}
	}
	for k, v := range out.at {
		o, ok := b.at[k]
		if !ok {
			delete(out.at, k)
			changed = true
		} else if o != v && v != cursorOrConst {
			out.at[k] = cursorOrConst
			changed = true
		}
	}
	for k, v := range out.sets {
		o, ok := b.sets[k]
		if !ok {
			delete(out.sets, k)
			changed = true
		} else if u := v.or(o); u != v {
			out.sets[k] = u
			changed = true
		}
	}
	if u := out.cur.or(b.cur); u != out.cur {
		out.cur, changed = u, true
	}
	return out, changed
}

// ending is a way a function returns.
type ending struct {
	ok      bool
	still   bool
	min     int
	param   int
	results []constant.Value // those that are known
	bytes   []int            // how they relate to the cursor
}

// cursor follows a number that says how much of a text was read.
type cursor struct {
	w        *World
	field    string
	fns      []*ssa.Function
	ends     map[*ssa.Function][]ending
	entry    map[*ssa.Function]byteSet // what can be at the cursor when they're called
	roots    map[*ssa.Function]bool
	again    bool
	relevant map[*ssa.Function]bool
	consts   map[*ssa.Function][]constant.Value
	changes  map[*ssa.Function]bool
	analysed map[*ssa.Function]bool
	done     bool
	variants map[string]*variant
	keys     []string
	given    map[ssa.Value]*ssa.Function
	adds     map[*ssa.Function]int // functions that only add one of their parameters
}

// findAdds finds the functions that move the cursor by what they're given.
func (c *cursor) findAdds() {
	c.adds = map[*ssa.Function]int{}
	for _, fn := range c.fns {
		if len(fn.Blocks) != 1 {
			continue
		}
		at := -1
		for _, in := range fn.Blocks[0].Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				at = -2
			case *ssa.Store:
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != c.field || at != -1 {
					at = -2
					continue
				}
				sum, ok := in.Val.(*ssa.BinOp)
				if !ok || sum.Op != token.ADD {
					continue
				}
				for _, p := range [][2]ssa.Value{{sum.X, sum.Y}, {sum.Y, sum.X}} {
					l := loadedField(p[0])
					q, ok := p[1].(*ssa.Parameter)
					if l == nil || fieldName(l) != c.field || !ok {
						continue
					}
					for i, r := range fn.Params {
						if r == q {
							at = i
						}
					}
				}
			}
		}
		if at >= 0 {
			c.adds[fn] = at
		}
	}
}

// constOf returns the value of something that's always the same.
func (c *cursor) constOf(v ssa.Value) constant.Value {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && len(c.consts[f]) == 1 {
			return c.consts[f][0]
		}
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && len(c.consts[f]) > v.Index {
				return c.consts[f][v.Index]
			}
		}
	}
	return nil
}

// alwaysSame finds functions with results that are always the same, like those that record an error.
func (c *cursor) alwaysSame() {
	c.consts = map[*ssa.Function][]constant.Value{}
	for again := true; again; {
		again = false
		for _, fn := range c.fns {
			if c.consts[fn] != nil || fn.Signature.Results().Len() == 0 {
				continue
			}
			out := make([]constant.Value, fn.Signature.Results().Len())
			first, any := true, false
			for _, b := range fn.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for i, v := range ret.Results {
					k := c.constOf(v)
					if first {
						out[i] = k
					} else if out[i] != nil && (k == nil || !constant.Compare(out[i], token.EQL, k)) {
						out[i] = nil
					}
				}
				first = false
			}
			for _, k := range out {
				any = any || k != nil
			}
			if any {
				c.consts[fn] = out
				again = true
			}
		}
	}
}

// relative tells how far a number is from where the cursor started, and from where it is if that's known.
func (c *cursor) relative(m *movedBy, v ssa.Value, seen map[ssa.Value]bool) (far int, here, ok bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if n, ok := m.loads[v]; ok {
			return n, m.current[v], true
		}
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			if s := onlyStore(a); s != nil {
				return c.relative(m, s.Val, seen)
			}
		}
	case *ssa.Phi:
		if seen[v] {
			return 0, false, false
		}
		seen[v] = true
		defer delete(seen, v)
		far, ok = highest, len(v.Edges) > 0
		for _, e := range v.Edges {
			if e == ssa.Value(v) {
				continue
			}
			n, _, known := c.relative(m, e, seen)
			far, ok = min(far, n), ok && known
		}
		return far, false, ok
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			for i, p := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
				if v.Op == token.SUB && i == 1 {
					break
				}
				far, _, ok := c.relative(m, p[0], seen)
				if !ok {
					continue
				}
				if k, isConst := p[1].(*ssa.Const); isConst && k.Value != nil {
					n, _ := constant.Int64Val(constant.ToInt(k.Value))
					if v.Op == token.SUB {
						n = -n
					}
					if n < lowest {
						return 0, false, false
					}
					return far + int(min(n, highest)), false, true
				}
				if v.Op == token.ADD && unsigned(p[1]) {
					return far, false, true
				}
			}
		}
	}
	return 0, false, false
}

// addsTo tells how much more a number is than where the cursor is.
func (c *cursor) addsTo(m *movedBy, v ssa.Value) (int, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return 0, false
	}
	for i, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if !m.current[p[0]] || b.Op == token.SUB && i == 1 {
			continue
		}
		if k, isConst := p[1].(*ssa.Const); isConst && k.Value != nil {
			n, _ := constant.Int64Val(constant.ToInt(k.Value))
			if b.Op == token.SUB {
				n = -n
			}
			if n < lowest {
				return 0, false
			}
			return int(min(n, highest)), true
		}
		if b.Op == token.ADD && unsigned(p[1]) {
			return 0, true
		}
	}
	return 0, false
}

// unsigned tells if a number can't be below zero.
func unsigned(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Convert:
		b, ok := v.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsUnsigned != 0 || unsigned(v.X)
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	case *ssa.BinOp:
		return v.Op == token.ADD && unsigned(v.X) && unsigned(v.Y)
	case *ssa.Const:
		return v.Value != nil && constant.Sign(v.Value) >= 0
	}
	return false
}

// atLeast returns a number that a value isn't below.
func atLeast(v ssa.Value) (int64, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			n, ok := constant.Int64Val(v.Value)
			return n, ok && n >= 0
		}
	case *ssa.Convert:
		if n, ok := atLeast(v.X); ok && sizeOf(v.Type()) == 64 {
			return n, true
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			a, ok1 := atLeast(v.X)
			b, ok2 := atLeast(v.Y)
			return min(a+b, 1000), ok1 && ok2
		}
	}
	return 0, unsigned(v)
}

// onlyStore returns the single place where a variable is set.
func onlyStore(a ssa.Value) *ssa.Store {
	var out *ssa.Store
	refs := a.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a || out != nil {
				return nil
			}
			out = r
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a {
					for _, fr := range *g.FreeVars[i].Referrers() {
						switch fr := fr.(type) {
						case *ssa.Store:
							return nil
						case *ssa.MakeClosure:
							_ = fr
							return nil
						}
					}
				}
			}
		case *ssa.Call:
			// its address is given to a function
		default:
			return nil
		}
	}
	return out
}

// variant is a function that's given certain functions.
type variant struct {
	fn    *ssa.Function
	given map[ssa.Value]*ssa.Function
	ends  []ending
}

// endsOf returns the ways a call returns.
func (c *cursor) endsOf(call ssa.CallInstruction, f *ssa.Function) []ending {
	given := map[ssa.Value]*ssa.Function{}
	key := f.String()
	if call.Common().StaticCallee() == f {
		for i, a := range call.Common().Args {
			if i >= len(f.Params) {
				break
			}
			if g, ok := c.given[a]; ok {
				given[f.Params[i]] = g
			} else if mc, ok := a.(*ssa.MakeClosure); ok {
				given[f.Params[i]] = mc.Fn.(*ssa.Function)
			} else {
				continue
			}
			key += "|" + f.Params[i].Name() + "=" + given[f.Params[i]].String()
		}
	}
	if len(given) == 0 {
		return c.ends[f]
	}
	v := c.variants[key]
	if v == nil {
		if c.done || len(c.variants) > 500 {
			return c.ends[f]
		}
		v = &variant{fn: f, given: given}
		c.variants[key] = v
		c.keys = append(c.keys, key)
		c.again = true
	}
	return v.ends
}

// callees returns what a call can run, of what's analysed.
func (c *cursor) callees(call ssa.CallInstruction) (out []*ssa.Function, outside bool) {
	common := call.Common()
	if f := common.StaticCallee(); f != nil {
		if c.w.InScope(f) && len(f.Blocks) > 0 {
			return []*ssa.Function{f}, false
		}
		for _, a := range common.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
		return out, true
	}
	if _, ok := common.Value.(*ssa.Builtin); ok || common.IsInvoke() {
		return nil, true
	}
	if f, ok := c.given[common.Value]; ok {
		return []*ssa.Function{f}, false
	}
	for _, f := range c.fns {
		if f.Parent() != nil && types.Identical(f.Signature, common.Signature()) {
			out = append(out, f)
		}
	}
	// a function that isn't exported only gets functions of this module
	_, isParam := common.Value.(*ssa.Parameter)
	o := call.Parent().Object()
	return out, !isParam || o == nil || o.Exported()
}

// byteOf tells how a result of a call relates to the cursor.
func (c *cursor) byteOf(m *movedBy, call *ssa.Call, index int) int {
	f := call.Call.StaticCallee()
	if f == nil || !c.w.InScope(f) {
		return unknownByte
	}
	if k, or0, ok := c.indexed(f, index, 0); ok && k < len(call.Call.Args) && m.current[call.Call.Args[k]] {
		if or0 {
			return cursorOrConst
		}
		return cursorByte
	}
	if !m.fresh[call] {
		return unknownByte
	}
	kind := unknownByte
	mask, masked := m.rets[call]
	first := true
	for i, e := range c.endsOf(call, f) {
		if masked && mask>>uint(i)&1 == 0 {
			continue
		}
		k := unknownByte
		if index < len(e.bytes) {
			k = e.bytes[index]
		}
		switch {
		case k == unknownByte:
			return unknownByte
		case first || kind == k:
			kind = k
		default:
			kind = cursorOrConst
		}
		first = false
	}
	if kind == constByte {
		return unknownByte
	}
	return kind
}

// result returns the result of a call if it's known.
func (c *cursor) result(m *movedBy, call *ssa.Call, index int) (out constant.Value) {
	mask, ok := m.rets[call]
	if !ok {
		return nil
	}
	fs, _ := c.callees(call)
	first := true
	for i, e := range c.endsOf(call, fs[0]) {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		if index >= len(e.results) || e.results[index] == nil {
			return nil
		}
		k := e.results[index]
		if !first && (k.Kind() != out.Kind() || !constant.Compare(k, token.EQL, out)) {
			return nil
		}
		out, first = k, false
	}
	return out
}

// indexed tells if a function returns the byte at the index it's given (or 0).
func (c *cursor) indexed(f *ssa.Function, index, depth int) (out int, or0, ok bool) {
	any := false
	out = -1
	if depth > 4 {
		return 0, false, false
	}
	param := func(v ssa.Value) int {
		for i, p := range f.Params {
			if v == ssa.Value(p) {
				return i
			}
		}
		return -1
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if index >= len(ret.Results) {
			return 0, false, false
		}
		at := -1
		v := ret.Results[index]
		if k, isConst := v.(*ssa.Const); isConst {
			if k.Value != nil && k.Value.ExactString() == "0" {
				or0 = true
				continue
			}
			return 0, false, false
		}
		if arr, i := c.element(v); arr != nil {
			at = param(i)
		}
		call, i := callOf(v)
		if call != nil {
			if g := call.Call.StaticCallee(); g != nil && c.w.InScope(g) {
				if k, or, ok := c.indexed(g, i, depth+1); ok && k < len(call.Call.Args) {
					or0 = or0 || or
					at = param(call.Call.Args[k])
				}
			}
		}
		if at < 0 || any && at != out {
			return 0, false, false
		}
		out, any = at, true
	}
	return out, or0, any
}

// element tells of what text a value is a byte, at what index.
func (c *cursor) element(v ssa.Value) (text, index ssa.Value) {
	switch v := v.(type) {
	case *ssa.Lookup:
		if isText(v.X.Type()) {
			text, index = v.X, v.Index
		}
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL && isByteSlice(ia.X.Type()) {
			text, index = ia.X, ia.Index
		}
	}
	if text == nil {
		return nil, nil
	}
	if fa := loadedField(text); fa == nil {
		return nil, nil
	}
	return text, index
}

func callOf(v ssa.Value) (*ssa.Call, int) {
	switch v := v.(type) {
	case *ssa.Call:
		return v, 0
	case *ssa.Extract:
		c, _ := v.Tuple.(*ssa.Call)
		return c, v.Index
	}
	return nil, 0
}

func byteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// know records what's known of a value.
func (c *cursor) know(m *movedBy, v ssa.Value, kind int) {
	delete(m.sets, v)
	delete(m.at, v)
	if kind == cursorByte || kind == cursorOrConst {
		m.at[v] = kind
		set := m.cur
		if kind == cursorOrConst {
			set.add(0)
		}
		m.sets[v] = set
	}
}

func (c *cursor) step(m *movedBy, in ssa.Instruction) (forks []*movedBy) {
	if v, ok := in.(ssa.Value); ok && byteType(v.Type()) {
		if _, isPhi := in.(*ssa.Phi); !isPhi {
			kind := unknownByte
			if _, i := c.element(v); i != nil && m.current[i] {
				kind = cursorByte
			} else if call, i := callOf(v); call != nil {
				if _, isExtract := v.(*ssa.Extract); isExtract {
					kind = c.byteOf(m, call, i)
				}
			}
			c.know(m, v, kind)
		}
	}
	if v, ok := in.(ssa.Value); ok {
		if _, isPhi := in.(*ssa.Phi); !isPhi {
			delete(m.bools, v)
		}
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if fa := loadedField(in); fa != nil && fieldName(fa) == c.field {
			delete(m.loads, in)
			delete(m.current, in)
			if m.ok {
				m.loads[in] = m.min
			}
			m.current[in] = true
		}
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == c.field {
			if m.current[in.Val] {
				return
			}
			if n, ok := c.addsTo(m, in.Val); ok {
				m.by(n)
				return
			}
			far, _, ok := c.relative(m, in.Val, map[ssa.Value]bool{})
			m.left()
			if !ok || far < lowest {
				m.lost()
				if p, isParam := in.Val.(*ssa.Parameter); isParam {
					for i, q := range p.Parent().Params {
						if q == p && i < 8 {
							m.param = i + 1
						}
					}
				}
				return
			}
			m.ok, m.min = true, min(far, highest)
			return
		}
		if n, ok := in.Val.Type().(*types.Named); ok && hasPrefixDot(c.field, n) {
			m.lost()
		}
	case *ssa.RunDefers:
		for _, b := range in.Parent().Blocks {
			for _, d := range b.Instrs {
				if d, ok := d.(*ssa.Defer); ok {
					c.deferred(m, d, in)
				}
			}
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Defer); ok {
			return
		}
		call, isCall := in.(*ssa.Call)
		fs, maybe := c.callees(in)
		if len(fs) == 0 {
			return
		}
		for _, f := range fs {
			if e, ok := c.entry[f]; !ok || e.or(m.cur) != e {
				c.entry[f] = e.or(m.cur)
				c.again = true
			}
		}
		if i, adds := c.adds[fs[0]]; adds && len(fs) == 1 && !maybe && i < len(in.Common().Args) {
			arg := in.Common().Args[i]
			if k, isConst := arg.(*ssa.Const); isConst && k.Value != nil {
				n, _ := constant.Int64Val(constant.ToInt(k.Value))
				if n < lowest {
					m.lost()
				} else {
					m.by(int(min(n, highest)))
				}
			} else if n, ok := atLeast(arg); ok {
				m.by(int(min(n, highest)))
			} else {
				m.lost()
			}
			return
		}
		if len(fs) == 1 && !maybe {
			f := fs[0]
			if isCall {
				delete(m.rets, call)
			}
			if !c.relevant[f] || c.done && !c.analysed[f] {
				if isCall {
					m.fresh[call] = true
				}
				if c.changes[f] {
					m.lost()
				}
				return
			}
			// every way it returns, those that move the cursor as much together
			groups := map[int]*movedBy{}
			masks := map[int]uint64{}
			ends := c.endsOf(in, f)
			for i, e := range ends {
				o := m.clone()
				if !e.still {
					if e.param > 0 {
						far, ok := 0, false
						if e.param <= len(in.Common().Args) {
							arg := in.Common().Args[e.param-1]
							far, _, ok = c.relative(m, arg, map[ssa.Value]bool{})
							if p, isParam := arg.(*ssa.Parameter); isParam && !ok {
								o.lost()
								for i, q := range p.Parent().Params {
									if q == p && i < 8 {
										o.param = i + 1
									}
								}
							} else if !ok || far < lowest {
								o.lost()
							} else {
								o.left()
								o.ok, o.min = true, min(far, highest)
							}
						} else {
							o.lost()
						}
					} else if !e.ok {
						o.lost()
					} else {
						o.by(e.min)
					}
				}
				k := o.key()
				if groups[k] == nil {
					groups[k] = o
				} else {
					groups[k], _ = joinMovedBy(groups[k], o)
				}
				masks[k] |= 1 << uint(i&63)
			}
			for _, k := range movedKeys {
				o := groups[k]
				if o == nil {
					continue
				}
				if isCall {
					if len(ends) <= 64 {
						o.rets[call] = masks[k]
					}
					o.fresh[call] = true
					if byteType(call.Type()) {
						c.know(o, call, c.byteOf(o, call, 0))
					}
				}
				forks = append(forks, o)
			}
			if len(forks) == 0 {
				forks = []*movedBy{}
			}
			return forks
		}
		least, ok, moves := highest, true, false
		if maybe {
			least = 0
		}
		for _, f := range fs {
			if !c.changes[f] {
				least = min(least, 0)
				continue
			}
			moves = true
			for _, e := range c.ends[f] {
				ok = ok && e.ok
				least = min(least, e.min)
			}
		}
		if moves {
			if !ok {
				m.lost()
			} else {
				m.by(least)
			}
		}
	}
	return
}

// deferred is what a deferred call does to the cursor.
func (c *cursor) deferred(m *movedBy, d *ssa.Defer, at *ssa.RunDefers) {
	fs, _ := c.callees(d)
	for _, f := range fs {
		if !c.changes[f] {
			continue
		}
		mc, ok := d.Call.Value.(*ssa.MakeClosure)
		if !ok || len(fs) != 1 || !d.Block().Dominates(at.Block()) {
			m.lost()
			return
		}
		// it may only put the cursor back where it was
		var value ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					m.lost()
					return
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || fieldName(fa) != c.field {
						continue
					}
					load, ok := in.Val.(*ssa.UnOp)
					if !ok || value != nil || len(f.Blocks) > 1 {
						m.lost()
						return
					}
					for i, fv := range f.FreeVars {
						if load.X == ssa.Value(fv) {
							value = mc.Bindings[i]
						}
					}
				}
			}
		}
		if value == nil {
			m.lost()
			return
		}
		s := onlyStore(value)
		if s == nil {
			m.lost()
			return
		}
		far, _, ok := c.relative(m, s.Val, map[ssa.Value]bool{})
		if !ok || far < lowest {
			m.lost()
			return
		}
		m.left()
		m.ok, m.min = true, min(far, highest)
	}
}

var movedKeys = []int{-3, -2, -1, 0, 1, 2, 50, 100, 201, 202, 203, 204, 205, 206, 207, 208, 997, 998, 999, 1000, 1001, 1002}

func hasPrefixDot(field string, n *types.Named) bool {
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "."
	return len(field) > len(p) && field[:len(p)] == p
}

// refine adds what a comparison tells about how far a call movedBy the cursor.
func (c *cursor) refine(m *movedBy, cond ssa.Value, side bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return c.refine(m, u.X, !side)
	}
	var v ssa.Value
	op, with := token.EQL, constant.MakeBool(true)
	if b, ok := cond.(*ssa.BinOp); ok {
		op = b.Op
		if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
			v, with = b.X, k.Value
		} else {
			return true
		}
	} else {
		v = cond
	}
	if with.Kind() == constant.Bool && (op == token.EQL || op == token.NEQ) {
		want := (op == token.EQL) == (constant.BoolVal(with) == side)
		if k, ok := m.bools[v]; ok && k != want {
			return false
		}
		m.bools[v] = want
	}
	index := 0
	var call *ssa.Call
	switch v := v.(type) {
	case *ssa.Call:
		call = v
	case *ssa.Extract:
		call, _ = v.Tuple.(*ssa.Call)
		index = v.Index
	}
	if byteType(v.Type()) && with.Kind() == constant.Int && comparable2(op) {
		set, known := m.sets[v]
		if !known {
			set = allBytes
		}
		var can byteSet
		for b := 0; b < 256; b++ {
			if set.has(byte(b)) && constant.Compare(constant.MakeInt64(int64(b)), op, with) == side {
				can.add(byte(b))
			}
		}
		if can.empty() {
			return false
		}
		m.sets[v] = can
		if k, ok := m.at[v]; ok && (k == cursorByte || !can.has(0)) {
			m.at[v] = cursorByte
			if m.cur = m.cur.and(can); m.cur.empty() {
				return false
			}
		}
	}
	if call == nil {
		return true
	}
	mask, ok := m.rets[call]
	fs, _ := c.callees(call)
	if !ok || len(fs) != 1 {
		return true
	}
	for i, e := range c.endsOf(call, fs[0]) {
		if index >= len(e.results) || mask>>uint(i)&1 == 0 {
			continue
		}
		if k := e.results[index]; k != nil && k.Kind() == with.Kind() && comparable2(op) && constant.Compare(k, op, with) != side {
			mask &^= 1 << uint(i)
		}
	}
	m.rets[call] = mask
	return mask != 0
}

func comparable2(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

// enter takes what's known over an edge.
func (c *cursor) enter(m *movedBy, b, s *ssa.BasicBlock) {
	at := -1
	for i, p := range s.Preds {
		if p == b {
			at = i
		}
	}
	type fact struct {
		v    ssa.Value
		set  byteSet
		has  bool
		kind int
	}
	var facts []fact
	for _, in := range s.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if at >= 0 {
			delete(m.bools, phi)
			if k, ok := phi.Edges[at].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				m.bools[phi] = constant.BoolVal(k.Value)
			}
		}
		if at < 0 || !byteType(phi.Type()) {
			continue
		}
		f := fact{v: phi}
		e := phi.Edges[at]
		if k, ok := e.(*ssa.Const); ok && k.Value != nil {
			f.has = true
			f.set.add(byte(k.Uint64()))
		} else {
			f.set, f.has = m.sets[e]
			f.kind = m.at[e]
		}
		facts = append(facts, f)
	}
	for _, f := range facts {
		delete(m.sets, f.v)
		delete(m.at, f.v)
		if f.has {
			m.sets[f.v] = f.set
		}
		if f.kind != 0 {
			m.at[f.v] = f.kind
		}
	}
}

type movedStates map[int]*movedBy

// flow goes through (part of) a function, and returns what's known at the edges back to the start.
func (c *cursor) flow(fn *ssa.Function, from *ssa.BasicBlock, within map[*ssa.BasicBlock]bool, visit func(m *movedBy, in ssa.Instruction)) (back []*movedBy) {
	start := newMovedBy(allBytes)
	if within == nil && !c.roots[fn] {
		start.cur = c.entry[fn]
	}
	in := map[*ssa.BasicBlock]movedStates{from: {50: start}}
	todo := []*ssa.BasicBlock{from}
	run := func(b *ssa.BasicBlock, s *movedBy, visit func(m *movedBy, in ssa.Instruction)) []*movedBy {
		states := []*movedBy{s.clone()}
		for _, i := range b.Instrs {
			next := states[:0:0]
			forked := false
			for _, m := range states {
				if visit != nil {
					visit(m, i)
				}
				if forks := c.step(m, i); forks != nil {
					next = append(next, forks...)
					forked = true
				} else {
					next = append(next, m)
				}
			}
			if forked && len(next) > 1 {
				by := map[int]*movedBy{}
				for _, m := range next {
					by[m.key()], _ = joinMovedBy(by[m.key()], m)
				}
				next = next[:0:0]
				for _, k := range movedKeys {
					if by[k] != nil {
						next = append(next, by[k])
					}
				}
			}
			states = next
		}
		return states
	}
	edges := func(b *ssa.BasicBlock, out *movedBy, do func(s *ssa.BasicBlock, m *movedBy)) {
		for i, s := range b.Succs {
			if within != nil && !within[s] {
				continue
			}
			m := out.clone()
			if cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if !c.refine(m, cond.Cond, i == 0) {
					continue
				}
			}
			c.enter(m, b, s)
			do(s, m)
		}
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, k := range movedKeys {
			if in[b][k] == nil {
				continue
			}
			for _, out := range run(b, in[b][k], nil) {
				edges(b, out, func(s *ssa.BasicBlock, m *movedBy) {
					if within != nil && s == from {
						return
					}
					if in[s] == nil {
						in[s] = movedStates{}
					}
					old := in[s][m.key()]
					j, changed := joinMovedBy(old, m)
					if changed {
						in[s][m.key()] = j
						todo = append(todo, s)
					}
				})
			}
		}
	}
	var blocks []*ssa.BasicBlock
	for b := range in {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, k := range movedKeys {
			if in[b][k] == nil {
				continue
			}
			for _, out := range run(b, in[b][k], visit) {
				if within == nil {
					continue
				}
				edges(b, out, func(s *ssa.BasicBlock, m *movedBy) {
					if s == from {
						back = append(back, m)
					}
				})
			}
		}
	}
	return back
}

// newCursor follows a field through the functions.
func (w *World) newCursor(field string, fns []*ssa.Function) *cursor {
	c := &cursor{w: w, field: field, fns: fns, ends: map[*ssa.Function][]ending{}, entry: map[*ssa.Function]byteSet{}, roots: map[*ssa.Function]bool{}, changes: map[*ssa.Function]bool{}, analysed: map[*ssa.Function]bool{}, variants: map[string]*variant{}}
	c.alwaysSame()
	c.findAdds()
	direct := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == field {
						direct[fn] = true
					}
					if n, ok := s.Val.Type().(*types.Named); ok && hasPrefixDot(field, n) {
						direct[fn] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range fns {
			if c.changes[fn] {
				continue
			}
			is := direct[fn]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && !is {
						fs, _ := c.callees(call)
						for _, f := range fs {
							is = is || c.changes[f]
						}
					}
				}
			}
			if is {
				c.changes[fn] = true
				again = true
			}
		}
	}
	called := w.callSites()
	for _, fn := range fns {
		o := fn.Object()
		c.roots[fn] = len(called[fn]) == 0 || o != nil && o.Exported() || fn.Parent() != nil
		for _, f := range w.functions() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops []*ssa.Value
					for i, op := range in.Operands(ops) {
						if call, ok := in.(ssa.CallInstruction); ok && i == 0 && call.Common().StaticCallee() == fn {
							continue
						}
						if *op == ssa.Value(fn) {
							c.roots[fn] = true
						}
					}
				}
			}
		}
	}
	c.relevant = map[*ssa.Function]bool{}
	for _, fn := range fns {
		c.relevant[fn] = c.changes[fn]
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if byteType(fn.Signature.Results().At(i).Type()) {
				c.relevant[fn] = true
			}
		}
	}
	c.again = true
	n := 0
	for ; c.again && n < 80; n++ {
		c.again = false
		for _, fn := range fns {
			if _, reached := c.entry[fn]; !c.relevant[fn] || !reached && !c.roots[fn] {
				continue
			}
			c.analysed[fn] = true
			if ends := c.endings(fn); !sameEnds(c.ends[fn], ends) {
				c.ends[fn] = ends
				c.again = true
			}
		}
		for i := 0; i < len(c.keys); i++ {
			v := c.variants[c.keys[i]]
			c.given = v.given
			if ends := c.endings(v.fn); !sameEnds(v.ends, ends) {
				v.ends = ends
				c.again = true
			}
			c.given = nil
		}
	}
	c.done = true
	debugf("%s: %d rounds", field, n)
	for _, fn := range fns {
		for _, e := range c.ends[fn] {
			debugf("end of %s: %v %d %v %v %v entry %v", fn.Name(), e.ok, e.min, e.still, e.results, e.bytes, c.entry[fn])
		}
	}
	if c.again {
		// give up
		for _, fn := range fns {
			for i := range c.ends[fn] {
				c.ends[fn][i].ok, c.ends[fn][i].still = false, false
			}
		}
		for _, v := range c.variants {
			for i := range v.ends {
				v.ends[i].ok, v.ends[i].still = false, false
			}
		}
	}
	return c
}

// endings finds the ways a function returns.
func (c *cursor) endings(fn *ssa.Function) (ends []ending) {
	c.flow(fn, fn.Blocks[0], nil, func(m *movedBy, in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		e := ending{ok: m.ok, min: m.min, still: m.still, param: m.param}
		for _, v := range ret.Results {
			k := c.constOf(v)
			if known, ok := m.bools[v]; ok {
				k = constant.MakeBool(known)
			} else if call, j := callOf(v); k == nil && call != nil {
				k = c.result(m, call, j)
			}
			e.results = append(e.results, k)
			kind := m.at[v]
			if k != nil && k.ExactString() == "0" {
				kind = constByte
			}
			e.bytes = append(e.bytes, kind)
		}
		for _, o := range ends {
			if sameEnd(o, e) {
				return
			}
		}
		ends = append(ends, e)
	})
	return ends
}

func sameEnds(a, b []ending) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameEnd(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameEnd(a, b ending) bool {
	if a.ok != b.ok || a.min != b.min || a.still != b.still || a.param != b.param {
		return false
	}
	for j := range a.bytes {
		if a.bytes[j] != b.bytes[j] {
			return false
		}
		if x, y := a.results[j], b.results[j]; (x == nil) != (y == nil) || x != nil && (x.Kind() != y.Kind() || !constant.Compare(x, token.EQL, y)) {
			return false
		}
	}
	return true
}
