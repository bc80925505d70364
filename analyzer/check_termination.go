package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Progress analysis of the SSA of everything a request can run. Every loop must have something that ends it: a counter that's compared, a range, a structure that's "+
		"descended, or a cursor that moves on on every path of every turn while the end of the text is looked for. Every recursion must be bounded: the size-change graphs of all calls "+
		"between functions that call each other are closed under composition, and each cycle must raise a number that's compared with a limit, descend a type or a value, or drop a flag it needs.", runTermination)
}

func runTermination(r *Report) {
	w := r.W
	fns := w.requestFuncs()
	var cursors []*cursor
	for _, field := range w.cursorFields(fns) {
		cursors = append(cursors, w.newCursor(field, fns))
	}
	r.Need("cursors", len(cursors), 2)
	t := &terms{r: r, w: w, fns: fns, cursors: cursors}
	t.findEnds()
	for _, fn := range fns {
		t.loops(fn)
	}
	r.Need("loops", r.Counts["loops"], 20)
	t.recursions()
	r.Need("functions that call each other", r.Counts["functions that call each other"], 3)
	r.Assume = append(r.Assume,
		"the descriptions of types and inputs made by Parse are trees, except where they name another type",
		"what implements an interface isn't an interface itself",
		"the JSON parser bounds the nesting of what it parses, and resolvers, directives and readers of requests return")
}

// cursorFields are the numbers of the parser and of a request that are counted up and used as index.
func (w *World) cursorFields(fns []*ssa.Function) []string {
	counted, index := map[string]bool{}, map[string]bool{}
	params := map[*ssa.Parameter]bool{}
	for again := true; again; {
		again = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					use := func(v ssa.Value) {
						if bo, ok := v.(*ssa.BinOp); ok {
							v = bo.X
						}
						if fa := loadedField(v); fa != nil {
							index[fieldName(fa)] = true
						}
						if p, ok := v.(*ssa.Parameter); ok && !params[p] {
							params[p] = true
							again = true
						}
					}
					switch in := in.(type) {
					case *ssa.IndexAddr:
						if isByteSlice(in.X.Type()) {
							use(in.Index)
						}
					case *ssa.Lookup:
						if isText(in.X.Type()) {
							use(in.Index)
						}
					case *ssa.Index:
						use(in.Index)
					case ssa.CallInstruction:
						if f := in.Common().StaticCallee(); f != nil {
							for i, a := range in.Common().Args {
								if i < len(f.Params) && params[f.Params[i]] {
									use(a)
								}
							}
						}
					case *ssa.Store:
						if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
							if s, ok := in.Val.(*ssa.BinOp); ok && s.Op == token.ADD {
								if l := loadedField(s.X); l != nil && fieldName(l) == fieldName(fa) {
									counted[fieldName(fa)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	var out []string
	for f := range counted {
		if index[f] {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

type terms struct {
	r       *Report
	w       *World
	fns     []*ssa.Function
	cursors []*cursor
	ends    map[*ssa.Function][]bool // results that are true at the end of a text
	reads   map[*ssa.Function]bool   // functions that read at an index on every path
}

// isLen tells if a value is the length of a text.
func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && (isByteSlice(c.Call.Args[0].Type()) || isText(c.Call.Args[0].Type()))
}

// atEnd tells on which side of a condition the end of a text was reached.
func (t *terms) atEnd(v ssa.Value) (side, ok bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			side, ok = t.atEnd(v.X)
			return !side, ok
		}
	case *ssa.BinOp:
		x, y, op := v.X, v.Y, v.Op
		if isLen(x) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if isLen(y) && !isLen(x) {
			if _, isConst := x.(*ssa.Const); isConst {
				return false, false
			}
			switch op {
			case token.GEQ, token.GTR, token.EQL:
				return op != token.GTR, op != token.GTR
			case token.LSS, token.NEQ:
				return false, true
			}
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && len(t.ends[f]) == 1 && t.ends[f][0] {
			return true, true
		}
	case *ssa.Extract:
		if c, isCall := v.Tuple.(*ssa.Call); isCall {
			if f := c.Call.StaticCallee(); f != nil && len(t.ends[f]) > v.Index && t.ends[f][v.Index] {
				return true, true
			}
		}
	}
	return false, false
}

// findEnds finds the functions that tell that the end of a text was reached, and those that can't be left without reading.
func (t *terms) findEnds() {
	t.ends, t.reads = map[*ssa.Function][]bool{}, map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, fn := range t.fns {
			n := fn.Signature.Results().Len()
			if t.ends[fn] == nil {
				t.ends[fn] = make([]bool, n)
			}
			for _, b := range fn.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				ended := false
				for d := b.Idom(); d != nil && !ended; d = d.Idom() {
					cond, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					side, ok := t.atEnd(cond.Cond)
					if !ok {
						continue
					}
					s := d.Succs[1]
					if side {
						s = d.Succs[0]
					}
					ended = len(s.Preds) == 1 && s.Dominates(b)
				}
				for i, v := range ret.Results {
					if t.ends[fn][i] || !types.Identical(v.Type().Underlying(), types.Typ[types.Bool]) {
						continue
					}
					side, ok := t.atEnd(v)
					is := ok && side
					if ended && !is {
						k := t.cursors[0].constOf(v)
						is = k != nil && k.ExactString() == "true"
					}
					if is {
						t.ends[fn][i] = true
						again = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range t.fns {
			if !t.reads[fn] && !t.pathWithout(fn, fn.Blocks[0], nil, func(in ssa.Instruction) bool { return t.isRead(in) }, nil) {
				t.reads[fn] = true
				again = true
			}
		}
	}
}

// isRead tells if an instruction only can be passed when there's something left to read.
func (t *terms) isRead(in ssa.Instruction) bool {
	indexed := func(v ssa.Value) bool {
		_, isConst := v.(*ssa.Const)
		return !isConst
	}
	switch in := in.(type) {
	case *ssa.IndexAddr:
		return isByteSlice(in.X.Type()) && indexed(in.Index)
	case *ssa.Lookup:
		return isText(in.X.Type()) && indexed(in.Index)
	case *ssa.Call:
		if f := in.Call.StaticCallee(); f != nil {
			return t.reads[f]
		}
	}
	return false
}

// pathWithout tells if there's a path from a block to itself (or to a return, if body is nil) without passing something.
func (t *terms) pathWithout(fn *ssa.Function, from *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, stops func(in ssa.Instruction) bool, edge func(b *ssa.BasicBlock, i int) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{from}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		stopped := false
		for _, in := range b.Instrs {
			if stops(in) {
				stopped = true
				break
			}
			if _, ok := in.(*ssa.Return); ok && body == nil {
				return true
			}
		}
		if stopped {
			continue
		}
		for i, s := range b.Succs {
			if edge != nil && edge(b, i) {
				continue
			}
			if body != nil {
				if s == from {
					return true
				}
				if !body[s] {
					continue
				}
			}
			todo = append(todo, s)
		}
	}
	return false
}

// loopsOf returns the loops of a function: the block they start with, and all of their blocks.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := out[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				out[h] = body
			}
			todo := []*ssa.BasicBlock{b}
			for len(todo) > 0 {
				x := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				if body[x] {
					continue
				}
				body[x] = true
				todo = append(todo, x.Preds...)
			}
		}
	}
	return out
}

func (t *terms) loops(fn *ssa.Function) {
	all := loopsOf(fn)
	var heads []*ssa.BasicBlock
	for h := range all {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
	for _, h := range heads {
		body := all[h]
		t.r.Count("loops", 1)
		why, bad := t.loopEnds(fn, h, body)
		if t.r.Obl(bad == "") {
			t.r.Sample("%s: %s", t.w.Pos(blockPos(h, body)), why)
			t.r.Count("loops that end by "+why, 1)
			continue
		}
		t.r.Bad(fn, blockPos(h, body), "loop", fn.Name(), "%s", bad)
	}
}

func blockPos(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) token.Pos {
	var out token.Pos
	for b := range body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (out == token.NoPos || p < out) {
				if _, ok := in.(*ssa.Phi); !ok {
					out = p
				}
			}
		}
	}
	return out
}

// loopEnds tells what ends a loop.
func (t *terms) loopEnds(fn *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (why, bad string) {
	latches := map[*ssa.BasicBlock]bool{}
	for _, p := range h.Preds {
		if body[p] {
			latches[p] = true
		}
	}
	every := func(b *ssa.BasicBlock) bool { // is it passed in every turn
		for l := range latches {
			if !b.Dominates(l) {
				return false
			}
		}
		return true
	}
	for b := range body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && every(b) {
				_ = n
				return "a range", ""
			}
		}
	}
	// a counter
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		steps, up, down, descends := 0, 0, 0, 0
		for i, p := range h.Preds {
			if !latches[p] {
				continue
			}
			steps++
			if k, ok := stepOf(phi.Edges[i], phi, 0); ok {
				if k > 0 {
					up++
				} else if k < 0 {
					down++
				}
			}
			if descendsFrom(phi.Edges[i], phi, 0) {
				descends++
			}
		}
		if steps > 0 && descends == steps {
			return "a structure", ""
		}
		if steps == 0 || up != steps && down != steps {
			continue
		}
		// what's in a text or list at the counter is read in every turn
		for b := range body {
			if !every(b) {
				continue
			}
			for _, in := range b.Instrs {
				var index ssa.Value
				switch in := in.(type) {
				case *ssa.IndexAddr:
					index = in.Index
				case *ssa.Index:
					index = in.Index
				case *ssa.Lookup:
					if isText(in.X.Type()) {
						index = in.Index
					}
				}
				if index != nil {
					if _, ok := stepOf(index, phi, 0); ok {
						return "a counter", ""
					}
				}
			}
		}
		for b := range body {
			cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !every(b) {
				continue
			}
			cmp, ok := cond.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			leaves := -1
			for i, s := range b.Succs {
				if !body[s] {
					leaves = i
				}
			}
			if leaves < 0 {
				continue
			}
			for _, p := range []struct {
				x, y ssa.Value
				op   token.Token
			}{{cmp.X, cmp.Y, cmp.Op}, {cmp.Y, cmp.X, flip(cmp.Op)}} {
				if _, ok := stepOf(p.x, phi, 0); !ok && p.x != ssa.Value(phi) {
					continue
				}
				if y, ok := p.y.(ssa.Instruction); ok && body[y.Block()] && !isLoadOrLen(p.y) {
					continue
				}
				op := p.op
				if leaves == 1 {
					op = negated(op)
				}
				if up == steps && (op == token.GEQ || op == token.GTR || op == token.EQL) || down == steps && (op == token.LSS || op == token.LEQ || op == token.EQL) {
					return "a counter", ""
				}
			}
		}
	}
	// a list that gets longer until it's long enough, or shorter until there's nothing left
	for b := range body {
		if !every(b) {
			continue
		}
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if app, ok := s.Val.(*ssa.Call); ok {
				if bi, ok := app.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && t.leavesOnLen(body, every, fieldName(fa)) {
					return "a list that grows", ""
				}
			}
			if sl, ok := s.Val.(*ssa.Slice); ok && sl.High != nil {
				if hi, ok := sl.High.(*ssa.BinOp); ok && hi.Op == token.SUB {
					if k, ok := hi.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 {
						return "a list that shrinks", ""
					}
				}
			}
		}
	}
	bad = "nothing ends this loop: no cursor moves on in every turn"
	never := len(t.cursors) > 0
	for _, c := range t.cursors {
		back := c.flow(fn, h, body, nil)
		moves := len(back) > 0
		for _, m := range back {
			moves = moves && m.ok && m.min >= 1
		}
		debugf("%s %s: %v", t.w.Pos(blockPos(h, body)), c.field, moves)
		never = never && len(back) == 0
		if !moves {
			continue
		}
		if t.pathWithout(fn, h, body, t.isRead, func(b *ssa.BasicBlock, i int) bool {
			cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			side, ok := t.atEnd(cond.Cond)
			if !ok {
				return false
			}
			// the side where the end wasn't reached, if the other one leaves the loop
			at := 1
			if side {
				at = 0
			}
			return i != at && !body[b.Succs[at]]
		}) {
			bad = "nothing ends this loop at the end of the text"
			continue
		}
		return "a cursor", ""
	}
	if never {
		return "never being repeated", ""
	}
	return "", bad
}

// leavesOnLen tells if a loop is left depending on the length of a field.
func (t *terms) leavesOnLen(body map[*ssa.BasicBlock]bool, every func(b *ssa.BasicBlock) bool, field string) bool {
	for b := range body {
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !every(b) || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		cmp, ok := cond.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, v := range []ssa.Value{cmp.X, cmp.Y} {
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if fa := loadedField(c.Call.Args[0]); fa != nil && fieldName(fa) == field {
						return true
					}
				}
			}
		}
	}
	return false
}

func isLoadOrLen(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.MUL
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if ok && b.Name() == "len" {
			return true
		}
		// (reflect.Type).NumField() and the like
		return strings.HasPrefix(calleeName(v), "(reflect.")
	}
	return false
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negated(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// stepOf tells if a value is more or less than at the start of the turn.
func stepOf(v ssa.Value, phi *ssa.Phi, depth int) (int64, bool) {
	s := stepsOf(v, phi, depth)
	switch {
	case s.hasLow && s.low > 0:
		return s.low, true
	case s.hasHigh && s.high < 0:
		return s.high, true
	}
	return 0, s.hasLow || s.hasHigh
}

type steps struct {
	low, high       int64
	hasLow, hasHigh bool
}

func stepsOf(v ssa.Value, phi *ssa.Phi, depth int) (out steps) {
	if v == ssa.Value(phi) {
		return steps{hasLow: true, hasHigh: true}
	}
	if depth > 6 {
		return
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		if e, ok := v.Y.(*ssa.Extract); ok && v.Op == token.ADD && e.Index == 1 {
			// the size of a character isn't 0
			if c, ok := e.Tuple.(*ssa.Call); ok && strings.HasPrefix(calleeName(c), "unicode/utf8.DecodeRune") {
				out = stepsOf(v.X, phi, depth+1)
				out.low, out.high = out.low+1, out.high+4
				return
			}
		}
		k, ok := v.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int || v.Op != token.ADD && v.Op != token.SUB {
			return
		}
		n := k.Int64()
		if v.Op == token.SUB {
			n = -n
		}
		out = stepsOf(v.X, phi, depth+1)
		out.low, out.high = out.low+n, out.high+n
		return
	case *ssa.Phi:
		out = steps{low: 1 << 40, high: -1 << 40, hasLow: true, hasHigh: true}
		any := false
		for _, e := range v.Edges {
			if depth < 5 {
				// edges that come back to it can only move it in one direction
				if s := stepsOf(e, v, depth+2); s.hasLow || s.hasHigh {
					out.hasLow = out.hasLow && s.hasLow && s.low >= 0
					out.hasHigh = out.hasHigh && s.hasHigh && s.high <= 0
					continue
				}
			}
			s := stepsOf(e, phi, depth+1)
			out.low, out.high = min(out.low, s.low), max(out.high, s.high)
			out.hasLow, out.hasHigh = out.hasLow && s.hasLow, out.hasHigh && s.hasHigh
			any = true
		}
		if !any {
			return steps{}
		}
		return out
	}
	return
}

// descendsFrom tells if a value is a part of what it was at the start of the turn.
func descendsFrom(v ssa.Value, phi *ssa.Phi, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return fa.X == ssa.Value(phi) || descendsFrom(fa.X, phi, depth+1)
			}
		}
	case *ssa.FieldAddr:
		return v.X == ssa.Value(phi) || descendsFrom(v.X, phi, depth+1)
	case *ssa.Call:
		n := calleeName(v)
		if strings.HasPrefix(n, "(reflect.") && strings.HasSuffix(n, ".Elem") {
			var recv ssa.Value
			if v.Call.IsInvoke() {
				recv = v.Call.Value
			} else {
				recv = v.Call.Args[0]
			}
			return recv == ssa.Value(phi)
		}
	case *ssa.Slice:
		// what's left of a text
		if k, ok := v.Low.(*ssa.Const); ok && v.X == ssa.Value(phi) && k.Value != nil && k.Int64() > 0 {
			return true
		}
	}
	return false
}
