package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

// pendingRune is a character of a string that was read, but of which isn't known yet how it's written.
type pendingRune struct {
	multi, invalid bool // a byte of a rune that wasn't decoded yet, or a byte that's no UTF-8
	other          bool // a rune of which only the size is known
	r              rune
	size           int64
	from           int64  // where the range of the other rune starts
	text           string // what's written of it
}

// must tells if the character can't be in a JSON string as it is.
func (p pendingRune) must() bool {
	return p.multi || p.invalid || !p.other && (p.r < ' ' || p.r == '"' || p.r == '\\')
}

// forms returns how the character can be written.
func (p pendingRune) forms() []string {
	var out []string
	if p.other || p.multi {
		return nil
	}
	r := p.r
	if p.invalid {
		r = utf8.RuneError
	}
	if p.invalid || !p.must() {
		out = append(out, string(r))
	}
	hex := fmt.Sprintf("%04x", r)
	for m := 0; m < 1<<len(hex); m++ {
		b := []byte(hex)
		for i := range b {
			if m&(1<<i) != 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		out = append(out, `\u`+string(b))
	}
	if i := strings.IndexRune("\"\\/\b\f\n\r\t", r); i >= 0 {
		out = append(out, `\`+string(`"\/bfnrt`[i]))
	}
	return out
}

// textWriter follows how the text of a string is written.
type textWriter struct {
	r    *Report
	e    *absint.Engine
	tab  []pendingRune
	ids  map[pendingRune]int64
	size int
	root *ssa.Function
	arg  int // of the buffer
	str  int // of the string

	reads, copies, escapes map[ssa.Instruction]bool
	seen                   map[string]bool
}

func (t *textWriter) pending(st *absint.State) (pendingRune, bool) {
	id, ok := st.ConstOf(st.Ghost("esc"))
	if !ok {
		return pendingRune{multi: true, text: "?"}, true
	}
	if id == 0 {
		return pendingRune{}, false
	}
	return t.tab[id-1], true
}

func (t *textWriter) set(st *absint.State, p pendingRune) {
	id, ok := t.ids[p]
	if !ok {
		t.tab = append(t.tab, p)
		id = int64(len(t.tab))
		t.ids[p] = id
	}
	st.SetGhost("esc", absint.VInt{K: id})
}

func (t *textWriter) none(st *absint.State) { st.SetGhost("esc", absint.VInt{}) }

// pass goes on with the next character, if the last one can be written as it is.
func (t *textWriter) pass(st *absint.State) bool {
	p, ok := t.pending(st)
	if !ok || p.must() || p.text != "" {
		return false
	}
	st.SetGhost("done", absint.Plus(st.Ghost("done"), p.size))
	t.none(st)
	return true
}

func isSource(tag string) bool { return strings.TrimPrefix(tag, "part of ") == "source" }

// bounds tells where a part of the source starts and ends.
func (t *textWriter) bounds(st *absint.State, s absint.Sym, l absint.VInt) (lo, hi absint.Val) {
	if lo, ok := st.Attr(s, "low"); ok {
		hi, _ := st.Attr(s, "high")
		return lo, hi
	}
	return absint.VInt{}, l
}

// isNext tells if a position is that of the next character, and skips the one before it if needed.
func (t *textWriter) isNext(st *absint.State, pos absint.Val) bool {
	done := st.Ghost("done")
	p, ok := t.pending(st)
	if ok && !p.must() && p.text == "" && st.SameInt(absint.Plus(done, p.size), pos) {
		t.pass(st)
		return true
	}
	return st.SameInt(done, pos)
}

func (t *textWriter) readByte(a *absint.Activation, st *absint.State, in ssa.Value, s absint.VStr, idx absint.VInt) []*absint.State {
	if !isSource(st.Tag(s)) {
		return []*absint.State{st}
	}
	lo, _ := t.bounds(st, s.S, s.Len)
	pos := st.Sum(lo.(absint.VInt), idx)
	if !t.isNext(st, pos) {
		return []*absint.State{st}
	}
	t.reads[in.(ssa.Instruction)] = true
	if p, ok := t.pending(st); ok {
		if p.text != "" {
			return []*absint.State{st}
		}
		if p.r < utf8.RuneSelf && !p.multi && !p.invalid && !p.other {
			st.SetValue(in, absint.VInt{K: int64(p.r)})
		} else if v, ok := st.Fresh(in.Type(), "byte").(absint.VInt); ok {
			st.AssumeRange(v, utf8.RuneSelf, 255)
			st.SetValue(in, v)
		}
		return []*absint.State{st}
	}
	var out []*absint.State
	for b := rune(0); b < utf8.RuneSelf; b++ {
		c := st.Clone()
		c.SetValue(in, absint.VInt{K: int64(b)})
		t.set(c, pendingRune{r: b, size: 1})
		out = append(out, c)
	}
	v := st.Fresh(in.Type(), "byte").(absint.VInt)
	st.AssumeRange(v, utf8.RuneSelf, 255)
	st.SetValue(in, v)
	t.set(st, pendingRune{multi: true})
	return append(out, st)
}

// runes are the characters of more than one byte, and what isn't one.
type runeCase struct {
	lo, hi, size int64
	invalid      bool
}

var runeCases = []runeCase{
	{0xfffd, 0xfffd, 1, true}, {0xfffd, 0xfffd, 3, false}, {0x2028, 0x2028, 3, false}, {0x2029, 0x2029, 3, false},
	{0x80, 0x7ff, 2, false}, {0x800, 0x2027, 3, false}, {0x202a, 0xfffc, 3, false}, {0xfffe, 0xffff, 3, false}, {0x10000, 0x10ffff, 4, false},
}

// decode splits a state in which the next character is decoded.
func (t *textWriter) decode(st *absint.State, rt types.Type, then func(st *absint.State, r absint.VInt, size int64)) {
	p, ok := t.pending(st)
	if !ok {
		for b := rune(0); b < utf8.RuneSelf; b++ {
			c := st.Clone()
			t.set(c, pendingRune{r: b, size: 1})
			then(c, absint.VInt{K: int64(b)}, 1)
		}
	} else if !p.multi && !p.invalid && !p.other && p.r < utf8.RuneSelf {
		then(st, absint.VInt{K: int64(p.r)}, 1)
		return
	}
	for _, c := range runeCases {
		if ok && !p.multi && (p.size != c.size || p.invalid != c.invalid || p.other == (c.lo == c.hi) || p.other && p.from != c.lo || !p.other && int64(p.r) != c.lo) {
			continue
		}
		s := st.Clone()
		v := absint.VInt{K: c.lo}
		n := pendingRune{invalid: c.invalid, other: c.lo != c.hi, size: c.size}
		if !s.AssumeLess(absint.Plus(s.Ghost("done"), c.size-1).(absint.VInt), s.Ghost("total").(absint.VInt)) {
			continue
		}
		if c.lo != c.hi {
			v = s.Fresh(rt, "rune").(absint.VInt)
			s.AssumeRange(v, c.lo, c.hi)
			n.from = c.lo
		} else {
			n.r = rune(c.lo)
		}
		t.set(s, n)
		then(s, v, c.size)
	}
}

// bad reports a violation, the path isn't followed any further.
func (t *textWriter) bad(a *absint.Activation, st *absint.State, in ssa.Instruction, msg string) {
	t.e.Report(a, in, "text", msg)
	st.Dead = true
}

// write follows text that's appended to the output.
func (t *textWriter) write(a *absint.Activation, st *absint.State, in ssa.Instruction, text string) {
	for i := 0; i < len(text); i++ {
		open, known := st.ConstOf(st.Ghost("open"))
		if !t.r.Obl(known) {
			t.bad(a, st, in, "text is written of which isn't known if it's in the string")
			return
		}
		switch open {
		case 0:
			if !t.r.Obl(text[i] == '"') {
				t.bad(a, st, in, "text is written before the string")
				return
			}
			st.SetGhost("open", absint.VInt{K: 1})
			continue
		case 2:
			t.r.Obl(false)
			t.bad(a, st, in, "text is written after the string")
			return
		}
		p, ok := t.pending(st)
		if ok && p.text == "" && !p.must() {
			// the end of the string, or this character
			if text[i] == '"' {
				t.pass(st)
				ok = false
			}
		}
		if !ok {
			full := st.SameInt(st.Ghost("flushed"), st.Ghost("done")) && st.SameInt(st.Ghost("done"), st.Ghost("total"))
			if !t.r.Obl(text[i] == '"') {
				t.bad(a, st, in, fmt.Sprintf("the string can get %q, which isn't in its source", text[i:]))
				return
			}
			if !t.r.Obl(full) {
				t.bad(a, st, in, "the string can end here before all of its source is written")
				return
			}
			st.SetGhost("open", absint.VInt{K: 2})
			continue
		}
		if p.text == "" && !t.r.Obl(st.SameInt(st.Ghost("flushed"), st.Ghost("done"))) {
			t.bad(a, st, in, "a character can be written here before the ones in front of it")
			return
		}
		t.escapes[in] = true
		p.text += string(text[i])
		found, complete := false, false
		for _, f := range p.forms() {
			found = found || strings.HasPrefix(f, p.text)
			complete = complete || f == p.text
		}
		if !t.r.Obl(found) {
			t.bad(a, st, in, fmt.Sprintf("%s can be written as %q", describeRune(p), p.text))
			t.none(st)
			return
		}
		if complete {
			st.SetGhost("done", absint.Plus(st.Ghost("done"), p.size))
			st.SetGhost("flushed", st.Ghost("done"))
			t.none(st)
			continue
		}
		t.set(st, p)
	}
}

func describeRune(p pendingRune) string {
	switch {
	case p.invalid:
		return "a byte that isn't UTF-8"
	case p.multi:
		return "a byte that wasn't decoded"
	case p.other:
		return "a character"
	}
	return fmt.Sprintf("%q", p.r)
}

// runStringWriter shows that the string writer writes a string of which the value is its source.
func runStringWriter(r *Report, fn *ssa.Function) {
	w := r.W
	e := absint.New(w.Prog, w.Scope)
	e.StepLimit = maxSteps
	t := &textWriter{r: r, e: e, ids: map[pendingRune]int64{}, root: fn, reads: map[ssa.Instruction]bool{}, copies: map[ssa.Instruction]bool{}, escapes: map[ssa.Instruction]bool{}}
	e.StrBounds = func(tag string) bool { return isSource(tag) }
	e.PartitionGhost = map[string]bool{"esc": true, "open": true}
	e.H.Byte = t.readByte
	e.H.Rune = func(a *absint.Activation, st *absint.State, in *ssa.Next, s absint.VStr) []*absint.State {
		done := absint.VTuple{E: []absint.Val{absint.VBool{Known: true}, absint.VInt{}, absint.VInt{}}}
		if !isSource(st.Tag(s)) || st.Tag(s) != "source" {
			st.SetValue(in, absint.VTuple{E: []absint.Val{st.Fresh(types.Typ[types.Bool], ""), st.Fresh(types.Typ[types.Int], ""), st.Fresh(types.Typ[types.Int32], "")}})
			return []*absint.State{st}
		}
		t.pass(st)
		at := st.Ghost("done").(absint.VInt)
		var out []*absint.State
		// an end of the loop is the end of the source
		if end := st.Clone(); end.AssumeSame(at, s.Len) {
			end.SetValue(in, done)
			out = append(out, end)
		}
		if !st.AssumeLess(at, s.Len) {
			return out
		}
		t.reads[in] = true
		t.decode(st, types.Typ[types.Int32], func(st *absint.State, r absint.VInt, size int64) {
			st.SetValue(in, absint.VTuple{E: []absint.Val{absint.VBool{Known: true, B: true}, at, r}})
			out = append(out, st)
		})
		return out
	}
	e.Models["unicode/utf8.DecodeRuneInString"] = func(c *absint.CallCtx) []absint.Ret {
		s, ok := c.Args[0].(absint.VStr)
		if !ok || !isSource(c.St.Tag(s)) {
			return nil
		}
		lo, _ := t.bounds(c.St, s.S, s.Len)
		if !t.isNext(c.St, lo) {
			return nil
		}
		t.reads[c.Instr] = true
		var out []absint.Ret
		if empty := c.St.Clone(); empty.AssumeRange(s.Len, 0, 0) {
			out = append(out, absint.Ret{St: empty, V: absint.VTuple{E: []absint.Val{absint.VInt{K: utf8.RuneError}, absint.VInt{}}}})
		}
		if !c.St.AssumeRange(s.Len, 1, absint.Inf) {
			return out
		}
		t.decode(c.St, types.Typ[types.Int32], func(st *absint.State, r absint.VInt, size int64) {
			out = append(out, absint.Ret{St: st, V: absint.VTuple{E: []absint.Val{r, absint.VInt{K: size}}}})
		})
		return out
	}
	e.H.StrEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
		for _, p := range [][2]absint.Val{{x, y}, {y, x}} {
			s, ok := p[0].(absint.VStr)
			if c := a.ContentOfVal(st, p[1]); eq && ok && isSource(st.Tag(s)) && c != nil && c.K == absint.CConst && c.Str == "" {
				lo, hi := t.bounds(st, s.S, s.Len)
				st.AssumeSame(lo.(absint.VInt), hi.(absint.VInt))
			}
		}
	}
	e.H.Loop = func(a *absint.Activation, st *absint.State, b *ssa.BasicBlock, back bool) { t.pass(st) }
	e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
		if st.Tag(before) != "output" {
			return
		}
		if !r.Obl(st.SameInt(before.(absint.VSlice).Len, st.Ghost("len"))) {
			t.bad(a, st, in, "what's written before this can be lost")
		}
		st.SetGhost("len", after.(absint.VSlice).Len)
		if isSource(st.Tag(added)) {
			t.copies[in] = true
			s := added.(absint.VSlice)
			lo, hi := t.bounds(st, s.S, s.Len)
			if st.SameInt(lo, hi) {
				return
			}
			open, _ := st.ConstOf(st.Ghost("open"))
			p, busy := t.pending(st)
			if !r.Obl(open == 1) {
				t.bad(a, st, in, "a part of the source can be written outside of the string")
				return
			}
			if !r.Obl(!busy || p.text == "") {
				t.bad(a, st, in, "a part of the source can be written inside of an escape sequence")
				return
			}
			if busy && !p.must() && st.SameInt(hi, absint.Plus(st.Ghost("done"), p.size)) {
				t.pass(st)
			}
			if !r.Obl(st.SameInt(lo, st.Ghost("flushed"))) {
				t.bad(a, st, in, "a part of the source can be written that doesn't follow what was written before it")
				return
			}
			if !r.Obl(st.Leq(hi.(absint.VInt), st.Ghost("done").(absint.VInt), 0)) {
				t.bad(a, st, in, "a part of the source can be written that has characters that weren't checked or must be escaped")
				return
			}
			st.SetGhost("flushed", hi)
			return
		}
		c := a.ContentOfVal(st, added)
		if !r.Obl(c != nil && c.K == absint.CConst) {
			t.bad(a, st, in, "text is written of which isn't known how it follows from the source")
			return
		}
		t.write(a, st, in, c.Str)
	}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if in.Parent() != fn {
			return
		}
		open, ok := st.ConstOf(st.Ghost("open"))
		if !r.Obl(ok && open == 2) {
			t.bad(a, st, in, "the string can be left without an end")
		}
		p, ok := a.Value(st, fn.Params[t.arg]).(absint.VPtr)
		if !ok {
			return
		}
		out, ok := st.Load(p, outType).(absint.VSlice)
		if !r.Obl(ok && st.SameInt(out.Len, st.Ghost("len"))) {
			t.bad(a, st, in, "what's written can be lost")
		}
	}
	e.Run(fn, func(st *absint.State, params []absint.Val) {
		for i, p := range params {
			switch v := p.(type) {
			case absint.VStr:
				t.str = i
				st.SetTag(v, "source")
				st.SetGhost("total", v.Len)
			default:
				if ptr := bufferParam(st, fn.Params[i].Type(), p); ptr != nil {
					t.arg = i
					params[i] = ptr
				}
			}
		}
		st.SetGhost("flushed", absint.VInt{})
		st.SetGhost("done", absint.VInt{})
		st.SetGhost("esc", absint.VInt{})
		st.SetGhost("open", absint.VInt{})
	})
	r.Need("places where the source of a string is read", len(t.reads), 1)
	r.Need("places where parts of the source are copied", len(t.copies), 1)
	r.Need("places where characters are escaped", len(t.escapes), 1)
	r.Engine(e)
	r.engineFindings(e)
}

var outType = types.NewSlice(types.Typ[types.Uint8])

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
