package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C02", "Abstract interpretation of the writer of strings, split for every byte and class of runes, with the position in the source up to which "+
		"everything is written as ghost state: each part that's copied must follow what's written and have no character that needs an escape, each escape must "+
		"decode to the character that was read, and the string may only end when the whole source is written. The writer of floats must write all of the text of its "+
		"number, and the writer of values must, for each kind, write the value it got with the getter and the writer of that kind, once.", runScalars)
}

// getters of the kinds that are written, by the method of reflect.Value.
var scalarGetters = map[string]func(k reflect.Kind) bool{
	"Int": isIntKind, "Uint": isUintKind, "Float": isFloatKind,
	"Bool":   func(k reflect.Kind) bool { return k == reflect.Bool },
	"String": func(k reflect.Kind) bool { return k == reflect.String },
}

func runScalars(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "strconv, unicode/utf8 and reflect do what they document", "the kind in the definition of a field is the kind of its values (it's read from their type)")
	str, float := w.Help.Func("StringToJSON"), w.Help.Func("FloatToJSON")
	r.Need("writers of strings and floats", b2i(str != nil)+b2i(float != nil), 2)
	if str == nil || float == nil {
		return
	}
	runStringWriter(r, str)
	runFloatWriter(r, float)
	runValueWriter(r, str, float)
}

// runFloatWriter shows that all of the text of a finite float is written.
func runFloatWriter(r *Report, fn *ssa.Function) {
	w := r.W
	e := absint.New(w.Prog, w.Scope)
	e.StepLimit = maxSteps
	e.StrBounds = func(tag string) bool { return isSource(tag) }
	e.PartitionGhost = map[string]bool{"exp": true, "finite": true, "done": true}
	formats := map[ssa.Instruction]bool{}
	for _, name := range []string{"IsInf", "IsNaN"} {
		e.Models["math."+name] = func(c *absint.CallCtx) []absint.Ret {
			if c.St.Tag(c.Args[0]) != "float" {
				return nil
			}
			not := c.St.Clone()
			c.St.SetGhost("finite", absint.VInt{})
			return []absint.Ret{{St: c.St, V: absint.VBool{Known: true, B: true}}, {St: not, V: absint.VBool{Known: true}}}
		}
	}
	bad := func(a *absint.Activation, in ssa.Instruction, msg string) { e.Report(a, in, "float", msg) }
	format := func(c *absint.CallCtx, args []absint.Val) {
		formats[c.Instr] = true
		fm, okf := c.St.SetOf(args[1])
		ok := okf && !fm.Empty()
		for i := 0; i < 256; i++ {
			ok = ok && (!fm.Has(i) || strings.ContainsRune("feEgG", rune(i)))
		}
		prec, okp := c.St.ConstOf(args[2])
		bits := c.St.Ghost("bits")
		if !r.Obl(c.St.Tag(args[0]) == "float") {
			bad(c.Act, c.Instr, "another number than the one that's given can be written")
		}
		if !r.Obl(ok) {
			bad(c.Act, c.Instr, "a number can be written in a format JSON doesn't have")
		}
		if !r.Obl(okp && prec == -1) {
			bad(c.Act, c.Instr, "a number can be written with fewer digits than it has")
		}
		if !r.Obl(bits != nil && c.St.SameInt(bits, args[3])) {
			bad(c.Act, c.Instr, "a number can be written with another size than it has")
		}
	}
	e.Models["strconv.FormatFloat"] = func(c *absint.CallCtx) []absint.Ret {
		format(c, c.Args)
		v := c.St.FreshResult(c.Sig, "source").(absint.VStr)
		c.St.AssumeRange(v.Len, 1, absint.Inf)
		c.St.SetGhost("total", v.Len)
		c.St.SetGhost("flushed", absint.VInt{})
		c.St.SetGhost("exp", absint.VInt{})
		return []absint.Ret{{St: c.St, V: v}}
	}
	e.Models["strconv.AppendFloat"] = func(c *absint.CallCtx) []absint.Ret {
		format(c, c.Args[1:])
		if !r.Obl(c.St.Tag(c.Args[0]) == "output") {
			bad(c.Act, c.Instr, "the text of a number can be put somewhere else than in the output")
		}
		v := c.St.FreshResult(c.Sig, "output").(absint.VSlice)
		c.St.SetGhost("len", v.Len)
		c.St.SetGhost("done", absint.VInt{K: 1})
		return []absint.Ret{{St: c.St, V: v}}
	}
	exp := []byte("0-e")
	e.H.Byte = func(a *absint.Activation, st *absint.State, in ssa.Value, s absint.VStr, idx absint.VInt) []*absint.State {
		if st.Tag(s) == "source" {
			for i := range exp {
				if st.SameInt(absint.Plus(idx, int64(i+2)), s.Len) {
					st.SetTag(a.Value(st, in), fmt.Sprintf("byte -%d", i+2))
				}
			}
		}
		return []*absint.State{st}
	}
	e.H.IntEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
		all := true
		for i, c := range exp {
			name := fmt.Sprintf("byte -%d", i+2)
			for _, p := range [][2]absint.Val{{x, y}, {y, x}} {
				if k, ok := st.ConstOf(p[1]); eq && ok && k == int64(c) && st.Tag(p[0]) == name {
					st.SetGhostBool(name, true)
				}
			}
			all = all && st.GhostBool(name)
		}
		if all {
			st.SetGhost("exp", absint.VInt{K: 1})
		}
	}
	// shorter tells if a text is the source without the 0 in e-05
	e.H.Concat = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y, res absint.Val) {
		l, okl := x.(absint.VStr)
		h, okh := y.(absint.VStr)
		if c, ok := st.ConstOf(st.Ghost("exp")); !ok || c != 1 || !okl || !okh || !isSource(st.Tag(l)) || !isSource(st.Tag(h)) {
			return
		}
		total := st.Ghost("total")
		l0, ok0 := st.Attr(l.S, "low")
		l1, _ := st.Attr(l.S, "high")
		h0, ok1 := st.Attr(h.S, "low")
		h1, _ := st.Attr(h.S, "high")
		if n, ok := st.ConstOf(l0); ok && ok0 && ok1 && n == 0 && st.SameInt(absint.Plus(l1, 2), total) && st.SameInt(absint.Plus(h0, 1), total) && st.SameInt(h1, total) {
			st.SetTag(res, "short source")
		}
	}
	e.H.StrEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
		for _, p := range [][2]absint.Val{{x, y}, {y, x}} {
			c := a.ContentOfVal(st, p[1])
			s, ok := p[0].(absint.VStr)
			if !eq || !ok || c == nil || c.K != absint.CConst || c.Str != "e-0" || !isSource(st.Tag(s)) {
				continue
			}
			if hi, ok := st.Attr(s.S, "high"); ok && st.SameInt(absint.Plus(hi, 1), st.Ghost("total")) {
				st.SetGhost("exp", absint.VInt{K: 1})
			}
		}
	}
	e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
		if st.Tag(before) != "output" {
			return
		}
		if !r.Obl(st.SameInt(before.(absint.VSlice).Len, st.Ghost("len"))) {
			bad(a, in, "what's written before this can be lost")
		}
		st.SetGhost("len", after.(absint.VSlice).Len)
		if f, ok := st.ConstOf(st.Ghost("finite")); ok && f == 0 {
			return
		}
		if n, ok := st.ConstOf(st.Ghost("flushed")); ok && n == 0 && st.Tag(added) == "short source" {
			st.SetGhost("flushed", st.Ghost("total"))
			st.SetGhost("done", absint.VInt{K: 1})
			return
		}
		if !r.Obl(isSource(st.Tag(added)) && st.Ghost("total") != nil) {
			bad(a, in, "something else than the text of a number can be written for it")
			return
		}
		s := added.(absint.VSlice)
		var lo, hi absint.Val = absint.VInt{}, s.Len
		if l, ok := st.Attr(s.S, "low"); ok {
			lo = l
			hi, _ = st.Attr(s.S, "high")
		}
		ok := st.SameInt(lo, st.Ghost("flushed"))
		if exp, known := st.ConstOf(st.Ghost("exp")); !ok && known && exp == 1 {
			// the 0 in e-05 can be left out
			ok = st.SameInt(absint.Plus(lo, 1), st.Ghost("total")) && st.SameInt(absint.Plus(st.Ghost("flushed"), 1), lo)
		}
		if !r.Obl(ok) {
			bad(a, in, "a part of the text of a number can be left out or written twice")
		}
		st.SetGhost("flushed", hi)
		st.SetGhost("done", absint.VInt{})
		if st.SameInt(hi, st.Ghost("total")) {
			st.SetGhost("done", absint.VInt{K: 1})
		}
	}
	out := -1
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if in.Parent() != fn || out < 0 {
			return
		}
		d, ok := st.ConstOf(st.Ghost("done"))
		f, okf := st.ConstOf(st.Ghost("finite"))
		if !r.Obl(ok && d == 1 || okf && f == 0) {
			bad(a, in, "a part of the text of a number can be left out")
		}
		if p, ok := a.Value(st, fn.Params[out]).(absint.VPtr); ok {
			v, ok := st.Load(p, outType).(absint.VSlice)
			if !r.Obl(ok && st.SameInt(v.Len, st.Ghost("len"))) {
				bad(a, in, "what's written can be lost")
			}
		}
	}
	e.Run(fn, func(st *absint.State, params []absint.Val) {
		for i, p := range params {
			t := fn.Params[i].Type()
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				st.SetTag(p, "float")
			} else if ok && b.Info()&types.IsInteger != 0 {
				st.SetGhost("bits", p)
			} else if v := bufferParam(st, t, p); v != nil {
				out = i
				params[i] = v
			}
		}
		st.SetGhost("finite", absint.VInt{K: 1})
		st.SetGhost("done", absint.VInt{})
		st.SetGhost("exp", absint.VInt{})
	})
	r.Need("places where floats are formatted", len(formats), 1)
	r.Engine(e)
	r.engineFindings(e)
}

// bufferParam makes a parameter that points at a slice of bytes the output.
func bufferParam(st *absint.State, t types.Type, p absint.Val) absint.Val {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok || !isBytes(pt.Elem()) {
		return nil
	}
	st.AssumeNil(p, false)
	ptr := st.PointTo(p, pt.Elem())
	out := st.Load(ptr, pt.Elem()).(absint.VSlice)
	st.SetTag(out, "output")
	st.Store(ptr, out, pt.Elem())
	st.SetGhost("len", out.Len)
	return ptr
}

// runValueWriter shows that values are written with what belongs to their kind.
func runValueWriter(r *Report, str, float *ssa.Function) {
	w := r.W
	// the functions that write values of all kinds
	gets := func(name string) func(fn *ssa.Function) bool {
		return w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, map[string]bool{"(reflect.Value)." + name: true}) })
	}
	writes := w.reaching(func(fn *ssa.Function) bool { return fn == str })
	var reach []func(fn *ssa.Function) bool
	for name := range scalarGetters {
		reach = append(reach, gets(name))
	}
	has := func(fn *ssa.Function) bool {
		if !writes(fn) {
			return false
		}
		for _, f := range reach {
			if !f(fn) {
				return false
			}
		}
		return true
	}
	isValue := func(t types.Type) bool { return typeString(t) == "reflect.Value" }
	cg := w.callGraph()
	var roots []*ssa.Function
	for _, fn := range w.functions() {
		value := false
		for _, p := range fn.Params {
			value = value || isValue(p.Type())
		}
		if !has(fn) || !value {
			continue
		}
		for _, g := range cg.callees[fn] {
			if g != fn && has(g) {
				value = false
			}
		}
		if value {
			roots = append(roots, fn)
		}
	}
	r.Need("functions that write values", len(roots), 1)
	written := map[reflect.Kind]bool{}
	var kinds []reflect.Kind
	kinds = append(kinds, reflect.Bool)
	for k := reflect.Int; k <= reflect.Uint64; k++ {
		kinds = append(kinds, k)
	}
	kinds = append(kinds, reflect.Float32, reflect.Float64, reflect.String)
	const result = "yarql.Schema.Result"
	for _, k := range kinds {
		for _, root := range roots {
			k, root := k, root
			e := absint.New(w.Prog, w.Scope)
			e.StepLimit = maxSteps
			e.Singleton = func(n *types.Named) bool { return w.persistent()[n] }
			e.PartitionGhost = map[string]bool{"written": true, "bool": true}
			bad := func(a *absint.Activation, in ssa.Instruction, format string, args ...interface{}) {
				e.Report(a, in, "value", fmt.Sprintf(format, args...)+fmt.Sprintf(" for a value of kind %s", k))
			}
			done := func(a *absint.Activation, st *absint.State, in ssa.Instruction) {
				n, ok := st.ConstOf(st.Ghost("written"))
				if !r.Obl(ok && n == 0) {
					bad(a, in, "more than one value can be written")
				}
				st.SetGhost("written", absint.VInt{K: 1})
				written[k] = true
			}
			e.Models["(reflect.Value).Kind"] = func(c *absint.CallCtx) []absint.Ret {
				if c.St.Tag(c.Args[0]) == "value" {
					return []absint.Ret{{St: c.St, V: absint.VInt{K: int64(k)}}}
				}
				return nil
			}
			for name, of := range scalarGetters {
				name, of := name, of
				e.Models["(reflect.Value)."+name] = func(c *absint.CallCtx) []absint.Ret {
					if c.St.Tag(c.Args[0]) != "value" {
						return nil
					}
					if !r.Obl(of(k)) {
						bad(c.Act, c.Instr, "%s can be called", name)
						return nil
					}
					if name == "Bool" {
						no := c.St.Clone()
						no.SetGhost("bool", absint.VInt{})
						c.St.SetGhost("bool", absint.VInt{K: 1})
						return []absint.Ret{{St: c.St, V: absint.VBool{Known: true, B: true}}, {St: no, V: absint.VBool{Known: true}}}
					}
					return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, name+"(value)")}}
				}
			}
			bits := func() int64 {
				if k == reflect.Float32 {
					return 32
				}
				return 64
			}
			// the writers of text
			appendNumber := func(getter string, number int, ok func(c *absint.CallCtx) bool) absint.Model {
				return func(c *absint.CallCtx) []absint.Ret {
					to := c.St.Tag(c.Args[0])
					v := c.St.FreshResult(c.Sig, "written "+to)
					if strings.TrimPrefix(to, "written ") != result {
						return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, to)}}
					}
					if !r.Obl(c.St.Tag(c.Args[1]) == getter+"(value)") {
						bad(c.Act, c.Instr, "another number can be written")
					} else if !r.Obl(ok(c)) {
						bad(c.Act, c.Instr, "the number can be written in another way than it's read")
					}
					done(c.Act, c.St, c.Instr)
					return []absint.Ret{{St: c.St, V: v}}
				}
			}
			decimal := func(c *absint.CallCtx) bool {
				n, ok := c.St.ConstOf(c.Args[len(c.Args)-1])
				return ok && n == 10
			}
			e.Models["strconv.AppendInt"] = appendNumber("Int", 1, decimal)
			e.Models["strconv.AppendUint"] = appendNumber("Uint", 1, decimal)
			e.Models["strconv.AppendFloat"] = appendNumber("Float", 1, func(c *absint.CallCtx) bool {
				p, okp := c.St.ConstOf(c.Args[3])
				n, okn := c.St.ConstOf(c.Args[4])
				return okp && p == -1 && okn && n == bits()
			})
			e.Models["strconv.AppendBool"] = func(c *absint.CallCtx) []absint.Ret {
				to := c.St.Tag(c.Args[0])
				if strings.TrimPrefix(to, "written ") != result {
					return nil
				}
				b, isBool := c.St.ConstOf(c.St.Ghost("bool"))
				known, v := c.St.BoolOf(c.Args[1])
				if !r.Obl(isBool && known && v == (b == 1)) {
					bad(c.Act, c.Instr, "something else can be written")
				}
				done(c.Act, c.St, c.Instr)
				return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, "written "+result)}}
			}
			formatNumber := func(getter string) absint.Model {
				return func(c *absint.CallCtx) []absint.Ret {
					tag := "text"
					if c.St.Tag(c.Args[0]) == getter+"(value)" && decimal(c) {
						tag = "text of value"
					}
					return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, tag)}}
				}
			}
			e.Models["strconv.FormatInt"] = formatNumber("Int")
			e.Models["strconv.FormatUint"] = formatNumber("Uint")
			encoder := func(getter string, fn *ssa.Function) absint.Model {
				return func(c *absint.CallCtx) []absint.Ret {
					src, ptr := -1, -1
					ok := true
					for i, p := range fn.Params {
						b, basic := p.Type().Underlying().(*types.Basic)
						switch {
						case !basic:
							ptr = i
						case b.Kind() == types.Int:
							n, known := c.St.ConstOf(c.Args[i])
							ok = known && n == bits()
						default:
							src = i
						}
					}
					if src < 0 || ptr < 0 {
						return nil
					}
					p, isPtr := c.Args[ptr].(absint.VPtr)
					if !isPtr || c.St.CellTagOf(p) != result {
						c.St.Havoc(c.Args[ptr])
						return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
					}
					if !r.Obl(c.St.Tag(c.Args[src]) == getter+"(value)") {
						bad(c.Act, c.Instr, "another value can be written")
					} else if !r.Obl(ok) {
						bad(c.Act, c.Instr, "the number can be written with another size than it has")
					}
					done(c.Act, c.St, c.Instr)
					v := c.St.Fresh(outType, "written "+result)
					c.St.Store(p, v, outType)
					return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
				}
			}
			e.Models[str.Object().(*types.Func).FullName()] = encoder("String", str)
			e.Models[float.Object().(*types.Func).FullName()] = encoder("Float", float)
			e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
				to := st.Tag(before)
				if strings.TrimPrefix(to, "written ") != result {
					return
				}
				text := strings.TrimPrefix(st.Tag(added), "copy ")
				c := a.ContentOfVal(st, added)
				b, isBool := st.ConstOf(st.Ghost("bool"))
				ok := text == "text of value" ||
					k == reflect.Bool && c != nil && c.K == absint.CConst && isBool && c.Str == fmt.Sprint(b == 1)
				if !r.Obl(ok) {
					bad(a, in, "something else can be written")
				}
				done(a, st, in)
				st.SetTag(after, "written "+result)
			}
			e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
				if in.Parent() != root {
					return
				}
				n, ok := st.ConstOf(st.Ghost("written"))
				if !r.Obl(ok && n == 1) {
					bad(a, in, "nothing can be written")
				}
				cells, ok := st.SingleCells(w.named("Schema"))
				if !r.Obl(ok && st.Tag(cells[".Result"]) == "written "+result) {
					bad(a, in, "what's written can be lost")
				}
			}
			e.Run(root, func(st *absint.State, params []absint.Val) {
				for i, p := range params {
					switch t := root.Params[i].Type(); {
					case isValue(t):
						st.SetTag(p, "value")
					case typeString(t) == "reflect.Kind":
						params[i] = absint.VInt{K: int64(k)}
					}
				}
				st.SetGhost("written", absint.VInt{})
			})
			r.Engine(e)
			r.engineFindings(e)
		}
	}
	r.Need("kinds of values that are written", len(written), 14)
	runIDs(r, roots, kinds)
}

// runIDs shows that the values of IDs are always strings, and that nothing is added to other values.
func runIDs(r *Report, writers []*ssa.Function, kinds []reflect.Kind) {
	w := r.W
	const result = "yarql.Schema.Result"
	isWriter := map[*ssa.Function]bool{}
	for _, fn := range writers {
		isWriter[fn] = true
	}
	sites := w.callSites()
	roots := map[*ssa.Function]bool{}
	for _, fn := range writers {
		for _, c := range sites[fn] {
			p := c.Parent()
			if isWriter[p] {
				continue
			}
			// a function that's called by only one other is a part of it
			for seen := map[*ssa.Function]bool{}; !seen[p]; {
				seen[p] = true
				if by := w.onlyCaller(p); by != nil {
					p = by
				}
			}
			roots[p] = true
		}
	}
	appends := w.reaching(func(fn *ssa.Function) bool { return mentionsField(fn, map[string]bool{result: true}) })
	data, _ := w.Root.Members["valueTypeData"].(*ssa.NamedConst)
	reachesRoot := w.reaching(func(fn *ssa.Function) bool { return roots[fn] })
	n := 0
	for _, id := range []bool{true, false} {
		for _, k := range kinds {
			if id && (k == reflect.Bool || isFloatKind(k)) {
				continue // these are rejected when the schema is parsed
			}
			for root := range roots {
				id, k, root := id, k, root
				e := resolverEngine(w)
				e.StepLimit = maxSteps
				e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
				e.Skip = true
				e.KeepGhosts = true
				e.PartitionGhost = map[string]bool{"quotes": true, "value": true}
				e.Keep = func(tag string) bool { return tag == result || tag == "bool" }
				rel := func(fn *ssa.Function) bool {
					return fn == root || appends(fn) && !reachesRoot(fn) && fn.Name() != "init"
				}
				e.Relevant = func(fn *ssa.Function) (bool, bool) { return rel(fn), rel(fn) }
				e.FieldBool = func(tag string) (bool, bool) { return id, tag == "yarql.obj.isID" }
				e.FieldSet = func(tag string) (absint.Set, bool) {
					if tag == "yarql.obj.valueType" && data != nil {
						return absint.RangeSet(data.Value.Int64(), data.Value.Int64()), true
					}
					return absint.RangeSet(int64(k), int64(k)), tag == "yarql.obj.dataValueType"
				}
				bad := func(a *absint.Activation, st *absint.State, in ssa.Instruction, msg string) {
					what := "a value"
					if id {
						what = "an ID"
					}
					e.Report(a, in, "id", fmt.Sprintf("%s for %s of kind %s", msg, what, k))
					st.Dead = true
				}
				for _, fn := range writers {
					e.Models[fn.Object().(*types.Func).FullName()] = func(c *absint.CallCtx) []absint.Ret {
						n++
						v, _ := c.St.ConstOf(c.St.Ghost("value"))
						q, _ := c.St.ConstOf(c.St.Ghost("quotes"))
						want := int64(0)
						if id && k != reflect.String {
							want = 1
						}
						if !r.Obl(v == 0) {
							bad(c.Act, c.St, c.Instr, "more than one value can be written")
						} else if !r.Obl(q == want) {
							bad(c.Act, c.St, c.Instr, fmt.Sprintf("%d quotes can be written instead of %d", q, want))
						}
						c.St.SetGhost("value", absint.VInt{K: 1})
						return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
					}
				}
				e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
					if st.Tag(before) != result {
						return
					}
					v, _ := st.ConstOf(st.Ghost("value"))
					q, _ := st.ConstOf(st.Ghost("quotes"))
					c := a.ContentOfVal(st, added)
					if c != nil && c.K == absint.CConst && c.Str == "\"" {
						st.SetGhost("quotes", absint.VInt{K: q + 1})
					} else if !r.Obl(v == 0) {
						bad(a, st, in, "something can be added to the value")
					}
				}
				e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
					v, _ := st.ConstOf(st.Ghost("value"))
					if in.Parent() != root || v != 1 {
						return
					}
					q, _ := st.ConstOf(st.Ghost("quotes"))
					want := int64(0)
					if id && k != reflect.String {
						want = 2
					}
					if !r.Obl(q == want) {
						bad(a, st, in, fmt.Sprintf("%d quotes can be written instead of %d", q, want))
					}
				}
				e.Run(root, func(st *absint.State, params []absint.Val) {
					st.SetGhost("value", absint.VInt{})
					st.SetGhost("quotes", absint.VInt{})
				})
				r.Engine(e)
				r.engineFindings(e)
			}
		}
	}
	r.Need("places where the value of a field is written", n, 2)
}

// onlyCaller returns the one function that calls fn
func (w *World) onlyCaller(fn *ssa.Function) *ssa.Function {
	var by *ssa.Function
	for _, c := range w.callSites()[fn] {
		if by != nil && by != c.Parent() {
			return nil
		}
		by = c.Parent()
	}
	return by
}
