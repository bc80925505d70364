package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C10", "Abstract interpretation of everything that turns text or JSON into Go values, once for every kind of Go value: at every call that sets a "+
		"number, the number must be the one that was parsed without error and, by the checks on the path to it, be in the range of the kind. "+
		"No value is set with a method that doesn't belong to its kind.", runNumbers)
	register("C11", "Abstract interpretation of everything that sets or writes enum values, once for every kind an enum can have: a value can only be set from a "+
		"registered entry of which the name was just found equal to the text, a name can only be written for an entry of which the value was just found equal.", runEnums)
}

func isIntKind(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Int64 }
func isUintKind(k reflect.Kind) bool  { return k >= reflect.Uint && k <= reflect.Uint64 }
func isFloatKind(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }

// kindRange returns the bounds of the numbers of a kind, as far as they're tracked.
func kindRange(k reflect.Kind) (lo, hi int64) {
	switch k {
	case reflect.Int8:
		return -1 << 7, 1<<7 - 1
	case reflect.Int16:
		return -1 << 15, 1<<15 - 1
	case reflect.Int32:
		return -1 << 31, 1<<31 - 1
	case reflect.Uint8:
		return 0, 1<<8 - 1
	case reflect.Uint16:
		return 0, 1<<16 - 1
	case reflect.Uint32:
		return 0, 1<<32 - 1
	case reflect.Uint, reflect.Uint64:
		return 0, absint.Inf
	}
	return -absint.Inf, absint.Inf
}

// calls tells for every function which of the named functions or methods it calls itself.
func (w *World) calls(fn *ssa.Function, names map[string]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && names[calleeName(c)] {
				return true
			}
		}
	}
	return false
}

// calleeName returns the full name of the function or method that's called, if it's known.
func calleeName(c ssa.CallInstruction) string {
	if c.Common().IsInvoke() {
		return c.Common().Method.FullName()
	}
	if f := c.Common().StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
		return f.String()
	}
	return ""
}

// joints returns the functions where two groups of calls come together: those that reach both, through something that
// doesn't reach both.
func (w *World) joints(a, b map[string]bool) []*ssa.Function {
	ra := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, a) })
	rb := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, b) })
	cg := w.callGraph()
	var out []*ssa.Function
	for _, fn := range w.functions() {
		if !ra(fn) || !rb(fn) {
			continue
		}
		joint := w.calls(fn, a) || w.calls(fn, b)
		for _, g := range cg.callees[fn] {
			if ra(g) != rb(g) {
				joint = true
			}
		}
		if joint {
			out = append(out, fn)
		}
	}
	return out
}

var numberParsers = map[string]bool{
	"strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.Atoi": true, "strconv.ParseFloat": true,
	"(*github.com/valyala/fastjson.Value).Int64": true, "(*github.com/valyala/fastjson.Value).Int": true,
	"(*github.com/valyala/fastjson.Value).Uint64": true, "(*github.com/valyala/fastjson.Value).Uint": true,
	"(*github.com/valyala/fastjson.Value).Float64": true, "(*github.com/valyala/fastjson.Value).GetFloat64": true,
	"(*github.com/valyala/fastjson.Value).GetInt64": true, "(*github.com/valyala/fastjson.Value).GetInt": true,
	"(*github.com/valyala/fastjson.Value).GetUint64": true, "(*github.com/valyala/fastjson.Value).GetUint": true,
}

var valueSetters = map[string]bool{
	"(reflect.Value).SetInt": true, "(reflect.Value).SetUint": true, "(reflect.Value).SetFloat": true, "(reflect.Value).SetString": true,
	"(reflect.Value).SetBool": true,
}

// bindEngine returns an engine in which every Go value has kind k.
func bindEngine(w *World, k reflect.Kind) *absint.Engine {
	e := absint.New(w.Prog, w.Scope)
	e.StepLimit = maxSteps
	e.Forget = func(tag string) bool { return true }
	e.HavocKeeps = func(st *absint.State, tn string) bool { return true }
	e.Keep = func(tag string) bool { return tag == "number" }
	all := map[string]bool{}
	for _, m := range []map[string]bool{numberParsers, valueSetters} {
		for n := range m {
			all[n] = true
		}
	}
	rel := w.reaching(func(fn *ssa.Function) bool { return w.calls(fn, all) })
	e.Relevant = func(fn *ssa.Function) (bool, bool) {
		for _, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				return rel(fn), true
			}
		}
		return rel(fn), false
	}
	e.FieldSet = func(tag string) (absint.Set, bool) {
		if tag == "yarql.enum.contentKind" {
			return absint.RangeSet(int64(k), int64(k)), true
		}
		return absint.Set{}, false
	}
	e.Models["(reflect.Value).Kind"] = func(c *absint.CallCtx) []absint.Ret {
		return []absint.Ret{{St: c.St, V: absint.VInt{K: int64(k)}}}
	}
	bits := func(c *absint.CallCtx) []absint.Ret {
		if isIntKind(k) || isUintKind(k) || isFloatKind(k) {
			n := int64(64)
			switch k {
			case reflect.Int8, reflect.Uint8:
				n = 8
			case reflect.Int16, reflect.Uint16:
				n = 16
			case reflect.Int32, reflect.Uint32, reflect.Float32:
				n = 32
			}
			return []absint.Ret{{St: c.St, V: absint.VInt{K: n}}}
		}
		return nil
	}
	e.Models["(reflect.Type).Bits"] = bits
	overflow := func(c *absint.CallCtx) []absint.Ret {
		x, ok := c.Args[1].(absint.VInt)
		if !ok {
			return nil
		}
		lo, hi := kindRange(k)
		var out []absint.Ret
		if fits := c.St.Clone(); fits.AssumeRange(x, lo, hi) {
			out = append(out, absint.Ret{St: fits, V: absint.VBool{Known: true}})
		}
		if s := c.St.Clone(); lo > -absint.Inf && s.AssumeRange(x, -absint.Inf, lo-1) {
			out = append(out, absint.Ret{St: s, V: absint.VBool{Known: true, B: true}})
		}
		if s := c.St.Clone(); hi < absint.Inf && s.AssumeRange(x, hi+1, absint.Inf) {
			out = append(out, absint.Ret{St: s, V: absint.VBool{Known: true, B: true}})
		}
		return out
	}
	e.Models["(reflect.Value).OverflowInt"] = overflow
	e.Models["(reflect.Value).OverflowUint"] = overflow
	// only what was parsed without an error is a number
	parse := func(bitSize int) absint.Model {
		return func(c *absint.CallCtx) []absint.Ret {
			bad := c.St.Clone()
			rt := c.Sig.Results()
			bv := absint.VTuple{E: []absint.Val{bad.Fresh(rt.At(0).Type(), "failed"), bad.Fresh(rt.At(1).Type(), "err")}}
			bad.AssumeNil(bv.E[1], false)
			bad.SetGhost("num", nil)
			good := c.St
			v := good.Fresh(rt.At(0).Type(), "number")
			if i, ok := v.(absint.VInt); ok {
				if bitSize >= 0 && len(c.Args) > bitSize {
					if n, ok := good.ConstOf(c.Args[bitSize]); ok && n > 0 && n < 64 {
						if b := rt.At(0).Type().Underlying().(*types.Basic); b.Info()&types.IsUnsigned != 0 {
							good.AssumeRange(i, 0, 1<<uint(n)-1)
						} else {
							good.AssumeRange(i, -1<<uint(n-1), 1<<uint(n-1)-1)
						}
					}
				}
				good.SetGhost("num", v)
			}
			base := true
			if bitSize == 2 {
				n, ok := good.ConstOf(c.Args[1])
				base = ok && n == 10
			}
			if !base {
				good.SetGhost("num", nil)
			}
			gv := absint.VTuple{E: []absint.Val{v, absint.VNil{}}}
			return []absint.Ret{{St: good, V: gv}, {St: bad, V: bv}}
		}
	}
	e.Models["strconv.ParseInt"] = parse(2)
	e.Models["strconv.ParseUint"] = parse(2)
	e.Models["strconv.Atoi"] = parse(-1)
	parseFloat := parse(-1)
	e.Models["strconv.ParseFloat"] = func(c *absint.CallCtx) []absint.Ret {
		out := parseFloat(c)
		if n, ok := c.St.ConstOf(c.Args[1]); !ok || n != 64 {
			t := out[0].V.(absint.VTuple)
			t.E[0] = out[0].St.Fresh(c.Sig.Results().At(0).Type(), "rounded number")
		}
		return out
	}
	for _, n := range []string{"Int64", "Int", "Uint64", "Uint", "Float64"} {
		e.Models["(*github.com/valyala/fastjson.Value)."+n] = parse(-1)
	}
	e.Models["(*github.com/valyala/fastjson.Value).GetFloat64"] = func(c *absint.CallCtx) []absint.Ret {
		return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, "number")}}
	}
	return e
}

func runNumbers(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "the entries of an enum have the kind of the enum (RegisterEnum checks that)", "strconv and fastjson do what they document",
		"the value of a file or time argument has the type of one")
	roots := w.joints(numberParsers, valueSetters)
	r.Need("functions that bind numbers", len(roots), 1)
	sites := map[ssa.Instruction]bool{}
	setters := map[string]func(k reflect.Kind) bool{
		"SetInt": isIntKind, "SetUint": isUintKind, "SetFloat": isFloatKind,
		"SetBool": func(k reflect.Kind) bool { return k == reflect.Bool }, "SetString": func(k reflect.Kind) bool { return k == reflect.String },
	}
	for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
		k := k
		e := bindEngine(w, k)
		for name, of := range setters {
			name, of := name, of
			e.Models["(reflect.Value)."+name] = func(c *absint.CallCtx) []absint.Ret {
				sites[c.Instr] = true
				ret := []absint.Ret{{St: c.St, V: absint.VTuple{}}}
				if !r.Obl(of(k)) {
					e.Report(c.Act, c.Instr, "kind", fmt.Sprintf("%s can be called here on a value of kind %s", name, k))
					return ret
				}
				v := c.Args[1]
				tag := c.St.Tag(v)
				switch name {
				case "SetInt", "SetUint":
					if strings.HasPrefix(tag, strings.TrimPrefix(name, "Set")+"(") {
						return ret // the number of another value of this kind
					}
					num := c.St.Ghost("num")
					if !r.Obl(num != nil && c.St.SameInt(num, v)) {
						e.Report(c.Act, c.Instr, "number", fmt.Sprintf("the number set in a value of kind %s can be another one than was given", k))
						return ret
					}
					lo, hi := c.St.Range(v.(absint.VInt))
					l, h := kindRange(k)
					if !r.Obl(lo >= l && hi <= h) {
						e.Report(c.Act, c.Instr, "range", fmt.Sprintf("the number set in a value of kind %s can be out of its range", k))
					}
				case "SetFloat":
					// a value of 32 bits is going to be rounded anyway
					exact := k == reflect.Float32 && tag == "rounded number"
					if !r.Obl(exact || tag == "number" || strings.HasPrefix(tag, "Float(")) {
						e.Report(c.Act, c.Instr, "number", fmt.Sprintf("the number set in a value of kind %s can be another one than was given", k))
					}
				}
				return ret
			}
		}
		for _, fn := range roots {
			e.Run(fn, nil)
		}
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("places where a value is set", len(sites), 6)
	for in := range sites {
		r.Sample("%s in %s", w.Pos(in.Pos()), in.Parent().Name())
	}
}

func runEnums(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "the entries of an enum have the kind of the enum (RegisterEnum checks that)")
	resolve := w.Method(w.Root, "Schema", "Resolve")
	r.Need("entry points", b2i(resolve != nil), 1)
	if resolve == nil {
		return
	}
	const entry = "yarql.enumEntry."
	setters := map[string]bool{}
	touches := w.reaching(func(fn *ssa.Function) bool {
		if w.calls(fn, valueSetters) || w.calls(fn, map[string]bool{"(reflect.Value).Set": true}) {
			return true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if strings.HasPrefix(fieldName(in), entry) {
						return true
					}
				case *ssa.Field:
					if n, ok := in.X.Type().(*types.Named); ok && typeString(n)+"." == entry {
						return true
					}
				}
			}
		}
		return false
	})
	sets, writes := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	var kinds []reflect.Kind
	for k := reflect.Int; k <= reflect.Uint64; k++ {
		kinds = append(kinds, k)
	}
	kinds = append(kinds, reflect.String)
	for _, k := range kinds {
		k := k
		e := resolverEngine(w)
		b := bindEngine(w, k)
		e.StepLimit = maxSteps
		e.EmptyContent, e.SliceContent, e.ContentOf = nil, nil, nil
		e.FieldSet, e.Models = b.FieldSet, b.Models
		e.PartTags = true
		e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = nothingModel
		e.FieldBool = func(tag string) (bool, bool) { return true, tag == "yarql.input.isEnum" }
		// a value read with the method of its kind
		read := func(tag string) bool {
			return strings.HasPrefix(tag, "Int(") || strings.HasPrefix(tag, "Uint(") || strings.HasPrefix(tag, "String(")
		}
		e.Keep = func(tag string) bool {
			return strings.Contains(tag, "enumEntry.") || read(tag) || strings.HasPrefix(tag, "wrapped ")
		}
		e.Relevant = func(fn *ssa.Function) (bool, bool) {
			for _, p := range fn.Params {
				if t := typeString(p.Type()); strings.Contains(t, "enum") || t == "[]byte" || t == "string" {
					return touches(fn), true
				}
			}
			return touches(fn), false
		}
		eq := func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
			if !eq {
				return
			}
			for i, v := range []absint.Val{x, y} {
				tag := strings.TrimPrefix(st.Tag(v), "copy ")
				other := st.Tag([]absint.Val{y, x}[i])
				switch {
				case tag == entry+"key" || tag == entry+"keyBytes":
					st.SetGhostBool("key", true)
				case strings.HasSuffix(tag, "("+entry+"value)") && read(tag) && read(other):
					st.SetGhostBool("value", true)
				}
			}
		}
		e.H.StrEq, e.H.IntEq = eq, eq
		e.Models["bytes.Equal"] = func(c *absint.CallCtx) []absint.Ret {
			s := c.St.Clone()
			eq(c.Act, s, c.Instr, c.Args[0], c.Args[1], true)
			return []absint.Ret{{St: s, V: absint.VBool{Known: true, B: true}}, {St: c.St, V: absint.VBool{Known: true}}}
		}
		e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, incl bool) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if strings.TrimPrefix(typeString(ia.Type()), "*")+"." == entry {
				if g := st.Ghost("at"); g != nil && st.SameInt(g, idx) {
					return
				}
				// another entry
				st.SetTag(idx, "enumEntry.idx")
				st.SetGhost("at", idx)
				st.SetGhostBool("key", false)
				st.SetGhostBool("value", false)
			}
		}
		for n := range valueSetters {
			name := strings.TrimPrefix(n, "(reflect.Value).")
			e.Models[n] = func(c *absint.CallCtx) []absint.Ret {
				sets[c.Instr] = true
				tag := c.St.Tag(c.Args[1])
				if !r.Obl(tag == strings.TrimPrefix(name, "Set")+"("+entry+"value)") {
					e.Report(c.Act, c.Instr, "enum", "an enum of kind "+k.String()+" can get a value here that isn't the one of an entry")
				} else if !r.Obl(c.St.GhostBool("key")) {
					e.Report(c.Act, c.Instr, "enum", "an enum of kind "+k.String()+" can get the value of an entry with another name than was given")
				} else {
					setters[name] = true
				}
				return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
			}
		}
		e.Models["(reflect.Value).Set"] = func(c *absint.CallCtx) []absint.Ret {
			tag := c.St.Tag(c.Args[1])
			if strings.Contains(tag, entry+"value") {
				sets[c.Instr] = true
				if !r.Obl(c.St.GhostBool("key")) {
					e.Report(c.Act, c.Instr, "enum", "an enum of kind "+k.String()+" can get the value of an entry with another name than was given")
				}
			} else if !r.Obl(!strings.HasPrefix(tag, "reflect.ValueOf(")) {
				e.Report(c.Act, c.Instr, "enum", "an enum of kind "+k.String()+" can get a value here that isn't the one of an entry")
			}
			return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
		}
		e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
			tag := strings.TrimPrefix(st.Tag(added), "copy ")
			if tag != entry+"keyBytes" && tag != entry+"key" || !strings.Contains(st.Tag(before), "Result") {
				return
			}
			writes[in] = true
			if !r.Obl(st.GhostBool("value")) {
				e.Report(a, in, "enum", "the name of an entry can be written for another value of kind "+k.String()+" than its own")
			}
		}
		e.Run(resolve, nil)
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("places where an enum value is set", len(sets), 3)
	r.Need("places where the name of an enum value is written", len(writes), 1)
	r.Need("kinds of values that are set", len(setters), 3)
	for in := range sets {
		r.Sample("%s in %s", w.Pos(in.Pos()), in.Parent().Name())
	}
}

// typeString names a type with the names of packages.
func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
