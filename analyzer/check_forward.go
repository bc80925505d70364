package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C25", "Abstract interpretation of HandleRequest that follows where every value comes from: at every call of Resolve the query, the variables, the "+
		"operation name and each option must be the ones of the request, an option may only be left out on a path where it's absent.", runForward)
}

func runForward(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "fastjson and encoding/json do what they document")
	handle := w.Method(w.Root, "Schema", "HandleRequest")
	resolve := w.Method(w.Root, "Schema", "Resolve")
	opts, ropts := w.named("RequestOptions"), w.named("ResolveOptions")
	r.Need("entry points", b2i(handle != nil)+b2i(resolve != nil)+b2i(opts != nil)+b2i(ropts != nil), 4)
	if handle == nil || resolve == nil || opts == nil || ropts == nil {
		return
	}
	resolves := map[ssa.Instruction]bool{}
	given := map[string]bool{}
	jsonKeys := map[string]string{"Variables": "variables", "OperatorTarget": "operationName"}
	subjects := []string{"query", "Variables", "OperatorTarget"}
	rs := opts.Underlying().(*types.Struct)
	for i := 0; i < rs.NumFields(); i++ {
		if hasField(ropts, rs.Field(i).Name()) {
			subjects = append(subjects, rs.Field(i).Name())
		}
	}
	bodies := 0
	for _, subject := range subjects {
		subject := subject
		e := absint.New(w.Prog, w.Scope)
		e.Singleton = func(n *types.Named) bool { return n == opts }
		keyOf := func(st *absint.State, v absint.Val) string {
			if s, ok := v.(absint.VStr); ok && s.C != nil && s.C.K == absint.CConst {
				return s.C.Str
			}
			return ""
		}
		e.HavocKeeps = func(st *absint.State, tn string) bool { return true }
		e.Forget = func(tag string) bool {
			return tag != "yarql.RequestOptions."+subject && !strings.HasPrefix(tag, "yarql.ResolveOptions.")
		}
		const fj = "(*github.com/valyala/fastjson.Value)."
		e.Models[fj+"Get"] = func(c *absint.CallCtx) []absint.Ret {
			keys := c.Act.Elements(c.St, c.Args[1])
			key := "?"
			if len(keys) == 1 {
				key = keyOf(c.St, keys[0])
			}
			v := c.St.FreshResult(c.Sig, "json:"+key)
			if key == jsonKeys[subject] {
				c.St.SetGhost("got:"+key, v)
			}
			return []absint.Ret{{St: c.St, V: v}}
		}
		for _, n := range []string{"GetStringBytes", "StringBytes", "String", "MarshalTo"} {
			name := n
			e.Models[fj+n] = func(c *absint.CallCtx) []absint.Ret {
				tag := c.St.Tag(c.Args[0])
				if name == "GetStringBytes" && len(c.Args) > 1 {
					if keys := c.Act.Elements(c.St, c.Args[1]); len(keys) == 1 {
						tag = "json:" + keyOf(c.St, keys[0])
					}
				}
				kind := "text"
				if name == "String" || name == "MarshalTo" {
					kind = "json"
				}
				return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, kind+"("+tag+")")}}
			}
		}
		e.H.Called = func(a *absint.Activation, st *absint.State, in ssa.CallInstruction, callee *ssa.Function, v absint.Val) {
			// the callbacks of HandleRequest
			c := in.Common()
			if callee != nil || c.IsInvoke() || len(c.Args) > 1 {
				return
			}
			if len(c.Args) == 0 {
				if a.Fn == handle && typeString(c.Signature().Results()) == "([]byte)" {
					st.SetTag(v, "form:body")
				}
				return
			}
			if b, ok := c.Args[0].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return
			}
			key := keyOf(st, a.Value(st, c.Args[0]))
			if key == "" {
				return
			}
			st.SetTag(v, "form:"+key)
		}
		e.Models[modPath+"/helpers.StringToJSON"] = nothingModel
		for _, n := range []string{"Parser).Parse", "Parser).ParseBytes", "Scanner).Init", "Scanner).InitBytes"} {
			e.Models["(*github.com/valyala/fastjson."+n] = func(c *absint.CallCtx) []absint.Ret {
				tag := c.St.Tag(c.Args[1])
				for strings.HasPrefix(tag, "copy ") {
					tag = strings.TrimPrefix(tag, "copy ")
				}
				tag, _, _ = strings.Cut(tag, "#")
				bodies++
				if !r.Obl(tag == "form:body" || tag == "form:operations") {
					e.Report(c.Act, c.Instr, "body", "what's read isn't the body of the request as it is")
				}
				return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, "parsed body")}}
			}
		}
		// what every argument must come from
		wantText := map[string][]string{
			"query":          {"form:query", "text(json:query)"},
			"Variables":      {"form:variables", "json(json:variables)"},
			"OperatorTarget": {"form:operationName", "text(json:operationName)"},
		}
		from := func(tag string, want []string) bool {
			tag = strings.TrimPrefix(tag, "copy ") // a converted byte slice
			tag, _, _ = strings.Cut(tag, "#")      // which of the results
			for _, x := range want {
				if tag == x {
					return true
				}
			}
			return false
		}
		// a part of a request body is absent if it was looked for and isn't there or is null
		absent := func(st *absint.State, key string) bool {
			switch g := st.Ghost("got:" + key).(type) {
			case nil:
				return false
			case absint.VRef:
				if t, ok := st.Attr(g.S, "Type"); ok {
					if s, ok := st.SetOf(t); ok && s == absint.SetOf("\x00") {
						return true
					}
				}
				return st.NilState(g) == 1
			default:
				return st.NilState(g) == 1
			}
		}
		checkText := func(a *absint.Activation, st *absint.State, in ssa.Instruction, name string, v absint.Val) {
			tag := st.Tag(v)
			r.Obl(true)
			if isZeroVal(st, v) && name != "query" {
				if !absent(st, jsonKeys[name]) {
					e.Report(a, in, "forward", fmt.Sprintf("the %s of the request are dropped on a path where the request can have them", jsonKeys[name]))
				}
				return
			}
			if from(tag, wantText[name]) {
				given[name+" "+tag] = true
				return
			}
			if tag == "" {
				tag = absint.Describe(v)
			}
			e.Report(a, in, "forward", fmt.Sprintf("the %s given to the resolver is %s instead of the one of the request", name, tag))
		}
		full := resolve.Object().(*types.Func).FullName()
		e.Models[full] = func(c *absint.CallCtx) []absint.Ret {
			st, a := c.St, c.Act
			resolves[c.Instr] = true
			if subject == "query" {
				checkText(a, st, c.Instr, "query", c.Args[1])
				return []absint.Ret{{St: st, V: st.FreshResult(c.Sig, "call:Resolve")}}
			}
			agg, ok := c.Args[2].(absint.VAgg)
			if !ok {
				e.Report(a, c.Instr, "forward", "the options given to the resolver are unknown")
				return nil
			}
			// the options of the request, if there are any
			optObj, present := st.SingleCells(opts)
			sf := ropts.Underlying().(*types.Struct)
			for i := 0; i < sf.NumFields(); i++ {
				name := sf.Field(i).Name()
				if name != subject && (hasField(opts, name) || wantText[name] != nil) {
					continue
				}
				v := agg.Cells["."+name]
				if v == nil && agg.Zero {
					v = st.Zero(sf.Field(i).Type())
				}
				if v == nil {
					v = st.Fresh(sf.Field(i).Type(), agg.Tag+"."+name)
				}
				if _, ok := wantText[name]; ok {
					checkText(a, st, c.Instr, name, v)
					continue
				}
				if !hasField(opts, name) {
					// not something a request can set
					if !isZeroVal(st, v) {
						e.Report(a, c.Instr, "forward", fmt.Sprintf("%s is set while a request has no such option", name))
					}
					r.Obl(true)
					continue
				}
				r.Obl(true)
				want := "yarql.RequestOptions." + name
				if p, ok := v.(absint.VPtr); ok {
					if st.CellTagOf(p) == want {
						given[name] = true
						continue
					}
					inner := st.Load(p, cellTypeOf(opts, name))
					if st.Tag(inner) == want {
						given[name] = true
						continue
					}
				}
				if st.Tag(v) == want {
					given[name] = true
					continue
				}
				// only absent if the option is absent
				if isZeroVal(st, v) || isFalse(st, v) {
					if !present && !r.Obl(st.NilState(st.Ghost("options")) == 1) {
						e.Report(a, c.Instr, "forward", fmt.Sprintf("the option %s isn't the one of the request on a path where the request can have options", name))
						continue
					}
					if !present {
						continue
					}
					cell, ok := optObj["."+name]
					if ok && (st.NilState(cell) == 1 || isFalse(st, cell)) {
						continue
					}
					e.Report(a, c.Instr, "forward", fmt.Sprintf("the option %s is dropped on a path where the request can have it", name))
					continue
				}
				e.Report(a, c.Instr, "forward", fmt.Sprintf("the option %s given to the resolver isn't the one of the request but %s", name, describeVal(st, v)))
			}
			for _, key := range []string{"query", "variables", "operationName"} {
				st.SetGhost("got:"+key, nil)
			}
			return []absint.Ret{{St: st, V: st.FreshResult(c.Sig, "call:Resolve")}}
		}
		e.Run(handle, func(st *absint.State, params []absint.Val) {
			for i, p := range handle.Params {
				if pt, ok := p.Type().(*types.Pointer); ok && pt.Elem() == types.Type(opts) {
					st.SetGhost("options", params[i])
				}
			}
		})
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("calls of the resolver", len(resolves), 1)
	r.Need("readings of a body", bodies, 1)
	for _, k := range sortedNames(given) {
		r.Sample("%s", k)
	}
	r.Need("kinds of forwarded values", len(given), 6)
}

func hasField(n *types.Named, name string) bool { return cellTypeOf(n, name) != nil }

func cellTypeOf(n *types.Named, name string) types.Type {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func isZeroVal(st *absint.State, v absint.Val) bool {
	switch v := v.(type) {
	case absint.VNil:
		return true
	case absint.VBool:
		return isFalse(st, v)
	case absint.VRef:
		return st.NilState(v) == 1
	case absint.VInt:
		return v.S == 0 && v.K == 0
	case absint.VStr:
		return v.C != nil && v.C.K == absint.CConst && v.C.Str == ""
	}
	return false
}

func isFalse(st *absint.State, v absint.Val) bool {
	b, ok := v.(absint.VBool)
	if !ok {
		return false
	}
	known, val := st.BoolOf(b)
	return known && !val
}

func describeVal(st *absint.State, v absint.Val) string {
	if t := st.Tag(v); t != "" {
		return t
	}
	return absint.Describe(v)
}

// nothingModel models a function that only changes what nothing is known about.
func nothingModel(c *absint.CallCtx) []absint.Ret {
	for _, a := range c.Args {
		c.St.Havoc(a)
	}
	return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
}
