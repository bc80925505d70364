package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

var nameBytes = absint.SetOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")

// resolverEngine returns an engine set up for everything below Resolve.
func resolverEngine(w *World) *absint.Engine {
	e := absint.New(w.Prog, w.Scope)
	single := map[string]bool{"yarql.Schema": true, "yarql.Ctx": true, "yarql.tracer": true}
	e.Singleton = func(n *types.Named) bool {
		return n.Obj().Pkg() != nil && single[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	}
	e.HavocKeeps = func(st *absint.State, tn string) bool {
		return strings.HasPrefix(tn, "yarql.") || strings.HasPrefix(tn, "bytecode.") || strings.HasPrefix(tn, "cache.")
	}
	e.ContentOf = func(tag string) *absint.Content {
		switch tag {
		case "yarql.obj.typeNameBytes", "yarql.obj.qlFieldName", "yarql.enumEntry.keyBytes":
			return absint.Bytes(nameBytes)
		case "yarql.ErrorWPath.path":
			return absint.Tok("elems")
		}
		return nil
	}
	e.EmptyContent = func(tag string) *absint.Content {
		switch tag {
		case "yarql.Schema.Result", "yarql.obj.dataValueType":
			return absint.DocRun()
		case "yarql.Ctx.path":
			return absint.PathRun()
		}
		return nil
	}
	e.SliceContent = func(tag string) *absint.Content {
		if tag == "bytecode.ParserCtx.Res" {
			return absint.Bytes(nameBytes)
		}
		return nil
	}
	return e
}

func stringToJSONModel(c *absint.CallCtx) []absint.Ret {
	c.Act.AppendThrough(c.St, c.Instr, c.Args[1], absint.Tok("string"))
	return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
}

// parsedFlags returns the boolean fields of Schema that tell it's parsed: Parse sets them.
func (w *World) parsedFlags() []string {
	parse := w.Method(w.Root, "Schema", "Parse")
	var out []string
	if parse == nil {
		return nil
	}
	for _, b := range parse.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasPrefix(fieldName(fa), "yarql.Schema.") {
				continue
			}
			if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
				out = append(out, strings.TrimPrefix(fieldName(fa), "yarql.Schema"))
			}
		}
	}
	return out
}

// maxOpen is how many arrays and objects one call of a function may have open.
const maxOpen = 8

const maxSteps = 60_000_000

func init() {
	register("C01", "Abstract interpretation of everything below Resolve and HandleRequest: the bytes written to the response are read by a "+
		"pushdown automaton for JSON whose state is part of the abstract state. Every append to the response must be a legal continuation, "+
		"and at every return the response must be one complete JSON document.", runJSON)
}

func runJSON(r *Report) {
	w := r.W
	r.Assume = append(r.Assume,
		"the string and float encoders write one JSON string and one JSON number (C02 decides the encoders)",
		"names of fields, types and enum entries in the schema, and names in a parsed query, consist of letters, digits and _ (C21 decides the query side)",
		"the path of an error is a list of JSON values (C03)",
		"encoding/json.Marshal, strconv and fastjson do what they document")
	e := resolverEngine(w)
	e.StepLimit = maxSteps
	e.Models[modPath+"/helpers.StringToJSON"] = stringToJSONModel
	e.Models[modPath+"/helpers.FloatToJSON"] = func(c *absint.CallCtx) []absint.Ret {
		c.Act.AppendThrough(c.St, c.Instr, c.Args[2], absint.Tok("number"))
		return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
	}
	e.Models["(*"+modPath+"/bytecode.ParserCtx).ParseQueryToBytecode"] = func(c *absint.CallCtx) []absint.Ret {
		// the parser only works on its own context
		p := c.Args[0].(absint.VPtr)
		c.St.ForgetCells(p)
		return []absint.Ret{{St: c.St, V: absint.VTuple{}}}
	}
	e.Keep = func(tag string) bool {
		switch tag {
		case "yarql.Schema.Result", "yarql.obj.dataValueType", "bytes.Buffer.buf", "strings.Builder.buf":
			return true
		}
		for _, f := range w.parsedFlags() {
			if tag == "yarql.Schema"+f {
				return true
			}
		}
		return false
	}
	e.Relevant = w.relevance([]string{"yarql.Schema.Result"})
	dvt, ok := w.fieldSet("yarql.obj.dataValueType")
	e.FieldSet = func(tag string) (absint.Set, bool) {
		if tag == "yarql.obj.dataValueType" {
			return dvt, ok
		}
		return absint.Set{}, false
	}
	resolve := w.Method(w.Root, "Schema", "Resolve")
	handle := w.Method(w.Root, "Schema", "HandleRequest")
	r.Need("entry points", b2i(resolve != nil)+b2i(handle != nil), 2)
	if resolve == nil || handle == nil {
		return
	}
	appends := map[ssa.Instruction]bool{}
	e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
		b, ok := before.(absint.VSlice)
		if !ok || b.C == nil || b.C.K != absint.CRun || b.C.Run.Mode == '!' {
			return
		}
		appends[in] = true
		x := after.(absint.VSlice)
		if x.C == nil || x.C.K != absint.CRun || x.C.Run.Mode == '!' {
			st.Dead = true
			e.Report(a, in, "json", fmt.Sprintf("%v cannot follow %v", a.ContentOfVal(st, added), b.C))
		} else if len(x.C.Run.Frames) > maxOpen {
			// a loop around calls that leave something open
			st.Dead = true
			e.Report(a, in, "json", fmt.Sprintf("the response has arrays or objects that a loop leaves open: %v", x.C))
		}
	}
	returns := map[ssa.Instruction]int{}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		var v absint.Val
		switch a.Fn {
		case resolve:
			v = st.Cell("single yarql.Schema", ".Result")
		case handle:
			if len(results) > 0 {
				v = results[0]
			}
		default:
			// what a call leaves open would add up in the recursion
			x, ok := st.Cell("single yarql.Schema", ".Result").(absint.VSlice)
			if ok && x.C != nil && x.C.K == absint.CRun && x.C.Run.Mode != '!' && e.Recursive(a.Fn) && len(x.C.Run.Frames)-x.C.Run.At > 1 {
				st.Dead = true
				e.Report(a, in, "json", fmt.Sprintf("an array or object is left open in the response on return: %v", x.C))
			}
			return
		}
		returns[in]++
		var c *absint.Content
		if x, ok := v.(absint.VSlice); ok {
			c = x.C
		}
		if c == nil || !c.Complete() {
			e.Report(a, in, "json", fmt.Sprintf("the response isn't a complete JSON document on return: %v", c))
		}
	}
	setup := func(st *absint.State, params []absint.Val) {
		t := w.Root.Members["Schema"].(*ssa.Type).Type()
		for _, f := range w.parsedFlags() {
			st.SetSingle(t, f, absint.VBool{Known: true, B: true})
		}
	}
	e.Run(resolve, setup)
	e.Run(handle, setup)
	r.Engine(e)
	r.Need("appends to the response", len(appends), 10)
	r.Need("returns with a response", len(returns), 2)
	for i := 0; i < len(appends)+len(returns); i++ {
		r.Obl(true)
	}
	for _, v := range e.Violations() {
		r.Obl(false)
		f := r.Bad(nil, v.Pos, v.Rule, v.Func+": "+v.Msg, "%s", v.Msg)
		f.Func, f.Trace = v.Func, v.Trace
	}
}

// Engine adds the statistics of an abstract interpretation, one that was cut short decides nothing.
func (r *Report) Engine(e *absint.Engine) {
	f, n, k := e.Stats()
	r.Count("functions analysed", f)
	r.Count("function summaries", n)
	r.Count("abstract states", k)
	r.Count("abstract steps", e.Steps)
	unknown := 0
	for _, n := range e.Unknown {
		unknown += n
	}
	r.Count("calls of unknown functions", unknown)
	if e.Overrun() {
		r.Bad(nil, token.NoPos, "undecided", "limit", "the analysis needs more than %d steps", e.StepLimit)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// relevance tells which functions can change one of the fields and which compute text from text.
func (w *World) relevance(fields []string) func(fn *ssa.Function) (bool, bool) {
	tracked := map[string]bool{}
	for _, f := range fields {
		tracked[f] = true
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	isText := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return isBytes(t) || ok && b.Info()&types.IsString != 0
	}
	direct := func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isBytes(pt.Elem()) {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if !tracked[fieldName(fa)] {
						continue
					}
					for _, r := range *fa.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						return true
					}
				}
			}
		}
		return false
	}
	memo := map[*ssa.Function]int{}
	var reach func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	reach = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if m := memo[fn]; m != 0 {
			return m == 2
		}
		if seen[fn] {
			return false
		}
		seen[fn] = true
		if !w.InScope(fn) {
			return false
		}
		if direct(fn) {
			memo[fn] = 2
			return true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					var g *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g = v.Fn.(*ssa.Function)
					}
					if g != nil && reach(g, seen) {
						memo[fn] = 2
						return true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && reach(mc.Fn.(*ssa.Function), seen) {
					memo[fn] = 2
					return true
				}
			}
		}
		return false
	}
	return func(fn *ssa.Function) (bool, bool) {
		t := reach(fn, map[*ssa.Function]bool{})
		if !t && memo[fn] == 0 {
			memo[fn] = 1
		}
		text := false
		for _, p := range fn.Params {
			if isText(p.Type()) {
				text = true
			}
		}
		value := false
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if text && isText(res.At(i).Type()) {
				value = true
			}
		}
		return t, value
	}
}

// fieldName names the field a FieldAddr selects as package.Type.field.
func fieldName(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer)
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "." + st.Field(fa.Field).Name()
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + st.Field(fa.Field).Name()
}

// InScope tells if a function belongs to the analysed packages.
func (w *World) InScope(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return fn.Object() != nil && w.scopeHas(fn.Object().Pkg())
	}
	return w.scopeHas(fn.Pkg.Pkg)
}

func (w *World) scopeHas(p *types.Package) bool {
	for _, q := range w.Scope {
		if p == q {
			return true
		}
	}
	return false
}
