package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"yarqlcheck/absint"
)

func init() {
	register("C13", "Abstract interpretation of the cache and of the parser's use of it, with the comparisons made with an entry as ghost state: everything that's returned "+
		"must be of one entry, of which the query and the name of the operation were compared and equal those that were asked for; an entry must be made of copies of "+
		"everything it was given, of the same length; and the parser must store and take all of its results for its own query, only when it had no errors.", runCache)
}

// entryType returns the type of the entries of the cache.
func (w *World) entryType() *types.Named {
	for _, name := range sortedNames(w.Cache.Members) {
		t, ok := w.Cache.Members[name].(*ssa.Type)
		if !ok {
			continue
		}
		m, ok := t.Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		elem := m.Elem()
		for {
			switch e := elem.Underlying().(type) {
			case *types.Slice:
				elem = e.Elem()
				continue
			case *types.Pointer:
				elem = e.Elem()
				continue
			}
			break
		}
		if n, ok := elem.(*types.Named); ok {
			return n
		}
	}
	return nil
}

func runCache(r *Report) {
	w := r.W
	r.Assume = append(r.Assume, "bytes.Equal and maps do what they document")
	entry := w.entryType()
	var get, set *ssa.Function
	for _, fn := range w.functions() {
		if fn.Pkg != w.Cache || fn.Signature.Recv() == nil {
			continue
		}
		switch {
		case fn.Signature.Results().Len() == 3 && fn.Object().Exported():
			get = fn
		case fn.Signature.Results().Len() == 0 && fn.Object().Exported():
			set = fn
		}
	}
	r.Need("functions of the cache", b2i(entry != nil)+b2i(get != nil)+b2i(set != nil), 3)
	if entry == nil || get == nil || set == nil {
		return
	}
	c := &cacheCheck{r: r, prefix: typeString(entry) + "."}
	c.fields = map[string]string{}
	c.set(set)
	c.get(get)
	c.use(get, set)
}

type cacheCheck struct {
	r      *Report
	prefix string
	fields map[string]string // what the fields of an entry hold, by the number of the parameter: query, bytecode, ...
}

// roles are what the parameters of the function that stores an entry are, and the results of the one that finds it.
func (c *cacheCheck) role(fn *ssa.Function, i int) string {
	p := fn.Params[i]
	switch typeString(p.Type()) {
	case "[]byte":
		for j := 1; j < i; j++ {
			if typeString(fn.Params[j].Type()) == "[]byte" {
				return "bytecode"
			}
		}
		return "query"
	case "*string":
		return "target"
	case "int":
		return "index"
	case "[]int":
		return "fragments"
	}
	return ""
}

func (c *cacheCheck) engine() *absint.Engine {
	e := absint.New(c.r.W.Prog, c.r.W.Scope)
	e.StepLimit = maxSteps
	e.KeepGhosts = true
	e.PartTags = true
	return e
}

// set shows that entries are copies of what they're made of.
func (c *cacheCheck) set(fn *ssa.Function) {
	r, e := c.r, c.engine()
	roles := []string{"query", "bytecode", "target", "index", "fragments"}
	copied := func(st *absint.State, dst, src absint.Val) {
		s, ok := src.(absint.VSlice)
		d, ok2 := dst.(absint.VSlice)
		tag := st.Tag(src)
		if ok && ok2 && strings.HasPrefix(tag, "param ") && st.SameInt(s.Len, d.Len) {
			st.SetTag(dst, "copy "+tag)
		}
	}
	e.H.Copy = func(a *absint.Activation, st *absint.State, in ssa.Instruction, dst, src absint.Val) {
		copied(st, dst, src)
	}
	e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
		if b, ok := before.(absint.VSlice); ok {
			if n, ok := st.ConstOf(b.Len); ok && n == 0 {
				copied(st, after, added)
			}
		}
	}
	fields := map[string]bool{}
	e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
		if f := st.CellTagOf(p); strings.HasPrefix(f, c.prefix) {
			fields[f] = true
			st.SetGhost(f, v)
			if _, isSlice := v.(absint.VSlice); isSlice && !r.Obl(!strings.HasPrefix(st.Tag(v), "param ")) {
				e.Report(a, in, "alias", "an entry can hold a slice of the parser itself, that's overwritten by the next query")
			}
		}
	}
	made := map[ssa.Instruction]bool{}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if in.Parent() != fn {
			return
		}
		has := map[string]bool{}
		any := false
		for _, f := range sortedNames(fields) {
			v := st.Ghost(f)
			any = any || v != nil
			role := st.Tag(v)
			if role == "param index" || role == "param target" {
				role = "copy " + role
			}
			if !strings.HasPrefix(role, "copy param ") {
				role = ""
			}
			role = strings.TrimPrefix(role, "copy param ")
			if p, ok := v.(absint.VPtr); ok && role == "" {
				target := st.Ghost("param target").(absint.VPtr)
				if p == target {
					ok = true
				} else if st.NilState(p) == 1 {
					ok = st.NilState(target) == 1
				} else {
					ok = st.NilState(target) == 2 && strings.HasSuffix(st.Tag(st.Load(p, types.Typ[types.String])), "param target")
				}
				if ok {
					role = "target"
				}
			}
			if role != "" {
				has[role] = true
				c.fields[f] = role
			}
		}
		if !any {
			return
		}
		made[in] = true
		for _, role := range roles {
			if !r.Obl(has[role]) {
				e.Report(a, in, "entry", fmt.Sprintf("the %s of an entry can be another one than it was stored for", role))
			}
		}
	}
	e.Run(fn, func(st *absint.State, params []absint.Val) {
		for i := 1; i < len(params); i++ {
			role := c.role(fn, i)
			if role == "target" {
				p := st.PointTo(params[i], types.Typ[types.String])
				st.SetTag(st.Load(p, types.Typ[types.String]), "param target")
				params[i] = p
				st.SetGhost("param target", p)
				continue
			}
			st.SetTag(params[i], "param "+role)
		}
	})
	r.Engine(e)
	r.engineFindings(e)
	r.Need("places where an entry is complete", len(made), 1)
}

// get shows that only an entry for exactly the query and the operation that are asked for is returned.
func (c *cacheCheck) get(fn *ssa.Function) {
	r, e := c.r, c.engine()
	const (
		query  = "same query"
		target = "same target"
		noWant = "no target wanted"
		noHave = "no target in entry"
		slot   = "slot"
	)
	ghosts := []string{query, target, noWant, noHave}
	e.PartitionGhost = map[string]bool{}
	for _, g := range ghosts {
		e.PartitionGhost[g] = true
	}
	role := func(st *absint.State, v absint.Val) string {
		tag := strings.TrimSuffix(strings.TrimPrefix(st.Tag(v), "copy "), "*")
		if r := c.fields[tag]; r != "" {
			return "entry " + r
		}
		return tag
	}
	is := func(st *absint.State, x, y absint.Val, what string) bool {
		a, b := role(st, x), role(st, y)
		return a == "param "+what && b == "entry "+what || b == "param "+what && a == "entry "+what
	}
	reset := func(st *absint.State) {
		st.SetGhost(query, absint.VInt{})
		st.SetGhost(target, absint.VInt{})
		st.SetGhost(noHave, absint.VInt{})
	}
	e.H.Index = func(a *absint.Activation, st *absint.State, in ssa.Instruction, what string, idx, length absint.VInt, inclusive bool) {
		v, ok := in.(ssa.Value)
		if !ok || strings.TrimPrefix(typeString(v.Type()), "*")+"." != c.prefix {
			return
		}
		if was := st.Ghost(slot); was == nil || !st.SameInt(was, idx) {
			reset(st)
		}
		st.SetGhost(slot, idx)
	}
	e.Models["bytes.Equal"] = func(ctx *absint.CallCtx) []absint.Ret {
		if !is(ctx.St, ctx.Args[0], ctx.Args[1], "query") {
			return nil
		}
		other := ctx.St.Clone()
		ctx.St.SetGhost(query, absint.VInt{K: 1})
		return []absint.Ret{{St: ctx.St, V: absint.VBool{Known: true, B: true}}, {St: other, V: absint.VBool{Known: true}}}
	}
	e.H.StrEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x, y absint.Val, eq bool) {
		if eq && is(st, x, y, "query") {
			st.SetGhost(query, absint.VInt{K: 1})
		}
		if eq && is(st, x, y, "target") {
			st.SetGhost(target, absint.VInt{K: 1})
		}
	}
	e.H.NilEq = func(a *absint.Activation, st *absint.State, in ssa.Instruction, x absint.Val, isNil bool) {
		switch {
		case !isNil:
		case role(st, x) == "param target":
			st.SetGhost(noWant, absint.VInt{K: 1})
		case role(st, x) == "entry target":
			st.SetGhost(noHave, absint.VInt{K: 1})
		}
	}
	hits, misses := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, results []absint.Val) {
		if in.Parent() != fn {
			return
		}
		bad := func(msg string) {
			e.Report(a, in, "hit", msg)
			st.Dead = true
		}
		if st.NilState(results[0]) == 1 {
			misses[in] = true
			return
		}
		hits[in] = true
		for i, v := range results {
			want := []string{"entry bytecode", "entry fragments", "entry index"}[i]
			if got := role(st, v); !r.Obl(got == want) {
				bad(fmt.Sprintf("result %d can be something else than the %s that was stored (%q)", i, strings.TrimPrefix(want, "entry "), got))
				return
			}
		}
		g := map[string]bool{}
		for _, name := range ghosts {
			n, _ := st.ConstOf(st.Ghost(name))
			g[name] = n == 1
		}
		if !r.Obl(g[query]) {
			bad("the entry of another query can be returned")
		} else if !r.Obl(g[target] || g[noWant] && g[noHave]) {
			bad("an entry can be returned that was stored for another operation")
		}
	}
	e.Run(fn, func(st *absint.State, params []absint.Val) {
		reset(st)
		st.SetGhost(noWant, absint.VInt{})
		for i := 1; i < len(params); i++ {
			st.SetTag(params[i], "param "+c.role(fn, i))
		}
	})
	r.Engine(e)
	r.engineFindings(e)
	r.Need("places where an entry is found", len(hits), 1)
	r.Need("places where no entry is found", len(misses), 1)
}

// use shows that the parser stores and takes all of its results, for the query it parses.
func (c *cacheCheck) use(get, set *ssa.Function) {
	r, w := c.r, c.r.W
	toCache := w.reaching(func(fn *ssa.Function) bool {
		return w.calls(fn, map[string]bool{get.String(): true, set.String(): true})
	})
	const parser = "bytecode.ParserCtx."
	results := map[string]string{"bytecode": parser + "Res", "fragments": parser + "FragmentLocations", "index": parser + "TargetIdx"}
	written := map[string]bool{}
	for _, f := range results {
		written[f] = true
	}
	parses := w.reaching(func(fn *ssa.Function) bool {
		if fn.Pkg != w.Byte {
			return false
		}
		for f := range written {
			if len(w.fieldStores(fn, f)) > 0 {
				return true
			}
		}
		return false
	})
	var roots []*ssa.Function
	for _, fn := range w.functions() {
		if fn.Pkg == w.Byte && toCache(fn) && fn.Object() != nil && fn.Object().Exported() {
			roots = append(roots, fn)
		}
	}
	r.Need("functions that use the cache", len(roots), 1)
	gets, sets := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	hits := 0
	for _, root := range roots {
		root, e := root, c.engine()
		e.PartitionGhost = map[string]bool{"hit": true, "used": true, "stored": true, "parsed": true}
		parserType := w.Byte.Members["ParserCtx"].(*ssa.Type).Type().(*types.Named)
		e.Singleton = func(n *types.Named) bool { return n == parserType }
		is := func(st *absint.State, ghost string) bool {
			n, _ := st.ConstOf(st.Ghost(ghost))
			return n == 1
		}
		bad := func(a *absint.Activation, st *absint.State, in ssa.Instruction, msg string) {
			e.Report(a, in, "use", msg)
			st.Dead = true
		}
		for _, fn := range w.functions() {
			if fn.Pkg != w.Byte || toCache(fn) || !parses(fn) || fn.Signature.Recv() == nil {
				continue
			}
			e.Models[fn.Object().(*types.Func).FullName()] = func(c *absint.CallCtx) []absint.Ret {
				if !r.Obl(!is(c.St, "used")) {
					bad(c.Act, c.St, c.Instr, "the parser can add to what it took from the cache")
				} else if !r.Obl(!is(c.St, "stored")) {
					bad(c.Act, c.St, c.Instr, "the parser can go on after its results were stored")
				}
				c.St.SetGhost("parsed", absint.VInt{K: 1})
				c.St.ForgetCells(c.St.PointTo(c.Args[0], parserType))
				return []absint.Ret{{St: c.St, V: c.St.FreshResult(c.Sig, "")}}
			}
		}
		asked := func(fn *ssa.Function, ctx *absint.CallCtx) bool {
			for i := 1; i < len(fn.Params); i++ {
				role, tag := c.role(fn, i), ctx.St.Tag(ctx.Args[i])
				want := results[role]
				switch role {
				case "query":
					want = parser + "Query"
				case "target":
					want = "param target"
					if tag == parser+"target" {
						continue
					}
				}
				if role == "index" {
					cells, _ := ctx.St.SingleCells(parserType)
					if ctx.St.SameInt(ctx.Args[i], cells[strings.TrimPrefix(want, "bytecode.ParserCtx")]) {
						continue
					}
				}
				if !r.Obl(tag == want) {
					bad(ctx.Act, ctx.St, ctx.Instr, fmt.Sprintf("the cache can be used with another %s than the one of the query (%q)", role, tag))
					return false
				}
			}
			return true
		}
		e.Models[get.Object().(*types.Func).FullName()] = func(ctx *absint.CallCtx) []absint.Ret {
			gets[ctx.Instr] = true
			if !asked(get, ctx) {
				return []absint.Ret{{St: ctx.St, V: ctx.St.FreshResult(ctx.Sig, "")}}
			}
			miss := ctx.St.Clone()
			res := ctx.St.FreshResult(ctx.Sig, "").(absint.VTuple)
			for i, name := range []string{"bytecode", "fragments", "index"} {
				ctx.St.SetTag(res.E[i], "cached "+name)
			}
			ctx.St.AssumeNil(res.E[0], false)
			ctx.St.AssumeRange(res.E[0].(absint.VSlice).Len, 1, absint.Inf)
			ctx.St.SetGhost("hit", absint.VInt{K: 1})
			none := miss.FreshResult(ctx.Sig, "").(absint.VTuple)
			miss.AssumeNil(none.E[0], true)
			none.E[2] = absint.VInt{K: -1}
			return []absint.Ret{{St: ctx.St, V: res}, {St: miss, V: none}}
		}
		e.Models[set.Object().(*types.Func).FullName()] = func(ctx *absint.CallCtx) []absint.Ret {
			sets[ctx.Instr] = true
			if asked(set, ctx) {
				cells, ok := ctx.St.SingleCells(parserType)
				errs, isSlice := cells[".Errors"].(absint.VSlice)
				if !r.Obl(ok && isSlice && !ctx.St.Clone().AssumeRange(errs.Len, 1, absint.Inf)) {
					bad(ctx.Act, ctx.St, ctx.Instr, "a query with errors can be stored")
				} else if !r.Obl(is(ctx.St, "parsed")) {
					bad(ctx.Act, ctx.St, ctx.Instr, "results can be stored that aren't of this query")
				}
			}
			ctx.St.SetGhost("stored", absint.VInt{K: 1})
			return []absint.Ret{{St: ctx.St, V: absint.VTuple{}}}
		}
		e.H.Append = func(a *absint.Activation, st *absint.State, in ssa.Instruction, before, added, after absint.Val) {
			tag := st.Tag(added)
			b, ok := before.(absint.VSlice)
			if !strings.HasPrefix(tag, "cached ") || !ok {
				return
			}
			if n, ok := st.ConstOf(b.Len); ok && n == 0 {
				st.SetTag(after, "copy "+tag)
			}
		}
		e.H.Store = func(a *absint.Activation, st *absint.State, in ssa.Instruction, o *absint.Obj, p absint.VPtr, v absint.Val) {
			if !written[st.CellTagOf(p)] {
				return
			}
			tag := st.Tag(v)
			if strings.Contains(tag, "cached ") {
				st.SetGhost("used", absint.VInt{K: 1})
			}
			if _, isSlice := v.(absint.VSlice); isSlice && !r.Obl(!strings.HasPrefix(tag, "cached ")) {
				bad(a, st, in, "the parser can go on to write in what the cache holds")
			}
		}
		e.H.Return = func(a *absint.Activation, st *absint.State, in *ssa.Return, res []absint.Val) {
			if in.Parent() != root || !is(st, "used") {
				return
			}
			hits++
			cells, _ := st.SingleCells(parserType)
			for _, role := range sortedNames(results) {
				tag := st.Tag(cells[strings.TrimPrefix(results[role], "bytecode.ParserCtx")])
				if !r.Obl(strings.TrimPrefix(tag, "copy ") == "cached "+role) {
					bad(a, st, in, fmt.Sprintf("the %s can be missing from what's taken from the cache", role))
				}
			}
			errs, isSlice := cells[".Errors"].(absint.VSlice)
			if !r.Obl(isSlice && !st.Clone().AssumeRange(errs.Len, 1, absint.Inf)) {
				bad(a, st, in, "errors of an earlier query can be left with what's taken from the cache")
			}
		}
		e.Run(root, func(st *absint.State, params []absint.Val) {
			for i, p := range root.Params {
				if typeString(p.Type()) == "*string" {
					st.SetTag(params[i], "param target")
				}
			}
			for g := range e.PartitionGhost {
				st.SetGhost(g, absint.VInt{})
			}
		})
		r.Engine(e)
		r.engineFindings(e)
	}
	r.Need("places where an entry is looked up", len(gets), 1)
	r.Need("places where an entry is stored", len(sets), 1)
	r.Need("returns with an entry", hits, 1)
}
