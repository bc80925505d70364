package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "Copy-path analysis of everything Copy calls: for every value there, the places of the original it is a copy of. Every field registration sets and "+
		"a request reads is, in every object Copy makes, a copy of the same field of the object it stands for; every element and key of a list or map a copy of the one at "+
		"the same place; and nothing but a nil or length check of the copied thing, or the loop over it, decides whether something is copied.", runCopyFidelity)
}

// place is where something is stored: a fresh object, and the fields that lead to the place in it.
type place struct {
	root ssa.Value
	path string
}

// contribution is one store in a place.
type contribution struct {
	in      ssa.Instruction
	val     ssa.Value // what's stored
	key     ssa.Value // the key or index, for elements
	content bool      // stored in what the place refers to, not in the place itself
	builtin string    // copy
}

type fidelity struct {
	w       *World
	r       *Report
	fns     []*ssa.Function
	in      map[*ssa.Function]bool
	own     map[*ssa.Function]bool // only for making copies
	den     map[ssa.Value]map[string]bool
	ret     map[*ssa.Function][]map[string]bool
	contrib map[place][]contribution
	foreign []*ssa.Store
	req     map[*types.Named]map[string]bool
	changed bool
	deps    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

const zeroDen, otherDen = "0", "?"

func (c *fidelity) add(m map[string]bool, s string) map[string]bool {
	if m == nil {
		m = map[string]bool{}
	}
	if !m[s] && len(m) < 40 {
		m[s] = true
		c.changed = true
	}
	return m
}

func isPath(s string) bool { return s != zeroDen && s != otherDen && !strings.HasPrefix(s, "=") }

// objects returns the fresh objects, or the fields of them, a pointer, slice or map refers to.
func (c *fidelity) objects(v ssa.Value, seen map[ssa.Value]bool) []place {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return []place{{v, ""}}
	case *ssa.FieldAddr:
		var out []place
		for _, p := range c.objects(v.X, seen) {
			out = append(out, place{p.root, p.path + "." + plainField(v.X.Type(), v.Field)})
		}
		return out
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		var out []place
		for _, p := range c.objects(v.X, seen) {
			direct := false
			if a, ok := p.root.(*ssa.Alloc); ok && p.path == "" {
				if _, isPtr := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
					// a variable with a pointer
					for _, con := range c.contrib[p] {
						if !con.content {
							out = append(out, c.objects(con.val, seen)...)
							direct = true
						}
					}
				}
			}
			if !direct {
				path := p.path
				if pt, ok := v.Type().Underlying().(*types.Pointer); ok && path != "" {
					if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
						path += "->"
					}
				}
				out = append(out, place{p.root, path})
			}
		}
		return out
	case *ssa.Phi:
		var out []place
		for _, e := range v.Edges {
			out = append(out, c.objects(e, seen)...)
		}
		return out
	case *ssa.ChangeType:
		return c.objects(v.X, seen)
	case *ssa.Slice:
		return c.objects(v.X, seen)
	case *ssa.FreeVar:
		var out []place
		for _, b := range bindings(v) {
			out = append(out, c.objects(b, seen)...)
		}
		return out
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return c.objects(v.Call.Args[0], seen)
		}
	}
	return nil
}

// bindings returns what a variable of a closure is.
func bindings(v *ssa.FreeVar) (out []ssa.Value) {
	fn := v.Parent()
	idx := -1
	for i, fv := range fn.FreeVars {
		if fv == v {
			idx = i
		}
	}
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = append(out, mc.Bindings[idx])
			}
		}
	}
	return out
}

func plainField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return "?"
}

// collect finds what is stored where.
func (c *fidelity) collect() {
	c.contrib = map[place][]contribution{}
	c.foreign = nil
	// variables first, pointers in variables lead to other places
	for pass := 0; pass < 2; pass++ {
		if pass == 1 {
			keep := map[place][]contribution{}
			for p, l := range c.contrib {
				if a, ok := p.root.(*ssa.Alloc); ok && p.path == "" {
					if _, isPtr := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
						for _, con := range l {
							if !con.content {
								keep[p] = append(keep[p], con)
							}
						}
					}
				}
			}
			c.contrib, c.foreign = keep, nil
		}
		for _, fn := range c.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						c.store(in, pass)
					case *ssa.MapUpdate:
						for _, p := range c.objects(in.Map, map[ssa.Value]bool{}) {
							c.contrib[p] = append(c.contrib[p], contribution{in: in, val: in.Value, key: in.Key, content: true})
						}
					case *ssa.Call:
						if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
							for _, p := range c.objects(in.Call.Args[0], map[ssa.Value]bool{}) {
								c.contrib[p] = append(c.contrib[p], contribution{in: in, val: in.Call.Args[1], content: true, builtin: "copy"})
							}
						}
					}
				}
			}
		}
	}
}

func (c *fidelity) store(in *ssa.Store, pass int) {
	var places []place
	content := false
	var key ssa.Value
	switch a := in.Addr.(type) {
	case *ssa.Alloc:
		places = []place{{a, ""}}
		if _, isPtr := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr && pass == 1 {
			return // found by the first pass
		}
	case *ssa.FieldAddr:
		places = c.objects(a, map[ssa.Value]bool{})
	case *ssa.IndexAddr:
		places = c.objects(a.X, map[ssa.Value]bool{})
		content, key = true, a.Index
	case *ssa.FreeVar:
		places = c.objects(a, map[ssa.Value]bool{})
	default:
		for _, p := range c.objects(in.Addr, map[ssa.Value]bool{}) {
			places = append(places, place{p.root, strings.TrimSuffix(p.path, "->")})
		}
		content = true
		for _, p := range places {
			if p.path == "" {
				content = false
			}
		}
	}
	inner := false
	for _, p := range places {
		inner = inner || strings.Contains(p.path, "->")
	}
	if len(places) == 0 || inner {
		c.foreign = append(c.foreign, in)
	}
	for _, p := range places {
		c.contrib[p] = append(c.contrib[p], contribution{in: in, val: in.Val, key: key, content: content})
	}
}

func (c *fidelity) id(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		return "#" + k.Value.String()
	}
	if v.Parent() == nil {
		return v.Name()
	}
	for i, fn := range c.fns {
		if fn == v.Parent() {
			return fmt.Sprint(i, ":", v.Name())
		}
	}
	return v.Name()
}

// of returns what a value is a copy of.
func (c *fidelity) of(v ssa.Value) map[string]bool {
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() || v.Value == nil {
			return map[string]bool{zeroDen: true}
		}
		switch v.Value.Kind() {
		case constant.Bool:
			if !constant.BoolVal(v.Value) {
				return map[string]bool{zeroDen: true}
			}
		case constant.String:
			if constant.StringVal(v.Value) == "" {
				return map[string]bool{zeroDen: true}
			}
		case constant.Int, constant.Float:
			if constant.Sign(v.Value) == 0 {
				return map[string]bool{zeroDen: true}
			}
		}
		return map[string]bool{"=" + v.Value.String(): true}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return map[string]bool{fmt.Sprintf("<%s#%d>", v.Parent().RelString(nil), i): true}
			}
		}
	case *ssa.FreeVar:
		out := map[string]bool{}
		for _, b := range bindings(v) {
			for s := range c.of(b) {
				out[s] = true
			}
		}
		return out
	case *ssa.Global, *ssa.Function, *ssa.MakeClosure:
		return map[string]bool{otherDen: true}
	}
	return c.den[v]
}

// normal returns what the place is a copy of because of a contribution.
func (c *fidelity) normal(con contribution) map[string]bool {
	out := map[string]bool{}
	for s := range c.of(con.val) {
		if con.key == nil || !isPath(s) {
			if con.key != nil && s == zeroDen {
				continue
			}
			out[s] = true
			continue
		}
		i := strings.LastIndexByte(s, '[')
		if i < 0 || !strings.HasSuffix(s, "]") {
			out["an element of "+s] = true
			continue
		}
		base, idx := s[:i], s[i:]
		if _, isMap := con.in.(*ssa.MapUpdate); isMap {
			ok := len(c.of(con.key)) > 0
			for k := range c.of(con.key) {
				ok = ok && (k == s+"#key")
			}
			if !ok {
				out["an element of "+base+" under another key"] = true
				continue
			}
		} else if idx != "["+c.id(con.key)+"]" {
			out["an element of "+base+" at another index"] = true
			continue
		}
		out[base] = true
	}
	return out
}

func (c *fidelity) set(v ssa.Value, dens map[string]bool) {
	for s := range dens {
		c.den[v] = c.add(c.den[v], s)
	}
}

func ext(dens map[string]bool, sfx string) map[string]bool {
	out := map[string]bool{}
	for s := range dens {
		if isPath(s) {
			if strings.Count(s, ".")+strings.Count(s, "[") > 12 {
				s = otherDen
			} else {
				s += sfx
			}
		} else if s != zeroDen {
			s = otherDen
		}
		out[s] = true
	}
	return out
}

var clones = map[string]bool{"strings.Clone": true, "bytes.Clone": true, "slices.Clone": true, "maps.Clone": true}

func (c *fidelity) step(v ssa.Value) {
	switch v := v.(type) {
	case *ssa.Alloc:
		c.object(v)
	case *ssa.MakeSlice, *ssa.MakeMap:
		any := false
		for _, con := range c.contrib[place{v, ""}] {
			any = true
			c.set(v, c.normal(con))
		}
		if !any {
			c.set(v, map[string]bool{zeroDen: true})
		}
	case *ssa.FieldAddr:
		c.set(v, ext(c.of(v.X), "."+plainField(v.X.Type(), v.Field)))
	case *ssa.Field:
		c.set(v, ext(c.of(v.X), "."+plainField(v.X.Type(), v.Field)))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			c.set(v, c.of(v.X))
		} else {
			c.set(v, map[string]bool{otherDen: true})
		}
	case *ssa.IndexAddr:
		c.set(v, ext(c.of(v.X), "["+c.id(v.Index)+"]"))
	case *ssa.Index:
		c.set(v, ext(c.of(v.X), "["+c.id(v.Index)+"]"))
	case *ssa.Lookup:
		for k := range c.of(v.Index) {
			if !isPath(k) {
				k = otherDen
			}
			if i := strings.LastIndexByte(k, '['); i >= 0 && strings.HasSuffix(k, "]#key") {
				// m[key] in a loop over the keys of a map
				n := k[i : len(k)-4]
				if c.of(v.X)[k[:i]] {
					c.set(v, map[string]bool{k[:i] + n: true})
					continue
				}
			}
			if strings.Count(k, "{") > 2 {
				k = otherDen
			}
			c.set(v, ext(c.of(v.X), "{"+k+"}"))
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				n := "[" + c.id(t) + "]"
				if v.Index == 1 {
					c.set(v, ext(c.of(rg.X), n+"#key"))
				} else if v.Index == 2 {
					c.set(v, ext(c.of(rg.X), n))
				}
			}
		case *ssa.Lookup:
			if v.Index == 0 {
				c.set(v, c.of(t))
			} else {
				c.set(v, map[string]bool{otherDen: true})
			}
		case *ssa.Call:
			c.call(v, t, v.Index)
		default:
			c.set(v, map[string]bool{otherDen: true})
		}
	case *ssa.MakeInterface:
		c.set(v, c.of(v.X))
	case *ssa.ChangeType:
		c.set(v, c.of(v.X))
	case *ssa.ChangeInterface:
		c.set(v, c.of(v.X))
	case *ssa.Convert:
		c.set(v, c.of(v.X))
	case *ssa.TypeAssert:
		c.set(v, c.of(v.X))
	case *ssa.Slice:
		switch {
		case isConstInt(v.High, 0):
			c.set(v, map[string]bool{zeroDen: true})
		case v.High == nil && (v.Low == nil || isConstInt(v.Low, 0)):
			c.set(v, c.of(v.X))
		case c.lenOf(v.High, c.of(v.X)) && (v.Low == nil || isConstInt(v.Low, 0)):
			c.set(v, c.of(v.X))
		default:
			c.set(v, ext(c.of(v.X), "[a part]"))
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			c.set(v, c.of(e))
		}
	case *ssa.Call:
		if _, isTuple := v.Type().(*types.Tuple); !isTuple {
			c.call(v, v, 0)
		}
	default:
		c.set(v, map[string]bool{otherDen: true})
	}
}

func isConstInt(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == n
}

// lenOf tells if v is the length of something that's a copy of the same thing.
func (c *fidelity) lenOf(v ssa.Value, dens map[string]bool) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	for s := range c.of(call.Call.Args[0]) {
		if dens[s] {
			return true
		}
	}
	return false
}

func (c *fidelity) object(a *ssa.Alloc) {
	st, isStruct := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	any := false
	for _, con := range c.contrib[place{a, ""}] {
		any = true
		c.set(a, c.normal(con))
	}
	if isStruct {
		for i := 0; i < st.NumFields(); i++ {
			f := "." + st.Field(i).Name()
			for _, con := range c.contrib[place{a, f}] {
				any = true
				for s := range c.normal(con) {
					if isPath(s) && strings.HasSuffix(s, f) && !strings.HasPrefix(s, "an ") {
						c.den[a] = c.add(c.den[a], s[:len(s)-len(f)])
					}
				}
			}
			for p, l := range c.contrib {
				if p.root == ssa.Value(a) && strings.HasPrefix(p.path, f+".") && len(l) > 0 {
					any = true
				}
			}
		}
	}
	if !any {
		c.set(a, map[string]bool{zeroDen: true})
	}
}

// subst replaces the parameters of a function in a path by what they are given.
func (c *fidelity) subst(s string, callee *ssa.Function, args []ssa.Value) map[string]bool {
	pre := "<" + callee.RelString(nil) + "#"
	if !strings.HasPrefix(s, pre) {
		if strings.Contains(s, pre) {
			return map[string]bool{otherDen: true}
		}
		return map[string]bool{s: true}
	}
	end := strings.IndexByte(s, '>')
	n := 0
	fmt.Sscanf(s[len(pre):end], "%d", &n)
	if n >= len(args) {
		return map[string]bool{otherDen: true}
	}
	if strings.Contains(s[end+1:], "<") {
		return map[string]bool{otherDen: true}
	}
	return ext(c.of(args[n]), s[end+1:])
}

func (c *fidelity) call(v ssa.Value, call *ssa.Call, idx int) {
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			args := call.Call.Args
			c.set(v, c.of(args[0]))
			if len(args) < 2 {
				return
			}
			sl, ok := args[1].(*ssa.Slice)
			if ok {
				if arr, ok := sl.X.(*ssa.Alloc); ok && sl.Low == nil && sl.High == nil {
					if _, isArr := arr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); isArr {
						for _, con := range c.contrib[place{arr, ""}] {
							for s := range c.of(con.val) {
								if isPath(s) {
									i := strings.LastIndexByte(s, '[')
									if i < 0 || !strings.HasSuffix(s, "]") {
										s = "an element of " + s
									} else {
										s = s[:i]
									}
								}
								c.set(v, map[string]bool{s: true})
							}
						}
						return
					}
				}
			}
			c.set(v, c.of(args[1]))
		default:
			c.set(v, map[string]bool{otherDen: true})
		}
		return
	}
	callee := call.Call.StaticCallee()
	if callee != nil && c.in[callee] {
		if idx >= len(c.ret[callee]) {
			return
		}
		for s := range c.ret[callee][idx] {
			c.set(v, c.subst(s, callee, call.Call.Args))
		}
		return
	}
	if callee != nil && callee.Object() != nil && callee.Object().Pkg() != nil && clones[callee.Object().Pkg().Name()+"."+callee.Object().Name()] {
		c.set(v, c.of(call.Call.Args[0]))
		return
	}
	c.set(v, map[string]bool{otherDen: true})
}

func (c *fidelity) solve() {
	for n := 0; n < 60; n++ {
		c.changed = false
		for _, fn := range c.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						c.step(v)
					}
					if ret, ok := in.(*ssa.Return); ok {
						for i, v := range ret.Results {
							for len(c.ret[fn]) <= i {
								c.ret[fn] = append(c.ret[fn], map[string]bool{})
							}
							for s := range c.of(v) {
								c.ret[fn][i] = c.add(c.ret[fn][i], s)
							}
						}
					}
				}
			}
		}
		if !c.changed {
			return
		}
	}
}

// control returns the blocks of which the branch decides if b runs, those that only decide about a panic left out.
func (c *fidelity) control(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	fn := b.Parent()
	if c.deps == nil {
		c.deps = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	if d, ok := c.deps[fn.Blocks[0]]; ok && d != nil {
		return c.closure(b)
	}
	panics := map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, x := range fn.Blocks {
			if panics[x] {
				continue
			}
			_, p := x.Instrs[len(x.Instrs)-1].(*ssa.Panic)
			if len(x.Succs) > 0 {
				p = true
				for _, s := range x.Succs {
					p = p && panics[s]
				}
			}
			if p {
				panics[x] = true
				changed = true
			}
		}
	}
	// exit can be reached from s without passing y
	avoids := func(s, y *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			if x == y || seen[x] || panics[x] {
				return false
			}
			seen[x] = true
			if len(x.Succs) == 0 {
				return true
			}
			for _, s := range x.Succs {
				if walk(s) {
					return true
				}
			}
			return false
		}
		return walk(s)
	}
	for _, y := range fn.Blocks {
		d := map[*ssa.BasicBlock]bool{}
		for _, x := range fn.Blocks {
			live := 0
			for _, s := range x.Succs {
				if !panics[s] {
					live++
				}
			}
			if live < 2 || panics[x] {
				continue
			}
			some, all := false, true
			for _, s := range x.Succs {
				if panics[s] {
					continue
				}
				if avoids(s, y) {
					all = false
				} else {
					some = true
				}
			}
			if some && !all {
				d[x] = true
			}
		}
		c.deps[y] = d
	}
	return c.closure(b)
}

func (c *fidelity) closure(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for x := range c.deps[b] {
			if !out[x] {
				out[x] = true
				walk(x)
			}
		}
	}
	walk(b)
	return out
}

// about tells if something that's a copy of one of the dens is the target, an element of it, or what it is part of.
func about(dens map[string]bool, target string) bool {
	for s := range dens {
		if !isPath(s) {
			continue
		}
		t := target
		if strings.HasPrefix(t, s) && (len(t) == len(s) || strings.ContainsRune(".[", rune(t[len(s)]))) {
			return true
		}
		if strings.HasPrefix(s, t+"[") && !strings.Contains(s[len(t)+1:], ".") {
			return true
		}
	}
	return false
}

// allowed tells if a condition may decide if target is copied.
func (c *fidelity) allowed(cond ssa.Value, target string) bool {
	switch v := cond.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return c.allowed(v.X, target)
		}
	case *ssa.Extract:
		if n, ok := v.Tuple.(*ssa.Next); ok && v.Index == 0 {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return about(c.of(rg.X), target)
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, isConst := e.(*ssa.Const); !isConst && !c.allowed(e, target) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		isLen := func(x ssa.Value) bool {
			call, ok := x.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := call.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len" && about(c.of(call.Call.Args[0]), target)
		}
		if v.Op == token.LSS && isLen(v.Y) && counter(v.X) || v.Op == token.GTR && isLen(v.X) && counter(v.Y) {
			return true
		}
		for _, p := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
			k, ok := p[1].(*ssa.Const)
			if !ok {
				continue
			}
			if k.IsNil() {
				return (v.Op == token.EQL || v.Op == token.NEQ) && about(c.of(p[0]), target)
			}
			if isConstInt(k, 0) && isLen(p[0]) {
				return true
			}
			if b, ok := p[0].Type().Underlying().(*types.Basic); ok && (isConstInt(k, 0) || b.Info()&types.IsString != 0 && k.Value != nil && constant.StringVal(k.Value) == "") {
				// if x is its zero value nothing has to be copied
				return (v.Op == token.EQL || v.Op == token.NEQ) && c.of(p[0])[target]
			}
		}
	}
	// a boolean that is not set does not have to be copied
	return c.of(cond)[target]
}

// counter tells if v counts from 0.
func counter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isConstInt(b.Y, 1) {
		phi, ok := b.X.(*ssa.Phi)
		if !ok {
			return false
		}
		for _, e := range phi.Edges {
			if e != ssa.Value(b) && !isConstInt(e, -1) {
				return false
			}
		}
		return true
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(phi) && isConstInt(b.Y, 1) {
			continue
		}
		if !isConstInt(e, 0) {
			return false
		}
	}
	return true
}

// sliceBlocks returns the blocks in which a value is made.
func sliceBlocks(v ssa.Value, out map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	switch v.(type) {
	case *ssa.Next, *ssa.Range, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return
	}
	out[in.Block()] = true
	var ops []*ssa.Value
	for _, op := range in.Operands(ops) {
		if *op != nil {
			sliceBlocks(*op, out, seen)
		}
	}
}

// conditions reports what decides if target is copied, and must not.
func (c *fidelity) conditions(fn *ssa.Function, in ssa.Instruction, val ssa.Value, target, what string) {
	blocks := map[*ssa.BasicBlock]bool{in.Block(): true}
	if val != nil {
		if in.Parent() == val.Parent() {
			sliceBlocks(val, blocks, map[ssa.Value]bool{})
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for b := range blocks {
		for x := range c.control(b) {
			if done[x] {
				continue
			}
			done[x] = true
			br, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c.r.Count("conditions", 1)
			if !c.r.Obl(c.allowed(br.Cond, target)) {
				pos := br.Cond.Pos()
				if pos == token.NoPos {
					pos = in.Pos()
				}
				c.r.Bad(fn, pos, "conditional", what, "%s is only copied under a condition that is not about it", what)
			}
		}
	}
}

// required finds the fields a copy has to have: set by registration, read by a request, and not set by a request.
func (c *fidelity) required(copied map[*ssa.Function]bool) {
	w := c.w
	var roots []*ssa.Function
	newSchema := w.Root.Func("NewSchema")
	for _, fn := range w.exported("Schema") {
		if n := fn.Name(); n != "Resolve" && n != "HandleRequest" && n != "Copy" {
			roots = append(roots, fn)
		}
	}
	reg := w.reachable(roots...)
	request := map[*ssa.Function]bool{}
	for _, fn := range w.requestAndStored() {
		request[fn] = true
	}
	fresh := map[*ssa.Function]bool{newSchema: true}
	ofRequest := w.typesIn(w.named("Ctx"))
	// constructors make what belongs to a request
	for fn := range reg {
		if request[fn] {
			continue
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if p, ok := res.At(i).Type().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && ofRequest[n] {
					fresh[fn] = true
				}
			}
		}
	}
	type use struct{ set, read, rewritten bool }
	uses := map[*types.Named]map[string]*use{}
	get := func(n *types.Named, f string) *use {
		if uses[n] == nil {
			uses[n] = map[string]*use{}
		}
		if uses[n][f] == nil {
			uses[n][f] = &use{}
		}
		return uses[n][f]
	}
	for _, fn := range w.functions() {
		if copied[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if f, ok := in.(*ssa.Field); ok {
					if n, ok := f.X.Type().(*types.Named); ok && request[fn] {
						get(n, plainField(n, f.Field)).read = true
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := fieldOwner(fa)
				if n == nil || !w.inScopePkg(n.Obj().Pkg()) {
					continue
				}
				u := get(n, plainField(fa.X.Type(), fa.Field))
				if token.IsExported(n.Obj().Name()) && token.IsExported(plainField(fa.X.Type(), fa.Field)) && !ofRequest[n] {
					u.set = true // by who uses the package
				}
				if n.Underlying().(*types.Struct).Tag(fa.Field) != "" {
					u.read = true // through reflection
				}
				for _, ref := range *fa.Referrers() {
					st, isStore := ref.(*ssa.Store)
					isStore = isStore && st.Addr == ssa.Value(fa)
					if isStore || changesThrough(ref) {
						if request[fn] && !fresh[fn] && !isNewObject(fa) {
							u.rewritten = true
						}
						if reg[fn] && !fresh[fn] {
							u.set = true
						}
					}
					if _, dbg := ref.(*ssa.DebugRef); !isStore && !dbg && request[fn] {
						u.read = true
					}
				}
			}
		}
	}
	c.req = map[*types.Named]map[string]bool{}
	for n, fs := range uses {
		for f, u := range fs {
			debugf("use %s.%s %v", n.Obj().Name(), f, *u)
			if u.set && u.read && !u.rewritten {
				if c.req[n] == nil {
					c.req[n] = map[string]bool{}
				}
				c.req[n][f] = true
			}
		}
	}
}

func isNewObject(fa *ssa.FieldAddr) bool {
	_, ok := rootObject(fa).(*ssa.Alloc)
	return ok
}

// changesThrough tells if what a field refers to is changed by an instruction that has the address of the field.
func changesThrough(in ssa.Instruction) bool {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	for _, r := range *u.Referrers() {
		if m, ok := r.(*ssa.MapUpdate); ok && m.Map == ssa.Value(u) {
			return true
		}
	}
	return false
}

func runCopyFidelity(r *Report) {
	w := r.W
	root := w.Method(w.Root, "Schema", "Copy")
	if root == nil {
		r.Bad(nil, token.NoPos, "undecided", "Copy", "Schema.Copy cannot be found")
		return
	}
	c := &fidelity{w: w, r: r, in: map[*ssa.Function]bool{}, own: map[*ssa.Function]bool{}, den: map[ssa.Value]map[string]bool{}, ret: map[*ssa.Function][]map[string]bool{}}
	var others []*ssa.Function
	for _, fn := range w.exported("Schema") {
		if fn != root {
			others = append(others, fn)
		}
	}
	others = append(others, w.Root.Func("NewSchema"))
	shared := w.reachable(append(others, w.storedFuncs()...)...)
	for fn := range w.reachable(root) {
		if !shared[fn] || fn.Pkg == w.Help {
			c.in[fn] = true
			c.own[fn] = !shared[fn]
		}
	}
	for _, fn := range w.functions() {
		if c.in[fn] {
			c.fns = append(c.fns, fn)
		}
	}
	c.required(c.own)
	c.collect()
	c.solve()
	r.Count("functions", len(c.own))
	for _, n := range sortedTypes(c.req) {
		for _, f := range sortedNames(c.req[n]) {
			debugf("required %s.%s", n.Obj().Name(), f)
		}
	}
	for _, fn := range c.fns {
		debugf("returns %s %v", fn, c.ret[fn])
	}
	checked := map[*types.Named]bool{}
	for _, fn := range c.fns {
		if !c.own[fn] {
			continue
		}
		c.function(fn, checked)
	}
	for n := range checked {
		r.Count("types", 1)
		r.Count("fields", len(c.req[n]))
	}
	for _, n := range sortedTypes(c.req) {
		if checked[n] {
			r.Sample("%s: %s", typeString(n), strings.Join(sortedNames(c.req[n]), ", "))
		}
	}
	// every type of the definition that has required fields is copied, or taken as it is
	r.Need("functions", len(c.own), 3)
	r.Need("types", len(checked), 3)
	for _, st := range c.foreign {
		fn := st.Parent()
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !c.own[fn] || !ok {
			continue
		}
		n := fieldOwner(fa)
		f := plainField(fa.X.Type(), fa.Field)
		if n == nil || !c.req[n][f] {
			continue
		}
		// something that needs the copy itself
		if !r.Obl(c.fromSchema(st.Val, map[ssa.Value]bool{})) {
			r.Bad(fn, st.Pos(), "changed", n.Obj().Name()+"."+f, "%s.%s of something that is copied already is changed", n.Obj().Name(), f)
		}
	}
}

func sortedTypes(m map[*types.Named]map[string]bool) []*types.Named {
	var out []*types.Named
	for n := range m {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return typeString(out[i]) < typeString(out[j]) })
	return out
}

// fromSchema tells if a value is made with the schema that's being made.
func (c *fidelity) fromSchema(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if a, ok := v.(*ssa.Alloc); ok {
		if types.Identical(a.Type().(*types.Pointer).Elem(), c.w.named("Schema")) {
			return true
		}
		for _, con := range c.contrib[place{a, ""}] {
			if c.fromSchema(con.val, seen) {
				return true
			}
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	var ops []*ssa.Value
	for _, op := range in.Operands(ops) {
		if *op != nil && c.fromSchema(*op, seen) {
			return true
		}
	}
	return false
}

func show(m map[string]bool) string {
	var out []string
	for _, s := range sortedNames(m) {
		for i := strings.IndexByte(s, '<'); i >= 0; i = strings.IndexByte(s, '<') {
			j := strings.IndexByte(s, '>')
			if j < i {
				break
			}
			s = s[:i] + "the original" + s[j+1:]
		}
		switch s {
		case zeroDen:
			s = "nothing"
		case otherDen:
			s = "something else"
		}
		out = append(out, s)
	}
	return strings.Join(out, ", ")
}

func (c *fidelity) function(fn *ssa.Function, checked map[*types.Named]bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Alloc:
				n, ok := v.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
				if !ok {
					continue
				}
				if _, ok := n.Underlying().(*types.Struct); ok && c.relevantType(n) {
					c.checkObject(fn, v, n, checked)
					continue
				}
				c.container(fn, v)
			case *ssa.MakeMap, *ssa.MakeSlice:
				c.container(fn, v.(ssa.Value))
			case *ssa.Return:
				for i, res := range v.Results {
					for s := range c.of(res) {
						if isPath(s) {
							c.returned(fn, v, i, s)
							break
						}
					}
				}
			}
		}
	}
	// what's returned is a copy of one thing
	for i, res := range c.ret[fn] {
		paths := 0
		for s := range res {
			if isPath(s) {
				paths++
			}
		}
		if paths > 1 && !c.r.Obl(false) {
			c.r.Bad(fn, fn.Pos(), "mixed", fmt.Sprint(fn.Name(), i), "%s returns something that is copied from more than one place: %s", fn.Name(), show(res))
		}
	}
}

func (c *fidelity) returned(fn *ssa.Function, ret *ssa.Return, idx int, path string) {
	// nothing else is returned in another case, unless there is nothing to copy
	for _, b := range fn.Blocks {
		other, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || other == ret || c.of(other.Results[idx])[path] {
			continue
		}
		c.conditions(fn, other, nil, path, "what "+fn.Name()+" returns")
	}
}

func (c *fidelity) relevantType(n *types.Named) bool {
	if len(c.req[n]) > 0 {
		return true
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().(*types.Named); ok && len(c.req[m]) > 0 {
			return true
		}
	}
	return false
}

// container checks that the elements of a list or map, or the value behind a pointer, are copies of one thing.
func (c *fidelity) container(fn *ssa.Function, v ssa.Value) {
	contribs := c.contrib[place{v, ""}]
	all := map[string]bool{}
	for _, con := range contribs {
		for s := range c.normal(con) {
			all[s] = true
		}
	}
	paths := 0
	for s := range all {
		if isPath(s) {
			paths++
		}
	}
	if paths == 0 {
		return
	}
	if _, isCell := v.(*ssa.Alloc); isCell {
		// a variable, what is stored in it counts where it is used
		var elements []contribution
		for _, con := range contribs {
			if con.content {
				elements = append(elements, con)
			}
		}
		if len(elements) == 0 {
			return
		}
		contribs = elements
	}
	c.r.Count("containers", 1)
	what := v.Name()
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
		what = a.Comment
	} else if n, ok := v.Type().(*types.Named); ok {
		what = typeString(n)
	}
	if paths > 1 || strings.HasPrefix(show(all), "an element of") {
		c.r.Obl(false)
		c.r.Bad(fn, v.Pos(), "elements", what, "the elements of what is made here are copies of different things: %s", show(all))
		return
	}
	c.r.Obl(true)
	for _, con := range contribs {
		for s := range c.normal(con) {
			if isPath(s) {
				c.conditions(fn, con.in, con.val, s, "an element of "+show(map[string]bool{s: true}))
				c.length(fn, v, con, s)
			}
		}
	}
}

// length checks that a list that's filled by index has the length of what it is a copy of.
func (c *fidelity) length(fn *ssa.Function, v ssa.Value, con contribution, path string) {
	ms, ok := v.(*ssa.MakeSlice)
	if !ok || !con.content {
		return
	}
	if !c.r.Obl(c.lenOf(ms.Len, map[string]bool{path: true})) {
		c.r.Bad(fn, ms.Pos(), "length", show(map[string]bool{path: true}), "the copy of %s does not have the length of the original", show(map[string]bool{path: true}))
	}
}

func (c *fidelity) checkObject(fn *ssa.Function, a *ssa.Alloc, n *types.Named, checked map[*types.Named]bool) {
	fields := false
	for p, l := range c.contrib {
		if p.root == ssa.Value(a) && p.path != "" && len(l) > 0 {
			fields = true
		}
	}
	if moved(a) {
		return // the other one is checked
	}
	for _, con := range c.contrib[place{a, ""}] {
		fields = fields || literal(con.val) != nil
	}
	if !fields {
		return // a variable
	}
	bases := map[string]bool{}
	for s := range c.den[a] {
		if isPath(s) {
			bases[s] = true
		}
	}
	if !c.r.Obl(len(bases) == 1) {
		c.r.Bad(fn, a.Pos(), "origin", n.Obj().Name(), "it cannot be said of which %s this one is a copy: %s", n.Obj().Name(), show(c.den[a]))
		if len(bases) == 0 {
			return
		}
	}
	base := sortedNames(bases)[0]
	c.fields(fn, a, n, "", base, checked)
	if len(c.req[n]) > 0 {
		checked[n] = true
	}
}

func (c *fidelity) fields(fn *ssa.Function, a *ssa.Alloc, n *types.Named, prefix, base string, checked map[*types.Named]bool) {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		path := prefix + "." + f.Name()
		if m, ok := f.Type().(*types.Named); ok && !c.req[n][f.Name()] && len(c.req[m]) > 0 && prefix == "" {
			if _, isStruct := m.Underlying().(*types.Struct); isStruct {
				c.fields(fn, a, m, path, base, checked)
				checked[m] = true
			}
		}
		if !c.req[n][f.Name()] {
			continue
		}
		c.field(fn, a, n, f.Name(), path, base)
	}
}

func (c *fidelity) field(fn *ssa.Function, a *ssa.Alloc, n *types.Named, name, path, base string) {
	target := base + path
	what := n.Obj().Name() + "." + name
	var contribs, inner []contribution
	// the object as a whole
	for p := path; p != ""; p = p[:strings.LastIndexByte(p, '.')] {
		up := p[:strings.LastIndexByte(p, '.')]
		for _, con := range c.contrib[place{a, up}] {
			if lit := literal(con.val); lit != nil {
				inner = append(inner, c.contrib[place{lit, path[len(up):]}]...)
				continue
			}
			for s := range c.normal(con) {
				if s == base+up {
					c.r.Count("whole", 1)
					contribs = append(contribs, con)
				}
			}
		}
	}
	whole := len(contribs)
	contribs = append(contribs, inner...)
	contribs = append(contribs, c.contrib[place{a, path}]...)
	good := map[int]bool{}
	for i, con := range contribs {
		if i < whole {
			good[i] = true
			continue
		}
		for s := range c.normal(con) {
			good[i] = good[i] || s == target || c.lookedUp(s, target, base, what) || strings.HasPrefix(s, "=") && c.known(con.in, s, target)
		}
	}
	any := false
	for i, con := range contribs {
		if good[i] {
			any = true
			if i >= whole {
				c.conditions(fn, con.in, con.val, target, what)
			} else {
				c.conditions(fn, con.in, nil, target, what)
			}
		}
		c.r.Count("stores", 1)
		if i < whole {
			continue
		}
		for s := range c.normal(con) {
			ok := s == target || c.lookedUp(s, target, base, what) || strings.HasPrefix(s, "=") && c.known(con.in, s, target)
			if !ok && c.replaced(con, contribs, good) {
				ok = true
			}
			if s == zeroDen && (c.nothingLeft(con, contribs, good) || good[i]) {
				ok = true
			}
			if !c.r.Obl(ok) {
				c.r.Bad(fn, con.in.Pos(), "other", what, "%s of a copy is not what it is in the original: %s", what, show(map[string]bool{s: true}))
			}
		}
	}
	if !c.r.Obl(any) {
		c.r.Bad(fn, a.Pos(), "dropped", what, "%s is not copied, while registration sets it and requests read it", what)
	}
}

// lookedUp tells if s is looked up in a copied field with what belongs to the target.
func (c *fidelity) lookedUp(s, target, base, what string) bool {
	i := strings.IndexByte(s, '{')
	if i < 0 || !strings.HasSuffix(s, "}") {
		return false
	}
	from := s[:i]
	if !strings.HasPrefix(s[i+1:], target+".") {
		return false
	}
	field := strings.TrimPrefix(from, base+".")
	if field == from {
		return false
	}
	return c.indexOf(what, field)
}

// indexOf tells if registration takes the value of a field from a map in the other one.
func (c *fidelity) indexOf(what, field string) bool {
	for _, fn := range c.w.functions() {
		if c.in[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fieldName(fa), "."+what) {
					continue
				}
				v := st.Val
				if e, ok := v.(*ssa.Extract); ok {
					v = e.Tuple
				}
				l, ok := v.(*ssa.Lookup)
				if !ok {
					continue
				}
				if u, ok := l.X.(*ssa.UnOp); ok {
					if src, ok := u.X.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldName(src), "."+field) {
						return true
					}
				}
			}
		}
	}
	return false
}

// known tells if the target is known to have the constant value where it is stored.
func (c *fidelity) known(in ssa.Instruction, s, target string) bool {
	if s != "=true" {
		return false
	}
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			return false
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, side := br.Cond, 0
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, side = u.X, 1-side
		}
		if c.of(cond)[target] && len(d.Succs[side].Preds) == 1 && d.Succs[side].Dominates(in.Block()) {
			return true
		}
	}
	return false
}

// before tells if a always runs before b does.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// replaced tells if what's stored is replaced afterwards.
func (c *fidelity) replaced(con contribution, all []contribution, good map[int]bool) bool {
	for i, o := range all {
		if good[i] && before(con.in, o.in) && o.in != con.in && con.in.Block() == o.in.Block() {
			return true
		}
	}
	return false
}

// nothingLeft tells if an empty value is only what the field has before it gets the copy.
func (c *fidelity) nothingLeft(con contribution, all []contribution, good map[int]bool) bool {
	for i, o := range all {
		if good[i] && o.in != con.in && before(con.in, o.in) {
			return true
		}
		if good[i] && o.in != con.in && con.in.Block().Dominates(o.in.Block()) {
			return true
		}
	}
	return false
}

// literal returns the object of which v is all of the value, if it is only made for that.
func literal(v ssa.Value) *ssa.Alloc {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok || !moved(a) {
		return nil
	}
	return a
}

// moved tells if the only use of an object is that it is stored in another one of the function.
func moved(a *ssa.Alloc) bool {
	n := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != ssa.Value(a) {
				return false
			}
			return false
		case *ssa.UnOp:
			for _, rr := range *r.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok {
					return false
				}
				if _, ok := st.Addr.(*ssa.Alloc); !ok {
					return false
				}
				n++
			}
		default:
			return false
		}
	}
	return n == 1
}
