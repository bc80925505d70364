package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Model computes the effect of a call to a function that isn't analysed.
// It returns one or more states with the result, nil means not handled.
type Model func(c *CallCtx) []Ret

// Ret is a state after a call with the result of the call.
type Ret struct {
	St *State
	V  Val
}

// CallCtx describes a call.
type CallCtx struct {
	E     *Engine
	St    *State
	Instr ssa.CallInstruction
	Fn    *types.Func // nil for calls of unknown functions
	Args  []Val       // including the receiver
	Sig   *types.Signature
	Act   *Activation
}

// Hooks observe an analysis.
type Hooks struct {
	Call   func(a *Activation, st *State, instr ssa.CallInstruction, callee *ssa.Function, fn *types.Func, args []Val) *State
	Called func(a *Activation, st *State, instr ssa.CallInstruction, callee *ssa.Function, v Val)
	// Fork names a boolean for which both values are followed separately after a call.
	Fork   func(a *Activation, st *State, instr ssa.CallInstruction, callee *ssa.Function, v Val) (VBool, bool)
	Store  func(a *Activation, st *State, instr ssa.Instruction, o *Obj, p VPtr, v Val)
	Load   func(a *Activation, st *State, instr ssa.Instruction, o *Obj, p VPtr)
	Loaded func(a *Activation, st *State, instr *ssa.UnOp, p VPtr, v Val)
	Index  func(a *Activation, st *State, instr ssa.Instruction, what string, idx VInt, length VInt, inclusive bool)
	Deref  func(a *Activation, st *State, instr ssa.Instruction, v Val)
	Return func(a *Activation, st *State, instr *ssa.Return, results []Val)
	Branch func(a *Activation, st *State, instr *ssa.If, taken bool) bool
	Panic  func(a *Activation, st *State, instr ssa.Instruction)
	Append func(a *Activation, st *State, instr ssa.Instruction, before, added, after Val)
	Copy   func(a *Activation, st *State, instr ssa.Instruction, dst, src Val)
	Loop   func(a *Activation, st *State, b *ssa.BasicBlock, back bool)
	Entry  func(fn *ssa.Function, st *State)
	// Local sees the arguments of a function with its own ghosts.
	Local func(fn *ssa.Function, st *State, args, bindings []Val)
	IntEq func(a *Activation, st *State, instr ssa.Instruction, x, y Val, eq bool)
	NilEq func(a *Activation, st *State, instr ssa.Instruction, x Val, isNil bool)
	StrEq func(a *Activation, st *State, instr ssa.Instruction, x, y Val, eq bool)
	// Slice sees the part r that's taken of x.
	Slice func(a *Activation, st *State, in *ssa.Slice, x, r Val)
	// Concat sees x + y.
	Concat func(a *Activation, st *State, in ssa.Instruction, x, y, r Val)
	// Byte splits a state in which a byte of a string was read, it's the value of in.
	Byte func(a *Activation, st *State, in ssa.Value, s VStr, idx VInt) []*State
	// Rune splits a state in which the next rune of a string is taken.
	Rune func(a *Activation, st *State, in *ssa.Next, s VStr) []*State
}

// Engine runs the analysis.
type Engine struct {
	Prog   *ssa.Program
	Pkgs   map[*types.Package]bool // what is analysed
	Models map[string]Model
	H      Hooks

	// ContentOf gives the content of values with a tag
	ContentOf func(tag string) *Content
	// Singleton tells which named types have only one object
	Singleton func(n *types.Named) bool
	// EmptyContent gives the content of x[:0]
	EmptyContent func(tag string) *Content
	// SliceContent gives the content of a part of a value of which the content is unknown
	SliceContent func(tag string) *Content
	// Forget tells which cells (by tag) are not worth a separate state
	Forget func(tag string) bool
	// Keep, if set, tells which cells and symbols (by tag) are tracked between functions and blocks, everything
	// else becomes unknown
	// LocalGhosts tells which functions have their own ghosts, those of the caller are left as they are.
	LocalGhosts func(fn *ssa.Function) bool
	// Partition tells of which types states with different constants are kept apart.
	Partition func(t types.Type) bool
	// PartitionGhost has the ghosts of which the same holds.
	PartitionGhost map[string]bool
	Keep           func(tag string) bool
	// Skip makes every call of a function that isn't relevant return something unknown, without analysing it
	Skip bool
	// FieldSet gives all values a field (by tag) can have
	FieldSet func(tag string) (Set, bool)
	// PartTags gives parts of slices a tag of their own
	PartTags bool
	// StrBounds tells (by tag) of which parts of strings is kept where they are, as attributes "low" and "high".
	StrBounds func(tag string) bool
	// KeepGhosts tracks the numbers of monitors between blocks.
	KeepGhosts bool
	// Pin tells which cells are part of every state, also where nothing is known of them.
	Pin func(tag string) bool
	// SamePart tells (by tag) of which slices that don't change equal parts are the same value.
	SamePart func(tag string) bool
	// PartLow keeps where parts of slices start, as attribute "low".
	PartLow bool
	// NoContent forgets what is in slices of bytes
	NoContent bool
	// KeepBounds keeps where parts of slices start and end, also between functions.
	KeepBounds bool
	// FieldBool gives the value of a boolean field (by tag) that's assumed
	FieldBool func(tag string) (val, ok bool)
	// Relevant, if set, tells which functions can change what is tracked, or compute something from their arguments
	// that matters. Others are analysed once, for unknown arguments.
	Relevant func(fn *ssa.Function) (touches, value bool)
	// HavocKeeps tells which cells (by type name) unknown code cannot change
	HavocKeeps func(st *State, typeName string) bool
	// KeepResults keeps what results are, even if they aren't tracked
	KeepResults bool
	// JoinEntries analyses a function once for all entries that only differ in numbers
	JoinEntries bool
	MaxStates   int

	kept    map[string]bool
	sums    map[string]*Summary
	byFn    map[*ssa.Function][]*Summary
	order   []*Summary
	scc     map[*ssa.Function]int
	sccRec  map[int]bool
	live    map[*ssa.Function]*liveness
	enums   map[*types.Named]*Set
	globals map[*ssa.Global]*globalInfo
	stack   []*Summary

	Viol      map[string]*Violation
	Reached   map[*ssa.Function]bool
	Unknown   map[string]int // calls that were not analysed nor modelled
	Steps     int
	StepLimit int
	Debug     bool
	Capped    map[string]int
}

// Violation is a broken rule at an instruction.
type Violation struct {
	Rule, Func, Msg string
	Pos             token.Pos
	Trace           []string
}

// Summary is the analysis of a function for an entry.
type Summary struct {
	fn      *ssa.Function
	key     string
	entry   *State
	entrySk string
	blocks  map[*ssa.BasicBlock]map[string]*blockState
	exits   map[string]*exitState
	exitKs  []string
	callers map[*Summary]bool
	dirty   bool
	running bool
	joins   int
	cuts    []*Run
	version int
	caller  *Summary
	callPos token.Pos
}

type blockState struct {
	st     *State
	visits int
	dirty  bool
}

type exitState struct {
	st     *State
	ret    Val
	visits int
}

// Activation is the analysis of a function in progress.
type Activation struct {
	E   *Engine
	Sum *Summary
	Fn  *ssa.Function
	wl  []wlItem
}

type wlItem struct {
	b   *ssa.BasicBlock
	key string
}

// New returns an engine for the given packages.
// Deadline is when an analysis gives up, with a panic.
var Deadline time.Time

// Engines has the engines that were made, for what they found before one of them gave up.
var Engines []*Engine

func New(prog *ssa.Program, pkgs []*types.Package) *Engine {
	e := &Engine{
		Prog: prog, Pkgs: map[*types.Package]bool{}, Models: map[string]Model{},
		kept: map[string]bool{}, sums: map[string]*Summary{}, byFn: map[*ssa.Function][]*Summary{}, live: map[*ssa.Function]*liveness{},
		enums: map[*types.Named]*Set{}, globals: map[*ssa.Global]*globalInfo{},
		Viol: map[string]*Violation{}, Reached: map[*ssa.Function]bool{}, Unknown: map[string]int{},
		MaxStates: 600, StepLimit: 60_000_000, Capped: map[string]int{},
	}
	for _, p := range pkgs {
		e.Pkgs[p] = true
	}
	e.Debug = os.Getenv("ABSINT_DEBUG") != ""
	Engines = append(Engines, e)
	return e
}

func (e *Engine) inScope(p *types.Package) bool { return e.Pkgs[p] }

func (e *Engine) contentFor(tag string) *Content {
	if e.ContentOf == nil || tag == "" {
		return nil
	}
	return e.ContentOf(tag)
}

func (e *Engine) forget(o *Obj, path string) bool {
	if e.Forget == nil || o.Zero {
		return false
	}
	return e.Forget(cellTag(o, path))
}

func (e *Engine) havocKeeps(st *State, p VPtr, o *Obj) bool {
	if e.HavocKeeps == nil || o.T == nil {
		return false
	}
	return e.HavocKeeps(st, typeName(o.T))
}

func (e *Engine) keep(tag string) bool {
	if tag == "" {
		return false
	}
	k, ok := e.kept[tag]
	if !ok {
		k = e.Keep(tag)
		e.kept[tag] = k
	}
	return k
}

// constGlobal tells if a global never changes.
func (e *Engine) constGlobal(o *Obj) bool {
	for g, gi := range e.globals {
		if gi.fixed && o.Name == "global "+g.String() {
			return true
		}
	}
	return false
}

func (e *Engine) pinInt(st *State, s Sym) bool { return true }

func (e *Engine) onMaterialise(st *State, o *Obj, p VPtr, v Val) {}

// enumSet returns the values of the constants of a small integer type.
func (e *Engine) enumSet(n *types.Named) (Set, bool) {
	if s, ok := e.enums[n]; ok {
		if s == nil {
			return Set{}, false
		}
		return *s, true
	}
	e.enums[n] = nil
	b, ok := n.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || n.Obj().Pkg() == nil {
		return Set{}, false
	}
	var s Set
	cnt := 0
	scope := n.Obj().Pkg().Scope()
	for _, name := range scope.Names() {
		c, ok := scope.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), n) {
			continue
		}
		v, ok := constant.Int64Val(c.Val())
		if !ok || v < 0 || v > 255 {
			return Set{}, false
		}
		s.Add(int(v))
		cnt++
	}
	if cnt < 2 || cnt > 64 {
		return Set{}, false
	}
	e.enums[n] = &s
	return s, true
}

// Report records a violation.
func (e *Engine) Report(a *Activation, instr ssa.Instruction, rule, msg string) {
	fn := instr.Parent()
	pos := instr.Pos()
	if pos == token.NoPos {
		pos = nearPos(instr)
	}
	key := rule + "|" + fn.String() + "|" + msg + "|" + e.Prog.Fset.Position(pos).String()
	if e.Viol[key] != nil {
		return
	}
	v := &Violation{Rule: rule, Func: fn.String(), Msg: msg, Pos: pos}
	for s := a.Sum; s != nil && len(v.Trace) < 12; s = s.caller {
		v.Trace = append(v.Trace, s.fn.String()+" called at "+e.Prog.Fset.Position(s.callPos).String())
	}
	e.Viol[key] = v
}

func nearPos(instr ssa.Instruction) token.Pos {
	b := instr.Block()
	idx := 0
	for i, in := range b.Instrs {
		if in == instr {
			idx = i
		}
	}
	for i := idx; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p != token.NoPos {
			return p
		}
	}
	for i := idx; i < len(b.Instrs); i++ {
		if p := b.Instrs[i].Pos(); p != token.NoPos {
			return p
		}
	}
	return instr.Parent().Pos()
}

// ---- strongly connected components of the static call graph ----

func (e *Engine) buildSCC() {
	if e.scc != nil {
		return
	}
	e.scc = map[*ssa.Function]int{}
	e.sccRec = map[int]bool{}
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	next, comp := 1, 1
	succ := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		seen := map[*ssa.Function]bool{}
		add := func(g *ssa.Function) {
			if g != nil && !seen[g] && len(g.Blocks) > 0 && e.analysed(g) {
				seen[g] = true
				out = append(out, g)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
		// a closure passed to a function is called by it, treat it as called by the function that makes it and the callee as calling it
		for _, anon := range f.AnonFuncs {
			add(anon)
		}
		return out
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		index[f] = next
		low[f] = next
		next++
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ(f) {
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
			if g == f {
				e.sccRec[comp] = true // corrected below
			}
		}
		if low[f] == index[f] {
			n := 0
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				e.scc[g] = comp
				n++
				if g == f {
					break
				}
			}
			rec := n > 1
			for _, g := range succ(f) {
				if g == f {
					rec = true
				}
			}
			e.sccRec[comp] = rec
			comp++
		}
	}
	for _, p := range e.Prog.AllPackages() {
		if !e.inScope(p.Pkg) {
			continue
		}
		var fns []*ssa.Function
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				fns = append(fns, m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := e.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := e.Prog.MethodValue(ms.At(i)); f != nil {
							fns = append(fns, f)
						}
					}
				}
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, f := range fns {
			if index[f] == 0 && len(f.Blocks) > 0 {
				visit(f)
			}
		}
	}
}

// Recursive tells if a function can call itself.
func (e *Engine) Recursive(f *ssa.Function) bool {
	e.buildSCC()
	return e.sccRec[e.scc[f]]
}

// SameSCC tells if two functions can call each other.
func (e *Engine) SameSCC(f, g *ssa.Function) bool {
	e.buildSCC()
	return e.scc[f] != 0 && e.scc[f] == e.scc[g] && e.sccRec[e.scc[f]]
}

func (e *Engine) analysed(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		return e.inScope(g.Pkg.Pkg)
	}
	// wrappers and instances
	if o := g.Object(); o != nil && o.Pkg() != nil {
		return e.inScope(o.Pkg())
	}
	return false
}

// ---- liveness ----

type liveness struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	order map[ssa.Value]int
	head  map[*ssa.BasicBlock]bool // targets of a back edge
	rpo   map[*ssa.BasicBlock]int
}

func (e *Engine) liveOf(f *ssa.Function) *liveness {
	if l, ok := e.live[f]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, order: map[ssa.Value]int{}, head: map[*ssa.BasicBlock]bool{}, rpo: map[*ssa.BasicBlock]int{}}
	n := 0
	for _, p := range f.Params {
		l.order[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		l.order[p] = n
		n++
	}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				l.order[v] = n
				n++
			}
		}
	}
	track := func(v ssa.Value) bool { _, ok := l.order[v]; return ok }
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := predIndex(s, b)
				for v := range l.in[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, phi)
					_ = pi
				}
			}
			for _, s := range b.Succs {
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && track(phi.Edges[k]) {
							cur[phi.Edges[k]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if phi, ok := in.(*ssa.Phi); ok {
					// a phi is live in its own block if it is used
					_ = phi
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
				if run, ok := in.(*ssa.RunDefers); ok {
					for _, d := range deferred(run) {
						for _, op := range d.Operands(nil) {
							if *op != nil && track(*op) {
								cur[*op] = true
							}
						}
					}
				}
			}
			// cur now holds what is needed after the phis
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.head[s] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i, b := range post {
		l.rpo[b] = len(post) - i
	}
	e.live[f] = l
	return l
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

// ---- fixed point ----

// Run analyses a function for an entry state made by setup.
func (e *Engine) Run(fn *ssa.Function, setup func(st *State, params []Val)) *Summary {
	e.buildSCC()
	st := e.newState()
	var args []Val
	for _, p := range fn.Params {
		args = append(args, st.Fresh(p.Type(), "param "+p.Name()))
	}
	if setup != nil {
		setup(st, args)
	}
	s, _ := e.summaryFor(fn, args, nil, st, nil, token.NoPos)
	for {
		any := false
		for i := 0; i < len(e.order); i++ {
			if e.order[i].dirty && !e.order[i].running {
				e.analyse(e.order[i])
				any = true
			}
		}
		if !any {
			break
		}
	}
	return s
}

// summaryFor returns the summary for a call, with the renaming of the entry.
func (e *Engine) summaryFor(fn *ssa.Function, args, bindings []Val, st *State, caller *Summary, pos token.Pos) (*Summary, *normaliser) {
	var env []namedVal
	for i, p := range fn.Params {
		env = append(env, namedVal{fmt.Sprintf("p%d", i), p, args[i]})
	}
	for i, p := range fn.FreeVars {
		env = append(env, namedVal{fmt.Sprintf("f%d", i), p, bindings[i]})
	}
	st.pruneHist(env)
	rec := e.Recursive(fn)
	keep := keepFramesAll
	if rec {
		keep = keepFrames
	}
	entry, sk, n := st.normaliseFor(env, modeEntry, keep)
	if e.H.Entry != nil {
		e.H.Entry(fn, entry)
		sk += entry.ghostKey()
	}
	key := fn.String() + fmt.Sprintf("@%p", fn) + "\n" + sk
	if !rec && !e.JoinEntries {
		full := key + "\n" + entry.zoneKey()
		if s, ok := e.sums[full]; ok {
			return s, n
		}
		if len(e.byFn[fn]) < 400 {
			key = full
		}
	}
	s, ok := e.sums[key]
	if !ok {
		s = &Summary{fn: fn, key: key, entry: entry, entrySk: sk, blocks: map[*ssa.BasicBlock]map[string]*blockState{}, exits: map[string]*exitState{}, callers: map[*Summary]bool{}, dirty: true, cuts: n.cutsAt, caller: caller, callPos: pos}
		e.sums[key] = s
		e.byFn[fn] = append(e.byFn[fn], s)
		e.order = append(e.order, s)
		e.Reached[fn] = true
		return s, n
	}
	merged, changed := s.entry.merge(entry, s.joins > 3)
	if changed {
		s.joins++
		s.entry = merged
		s.dirty = true
		s.version++
	}
	return s, n
}

func (st *State) ghostKey() string { return "" }

// zoneKey identifies the numbers of a normalised state.
func (st *State) zoneKey() string {
	var sb strings.Builder
	sb.WriteString(st.z.String())
	var syms []int
	for s, f := range st.facts {
		if f.HasS && !f.Disc {
			syms = append(syms, int(s))
		}
	}
	sort.Ints(syms)
	for _, s := range syms {
		fmt.Fprintf(&sb, ";%d%s", s, st.facts[Sym(s)].Set.String())
	}
	return sb.String()
}

func (e *Engine) analyse(s *Summary) {
	a := &Activation{E: e, Sum: s, Fn: s.fn}
	s.running = true
	e.stack = append(e.stack, s)
	for rounds := 0; s.dirty; rounds++ {
		s.dirty = false
		// run again from everything that's known
		for b, m := range s.blocks {
			for k, bs := range m {
				bs.dirty = true
				a.wl = append(a.wl, wlItem{b, k})
			}
		}
		st := s.entry.clone()
		st.pins, st.opins = s.entry.pins, s.entry.opins
		st.pinLens = s.entry.pinnedLens()
		st.nextSym, st.nextObj = symBase, objBase
		a.runBlock(s.fn.Blocks[0], st)
		lv := e.liveOf(s.fn)
		for len(a.wl) > 0 {
			// the first block in reverse post order
			best := 0
			for i := range a.wl {
				if lv.rpo[a.wl[i].b] < lv.rpo[a.wl[best].b] || (lv.rpo[a.wl[i].b] == lv.rpo[a.wl[best].b] && a.wl[i].key < a.wl[best].key) {
					best = i
				}
			}
			it := a.wl[best]
			a.wl[best] = a.wl[len(a.wl)-1]
			a.wl = a.wl[:len(a.wl)-1]
			bs := s.blocks[it.b][it.key]
			if bs == nil || !bs.dirty {
				continue
			}
			bs.dirty = false
			n := bs.st.clone()
			n.nextSym, n.nextObj = symBase, objBase
			a.runBlock(it.b, n)
		}
	}
	e.stack = e.stack[:len(e.stack)-1]
	s.running = false
}

// flow sends a state along an edge.
func (a *Activation) flow(from, to *ssa.BasicBlock, st *State) {
	if st.Dead {
		return
	}
	e := a.E
	lv := e.liveOf(a.Fn)
	pi := predIndex(to, from)
	// the same block can be a predecessor twice, the phis then have the same values or it does not matter which is used
	var phiVals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		phiVals = append(phiVals, a.val(st, phi.Edges[pi]))
	}
	if e.H.Loop != nil && lv.head[to] {
		e.H.Loop(a, st, to, to.Dominates(from))
	}
	env := make(map[ssa.Value]Val, len(st.env))
	for v := range lv.in[to] {
		if x, ok := st.env[v]; ok {
			env[v] = x
		}
	}
	for i, phi := range phis {
		if lv.in[to][phi] {
			env[phi] = phiVals[i]
		}
	}
	st.env = env
	if len(to.Preds) < 2 {
		a.runBlock(to, st)
		return
	}
	a.enqueue(to, st, lv)
}

func (a *Activation) enqueue(to *ssa.BasicBlock, st *State, lv *liveness) {
	e := a.E
	nvs := make([]namedVal, 0, len(st.env))
	grow := lv.head[to] && len(a.Sum.blocks[to]) > 12
	for k, v := range st.env {
		if grow {
			// a text that grows in a loop
			v = widenText(v)
			st.env[k] = v
		}
		nvs = append(nvs, namedVal{fmt.Sprint(lv.order[k]), k, v})
	}
	sort.Slice(nvs, func(i, j int) bool { return lv.order[nvs[i].key] < lv.order[nvs[j].key] })
	st.pruneHist(nvs)
	n, sk, _ := st.normalise(nvs, modeBlock)
	m := a.Sum.blocks[to]
	if m == nil {
		m = map[string]*blockState{}
		a.Sum.blocks[to] = m
	}
	bs := m[sk]
	if bs == nil {
		if len(m) > e.MaxStates {
			e.Capped[a.Fn.String()]++
			if e.Capped[a.Fn.String()] > 50 {
				panic(fmt.Sprintf("absint: more than %d states in block %d of %s\n%s", e.MaxStates, to.Index, a.Fn, sk))
			}
		}
		m[sk] = &blockState{st: n, dirty: true}
		a.wl = append(a.wl, wlItem{to, sk})
		return
	}
	limit := 3
	merged, changed := bs.st.merge(n, bs.visits > limit && (lv.head[to] || bs.visits > 12))
	if changed {
		bs.visits++
		bs.st = merged
		if !bs.dirty {
			bs.dirty = true
			a.wl = append(a.wl, wlItem{to, sk})
		}
	}
}

// exit records a return.
func (a *Activation) exit(st *State, results []Val) {
	if st.Dead {
		return
	}
	if a.E.Keep != nil && !a.E.KeepResults {
		for i, r := range results {
			results[i] = st.blur(r)
		}
	}
	var ret Val
	switch len(results) {
	case 0:
		ret = VTuple{}
	case 1:
		ret = results[0]
	default:
		ret = VTuple{E: results}
	}
	env := []namedVal{{"ret", nil, ret}}
	st.env = map[ssa.Value]Val{}
	st.pruneHist(env)
	n, sk, nm := st.normalise(env, modeExit)
	_ = nm
	// the value is the first thing that was renamed: do it again to get it
	rv := nm.retVal
	ex := a.Sum.exits[sk]
	if ex == nil {
		a.Sum.exits[sk] = &exitState{st: n, ret: rv}
		a.Sum.exitKs = append(a.Sum.exitKs, sk)
		a.changedExit()
		return
	}
	merged, changed := ex.st.merge(n, ex.visits > 4)
	if changed {
		ex.visits++
		ex.st = merged
		a.changedExit()
	}
}

func (a *Activation) changedExit() {
	a.Sum.version++
	for c := range a.Sum.callers {
		c.dirty = true
	}
}

// Exits returns the states in which a function returns.
func (s *Summary) Exits() []Ret {
	var out []Ret
	for _, k := range s.exitKs {
		out = append(out, Ret{s.exits[k].st, s.exits[k].ret})
	}
	return out
}

// pruneHist forgets the lengths nothing refers to.
func (st *State) pruneHist(env []namedVal) {
	var ints []VInt
	gotInts := false
	collect := func() {
		gotInts = true
		var walk func(v Val)
		walk = func(v Val) {
			switch v := v.(type) {
			case VInt:
				ints = append(ints, v)
			case VTuple:
				for _, e := range v.E {
					walk(e)
				}
			case VFunc:
				for _, e := range v.B {
					walk(e)
				}
			}
		}
		for _, nv := range env {
			walk(nv.v)
		}
		for _, o := range st.heap {
			for _, c := range o.Cells {
				walk(c)
			}
		}
		for s := Sym(1); s <= Sym(st.pins); s++ {
			if _, ok := st.z.idx[s]; ok {
				ints = append(ints, VInt{S: s})
			}
		}
	}
	fix := func(v VSlice) (VSlice, bool) {
		if len(v.Hist) == 0 {
			return v, false
		}
		if !gotInts {
			collect()
		}
		var hist []Checkpoint
		for i, h := range v.Hist {
			keep := false
			for _, x := range ints {
				if st.Leq(x, h.Len, 0) && st.Leq(h.Len, x, 0) {
					keep = true
					break
				}
			}
			for _, g := range v.Hist[:i] {
				if st.Leq(g.Len, h.Len, 0) && st.Leq(h.Len, g.Len, 0) {
					keep = false
				}
			}
			if keep {
				hist = append(hist, h)
			}
		}
		if len(hist) == len(v.Hist) {
			return v, false
		}
		v.Hist = hist
		return v, true
	}
	for i, nv := range env {
		if s, ok := nv.v.(VSlice); ok {
			if s, ch := fix(s); ch {
				env[i].v = s
			}
		}
	}
	for id, o := range st.heap {
		for k, c := range o.Cells {
			if s, ok := c.(VSlice); ok {
				if s, ch := fix(s); ch {
					st.objw(id).Cells[k] = s
				}
			}
		}
	}
}

// call analyses a call to a function with a body.
func (a *Activation) call(st *State, fn *ssa.Function, args, bindings []Val, instr ssa.Instruction) []Ret {
	e := a.E
	if e.LocalGhosts != nil && e.LocalGhosts(fn) {
		saved := st.heap[ghostObj].Cells
		st.objw(ghostObj).Cells = map[string]Val{}
		if e.H.Local != nil {
			e.H.Local(fn, st, args, bindings)
		}
		rets := a.call2(st, fn, args, bindings, instr)
		for _, r := range rets {
			cells := make(map[string]Val, len(saved))
			for k, v := range saved {
				cells[k] = v
			}
			r.St.objw(ghostObj).Cells = cells
		}
		return rets
	}
	return a.call2(st, fn, args, bindings, instr)
}

func (a *Activation) call2(st *State, fn *ssa.Function, args, bindings []Val, instr ssa.Instruction) []Ret {
	e := a.E
	plain := e.Relevant != nil && !e.relevantCall(fn, args, bindings)
	if plain {
		st.forgetUntracked(args, bindings)
		if e.Skip {
			return []Ret{{st, st.freshResult(fn.Signature, "call:"+fn.String())}}
		}
		var fa, fb []Val
		es := e.newState()
		for _, p := range fn.Params {
			fa = append(fa, es.Fresh(p.Type(), "param "+p.Name()))
		}
		for _, p := range fn.FreeVars {
			fb = append(fb, es.Fresh(p.Type(), "free "+p.Name()))
		}
		sum, n := e.summaryFor(fn, fa, fb, es, a.Sum, instr.Pos())
		sum.callers[a.Sum] = true
		if sum.dirty && !sum.running {
			e.analyse(sum)
		}
		var out []Ret
		for i := 0; i < len(sum.exitKs); i++ {
			ex := sum.exits[sum.exitKs[i]]
			es2 := es.clone()
			r, ok := instantiate(es2, sum, n, ex)
			if !ok {
				continue
			}
			ns := st.clone()
			out = append(out, Ret{ns, ns.carry(es2, r.V)})
		}
		return out
	}
	sum, n := e.summaryFor(fn, args, bindings, st, a.Sum, instr.Pos())
	sum.callers[a.Sum] = true
	if sum.dirty && !sum.running {
		e.analyse(sum)
	}
	var out []Ret
	for i := 0; i < len(sum.exitKs); i++ {
		ex := sum.exits[sum.exitKs[i]]
		if r, ok := instantiate(st.clone(), sum, n, ex); ok {
			out = append(out, r)
		}
	}
	return out
}

type instancer struct {
	st    *State
	n     *normaliser
	ex    *exitState
	syms  map[Sym]Sym
	objs  map[ObjID]ObjID
	pins  Sym
	opins ObjID
}

// instantiate applies an exit of a function to the state of the caller.
func instantiate(st *State, sum *Summary, n *normaliser, ex *exitState) (Ret, bool) {
	in := &instancer{st: st, n: n, ex: ex, syms: map[Sym]Sym{}, objs: map[ObjID]ObjID{}, pins: Sym(sum.entry.pins), opins: sum.entry.opins}
	// what the call tells about the symbols of the entry
	for s := Sym(1); s <= in.pins; s++ {
		f, ok := ex.st.facts[s]
		if !ok {
			continue
		}
		if slot, isSlot := n.slotOf[s]; isSlot {
			if f.HasS {
				if set, ok := st.setOf(slot); ok && set.And(f.Set).Empty() {
					return Ret{}, false
				}
				if !st.restrict(slot, f.Set) {
					return Ret{}, false
				}
			}
			continue
		}
		o, ok := n.symBack[s]
		if !ok {
			continue
		}
		cf := st.facts[o]
		if f.Nil != 0 && cf.Nil != f.Nil {
			if cf.Nil != 0 {
				return Ret{}, false
			}
			cf.Nil = f.Nil
			st.setFact(o, cf)
		}
		if f.Truth != 0 && cf.Truth != f.Truth {
			if cf.Truth != 0 {
				return Ret{}, false
			}
			cf.Truth = f.Truth
			st.setFact(o, cf)
		}
	}
	// the cells
	for id, o := range ex.st.heap {
		nid := in.obj(id)
		old := st.heap[nid]
		no := &Obj{T: o.T, Zero: o.Zero, Sym: o.Sym, Name: o.Name, Cells: make(map[string]Val, len(o.Cells))}
		for k, v := range o.Cells {
			var prev Val
			if old != nil {
				prev = old.Cells[k]
			}
			no.Cells[k] = in.val(v, prev)
		}
		st.heap[nid] = no
		st.owned[nid] = true
	}
	for s, m := range ex.st.attrs {
		ns := in.sym(s)
		for k, v := range m {
			st.SetAttr(ns, k, in.val(v, nil))
		}
	}
	ret := in.val(ex.ret, nil)
	// the numbers
	z := st.zw()
	ez := ex.st.z
	names := make([]VInt, len(ez.syms))
	for i, s := range ez.syms {
		if s == 0 {
			continue
		}
		names[i] = in.intOf(s)
	}
	for i := range ez.syms {
		for j := range ez.syms {
			if i == j || ez.m[i][j] >= inf {
				continue
			}
			a, b := names[i], names[j]
			if !z.Assert(a.S, b.S, satAdd(ez.m[i][j], b.K-a.K)) {
				return Ret{}, false
			}
		}
	}
	return Ret{st, ret}, true
}

func (in *instancer) intOf(s Sym) VInt {
	if s == 0 {
		return VInt{}
	}
	if s <= in.pins {
		if v, ok := in.n.slotOf[s]; ok {
			return v
		}
		if o, ok := in.n.symBack[s]; ok {
			return VInt{S: o}
		}
	}
	return VInt{S: in.sym(s)}
}

func (in *instancer) sym(s Sym) Sym {
	if s == 0 {
		return 0
	}
	if s <= in.pins {
		if o, ok := in.n.symBack[s]; ok {
			return o
		}
	}
	if r, ok := in.syms[s]; ok {
		return r
	}
	r := in.st.sym()
	in.syms[s] = r
	if f, ok := in.ex.st.facts[s]; ok {
		in.st.setFact(r, f)
	}
	return r
}

func (in *instancer) obj(id ObjID) ObjID {
	if id == ghostObj {
		return id
	}
	if id <= in.opins {
		if o, ok := in.n.objBack[id]; ok {
			return o
		}
	}
	if r, ok := in.objs[id]; ok {
		return r
	}
	if o := in.ex.st.heap[id]; o != nil && (strings.HasPrefix(o.Name, "single ") || strings.HasPrefix(o.Name, "global ")) {
		for sid, so := range in.st.heap {
			if so.Name == o.Name {
				in.objs[id] = sid
				return sid
			}
		}
		r := in.st.newObj(&Obj{Name: o.Name, T: o.T})
		in.objs[id] = r
		return r
	}
	r := in.st.newObj(&Obj{})
	in.objs[id] = r
	return r
}

func (in *instancer) content(c *Content) *Content {
	if c == nil || c.K != CRun || c.Run.Cut == 0 {
		return c
	}
	i := int(c.Run.Cut) - 1
	if i >= len(in.n.cutsAt) {
		return nil
	}
	old := in.n.cutsAt[i]
	r := *c.Run
	kept := len(old.Frames)
	if kept > in.n.keep {
		kept = in.n.keep
	}
	r.Frames = old.Frames[:len(old.Frames)-kept] + r.Frames
	r.Cut = old.Cut
	r.At = old.At
	r.Below = old.Below
	r.Elems += old.Elems
	if r.Elems > 6 {
		r.Elems = 6
		r.Many = true
	}
	r.Many = r.Many || old.Many
	return &Content{K: CRun, Run: &r}
}

func (in *instancer) val(v Val, prev Val) Val {
	switch v := v.(type) {
	case nil:
		return nil
	case VInt:
		r := in.intOf(v.S)
		r.K += v.K
		return r
	case VBool:
		if v.Known {
			return v
		}
		return VBool{S: in.sym(v.S)}
	case VNil:
		return v
	case VRef:
		return VRef{S: in.sym(v.S)}
	case VPtr:
		return VPtr{O: in.obj(v.O), P: v.P}
	case VStr:
		l := in.intOf(v.Len.S)
		l.K += v.Len.K
		return VStr{S: in.sym(v.S), Len: l, C: in.content(v.C)}
	case VSlice:
		l := in.intOf(v.Len.S)
		l.K += v.Len.K
		r := VSlice{S: in.sym(v.S), Len: l, C: in.content(v.C)}
		if v.Base != 0 {
			r.Base = in.obj(v.Base)
		}
		// what was there before the call is still there if the function only appended to it
		if p, ok := prev.(VSlice); ok && v.C != nil && v.C.K == CRun && v.C.Run.Cut != 0 && int(v.C.Run.Cut) <= len(in.n.cutsAt) && p.C != nil && p.C.K == CRun && in.n.cutsAt[v.C.Run.Cut-1] == p.C.Run {
			r.Hist = append(append([]Checkpoint(nil), p.Hist...), Checkpoint{p.Len, p.C})
		}
		for _, h := range v.Hist {
			hl := in.intOf(h.Len.S)
			hl.K += h.Len.K
			r.Hist = append(r.Hist, Checkpoint{hl, in.content(h.C)})
		}
		return r
	case VAgg:
		r := VAgg{T: v.T, Zero: v.Zero, Tag: v.Tag, Cells: map[string]Val{}}
		for k, c := range v.Cells {
			r.Cells[k] = in.val(c, nil)
		}
		return r
	case VTuple:
		r := VTuple{}
		for _, c := range v.E {
			r.E = append(r.E, in.val(c, nil))
		}
		return r
	case VFunc:
		r := VFunc{Fn: v.Fn}
		for _, c := range v.B {
			r.B = append(r.B, in.val(c, nil))
		}
		return r
	case VIface:
		return VIface{T: v.T, V: in.val(v.V, nil)}
	}
	panic(fmt.Sprintf("instantiate %T", v))
}

// ---- globals ----

type globalInfo struct {
	init  Val // content of the only value it ever has
	fixed bool
	c     *Content
	kind  types.Type
}

// globalOf evaluates the initial value of globals that never change.
func (e *Engine) globalOf(g *ssa.Global) *globalInfo {
	if gi, ok := e.globals[g]; ok {
		return gi
	}
	gi := &globalInfo{kind: g.Type().(*types.Pointer).Elem()}
	e.globals[g] = gi
	if g.Pkg == nil {
		return gi
	}
	stores := 0
	other := false
	var stored ssa.Value
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op != g {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							stores++
							stored = x.Val
							if f.Name() != "init" {
								other = true
							}
							continue
						}
						other = true
					case *ssa.UnOp:
					case *ssa.IndexAddr, *ssa.FieldAddr:
						// element of an array or field of a struct: fixed only if nothing is stored through it
						for _, r := range *x.(ssa.Value).Referrers() {
							if _, ok := r.(*ssa.UnOp); !ok {
								other = true
							}
						}
					default:
						other = true
					}
				}
			}
		}
		for _, an := range f.AnonFuncs {
			scan(an)
		}
	}
	for _, m := range g.Pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			scan(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := e.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					scan(e.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	if other || stores != 1 {
		return gi
	}
	gi.fixed = true
	gi.c = constContent(stored)
	return gi
}

func constContent(v ssa.Value) *Content {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return Const(constant.StringVal(v.Value))
		}
	case *ssa.Convert:
		return constContent(v.X)
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
			arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || arr.Len() > 256 {
				return nil
			}
			buf := make([]byte, arr.Len())
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				for _, rr := range *ia.Referrers() {
					s, ok := rr.(*ssa.Store)
					if !ok {
						return nil
					}
					sc, ok := s.Val.(*ssa.Const)
					if !ok || sc.Value == nil || sc.Value.Kind() != constant.Int {
						return nil
					}
					buf[c.Int64()] = byte(sc.Int64())
				}
			}
			return Const(string(buf))
		}
	}
	return nil
}

// Stats describes what was analysed.
func (e *Engine) Stats() (funcs, summaries, states int) {
	funcs = len(e.Reached)
	summaries = len(e.order)
	for _, s := range e.order {
		for _, m := range s.blocks {
			states += len(m)
		}
		states += len(s.exits)
	}
	return
}

// Functions returns the names of the analysed functions.
func (e *Engine) Functions() []string {
	var out []string
	for f := range e.Reached {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return out
}

// Violations returns what was reported in a fixed order.
func (e *Engine) Violations() []*Violation {
	var out []*Violation
	for _, k := range sortedKeys(e.Viol) {
		out = append(out, e.Viol[k])
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos < out[j].Pos })
	return out
}

func sortNamed(nvs []namedVal, lv *liveness) {
	sort.Slice(nvs, func(i, j int) bool { return lv.order[nvs[i].key] < lv.order[nvs[j].key] })
}

var _ = strings.TrimSpace
