package main

// Abstract interpretation of SSA into value-graph terms. Control-flow joins
// become gated choices, loops become closed-form summaries (map, filter, sum,
// quantified facts), callees inside the library are evaluated in place, and
// everything else is an uninterpreted operation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	env   map[ssa.Value]*Term
	orig  map[ssa.Value]*Term // slice register -> address it was loaded from
	mem   map[int]*Term
	facts *Facts
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)+8), orig: make(map[ssa.Value]*Term, len(s.orig)), mem: make(map[int]*Term, len(s.mem)+2), facts: s.facts.clone()}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.orig {
		n.orig[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	cond     *Term // literal that the branch established, nil if unconditional
	flag     bool  // the loop is left at the next test of its flag
}

type ret struct {
	st   *State
	vals []*Term
}

// Result of evaluating one function on symbolic arguments.
type Result struct {
	Rets     []Ret
	Panics   []Panic
	Problems []string
	Asserts  []Obl
}

type Ret struct {
	Facts *Facts
	Vals  []*Term
	Mem   map[int]*Term
	Pos   token.Pos
}

type Panic struct {
	Facts *Facts
	Pos   token.Pos
	Fn    *ssa.Function
	Depth int
	Val   *Term
	Kind  string
}

type Obl struct {
	Kind  string // assert, index
	Fn    *ssa.Function
	Pos   token.Pos
	Term  *Term
	Facts *Facts
	Depth int
}

type Config struct {
	// Opaque: keep calls of this function as uninterpreted operations.
	Opaque func(fn *ssa.Function, args []*Term, depth int) bool
	// Contract may supply the result of a call; ok=false falls through.
	Contract func(fr *frame, st *State, fn *ssa.Function, name string, args []*Term) (res []*Term, ok bool)
	// Hook decides conditions the engine leaves open.
	Hook     func(c *Term, f *Facts) tri
	MaxDepth int
	Budget   int
	MaxRec   int // nested activations of one function
	// Init prepares the memory a run starts with; Globals names what package
	// variables stand for in it.
	Init    func(st *State)
	Globals map[string]*Term
	// Stamp: calls that differ from each other although their operands agree.
	Stamp map[string]bool
	// KeepPanics records facts at panics.
	KeepPanics bool
	KeepObl    bool
	// Event is told of every call kept as an operation.
	Event func(fn *ssa.Function, name string, args []*Term, sig *types.Signature, f *Facts)
}

type Engine struct {
	P      *Program
	T      *Terms
	D      *Decider
	cfg    *Config
	nobj   int
	funcs  []*ssa.Function // function values, by number
	otyp   map[int]types.Type
	nat    int
	steps  int
	probs  []string
	writes []map[int]bool
	stack  []*ssa.Function
	panics []Panic
	obls   []Obl
	loops  map[*ssa.Function]*loopForest
	ctx    []*Term // call sites and loop rounds being evaluated
	uni    map[string][]types.Type
}

func NewEngine(p *Program) *Engine {
	e := &Engine{P: p, T: NewTerms(), otyp: map[int]types.Type{}, loops: map[*ssa.Function]*loopForest{}, uni: map[string][]types.Type{}}
	e.D = &Decider{T: e.T, U: e}
	return e
}

// Implementers lists the concrete kinds behind a library interface.
func (e *Engine) Implementers(it types.Type) []types.Type {
	key := typeKey(it)
	if l, ok := e.uni[key]; ok {
		return l
	}
	var out []types.Type
	if n, ok := it.(*types.Named); ok && n.Obj().Pkg() == e.P.Sym.Pkg && n.Obj().Name() != "Environment" {
		u := it.Underlying().(*types.Interface)
		sc := e.P.Sym.Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), u) {
				out = append(out, tn.Type())
			}
		}
	}
	e.uni[key] = out
	return out
}

type frame struct {
	e      *Engine
	fn     *ssa.Function
	lf     *loopForest
	rets   []ret
	depth  int
	curK   map[*ssa.BasicBlock]*Term // loop header -> iteration counter
	tail   bool                      // the call being evaluated is followed by a return
	splits []ret                     // its returns, kept apart
}

type budgetErr struct{ why string }

func (e *Engine) problem(fr *frame, pos token.Pos, format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if fr != nil {
		s = shortName(fr.fn) + " " + e.P.Pos(pos) + ": " + s
	}
	for _, p := range e.probs {
		if p == s {
			return
		}
	}
	e.probs = append(e.probs, s)
}

// Run evaluates fn on the given arguments under the assumptions.
func (e *Engine) Run(fn *ssa.Function, args []*Term, cfg *Config, assume []*Term) (res *Result) {
	e.cfg = cfg
	e.D.hook = cfg.Hook
	e.D.depth = 0
	e.steps = 0
	e.probs = nil
	e.panics = nil
	e.obls = nil
	e.stack = nil
	e.writes = nil
	e.ctx = nil
	res = &Result{}
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetErr); ok {
				res = &Result{Problems: []string{b.why}}
				return
			}
			panic(r)
		}
	}()
	st := &State{env: map[ssa.Value]*Term{}, orig: map[ssa.Value]*Term{}, mem: map[int]*Term{}, facts: NewFacts()}
	for _, a := range assume {
		e.D.Assume(a, true, st.facts)
	}
	if cfg.Init != nil {
		cfg.Init(st)
	}
	fr, _ := e.enter(fn, args, st)
	for _, r := range fr.rets {
		var vs []*Term
		for _, v := range r.vals {
			vs = append(vs, e.D.Resolve(e.freeze(v, r.st), r.st.facts))
		}
		res.Rets = append(res.Rets, Ret{Facts: r.st.facts, Vals: vs, Mem: r.st.mem})
	}
	res.Problems = e.probs
	res.Panics = e.panics
	res.Asserts = e.obls
	return res
}

func (e *Engine) enter(fn *ssa.Function, args []*Term, st *State) (*frame, *State) {
	fr := &frame{e: e, fn: fn, lf: e.forest(fn), depth: len(e.stack), curK: map[*ssa.BasicBlock]*Term{}}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	ns := &State{env: map[ssa.Value]*Term{}, orig: map[ssa.Value]*Term{}, mem: st.mem, facts: st.facts}
	ns = ns.clone()
	for i, p := range fn.Params {
		if i < len(args) {
			ns.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if n := len(fn.Params) + i; n < len(args) {
			ns.env[p] = args[n]
		}
	}
	fr.region(fr.lf.rpo, nil, ns)
	return fr, ns
}

// call evaluates a callee in place and joins its returns.
func (e *Engine) inline(fn *ssa.Function, args []*Term, st *State) ([]*Term, *State) {
	fr, _ := e.enter(fn, args, st)
	if len(fr.rets) == 0 {
		return nil, nil
	}
	var sts []*State
	for _, r := range fr.rets {
		r.st.env, r.st.orig = map[ssa.Value]*Term{}, map[ssa.Value]*Term{}
		sts = append(sts, r.st)
	}
	out, gs := e.join(sts)
	var res []*Term
	for i := range fr.rets[0].vals {
		var vs []*Term
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		res = append(res, e.mergeVals(gs, vs, sts, out, fn.Signature.Results().At(i).Type()))
	}
	out.env, out.orig = st.env, st.orig
	// fresh maps: the caller continues to extend its own environment
	o := &State{env: map[ssa.Value]*Term{}, orig: map[ssa.Value]*Term{}, mem: out.mem, facts: out.facts}
	for k, v := range st.env {
		o.env[k] = v
	}
	for k, v := range st.orig {
		o.orig[k] = v
	}
	return res, o
}

// split keeps the returns of a callee apart.
func (e *Engine) split(fr *frame, fn *ssa.Function, args []*Term, st *State) {
	fc, _ := e.enter(fn, args, st)
	fr.splits = []ret{}
	for _, r := range fc.rets {
		o := &State{env: map[ssa.Value]*Term{}, orig: map[ssa.Value]*Term{}, mem: r.st.mem, facts: r.st.facts}
		for k, v := range st.env {
			o.env[k] = v
		}
		for k, v := range st.orig {
			o.orig[k] = v
		}
		fr.splits = append(fr.splits, ret{st: o, vals: r.vals})
	}
}

// ---- joins --------------------------------------------------------------

func (e *Engine) join(sts []*State) (*State, []*Term) {
	T := e.T
	if len(sts) == 1 {
		return sts[0], []*Term{T.Bool(true)}
	}
	f0 := sts[0].facts
	out := &State{env: map[ssa.Value]*Term{}, orig: map[ssa.Value]*Term{}, mem: map[int]*Term{}, facts: NewFacts()}
	common := map[*Term]bool{}
	for _, k := range f0.order {
		v := f0.m[k]
		all := true
		for _, s := range sts[1:] {
			if w, ok := s.facts.m[k]; !ok || w != v {
				all = false
				break
			}
		}
		if all {
			common[k] = true
			out.facts.m[k] = v
			out.facts.order = append(out.facts.order, k)
			imp := true
			for _, s := range sts {
				if !s.facts.imp[k] {
					imp = false
				}
			}
			if imp {
				out.facts.imp[k] = true
			}
		}
	}
	var gs []*Term
	tot := 0
	for _, s := range sts {
		var l []*Term
		for _, k := range s.facts.order {
			if common[k] || s.facts.imp[k] {
				continue
			}
			if s.facts.m[k] {
				l = append(l, k)
			} else {
				l = append(l, T.Not(k))
			}
		}
		tot += len(l)
		gs = append(gs, T.And(l))
	}
	if len(sts) <= 8 && tot <= 40 {
		or := gs[0]
		for _, g := range gs[1:] {
			or = T.orGuard(or, g)
		}
		if _, ok := or.isBool(); !ok {
			e.D.Assume(or, true, out.facts)
			out.facts.bad = false
		}
	}
	// registers
	for k, v := range sts[0].env {
		vs := []*Term{v}
		same, ok := true, true
		for _, s := range sts[1:] {
			w, has := s.env[k]
			if !has {
				ok = false
				break
			}
			if w != v {
				same = false
			}
			vs = append(vs, w)
		}
		if !ok {
			continue
		}
		if same {
			out.env[k] = v
			if o, ok := sts[0].orig[k]; ok {
				keep := true
				for _, s := range sts[1:] {
					if s.orig[k] != o {
						keep = false
					}
				}
				if keep {
					out.orig[k] = o
				}
			}
		} else {
			out.env[k] = e.mergeVals(gs, vs, sts, out, k.Type())
		}
	}
	// memory
	ids := map[int]bool{}
	for _, s := range sts {
		for o := range s.mem {
			ids[o] = true
		}
	}
	var ord []int
	for o := range ids {
		ord = append(ord, o)
	}
	sort.Ints(ord)
	for _, o := range ord {
		var g2, v2 []*Term
		var s2 []*State
		same := true
		for i, s := range sts {
			if v, ok := s.mem[o]; ok {
				if len(v2) > 0 && v2[0] != v {
					same = false
				}
				g2 = append(g2, gs[i])
				v2 = append(v2, v)
				s2 = append(s2, s)
			}
		}
		if same {
			out.mem[o] = v2[0]
			continue
		}
		out.mem[o] = e.mergeVals(g2, v2, s2, out, e.otyp[o])
	}
	return out, gs
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (e *Engine) mergeVals(gs, vs []*Term, sts []*State, out *State, typ types.Type) *Term {
	T := e.T
	same := true
	for _, v := range vs[1:] {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		// the same reference may denote different contents; memory is merged separately
		return vs[0]
	}
	if vs[0].op == "struct" {
		all := true
		for _, v := range vs {
			if v.op != "struct" || len(v.args) != len(vs[0].args) || !types.Identical(v.typ, vs[0].typ) {
				all = false
			}
		}
		if all {
			st, _ := vs[0].typ.Underlying().(*types.Struct)
			var fs []*Term
			for i := range vs[0].args {
				var fv []*Term
				for _, v := range vs {
					fv = append(fv, v.args[i])
				}
				var ft types.Type
				if st != nil {
					ft = st.Field(i).Type()
				}
				fs = append(fs, e.mergeVals(gs, fv, sts, out, ft))
			}
			return T.Struct(vs[0].typ, fs)
		}
	}
	refs := false
	for _, v := range vs {
		if v.op == "slice" {
			refs = true
		}
	}
	var fz []*Term
	for i, v := range vs {
		fz = append(fz, e.freeze(v, sts[i]))
	}
	c := T.Choice(gs, fz)
	if refs && isSliceType(typ) {
		o := e.newObj(typ, out, c)
		return T.mk(Term{op: "slice", n: o})
	}
	return c
}

func (e *Engine) newObj(typ types.Type, st *State, content *Term) int {
	e.nobj++
	e.otyp[e.nobj] = typ
	st.mem[e.nobj] = content
	return e.nobj
}

// freeze replaces references by the contents they currently denote.
func (e *Engine) freeze(t *Term, st *State) *Term {
	if !t.ref {
		return t
	}
	T := e.T
	memo := map[*Term]*Term{}
	busy := map[int]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !t.ref {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.op {
		case "slice":
			c, ok := st.mem[t.n]
			if !ok || busy[t.n] {
				return T.Opaque("dangling")
			}
			busy[t.n] = true
			r = rec(c)
			busy[t.n] = false
		case "ptr":
			c, ok := st.mem[t.n]
			if !ok || busy[t.n] {
				return T.Opaque("dangling")
			}
			busy[t.n] = true
			v := e.read(rec(c), t.args)
			busy[t.n] = false
			r = T.mk(Term{op: "ref", args: []*Term{v}})
		case "closure":
			r = t
		default:
			r = T.rebuild(t, func(i int, a *Term) *Term { return rec(a) })
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---- memory -------------------------------------------------------------

func (e *Engine) read(c *Term, steps []*Term) *Term {
	for _, s := range steps {
		switch s.op {
		case "fs":
			c = e.T.Field(c, s.n, s.typ)
		case "ix":
			c = e.T.Elem(c, s.args[0], s.typ)
		}
	}
	return c
}

func (e *Engine) write(c *Term, steps []*Term, v *Term) *Term {
	T := e.T
	if len(steps) == 0 {
		return v
	}
	s := steps[0]
	switch s.op {
	case "fs":
		st := s.typ.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			f := T.Field(c, i, s.typ)
			if i == s.n {
				f = e.write(f, steps[1:], v)
			}
			fs = append(fs, f)
		}
		return T.Struct(s.typ, fs)
	case "ix":
		old := c
		if len(steps) > 1 {
			v = e.write(T.Elem(old, s.args[0], s.typ), steps[1:], v)
		}
		return T.Set(c, s.args[0], v)
	}
	return T.Opaque("write")
}

func (e *Engine) load(fr *frame, st *State, addr *Term, typ types.Type, pos token.Pos) *Term {
	T := e.T
	switch addr.op {
	case "ptr", "own":
		c, ok := st.mem[addr.n]
		if !ok {
			return T.Opaque("dangling")
		}
		v := e.read(c, addr.args)
		return v
	case "vptr":
		return e.read(addr.args[0], addr.args[1:])
	case "gaddr":
		return T.mk(Term{op: "sym", name: "global:" + addr.name, typ: typ})
	case "ref":
		return addr.args[0]
	case "choice":
		return T.mapChoice(addr, func(a *Term) *Term { return e.load(fr, st, a, typ, pos) })
	}
	return T.Deref(addr, typ)
}

func (e *Engine) store(fr *frame, st *State, addr, v *Term, pos token.Pos) {
	switch addr.op {
	case "ptr", "own":
		c, ok := st.mem[addr.n]
		if !ok {
			e.problem(fr, pos, "store to an unknown object")
			return
		}
		st.mem[addr.n] = e.write(c, addr.args, v)
		e.logWrite(addr.n)
		return
	}
	e.problem(fr, pos, "store through memory the function does not own (%s)", addr)
}

func (e *Engine) logWrite(o int) {
	for _, w := range e.writes {
		w[o] = true
	}
}

// list gives the current list value of a slice register.
func (e *Engine) list(st *State, v *Term) *Term {
	T := e.T
	switch v.op {
	case "slice":
		if c, ok := st.mem[v.n]; ok {
			return e.list(st, c)
		}
	case "choice":
		return T.mapChoice(v, func(a *Term) *Term { return e.list(st, a) })
	}
	return v
}

// ---- blocks -------------------------------------------------------------

func (fr *frame) region(blocks []*ssa.BasicBlock, L *loopInfo, st0 *State) (backs, exits []*edge) {
	in := map[*ssa.BasicBlock][]*edge{}
	route := func(es []*edge) {
		for _, ed := range es {
			switch {
			case L != nil && ed.to == L.header:
				backs = append(backs, ed)
			case L != nil && !L.blocks[ed.to]:
				exits = append(exits, ed)
			default:
				in[ed.to] = append(in[ed.to], ed)
			}
		}
	}
	for bi, b := range blocks {
		child := fr.lf.child(L, b)
		if child != nil {
			if b == child.header && len(in[b]) > 0 {
				route(fr.evalLoop(child, in[b]))
			} else if b == child.header && bi == 0 && L == nil {
				// entry block that is itself a loop header cannot happen in Go SSA
				fr.e.problem(fr, fr.fn.Pos(), "entry block is a loop header")
			}
			continue
		}
		var st *State
		if bi == 0 {
			st = st0
		} else {
			if len(in[b]) == 0 {
				continue
			}
			if n := len(in[b]); n > 1 && n <= 8 && L == nil && returns(b) {
				for _, ed := range in[b] {
					if st := fr.joinEdges(b, []*edge{ed}); st != nil && !st.facts.bad {
						route(fr.block(b, st))
					}
				}
				continue
			}
			st = fr.joinEdges(b, in[b])
		}
		if st == nil || st.facts.bad {
			continue
		}
		route(fr.block(b, st))
	}
	return
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (fr *frame) joinEdges(b *ssa.BasicBlock, es []*edge) *State {
	e := fr.e
	var sts []*State
	for _, ed := range es {
		sts = append(sts, ed.st)
	}
	// phi inputs are evaluated in the predecessor states
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	vals := make([][]*Term, len(phis))
	for i, p := range phis {
		for _, ed := range es {
			vals[i] = append(vals[i], fr.val(ed.st, p.Edges[predIndex(b, ed.from)]))
		}
	}
	var out *State
	var gs []*Term
	if len(sts) == 1 {
		out, gs = sts[0].clone(), []*Term{e.T.Bool(true)}
	} else {
		out, gs = e.join(sts)
	}
	for i, p := range phis {
		out.env[p] = e.mergeVals(gs, vals[i], sts, out, p.Type())
	}
	return out
}

func (fr *frame) val(st *State, v ssa.Value) *Term {
	T := fr.e.T
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return T.Zero(v.Type())
		}
		return T.Const(v.Value, v.Type())
	case *ssa.Global:
		if t := fr.e.cfg.Globals[v.Name()]; t != nil {
			return t
		}
		return T.mk(Term{op: "gaddr", name: v.Name()})
	case *ssa.Function:
		return T.mk(Term{op: "closure", n: fr.e.funcID(v)})
	case *ssa.Builtin:
		return T.mk(Term{op: "func", name: v.Name()})
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	t := T.Opaque("undef:" + v.Name())
	return t
}

func (fr *frame) assume(st *State, c *Term, truth bool, implied bool) bool {
	before := len(st.facts.order)
	ok := fr.e.D.Assume(c, truth, st.facts)
	if implied {
		for _, k := range st.facts.order[before:] {
			st.facts.imp[k] = true
		}
	}
	return ok
}

func (fr *frame) kill(st *State, kind string, pos token.Pos, v *Term) {
	e := fr.e
	if e.cfg.KeepPanics {
		e.panics = append(e.panics, Panic{Facts: st.facts, Pos: pos, Fn: fr.fn, Depth: fr.depth, Val: v, Kind: kind})
	}
}

// returns: the block ends the function.
func returns(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}

func (fr *frame) block(b *ssa.BasicBlock, st *State) []*edge { return fr.blockFrom(b, 0, st) }

func (fr *frame) blockFrom(b *ssa.BasicBlock, from int, st *State) []*edge {
	e, T := fr.e, fr.e.T
	tail := returns(b)
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Jump); ok {
		tail = returns(b.Succs[0])
	}
	var outs []*edge
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		e.steps++
		if e.cfg.Budget > 0 && e.steps > e.cfg.Budget {
			panic(budgetErr{"evaluation budget exceeded in " + shortName(fr.fn)})
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []*edge{{from: b, to: b.Succs[0], st: st}}
		case *ssa.If:
			c := e.D.Resolve(fr.val(st, in.Cond), st.facts)
			switch e.D.Decide(c, st.facts) {
			case yes:
				return []*edge{{from: b, to: b.Succs[0], st: st}}
			case no:
				return []*edge{{from: b, to: b.Succs[1], st: st}}
			}
			var out []*edge
			s2 := st.clone()
			if fr.assume(st, c, true, false) {
				out = append(out, &edge{from: b, to: b.Succs[0], st: st, cond: c})
			}
			if fr.assume(s2, c, false, false) {
				out = append(out, &edge{from: b, to: b.Succs[1], st: s2, cond: T.Not(c)})
			}
			return out
		case *ssa.Return:
			r := ret{st: st}
			for _, x := range in.Results {
				r.vals = append(r.vals, e.D.Resolve(fr.val(st, x), st.facts))
			}
			fr.rets = append(fr.rets, r)
			return nil
		case *ssa.Panic:
			fr.kill(st, "panic", in.Pos(), e.freeze(fr.val(st, in.X), st))
			return nil
		default:
			call, isCall := in.(*ssa.Call)
			fr.tail, fr.splits = isCall && tail, nil
			st = fr.instr(in, st)
			fr.tail = false
			if sp := fr.splits; sp != nil {
				// the callee's returns lead to returns of their own
				fr.splits = nil
				for _, r := range sp {
					switch len(r.vals) {
					case 0:
					case 1:
						r.st.env[call] = r.vals[0]
					default:
						r.st.env[call] = T.mk(Term{op: "tuple", args: r.vals})
					}
					if !r.st.facts.bad {
						outs = append(outs, fr.blockFrom(b, i+1, r.st)...)
					}
				}
				return outs
			}
			if st == nil || st.facts.bad {
				return nil
			}
		}
	}
	return nil
}

func (fr *frame) instr(in ssa.Instruction, st *State) *State {
	e, T := fr.e, fr.e.T
	v, _ := in.(ssa.Value)
	set := func(t *Term) { st.env[v] = t }
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		o := e.newObj(et, st, fr.zero(et))
		set(T.mk(Term{op: "ptr", n: o}))
	case *ssa.FieldAddr:
		x := fr.val(st, in.X)
		stp := in.X.Type().Underlying().(*types.Pointer).Elem()
		fs := T.mk(Term{op: "fs", n: in.Field, typ: stp})
		set(fr.addr(x, fs))
	case *ssa.IndexAddr:
		return fr.indexAddr(in, st)
	case *ssa.Index:
		x := fr.val(st, in.X)
		set(T.Elem(e.list(st, x), fr.val(st, in.Index), in.Type()))
	case *ssa.Field:
		set(T.Field(fr.val(st, in.X), in.Field, in.X.Type()))
	case *ssa.UnOp:
		x := fr.val(st, in.X)
		switch in.Op {
		case token.MUL:
			t := e.load(fr, st, x, in.Type(), in.Pos())
			set(t)
			delete(st.orig, v)
			if x.op == "ptr" && t.op != "slice" && isSliceType(in.Type()) {
				st.orig[v] = x
			}
		case token.NOT:
			set(T.Not(x))
		case token.SUB:
			if isIntegral(in.Type()) {
				set(T.Scale(x, -1))
			} else {
				set(T.Bin("*", T.Float(-1), x, in.Type()))
			}
		default:
			set(T.Opaque("unop"))
		}
	case *ssa.BinOp:
		set(fr.binop(in, fr.val(st, in.X), fr.val(st, in.Y)))
	case *ssa.Store:
		x := fr.val(st, in.Val)
		a := fr.val(st, in.Addr)
		if e.cfg.Contract == nil || true {
			e.store(fr, st, a, x, in.Pos())
		}
	case *ssa.MakeInterface:
		set(T.Iface(fr.val(st, in.X), in.X.Type()))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		op := in.Operands(nil)[0]
		set(fr.val(st, *op))
		if o, ok := st.orig[*op]; ok {
			st.orig[v] = o
		}
	case *ssa.Convert:
		set(fr.convert(fr.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.TypeAssert:
		x := e.D.Resolve(fr.val(st, in.X), st.facts)
		ok := T.TypeIs(x, in.AssertedType)
		if in.CommaOk {
			d := e.D.Decide(ok, st.facts)
			val := T.Assert(x, in.AssertedType)
			switch d {
			case yes:
				ok = T.Bool(true)
			case no:
				ok = T.Bool(false)
				val = fr.zero(in.AssertedType)
			}
			set(T.mk(Term{op: "tuple", args: []*Term{val, ok}}))
			return st
		}
		d := e.D.Decide(ok, st.facts)
		if e.cfg.KeepObl && d != yes {
			e.obls = append(e.obls, Obl{"assert", fr.fn, in.Pos(), ok, st.facts.clone(), fr.depth})
		}
		if d == no {
			fr.kill(st, "failed assertion", in.Pos(), ok)
			return nil
		}
		if !fr.assume(st, ok, true, true) {
			return nil
		}
		set(T.Assert(e.D.Resolve(x, st.facts), in.AssertedType))
	case *ssa.Extract:
		t := fr.val(st, in.Tuple)
		if t.op == "tuple" && in.Index < len(t.args) {
			set(t.args[in.Index])
		} else {
			set(T.mk(Term{op: "res", n: in.Index, args: []*Term{t}, typ: in.Type()}))
		}
	case *ssa.Slice:
		return fr.slice(in, st)
	case *ssa.MakeSlice:
		n := fr.val(st, in.Len)
		et := in.Type().Underlying().(*types.Slice).Elem()
		var c *Term
		if k, ok := n.isInt(); ok && k <= 16 && k >= 0 {
			var xs []*Term
			for i := int64(0); i < k; i++ {
				xs = append(xs, fr.zero(et))
			}
			c = T.Lit(xs)
		} else {
			c = T.mk(Term{op: "zeros", args: []*Term{n}, typ: et})
		}
		fr.assume(st, T.Lt(n, T.Int(0)), false, true)
		o := e.newObj(in.Type(), st, c)
		set(T.mk(Term{op: "slice", n: o}))
	case *ssa.MakeMap:
		o := e.newObj(in.Type(), st, T.mk(Term{op: "emptymap"}))
		set(T.mk(Term{op: "slice", n: o}))
	case *ssa.MapUpdate:
		m := fr.val(st, in.Map)
		if m.op == "slice" {
			st.mem[m.n] = T.mk(Term{op: "mapset", args: []*Term{st.mem[m.n], fr.val(st, in.Key), fr.val(st, in.Value)}})
			e.logWrite(m.n)
		} else {
			e.problem(fr, in.Pos(), "update of a map the function does not own")
		}
	case *ssa.Lookup:
		m := e.freeze(e.list(st, fr.val(st, in.X)), st)
		k := e.freeze(fr.val(st, in.Index), st)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			set(T.mk(Term{op: "strix", args: []*Term{m, k}, typ: in.Type()}))
			return st
		}
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		get := T.mk(Term{op: "mapget", args: []*Term{m, k}, typ: vt})
		ok := T.mk(Term{op: "mapok", args: []*Term{m, k}})
		if k.op == "mapkey" && k.args[0] == m {
			ok = T.Bool(true)
			get = T.mk(Term{op: "mapval", args: []*Term{m, k.args[1]}, typ: vt})
		} else if o, g := fr.lookup(m, k, vt); o != nil {
			ok, get = o, g
		}
		if in.CommaOk {
			set(T.mk(Term{op: "tuple", args: []*Term{get, ok}}))
		} else {
			set(get)
		}
	case *ssa.Range:
		set(T.mk(Term{op: "iter", args: []*Term{e.list(st, fr.val(st, in.X))}}))
	case *ssa.Next:
		it := fr.val(st, in.Iter)
		k := fr.curK[in.Block()]
		if in.IsString || it.op != "iter" || k == nil {
			set(T.Opaque("next"))
			return st
		}
		m := it.args[0]
		kt, vt := in.Type().(*types.Tuple).At(1).Type(), in.Type().(*types.Tuple).At(2).Type()
		set(T.mk(Term{op: "tuple", args: []*Term{
			T.Lt(k, T.Len(m)),
			T.mk(Term{op: "mapkey", args: []*Term{m, k}, typ: kt}),
			T.mk(Term{op: "mapval", args: []*Term{m, k}, typ: vt})}}))
	case *ssa.Call:
		return fr.call(in, st)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, fr.val(st, b))
		}
		set(T.mk(Term{op: "closure", n: e.funcID(in.Fn.(*ssa.Function)), args: bs}))
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
		e.problem(fr, in.Pos(), "unsupported statement %T", in)
	case *ssa.RunDefers:
	default:
		if v != nil {
			set(T.Opaque("instr"))
		}
		e.problem(fr, in.Pos(), "unsupported instruction %T", in)
	}
	return st
}

// lookup reads a map that was filled entry by entry: k is present if some round
// stored it, with the value of the last such round.
func (fr *frame) lookup(m, k *Term, vt types.Type) (ok, get *Term) {
	e, T := fr.e, fr.e.T
	eq := func(a, b *Term) *Term {
		if a.typ != nil && isIntegral(a.typ) || b.typ != nil && isIntegral(b.typ) || isIntTerm(a) || isIntTerm(b) {
			return T.EqInt(a, b)
		}
		return T.Eq(a, b)
	}
	switch m.op {
	case "emptymap":
		return T.Bool(false), fr.zero(vt)
	case "mapset":
		o, g := fr.lookup(m.args[0], k, vt)
		if o == nil {
			return nil, nil
		}
		c := eq(m.args[1], k)
		return T.Or(c, o), T.Choice([]*Term{c, T.Not(c)}, []*Term{m.args[2], g})
	case "fold":
		if len(m.args) != 3 {
			return nil, nil
		}
		o, g := fr.lookup(m.args[1], k, vt)
		if o == nil {
			return nil, nil
		}
		j := e.newIdx()
		acc := e.newIdx()
		gs, vs := T.alts(T.open(m.args[2], j, acc))
		cond := T.Bool(false)
		var hg, hv []*Term
		for i, v := range vs {
			if v == acc {
				continue
			}
			if v.op != "mapset" || v.args[0] != acc || v.args[1].free[acc] || v.args[2].free[acc] || gs[i].free[acc] {
				return nil, nil
			}
			c := T.And([]*Term{gs[i], eq(v.args[1], k)})
			cond = T.Or(cond, c)
			hg, hv = append(hg, c), append(hv, v.args[2])
		}
		if len(hv) == 0 {
			return o, g
		}
		ex := T.Exists(m.args[0], j, cond)
		last := T.mk(Term{op: "last", args: []*Term{m.args[0], T.close(cond, []*Term{j})}, typ: types.Typ[types.Int]})
		val := hv[0]
		if len(hv) > 1 {
			val = T.Choice(hg, hv)
		}
		return T.Or(ex, o), T.Choice([]*Term{ex, T.Not(ex)}, []*Term{T.Subst(val, j, last), g})
	}
	return nil, nil
}

func isIntTerm(t *Term) bool {
	if _, ok := t.isInt(); ok {
		return true
	}
	return t.op == "lin" || t.op == "idx" || t.op == "len"
}

func isGonum(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "gonum.org/v1/gonum/mat" && n.Obj().Name() == name
}

func (fr *frame) zero(t types.Type) *Term {
	if isGonum(t, "VecDense") || isGonum(t, "Dense") {
		return fr.e.T.Lit(nil)
	}
	return fr.e.T.Zero(t)
}

func (fr *frame) addr(x, step *Term) *Term {
	T := fr.e.T
	switch x.op {
	case "own":
		return T.mk(Term{op: "ptr", n: x.n, args: []*Term{step}})
	case "ptr", "vptr":
		n := *x
		n.args = append(append([]*Term{}, x.args...), step)
		return T.mk(Term{op: x.op, n: x.n, args: n.args})
	case "ref":
		return T.mk(Term{op: "vptr", args: []*Term{x.args[0], step}})
	case "choice":
		return T.mapChoice(x, func(a *Term) *Term { return fr.addr(a, step) })
	}
	return T.mk(Term{op: "vptr", args: []*Term{T.Deref(x, stepBase(step)), step}})
}

func stepBase(s *Term) types.Type {
	if s.op == "fs" {
		return s.typ
	}
	return nil
}

func (fr *frame) indexAddr(in *ssa.IndexAddr, st *State) *State {
	e, T := fr.e, fr.e.T
	x := e.D.Resolve(fr.val(st, in.X), st.facts)
	i := e.D.Resolve(fr.val(st, in.Index), st.facts)
	et := in.Type().Underlying().(*types.Pointer).Elem()
	ix := T.mk(Term{op: "ix", args: []*Term{i}, typ: et})
	var ln *Term
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			ln = T.Int(at.Len())
		}
		st.env[in] = fr.addr(x, ix)
	} else {
		l := e.list(st, x)
		ln = T.Len(l)
		switch {
		case x.op == "slice":
			st.env[in] = T.mk(Term{op: "ptr", n: x.n, args: []*Term{ix}})
		case st.orig[in.X] != nil:
			st.env[in] = fr.addr(st.orig[in.X], ix)
		default:
			st.env[in] = T.mk(Term{op: "vptr", args: []*Term{l, ix}})
		}
	}
	if ln != nil {
		lo, hi := T.Lt(i, T.Int(0)), T.Lt(i, ln)
		dl, dh := e.D.Decide(lo, st.facts), e.D.Decide(hi, st.facts)
		if e.cfg.KeepObl && (dl != no || dh != yes) {
			c := hi
			if dl != no {
				c = T.Not(lo)
			}
			e.obls = append(e.obls, Obl{"index", fr.fn, in.Pos(), c, st.facts.clone(), fr.depth})
		}
		if dl == yes || dh == no {
			fr.kill(st, "index out of range", in.Pos(), i)
			return nil
		}
		if dl == unknown && !fr.assume(st, lo, false, true) {
			return nil
		}
		if dh == unknown && !fr.assume(st, hi, true, true) {
			return nil
		}
	}
	return st
}

func (fr *frame) slice(in *ssa.Slice, st *State) *State {
	e, T := fr.e, fr.e.T
	x := fr.val(st, in.X)
	if in.Low == nil && in.High == nil {
		if x.op == "ptr" && len(x.args) == 0 {
			st.env[in] = T.mk(Term{op: "slice", n: x.n})
		} else {
			st.env[in] = x
			if o, ok := st.orig[in.X]; ok {
				st.orig[in] = o
			}
		}
		return st
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		st.env[in] = T.Opaque("substring")
		return st
	}
	if x.op == "ptr" && len(x.args) == 0 {
		x = T.mk(Term{op: "slice", n: x.n})
		if in.Low == nil && fr.val(st, in.High) == T.Len(e.list(st, x)) {
			st.env[in] = x
			return st
		}
	}
	l := e.freeze(e.list(st, x), st)
	lo, hi := T.Int(0), T.Len(l)
	if in.Low != nil {
		lo = fr.val(st, in.Low)
	}
	if in.High != nil {
		hi = fr.val(st, in.High)
	}
	if hi != T.Len(l) {
		// cap may exceed len; the library never relies on it
		fr.assume(st, T.Lt(T.Len(l), hi), false, true)
	}
	fr.assume(st, T.Lt(hi, lo), false, true)
	fr.assume(st, T.Lt(lo, T.Int(0)), false, true)
	st.env[in] = T.Sub(l, lo, hi)
	return st
}

// Sub is the sublist l[lo:hi].
func (T *Terms) Sub(l, lo, hi *Term) *Term {
	a, ok1 := lo.isInt()
	if ok1 && a == 0 && hi == T.Len(l) {
		return l
	}
	b, ok2 := hi.isInt()
	if l.op == "lit" && ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(l.args) {
		return T.Lit(append([]*Term{}, l.args[a:b]...))
	}
	if ok1 && ok2 && a == b {
		return T.Lit(nil)
	}
	return T.mk(Term{op: "sub", args: []*Term{l, lo, hi}})
}

func (fr *frame) binop(in *ssa.BinOp, x, y *Term) *Term {
	T := fr.e.T
	ot := in.X.Type()
	pair := func(f func(a, b *Term) *Term) *Term {
		if x.op == "choice" && y.op != "choice" {
			return T.mapChoice(x, func(a *Term) *Term { return f(a, y) })
		}
		if y.op == "choice" && x.op != "choice" {
			return T.mapChoice(y, func(a *Term) *Term { return f(x, a) })
		}
		return f(x, y)
	}
	isInt := isIntegral(ot)
	switch in.Op {
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
		if isInt {
			return pair(func(a, b *Term) *Term { return fr.intArith(in.Op, a, b) })
		}
		return T.Bin(in.Op.String(), x, y, ot)
	case token.EQL, token.NEQ:
		var r *Term
		if isInt {
			r = pair(T.EqInt)
		} else {
			r = pair(T.Eq)
		}
		if in.Op == token.NEQ {
			return T.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt {
			return pair(func(a, b *Term) *Term {
				switch in.Op {
				case token.LSS:
					return T.Lt(a, b)
				case token.GTR:
					return T.Lt(b, a)
				case token.LEQ:
					return T.Not(T.Lt(b, a))
				}
				return T.Not(T.Lt(a, b))
			})
		}
		return pair(func(a, b *Term) *Term {
			switch in.Op {
			case token.LSS:
				return T.Cmp("<", a, b)
			case token.GTR:
				return T.Cmp("<", b, a)
			case token.LEQ:
				return T.Cmp("<=", a, b)
			}
			return T.Cmp("<=", b, a)
		})
	}
	return T.mk(Term{op: "bin", name: in.Op.String(), args: []*Term{x, y}, typ: in.Type()})
}

// Cmp is an ordering of non-integers; <= is read as not > (no NaN).
func (T *Terms) Cmp(op string, a, b *Term) *Term {
	if a.op == "const" && b.op == "const" {
		t := token.LSS
		if op == "<=" {
			t = token.LEQ
		}
		if a.c.Kind() != constant.String || b.c.Kind() == constant.String {
			return T.Bool(constant.Compare(a.c, t, b.c))
		}
	}
	if op == "<=" {
		return T.Not(T.Cmp("<", b, a))
	}
	if a == b {
		return T.Bool(false)
	}
	return T.mk(Term{op: "cmp", name: "<", args: []*Term{a, b}})
}

func (fr *frame) intArith(op token.Token, a, b *Term) *Term {
	T := fr.e.T
	switch op {
	case token.ADD:
		return T.Add(a, b, 1)
	case token.SUB:
		return T.Add(a, b, -1)
	case token.MUL:
		return T.Mul(a, b)
	}
	ka, ok1 := a.isInt()
	kb, ok2 := b.isInt()
	if ok1 && ok2 && kb != 0 {
		if op == token.QUO {
			return T.Int(ka / kb)
		}
		return T.Int(ka % kb)
	}
	return T.mk(Term{op: "idiv", name: op.String(), args: []*Term{a, b}})
}

func (fr *frame) convert(x *Term, from, to types.Type) *Term {
	T := fr.e.T
	if isIntegral(from) && isFloat(to) {
		return T.ToFloat(x)
	}
	if narrower(from, to) {
		if _, ok := x.isInt(); !ok {
			return T.mk(Term{op: "conv", args: []*Term{x}, typ: to})
		}
	}
	if isIntegral(from) && isIntegral(to) || isFloat(from) && isFloat(to) {
		return x
	}
	if isSliceType(to) && isSliceType(from) {
		return x
	}
	return T.mk(Term{op: "conv", args: []*Term{x}, typ: to})
}

// narrower: the conversion may lose digits.
func narrower(from, to types.Type) bool {
	a, ok1 := from.Underlying().(*types.Basic)
	b, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || a.Info()&types.IsNumeric == 0 || b.Info()&types.IsNumeric == 0 {
		return false
	}
	sz := types.StdSizes{WordSize: 8, MaxAlign: 8}
	return sz.Sizeof(b) < sz.Sizeof(a) || isIntegral(from) && b.Kind() == types.Float32
}

func (T *Terms) ToFloat(x *Term) *Term {
	if v, ok := x.isInt(); ok {
		return T.mk(Term{op: "const", c: constant.ToFloat(constant.MakeInt64(v))})
	}
	if x.op == "choice" {
		return T.mapChoice(x, T.ToFloat)
	}
	return T.mk(Term{op: "tofloat", args: []*Term{x}, typ: types.Typ[types.Float64]})
}

// ---- calls --------------------------------------------------------------

func (fr *frame) call(in *ssa.Call, st *State) *State {
	e, T := fr.e, fr.e.T
	c := in.Common()
	if len(e.cfg.Stamp) > 0 {
		e.ctx = append(e.ctx, T.Int(int64(in.Pos())))
		defer func() { e.ctx = e.ctx[:len(e.ctx)-1] }()
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, fr.val(st, a))
	}
	finish := func(res []*Term, s *State) *State {
		if s == nil {
			return nil
		}
		switch len(res) {
		case 0:
		case 1:
			s.env[in] = res[0]
		default:
			s.env[in] = T.mk(Term{op: "tuple", args: res})
		}
		return s
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return finish(fr.builtin(in, b.Name(), args, st))
	}
	if c.IsInvoke() {
		recv := e.D.Resolve(fr.val(st, c.Value), st.facts)
		return finish(fr.invoke(in, recv, c.Method, args, st, 0))
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		return finish(fr.static(in, fn, args, st))
	}
	return finish(fr.dynamic(in, e.D.Resolve(fr.val(st, c.Value), st.facts), args, st, 0))
}

// dynamic: a call of a function value.
func (fr *frame) dynamic(in *ssa.Call, f *Term, args []*Term, st *State, depth int) ([]*Term, *State) {
	e := fr.e
	if f.op == "closure" {
		return fr.static(in, e.funcs[f.n], append(append([]*Term{}, args...), f.args...), st)
	}
	if f.op == "choice" && depth < 2 && len(f.args) <= 16 {
		fr.tail = false
		var sts []*State
		var outs [][]*Term
		for i := 0; i+1 < len(f.args); i += 2 {
			s := st.clone()
			if !fr.assume(s, f.args[i], true, false) {
				continue
			}
			r, s2 := fr.dynamic(in, e.D.Resolve(f.args[i+1], s.facts), args, s, depth+1)
			if s2 == nil {
				continue
			}
			sts = append(sts, s2)
			outs = append(outs, r)
		}
		return fr.joinCalls(sts, outs, in.Common().Signature())
	}
	e.problem(fr, in.Pos(), "call through a function value")
	var out []*Term
	for range resultTypes(in.Common().Signature()) {
		out = append(out, e.T.Opaque("dyncall"))
	}
	return out, st
}

// funcID numbers the functions used as values.
func (e *Engine) funcID(fn *ssa.Function) int {
	for i, f := range e.funcs {
		if f == fn {
			return i
		}
	}
	e.funcs = append(e.funcs, fn)
	return len(e.funcs) - 1
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

// Call builds an uninterpreted operation.
func (T *Terms) Call(name string, args []*Term, typ types.Type) *Term {
	if name == "Len" && len(args) == 1 && args[0].op == "call" && args[0].name == "symbolic.ConcretizeVectorExpression" {
		return T.concreteDim(args[0], T.Int(0))
	}
	return T.mk(Term{op: "call", name: name, args: args, typ: typ})
}

func (fr *frame) uninterpreted(name string, args []*Term, sig *types.Signature, st *State) ([]*Term, *State) {
	e, T := fr.e, fr.e.T
	var fa []*Term
	for _, a := range args {
		fa = append(fa, e.D.Resolve(e.freeze(a, st), st.facts))
	}
	if e.cfg.Event != nil {
		e.cfg.Event(fr.fn, name, fa, sig, st.facts)
	}
	rt := resultTypes(sig)
	if len(rt) == 0 {
		return nil, st
	}
	if e.cfg.Stamp[name] {
		fa = append(fa, T.mk(Term{op: "at", args: append([]*Term{}, e.ctx...)}))
	}
	if len(rt) == 1 {
		return []*Term{T.Call(name, fa, rt[0])}, st
	}
	base := T.Call(name, fa, nil)
	var out []*Term
	for i, t := range rt {
		out = append(out, T.mk(Term{op: "res", n: i, args: []*Term{base}, typ: t}))
	}
	return out, st
}

func (fr *frame) invoke(in *ssa.Call, recv *Term, m *types.Func, args []*Term, st *State, depth int) ([]*Term, *State) {
	e, T := fr.e, fr.e.T
	if recv.op == "iface" {
		fn := e.P.Prog.LookupMethod(recv.typ, m.Pkg(), m.Name())
		if fn != nil {
			return fr.static(in, fn, append([]*Term{recv.args[0]}, args...), st)
		}
	}
	if recv.op != "choice" {
		// a kind pinned by the facts
		if k := fr.pinned(recv, st); k != nil {
			if fn := e.P.Prog.LookupMethod(k, m.Pkg(), m.Name()); fn != nil {
				return fr.static(in, fn, append([]*Term{T.Assert(recv, k)}, args...), st)
			}
		}
	}
	if recv.op == "choice" && depth < 2 {
		fr.tail = false
		n := 0
		ok := true
		for i := 0; i+1 < len(recv.args); i += 2 {
			n++
		}
		if n > 8 {
			ok = false
		}
		if ok {
			var sts []*State
			var outs [][]*Term
			for i := 0; i+1 < len(recv.args); i += 2 {
				s := st.clone()
				if !fr.assume(s, recv.args[i], true, false) {
					continue
				}
				r, s2 := fr.invoke(in, e.D.Resolve(recv.args[i+1], s.facts), m, args, s, depth+1)
				if s2 == nil {
					continue
				}
				sts = append(sts, s2)
				outs = append(outs, r)
			}
			return fr.joinCalls(sts, outs, m.Type().(*types.Signature))
		}
	}
	if fr.e.cfg.Contract != nil {
		if r, ok := fr.e.cfg.Contract(fr, st, nil, m.Name(), append([]*Term{recv}, args...)); ok {
			if st.facts.bad {
				return nil, nil
			}
			return r, st
		}
	}
	rs, st2 := fr.uninterpreted(m.Name(), append([]*Term{recv}, args...), m.Type().(*types.Signature), st)
	if m.Name() == "ToScalarExpressions" && st2 != nil && len(rs) == 1 && rs[0].op == "call" {
		// the list belongs to the caller (C02)
		rs = []*Term{T.mk(Term{op: "slice", n: e.newObj(m.Type().(*types.Signature).Results().At(0).Type(), st2, rs[0])})}
	}
	return rs, st2
}

func (fr *frame) joinCalls(sts []*State, outs [][]*Term, sig *types.Signature) ([]*Term, *State) {
	e := fr.e
	if len(sts) == 0 {
		return nil, nil
	}
	if len(sts) == 1 {
		return outs[0], sts[0]
	}
	out, gs := e.join(sts)
	var res []*Term
	for i := range outs[0] {
		var vs []*Term
		for _, o := range outs {
			vs = append(vs, o[i])
		}
		res = append(res, e.mergeVals(gs, vs, sts, out, sig.Results().At(i).Type()))
	}
	return res, out
}

// pinned: the one concrete kind the facts allow for an interface value.
func (fr *frame) pinned(x *Term, st *State) types.Type {
	for _, k := range st.facts.order {
		if k.op == "typeis" && k.args[0] == x && st.facts.m[k] {
			if _, isI := k.typ.Underlying().(*types.Interface); !isI {
				return k.typ
			}
		}
	}
	return nil
}

// methodArgs presents a static method call in the same form as a dynamic one.
func (fr *frame) boxed(fn *ssa.Function, args []*Term) []*Term {
	if r := fn.Signature.Recv(); r != nil && len(args) > 0 {
		out := append([]*Term{}, args...)
		out[0] = fr.e.T.Iface(args[0], r.Type())
		return out
	}
	return args
}

func callName(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		return fn.Name()
	}
	if pk := pkgOf(fn); pk != nil {
		return pk.Pkg.Name() + "." + fn.Name()
	}
	return fn.Name()
}

// transparent: generated code that only passes its arguments on, and the small
// list helpers of the standard library, which are read like the library's own.
func transparent(fn *ssa.Function) bool {
	for _, w := range []string{"wrapper", "bound", "thunk"} {
		if strings.HasPrefix(fn.Synthetic, w) {
			return true
		}
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		switch o.Pkg.Pkg.Path() {
		case "slices", "maps", "cmp":
			return true
		}
	}
	return false
}

func (fr *frame) static(in *ssa.Call, fn *ssa.Function, args []*Term, st *State) ([]*Term, *State) {
	e := fr.e
	// unwrap synthetic pointer wrappers
	if len(fn.Blocks) > 0 && transparent(fn) {
		return e.inlineGuard(fr, in, fn, args, st)
	}
	name := callName(fn)
	if r, s, ok := fr.external(in, fn, args, st); ok {
		return r, s
	}
	if e.P.Our(fn) {
		if e.cfg.Contract != nil {
			if r, ok := e.cfg.Contract(fr, st, fn, name, fr.boxed(fn, args)); ok {
				if st.facts.bad {
					return nil, nil
				}
				return r, st
			}
		}
		if e.cfg.Opaque != nil && e.cfg.Opaque(fn, args, fr.depth) {
			return fr.uninterpreted(name, fr.boxed(fn, args), fn.Signature, st)
		}
		return e.inlineGuard(fr, in, fn, args, st)
	}
	r, st2 := fr.uninterpreted(fn.String(), args, fn.Signature, st)
	fr.overwrite(in, fn, args, st2)
	return r, st2
}

func (e *Engine) inlineGuard(fr *frame, in *ssa.Call, fn *ssa.Function, args []*Term, st *State) ([]*Term, *State) {
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	max := e.cfg.MaxDepth
	if max == 0 {
		max = 24
	}
	if n >= e.maxRec() || len(e.stack) >= max || len(fn.Blocks) == 0 {
		return fr.uninterpreted(callName(fn), fr.boxed(fn, args), fn.Signature, st)
	}
	if fr.tail {
		fr.tail = false
		e.split(fr, fn, args, st)
		return nil, nil
	}
	return e.inline(fn, args, st)
}

func (fr *frame) builtin(in *ssa.Call, name string, args []*Term, st *State) ([]*Term, *State) {
	e, T := fr.e, fr.e.T
	switch name {
	case "len":
		return []*Term{T.Len(e.list(st, e.D.Resolve(args[0], st.facts)))}, st
	case "cap":
		return []*Term{T.mk(Term{op: "cap", args: []*Term{e.freeze(args[0], st)}})}, st
	case "append":
		a := e.list(st, args[0])
		b := e.list(st, args[1])
		if b.op == "nil" {
			b = T.Lit(nil)
		}
		if bt, ok := in.Common().Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return []*Term{T.Opaque("append-string")}, st
		}
		o := e.newObj(in.Type(), st, T.App(a, b))
		return []*Term{T.mk(Term{op: "slice", n: o})}, st
	case "copy":
		src := e.list(st, args[1])
		dst := args[0]
		addr := st.orig[in.Common().Args[0]]
		var cur *Term
		switch {
		case dst.op == "slice":
			cur = e.list(st, dst)
			addr = T.mk(Term{op: "ptr", n: dst.n})
		case addr != nil:
			cur = dst
		default:
			e.problem(fr, in.Pos(), "copy into memory the function does not own")
			return []*Term{T.Opaque("copied")}, st
		}
		ld, ls := T.Len(cur), T.Len(src)
		var nc *Term
		switch {
		case ld == ls || e.D.Decide(T.EqInt(ld, ls), st.facts) == yes:
			nc = src
		case e.D.Decide(T.Lt(ls, ld), st.facts) == yes:
			nc = T.App(src, T.Sub(cur, ls, ld))
		case e.D.Decide(T.Lt(ld, ls), st.facts) == yes:
			nc = T.Sub(src, T.Int(0), ld)
		default:
			nc = T.Opaque("copy")
		}
		e.store(fr, st, addr, nc, in.Pos())
		return []*Term{ls}, st
	case "ssa:wrapnilchk":
		return []*Term{args[0]}, st
	case "delete":
		e.problem(fr, in.Pos(), "delete from a map")
		return nil, st
	case "min", "max":
		if len(args) == 2 && isIntegral(in.Type()) {
			lt := T.Lt(args[0], args[1])
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			return []*Term{T.Choice([]*Term{lt, T.Not(lt)}, []*Term{a, b})}, st
		}
	case "print", "println":
		return nil, st
	}
	if in.Type() == nil {
		return nil, st
	}
	return []*Term{T.Opaque("builtin:" + name)}, st
}

// Mul is integer multiplication, kept commutative.
func (T *Terms) Mul(a, b *Term) *Term {
	if k, ok := a.isInt(); ok {
		return T.Scale(b, k)
	}
	if k, ok := b.isInt(); ok {
		return T.Scale(a, k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(Term{op: "imul", args: []*Term{a, b}})
}

func (e *Engine) maxRec() int {
	if e.cfg.MaxRec > 0 {
		return e.cfg.MaxRec
	}
	return 3
}
