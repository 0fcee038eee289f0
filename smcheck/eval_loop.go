package main

// Natural loops and their closed-form summaries.

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock
	parent *loopInfo
	latch  []*ssa.BasicBlock
}

type loopForest struct {
	rpo   []*ssa.BasicBlock
	loops []*loopInfo
	inner map[*ssa.BasicBlock]*loopInfo // innermost loop containing the block
}

func (e *Engine) forest(fn *ssa.Function) *loopForest {
	if f, ok := e.loops[fn]; ok {
		return f
	}
	f := &loopForest{inner: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	byH := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					f.loops = append(f.loops, l)
				}
				l.latch = append(l.latch, b)
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	sort.SliceStable(f.loops, func(i, j int) bool { return len(f.loops[i].blocks) < len(f.loops[j].blocks) })
	for i, l := range f.loops {
		for _, o := range f.loops[i+1:] {
			if o != l && o.blocks[l.header] {
				l.parent = o
				break
			}
		}
		for b := range l.blocks {
			if f.inner[b] == nil {
				f.inner[b] = l
			}
		}
	}
	for _, l := range f.loops {
		for _, b := range f.rpo {
			if l.blocks[b] {
				l.order = append(l.order, b)
			}
		}
	}
	e.loops[fn] = f
	return f
}

// child returns the loop directly inside L (or top level) that contains b.
func (f *loopForest) child(L *loopInfo, b *ssa.BasicBlock) *loopInfo {
	l := f.inner[b]
	if l == L {
		return nil
	}
	for l != nil && l.parent != L {
		l = l.parent
	}
	return l
}

type lvInfo struct {
	atom *Term
	init *Term
	next *Term
	sol  *Term // closed form as a function of K
	typ  types.Type
}

// induction recognises phi += const.
func induction(p *ssa.Phi, L *loopInfo) (step int64, ok bool) {
	if !isIntegral(p.Type()) {
		return 0, false
	}
	for i, pr := range p.Block().Preds {
		if !L.blocks[pr] {
			continue
		}
		b, isB := p.Edges[i].(*ssa.BinOp)
		if !isB || (b.Op != token.ADD && b.Op != token.SUB) {
			return 0, false
		}
		var c *ssa.Const
		if b.X == p {
			c, _ = b.Y.(*ssa.Const)
		} else if b.Y == p && b.Op == token.ADD {
			c, _ = b.X.(*ssa.Const)
		}
		if c == nil || c.Value == nil {
			return 0, false
		}
		s := c.Int64()
		if b.Op == token.SUB {
			s = -s
		}
		if ok && s != step {
			return 0, false
		}
		step, ok = s, true
	}
	return step, ok
}

// loopFlag: a boolean tested before every round; the loop goes on only while
// it equals stay.
type loopFlag struct {
	phi  *ssa.Phi
	from *ssa.BasicBlock // the block that tests it
	to   *ssa.BasicBlock // where the loop is left
	stay bool
}

func (f *loopFlag) dec() tri {
	if f.stay {
		return yes
	}
	return no
}

// flagOf: the test is reached from the header through nothing but other tests.
func flagOf(L *loopInfo) *loopFlag {
	b := L.header
	for n := 0; n < 4; n++ {
		last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			switch in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef, *ssa.Field, *ssa.FieldAddr:
			case *ssa.Call:
				if _, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok {
					return nil
				}
			default:
				return nil
			}
		}
		if p, ok := last.Cond.(*ssa.Phi); ok && p.Block() == L.header {
			in0, in1 := L.blocks[b.Succs[0]], L.blocks[b.Succs[1]]
			if in0 && !in1 {
				return &loopFlag{p, b, b.Succs[1], true}
			}
			if in1 && !in0 {
				return &loopFlag{p, b, b.Succs[0], false}
			}
			return nil
		}
		var next *ssa.BasicBlock
		for _, s := range b.Succs {
			if L.blocks[s] {
				if next != nil {
					return nil
				}
				next = s
			}
		}
		if next == nil || len(next.Preds) != 1 || next == L.header {
			return nil
		}
		b = next
	}
	return nil
}

// splitFlag: leaving the loop at the next test of the flag is leaving it at the
// end of the round that changed the flag.
func (fr *frame) splitFlag(L *loopInfo, f *loopFlag, phis []*ssa.Phi, backs, exits []*edge) ([]*edge, []*edge) {
	e := fr.e
	// values computed on the way to the test must not be used outside the loop
	var stayOn []*edge
	for _, b := range backs {
		i := predIndex(L.header, b.from)
		v := e.D.Resolve(fr.val(b.st, f.phi.Edges[i]), b.st.facts)
		out := b.st.clone()
		if fr.assume(out, v, !f.stay, false) {
			next := map[*ssa.Phi]*Term{}
			for _, p := range phis {
				next[p] = fr.val(b.st, p.Edges[i])
			}
			for p, v := range next {
				out.env[p] = v
			}
			exits = append(exits, &edge{from: f.from, to: f.to, st: out, cond: e.T.Bool(true), flag: true})
		}
		if fr.assume(b.st, v, f.stay, false) {
			stayOn = append(stayOn, b)
		}
	}
	return stayOn, exits
}

func (fr *frame) evalLoop(L *loopInfo, ins []*edge) []*edge {
	e, T := fr.e, fr.e.T
	S0 := fr.joinEdges(L.header, ins)
	if S0.facts.bad {
		return nil
	}
	var phis []*ssa.Phi
	for _, in := range L.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	inits := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		inits[p] = S0.env[p]
	}
	if n, ok := fr.rounds(L, S0); ok && n >= 2 && n <= unrollMax {
		if out, ok := fr.unroll(L, S0); ok {
			return out
		}
	}
	flag := flagOf(L)
	var skipped []*edge
	if flag != nil {
		v := e.D.Resolve(inits[flag.phi], S0.facts)
		switch e.D.Decide(v, S0.facts) {
		case flag.dec():
		case unknown:
			s2 := S0.clone()
			if fr.assume(s2, v, !flag.stay, false) {
				skipped = append(skipped, &edge{from: flag.from, to: flag.to, st: s2})
			}
			if !fr.assume(S0, v, flag.stay, false) {
				return skipped
			}
		default:
			flag = nil
		}
	}
	pre := map[int]bool{}
	for o := range S0.mem {
		pre[o] = true
	}
	mod := map[int]bool{}
	var lvs []*lvInfo
	var K *Term
	var backs, exits []*edge
	var phiObj map[*ssa.Phi]int
	var H *State
	var objBase map[int][]*lvInfo
	var phiLv map[*ssa.Phi][]*lvInfo
	nprob := 0
	nobl := 0
	npan := 0
	nret := 0
	for pass := 0; ; pass++ {
		e.nat++
		K = T.mk(Term{op: "idx", n: e.nat})
		fr.curK[L.header] = K
		lvs = nil
		phiObj = map[*ssa.Phi]int{}
		objBase = map[int][]*lvInfo{}
		phiLv = map[*ssa.Phi][]*lvInfo{}
		H = S0.clone()
		newLv := func(init *Term, typ types.Type) (*Term, []*lvInfo) {
			// structs are tracked field by field
			if st, ok := structOf(typ); ok && init.op != "choice" {
				var fs []*Term
				var all []*lvInfo
				for i := 0; i < st.NumFields(); i++ {
					e.nat++
					a := T.mk(Term{op: "lv", n: e.nat, typ: st.Field(i).Type()})
					l := &lvInfo{atom: a, init: e.freeze(T.Field(init, i, typ), S0), typ: st.Field(i).Type()}
					lvs = append(lvs, l)
					all = append(all, l)
					fs = append(fs, a)
				}
				return T.mk(Term{op: "struct", typ: typ, args: fs}), all
			}
			e.nat++
			a := T.mk(Term{op: "lv", n: e.nat, typ: typ})
			l := &lvInfo{atom: a, init: e.freeze(init, S0), typ: typ}
			lvs = append(lvs, l)
			return a, []*lvInfo{l}
		}
		for _, p := range phis {
			if flag != nil && p == flag.phi {
				H.env[p] = T.Bool(flag.stay)
				continue
			}
			if s, ok := induction(p, L); ok {
				H.env[p] = T.Add(inits[p], T.Scale(K, s), 1)
				continue
			}
			if isSliceType(p.Type()) {
				a, l := newLv(e.list(S0, inits[p]), p.Type())
				o := e.newObj(p.Type(), H, a)
				phiObj[p] = o
				H.env[p] = T.mk(Term{op: "slice", n: o})
				phiLv[p] = l
				continue
			}
			a, l := newLv(inits[p], p.Type())
			H.env[p] = a
			phiLv[p] = l
		}
		var mo []int
		for o := range mod {
			mo = append(mo, o)
		}
		sort.Ints(mo)
		for _, o := range mo {
			a, l := newLv(S0.mem[o], e.otyp[o])
			H.mem[o] = a
			objBase[o] = l
		}
		w := map[int]bool{}
		e.writes = append(e.writes, w)
		nprob, nobl, npan, nret = len(e.probs), len(e.obls), len(e.panics), len(fr.rets)
		e.ctx = append(e.ctx, K)
		backs, exits = fr.region(L.order, L, H.clone())
		e.ctx = e.ctx[:len(e.ctx)-1]
		e.writes = e.writes[:len(e.writes)-1]
		changed := false
		for o := range w {
			if pre[o] && !mod[o] {
				mod[o] = true
				changed = true
			}
		}
		if !changed || pass > 6 {
			break
		}
		e.probs, e.obls, e.panics, fr.rets = e.probs[:nprob], e.obls[:nobl], e.panics[:npan], fr.rets[:nret]
	}
	for o := range mod {
		e.logWrite(o)
	}
	if flag != nil {
		backs, exits = fr.splitFlag(L, flag, phis, backs, exits)
	}
	m := map[*Term]*Term{}
	if len(backs) == 0 {
		// at most one iteration
		m[K] = T.Int(0)
		for _, l := range lvs {
			m[l.atom] = l.init
		}
		for _, x := range exits {
			fr.substState(x.st, m)
		}
		fr.substRets(nret, m)
		return append(skipped, liveEdges(exits)...)
	}
	// state at the end of an iteration
	bs := make([]*State, len(backs))
	for i, b := range backs {
		bs[i] = b.st
	}
	B, gs := e.join(bs)
	if len(bs) == 1 {
		B = bs[0]
	}
	phiNext := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		if phiLv[p] == nil {
			continue
		}
		var vs []*Term
		for i, b := range backs {
			v := fr.val(b.st, p.Edges[predIndex(L.header, b.from)])
			if isSliceType(p.Type()) {
				v = e.list(bs[i], v)
			}
			vs = append(vs, e.freeze(v, bs[i]))
		}
		phiNext[p] = e.D.Resolve(e.mergeVals(gs, vs, bs, B, nil), B.facts)
	}
	setNext := func(ls []*lvInfo, v *Term, typ types.Type) {
		if len(ls) == 1 && (ls[0].atom.typ == nil || !isStructLv(typ) || ls[0].typ == typ) {
			ls[0].next = v
			return
		}
		for i, l := range ls {
			l.next = T.Field(v, i, typ)
		}
	}
	for _, p := range phis {
		if l := phiLv[p]; l != nil {
			setNext(l, phiNext[p], p.Type())
		}
	}
	for o, l := range objBase {
		v := e.freeze(B.mem[o], B)
		setNext(l, v, e.otyp[o])
	}
	// trip count
	lvset := map[*Term]bool{}
	for _, l := range lvs {
		lvset[l.atom] = true
	}
	// invariant loop values are substituted first
	inv := map[*Term]*Term{}
	for {
		n := 0
		for _, l := range lvs {
			if l.sol == nil {
				nx := T.SubstMap(l.next, inv)
				if nx == l.atom || nx == l.init && l.init != l.atom && nx == l.next {
					if nx == l.atom {
						l.sol = l.init
						inv[l.atom] = l.init
						n++
					}
				}
			}
		}
		if n == 0 {
			break
		}
	}
	// lists that grow by the same number of entries in every round
	grown := map[*Term]*Term{}
	for _, l := range lvs {
		if nx := l.next; nx.op == "app" && nx.args[0] == l.atom {
			if by, ok := T.Len(T.App(nx.args[1:]...)).isInt(); ok {
				grown[T.Len(l.atom)] = T.Add(T.Len(l.init), T.Scale(K, by), 1)
			}
		}
	}
	counted := func(c *Term) *Term {
		if len(grown) == 0 {
			return c
		}
		return T.Rewrite(c, func(t *Term) *Term { return grown[t] })
	}
	var N *Term
	natural := map[*edge]bool{}
	for _, x := range exits {
		if x.cond == nil || x.flag {
			continue
		}
		dom := true
		for _, lb := range L.latch {
			if !x.from.Dominates(lb) {
				dom = false
			}
		}
		if !dom || fr.lf.inner[x.from] != L {
			continue
		}
		n := fr.tripCount(counted(T.SubstMap(x.cond, inv)), K, lvset, S0)
		if n == nil {
			continue
		}
		if N == nil || x.from == L.header {
			N = n
			for k := range natural {
				delete(natural, k)
			}
			natural[x] = true
		}
	}
	if N == nil {
		N = T.mk(Term{op: "trip", n: K.n})
		for _, x := range exits {
			if x.from == L.header && !x.flag {
				natural[x] = true
			}
		}
	}
	fr.solve(lvs, K, N, S0, B)
	for _, l := range lvs {
		m[l.atom] = l.sol
	}
	// obligations of the body hold for a generic iteration
	for i := nobl; i < len(e.obls); i++ {
		o := &e.obls[i]
		t := T.SubstMap(o.Term, m)
		g := NewFacts()
		for _, k := range o.Facts.order {
			lit := k
			if !o.Facts.m[k] {
				lit = T.Not(k)
			}
			e.D.Assume(T.SubstMap(lit, m), true, g)
		}
		o.Term, o.Facts = t, g
	}
	// closed forms may mention other loop values only through their solutions
	// facts that hold in every completed iteration
	var body, invar, last []*Term
	s0has := func(k *Term) bool { _, ok := S0.facts.m[k]; return ok }
	contCond := T.Lt(K, N)
	for _, k := range B.facts.order {
		if s0has(k) {
			continue
		}
		lit := k
		if !B.facts.m[k] {
			lit = T.Not(k)
		}
		lit = T.SubstMap(lit, m)
		if lit == contCond || fr.sameBound(lit, contCond) {
			continue
		}
		if !lit.free[K] {
			if len(lit.free) == 0 || !hasFreeLv(lit, lvset) {
				invar = append(invar, lit)
			}
			continue
		}
		body = append(body, lit)
		if lit.op == "pos" {
			// a bound on every counter value is strongest at the last one
			ps, c0 := T.linParts(lit.args[0])
			if ps[K] == -1 && !hasFreeLv(lit, lvset) {
				rest := T.Add(lit.args[0], K, 1)
				if !rest.free[K] && c0 >= 0 {
					okLen := true
					for a, c := range ps {
						if a != K && (c < 0 || !nonNeg(a)) {
							okLen = false
						}
					}
					if okLen {
						last = append(last, T.Lt(T.Int(0), T.Add(T.Add(rest, N, -1), T.Int(1), 1)))
					}
				}
			}
		}
	}
	// early exits: the condition under which iteration K leaves
	var early []*edge
	for _, x := range exits {
		if !natural[x] {
			early = append(early, x)
		}
	}
	exitCond := func(f *Facts) *Term {
		var l []*Term
		for _, k := range f.order {
			if s0has(k) || f.imp[k] {
				continue
			}
			lit := k
			if !f.m[k] {
				lit = T.Not(k)
			}
			lit = T.SubstMap(lit, m)
			if lit == contCond || fr.sameBound(lit, contCond) {
				continue
			}
			l = append(l, lit)
		}
		return T.And(l)
	}
	newRets := fr.rets[nret:]
	var any *Term
	conds := map[*edge]*Term{}
	for _, x := range early {
		c := exitCond(x.st.facts)
		conds[x] = c
		if any == nil {
			any = c
		} else {
			any = T.orGuard(any, c)
		}
	}
	if len(newRets) > 0 {
		// returns inside the loop body cannot happen: a returning block is outside the natural loop
		e.problem(fr, L.header.Instrs[0].Pos(), "return inside loop region")
	}
	var out []*edge
	var F, ex *Term
	if any != nil {
		F = T.First(N, K, any)
		ex = T.Exists(N, K, any)
	}
	all := T.Forall(N, K, T.And(body))
	for _, x := range exits {
		mm := map[*Term]*Term{}
		at := N
		if !natural[x] {
			at = F
		}
		for a, v := range m {
			mm[a] = T.Subst(v, K, at)
		}
		mm[K] = at
		base := S0.facts.clone()
		old := x.st.facts
		ok := true
		add := func(c *Term, imp bool) {
			if !ok {
				return
			}
			n := len(base.order)
			if !e.D.Assume(c, true, base) {
				ok = false
				return
			}
			if imp {
				for _, k := range base.order[n:] {
					base.imp[k] = true
				}
			}
		}
		if natural[x] {
			if ex != nil {
				add(T.Not(ex), false)
			}
			if b, isB := all.isBool(); !isB || !b {
				add(all, true)
			}
			for _, lit := range last {
				add(lit, true)
			}
			if ok && len(invar) > 0 && e.D.Decide(T.Lt(T.Int(0), N), base) == yes {
				// what every iteration found true, once there was one
				for _, lit := range invar {
					if e.D.Decide(lit, base) == unknown {
						add(lit, true)
					}
				}
			}
		} else {
			add(ex, false)
			add(T.Lt(at, N), true)
			if len(early) > 1 {
				add(T.Subst(conds[x], K, at), false)
			}
		}
		for _, k := range old.order {
			if s0has(k) || !ok {
				continue
			}
			lit := k
			if !old.m[k] {
				lit = T.Not(k)
			}
			nl := T.SubstMap(lit, mm)
			if natural[x] && nl != lit && e.D.Decide(nl, base) == no {
				// e.g. index facts of the last, not executed, iteration
				ok = false
				break
			}
			add(nl, true)
		}
		if !ok {
			continue
		}
		x.st.facts = base
		fr.substValues(x.st, mm)
		out = append(out, x)
	}
	return append(skipped, out...)
}

func hasFreeLv(t *Term, lvs map[*Term]bool) bool {
	for a := range t.free {
		if lvs[a] {
			return true
		}
	}
	return false
}

func isStructLv(t types.Type) bool { _, ok := structOf(t); return ok }

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	if isGonum(t, "VecDense") || isGonum(t, "Dense") {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func liveEdges(es []*edge) []*edge {
	var out []*edge
	for _, x := range es {
		if !x.st.facts.bad {
			out = append(out, x)
		}
	}
	return out
}

func (fr *frame) substValues(st *State, m map[*Term]*Term) {
	T := fr.e.T
	for k, v := range st.env {
		if len(v.free) > 0 {
			st.env[k] = fr.e.D.Resolve(T.SubstMap(v, m), st.facts)
		}
	}
	for k, v := range st.orig {
		if len(v.free) > 0 {
			st.orig[k] = T.SubstMap(v, m)
		}
	}
	for k, v := range st.mem {
		if len(v.free) > 0 {
			st.mem[k] = T.SubstMap(v, m)
		}
	}
}

func (fr *frame) substState(st *State, m map[*Term]*Term) {
	T := fr.e.T
	f := NewFacts()
	for _, k := range st.facts.order {
		lit := k
		if !st.facts.m[k] {
			lit = T.Not(k)
		}
		imp := st.facts.imp[k]
		n := len(f.order)
		fr.e.D.Assume(T.SubstMap(lit, m), true, f)
		if imp {
			for _, x := range f.order[n:] {
				f.imp[x] = true
			}
		}
	}
	st.facts = f
	fr.substValues(st, m)
}

func (fr *frame) substRets(from int, m map[*Term]*Term) {
	for i := from; i < len(fr.rets); i++ {
		r := &fr.rets[i]
		fr.substState(r.st, m)
		for j, v := range r.vals {
			r.vals[j] = fr.e.T.SubstMap(v, m)
		}
	}
}

// tripCount solves the exit literal for the iteration counter.
func (fr *frame) tripCount(exit, K *Term, lv map[*Term]bool, S0 *State) *Term {
	e, T := fr.e, fr.e.T
	pol := true // exit literal holds when leaving
	c := exit
	if c.op == "not" {
		pol = false
		c = c.args[0]
	}
	if (c.op != "pos" && c.op != "eq0") || !c.free[K] {
		return nil
	}
	for a := range c.free {
		if lv[a] {
			return nil
		}
	}
	lin := c.args[0]
	mp, _ := T.linParts(lin)
	k := mp[K]
	if k != 1 && k != -1 {
		if k == 0 {
			return nil
		}
		return nil
	}
	for a, cf := range mp {
		if a != K && a.free[K] && cf != 0 {
			return nil
		}
	}
	rest := T.Add(lin, K, -k)
	var n *Term
	switch {
	case c.op == "pos" && !pol && k == -1: // continue while rest-K > 0
		n = rest
	case c.op == "pos" && pol && k == 1: // leave when K+rest > 0: continue while K <= -rest
		n = T.Add(T.Int(1), rest, -1)
	case c.op == "eq0" && pol && k == 1: // leave when K == -rest
		n = T.Scale(rest, -1)
	case c.op == "eq0" && pol && k == -1:
		n = rest
	default:
		return nil
	}
	if v, ok := n.isInt(); ok {
		if v < 0 {
			return T.Int(0)
		}
		return n
	}
	if e.D.Decide(T.Lt(n, T.Int(0)), S0.facts) != no && c.op == "pos" {
		return T.mk(Term{op: "max0", args: []*Term{n}})
	}
	return n
}

// ---- quantifiers --------------------------------------------------------

// sameBound: over the integers, 0 < x is the denial of 0 < 1-x.
func (fr *frame) sameBound(lit, c *Term) bool {
	T := fr.e.T
	if lit.op != "not" || lit.args[0].op != "pos" || c.op != "pos" {
		return false
	}
	return T.Add(T.Int(1), lit.args[0].args[0], -1) == c.args[0]
}

// backward: c is about the entries counted from the end; what it says about
// round k said about round n-1-k.
func (T *Terms) backward(n, k, c *Term) *Term {
	if !c.free[k] {
		return nil
	}
	up, down := 0, 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.free[k] || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "elem" && t.args[1].free[k] {
			ps, _ := T.linParts(t.args[1])
			if ps[k] < 0 {
				down++
			} else {
				up++
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(c)
	if down == 0 || up > 0 {
		return nil
	}
	return T.Subst(c, k, T.Add(T.Add(n, T.Int(1), -1), k, -1))
}

// fromOne: k ranges over n = m-1 positions one after another's, and the
// position left out at the start would not satisfy c (or is bound to satisfy it,
// when it is all); then k may range over m positions instead.
func (T *Terms) fromOne(n, k, c *Term, at0 bool) (*Term, *Term) {
	if n.op != "lin" || n.c0 >= 0 || len(n.args) == 0 || !c.free[k] {
		return nil, nil
	}
	d := T.Subst(c, k, T.Add(k, T.Int(1), -1))
	if b, ok := T.Subst(d, k, T.Int(0)).isBool(); !ok || b != at0 {
		return nil, nil
	}
	return T.Add(n, T.Int(1), 1), d
}

// tidy reads each condition on position k in the light of the others.
func (T *Terms) tidy(k, c *Term) *Term {
	if c.op != "and" || !c.free[k] {
		return c
	}
	lits := append([]*Term{}, c.args...)
	for i, l := range lits {
		a, v := l, true
		if a.op == "not" {
			a, v = a.args[0], false
		}
		if (a.op != "pos" && a.op != "eq0") || !a.free[k] {
			continue
		}
		memo := map[*Term]*Term{a: T.Bool(v)}
		var rec func(t *Term) *Term
		rec = func(t *Term) *Term {
			if !t.free[k] {
				return t
			}
			if r, ok := memo[t]; ok {
				return r
			}
			r := T.rebuild(t, func(_ int, a *Term) *Term { return rec(a) })
			memo[t] = r
			return r
		}
		for j := range lits {
			if j != i {
				lits[j] = rec(lits[j])
			}
		}
	}
	return T.And(lits)
}

// within finds the positions k of n that satisfy c: a condition k > 0 is
// dropped where position 0 does not satisfy the others, and counted from
// position 1 otherwise (by is then 1).
func (T *Terms) within(n, k, c *Term) (m, d *Term, by int64) {
	c = T.tidy(k, c)
	first := T.Lt(T.Int(0), k)
	var rest []*Term
	found := false
	for _, l := range conj(c) {
		if l == first {
			found = true
		} else {
			rest = append(rest, l)
		}
	}
	if !found || len(rest) == 0 {
		return n, c, 0
	}
	r := T.And(rest)
	if b, ok := T.Subst(r, k, T.Int(0)).isBool(); ok && !b {
		return n, r, 0
	}
	return T.Add(n, T.Int(1), -1), T.Subst(r, k, T.Add(k, T.Int(1), 1)), 1
}

// overFlat: some entry of a joined list is some entry of one of its parts.
func (T *Terms) overFlat(n, k, c *Term) *Term {
	var l *Term
	seen := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		if l != nil || !t.free[k] || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "elem" && t.args[1] == k && t.args[0].op == "flat" && t.args[0].loose == 0 && !t.args[0].free[k] && T.Len(t.args[0]) == n {
			l = t.args[0]
			return
		}
		for _, a := range t.args {
			find(a)
		}
	}
	find(c)
	if l == nil {
		return nil
	}
	T.nfresh++
	e := T.mk(Term{op: "idx", name: "e", n: T.nfresh})
	rest := T.Rewrite(c, func(t *Term) *Term {
		if t.op == "elem" && t.args[1] == k && t.args[0] == l {
			return e
		}
		return nil
	})
	if rest.free[k] {
		return nil
	}
	return T.someEntry(l, func(x *Term) *Term { return T.Subst(rest, e, x) })
}

// someEntry: the condition holds for an entry of the list.
func (T *Terms) someEntry(l *Term, cond func(x *Term) *Term) *Term {
	T.nfresh++
	k := T.mk(Term{op: "idx", name: "e", n: T.nfresh})
	switch l.op {
	case "flat":
		return T.Exists(l.args[0], k, T.someEntry(T.open(l.args[1], k), cond))
	case "filt":
		return T.Exists(l.args[0], k, T.And([]*Term{T.open(l.args[1], k), cond(T.open(l.args[2], k))}))
	case "lit", "app":
		none := T.Bool(true)
		for _, x := range l.args {
			if l.op == "lit" {
				none = T.And([]*Term{none, T.Not(cond(x))})
			} else {
				none = T.And([]*Term{none, T.Not(T.someEntry(x, cond))})
			}
		}
		return T.Not(none)
	case "choice":
		none := T.Bool(true)
		for i := 0; i+1 < len(l.args); i += 2 {
			none = T.And([]*Term{none, T.Not(T.And([]*Term{l.args[i], T.someEntry(l.args[i+1], cond)}))})
		}
		return T.Not(none)
	}
	return T.Exists(T.Len(l), k, cond(T.Elem(l, k, elemType(l))))
}

func (T *Terms) Exists(n, k, c *Term) *Term {
	if c.free[k] {
		n, c, _ = T.within(n, k, c)
	}
	if m, d := T.fromOne(n, k, c, false); m != nil {
		return T.Exists(m, k, d)
	}
	if b := T.backward(n, k, c); b != nil {
		c = b
	}
	if t := T.overFlat(n, k, c); t != nil {
		return t
	}
	if v, ok := n.isInt(); ok && v <= 0 {
		return T.Bool(false)
	}
	if b, ok := c.isBool(); ok {
		if !b {
			return c
		}
		return T.Lt(T.Int(0), n)
	}
	if !c.free[k] {
		return T.And([]*Term{T.Lt(T.Int(0), n), c})
	}
	return T.mk(Term{op: "exists", args: []*Term{n, T.close(c, []*Term{k})}})
}

// Last: k may be the bound itself, which then is not k inside the condition.
func (T *Terms) Last(n, k, c *Term) *Term {
	T.nfresh++
	j := T.mk(Term{op: "idx", name: "w", n: T.nfresh})
	if b := T.backward(n, j, T.Subst(c, k, j)); b != nil {
		first := T.mk(Term{op: "first", args: []*Term{n, T.close(b, []*Term{j})}, typ: types.Typ[types.Int]})
		return T.Add(T.Add(n, T.Int(1), -1), first, -1)
	}
	return T.mk(Term{op: "last", args: []*Term{n, T.close(c, []*Term{k})}, typ: types.Typ[types.Int]})
}

func (T *Terms) First(n, k, c *Term) *Term {
	if b, ok := c.isBool(); ok && b {
		return T.Int(0)
	}
	if c.free[k] {
		m, d, by := T.within(n, k, c)
		if by != 0 {
			return T.Add(T.First(m, k, d), T.Int(by), 1)
		}
		c = d
	}
	if m, d := T.fromOne(n, k, c, false); m != nil {
		return T.Add(T.First(m, k, d), T.Int(1), -1)
	}
	if b := T.backward(n, k, c); b != nil {
		last := T.mk(Term{op: "last", args: []*Term{n, T.close(b, []*Term{k})}, typ: types.Typ[types.Int]})
		return T.Add(T.Add(n, T.Int(1), -1), last, -1)
	}
	return T.mk(Term{op: "first", args: []*Term{n, T.close(c, []*Term{k})}, typ: types.Typ[types.Int]})
}

func (T *Terms) Forall(n, k, c *Term) *Term {
	if b, ok := c.isBool(); ok && b {
		return c
	}
	if v, ok := n.isInt(); ok && v <= 0 {
		return T.Bool(true)
	}
	if c.free[k] && (c.op == "ite" || c.op == "not") {
		m, d, _ := T.within(n, k, T.Not(c))
		n, c = m, T.Not(d)
	}
	if m, d := T.fromOne(n, k, c, true); m != nil {
		return T.Forall(m, k, d)
	}
	if b := T.backward(n, k, c); b != nil {
		c = b
	}
	return T.mk(Term{op: "forall", args: []*Term{n, T.close(c, []*Term{k})}})
}

// ---- closed forms -------------------------------------------------------

func (fr *frame) solve(lvs []*lvInfo, K, N *Term, S0, B *State) {
	T := fr.e.T
	subst := func() map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, l := range lvs {
			if l.sol != nil {
				m[l.atom] = l.sol
			}
		}
		return m
	}
	for {
		n := 0
		for _, l := range lvs {
			if l.sol != nil {
				continue
			}
			nx := T.SubstMap(l.next, subst())
			other := false
			for _, o := range lvs {
				if o != l && o.sol == nil && nx.free[o.atom] {
					other = true
				}
			}
			if other {
				continue
			}
			if s := fr.closed(l, nx, K, N, B); s != nil {
				l.sol = s
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	// whatever is left evolves together
	var rest []*lvInfo
	for _, l := range lvs {
		if l.sol == nil {
			rest = append(rest, l)
		}
	}
	if len(rest) == 0 {
		return
	}
	m := subst()
	// group by mutual dependency: a value that depends on nobody else unsolved is folded alone first
	for len(rest) > 0 {
		grp := fr.fixGroup(rest, m)
		args := []*Term{K}
		var nexts []*Term
		atoms := []*Term{K}
		for _, l := range grp {
			args = append(args, l.init)
			atoms = append(atoms, l.atom)
		}
		for _, l := range grp {
			nexts = append(nexts, T.SubstMap(l.next, m))
		}
		for i := range nexts {
			nexts[i] = T.close(nexts[i], atoms)
		}
		args = append(args, nexts...)
		for i, l := range grp {
			f := T.mk(Term{op: "fold", n: len(grp), c0: int64(i), args: args, typ: l.typ})
			l.sol = f
			m[l.atom] = f
		}
		var left []*lvInfo
		for _, l := range rest {
			if l.sol == nil {
				left = append(left, l)
			}
		}
		rest = left
	}
}

// fixGroup picks a minimal set of unsolved values closed under dependency.
func (fr *frame) fixGroup(rest []*lvInfo, m map[*Term]*Term) []*lvInfo {
	T := fr.e.T
	var best []*lvInfo
	for _, l := range rest {
		in := map[*lvInfo]bool{l: true}
		for ch := true; ch; {
			ch = false
			for x := range in {
				nx := T.SubstMap(x.next, m)
				for _, o := range rest {
					if !in[o] && nx.free[o.atom] {
						in[o] = true
						ch = true
					}
				}
			}
		}
		if best == nil || len(in) < len(best) {
			best = nil
			for _, o := range rest {
				if in[o] {
					best = append(best, o)
				}
			}
		}
	}
	return best
}

// closed finds the value before iteration K as a function of K.
func (fr *frame) closed(l *lvInfo, nx, K, N *Term, B *State) *Term {
	e, T := fr.e, fr.e.T
	lv := l.atom
	if nx == lv {
		return l.init
	}
	gs, vs := T.alts(nx)
	for _, g := range gs {
		if g.free[lv] {
			return fr.closedMax(l, gs, vs, K)
		}
	}
	// integers: sum of increments
	if isIntegral2(l.typ) {
		var ds []*Term
		ok := true
		for _, v := range vs {
			d := T.Add(v, lv, -1)
			if d.free[lv] {
				ok = false
				break
			}
			ds = append(ds, d)
		}
		if ok {
			d := T.Choice(gs, ds)
			if !d.free[K] {
				if c, isC := d.isInt(); isC {
					return T.Add(l.init, T.Scale(K, c), 1)
				}
			}
			k2 := e.newIdx()
			return T.Add(l.init, T.Sum("int", K, k2, T.Subst(d, K, k2)), 1)
		}
	}
	// real accumulators
	if l.typ != nil && isFloat(l.typ) {
		for _, op := range []string{"+", "*"} {
			neutral := T.Float(0)
			if op == "*" {
				neutral = T.Float(1)
			}
			var ds []*Term
			ok := true
			for _, v := range vs {
				d := splitAcc(T, v, lv, op)
				if d == nil || d.free[lv] {
					ok = false
					break
				}
				ds = append(ds, d)
			}
			_ = neutral
			if ok {
				d := T.Choice(gs, ds)
				k2 := e.newIdx()
				var s *Term
				if op == "+" {
					s = T.Sum("float", K, k2, T.Subst(d, K, k2))
				} else {
					s = T.mk(Term{op: "prod", name: "float", args: []*Term{K, T.close(d, []*Term{K})}})
				}
				return T.Bin(op, l.init, s, l.typ)
			}
		}
	}
	// booleans: flags
	if l.typ != nil {
		if b, ok := l.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			if r := fr.closedFlag(l, gs, vs, K); r != nil {
				return r
			}
		}
	}
	// lists
	if r := fr.closedList(l, nx, gs, vs, K, N, B); r != nil {
		return r
	}
	// last assignment wins
	var g []*Term
	var gg, vv []*Term
	keep := false
	for i, v := range vs {
		if v == lv {
			keep = true
			continue
		}
		if v.free[lv] {
			return nil
		}
		g = append(g, gs[i])
		gg = append(gg, gs[i])
		vv = append(vv, v)
	}
	if len(vv) == 0 {
		return nil
	}
	if !keep {
		// assigned in every iteration: the value of the previous one
		val := T.Subst(T.Choice(gg, vv), K, T.Add(K, T.Int(1), -1))
		if T.Subst(val, K, T.Int(0)) == l.init {
			return val
		}
		pos := T.Lt(T.Int(0), K)
		return T.Choice([]*Term{pos, T.Not(pos)}, []*Term{val, l.init})
	}
	cond := g[0]
	for _, x := range g[1:] {
		cond = T.orGuard(cond, x)
	}
	last := T.Last(K, K, cond)
	k2 := e.newIdx()
	ex := T.Exists(K, k2, T.Subst(cond, K, k2))
	val := T.Subst(T.Choice(gg, vv), K, last)
	return T.Choice([]*Term{ex, T.Not(ex)}, []*Term{val, l.init})
}

func isIntegral2(t types.Type) bool { return t != nil && isIntegral(t) }

func (e *Engine) newIdx() *Term {
	e.nat++
	return e.T.mk(Term{op: "idx", n: e.nat})
}

// splitAcc writes v as lv op d.
func splitAcc(T *Terms, v, lv *Term, op string) *Term {
	if v == lv {
		if op == "+" {
			return T.Float(0)
		}
		return T.Float(1)
	}
	if v.op != "bin" {
		return nil
	}
	if v.name == op {
		for i := 0; i < 2; i++ {
			if v.args[1-i].free[lv] {
				continue
			}
			if d := splitAcc(T, v.args[i], lv, op); d != nil {
				return T.Bin(op, d, v.args[1-i], v.typ)
			}
		}
	}
	if op == "+" && v.name == "-" && !v.args[1].free[lv] {
		if d := splitAcc(T, v.args[0], lv, op); d != nil {
			return T.Bin("-", d, v.args[1], v.typ)
		}
	}
	return nil
}

// closedMax: lv' = e if e > lv else lv.
func (fr *frame) closedMax(l *lvInfo, gs, vs []*Term, K *Term) *Term {
	T := fr.e.T
	if len(vs) != 2 || !isIntegral2(l.typ) {
		return nil
	}
	for i := 0; i < 2; i++ {
		v := vs[i]
		if vs[1-i] != l.atom || v.free[l.atom] {
			continue
		}
		g := gs[i]
		if g == T.Lt(l.atom, v) || g == T.Not(T.Lt(v, l.atom)) {
			return T.mk(Term{op: "maxf", args: []*Term{K, l.init, T.close(v, []*Term{K})}, typ: l.typ})
		}
	}
	return nil
}

func (fr *frame) closedFlag(l *lvInfo, gs, vs []*Term, K *Term) *Term {
	e, T := fr.e, fr.e.T
	var t, f *Term
	or := func(a, b *Term) *Term {
		if a == nil {
			return b
		}
		return T.orGuard(a, b)
	}
	for i, v := range vs {
		b, isB := v.isBool()
		switch {
		case v == l.atom:
		case isB && b:
			t = or(t, gs[i])
		case isB:
			f = or(f, gs[i])
		case v.op == "and" && !v.free[K]:
			return nil
		default:
			// lv && c  /  lv || c
			if v.op == "and" {
				var rest []*Term
				has := false
				for _, x := range v.args {
					if x == l.atom {
						has = true
					} else {
						rest = append(rest, x)
					}
				}
				c := T.And(rest)
				if !has || c.free[l.atom] {
					return nil
				}
				f = or(f, T.And([]*Term{gs[i], T.Not(c)}))
				continue
			}
			return nil
		}
	}
	k2 := e.newIdx()
	switch {
	case t != nil && f == nil:
		ex := T.Exists(K, k2, T.Subst(t, K, k2))
		if b, ok := l.init.isBool(); ok {
			if b {
				return l.init
			}
			return ex
		}
		return T.Choice([]*Term{ex, T.Not(ex)}, []*Term{T.Bool(true), l.init})
	case f != nil && t == nil:
		ex := T.Exists(K, k2, T.Subst(f, K, k2))
		if b, ok := l.init.isBool(); ok {
			if !b {
				return l.init
			}
			return T.Not(ex)
		}
		return T.Choice([]*Term{ex, T.Not(ex)}, []*Term{T.Bool(false), l.init})
	}
	return nil
}

// growing: every iteration adds the same number of entries, so that the length
// at iteration K is known; writes into the entries just added are folded into them.
func growing(T *Terms, l *lvInfo, vs []*Term, K *Term) []*Term {
	lv := l.atom
	step := int64(0)
	for i, v := range vs {
		d, ok := T.Add(T.Len(v), T.Len(lv), -1).isInt()
		if !ok || d <= 0 || i > 0 && d != step {
			return vs
		}
		step = d
	}
	at := T.Add(T.Len(l.init), T.Scale(K, step), 1)
	own := func(x *Term) (*Term, int64, bool) {
		if x.args[0].op != "app" || x.args[0].args[0] != lv {
			return nil, 0, false
		}
		off, ok := T.Add(x.args[1], at, -1).isInt()
		return T.App(x.args[0].args[1:]...), off, ok && off >= 0
	}
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = T.Rewrite(v, func(x *Term) *Term {
			switch x.op {
			case "len":
				if x.args[0] == lv {
					return at
				}
			case "elem":
				if r, off, ok := own(x); ok {
					return T.Elem(r, T.Int(off), x.typ)
				}
			case "set":
				if r, off, ok := own(x); ok && r.op == "lit" {
					return T.App(lv, T.Set(r, T.Int(off), x.args[2]))
				}
			}
			return nil
		})
	}
	return out
}

// sameLength: no iteration changes the length of the list.
func sameLength(T *Terms, l *lvInfo, vs []*Term) []*Term {
	n := T.Len(l.init)
	for _, v := range vs {
		if T.Len(v) != T.Len(l.atom) {
			return vs
		}
	}
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = T.Rewrite(v, func(x *Term) *Term {
			switch {
			case x.op == "len" && x.args[0] == l.atom:
				return n
			case x.op == "upd" && x.args[0] == l.atom && x.args[1] == n:
				return x.args[2]
			}
			return nil
		})
	}
	return out
}

// columns: every iteration rewrites every entry from its own previous value.
func (fr *frame) columns(l *lvInfo, gs, vs []*Term, K, N *Term, B *State) *Term {
	e, T := fr.e, fr.e.T
	n := T.Len(l.init)
	if len(vs) != 1 || vs[0].op != "map" || vs[0].args[0] != n || n.free[K] || n.free[l.atom] {
		return nil
	}
	et := elemTypeOf(l.typ)
	j := e.newIdx()
	e.nat++
	ra := T.mk(Term{op: "lv", n: e.nat, typ: et})
	body := replaceElem(T, T.open(vs[0].args[1], j), l.atom, j, ra)
	if body.free[l.atom] || !body.free[ra] {
		return nil
	}
	row := &lvInfo{atom: ra, init: T.Elem(l.init, j, et), typ: et}
	r := fr.closed(row, body, K, N, B)
	if r == nil || r.free[ra] {
		return nil
	}
	return T.MapN(n, j, r)
}

func (fr *frame) closedList(l *lvInfo, nx *Term, gs, vs []*Term, K, N *Term, B *State) *Term {
	e, T := fr.e, fr.e.T
	lv := l.atom
	vs = growing(T, l, vs, K)
	vs = sameLength(T, l, vs)
	if r := fr.columns(l, gs, vs, K, N, B); r != nil {
		return r
	}
	// appends
	isApp := true
	var rests []*Term
	for _, v := range vs {
		switch {
		case v == lv:
			rests = append(rests, T.Lit(nil))
		case v.op == "app" && v.args[0] == lv:
			r := T.App(v.args[1:]...)
			if r.free[lv] {
				isApp = false
			}
			rests = append(rests, r)
		default:
			isApp = false
		}
	}
	if isApp && len(rests) > 0 {
		all1, none, some := true, 0, 0
		for _, r := range rests {
			n, ok := T.Len(r).isInt()
			if ok && n == 0 {
				none++
				all1 = false
			} else if ok && n == 1 {
				some++
			} else {
				all1 = false
			}
		}
		elem := func(r *Term) *Term { return T.Elem(r, T.Int(0), nil) }
		k2 := e.newIdx()
		switch {
		case all1:
			var es []*Term
			for _, r := range rests {
				es = append(es, elem(r))
			}
			return T.App(l.init, T.MapN(K, k2, T.Subst(T.Choice(gs, es), K, k2)))
		case some+none == len(rests):
			var g2, e2 []*Term
			var cond *Term
			for i, r := range rests {
				if n, _ := T.Len(r).isInt(); n == 1 {
					g2 = append(g2, gs[i])
					e2 = append(e2, elem(r))
					if cond == nil {
						cond = gs[i]
					} else {
						cond = T.orGuard(cond, gs[i])
					}
				}
			}
			body := T.Choice(g2, e2)
			return T.App(l.init, T.mk(Term{op: "filt", args: []*Term{K, T.close(cond, []*Term{K}), T.close(body, []*Term{K})}}))
		default:
			return T.App(l.init, T.mk(Term{op: "flat", args: []*Term{K, T.close(T.Choice(gs, rests), []*Term{K})}}))
		}
	}
	// one block of fixed width per iteration, in order
	if len(vs) == 1 && vs[0].op == "blk" && vs[0].args[0] == lv {
		row := vs[0].args[2]
		m := T.Len(row)
		if !row.free[lv] && !m.free[K] && vs[0].args[1] == T.Mul(m, K) {
			k2 := e.newIdx()
			row = T.Subst(row, K, k2)
			pre := T.mk(Term{op: "flat", args: []*Term{K, T.close(row, []*Term{k2})}})
			return T.Upd(l.init, T.Mul(m, K), pre, T.Len(l.init))
		}
	}
	// element-wise stores
	var idx *Term
	var body []*Term
	okSet := true
	for _, v := range vs {
		switch {
		case v == lv:
			body = append(body, nil)
		case v.op == "set" && v.args[0] == lv && !v.args[1].free[lv]:
			if idx != nil && idx != v.args[1] {
				okSet = false
			}
			idx = v.args[1]
			body = append(body, v.args[2])
		default:
			okSet = false
		}
	}
	if okSet && idx != nil {
		if !idx.free[K] {
			// every iteration updates the same element
			et := elemTypeOf(l.typ)
			e.nat++
			ra := T.mk(Term{op: "lv", n: e.nat, typ: et})
			var nvs []*Term
			for _, b := range body {
				if b == nil {
					nvs = append(nvs, ra)
					continue
				}
				nb := replaceElem(T, b, lv, idx, ra)
				if nb.free[lv] {
					return nil
				}
				nvs = append(nvs, nb)
			}
			row := &lvInfo{atom: ra, init: T.Elem(l.init, idx, et), typ: et}
			nrow := T.Choice(gs, nvs)
			if s := fr.closed(row, nrow, K, N, B); s != nil {
				return T.Set(l.init, idx, s)
			}
			if s := nrow; s != nil {
				f := T.mk(Term{op: "fold", n: 1, args: []*Term{K, row.init, T.close(nrow, []*Term{K, ra})}, typ: et})
				return T.Set(l.init, idx, f)
			}
			return nil
		}
		// idx = ±K + c
		mp, _ := T.linParts(idx)
		ck := mp[K]
		rest := T.Add(idx, K, -ck)
		if (ck == 1 || ck == -1) && !rest.free[K] {
			var nb []*Term
			for _, b := range body {
				if b == nil {
					b = T.Elem(l.init, idx, elemTypeOf(l.typ))
				} else {
					b = replaceElem(T, b, lv, idx, T.Elem(l.init, idx, elemTypeOf(l.typ)))
				}
				if b.free[lv] {
					return nil
				}
				nb = append(nb, b)
			}
			val := T.Choice(gs, nb)
			// value at position p comes from iteration (p-rest)*ck
			if r, isC := rest.isInt(); isC && r == 0 && ck == 1 {
				ln := T.Len(l.init)
				k2 := e.newIdx()
				pre := T.MapN(K, k2, T.Subst(val, K, k2))
				return T.Upd(l.init, K, pre, ln)
			}
			if _, isC := rest.isInt(); !isC && ck == 1 && len(vs) == 1 {
				k2 := e.newIdx()
				return T.mk(Term{op: "blk", args: []*Term{l.init, rest, T.MapN(K, k2, T.Subst(val, K, k2))}, typ: l.init.typ})
			}
			if ck == -1 && T.Add(rest, N, -1) == T.Int(-1) {
				// descending over the whole prefix; only the final value is closed
				ln := T.Len(l.init)
				if ln == N {
					k2 := e.newIdx()
					full := T.MapN(N, k2, T.Subst(val, K, T.Add(rest, k2, -1)))
					return T.Partial(K, N, full, l.init, l.typ)
				}
			}
		}
	}
	_ = B
	return nil
}

func elemTypeOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	if isGonum(t, "VecDense") {
		return types.Typ[types.Float64]
	}
	if isGonum(t, "Dense") {
		return types.NewSlice(types.Typ[types.Float64])
	}
	return nil
}

// replaceElem substitutes the current element lv[idx] inside a body.
func replaceElem(T *Terms, b, lv, idx, with *Term) *Term {
	return T.Rewrite(b, func(t *Term) *Term {
		if t.op == "elem" && t.args[0] == lv && t.args[1] == idx {
			return with
		}
		return nil
	})
}

// Upd is init with its first k elements replaced by pre (of length k).
func (T *Terms) Upd(init, k, pre, ln *Term) *Term {
	if k == ln {
		return pre
	}
	return T.mk(Term{op: "upd", args: []*Term{init, k, pre}, typ: init.typ})
}

// Partial is init in which the last k of n descending stores of full took place.
func (T *Terms) Partial(k, n, full, init *Term, typ types.Type) *Term {
	if k == n {
		return full
	}
	if v, ok := k.isInt(); ok && v == 0 {
		return init
	}
	return T.mk(Term{op: "partial", args: []*Term{k, n, full, init}, typ: typ})
}

func (T *Terms) existsClosed(n, c *Term) *Term {
	if v, ok := n.isInt(); ok && v <= 0 {
		return T.Bool(false)
	}
	if b, ok := c.isBool(); ok {
		if !b {
			return c
		}
		return T.Lt(T.Int(0), n)
	}
	if c.loose == 0 {
		return T.And([]*Term{T.Lt(T.Int(0), n), c})
	}
	if c.loose == 1 && n.loose == 0 {
		T.nfresh++
		k := T.mk(Term{op: "idx", name: "w", n: T.nfresh})
		if t := T.overFlat(n, k, T.open(c, k)); t != nil {
			return t
		}
	}
	return T.mk(Term{op: "exists", args: []*Term{n, c}})
}

func (T *Terms) sumClosed(kind string, n, body, old *Term) *Term {
	zero := T.Int(0)
	if kind == "float" {
		zero = T.Float(0)
	}
	if v, ok := n.isInt(); ok && v <= 0 || body == zero {
		return zero
	}
	if v, ok := n.isInt(); ok && v == 1 {
		return T.open(body, T.Int(0))
	}
	return T.mk(Term{op: "sum", name: kind, args: []*Term{n, body}})
}
