package main

// Boolean guards are kept canonical: a guard is a conjunction of literals and,
// when that is not enough, one ordered decision graph ("ite" terms).

import (
	"go/constant"
	"go/types"
	"sort"
)

type bnode struct {
	id     int
	atom   *Term
	hi, lo *bnode
}

type bddTab struct {
	tab    map[[3]int]*bnode
	t, f   *bnode
	n      int
	fromT  map[*Term]*bnode
	toT    map[*bnode]*Term
	forced map[*bnode]map[*Term]bool
	ops    map[[3]int]*bnode
}

func newBdd() *bddTab {
	b := &bddTab{tab: map[[3]int]*bnode{}, fromT: map[*Term]*bnode{}, toT: map[*bnode]*Term{}, forced: map[*bnode]map[*Term]bool{}, ops: map[[3]int]*bnode{}}
	b.f = &bnode{id: 0}
	b.t = &bnode{id: 1}
	b.n = 2
	return b
}

func (b *bddTab) node(a *Term, hi, lo *bnode) *bnode {
	if hi == lo {
		return hi
	}
	if concreteIs(a) {
		// a value has one kind only
		hi = b.without(hi, a, nil)
		if b.without(lo, a, nil) == hi {
			return lo
		}
	}
	k := [3]int{a.id, hi.id, lo.id}
	if x := b.tab[k]; x != nil {
		return x
	}
	x := &bnode{id: b.n, atom: a, hi: hi, lo: lo}
	b.n++
	b.tab[k] = x
	return x
}

func concreteIs(a *Term) bool {
	if a.op != "typeis" || a.typ == nil {
		return false
	}
	_, iface := a.typ.Underlying().(*types.Interface)
	return !iface
}

// without: x given that a holds, so that no other kind of the same value does.
func (b *bddTab) without(x *bnode, a *Term, memo map[*bnode]*bnode) *bnode {
	if x.atom == nil {
		return x
	}
	if memo == nil {
		memo = map[*bnode]*bnode{}
	}
	if r := memo[x]; r != nil {
		return r
	}
	var r *bnode
	if o := x.atom; o != a && concreteIs(o) && o.args[0] == a.args[0] && !types.Identical(o.typ, a.typ) {
		r = b.without(x.lo, a, memo)
	} else {
		r = b.node(o, b.without(x.hi, a, memo), b.without(x.lo, a, memo))
	}
	memo[x] = r
	return r
}

func (b *bddTab) cof(x *bnode, a *Term) (hi, lo *bnode) {
	if x.atom == a {
		return x.hi, x.lo
	}
	return x, x
}

// ite(c, x, y) over decision graphs.
func (b *bddTab) ite(c, x, y *bnode) *bnode {
	switch {
	case c == b.t || x == y:
		return x
	case c == b.f:
		return y
	case x == b.t && y == b.f:
		return c
	}
	k := [3]int{c.id, x.id, y.id}
	if r := b.ops[k]; r != nil {
		return r
	}
	a := c.atom
	for _, o := range []*bnode{x, y} {
		if o.atom != nil && o.atom.id < a.id {
			a = o.atom
		}
	}
	ch, cl := b.cof(c, a)
	xh, xl := b.cof(x, a)
	yh, yl := b.cof(y, a)
	r := b.node(a, b.ite(ch, xh, yh), b.ite(cl, xl, yl))
	b.ops[k] = r
	return r
}

func (b *bddTab) and(x, y *bnode) *bnode { return b.ite(x, y, b.f) }
func (b *bddTab) or(x, y *bnode) *bnode  { return b.ite(x, b.t, y) }
func (b *bddTab) not(x *bnode) *bnode    { return b.ite(x, b.f, b.t) }

func isBoolTerm(t *Term) bool {
	switch t.op {
	case "const":
		return t.c.Kind() == constant.Bool
	case "pos", "eq0", "eq", "isnil", "not", "and", "ite", "typeis", "exists", "forall", "cmp":
		return true
	}
	return false
}

func (T *Terms) toBdd(t *Term) *bnode {
	b := T.bdd
	if x := b.fromT[t]; x != nil {
		return x
	}
	var r *bnode
	switch t.op {
	case "const":
		if constant.BoolVal(t.c) {
			r = b.t
		} else {
			r = b.f
		}
	case "not":
		r = b.not(T.toBdd(t.args[0]))
	case "and":
		r = b.t
		for _, a := range t.args {
			r = b.and(r, T.toBdd(a))
		}
	case "ite":
		r = b.ite(T.toBdd(t.args[0]), T.toBdd(t.args[1]), T.toBdd(t.args[2]))
	default:
		r = b.node(t, b.t, b.f)
	}
	b.fromT[t] = r
	return r
}

// forcedLits: literals (signed by presence in the map value) true in every model.
func (b *bddTab) forcedLits(x *bnode) map[*Term]bool {
	if x == b.t || x == b.f {
		return nil
	}
	if m, ok := b.forced[x]; ok {
		return m
	}
	m := map[*Term]bool{}
	switch {
	case x.lo == b.f:
		m[x.atom] = true
		for k, v := range b.forcedLits(x.hi) {
			m[k] = v
		}
	case x.hi == b.f:
		m[x.atom] = false
		for k, v := range b.forcedLits(x.lo) {
			m[k] = v
		}
	default:
		l := b.forcedLits(x.lo)
		for k, v := range b.forcedLits(x.hi) {
			if w, ok := l[k]; ok && w == v {
				m[k] = v
			}
		}
	}
	b.forced[x] = m
	return m
}

func (b *bddTab) restrict(x *bnode, m map[*Term]bool) *bnode {
	memo := map[*bnode]*bnode{}
	var rec func(x *bnode) *bnode
	rec = func(x *bnode) *bnode {
		if x == b.t || x == b.f {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *bnode
		if v, ok := m[x.atom]; ok {
			if v {
				r = rec(x.hi)
			} else {
				r = rec(x.lo)
			}
		} else {
			r = b.node(x.atom, rec(x.hi), rec(x.lo))
		}
		memo[x] = r
		return r
	}
	return rec(x)
}

func (T *Terms) fromBdd(x *bnode) *Term {
	b := T.bdd
	if x == b.t {
		return T.Bool(true)
	}
	if x == b.f {
		return T.Bool(false)
	}
	if t := b.toT[x]; t != nil {
		return t
	}
	var t *Term
	m := b.forcedLits(x)
	if len(m) > 0 {
		var l []*Term
		for a, v := range m {
			if !v {
				a = T.mk(Term{op: "not", args: []*Term{a}})
			}
			l = append(l, a)
		}
		rest := b.restrict(x, m)
		if rest != b.t {
			l = append(l, T.fromBdd(rest))
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		if len(l) == 1 {
			t = l[0]
		} else {
			t = T.mk(Term{op: "and", args: l})
		}
	} else {
		t = T.mk(Term{op: "ite", args: []*Term{x.atom, T.fromBdd(x.hi), T.fromBdd(x.lo)}})
	}
	b.toT[x] = t
	return t
}

func (T *Terms) Not(a *Term) *Term {
	if b, ok := a.isBool(); ok {
		return T.Bool(!b)
	}
	if a.op == "not" {
		return a.args[0]
	}
	if a.op == "and" || a.op == "ite" {
		return T.fromBdd(T.bdd.not(T.toBdd(a)))
	}
	return T.mk(Term{op: "not", args: []*Term{a}})
}

func (T *Terms) And(cs []*Term) *Term {
	if len(cs) == 1 {
		return cs[0]
	}
	r := T.bdd.t
	for _, c := range cs {
		r = T.bdd.and(r, T.toBdd(c))
	}
	return T.fromBdd(r)
}

func (T *Terms) Or(cs ...*Term) *Term {
	r := T.bdd.f
	for _, c := range cs {
		r = T.bdd.or(r, T.toBdd(c))
	}
	return T.fromBdd(r)
}

func (T *Terms) orGuard(a, b *Term) *Term { return T.Or(a, b) }

func (T *Terms) Ite(c, x, y *Term) *Term {
	return T.fromBdd(T.bdd.ite(T.toBdd(c), T.toBdd(x), T.toBdd(y)))
}
