package main

// The value domain: what an expression term denotes as a real-valued matrix,
// computed by structural rules over value-graph terms. Operations that the
// library implements elsewhere (Plus, Multiply, ...) are replaced by their
// specification; each of them is itself compared against that specification.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
)

type denErr struct{ msg string }

type Den struct {
	points    []*Term // the entry being compared
	shapeArgs []*Term
	e         *Engine
	T         *Terms
	D         *Decider
	local     map[*Term]bool // indices introduced by the domain itself
	depth     int
	literal   *Term // a simplified polynomial taken as it stands
	noFold    bool
	mode      int
	accs      map[*Term]*MV
	acc       map[*Term]bool // accumulator atoms of the loop being measured
	canon     map[*Term]*Term
	extra     func(d *Den, t *Term, f *Facts) *Poly // property specific call semantics
}

func NewDen(e *Engine) *Den {
	return &Den{e: e, T: e.T, D: e.D, local: map[*Term]bool{}, acc: map[*Term]bool{}, accs: map[*Term]*MV{}}
}

func (d *Den) fail(format string, a ...any) { panic(denErr{fmt.Sprintf(format, a...)}) }

func (d *Den) try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(denErr); ok {
				msg = x.msg
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

func (d *Den) idx() *Term {
	k := d.e.newIdx()
	d.local[k] = true
	return k
}

func (d *Den) under(f *Facts, k, n *Term) *Facts {
	g := f.clone()
	d.D.Assume(d.T.Lt(k, n), true, g)
	return g
}

// ---- normalisation of terms under facts -----------------------------------

// onlyTerm: a simplified polynomial has at most one term (so exactly one).
func onlyTerm(T *Terms, k *Term, f *Facts) bool {
	if k.op != "pos" || f.m[k] {
		return false
	}
	m, c := T.linParts(k.args[0])
	for a, co := range m {
		if len(m) != 1 || co != 1 || c != -1 || !termsOfSimplified(a) {
			return false
		}
	}
	return len(m) == 1
}

// eqSubst lists the integer equations the facts provide.
func (d *Den) eqSubst(f *Facts) map[*Term]*Term {
	T := d.T
	sub := map[*Term]*Term{}
	for _, k := range f.order {
		if (k.op != "eq0" || !f.m[k]) && !onlyTerm(T, k, f) {
			continue
		}
		l := d.applyEq(k.args[0], sub)
		m, c := T.linParts(l)
		var piv *Term
		rank := func(a *Term) int {
			switch a.op {
			case "idx":
				return 0
			case "sym":
				return 1
			case "len":
				return 2
			}
			return 3
		}
		for a, co := range m {
			if (co != 1 && co != -1) || d.local[a] {
				continue
			}
			if piv == nil || rank(a) > rank(piv) || rank(a) == rank(piv) && a.id > piv.id {
				piv = a
			}
		}
		if piv == nil {
			continue
		}
		co := m[piv]
		delete(m, piv)
		for a := range m {
			m[a] *= -co
		}
		sol := T.mkLin(m, -co*c)
		if contains(sol, piv) {
			continue
		}
		for a, s := range sub {
			sub[a] = d.applyEq(s, map[*Term]*Term{piv: sol})
		}
		sub[piv] = sol
	}
	return sub
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

func (d *Den) applyEq(t *Term, sub map[*Term]*Term) *Term {
	if len(sub) == 0 {
		return t
	}
	return d.T.Rewrite(t, func(x *Term) *Term {
		if s, ok := sub[x]; ok {
			return s
		}
		return nil
	})
}

// norm rewrites a term by equalities and prunes impossible alternatives.
func (d *Den) norm(t *Term, f *Facts) *Term {
	sub := d.eqSubst(f)
	d.findZero(f, sub)
	for i := 0; i < 3; i++ {
		n := d.prune(d.applyEq(t, sub), f)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// findZero: an index FindInSlice found in a list with one entry is zero.
func (d *Den) findZero(f *Facts, sub map[*Term]*Term) {
	T := d.T
	for _, k := range f.order {
		if k.op != "eq0" && k.op != "pos" || k.op == "eq0" && f.m[k] {
			continue
		}
		m, _ := T.linParts(k.args[0])
		for a := range m {
			if findIndex(a) == nil || sub[a] != nil {
				continue
			}
			if d.D.Decide(T.EqInt(a, T.Int(0)), f) == yes {
				z := map[*Term]*Term{a: T.Int(0)}
				more := map[*Term]*Term{a: T.Int(0)}
				for x, y := range sub {
					more[d.applyEq(x, z)] = d.applyEq(y, z)
				}
				for x, y := range more {
					if x != y && sub[x] == nil {
						sub[x] = y
					}
				}
			}
		}
	}
}

// prune resolves choices and list accesses decided by the facts, at any depth
// outside binders.
func (d *Den) prune(t *Term, f *Facts) *Term {
	T := d.T
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "choice" {
			var gs, vs []*Term
			for i := 0; i+1 < len(t.args); i += 2 {
				g := t.args[i]
				if g.loose == 0 {
					if d.D.Decide(g, f) == no {
						continue
					}
					g = d.simpGuard(g, f)
				}
				gs = append(gs, g)
				vs = append(vs, rec(t.args[i+1]))
			}
			if len(vs) == 0 {
				r = t
			} else {
				r = T.Choice(gs, vs)
			}
		} else {
			r = T.rebuild(t, func(i int, a *Term) *Term {
				if i >= firstBound(t) && a.loose > 0 {
					return a
				}
				return rec(a)
			})
			if r.op == "elem" && r.args[0].loose == 0 && r.args[1].loose == 0 {
				if x := d.elem(r.args[0], r.args[1], r.typ, f); x != r {
					r = x
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (d *Den) simpGuard(g *Term, f *Facts) *Term {
	switch g.op {
	case "and", "ite", "not":
		return d.T.fromBdd(d.D.reduce(d.T.toBdd(g), f))
	}
	return g
}

// elem resolves list accesses by the facts.
func (d *Den) elem(l, i *Term, typ types.Type, f *Facts) *Term {
	T := d.T
	x := T.Elem(l, i, typ)
	if x.op != "elem" {
		return x
	}
	l, i = x.args[0], x.args[1]
	dec := func(c *Term) tri { return d.D.Decide(c, f) }
	switch l.op {
	case "app":
		a := l.args[0]
		rest := T.App(l.args[1:]...)
		la := T.Len(a)
		switch dec(T.Lt(i, la)) {
		case yes:
			return d.elem(a, i, typ, f)
		case no:
			return d.elem(rest, T.Add(i, la, -1), typ, f)
		}
		c := T.Lt(i, la)
		return T.Choice([]*Term{c, T.Not(c)}, []*Term{d.elem(a, i, typ, f), d.elem(rest, T.Add(i, la, -1), typ, f)})
	case "set":
		c := T.EqInt(l.args[1], i)
		switch dec(c) {
		case yes:
			return l.args[2]
		case no:
			return d.elem(l.args[0], i, typ, f)
		}
		return T.Choice([]*Term{c, T.Not(c)}, []*Term{l.args[2], d.elem(l.args[0], i, typ, f)})
	case "flat":
		if b := l.args[1]; b.op == "map" && b.args[1].loose == 0 {
			return b.args[1]
		}
		if y := d.D.flatElem(l, i, typ, f); y != nil {
			return y
		}
	case "upd":
		c := T.Lt(i, l.args[1])
		switch dec(c) {
		case yes:
			return d.elem(l.args[2], i, typ, f)
		case no:
			return d.elem(l.args[0], i, typ, f)
		}
		return T.Choice([]*Term{c, T.Not(c)}, []*Term{d.elem(l.args[2], i, typ, f), d.elem(l.args[0], i, typ, f)})
	case "lit":
		if len(l.args) > 0 && len(l.args) <= 4 {
			var gs, vs []*Term
			for n, v := range l.args {
				c := T.EqInt(i, T.Int(int64(n)))
				if dec(c) == no {
					continue
				}
				gs = append(gs, c)
				vs = append(vs, v)
			}
			if len(vs) == 1 {
				return vs[0]
			}
			if len(vs) > 1 {
				return T.Choice(gs, vs)
			}
		}
	}
	return x
}

// ---- case splitting --------------------------------------------------------

type caseT struct {
	f  *Facts
	ts []*Term
	g  []*Term
}

// splittable finds a choice whose guards mention no bound variable.
func (d *Den) splittable(t *Term, seen map[*Term]bool) *Term {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if t.op == "choice" {
		ok := true
		for i := 0; i < len(t.args); i += 2 {
			if t.args[i].loose > 0 {
				ok = false
			}
		}
		if ok {
			return t
		}
	}
	for _, a := range t.args {
		if c := d.splittable(a, seen); c != nil {
			return c
		}
	}
	return nil
}

func (d *Den) cases(ts []*Term, f *Facts, limit int) []caseT {
	T := d.T
	var out []caseT
	var rec func(ts []*Term, f *Facts, g []*Term)
	rec = func(ts []*Term, f *Facts, g []*Term) {
		if len(out) > limit {
			d.fail("too many cases")
		}
		nt := make([]*Term, len(ts))
		for i, t := range ts {
			nt[i] = d.norm(t, f)
		}
		var ch *Term
		for _, t := range nt {
			if ch = d.splittable(t, map[*Term]bool{}); ch != nil {
				break
			}
		}
		if ch == nil {
			out = append(out, caseT{f, nt, g})
			return
		}
		for i := 0; i+1 < len(ch.args); i += 2 {
			for _, gd := range disjuncts(T, ch.args[i]) {
				nf := f.clone()
				if !d.D.Assume(gd, true, nf) {
					continue
				}
				v := ch.args[i+1]
				var n2 []*Term
				for _, t := range nt {
					n2 = append(n2, T.Rewrite(t, func(x *Term) *Term {
						if x == ch {
							return v
						}
						return nil
					}))
				}
				rec(n2, nf, append(append([]*Term{}, g...), gd))
			}
		}
	}
	rec(ts, f, nil)
	return out
}

// disjuncts splits a guard into exclusive conjunctions of literals.
func disjuncts(T *Terms, g *Term) []*Term {
	if g.op != "ite" && g.op != "and" {
		return []*Term{g}
	}
	b := T.bdd
	var out []*Term
	var rec func(x *bnode, l []*Term)
	rec = func(x *bnode, l []*Term) {
		switch x {
		case b.t:
			out = append(out, T.And(append([]*Term{}, l...)))
			return
		case b.f:
			return
		}
		rec(x.hi, append(append([]*Term{}, l...), x.atom))
		rec(x.lo, append(append([]*Term{}, l...), T.Not(x.atom)))
	}
	rec(T.toBdd(g), nil)
	if len(out) > 24 {
		return []*Term{g}
	}
	return out
}

// ---- conditions as indicator polynomials -----------------------------------

func (d *Den) indicator(c *Term, f *Facts) *Poly {
	T := d.T
	switch d.D.Decide(c, f) {
	case yes:
		return pint(1)
	case no:
		return pint(0)
	}
	b := T.bdd
	memo := map[*bnode]*Poly{}
	var rec func(x *bnode) *Poly
	rec = func(x *bnode) *Poly {
		if x == b.t {
			return pint(1)
		}
		if x == b.f {
			return pint(0)
		}
		if p, ok := memo[x]; ok {
			return p
		}
		a := d.indAtom(x.atom, f)
		hi, lo := rec(x.hi), rec(x.lo)
		r := padd(pmul(a, hi), pmul(padd(pint(1), a, -1), lo), 1)
		memo[x] = r
		return r
	}
	return rec(b0(T.toBdd(c)))
}

// isZeroInd is the indicator of p = 0.
func (d *Den) isZeroInd(p *Poly) *Poly {
	T := d.T
	if v, ok := p.isConst(); ok {
		return pint(int64(b2i(v.Sign() == 0)))
	}
	if i := p.firstInd(); i != nil {
		x := patom(i)
		return padd(pmul(x, d.isZeroInd(p.setAtom(i, 1))), pmul(padd(pint(1), x, -1), d.isZeroInd(p.setAtom(i, 0))), 1)
	}
	if m := p.single(); m != nil && len(m.f) > 1 {
		pos := true
		for _, x := range m.f {
			if v, ok := x.e.isConst(); !ok || v.Sign() <= 0 {
				pos = false
			}
		}
		if pos {
			r := pint(1)
			for _, x := range m.f {
				r = pmul(r, padd(pint(1), d.isZeroInd(patom(x.a)), -1))
			}
			return padd(pint(1), r, -1)
		}
	}
	p = pscale(p, new(big.Rat).Inv(p.monos()[0].c))
	return patom(T.mk(Term{op: "ind", args: []*Term{T.mk(Term{op: "fz", args: []*Term{T.PolyTerm(p)}})}}))
}

// isPosInd is the indicator of p > 0.
func (d *Den) isPosInd(p *Poly) *Poly {
	T := d.T
	if v, ok := p.isConst(); ok {
		return pint(int64(b2i(v.Sign() > 0)))
	}
	if i := p.firstInd(); i != nil {
		x := patom(i)
		return padd(pmul(x, d.isPosInd(p.setAtom(i, 1))), pmul(padd(pint(1), x, -1), d.isPosInd(p.setAtom(i, 0))), 1)
	}
	p = pscale(p, new(big.Rat).Inv(new(big.Rat).Abs(p.monos()[0].c)))
	return patom(T.mk(Term{op: "ind", args: []*Term{T.mk(Term{op: "fpos", args: []*Term{T.PolyTerm(p)}})}}))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// firstInd: an indicator atom of p, if any.
func (p *Poly) firstInd() *Term {
	for _, m := range p.monos() {
		for _, x := range m.f {
			if x.a.op == "ind" {
				return x.a
			}
		}
	}
	return nil
}

func b0(x *bnode) *bnode { return x }

func (d *Den) indAtom(c *Term, f *Facts) *Poly {
	T := d.T
	switch d.D.Decide(c, f) {
	case yes:
		return pint(1)
	case no:
		return pint(0)
	}
	switch c.op {
	case "eq0":
		if m, k := T.linParts(c.args[0]); k == 0 && len(m) == 2 {
			var a, b *Term
			for x, n := range m {
				if n == 1 {
					a = x
				} else if n == -1 {
					b = x
				}
			}
			if a != nil && b != nil {
				if a.id > b.id {
					a, b = b, a
				}
				if x := d.idTest(a, b, f); x != nil {
					return d.indicator(x, f)
				}
			}
		}
	case "eq":
		if isNumTerm(c.args[0]) || isNumTerm(c.args[1]) {
			p := padd(d.float(c.args[0], f), d.float(c.args[1], f), -1)
			if v, ok := p.isConst(); ok {
				if v.Sign() == 0 {
					return pint(1)
				}
				return pint(0)
			}
			return d.isZeroInd(p)
		}
	case "cmp":
		p := padd(d.float(c.args[1], f), d.float(c.args[0], f), -1)
		if v, ok := p.isConst(); ok {
			if v.Sign() > 0 {
				return pint(1)
			}
			return pint(0)
		}
		return d.isPosInd(p)
	case "typeis":
		if c.args[0].op == "call" {
			if ks := d.e.callKinds(c.args[0]); len(ks) > 1 {
				// the last possible kind is the complement of the others
				var last types.Type
				in := false
				for _, k := range ks {
					last = k
					if types.Identical(k, c.typ) {
						in = true
					}
				}
				if !in && !types.IsInterface(c.typ) {
					return pint(0)
				}
				if in && types.Identical(last, c.typ) {
					r := pint(1)
					for _, k := range ks[:len(ks)-1] {
						r = padd(r, d.indAtom(T.TypeIs(c.args[0], k), f), -1)
					}
					return r
				}
			}
		}
	case "pos":
		// indices of the domain: keep as they are
	}
	return patom(T.mk(Term{op: "ind", args: []*Term{c}}))
}

// idTest turns "entry k of a duplicate-free list has the identifier of x" into
// "k is the index FindInSlice(x, list) returns".
func (d *Den) idTest(p, q *Term, f *Facts) *Term {
	T := d.T
	for i := 0; i < 2; i++ {
		a, b := p, q
		if i == 1 {
			a, b = q, p
		}
		if a.op != "field" || b.op != "field" || a.name != "ID" || b.name != "ID" {
			return nil
		}
		e, x := a.args[0], b.args[0]
		if e.op != "elem" || !distinctList(e.args[0]) || x == e {
			continue
		}
		// prefer the entry with the bound index
		if i == 0 && x.op == "elem" && distinctList(x.args[0]) && d.local[x.args[1]] && !d.local[e.args[1]] {
			continue
		}
		// otherwise the list that is stored rather than computed
		if i == 0 && x.op == "elem" && distinctList(x.args[0]) && d.local[x.args[1]] == d.local[e.args[1]] && e.args[0].op == "call" && x.args[0].op != "call" {
			continue
		}
		return T.EqInt(d.mkFind(x, e.args[0]), e.args[1])
	}
	return nil
}

func isNumTerm(t *Term) bool {
	if t.op == "const" {
		return t.c.Kind() == constant.Float || t.c.Kind() == constant.Int
	}
	return t.typ != nil && isFloat(t.typ)
}

// ---- real-valued terms -------------------------------------------------------

func (d *Den) enter() func() {
	d.depth++
	if d.depth > 60 {
		d.depth = 0
		d.fail("value domain recursion too deep")
	}
	return func() { d.depth-- }
}

// integer term as a polynomial
func (d *Den) integer(t *Term, f *Facts) *Poly {
	T := d.T
	t = d.norm(t, f)
	var rec func(t *Term) *Poly
	rec = func(t *Term) *Poly {
		switch t.op {
		case "lin":
			r := pint(t.c0)
			for i, a := range t.args {
				r = padd(r, rec(a), t.coefs[i])
			}
			return r
		case "choice":
			r := pint(0)
			for i := 0; i+1 < len(t.args); i += 2 {
				r = padd(r, pmul(d.indicator(t.args[i], f), rec(t.args[i+1])), 1)
			}
			return r
		case "imul":
			return pmul(rec(t.args[0]), rec(t.args[1]))
		case "sum":
			return d.sumTerm(t, f, func(b *Term, g *Facts) *Poly { return d.integer(b, g) })
		}
		if x := d.elemAtom(t, f); x != nil {
			return rec(x)
		}
		if p := d.listEntry(t, f, d.integer); p != nil {
			return p
		}
		if t.op == "elem" && quantified(f) {
			if d.D.Decide(T.EqInt(t, T.Int(0)), f) == yes {
				return pint(0)
			}
		}
		return patom(T.mk(Term{op: "tofloat", args: []*Term{t}, typ: types.Typ[types.Float64]}))
	}
	return rec(t)
}

// quantified: the facts say something about every entry of a list.
func quantified(f *Facts) bool {
	for _, k := range f.order {
		if k.op == "exists" && !f.m[k] || k.op == "forall" && f.m[k] {
			return true
		}
	}
	return false
}

func (d *Den) elemAtom(t *Term, f *Facts) *Term {
	if t.op != "elem" {
		return nil
	}
	if x := d.elem(t.args[0], t.args[1], t.typ, f); x != t {
		return x
	}
	return nil
}

func (d *Den) sumTerm(t *Term, f *Facts, body func(b *Term, g *Facts) *Poly) *Poly {
	return d.Sum(t.args[0], f, func(k *Term, g *Facts) *Poly {
		return body(d.norm(d.T.open(t.args[1], k), g), g)
	})
}

func (d *Den) float(t *Term, f *Facts) *Poly {
	defer d.enter()()
	T := d.T
	switch t.op {
	case "const":
		if r := ratOf(t.c); r != nil {
			return pconst(r)
		}
		d.fail("non numeric constant")
	case "bin":
		a, b := d.float(t.args[0], f), d.float(t.args[1], f)
		switch t.name {
		case "+":
			return padd(a, b, 1)
		case "-":
			return padd(a, b, -1)
		case "*":
			return pmul(a, b)
		case "/":
			if v, ok := b.isConst(); ok && v.Sign() != 0 {
				return pscale(a, new(big.Rat).Inv(v))
			}
			if i := pinv(b); i != nil {
				return pmul(a, i)
			}
			return pmul(a, patom(T.mk(Term{op: "inv", args: []*Term{T.PolyTerm(b)}})))
		}
		d.fail("operator %s", t.name)
	case "choice":
		r := pint(0)
		for i := 0; i+1 < len(t.args); i += 2 {
			g := d.indicator(t.args[i], f)
			if g.isZero() {
				continue
			}
			r = padd(r, pmul(g, d.float(t.args[i+1], f)), 1)
		}
		return r
	case "tofloat":
		return d.integer(t.args[0], f)
	case "lin":
		return d.integer(t, f)
	case "sum":
		return d.sumTerm(t, f, d.float)
	case "prod":
		return d.Prod(t.args[0], f, func(k *Term, g *Facts) *Poly {
			return d.float(d.norm(T.open(t.args[1], k), g), g)
		})
	case "elem":
		if x := d.elemAtom(t, f); x != nil {
			return d.float(x, f)
		}
		if x := d.entryOf(t, f); x != nil {
			return x
		}
	case "assert":
		return d.scalar(t.args[0], f)
	case "poly", "mono", "pw":
		return d.parse(t, f)
	case "fold":
		if p := d.foldValue(t, f, d.float); p != nil {
			return p
		}
	case "call":
		if d.extra != nil {
			if p := d.extra(d, t, f); p != nil {
				return p
			}
		}
		if t.name == "Constant" && len(t.args) == 1 && t.args[0].op == "iface" {
			if typeShort(t.args[0].typ) == "K" {
				return d.float(t.args[0].args[0], f)
			}
		}
	}
	if t.typ != nil {
		// K and float64 are read alike
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b != t.typ && b.Kind() == types.Float64 {
			t = T.mk(Term{op: t.op, name: t.name, args: t.args, typ: types.Typ[types.Float64], c: t.c, coefs: t.coefs, c0: t.c0, n: t.n})
		}
	}
	return patom(t)
}

// entryOf gives entries of numeric lists returned by operations.
func (d *Den) entryOf(t *Term, f *Facts) *Poly {
	l := t.args[0]
	if l.op == "call" && d.extra != nil {
		return d.extra(d, t, f)
	}
	return nil
}

func ratOf(c constant.Value) *big.Rat {
	c = constant.ToFloat(c)
	if c.Kind() != constant.Float {
		return nil
	}
	r := new(big.Rat)
	if _, ok := r.SetString(c.ExactString()); ok {
		return r
	}
	return nil
}

// parse reads an encoded polynomial back, renormalising its atoms.
func (d *Den) parse(t *Term, f *Facts) *Poly {
	if t.op != "poly" {
		if t.op == "mono" || t.op == "pw" {
			d.fail("stray encoding")
		}
		return d.atom(t, f)
	}
	r := pint(0)
	for _, m := range t.args {
		c, _ := new(big.Rat).SetString(m.name)
		p := pconst(c)
		for _, w := range m.args {
			b := d.atom(w.args[0], f)
			e := d.parse(w.args[1], f)
			p = pmul(p, d.T.ppowP(b, e))
		}
		r = padd(r, p, 1)
	}
	return r
}

// atom renormalises one atom.
func (d *Den) atom(t *Term, f *Facts) *Poly {
	T := d.T
	switch t.op {
	case "X":
		return d.X(d.normID(t.args[0], f))
	case "form":
		return d.form(d.norm(t.args[0], f), d.norm(t.args[1], f), f)
	case "ind":
		c := t.args[0]
		switch c.op {
		case "fz":
			p := d.parse(c.args[0], f)
			if v, ok := p.isConst(); ok {
				if v.Sign() == 0 {
					return pint(1)
				}
				return pint(0)
			}
			return d.isZeroInd(p)
		case "fpos":
			p := d.parse(c.args[0], f)
			if v, ok := p.isConst(); ok {
				if v.Sign() > 0 {
					return pint(1)
				}
				return pint(0)
			}
			return d.isPosInd(p)
		}
		return d.indicator(c, f)
	case "psum":
		return d.Sum(t.args[0], f, func(k *Term, g *Facts) *Poly { return d.parse(T.open(t.args[1], k), g) })
	case "pprod":
		return d.Prod(t.args[0], f, func(k *Term, g *Facts) *Poly { return d.parse(T.open(t.args[1], k), g) })
	case "val":
		return d.scalar(t.args[0], f)
	case "inv":
		b := d.parse(t.args[0], f)
		if i := pinv(b); i != nil {
			return i
		}
		return patom(T.mk(Term{op: "inv", args: []*Term{T.PolyTerm(b)}}))
	case "pbox":
		return patom(T.mk(Term{op: "pbox", args: []*Term{T.PolyTerm(d.parse(t.args[0], f))}}))
	}
	return d.float(t, f)
}

// X is the value of the variable with the given identifier.
func (d *Den) X(id *Term) *Poly { return patom(d.T.mk(Term{op: "X", args: []*Term{id}})) }

// ---- finite sums and products -----------------------------------------------

// Sum of g(k) for 0 <= k < n, in normal form.
func (d *Den) Sum(n *Term, f *Facts, g func(k *Term, f *Facts) *Poly) *Poly {
	defer d.enter()()
	T := d.T
	n = d.norm(n, f)
	if v, ok := n.isInt(); ok {
		if v > 32 {
			d.fail("long literal sum")
		}
		r := pint(0)
		for i := int64(0); i < v; i++ {
			r = padd(r, g(T.Int(i), f), 1)
		}
		return r
	}
	if n.op == "choice" {
		r := pint(0)
		for i := 0; i+1 < len(n.args); i += 2 {
			h := f.clone()
			if !d.D.Assume(n.args[i], true, h) {
				continue
			}
			r = padd(r, pmul(d.indicator(n.args[i], f), d.Sum(n.args[i+1], h, g)), 1)
		}
		return r
	}
	// telescoping of constant offsets
	m, c := T.linParts(n)
	base := T.mkLin(m, 0)
	if c > 0 && c <= 8 && d.D.Decide(T.Lt(base, T.Int(0)), f) == no {
		r := d.Sum(base, f, g)
		for j := int64(0); j < c; j++ {
			r = padd(r, g(T.Add(base, T.Int(j), 1), f), 1)
		}
		return r
	}
	if c < 0 && c >= -8 && d.D.Decide(T.Lt(n, T.Int(0)), f) == no {
		r := d.Sum(base, f, g)
		for j := c; j < 0; j++ {
			r = padd(r, g(T.Add(base, T.Int(j), 1), f), -1)
		}
		return r
	}
	if len(m) > 1 && c == 0 {
		// a sum of lengths: split at the first
		var as []*Term
		okAll := true
		for a, k := range m {
			if k != 1 || !(nonNeg(a) || d.D.Decide(T.Lt(a, T.Int(0)), f) == no) {
				okAll = false
			}
			as = append(as, a)
		}
		if okAll {
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			r := pint(0)
			off := T.Int(0)
			for _, a := range as {
				o := off
				r = padd(r, d.Sum(a, f, func(k *Term, h *Facts) *Poly { return g(T.Add(k, o, 1), h) }), 1)
				off = T.Add(off, a, 1)
			}
			return r
		}
	}
	k := d.idx()
	h := d.under(f, k, n)
	if h.bad {
		return pint(0)
	}
	body := g(k, h)
	if s := shiftOf(T, body, k); s > 0 && s <= 4 && d.D.Decide(T.Lt(n, T.Int(0)), f) == no {
		// every entry is read at k+s: count from s instead
		n2 := T.Add(n, T.Int(s), 1)
		r := d.Sum(n2, f, func(x *Term, g *Facts) *Poly { return d.substPoly(body, k, T.Add(x, T.Int(s), -1), g) })
		for j := int64(0); j < s; j++ {
			r = padd(r, d.substPoly(body, k, T.Int(j-s), f), -1)
		}
		return r
	}
	return d.sumOver(n, k, body, f)
}

// shiftOf: k only occurs as k+s (0 if not).
func shiftOf(T *Terms, p *Poly, k *Term) int64 {
	s := int64(-1)
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.free[k] {
			return
		}
		seen[t] = true
		if t == k {
			ok = false
			return
		}
		if t.op == "lin" {
			for i, a := range t.args {
				if a == k {
					if t.coefs[i] != 1 || t.c0 <= 0 || s >= 0 && s != t.c0 {
						ok = false
					}
					s = t.c0
				} else {
					rec(a)
				}
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	var poly func(p *Poly)
	poly = func(p *Poly) {
		for _, m := range p.monos() {
			for _, x := range m.f {
				rec(x.a)
				poly(x.e)
			}
		}
	}
	poly(p)
	if !ok || s < 0 {
		return 0
	}
	return s
}

func (d *Den) sumOver(n, k *Term, body *Poly, f *Facts) *Poly {
	T := d.T
	r := pint(0)
	if !d.noFold && n.op == "len" && n.args[0].op == "fold" {
		if p := d.sumFold(n.args[0], f, func(j *Term, g *Facts) *Poly { return d.substPoly(body, k, j, g) }); p != nil {
			return p
		}
	}
	if v, ok := n.isInt(); ok && v <= 8 {
		for i := int64(0); i < v; i++ {
			r = padd(r, d.substPoly(body, k, T.Int(i), f), 1)
		}
		return r
	}
	// positions the facts exclude contribute nothing
	for _, x := range f.order {
		if x.op != "exists" || f.m[x] || x.loose > 0 {
			continue
		}
		if nn := d.norm(x.args[0], f); nn == n {
			h := d.under(f.without(x), k, n)
			body = pmul(body, padd(pint(1), d.indicator(d.norm(T.open(x.args[1], k), h), h), -1))
		}
	}
	for _, m := range body.monos() {
		var in, out []fac
		var kron *Term
		for _, x := range m.f {
			if x.a.free[k] || x.e.free(k) {
				if x.a.op == "ind" && x.a.args[0].op == "eq0" && kron == nil {
					if i := solveFor(T, x.a.args[0].args[0], k); i != nil {
						kron = i
						continue
					}
				}
				in = append(in, x)
			} else {
				out = append(out, x)
			}
		}
		o := pmono(m.c, out)
		switch {
		case kron != nil:
			p := d.substPoly(pmono(big.NewRat(1, 1), in), k, kron, f)
			rng := pmul(d.indicator(T.Lt(kron, n), f), d.indicator(T.Not(T.Lt(kron, T.Int(0))), f))
			r = padd(r, pmul(o, pmul(rng, p)), 1)
		case len(in) == 0:
			r = padd(r, pmul(o, d.integer(n, f)), 1)
		default:
			b := T.closePoly(pmono(big.NewRat(1, 1), in), k)
			r = padd(r, pmul(o, patom(T.mk(Term{op: "psum", args: []*Term{n, b}}))), 1)
		}
	}
	return r
}

// solveFor: the value of k that makes lin zero.
func solveFor(T *Terms, lin, k *Term) *Term {
	m, _ := T.linParts(lin)
	c := m[k]
	if c != 1 && c != -1 {
		return nil
	}
	rest := T.Add(lin, k, -c)
	if rest.free[k] {
		return nil
	}
	return T.Scale(rest, -c)
}

func (d *Den) substPoly(p *Poly, k, v *Term, f *Facts) *Poly {
	return p.mapAtoms(d.T, func(a *Term) *Poly {
		if !a.free[k] {
			return patom(a)
		}
		return d.atom(d.norm(d.T.Subst(a, k, v), f), f)
	})
}

// Prod of g(k) for 0 <= k < n, in normal form.
func (d *Den) Prod(n *Term, f *Facts, g func(k *Term, f *Facts) *Poly) *Poly {
	defer d.enter()()
	T := d.T
	n = d.norm(n, f)
	if v, ok := n.isInt(); ok {
		if v > 32 {
			d.fail("long literal product")
		}
		r := pint(1)
		for i := int64(0); i < v; i++ {
			r = pmul(r, g(T.Int(i), f))
		}
		return r
	}
	if n.op == "choice" {
		r := pint(0)
		for i := 0; i+1 < len(n.args); i += 2 {
			h := f.clone()
			if !d.D.Assume(n.args[i], true, h) {
				continue
			}
			r = padd(r, pmul(d.indicator(n.args[i], f), d.Prod(n.args[i+1], h, g)), 1)
		}
		return r
	}
	m, c := T.linParts(n)
	base := T.mkLin(m, 0)
	if c > 0 && c <= 8 && d.D.Decide(T.Lt(base, T.Int(0)), f) == no {
		r := d.Prod(base, f, g)
		for j := int64(0); j < c; j++ {
			r = pmul(r, g(T.Add(base, T.Int(j), 1), f))
		}
		return r
	}
	if c < 0 && c >= -8 && d.D.Decide(T.Lt(n, T.Int(0)), f) == no {
		r := d.Prod(base, f, g)
		for j := c; j < 0; j++ {
			i := pinv(g(T.Add(base, T.Int(j), 1), f))
			if i == nil {
				d.fail("product cannot be shortened")
			}
			r = pmul(r, i)
		}
		return r
	}
	if len(m) > 1 && c == 0 {
		var as []*Term
		okAll := true
		for a, k := range m {
			if k != 1 || !(nonNeg(a) || d.D.Decide(T.Lt(a, T.Int(0)), f) == no) {
				okAll = false
			}
			as = append(as, a)
		}
		if okAll {
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			r := pint(1)
			off := T.Int(0)
			for _, a := range as {
				o := off
				r = pmul(r, d.Prod(a, f, func(k *Term, h *Facts) *Poly { return g(T.Add(k, o, 1), h) }))
				off = T.Add(off, a, 1)
			}
			return r
		}
	}
	k := d.idx()
	h := d.under(f, k, n)
	if h.bad {
		return pint(1)
	}
	body := g(k, h)
	return d.prodOver(n, k, body, f)
}

func (d *Den) prodOver(n, k *Term, body *Poly, f *Facts) *Poly {
	T := d.T
	if v, ok := n.isInt(); ok && v <= 8 {
		r := pint(1)
		for i := int64(0); i < v; i++ {
			r = pmul(r, d.substPoly(body, k, T.Int(i), f))
		}
		return r
	}
	m := body.single()
	if m != nil {
		for _, x := range m.f {
			if x.a.op == "ind" {
				m = nil
				break
			}
		}
	}
	if m == nil {
		if body.isZero() {
			return patom(T.mk(Term{op: "ind", args: []*Term{T.EqInt(n, T.Int(0))}}))
		}
		if !body.free(k) {
			return T.ppowP(body, d.integer(n, f))
		}
		// one position differs from the others
		for _, m := range body.monos() {
			for _, x := range m.f {
				if x.a.op != "ind" || x.a.args[0].op != "eq0" {
					continue
				}
				c := solveFor(T, x.a.args[0].args[0], k)
				if c == nil {
					continue
				}
				hi, lo := body.setAtom(x.a, 1), body.setAtom(x.a, 0)
				li := pinv(d.substPoly(lo, k, c, f))
				if li == nil {
					continue
				}
				rng := pmul(d.indicator(T.Lt(c, n), f), d.indicator(T.Not(T.Lt(c, T.Int(0))), f))
				q := pmul(d.substPoly(hi, k, c, f), li)
				return pmul(d.prodOver(n, k, lo, f), padd(pmul(rng, q), padd(pint(1), rng, -1), 1))
			}
		}
		return patom(T.mk(Term{op: "pprod", args: []*Term{n, T.closePoly(body, k)}}))
	}
	r := pint(1)
	if m.c.Cmp(big.NewRat(1, 1)) != 0 {
		r = ppow(T.mk(Term{op: "pbox", args: []*Term{T.PolyTerm(pconst(m.c))}}), d.integer(n, f))
	}
	for _, x := range m.f {
		for _, em := range x.e.monos() {
			// exponent monomial: c · factors
			var in, out []fac
			var kron *Term
			for _, y := range em.f {
				if y.a.free[k] || y.e.free(k) {
					if y.a.op == "ind" && y.a.args[0].op == "eq0" && kron == nil {
						if i := solveFor(T, y.a.args[0].args[0], k); i != nil {
							kron = i
							continue
						}
					}
					in = append(in, y)
				} else {
					out = append(out, y)
				}
			}
			coef := pmono(em.c, out)
			if kron == nil && len(in) == 1 && in[0].a.op == "psum" {
				// prod_k x_k^(sum_j e_jk) = prod_j prod_k x_k^(e_jk)
				if v, isC := in[0].e.isConst(); isC && v.Cmp(big.NewRat(1, 1)) == 0 {
					s := in[0].a
					r = pmul(r, d.Prod(s.args[0], f, func(j *Term, g *Facts) *Poly {
						e := pmul(coef, d.parse(T.open(s.args[1], j), g))
						return d.prodOver(n, k, T.ppowP(patom(x.a), e), g)
					}))
					continue
				}
			}
			switch {
			case kron != nil:
				b := d.substPoly(patom(x.a), k, kron, f)
				e := d.substPoly(pmono(big.NewRat(1, 1), in), k, kron, f)
				rng := pmul(d.indicator(T.Lt(kron, n), f), d.indicator(T.Not(T.Lt(kron, T.Int(0))), f))
				r = pmul(r, T.ppowP(b, pmul(coef, pmul(rng, e))))
			case !x.a.free[k] && len(in) == 0:
				r = pmul(r, ppow(x.a, pmul(coef, d.integer(n, f))))
			case !x.a.free[k]:
				r = pmul(r, ppow(x.a, pmul(coef, d.sumOver(n, k, pmono(big.NewRat(1, 1), in), f))))
			default:
				b := T.closePoly(ppow(x.a, pmono(big.NewRat(1, 1), in)), k)
				a := T.mk(Term{op: "pprod", args: []*Term{n, b}})
				r = pmul(r, ppow(a, coef))
			}
		}
	}
	return r
}
