package main

import (
	"go/types"
	"strings"
)

// C13: constant parts, linear coefficients, degrees and the predicates that
// rest on them are those of the polynomial an expression stands for.

func init() { checks["C13"] = checkCoefficients }

type coefs struct {
	s    *Spec
	rule string
}

func (c *coefs) field(x *Term, kind, name string) *Term {
	st := c.s.p.KindType(kind)
	return c.s.T.Field(x, fieldIndex(st, name), st)
}

// constant part of a scalar of a concrete kind.
func (c *coefs) constant(d *Den, kind string, x *Term, f *Facts) *Poly {
	T := c.s.T
	switch kind {
	case "K", "float64":
		return d.kindVal("K", x, f)
	case "Variable":
		return pint(0)
	case "Monomial":
		g := d.indicator(T.EqInt(T.Len(c.field(x, kind, "VariableFactors")), T.Int(0)), f)
		return pmul(g, d.float(c.field(x, kind, "Coefficient"), f))
	case "Polynomial":
		return c.sum(d, x, f, func(m *Term, g *Facts) *Poly { return c.constant(d, "Monomial", m, g) })
	}
	d.fail("no constant part for %s", kind)
	return nil
}

func (c *coefs) sum(d *Den, x *Term, f *Facts, each func(m *Term, g *Facts) *Poly) *Poly {
	mt := c.s.p.KindType("Monomial")
	return d.SumL(c.field(x, "Polynomial", "Monomials"), f, func(k *Term, g *Facts) *Poly {
		return each(d.elem(c.field(x, "Polynomial", "Monomials"), k, mt, g), g)
	})
}

// linear: the coefficient of the variable v in a scalar of a concrete kind.
func (c *coefs) linear(d *Den, kind string, x, v *Term, f *Facts) *Poly {
	T := c.s.T
	id := func(v *Term) *Term { return c.field(v, "Variable", "ID") }
	switch kind {
	case "K", "float64":
		return pint(0)
	case "Variable":
		return d.indicator(T.EqInt(id(x), id(v)), f)
	case "Monomial":
		vf := c.field(x, kind, "VariableFactors")
		r := d.float(c.field(x, kind, "Coefficient"), f)
		g := d.indicator(T.EqInt(T.Len(vf), T.Int(1)), f)
		if g.isZero() {
			return g
		}
		r = pmul(r, g)
		r = pmul(r, d.indicator(T.EqInt(T.Elem(c.field(x, kind, "Exponents"), T.Int(0), types.Typ[types.Int]), T.Int(1)), f))
		return pmul(r, d.indicator(T.EqInt(id(T.Elem(vf, T.Int(0), c.s.p.KindType("Variable"))), id(v)), f))
	case "Polynomial":
		return c.sum(d, x, f, func(m *Term, g *Facts) *Poly { return c.linear(d, "Monomial", m, v, g) })
	}
	d.fail("no linear coefficient for %s", kind)
	return nil
}

// inner gives the coefficients that operations of entries return.
func (c *coefs) inner(d *Den, t *Term, f *Facts) *Poly {
	T := c.s.T
	if t.op == "call" && t.name == "Constant" && t.args[0].op == "iface" && scalarKindOf(t.args[0].typ) != "" {
		return c.constant(d, scalarKindOf(t.args[0].typ), t.args[0].args[0], f)
	}
	if t.op == "elem" && t.args[0].op == "call" && t.args[0].name == "LinearCoeff" {
		l := t.args[0]
		if l.args[0].op != "iface" || scalarKindOf(l.args[0].typ) == "" || len(l.args) != 2 {
			return nil
		}
		if n, ok := T.Len(l.args[1]).isInt(); !ok || n != 1 {
			return nil
		}
		w := T.Elem(l.args[1], T.Int(0), types.NewSlice(c.s.p.KindType("Variable")))
		return c.linear(d, scalarKindOf(l.args[0].typ), l.args[0].args[0], d.norm(T.Elem(w, t.args[1], c.s.p.KindType("Variable")), f), f)
	}
	return nil
}

// each is the value of kind given entry by entry.
func (c *coefs) each(d *Den, kind string, x *Term, f *Facts, v func(kind string, y *Term, g *Facts) *Poly) *MV {
	T, p := c.s.T, c.s.p
	el := elemOfKind[kind]
	if el == "" {
		return &MV{T.Int(1), T.Int(1), func(i, j *Term, g *Facts) *Poly { return v(kind, x, g) }}
	}
	et := p.KindType(el)
	if shapeOf(kind) == 1 {
		return &MV{T.Len(x), T.Int(1), func(i, j *Term, g *Facts) *Poly { return v(el, d.elem(x, i, et, g), g) }}
	}
	rt := types.NewSlice(et)
	return &MV{T.Len(x), T.Len(T.Elem(x, T.Int(0), rt)), func(i, j *Term, g *Facts) *Poly {
		return v(el, d.elem(d.elem(x, i, rt, g), j, et, g), g)
	}}
}

func checkCoefficients(p *Program, r *Report) {
	r.Explain = "Constant, LinearCoeff, Degree and the predicates IsLinear, IsQuadratic, IsConstant and IsZero evaluated for every kind; constants and coefficients compared with the specified ones in the value domain, degrees as maxima over the monomials, predicates as formulas"
	r.Rule("constant: Constant is, entry by entry, the sum of the coefficients of the monomials without variables")
	r.Rule("coefficient: LinearCoeff holds, for every entry and every listed variable, the sum of the coefficients of the monomials that are that variable")
	r.Rule("degree: Degree is the largest total exponent of a monomial of the expression")
	r.Rule("predicate: IsLinear, IsQuadratic, IsConstant, IsZero answer true exactly when the definition holds")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	s := NewSpec(p, r)
	c := &coefs{s: s, rule: "predicate"}
	s.prepare = func(d *Den, args []*Term) { d.extra = c.inner }
	var kinds []string
	for _, k := range append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...) {
		if !strings.HasPrefix(k, "mat.") && k != "float64" {
			kinds = append(kinds, k)
		}
	}
	n := 0
	for _, k := range kinds {
		k := k
		if s.fn(k+".Constant") != nil {
			n++
			s.fresh()
			ops := without(valueOps, "")
			st := s.valueOf("constant", k+".Constant", nil, ops, func(a []*Term) []*Term { return s.nonEmpty(k, a) }, func(d *Den, a []*Term, f *Facts) *MV {
				return c.each(d, k, a[0], f, func(kind string, y *Term, g *Facts) *Poly { return c.constant(d, kind, y, g) })
			})
			if st == "panics" {
				r.Bad("constant", k+".Constant", s.where(k+".Constant"), "the operation returns no result")
			}
		}
		if s.fn(k+".LinearCoeff") != nil {
			n += c.linearCoeff(k)
		}
		if s.fn(k+".Degree") != nil {
			n++
			c.degree(k)
		}
	}
	n += c.predicates(kinds)
	r.Min("coefficient operations", n, 60)
}

func without(m map[string]bool, names ...string) map[string]bool {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	for _, n := range names {
		delete(o, n)
	}
	return o
}

// linearCoeff: with and without an explicit list; monomials apart by their
// number of factors.
func (c *coefs) linearCoeff(k string) int {
	s, T, n := c.s, c.s.T, 0
	name := k + ".LinearCoeff"
	vs := types.NewSlice(s.p.KindType("Variable"))
	for _, given := range []int{0, 1} {
		for _, factors := range []int{0, 1, 2} {
			if k != "Monomial" && factors > 0 {
				continue
			}
			if k == "K" && given == 0 || k == "KVector" && given == 0 || k == "Monomial" && factors == 0 && given == 0 {
				continue // no variables: the call is refused
			}
			n++
			s.fresh()
			T = s.T
			list := func(a []*Term) *Term {
				if given == 1 {
					return T.Elem(a[1], T.Int(0), vs)
				}
				return T.Call("Variables", []*Term{T.Iface(a[0], s.p.KindType(k))}, vs)
			}
			mk := func(a []*Term) []*Term {
				out := append(s.nonEmpty(k, a), T.EqInt(T.Len(a[1]), T.Int(int64(given))))
				if k == "Variable" && given == 0 {
					return out
				}
				if k == "Monomial" {
					l := T.Len(c.field(a[0], k, "VariableFactors"))
					if factors == 2 {
						out = append(out, T.Lt(T.Int(1), l))
					} else {
						out = append(out, T.EqInt(l, T.Int(int64(factors))))
					}
				}
				return append(out, T.Lt(T.Int(0), T.Len(list(a))))
			}
			ops := without(valueOps, "symbolic.FindInSlice")
			if k == "Variable" {
				delete(ops, "Variables")
			}
			s.rewrite = nil
			if k == "Monomial" {
				s.rewrite = func(res *Result, a []*Term) { c.single(res, a[0], factors) }
			}
			st := s.valueOf("coefficient", name, nil, ops, mk, func(d *Den, a []*Term, f *Facts) *MV {
				w := list(a)
				if k == "Variable" && given == 0 {
					w = T.Lit([]*Term{a[0]})
				}
				if k == "Monomial" && given == 0 && factors == 1 {
					w = T.Lit([]*Term{T.Elem(c.field(a[0], k, "VariableFactors"), T.Int(0), vs.Elem())})
				}
				at := func(kind string, y, j *Term, g *Facts) *Poly {
					return c.linear(d, kind, y, d.norm(T.Elem(w, j, vs.Elem()), g), g)
				}
				m := c.each(d, k, a[0], f, nil)
				if elemOfKind[k] == "" {
					return &MV{T.Len(w), T.Int(1), func(i, j *Term, g *Facts) *Poly { return at(k, a[0], i, g) }}
				}
				et := s.p.KindType(elemOfKind[k])
				return &MV{m.R, T.Len(w), func(i, j *Term, g *Facts) *Poly { return at(elemOfKind[k], d.elem(a[0], i, et, g), j, g) }}
			})
			s.rewrite = nil
			if st == "panics" {
				s.r.Bad("coefficient", name, s.where(name), "the operation returns no result")
			}
		}
	}
	return n
}

// single reads the total exponent of a monomial with a known number of factors
// (every exponent is at least one), and the searches in its factors.
func (c *coefs) single(res *Result, m *Term, factors int) {
	s, T := c.s, c.s.T
	vf, ex := c.field(m, "Monomial", "VariableFactors"), c.field(m, "Monomial", "Exponents")
	more := T.Sym("more", types.Typ[types.Int])
	total := []*Term{T.Int(0), T.Elem(ex, T.Int(0), types.Typ[types.Int]), T.Add(more, T.Int(2), 1)}[factors]
	isLen := func(n *Term) bool { return n == T.Len(vf) || n == T.Len(ex) }
	rew := func(t *Term) *Term {
		return T.Rewrite(t, func(x *Term) *Term {
			switch x.op {
			case "call":
				if x.name == "Degree" && x.args[0].op == "iface" && x.args[0].args[0] == m {
					return total
				}
				if x.name == "Variables" && x.args[0].op == "iface" && x.args[0].args[0] == m && factors == 1 {
					return T.Lit([]*Term{T.Elem(vf, T.Int(0), s.p.KindType("Variable"))})
				}
			case "sum":
				k := s.k()
				if x.name == "int" && isLen(x.args[0]) && T.open(x.args[1], k) == T.Elem(ex, k, types.Typ[types.Int]) {
					return total
				}
			case "exists", "forall":
				if factors == 1 && isLen(x.args[0]) {
					return T.open(x.args[1], T.Int(0))
				}
			case "last", "first":
				if factors == 1 && isLen(x.args[0]) {
					return T.Int(0)
				}
			}
			return nil
		})
	}
	var rets []Ret
	for _, r := range res.Rets {
		f := NewFacts()
		s.d.Assume(T.Lt(more, T.Int(0)), false, f)
		for _, x := range r.Facts.order {
			if !f.bad {
				s.d.Assume(rew(x), r.Facts.m[x], f)
			}
		}
		if f.bad {
			continue
		}
		vs := make([]*Term, len(r.Vals))
		for i, v := range r.Vals {
			vs[i] = s.norm(rew(v), f)
		}
		r.Facts, r.Vals = f, vs
		rets = append(rets, r)
	}
	res.Rets = rets
}

// ---- degrees ----------------------------------------------------------------

type degs struct {
	s   *Spec
	why string
}

// terms reads an integer as a maximum: over the rounds of ks, of elem.
func (g *degs) terms(t *Term, f *Facts, acc *Term) []comp {
	s, T := g.s, g.s.T
	t = s.norm(t, f)
	under := func(n, body *Term, k *Term, acc *Term) []comp {
		out := []comp{}
		for _, c := range g.terms(body, f, acc) {
			c.ks, c.ns = append([]*Term{k}, c.ks...), append([]*Term{n}, c.ns...)
			out = append(out, c)
		}
		return out
	}
	if t == acc {
		return nil
	}
	if n, ok := t.isInt(); ok {
		if n <= 0 {
			return []comp{}
		}
		return []comp{{elem: t}}
	}
	switch t.op {
	case "maxf":
		k := s.k()
		return append(g.terms(t.args[1], f, acc), under(t.args[0], T.open(t.args[2], k), k, nil)...)
	case "fold":
		k, a := s.k(), s.k()
		body := T.open(t.args[2], k, a)
		if !keeps(body, a) {
			g.why = "a loop does not keep the largest degree so far"
			return nil
		}
		return append(g.terms(t.args[1], f, acc), under(t.args[0], body, k, a)...)
	case "choice":
		var out []comp
		for i := 0; i < len(t.args); i += 2 {
			for _, c := range g.terms(t.args[i+1], f, acc) {
				c.gs = append([]*Term{t.args[i]}, c.gs...)
				out = append(out, c)
			}
		}
		return out
	case "sum":
		// the total exponent of one monomial
		k := s.k()
		if e := T.open(t.args[1], k); t.name == "int" && e.op == "elem" && e.args[1] == k && e.args[0].op == "field" {
			c := &coefs{s: s, rule: "predicate"}
			m := e.args[0].args[0]
			l := c.field(m, "Monomial", "Exponents")
			if e.args[0] == l && (t.args[0] == T.Len(l) || t.args[0] == T.Len(c.field(m, "Monomial", "VariableFactors"))) {
				return g.kind("Monomial", m, f)
			}
		}
	case "call":
		if t.name == "Degree" && t.args[0].op == "iface" {
			return g.kind(s.kindName(t.args[0]), t.args[0].args[0], f)
		}
	}
	g.why = "a degree that is not understood: " + clip(t.String())
	return nil
}

// keeps: the value is a maximum one operand of which is a.
func keeps(t, a *Term) bool {
	switch {
	case t == a:
		return true
	case t.op == "maxf" || t.op == "fold":
		return keeps(t.args[1], a)
	}
	return false
}

// kind: the degree of an expression of a concrete kind, by its definition.
func (g *degs) kind(kind string, x *Term, f *Facts) []comp {
	s, T := g.s, g.s.T
	c := &coefs{s: s, rule: "predicate"}
	switch kind {
	case "K", "KVector", "KMatrix":
		return []comp{}
	case "Variable", "VariableVector", "VariableMatrix":
		return []comp{{elem: T.Int(1)}}
	case "Monomial":
		return []comp{{elem: T.Call("Degree", []*Term{T.Iface(x, s.p.KindType(kind))}, types.Typ[types.Int])}}
	}
	over := func(l *Term, el string) []comp {
		k := s.k()
		var out []comp
		for _, y := range g.kind(el, T.Elem(l, k, s.p.KindType(el)), f) {
			y.ks, y.ns = append([]*Term{k}, y.ks...), append([]*Term{T.Len(l)}, y.ns...)
			out = append(out, y)
		}
		return out
	}
	switch {
	case kind == "Polynomial":
		return over(c.field(x, kind, "Monomials"), "Monomial")
	case strings.HasPrefix(kind, "[]"):
		return over(x, kind[2:])
	case shapeOf(kind) == 1:
		return over(x, elemOfKind[kind])
	case shapeOf(kind) == 2:
		return over(x, "[]"+elemOfKind[kind])
	}
	g.why = "unknown kind " + kind
	return nil
}

func (c *coefs) degree(k string) {
	s := c.s
	s.fresh()
	name := k + ".Degree"
	res, args, fn := s.run("degree", name, nil, names("Degree"), nil)
	if res == nil {
		return
	}
	bad := ""
	if len(res.Rets) == 0 {
		bad = "the operation returns no result"
	}
	for _, rt := range res.Rets {
		g := &degs{s: s}
		got := g.terms(rt.Vals[0], rt.Facts, nil)
		want := g.kind(k, args[0], rt.Facts)
		if g.why != "" {
			bad = g.why
			break
		}
		v := &varSets{s: s}
		v.plain = true
		for _, x := range got {
			if !v.within(x, want, rt.Facts) {
				bad = "the result can be larger than the degree: " + clip(x.elem.String())
			}
		}
		for _, x := range want {
			if !v.within(x, got, rt.Facts) {
				bad = "the degree of a part is left out: " + clip(x.elem.String())
			}
		}
	}
	if bad != "" {
		s.r.Bad("degree", name, s.p.Pos(fn.Pos()), bad)
	} else {
		s.r.OK(name)
	}
}

// ---- predicates -------------------------------------------------------------

// every: the formula "every index below n has the property".
func (c *coefs) every(n, k, body *Term) *Term {
	T := c.s.T
	return T.Not(T.mk(Term{op: "exists", args: []*Term{n, T.close(T.Not(body), []*Term{k})}}))
}

// none: the formula "the list has no entry".
func (c *coefs) none(l *Term) *Term {
	T := c.s.T
	switch l.op {
	case "flat":
		k := c.s.k()
		return c.every(l.args[0], k, c.none(T.open(l.args[1], k)))
	case "call":
		switch l.name {
		case "symbolic.UniqueVars", "symbolic.Unique":
			return c.none(l.args[0])
		case "Variables":
			if x := l.args[0]; x.op == "iface" {
				switch k := c.s.kindName(x); k {
				case "Monomial":
					return c.none(c.field(x.args[0], k, "VariableFactors"))
				case "Polynomial":
					k2 := c.s.k()
					ms := c.field(x.args[0], k, "Monomials")
					m := T.Elem(ms, k2, c.s.p.KindType("Monomial"))
					return c.every(T.Len(ms), k2, c.none(c.field(m, "Monomial", "VariableFactors")))
				}
			}
		}
	}
	return T.EqInt(T.Len(l), T.Int(0))
}

// lists reads the length of a list of variables as a statement on its parts.
func (c *coefs) lists(t *Term) *Term {
	return c.s.T.Rewrite(t, func(x *Term) *Term {
		if x.op == "eq0" && x.args[0].op == "len" {
			if y := c.none(x.args[0].args[0]); y != x {
				return y
			}
		}
		return nil
	})
}

func (c *coefs) predicate(name string, kinds []string, opaque map[string]bool, want func(a []*Term) *Term) {
	s := c.s
	s.fresh()
	lab := label(name, kinds)
	res, args, fn := s.run(c.rule, name, kinds, opaque, nil)
	if res == nil {
		return
	}
	P := want(args)
	bad := ""
	if len(res.Rets) == 0 {
		bad = "the operation returns no result"
	}
	for _, rt := range res.Rets {
		v := c.lists(rt.Vals[0])
		f := rt.Facts.clone()
		for _, x := range rt.Facts.order {
			if y := c.lists(x); y != x {
				s.d.Assume(y, rt.Facts.m[x], f)
			}
		}
		if f.bad {
			continue
		}
		if g, ok := s.assume(f, v); ok && !s.implied(P, g) {
			bad = "true is answered although the definition can fail"
		}
		if g, ok := s.assume(f, s.T.Not(v)); ok && !s.refuted(P, g) {
			bad = "false is answered although the definition can hold"
		}
	}
	if bad != "" {
		s.r.Bad(c.rule, lab, s.p.Pos(fn.Pos()), bad)
	} else {
		s.r.OK(lab)
	}
}

func (c *coefs) predicates(kinds []string) int {
	s, n := c.s, 0
	atMost := func(x *Term, lim int64) *Term {
		T := s.T
		return T.Not(T.Lt(T.Int(lim), T.Call("Degree", []*Term{x}, types.Typ[types.Int])))
	}
	deg := names("Degree")
	for _, k := range kinds {
		n += 2
		c.predicate("IsLinear", []string{k}, deg, func(a []*Term) *Term { return atMost(a[0], 1) })
		c.predicate("IsQuadratic", []string{k}, deg, func(a []*Term) *Term { return atMost(a[0], 2) })
	}
	for _, k := range []string{"ScalarConstraint", "VectorConstraint", "MatrixConstraint"} {
		n++
		c.predicate(k+".IsLinear", nil, deg, func(a []*Term) *Term {
			return s.T.And([]*Term{atMost(c.field(a[0], k, "LeftHandSide"), 1), atMost(c.field(a[0], k, "RightHandSide"), 1)})
		})
	}
	vars := names("Variables symbolic.UniqueVars symbolic.UnionOfVariables")
	factors := func(m *Term) *Term { return c.none(c.field(m, "Monomial", "VariableFactors")) }
	all := func(l *Term) *Term {
		T, k := s.T, s.k()
		return c.every(T.Len(l), k, factors(T.Elem(l, k, s.p.KindType("Monomial"))))
	}
	for _, x := range []struct {
		name string
		want func(a []*Term) *Term
	}{
		{"Monomial.IsConstant", func(a []*Term) *Term { return factors(a[0]) }},
		{"MonomialVector.IsConstant", func(a []*Term) *Term { return all(a[0]) }},
		{"Polynomial.IsConstant", func(a []*Term) *Term { return all(c.field(a[0], "Polynomial", "Monomials")) }},
		{"Monomial.IsZero", func(a []*Term) *Term { return s.T.Eq(c.field(a[0], "Monomial", "Coefficient"), s.T.Float(0)) }},
	} {
		n++
		c.predicate(x.name, nil, vars, x.want)
	}
	return n
}
