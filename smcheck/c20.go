package main

import (
	"fmt"
	"go/types"
	"slices"
)

// C20: terms of equal form, single-variable terms and constants are recognised
// exactly, and the term asked for is the one found.

func init() { checks["C20"] = checkTerms }

// terms decides the questions about the form of terms.
type terms struct {
	*coefs
	rule string
}

// unique reads searches in lists without repetition: the position at which a
// variable stands is the only one.
func (c *terms) unique(t *Term, lists []*Term) *Term {
	T := c.s.T
	switch t.op {
	case "exists", "first", "last":
		if t.loose > 0 {
			return t
		}
		n := c.unique(t.args[0], lists)
		k := c.s.k()
		body := c.unique(T.open(t.args[1], k), lists)
		var id *Term
		var rest []*Term
		for _, x := range conj(body) {
			if id == nil && c.names(x, k, n, lists) {
				id = x
			} else {
				rest = append(rest, x)
			}
		}
		if id == nil {
			if t.op == "exists" {
				return T.Exists(n, k, body)
			}
			return T.mk(Term{op: t.op, args: []*Term{n, T.close(body, []*Term{k})}, typ: t.typ})
		}
		i := T.mk(Term{op: "first", args: []*Term{n, T.close(id, []*Term{k})}, typ: types.Typ[types.Int]})
		if t.op != "exists" {
			return i
		}
		out := []*Term{T.Exists(n, k, id)}
		for _, x := range rest {
			out = append(out, T.Subst(x, k, i))
		}
		return T.And(out)
	}
	if len(t.args) == 0 {
		return t
	}
	return T.rebuild(t, func(i int, a *Term) *Term { return c.unique(a, lists) })
}

// names: the condition says that entry k of a list is a certain variable.
func (c *terms) names(x, k, n *Term, lists []*Term) bool {
	T := c.s.T
	if x.op != "eq0" {
		return false
	}
	hit := false
	T.Rewrite(x, func(y *Term) *Term {
		if y.op == "field" && y.args[0].op == "elem" && y.args[0].args[1] == k {
			if l := y.args[0].args[0]; slices.Contains(lists, l) && c.s.d.Decide(T.EqInt(T.Len(l), n), NewFacts()) == yes {
				hit = true
			}
		}
		return nil
	})
	return hit && x == T.EqInt(T.Int(0), x.args[0])
}

func (c *terms) facts(f *Facts, lists []*Term) *Facts {
	g := f.clone()
	for _, x := range f.order {
		if x.loose > 0 {
			continue
		}
		if y := c.unique(x, lists); y != x {
			c.s.d.Assume(y, f.m[x], g)
		}
	}
	return g
}

// matches: MatchesFormOf answers whether two terms have the same variables
// with the same exponents.
func (c *terms) matches() {
	s := c.s
	T := s.T
	s.fresh()
	name := "Monomial.MatchesFormOf"
	res, a, fn := s.run(c.rule, name, nil, names("Degree"), func(a []*Term) (out []*Term) {
		for _, m := range a {
			out = append(out, T.EqInt(T.Len(c.field(m, "Monomial", "Exponents")), T.Len(c.field(m, "Monomial", "VariableFactors"))))
		}
		return
	})
	if res == nil {
		return
	}
	T = s.T
	vt, it := s.p.KindType("Variable"), types.Typ[types.Int]
	vf := []*Term{c.field(a[0], "Monomial", "VariableFactors"), c.field(a[1], "Monomial", "VariableFactors")}
	ex := []*Term{c.field(a[0], "Monomial", "Exponents"), c.field(a[1], "Monomial", "Exponents")}
	// every factor of x stands in y with the same exponent
	within := func(x, y int) *Term {
		k, j := s.k(), s.k()
		id := T.EqInt(c.field(T.Elem(vf[x], k, vt), "Variable", "ID"), c.field(T.Elem(vf[y], j, vt), "Variable", "ID"))
		return c.every(T.Len(vf[x]), k, T.Exists(T.Len(vf[y]), j, T.And([]*Term{id, T.EqInt(T.Elem(ex[x], k, it), T.Elem(ex[y], j, it))})))
	}
	same := T.EqInt(T.Len(vf[0]), T.Len(vf[1]))
	var defs []*Term
	for _, x := range [][2]int{{0, 1}, {1, 0}} {
		// equally many factors: one direction is enough
		defs = append(defs, c.unique(T.And([]*Term{same, within(x[0], x[1])}), vf))
	}
	bad := ""
	if len(res.Rets) == 0 {
		bad = "the operation returns no result"
	}
	ok := false
	for _, P := range defs {
		w := ""
		for _, rt := range res.Rets {
			f := c.facts(rt.Facts, vf)
			if f.bad {
				continue
			}
			v := c.unique(rt.Vals[0], vf)
			if g, ok := s.assume(f, v); ok && !s.implied(P, g) {
				w = "true is answered although the variables or exponents can differ"
			}
			if g, ok := s.assume(f, T.Not(v)); ok && !s.refuted(P, g) {
				w = "false is answered although the variables and exponents can be the same"
			}
		}
		if w == "" {
			ok = true
		} else if bad == "" {
			bad = w
		}
	}
	if !ok {
		s.r.Bad(c.rule, name, s.p.Pos(fn.Pos()), bad)
	} else {
		s.r.OK(name)
	}
}

// index: a search returns a position that has the property, or -1 when none has.
func (c *terms) index(name string, has func(a []*Term, m *Term) *Term) {
	s := c.s
	s.fresh()
	res, a, fn := s.run(c.rule, name, nil, names("MatchesFormOf Variables symbolic.UniqueVars symbolic.UnionOfVariables"), nil)
	if res == nil {
		return
	}
	T := s.T
	ms := c.field(a[0], "Polynomial", "Monomials")
	mt := s.p.KindType("Monomial")
	// the operands of MatchesFormOf in one order
	order := func(t *Term) *Term {
		return T.Rewrite(t, func(x *Term) *Term {
			if x.op == "call" && x.name == "MatchesFormOf" && len(x.args) == 2 && len(a) > 1 {
				l, r := x.args[0], x.args[1]
				if l.op != "iface" {
					l = T.Iface(l, mt)
				}
				if r.op == "iface" {
					r = r.args[0]
				}
				if mentionsTerm(l, a[1]) && !mentionsTerm(r, a[1]) {
					l, r = T.Iface(r, mt), l.args[0]
				}
				return T.Call(x.name, []*Term{l, r}, x.typ)
			}
			return nil
		})
	}
	at := func(i *Term) *Term { return order(has(a, T.Elem(ms, i, mt))) }
	k := s.k()
	some := T.Exists(T.Len(ms), k, at(k))
	none := T.EqInt
	bad := ""
	if len(res.Rets) == 0 {
		bad = "the operation returns no result"
	}
	for _, rt := range res.Rets {
		f := rt.Facts.clone()
		for _, x := range rt.Facts.order {
			if y := order(c.lists(x)); y != x && x.loose == 0 {
				s.d.Assume(y, rt.Facts.m[x], f)
			}
		}
		if f.bad {
			continue
		}
		v := order(c.lists(rt.Vals[0]))
		if g, ok := s.assume(f, none(v, T.Int(-1))); ok && !s.refuted(some, g) && !c.nowhere(T.Len(ms), k, at(k), g) {
			bad = "-1 is answered although there is such a term"
		}
		if g, ok := s.assume(f, T.Not(none(v, T.Int(-1)))); ok {
			w := s.d.Resolve(v, g)
			if !s.refuted(T.Lt(w, T.Int(0)), g) || !s.implied(T.Lt(w, T.Len(ms)), g) {
				bad = fmt.Sprintf("the answer %s is no position of the polynomial", clip(w.String()))
			} else if !s.implied(at(w), g) {
				bad = "the term at the position answered need not be the one asked for"
			}
		}
	}
	if bad != "" {
		s.r.Bad(c.rule, name, s.p.Pos(fn.Pos()), bad)
	} else {
		s.r.OK(name)
	}
}

// nowhere: the entry at position k, any of n, cannot have the property.
func (c *terms) nowhere(n, k, has *Term, f *Facts) bool {
	s, T := c.s, c.s.T
	g := f.clone()
	if !s.d.Assume(T.Lt(k, n), true, g) || !s.d.Assume(has, true, g) {
		return true
	}
	for _, x := range f.order {
		if x.op == "exists" && !f.m[x] && x.loose == 0 && s.d.Decide(T.EqInt(x.args[0], n), f) == yes {
			if !s.d.Assume(T.open(x.args[1], k), false, g) {
				return true
			}
		}
	}
	return g.bad
}

func checkTerms(p *Program, r *Report) {
	r.Explain = "MatchesFormOf, IsVariable, IsDegreeOneContainingVariable, IsConstant and the searches of a polynomial for a term evaluated symbolically for every monomial and polynomial; every answer compared, as a formula over the variables and exponents of the terms, with the definition, in both directions"
	r.Rule("form: the answer is true exactly when the definition holds")
	r.Rule("found: a search returns the position of a term that has the property, and -1 exactly when there is none")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	s := NewSpec(p, r)
	c := &coefs{s: s}
	t := &terms{c, "form"}
	t.matches()
	lin := func(m, v *Term) *Term {
		T := s.T
		vf, ex := c.field(m, "Monomial", "VariableFactors"), c.field(m, "Monomial", "Exponents")
		return T.And([]*Term{
			T.EqInt(T.Len(vf), T.Int(1)),
			T.EqInt(c.field(T.Elem(vf, T.Int(0), s.p.KindType("Variable")), "Variable", "ID"), c.field(v, "Variable", "ID")),
			T.EqInt(T.Elem(ex, T.Int(0), types.Typ[types.Int]), T.Int(1)),
		})
	}
	c.rule = "form"
	c.predicate("Monomial.IsDegreeOneContainingVariable", nil, nil, func(a []*Term) *Term { return lin(a[0], a[1]) })
	c.predicate("Monomial.IsVariable", nil, nil, func(a []*Term) *Term {
		return s.T.And([]*Term{lin(a[0], a[1]), s.T.Eq(c.field(a[0], "Monomial", "Coefficient"), s.T.Float(1))})
	})
	t.rule = "found"
	t.index("Polynomial.MonomialIndex", func(a []*Term, m *Term) *Term {
		return s.T.Call("MatchesFormOf", []*Term{s.T.Iface(m, s.p.KindType("Monomial")), a[1]}, types.Typ[types.Bool])
	})
	t.index("Polynomial.VariableMonomialIndex", func(a []*Term, m *Term) *Term { return lin(m, a[1]) })
	t.index("Polynomial.ConstantMonomialIndex", func(a []*Term, m *Term) *Term { return c.none(c.field(m, "Monomial", "VariableFactors")) })
	r.Min("questions", r.Oblig, 6)
}
