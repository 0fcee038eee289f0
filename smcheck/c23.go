package main

import (
	"go/types"
	"regexp"
	"strings"
)

// C23: simplification is complete. Sums are read as lists built by loops; that
// no two terms are alike and none is zero is shown by induction over the
// rounds.

func init() { checks["C23"] = checkSimplest }

type simplest struct {
	s *Spec
	v *verdicts
}

func (m *simplest) mono(x *Term, name string) *Term { return m.v.c.field(x, "Monomial", name) }

func unbox(x *Term) *Term {
	for x.op == "iface" {
		x = x.args[0]
	}
	return x
}

func (m *simplest) opened(f *Facts, n *Term) (*Term, *Facts, bool) {
	k, T := m.s.k(), m.s.T
	g, ok := m.s.assume(f, T.Not(T.Lt(k, T.Int(0))), T.Lt(k, n))
	return k, g, ok
}

// parts splits a list into the pieces that are not known to be empty.
func (m *simplest) parts(l *Term, f *Facts) (out []*Term) {
	l = m.s.norm(l, f)
	if l.op == "app" {
		for _, x := range l.args {
			out = append(out, m.parts(x, f)...)
		}
		return
	}
	if l.op != "nil" && !m.s.implied(m.s.T.EqInt(m.s.T.Len(l), m.s.T.Int(0)), f) {
		out = append(out, l)
	}
	return
}

// sameForm: two terms list the same factors with the same exponents.
func (m *simplest) sameForm(a, b *Term, f *Facts) bool {
	for _, n := range []string{"Exponents", "VariableFactors"} {
		if m.s.same(m.mono(a, n), m.mono(b, n), nil, f) != "" {
			return false
		}
	}
	return true
}

// unlike: no entry of l (of the first n) has the form of x.
func (m *simplest) unlike(n *Term, entry func(j *Term) *Term, x *Term, f *Facts) bool {
	s, T := m.s, m.s.T
	if s.implied(T.EqInt(n, T.Int(0)), f) {
		return true
	}
	for _, c := range f.order {
		if f.m[c] || c.op != "exists" {
			continue
		}
		if !s.implied(T.EqInt(c.args[0], n), f) {
			continue
		}
		j := s.k()
		if m.matches(T.open(c.args[1], j), entry(j), x) {
			return true
		}
	}
	return false
}

// matches: the condition is that the two terms are of the same form.
func (m *simplest) matches(c, a, b *Term) bool {
	if c.op != "call" || c.name != "MatchesFormOf" || len(c.args) != 2 {
		return false
	}
	u, v := unbox(c.args[0]), unbox(c.args[1])
	t := m.s.untyped
	a, b, u, v = t(a), t(b), t(u), t(v)
	return u == a && v == b || u == b && v == a
}

// distinct: no two terms of the list are alike; "" or what is wrong.
func (m *simplest) distinct(l *Term, f *Facts, depth int) string {
	s, T := m.s, m.s.T
	if depth > 20 {
		return "too deep"
	}
	ps := m.parts(l, f)
	if len(ps) != 1 {
		for i, p := range ps {
			if w := m.distinct(p, f, depth+1); w != "" {
				return w
			}
			for _, q := range ps[:i] {
				if !m.apart(p, q, f) && !m.apart(q, p, f) {
					return "terms of " + clip(p.String()) + " can be like terms of " + clip(q.String())
				}
			}
		}
		return ""
	}
	l = ps[0]
	switch l.op {
	case "lit":
		if len(l.args) == 1 {
			return ""
		}
	case "choice":
		for i := 0; i < len(l.args); i += 2 {
			if g, ok := s.assume(f, l.args[i]); ok {
				if w := m.distinct(l.args[i+1], g, depth+1); w != "" {
					return w
				}
			}
		}
		return ""
	case "fold":
		k, g, ok := m.opened(f, l.args[0])
		if !ok {
			return m.distinct(l.args[1], f, depth+1)
		}
		if w := m.distinct(l.args[1], f, depth+1); w != "" {
			return w
		}
		acc := s.k()
		gs, vs := T.alts(T.open(l.args[2], k, acc))
		for i, y := range vs {
			h, ok := s.assume(g, gs[i])
			if !ok {
				continue
			}
			if w := m.step(y, acc, h); w != "" {
				return w
			}
		}
		return ""
	case "filt":
		k, g, ok := m.opened(f, l.args[0])
		if !ok {
			return ""
		}
		h, ok := s.assume(g, T.open(l.args[1], k))
		if !ok {
			return ""
		}
		x := T.open(l.args[2], k)
		// the first of its form
		if m.unlike(k, func(j *Term) *Term { return T.Subst(x, k, j) }, x, h) {
			return ""
		}
		if src := m.source(x, k, l.args[0], h); src != nil {
			if m.unlike(k, func(j *Term) *Term { return T.Elem(src, j, nil) }, T.Elem(src, k, nil), h) {
				return ""
			}
			return m.distinct(src, f, depth+1)
		}
	case "map":
		k, g, ok := m.opened(f, l.args[0])
		if !ok {
			return ""
		}
		if src := m.source(T.open(l.args[1], k), k, l.args[0], g); src != nil {
			return m.distinct(src, f, depth+1)
		}
	}
	return "terms of the same form can both be listed by " + clip(l.String())
}

// source: x has the form of the entry k of a list of n terms; gives the list.
func (m *simplest) source(x, k, n *Term, f *Facts) *Term {
	vf := m.mono(x, "VariableFactors")
	if vf.op != "field" || vf.args[0].op != "elem" || vf.args[0].args[1] != k {
		return nil
	}
	src := vf.args[0].args[0]
	if src.free[k] || !m.s.implied(m.s.T.EqInt(n, m.s.T.Len(src)), f) && n != m.s.T.Len(src) || !m.sameForm(x, vf.args[0], f) {
		return nil
	}
	return src
}

// step: one round keeps the terms apart.
func (m *simplest) step(y, acc *Term, f *Facts) string {
	s, T := m.s, m.s.T
	y = s.norm(y, f)
	switch {
	case y == acc:
		return ""
	case y.op == "choice":
		for i := 0; i < len(y.args); i += 2 {
			if g, ok := s.assume(f, y.args[i]); ok {
				if w := m.step(y.args[i+1], acc, g); w != "" {
					return w
				}
			}
		}
		return ""
	case y.op == "app" && len(y.args) == 2 && y.args[0] == acc && y.args[1].op == "lit" && len(y.args[1].args) == 1:
		x := y.args[1].args[0]
		if m.unlike(T.Len(acc), func(j *Term) *Term { return T.Elem(acc, j, nil) }, x, f) {
			return ""
		}
		return "a term is listed although a like term can be there: " + clip(x.String())
	case y.op == "set" && y.args[0] == acc:
		i, x := y.args[1], y.args[2]
		old := T.Elem(acc, i, x.typ)
		if m.sameForm(x, old, f) {
			return ""
		}
		if i.op == "first" || i.op == "last" {
			if body := T.open(i.args[1], i); body.op == "call" && body.name == "MatchesFormOf" {
				for _, z := range body.args {
					if m.sameForm(x, unbox(z), f) {
						return ""
					}
				}
			}
		}
		return "a term is replaced by one of another form: " + clip(x.String())
	}
	return "not understood: " + clip(y.String())
}

// apart: every term of a has factors, no term of b has.
func (m *simplest) apart(a, b *Term, f *Facts) bool {
	T := m.s.T
	bare := func(x *Term) *Term { return T.EqInt(T.Len(m.mono(x, "VariableFactors")), T.Int(0)) }
	return m.every(a, func(x *Term) *Term { return T.Not(bare(x)) }, f, 0) && m.every(b, bare, f, 0)
}

// every: a condition about the form of a term holds for all of the list.
func (m *simplest) every(l *Term, cond func(x *Term) *Term, f *Facts, depth int) bool {
	s, T := m.s, m.s.T
	if depth > 20 {
		return false
	}
	for _, p := range m.parts(l, f) {
		switch p.op {
		case "lit":
			for _, x := range p.args {
				if !s.implied(cond(x), f) {
					return false
				}
			}
		case "choice":
			for i := 0; i < len(p.args); i += 2 {
				if g, ok := s.assume(f, p.args[i]); ok && !m.every(p.args[i+1], cond, g, depth+1) {
					return false
				}
			}
		case "filt", "map":
			k, g, ok := m.opened(f, p.args[0])
			if !ok {
				continue
			}
			body := p.args[1]
			if p.op == "filt" {
				if g, ok = s.assume(g, T.open(p.args[1], k)); !ok {
					continue
				}
				body = p.args[2]
			}
			x := T.open(body, k)
			if s.implied(cond(x), g) {
				continue
			}
			if src := m.source(x, k, p.args[0], g); src == nil || !m.every(src, cond, f, depth+1) {
				return false
			}
		case "fold":
			if !m.every(p.args[1], cond, f, depth+1) {
				return false
			}
			k, g, ok := m.opened(f, p.args[0])
			if !ok {
				continue
			}
			acc := s.k()
			gs, vs := T.alts(T.open(p.args[2], k, acc))
			for i, y := range vs {
				h, ok := s.assume(g, gs[i])
				if !ok || y == acc {
					continue
				}
				switch y = s.norm(y, h); {
				case y.op == "app" && y.args[0] == acc:
					for _, z := range y.args[1:] {
						if !m.every(z, cond, h, depth+1) {
							return false
						}
					}
				case y.op == "set" && y.args[0] == acc:
					if !m.sameForm(y.args[2], T.Elem(acc, y.args[1], y.args[2].typ), h) && !s.implied(cond(y.args[2]), h) {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// nonzero: no term of the list is zero.
func (m *simplest) nonzero(l *Term, f *Facts) string {
	s, T := m.s, m.s.T
	zero := func(x *Term, g *Facts) bool {
		return !s.refuted(T.Eq(s.norm(m.mono(x, "Coefficient"), g), T.Float(0)), g)
	}
	for _, p := range m.parts(l, f) {
		switch p.op {
		case "choice":
			for i := 0; i < len(p.args); i += 2 {
				if g, ok := s.assume(f, p.args[i]); ok {
					if w := m.nonzero(p.args[i+1], g); w != "" {
						return w
					}
				}
			}
			continue
		case "lit":
			for _, x := range p.args {
				if zero(x, f) {
					return "a zero term can be listed next to others: " + clip(x.String())
				}
			}
			continue
		case "filt", "map":
			k, g, ok := m.opened(f, p.args[0])
			if !ok {
				continue
			}
			x := T.open(p.args[1], k)
			if p.op == "filt" {
				if g, ok = s.assume(g, x); !ok {
					continue
				}
				x = T.open(p.args[2], k)
			}
			if !zero(x, g) {
				continue
			}
		}
		return "a zero term can be listed by " + clip(p.String())
	}
	return ""
}

func (m *simplest) collected() {
	s, T := m.s, m.s.T
	const name = "Polynomial.Simplify"
	res, _, fn := s.run("collected", name, nil, names("MatchesFormOf"), nil)
	if res == nil {
		return
	}
	pos := s.p.Pos(fn.Pos())
	if len(res.Rets) == 0 {
		s.r.Bad("collected", name, pos, "the simplification gives no result")
	}
	like, zero := "", ""
	for _, rt := range res.Rets {
		l := m.v.c.field(rt.Vals[0], "Polynomial", "Monomials")
		ps := m.parts(l, rt.Facts)
		if len(ps) == 1 && s.implied(T.EqInt(T.Len(ps[0]), T.Int(1)), rt.Facts) {
			continue // a single term
		}
		if w := m.distinct(l, rt.Facts, 0); w != "" {
			like = w
		}
		if w := m.nonzero(l, rt.Facts); w != "" {
			zero = w
		}
	}
	for _, x := range [][2]string{{"collected", like}, {"no-zero-terms", zero}} {
		if x[1] != "" {
			s.r.Bad(x[0], name, pos, x[1])
		} else {
			s.r.OK(name)
		}
	}
}

// ---- the simplest kind -----------------------------------------------------

// exponents: every exponent of a term is zero.
func (m *simplest) flat(x *Term) *Term {
	T, k := m.s.T, m.s.k()
	e := m.mono(x, "Exponents")
	return m.v.c.every(T.Len(e), k, T.EqInt(T.Elem(e, k, types.Typ[types.Int]), T.Int(0)))
}

// plain: the term is just a variable.
func (m *simplest) plain(x *Term) *Term {
	T := m.s.T
	one := T.Int(1)
	return T.And([]*Term{T.Eq(m.mono(x, "Coefficient"), T.Float(1)), T.Not(T.Eq(m.mono(x, "Coefficient"), T.Float(0))), T.EqInt(T.Len(m.mono(x, "VariableFactors")), one), T.EqInt(T.Len(m.mono(x, "Exponents")), one),
		T.EqInt(T.Elem(m.mono(x, "Exponents"), T.Int(0), types.Typ[types.Int]), one)})
}

// a kind of result and when it is the simplest one.
type lowest struct {
	kind string
	when []*Term
	then func(c *Term) *Term // what a call tells in this case
}

// kinds checks that every result is of the kind its case asks for.
func (m *simplest) lowest(name, opaque string, cases func(a []*Term) []lowest) {
	s := m.s
	s.fresh()
	res, args, fn := s.run("lowest-kind", name, nil, names(opaque), nil)
	if res == nil {
		return
	}
	bad := ""
	for _, rt := range res.Rets {
		gs, vs := s.T.alts(rt.Vals[0])
		for i, y := range vs {
			g, ok := s.assume(rt.Facts, gs[i])
			if !ok {
				continue
			}
			for _, c := range cases(args) {
				if y.op == "iface" && typeShort(y.typ) == c.kind {
					continue
				}
				h, ok := s.assume(g, c.when...)
				if ok && c.then != nil {
					h, ok = m.told(h, c.then)
				}
				if ok && !s.contradictory(h) {
					got := y.String()
					if y.op == "iface" {
						got = "a " + typeShort(y.typ)
					}
					bad = "where a " + c.kind + " would do, the result is " + clip(got) + " [" + clip(factsText(g)) + "]"
				}
			}
		}
	}
	switch {
	case len(res.Rets) == 0:
		s.r.Bad("lowest-kind", name, s.p.Pos(fn.Pos()), "the operation gives no result")
	case bad != "":
		s.r.Bad("lowest-kind", name, s.p.Pos(fn.Pos()), bad)
	default:
		s.r.OK(name)
	}
}

// told adds what the calls mentioned in the facts answer.
func (m *simplest) told(f *Facts, then func(c *Term) *Term) (*Facts, bool) {
	var cs []*Term
	seen := map[*Term]bool{}
	for _, x := range f.order {
		m.s.T.Rewrite(x, func(y *Term) *Term {
			if y.op == "call" && y.loose == 0 && !seen[y] {
				seen[y] = true
				if c := then(y); c != nil {
					cs = append(cs, c)
				}
			}
			return nil
		})
	}
	return m.s.assume(f, cs...)
}

func (m *simplest) scalars() {
	s := m.s
	for _, k := range []string{"K", "Variable"} {
		m.lowest(k+".AsSimplifiedExpression", "", func(a []*Term) []lowest { return []lowest{{kind: k}} })
	}
	m.lowest("Monomial.AsSimplifiedExpression", "", func(a []*Term) []lowest {
		T := s.T
		x := a[0]
		zero := T.Eq(m.mono(x, "Coefficient"), T.Float(0))
		flat := T.Or(m.flat(x), zero)
		apart := T.Not(T.And([]*Term{zero, T.Eq(m.mono(x, "Coefficient"), T.Float(1))}))
		return []lowest{
			{kind: "K", when: []*Term{flat, apart}},
			{kind: "Variable", when: []*Term{m.plain(x)}},
			{kind: "Monomial", when: []*Term{T.Not(flat), T.Not(m.plain(x)), apart}},
		}
	})
	m.lowest("Polynomial.AsSimplifiedExpression", "Simplify Degree IsVariable IsLinear Variables", func(a []*Term) []lowest {
		T := s.T
		pt, mt := s.p.KindType("Polynomial"), s.p.KindType("Monomial")
		r := T.Call("Simplify", []*Term{T.Iface(a[0], pt)}, pt)
		ms := m.v.c.field(r, "Polynomial", "Monomials")
		first := T.Elem(ms, T.Int(0), mt)
		k := s.k()
		flat := m.v.c.every(T.Len(ms), k, m.flat(T.Elem(ms, k, mt)))
		some := T.Lt(T.Int(0), T.Len(ms))
		single := T.EqInt(T.Len(ms), T.Int(1))
		of := func(c *Term) string {
			if len(c.args) == 0 {
				return ""
			}
			switch m.s.untyped(unbox(c.args[0])) {
			case s.untyped(r):
				return "sum"
			case s.untyped(first):
				return "first"
			}
			return ""
		}
		degree := func(lo, hi int64, variable bool) func(c *Term) *Term {
			return func(c *Term) *Term {
				who := of(c)
				if who == "" {
					return nil
				}
				switch c.name {
				case "Degree":
					if who == "first" && hi > 1 && lo == 1 && !variable {
						return nil
					}
					return T.And([]*Term{T.Not(T.Lt(c, T.Int(lo))), T.Not(T.Lt(T.Int(hi), c))})
				case "IsLinear":
					if hi <= 1 && who == "sum" {
						return c
					}
				case "Variables":
					if variable {
						vt := s.p.KindType("Variable")
						id := func(x *Term) *Term { return m.v.c.field(x, "Variable", "ID") }
						return T.And([]*Term{T.EqInt(T.Len(c), T.Int(1)), T.EqInt(id(T.Elem(c, T.Int(0), vt)), id(T.Elem(m.mono(first, "VariableFactors"), T.Int(0), vt)))})
					}
				case "IsVariable":
					if !variable {
						return T.Not(c)
					}
					if l := s.untyped(c.args[1]); l.op == "elem" && (l.args[0].op == "call" && l.args[0].name == "Variables" || l.args[0] == s.untyped(m.mono(first, "VariableFactors"))) {
						return c
					}
				}
				return nil
			}
		}
		const many = 1 << 40
		return []lowest{
			{"K", []*Term{some, flat}, degree(0, 0, false)},
			{"Variable", []*Term{single, m.plain(first)}, degree(1, 1, true)},
			{"Monomial", []*Term{single, T.Not(flat), T.Not(m.plain(first))}, degree(1, many, false)},
			{"Polynomial", []*Term{T.Lt(T.Int(1), T.Len(ms)), T.Not(flat)}, func(c *Term) *Term {
				if of(c) == "sum" && c.name == "Degree" {
					return T.Lt(T.Int(0), c)
				}
				return nil
			}},
		}
	})
}

// lists: the kind of a list of scalars is the simplest all entries fit in.
func (m *simplest) lists() {
	s := m.s
	for shape, name := range []string{"ConcretizeVectorExpression", "ConcretizeMatrixExpression"} {
		m.lowest(name, "", func(a []*Term) []lowest {
			T := s.T
			et := s.p.KindType("ScalarExpression")
			all := func(kind string, not bool) *Term {
				k := s.k()
				is := func(x *Term) *Term {
					c := T.TypeIs(x, s.p.KindType(kind))
					if not {
						c = T.Not(c)
					}
					return c
				}
				if shape == 0 {
					return m.v.c.every(T.Len(a[0]), k, is(T.Elem(a[0], k, et)))
				}
				row, j := T.Elem(a[0], k, types.NewSlice(et)), s.k()
				return m.v.c.every(T.Len(a[0]), k, m.v.c.every(T.Len(row), j, is(T.Elem(row, j, et))))
			}
			at0 := func(kind string) *Term {
				x := T.Elem(a[0], T.Int(0), et)
				if shape == 1 {
					x = T.Elem(T.Elem(a[0], T.Int(0), types.NewSlice(et)), T.Int(0), et)
				}
				return T.TypeIs(x, s.p.KindType(kind))
			}
			ks, vs, ps := all("K", false), all("Variable", false), all("Polynomial", true)
			what := [][4]string{{"KVector", "VariableVector", "MonomialVector", "PolynomialVector"}, {"KMatrix", "VariableMatrix", "MonomialMatrix", "PolynomialMatrix"}}[shape]
			some := T.Lt(T.Int(0), T.Len(a[0]))
			if shape == 1 {
				some = T.And([]*Term{some, T.Lt(T.Int(0), T.Len(T.Elem(a[0], T.Int(0), types.NewSlice(et))))})
			}
			return []lowest{
				{kind: what[0], when: []*Term{some, ks, at0("K")}},
				{kind: what[1], when: []*Term{some, vs, at0("Variable")}},
				{kind: what[2], when: []*Term{some, T.Not(ks), T.Not(vs), ps}},
				{kind: what[3], when: []*Term{some, T.Not(ps)}},
			}
		})
	}
}

// entries: every entry of a simplified vector or matrix is a simplified entry
// of the operand, and the kind is the simplest they fit in.
func (m *simplest) entries(name string) {
	s, T := m.s, m.s.T
	s.fresh()
	T = s.T
	fn := s.fn(name)
	if fn == nil {
		s.r.Bad("entries", name, "-", "the operation no longer exists")
		return
	}
	kind, op := splitName(name)
	opq := "AsSimplifiedExpression ConcretizeVectorExpression ConcretizeMatrixExpression symbolic.ConcretizeVectorExpression symbolic.ConcretizeMatrixExpression"
	if op != "Simplify" {
		opq += " Simplify"
	}
	res, a, fn := s.run("entries", name, nil, names(opq), nil)
	bad := ""
	for _, rt := range res.Rets {
		gs, vs := T.alts(rt.Vals[0])
		for i, y := range vs {
			if g, ok := s.assume(rt.Facts, gs[i]); ok {
				if w := m.entry(kind, y, a[0], g); w != "" {
					bad = w
				}
			}
		}
	}
	switch {
	case len(res.Rets) == 0:
		s.r.Bad("entries", name, s.p.Pos(fn.Pos()), "the operation gives no result")
	case bad != "":
		s.r.Bad("entries", name, s.p.Pos(fn.Pos()), bad)
	default:
		s.r.OK(name)
	}
}

func (m *simplest) entry(kind string, y, x *Term, f *Facts) string {
	s, T := m.s, m.s.T
	y = unbox(s.norm(y, f))
	simple := map[string]bool{"KVector": true, "KMatrix": true, "VariableVector": true, "VariableMatrix": true}
	if s.untyped(y) == s.untyped(x) && simple[kind] {
		return ""
	}
	if y.op == "call" && (y.name == "Simplify" || y.name == "AsSimplifiedExpression") && s.untyped(unbox(y.args[0])) == s.untyped(x) {
		return ""
	}
	if y.op != "call" || !strings.HasPrefix(y.name, "symbolic.Concretize") {
		return "the result is not of the simplest kind its entries fit in: " + clip(y.String())
	}
	ks := []*Term{s.k()}
	g, ok := s.assume(f, T.Not(T.Lt(ks[0], T.Int(0))), T.Lt(ks[0], T.Len(x)))
	if shapeOf(kind) == 2 && ok {
		ks = append(ks, s.k())
		g, ok = s.assume(g, T.Not(T.Lt(ks[1], T.Int(0))), T.Lt(ks[1], T.Len(T.Elem(x, ks[0], elemTypeOf(x.typ)))))
	}
	if !ok {
		return "not understood"
	}
	got, want := y.args[0], x
	for _, k := range ks {
		got, want = T.Elem(got, k, nil), T.Elem(want, k, elemTypeOf(want.typ))
	}
	got = s.norm(got, g)
	for got.op == "assert" || got.op == "iface" {
		got = got.args[0]
	}
	if got.op != "call" || got.name != "AsSimplifiedExpression" || s.untyped(unbox(got.args[0])) != s.untyped(s.norm(want, g)) {
		return "an entry is not the simplified entry of the operand: " + clip(got.String())
	}
	return ""
}

// asIs: products whose terms are given as they come, without simplification.
var asIs = regexp.MustCompile(`^(K\.Multiply\(Monomial|Monomial\.Multiply\((K|float64|int|Variable|Monomial)|MonomialMatrix\.Multiply\((K|float64))\)`)

// simple: the value is the outcome of a simplification.
func (m *simplest) simple(t *Term, f *Facts) bool {
	s, T := m.s, m.s.T
	t = s.norm(t, f)
	gs, vs := T.alts(t)
	if len(vs) > 1 {
		for i, y := range vs {
			if g, ok := s.assume(f, gs[i]); ok && !m.simple(y, g) {
				return false
			}
		}
		return true
	}
	for t.op == "assert" {
		t = t.args[0]
	}
	switch t.op {
	case "iface":
		switch k := typeShort(t.typ); k {
		case "K", "Variable", "KVector", "KMatrix", "VariableVector", "VariableMatrix":
			return true
		case "Monomial":
			x := t.args[0]
			return s.proves(T.And([]*Term{T.Not(m.flat(x)), T.Not(m.plain(x)), T.Not(T.Eq(m.mono(x, "Coefficient"), T.Float(0)))}), f)
		case "PolynomialVector", "PolynomialMatrix":
			return m.entrywise(t.args[0], shapeOf(k), f, func(x *Term, g *Facts) bool {
				return x.op == "call" && x.name == "Simplify"
			})
		}
	case "fold":
		k, acc := s.k(), s.k()
		if !m.simple(t.args[1], f) {
			return false
		}
		g, ok := s.assume(f, T.Not(T.Lt(k, T.Int(0))), T.Lt(k, t.args[0]))
		if !ok {
			return true
		}
		gs, vs := T.alts(T.open(t.args[2], k, acc))
		for i, y := range vs {
			if h, ok := s.assume(g, gs[i]); ok && y != acc && !m.simple(y, h) {
				return false
			}
		}
		return true
	case "call":
		switch strings.TrimPrefix(t.name, "symbolic.") {
		case "AsSimplifiedExpression", "Plus", "Minus":
			return true
		case "ConcretizeExpression", "ConcretizeVectorExpression", "ConcretizeMatrixExpression":
			if a := t.args[0]; t.name == "symbolic.ConcretizeExpression" && (a.op != "iface" || typeShort(a.typ)[0] != '[') {
				return true // a scalar, which is simplified
			}
			depth := 1
			if t.args[0].typ != nil && strings.HasPrefix(t.args[0].typ.String(), "[][]") || t.name == "symbolic.ConcretizeMatrixExpression" {
				depth = 2
			}
			return m.entrywise(unbox(t.args[0]), depth, f, func(x *Term, g *Facts) bool { return m.simple(x, g) })
		case "Simplify":
			return t.typ == nil || typeShort(t.typ) != "Polynomial"
		case "Multiply":
			l, r := t.args[0], t.args[1]
			if l.op != "iface" {
				return false
			}
			k := typeShort(l.typ) + ".Multiply("
			if r.op == "iface" {
				return !asIs.MatchString(k + typeShort(r.typ) + ")")
			}
			return !strings.HasPrefix(k, "K.") && !strings.HasPrefix(k, "Monomial.") && !strings.HasPrefix(k, "MonomialMatrix.")
		}
	}
	return false
}

// entrywise: the condition holds for every entry of a list (of lists).
func (m *simplest) entrywise(l *Term, depth int, f *Facts, cond func(x *Term, g *Facts) bool) bool {
	s := m.s
	k, g, ok := m.opened(f, s.T.Len(l))
	if !ok {
		return true
	}
	x := s.norm(s.T.Elem(l, k, elemTypeOf(l.typ)), g)
	if depth > 1 {
		return m.entrywise(x, depth-1, g, cond)
	}
	return cond(x, g)
}

// results: what an operation returns has been simplified, by itself or by the
// operation of this list it hands the work to (there is no circle, by C19).
func (m *simplest) results(name, right string) {
	s := m.s
	s.fresh()
	ks := []string{right}
	res, _, fn := s.run("results", name, ks, valueOps, nil)
	if res == nil {
		return
	}
	lab := label(name, ks)
	bad := ""
	for _, rt := range res.Rets {
		if !m.simple(rt.Vals[0], rt.Facts) {
			bad = "the result is not simplified: " + clip(rt.Vals[0].String())
		}
	}
	switch {
	case len(res.Rets) == 0:
		s.r.Bad("results", lab, s.p.Pos(fn.Pos()), "the operation gives no result")
	case bad != "":
		s.r.Bad("results", lab, s.p.Pos(fn.Pos()), bad)
	default:
		s.r.OK(lab)
	}
}

func checkSimplest(p *Program, r *Report) {
	r.Explain = "Simplify and AsSimplifiedExpression of every kind evaluated symbolically; the list of terms of a simplified polynomial examined by induction over the rounds of the loops that build it; the kind of every result compared with the simplest kind its value fits in, case by case"
	r.Rule("collected: no two terms of a simplified polynomial are of the same form")
	r.Rule("no-zero-terms: no term of a simplified polynomial is zero, unless it is the only one")
	r.Rule("lowest-kind: a constant comes as a constant, a variable as a variable, a single term as a monomial")
	r.Rule("entries: every entry of a simplified vector or matrix is a simplified entry of the operand, and the kind is the simplest all entries fit in")
	r.Rule("results: what Plus, Minus and Multiply return has been simplified (products with a single monomial excepted)")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	m := &simplest{s: NewSpec(p, r)}
	m.v = &verdicts{s: m.s, c: &coefs{s: m.s}}
	n := 0
	m.collected()
	m.scalars()
	m.lists()
	for _, k := range append(append([]string{}, vectorKinds...), matrixKinds...) {
		if strings.HasPrefix(k, "mat.") {
			continue
		}
		m.entries(k + ".AsSimplifiedExpression")
		if s := k + ".Simplify"; m.s.fn(s) != nil {
			m.entries(s)
		}
	}
	for _, l := range append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...) {
		for _, op := range []string{"Plus", "Minus", "Multiply"} {
			for _, x := range valuePairs(map[string]string{"Plus": "C07", "Minus": "C07", "Multiply": "C08"}[op]) {
				if x[0] == l+"."+op && x[1] != "" && x[1][0] != '?' && !asIs.MatchString(label(x[0], x[1:])) {
					m.results(x[0], x[1])
					n++
				}
			}
		}
	}
	r.Min("sums and products", n, 380)
}
