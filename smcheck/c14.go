package main

import (
	"go/types"
	"strings"
)

// C14: the list of variables of an expression names exactly its variables,
// each once. Lists are read as sets: a comprehension is one generator of
// elements.

func init() { checks["C14"] = checkVariables }

// comp stands for { elem | ks[i] < ns[i], gs }.
type comp struct {
	ks, ns, gs []*Term
	elem       *Term
}

var varOps = names("symbolic.UniqueVars symbolic.UnionOfVariables symbolic.Unique symbolic.VariablesInThisConstraint Variables VariableIDs NumVariables")

type varSets struct {
	s     *Spec
	why   string
	plain bool // elements are plain values
}

func (v *varSets) fail(why string) []comp {
	if v.why == "" {
		v.why = why
	}
	return nil
}

// members gives the elements of the list t.
func (v *varSets) members(t *Term, f *Facts, depth int) []comp {
	s, T := v.s, v.s.T
	if depth > 30 {
		return v.fail("too deep")
	}
	rec := func(x *Term) []comp { return v.members(x, f, depth+1) }
	t = s.norm(t, f)
	under := func(n *Term, body func(k *Term) *Term) []comp {
		k := s.k()
		var out []comp
		for _, c := range rec(body(k)) {
			c.ks = append([]*Term{k}, c.ks...)
			c.ns = append([]*Term{n}, c.ns...)
			out = append(out, c)
		}
		return out
	}
	switch t.op {
	case "nil", "zeros":
		if t.op == "nil" || s.implied(T.EqInt(T.Len(t), T.Int(0)), f) {
			return []comp{}
		}
	case "lit":
		out := []comp{}
		for _, x := range t.args {
			gs, vs := T.alts(x)
			for i := range vs {
				out = append(out, comp{gs: v.guards(gs[i]), elem: vs[i]})
			}
		}
		return out
	case "app":
		out := []comp{}
		for _, x := range t.args {
			out = append(out, rec(x)...)
		}
		return out
	case "choice":
		out := []comp{}
		for i := 0; i < len(t.args); i += 2 {
			for _, c := range rec(t.args[i+1]) {
				c.gs = append(v.guards(t.args[i]), c.gs...)
				out = append(out, c)
			}
		}
		return out
	case "flat":
		return under(t.args[0], func(k *Term) *Term { return T.open(t.args[1], k) })
	case "map":
		k := s.k()
		body := T.open(t.args[1], k)
		if body.op == "mapkey" {
			return v.keys(body.args[0], f, depth+1)
		}
		// the entries of a whole list, one by one
		if body.op == "elem" && body.args[1] == k && t.args[0] == T.Len(body.args[0]) {
			return rec(body.args[0])
		}
		return under(t.args[0], func(k *Term) *Term { return T.Lit([]*Term{T.open(t.args[1], k)}) })
	case "filt":
		if k, x := v.firsts(t, f); x != nil {
			return []comp{{ks: []*Term{k}, ns: []*Term{t.args[0]}, elem: x}}
		}
		k := s.k()
		g := T.open(t.args[1], k)
		var out []comp
		for _, c := range rec(T.Lit([]*Term{T.open(t.args[2], k)})) {
			c.ks, c.ns = append([]*Term{k}, c.ks...), append([]*Term{t.args[0]}, c.ns...)
			c.gs = append(v.guards(g), c.gs...)
			out = append(out, c)
		}
		return out
	case "fold":
		if k, x := v.absent(t, f); x != nil {
			out := rec(t.args[1])
			return append(out, comp{ks: []*Term{k}, ns: []*Term{t.args[0]}, elem: x})
		}
		if k, gs, xs, _ := v.grown(t); k != nil {
			out := rec(t.args[1])
			for i, x := range xs {
				for _, c := range rec(x) {
					c.ks, c.ns = append([]*Term{k}, c.ks...), append([]*Term{t.args[0]}, c.ns...)
					c.gs = append(v.guards(gs[i]), c.gs...)
					out = append(out, c)
				}
			}
			return out
		}
		return v.fail("a loop that builds the list is not an append-if-absent loop: " + clip(t.String()))
	case "call":
		switch t.name {
		case "symbolic.UniqueVars", "symbolic.UnionOfVariables", "symbolic.Unique":
			if t.name != "symbolic.UnionOfVariables" {
				return rec(t.args[0])
			}
			if l := t.args[0]; l.op == "lit" {
				return rec(T.App(l.args...))
			}
			return under(T.Len(t.args[0]), func(k *Term) *Term { return T.Elem(t.args[0], k, nil) })
		case "symbolic.VariablesInThisConstraint":
			if x := t.args[0]; x.op == "iface" {
				return v.kind(s.kindName(x), x.args[0], f, depth)
			}
			return v.kind("Constraint", t.args[0], f, depth)
		case "Variables":
			if x := t.args[0]; x.op == "iface" {
				return v.kind(s.kindName(x), x.args[0], f, depth)
			} else if x.typ != nil && strings.HasSuffix(x.typ.String(), "Constraint") {
				return v.kind("Constraint", x, f, depth)
			}
		}
	}
	k := s.k()
	return []comp{{ks: []*Term{k}, ns: []*Term{T.Len(t)}, elem: T.Elem(t, k, elemType(t))}}
}

func elemType(t *Term) types.Type {
	if t.typ != nil {
		if sl, ok := t.typ.Underlying().(*types.Slice); ok {
			return sl.Elem()
		}
	}
	return nil
}

func (v *varSets) guards(g *Term) []*Term {
	if g == v.s.T.Bool(true) {
		return nil
	}
	return []*Term{g}
}

// keys: the keys of a map that was filled entry by entry.
func (v *varSets) keys(m *Term, f *Facts, depth int) []comp {
	s, T := v.s, v.s.T
	switch m.op {
	case "emptymap", "nil":
		return []comp{}
	case "mapset":
		return append(v.keys(m.args[0], f, depth+1), comp{elem: m.args[1]})
	case "fold":
		k, acc := s.k(), s.k()
		out := v.keys(m.args[1], f, depth+1)
		body := T.open(m.args[2], k, acc)
		gs, vs := T.alts(body)
		for i, x := range vs {
			if x == acc {
				continue
			}
			if x.op != "mapset" || x.args[0] != acc || x.args[1].free[acc] || gs[i].free[acc] {
				return v.fail("a map is not filled entry by entry")
			}
			out = append(out, comp{ks: []*Term{k}, ns: []*Term{m.args[0]}, gs: v.guards(gs[i]), elem: x.args[1]})
		}
		return out
	}
	return v.fail("a map is not filled entry by entry")
}

// kind: the variables of an expression of a concrete kind, by its definition.
func (v *varSets) kind(kind string, x *Term, f *Facts, depth int) []comp {
	s, T := v.s, v.s.T
	list := func(l *Term, each func(e *Term) *Term) *Term {
		k := s.k()
		return T.mk(Term{op: "flat", args: []*Term{T.Len(l), T.close(each(T.Elem(l, k, nil)), []*Term{k})}})
	}
	field := func(e *Term, kind, name string) *Term {
		st := s.p.KindType(kind)
		return T.Field(e, fieldIndex(st, name), st)
	}
	mono := func(e *Term) *Term { return field(e, "Monomial", "VariableFactors") }
	pol := func(e *Term) *Term { return list(field(e, "Polynomial", "Monomials"), mono) }
	var l *Term
	switch kind {
	case "K", "KVector", "KMatrix":
		return []comp{}
	case "Variable":
		l = T.Lit([]*Term{x})
	case "VariableVector":
		l = x
	case "VariableMatrix":
		l = list(x, func(e *Term) *Term { return e })
	case "Monomial":
		l = mono(x)
	case "MonomialVector":
		l = list(x, mono)
	case "MonomialMatrix":
		l = list(x, func(e *Term) *Term { return list(e, mono) })
	case "Polynomial":
		l = pol(x)
	case "PolynomialVector":
		l = list(x, pol)
	case "PolynomialMatrix":
		l = list(x, func(e *Term) *Term { return list(e, pol) })
	case "ScalarConstraint", "VectorConstraint", "MatrixConstraint":
		l = T.App(T.Call("Variables", []*Term{field(x, kind, "LeftHandSide")}, nil), T.Call("Variables", []*Term{field(x, kind, "RightHandSide")}, nil))
	case "Constraint":
		l = T.App(T.Call("Variables", []*Term{T.Call("Left", []*Term{x}, nil)}, nil), T.Call("Variables", []*Term{T.Call("Right", []*Term{x}, nil)}, nil))
	default:
		return v.fail("unknown kind " + kind)
	}
	return v.members(l, f, depth+1)
}

// grown recognises a loop that joins a list to what it has in some or all of
// its rounds; it gives back the index of the round, what is joined and when,
// and whether duplicates are dropped in each of those rounds.
func (v *varSets) grown(t *Term) (k *Term, gs, xs []*Term, unique bool) {
	s, T := v.s, v.s.T
	k, acc := s.k(), s.k()
	alts, vs := T.alts(T.open(t.args[2], k, acc))
	unique = true
	for i, y := range vs {
		if alts[i].free[acc] {
			return nil, nil, nil, false
		}
		if y == acc {
			continue
		}
		parts := []*Term{y}
		if y.op == "call" && (y.name == "symbolic.UniqueVars" || y.name == "symbolic.UnionOfVariables") {
			parts = y.args[:1]
			if y.name == "symbolic.UnionOfVariables" {
				if parts[0].op != "lit" {
					return nil, nil, nil, false
				}
				parts = parts[0].args
			}
		} else {
			unique = false
		}
		var rest []*Term
		had := false
		for _, p := range parts {
			each := []*Term{p}
			if p.op == "app" {
				each = p.args
			}
			for _, z := range each {
				if z == acc {
					had = true
				} else {
					rest = append(rest, z)
				}
				if z != acc && z.free[acc] {
					return nil, nil, nil, false
				}
			}
		}
		if !had {
			return nil, nil, nil, false
		}
		gs, xs = append(gs, alts[i]), append(xs, T.App(rest...))
	}
	if len(xs) == 0 {
		return nil, nil, nil, false
	}
	return k, gs, xs, unique
}

// absent recognises a loop that appends x(k) to its list exactly when no entry
// of the list has the same identity; it gives back k and x.
func (v *varSets) absent(t *Term, f *Facts) (k, x *Term) {
	s, T := v.s, v.s.T
	if t.op != "fold" {
		return nil, nil
	}
	k, acc := s.k(), s.k()
	body := v.seen(T.open(t.args[2], k, acc))
	gs, vs := T.alts(body)
	g0, ok := s.assume(f, T.Lt(k, t.args[0]), T.Not(T.Lt(k, T.Int(0))))
	if !ok {
		return nil, nil
	}
	for _, y := range vs {
		if y == acc {
			continue
		}
		if y.op != "app" || len(y.args) != 2 || y.args[0] != acc || y.args[1].op != "lit" || len(y.args[1].args) != 1 {
			return nil, nil
		}
		if z := y.args[1].args[0]; z.free[acc] || x != nil && z != x {
			return nil, nil
		}
		x = y.args[1].args[0]
	}
	if x == nil {
		return nil, nil
	}
	j := s.k()
	in := T.mk(Term{op: "exists", args: []*Term{T.Len(acc), T.close(v.sameID(x, T.Elem(acc, j, x.typ)), []*Term{j})}})
	before := v.before(k, x)
	empty := s.implied(T.EqInt(T.Len(t.args[1]), T.Int(0)), f)
	for i, y := range vs {
		g, ok := s.assume(g0, gs[i])
		if !ok {
			continue
		}
		if y == acc {
			if !s.implied(in, g) && !(empty && s.implied(before, g)) {
				return nil, nil
			}
			continue
		}
		if s.refuted(in, g) || empty && s.refuted(before, g) {
			continue
		}
		// the first round, where the list is still the initial one, apart
		first, later := T.EqInt(k, T.Int(0)), T.Lt(T.Int(0), k)
		if h, ok := s.assume(g, later); ok && !s.refuted(in, h) {
			return nil, nil
		}
		if h, ok := s.assume(g, first); ok && !s.implied(T.EqInt(T.Len(t.args[1]), T.Int(0)), h) {
			return nil, nil
		}
	}
	return k, x
}

// before: an earlier round had an element of the same identity.
func (v *varSets) before(k, x *Term) *Term {
	T, j := v.s.T, v.s.k()
	return T.mk(Term{op: "exists", args: []*Term{k, T.close(v.sameID(T.Subst(x, k, j), x), []*Term{j})}})
}

// seen reads a lookup in a map that collects the keys of the rounds so far as
// the question whether one of those rounds had that key.
func (v *varSets) seen(t *Term) *Term {
	T := v.s.T
	return T.Rewrite(t, func(x *Term) *Term {
		if x.op != "mapget" && x.op != "mapok" || x.args[0].op != "fold" || x.args[0].args[1].op != "emptymap" {
			return nil
		}
		l := x.args[0]
		j, m := v.s.k(), v.s.k()
		var key *Term
		gs, vs := T.alts(T.open(l.args[2], j, m))
		for _, y := range vs {
			if y != m && (y.op != "mapset" || y.args[0] != m || x.op == "mapget" && y.args[2] != T.Bool(true) || y.args[1].free[m] || key != nil && key != y.args[1]) {
				return nil
			}
			if y != m {
				key = y.args[1]
			}
		}
		if key == nil {
			return nil
		}
		for i, y := range vs {
			if y != m {
				continue
			}
			had := T.mk(Term{op: x.op, args: []*Term{m, key}, typ: x.typ})
			if g, ok := v.s.assume(NewFacts(), gs[i]); ok && !v.s.implied(had, g) {
				return nil
			}
		}
		return T.mk(Term{op: "exists", args: []*Term{l.args[0], T.close(T.EqInt(key, x.args[1]), []*Term{j})}})
	})
}

// firsts: the filtered list keeps the first of every identity.
func (v *varSets) firsts(t *Term, f *Facts) (k, x *Term) {
	s, T := v.s, v.s.T
	k = s.k()
	g, x := v.seen(T.open(t.args[1], k)), T.open(t.args[2], k)
	b := v.before(k, x)
	h, ok := s.assume(f, T.Lt(k, t.args[0]), T.Not(T.Lt(k, T.Int(0))))
	if !ok {
		return nil, nil
	}
	if h1, ok := s.assume(h, g); ok && !s.refuted(b, h1) {
		return nil, nil
	}
	if h2, ok := s.assume(h, T.Not(g)); ok && !s.implied(b, h2) {
		return nil, nil
	}
	return k, x
}

func (v *varSets) sameID(a, b *Term) *Term {
	return v.s.T.EqInt(v.id(a), v.id(b))
}

// id is what tells variables (or plain values) apart.
func (v *varSets) id(x *Term) *Term {
	s := v.s
	if vt := s.p.KindType("Variable"); !v.plain && isVariable(x) {
		return s.T.Field(x, fieldIndex(vt, "ID"), vt)
	}
	return x
}

func isVariable(x *Term) bool {
	if x.typ != nil {
		return strings.HasSuffix(x.typ.String(), "symbolic.Variable")
	}
	if x.op == "elem" {
		switch y := x.args[0]; {
		case y.op == "field" && y.name == "VariableFactors", y.op == "call" && strings.HasSuffix(y.name, "Variables"):
			return true
		}
	}
	return false
}

// once: the list t names nothing twice.
func (v *varSets) once(t *Term, f *Facts, depth int) bool {
	s, T := v.s, v.s.T
	t = s.norm(t, f)
	switch t.op {
	case "nil":
		return true
	case "lit":
		return len(t.args) <= 1
	case "choice":
		for i := 0; i < len(t.args); i += 2 {
			if g, ok := s.assume(f, t.args[i]); ok && !v.once(t.args[i+1], g, depth+1) {
				return false
			}
		}
		return true
	case "call":
		switch t.name {
		case "symbolic.UniqueVars", "symbolic.UnionOfVariables", "symbolic.Unique", "symbolic.VariablesInThisConstraint", "Variables", "VariableIDs":
			return true
		}
	case "fold":
		if _, x := v.absent(t, f); x != nil {
			return v.once(t.args[1], f, depth+1) || s.implied(T.EqInt(T.Len(t.args[1]), T.Int(0)), f)
		}
		if k, _, _, unique := v.grown(t); k != nil && unique {
			return v.once(t.args[1], f, depth+1) || s.implied(T.EqInt(T.Len(t.args[1]), T.Int(0)), f)
		}
	case "map":
		k := s.k()
		b := T.open(t.args[1], k)
		if b.op == "field" {
			b = b.args[0]
		}
		if b.op == "mapkey" {
			return true
		}
		return b.op == "elem" && b.args[1] == k && t.args[0] == T.Len(b.args[0]) && v.once(b.args[0], f, depth+1)
	case "filt":
		if _, x := v.firsts(t, f); x != nil {
			return true
		}
		k := s.k()
		b := T.open(t.args[2], k)
		return b.op == "elem" && b.args[1] == k && t.args[0] == T.Len(b.args[0]) && v.once(b.args[0], f, depth+1)
	case "field":
		return t.name == "VariableFactors"
	}
	return s.implied(T.Lt(T.Len(t), T.Int(2)), f)
}

// within: every element of a is one of the elements of bs.
func (v *varSets) within(a comp, bs []comp, f *Facts) bool {
	s, T := v.s, v.s.T
	var cs []*Term
	for i, k := range a.ks {
		cs = append(cs, T.Lt(k, a.ns[i]), T.Not(T.Lt(k, T.Int(0))))
	}
	g, ok := s.assume(f, append(cs, a.gs...)...)
	if !ok {
		return true
	}
	if v.fitsAny(a, bs, g) {
		return true
	}
	// the first or the last round may be found elsewhere than the others
	for i, k := range a.ks {
		for _, end := range []*Term{T.Int(0), T.Add(a.ns[i], T.Int(1), -1)} {
			if end.free[k] {
				continue
			}
			b := comp{ks: a.ks, ns: a.ns, gs: a.gs, elem: T.Subst(a.elem, k, end)}
			at, ok1 := s.assume(g, T.EqInt(k, end))
			off, ok2 := s.assume(g, T.Not(T.EqInt(k, end)))
			if (!ok1 || v.fitsAny(b, bs, at)) && (!ok2 || v.fitsAny(a, bs, off)) {
				return true
			}
		}
	}
	return false
}

// fitsAny: the component is one of the others, at some of their positions.
func (v *varSets) fitsAny(a comp, bs []comp, g *Facts) bool {
	s, T := v.s, v.s.T
	ea := s.untyped(s.norm(a.elem, g))
	for _, b := range bs {
		try := func(m map[*Term]*Term, same bool) bool {
			if !v.eq(a.elem, T.SubstMap(b.elem, m), g) && !v.eq(v.id(a.elem), T.SubstMap(v.id(b.elem), m), g) {
				return false
			}
			for i := range b.ns {
				n := T.SubstMap(b.ns[i], m)
				if same && (v.eq(a.ns[i], n, g) || s.implied(T.EqInt(a.ns[i], n), g)) {
					continue
				}
				if same || !s.implied(T.Lt(m[b.ks[i]], n), g) || !s.implied(T.Not(T.Lt(m[b.ks[i]], T.Int(0))), g) {
					return false
				}
			}
			for _, c := range b.gs {
				if !s.implied(T.SubstMap(c, m), g) {
					return false
				}
			}
			return true
		}
		if len(b.ks) == len(a.ks) {
			m := map[*Term]*Term{}
			for i := range b.ks {
				m[b.ks[i]] = a.ks[i]
			}
			if try(m, true) {
				return true
			}
		}
		if len(b.ks) == 0 {
			if try(nil, false) {
				return true
			}
			continue
		}
		m := map[*Term]*Term{}
		isK := map[*Term]bool{}
		for _, k := range b.ks {
			isK[k] = true
		}
		if v.match(s.untyped(b.elem), ea, isK, m) && len(m) == len(b.ks) && try(m, false) {
			return true
		}
	}
	return false
}

// match finds positions at which the pattern is the value.
func (v *varSets) match(p, t *Term, ks map[*Term]bool, m map[*Term]*Term) bool {
	T := v.s.T
	if ks[p] {
		if m[p] == nil {
			m[p] = t
		}
		return m[p] == t
	}
	open := false
	for k := range ks {
		open = open || p.free[k]
	}
	if !open {
		return p == t
	}
	if p.op == "lin" {
		for i, a := range p.args {
			if !ks[a] || m[a] != nil || p.coefs[i] != 1 && p.coefs[i] != -1 {
				continue
			}
			rest := T.SubstMap(T.Add(p, a, -p.coefs[i]), m)
			for k := range ks {
				if rest.free[k] {
					return false
				}
			}
			m[a] = T.Scale(T.Add(t, rest, -1), p.coefs[i])
			return true
		}
		return T.SubstMap(p, m) == t
	}
	if p.op != t.op || p.n != t.n || p.name != t.name || len(p.args) != len(t.args) {
		return false
	}
	for i := range p.args {
		if !v.match(p.args[i], t.args[i], ks, m) {
			return false
		}
	}
	return true
}

func (v *varSets) eq(a, b *Term, f *Facts) bool {
	s := v.s
	return s.untyped(s.norm(a, f)) == s.untyped(s.norm(b, f))
}

func (v *varSets) same(got, want []comp, f *Facts) string {
	for _, a := range got {
		if !v.within(a, want, f) {
			return "lists something that is not a variable of the expression: " + clip(a.elem.String())
		}
	}
	for _, b := range want {
		if !v.within(b, got, f) {
			return "a variable of the expression can be missing from the list: " + clip(b.elem.String())
		}
	}
	return ""
}

func (s *Spec) kindName(x *Term) string {
	n := x.typ.String()
	return n[strings.LastIndex(n, ".")+1:]
}

func checkVariables(p *Program, r *Report) {
	r.Explain = "Variables of every kind of expression and constraint, and the list helpers, evaluated and read as sets: the elements of the returned list compared with the variables that occur in the operand, by identity; loops by append-if-absent induction"
	r.Rule("complete: every variable of the operand is in the returned list")
	r.Rule("only: everything in the returned list is a variable of the operand")
	r.Rule("once: no variable is listed twice")
	r.Rule("found: FindInSlice gives a position of an equal entry, or -1 when there is none")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	s := NewSpec(p, r)
	n := 0
	check := func(name string, kinds []string, want func(v *varSets, a []*Term, f *Facts) []comp) {
		s.fresh()
		lab := label(name, kinds)
		n++
		opq := map[string]bool{}
		for k := range varOps {
			opq[k] = true
		}
		delete(opq, "symbolic."+name)
		res, args, fn := s.run("complete", name, kinds, opq, nil)
		if res == nil {
			return
		}
		if len(res.Rets) == 0 {
			r.Bad("complete", lab, p.Pos(fn.Pos()), "the operation returns no result")
			return
		}
		for _, rt := range res.Rets {
			v := &varSets{s: s}
			got := v.members(rt.Vals[0], rt.Facts, 0)
			if v.why != "" {
				r.Bad("analysis-complete", lab, p.Pos(fn.Pos()), v.why)
				continue
			}
			w := want(v, args, rt.Facts)
			if why := v.same(got, w, rt.Facts); why != "" || v.why != "" {
				r.Bad("complete", lab, p.Pos(fn.Pos()), why+v.why)
				continue
			}
			if !v.once(rt.Vals[0], rt.Facts, 0) {
				r.Bad("once", lab, p.Pos(fn.Pos()), "a variable can be listed twice: "+clip(rt.Vals[0].String()))
				continue
			}
			r.OK(lab)
		}
	}
	kinds := append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...)
	for _, k := range kinds {
		if strings.HasPrefix(k, "mat.") || s.fn(k+".Variables") == nil {
			continue
		}
		k := k
		check(k+".Variables", nil, func(v *varSets, a []*Term, f *Facts) []comp { return v.kind(k, a[0], f, 0) })
	}
	for _, k := range []string{"ScalarConstraint", "VectorConstraint", "MatrixConstraint"} {
		k := k
		check(k+".Variables", nil, func(v *varSets, a []*Term, f *Facts) []comp { return v.kind(k, a[0], f, 0) })
	}
	check("VariablesInThisConstraint", nil, func(v *varSets, a []*Term, f *Facts) []comp { return v.kind("Constraint", a[0], f, 0) })
	for _, l := range []string{"UniqueVars", "Unique"} {
		check(l, nil, func(v *varSets, a []*Term, f *Facts) []comp { return v.members(a[0], f, 0) })
	}
	check("UnionOfVariables", nil, func(v *varSets, a []*Term, f *Facts) []comp {
		return v.members(s.T.Call("symbolic.UnionOfVariables", a, nil), f, 0)
	})
	check("VariableIDs", nil, func(v *varSets, a []*Term, f *Facts) []comp {
		T, k := s.T, s.k()
		l := T.Call("Variables", a, nil)
		vt := p.KindType("Variable")
		return []comp{{ks: []*Term{k}, ns: []*Term{T.Len(l)}, elem: T.Field(T.Elem(l, k, vt), fieldIndex(vt, "ID"), vt)}}
	})
	// the number of variables is the length of that list
	s.fresh()
	n++
	if res, args, fn := s.run("complete", "NumVariables", nil, varOps, nil); res != nil {
		want := s.T.Len(s.T.Call("Variables", args, nil))
		ok := len(res.Rets) > 0
		for _, rt := range res.Rets {
			v := &varSets{s: s}
			if !v.eq(rt.Vals[0], want, rt.Facts) && !v.eq(rt.Vals[0], s.T.Len(s.T.Call("symbolic.VariableIDs", args, nil)), rt.Facts) {
				ok = false
			}
		}
		if ok {
			r.OK("NumVariables")
		} else {
			r.Bad("complete", "NumVariables", p.Pos(fn.Pos()), "the number is not the length of the list of variables")
		}
	}
	for _, k := range []string{"string", "int", "uint64", "Variable"} {
		n++
		s.found(k)
	}
	r.Min("list operations", n, 20)
}

// found: the contract of FindInSlice.
func (s *Spec) found(kind string) {
	s.fresh()
	kinds := []string{kind, "[]" + kind}
	res, args, fn := s.run("found", "FindInSlice", kinds, nil, nil)
	if res == nil {
		return
	}
	lab := label("FindInSlice", kinds)
	T := s.T
	x, l := args[0].args[0], args[1].args[0]
	v := &varSets{s: s}
	j := s.k()
	in := T.mk(Term{op: "exists", args: []*Term{T.Len(l), T.close(s.eqBy(v, x, T.Elem(l, j, x.typ)), []*Term{j})}})
	bad := ""
	check := func(val *Term, f *Facts) {
		switch {
		case s.implied(T.EqInt(val, T.Int(-1)), f):
			if !s.refuted(in, f) {
				bad = "-1 is returned although an equal entry can exist"
			}
		case val.op == "last" || val.op == "first":
			k := s.k()
			if val.args[0] != T.Len(l) || T.open(val.args[1], k) != s.eqBy(v, x, T.Elem(l, k, x.typ)) {
				bad = "the position found is not one of an equal entry"
			}
		default:
			g, ok := s.assume(f, T.EqInt(val, T.Int(-1)))
			if ok && !s.refuted(in, g) {
				bad = "the result is not the position of an equal entry: " + clip(val.String())
			}
			if !s.implied(s.eqBy(v, x, T.Elem(l, val, x.typ)), f) {
				bad = "the position found is not one of an equal entry"
			}
		}
	}
	if len(res.Rets) == 0 {
		bad = "the search returns no result"
	}
	for _, rt := range res.Rets {
		if !s.implied(T.Eq(rt.Vals[1], T.Nil()), rt.Facts) {
			bad = "an error is returned for lists of this kind"
		}
		gs, vs := T.alts(rt.Vals[0])
		for i := range vs {
			if g, ok := s.assume(rt.Facts, gs[i]); ok {
				check(vs[i], g)
			}
		}
	}
	if bad != "" {
		s.r.Bad("found", lab, s.p.Pos(fn.Pos()), bad)
	} else {
		s.r.OK(lab)
	}
}

func (s *Spec) eqBy(v *varSets, a, b *Term) *Term {
	if a.typ != nil && a.typ.String() == "string" {
		return s.T.Eq(a, b)
	}
	return v.sameID(a, b)
}
