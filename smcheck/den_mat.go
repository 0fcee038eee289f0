package main

import (
	"go/types"
	"math/big"
)

// MV is a matrix value: its shape and its entries.
type MV struct {
	R, C *Term
	at   func(i, j *Term, f *Facts) *Poly
}

func (d *Den) one(v *Poly) *MV {
	one := d.T.Int(1)
	return &MV{one, one, func(i, j *Term, f *Facts) *Poly { return v }}
}

func (d *Den) isOne(n *Term, f *Facts) bool {
	return d.D.Decide(d.T.EqInt(n, d.T.Int(1)), f) == yes
}

// kindName of a type, including raw containers.
func matKind(t types.Type) (kind string, elem string) {
	switch s := typeShort(t); s {
	case "KVector", "VariableVector", "MonomialVector", "PolynomialVector":
		return "vector", elemOfKind[s]
	case "KMatrix", "VariableMatrix", "MonomialMatrix", "PolynomialMatrix":
		return "matrix", elemOfKind[s]
	case "mat.VecDense":
		return "vector", "float64"
	case "mat.Dense":
		return "matrix", "float64"
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		e := s.Elem()
		if k := scalarKindOf(e); k != "" {
			return "vector", k
		}
		if typeShort(e) == "ScalarExpression" {
			return "vector", "ScalarExpression"
		}
		if s2, ok := e.Underlying().(*types.Slice); ok {
			if k := scalarKindOf(s2.Elem()); k != "" {
				return "matrix", k
			}
			if typeShort(s2.Elem()) == "ScalarExpression" {
				return "matrix", "ScalarExpression"
			}
		}
	}
	return "", ""
}

var elemOfKind = map[string]string{
	"KVector": "K", "VariableVector": "Variable", "MonomialVector": "Monomial", "PolynomialVector": "Polynomial",
	"KMatrix": "K", "VariableMatrix": "Variable", "MonomialMatrix": "Monomial", "PolynomialMatrix": "Polynomial",
}

// container interprets a list term of container type t.
func (d *Den) container(x *Term, t types.Type, f *Facts) *MV {
	T := d.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return d.container(T.Deref(x, p.Elem()), p.Elem(), f)
	}
	sh, el := matKind(t)
	ev := func(y *Term, g *Facts) *Poly {
		if el == "ScalarExpression" {
			return d.scalar(y, g)
		}
		return d.kindVal(el, y, g)
	}
	var et types.Type
	if el == "float64" {
		et = types.Typ[types.Float64]
	} else {
		et = d.e.P.KindType(el)
	}
	switch sh {
	case "vector":
		return &MV{d.norm(T.Len(x), f), T.Int(1), func(i, j *Term, g *Facts) *Poly {
			return ev(d.norm(d.elem(x, i, et, g), g), g)
		}}
	case "matrix":
		rt := types.NewSlice(et)
		return &MV{d.norm(T.Len(x), f), d.norm(T.Len(T.Elem(x, T.Int(0), rt)), f), func(i, j *Term, g *Facts) *Poly {
			row := d.norm(d.elem(x, i, rt, g), g)
			return ev(d.norm(d.elem(row, j, et, g), g), g)
		}}
	}
	d.fail("%s is not a container kind", typeShort(t))
	return nil
}

// matrix is the value of any expression.
func (d *Den) matrix(t *Term, f *Facts) *MV {
	defer d.enter()()
	T := d.T
	if t.op == "choice" {
		d.fail("undecided alternative %s", clip(t.String()))
	}
	if d.isScalar(t, f) {
		return d.one2(t)
	}
	switch t.op {
	case "iface":
		return d.container(t.args[0], t.typ, f)
	case "assert":
		return d.matrix(t.args[0], f)
	case "fold":
		return d.foldMatrix(t, f)
	case "acc":
		if m := d.accs[t]; m != nil {
			return m
		}
	case "call":
		if m := d.callMatrix(t, f); m != nil {
			return m
		}
	}
	if t.typ != nil {
		if sh, _ := matKind(t.typ); sh != "" {
			return d.container(t, t.typ, f)
		}
	}
	d.fail("the value of %s is not understood", clip(t.String()))
	_ = T
	return nil
}

// one2: a scalar, evaluated lazily under the facts of its use.
func (d *Den) one2(t *Term) *MV {
	one := d.T.Int(1)
	return &MV{one, one, func(i, j *Term, f *Facts) *Poly { return d.scalar(t, f) }}
}

func (d *Den) binary(op string, a, b *MV, as, bs bool, f *Facts) *MV {
	T := d.T
	z := T.Int(0)
	comb := func(x, y *Poly) *Poly {
		switch op {
		case "Plus":
			return padd(x, y, 1)
		case "Minus":
			return padd(x, y, -1)
		}
		return pmul(x, y)
	}
	// a 1x1 container acts as a scalar unless the inner dimensions agree
	unit := func(m *MV) bool { return d.isOne(m.R, f) && d.isOne(m.C, f) }
	if !as && !bs {
		if op == "Multiply" {
			if d.D.Decide(T.EqInt(a.C, b.R), f) == no {
				as, bs = unit(a), unit(b)
			}
		} else if d.D.Decide(T.EqInt(a.R, b.R), f) == no || d.D.Decide(T.EqInt(a.C, b.C), f) == no {
			as, bs = unit(a), unit(b)
		}
	}
	if op == "Multiply" && !as && !bs {
		return &MV{a.R, b.C, func(i, j *Term, g *Facts) *Poly {
			return d.Sum(a.C, g, func(k *Term, h *Facts) *Poly { return pmul(a.at(i, k, h), b.at(k, j, h)) })
		}}
	}
	R, C := a.R, a.C
	if as {
		R, C = b.R, b.C
	}
	return &MV{R, C, func(i, j *Term, g *Facts) *Poly {
		ia, ja, ib, jb := i, j, i, j
		if as {
			ia, ja = z, z
		}
		if bs {
			ib, jb = z, z
		}
		return comb(a.at(ia, ja, g), b.at(ib, jb, g))
	}}
}

func (d *Den) callMatrix(t *Term, f *Facts) *MV {
	T := d.T
	a := t.args
	name := t.name
	if name == "symbolic.Minus" {
		name = "Minus"
	}
	each := func(m *MV, g func(p *Poly, f *Facts) *Poly) *MV {
		return &MV{m.R, m.C, func(i, j *Term, h *Facts) *Poly { return g(m.at(i, j, h), h) }}
	}
	vt := d.e.P.KindType("Variable")
	switch name {
	case "Plus", "Minus", "Multiply":
		if len(a) != 2 {
			return nil
		}
		return d.binary(name, d.matrix(a[0], f), d.matrix(a[1], f), d.isScalar(a[0], f), d.isScalar(a[1], f), f)
	case "AsSimplifiedExpression", "Simplify", "Copy", "symbolic.VecDenseToKVector", "symbolic.DenseToKMatrix", "symbolic.ToExpression", "symbolic.ToScalarExpression", "symbolic.ToVectorExpression", "symbolic.ToMatrixExpression", "symbolic.ToPolynomialLike", "symbolic.ToPolynomialLikeScalar", "symbolic.ToPolynomialLikeVector", "symbolic.ToPolynomialLikeMatrix", "KVector.From", "KMatrix.From":
		return d.matrix(a[0], f)
	case "Transpose":
		m := d.matrix(a[0], f)
		return &MV{m.C, m.R, func(i, j *Term, h *Facts) *Poly { return m.at(j, i, h) }}
	case "DerivativeWrt":
		id := d.normID(T.Field(a[1], fieldIndex(vt, "ID"), vt), f)
		return each(d.matrix(a[0], f), func(p *Poly, g *Facts) *Poly { return d.deriv(p, id, a[1], g) })
	case "Substitute":
		id := d.normID(T.Field(a[1], fieldIndex(vt, "ID"), vt), f)
		return each(d.matrix(a[0], f), func(p *Poly, g *Facts) *Poly {
			return d.subst(p, &subst{id: id, e: d.scalar(a[2], g), v: a[1], se: a[2]}, g)
		})
	case "SubstituteAccordingTo":
		return each(d.matrix(a[0], f), func(p *Poly, g *Facts) *Poly { return d.subst(p, &subst{m: a[1]}, g) })
	case "symbolic.ConcretizeExpression", "symbolic.ConcretizeVectorExpression", "symbolic.ConcretizeMatrixExpression":
		x := a[0]
		if x.op == "iface" {
			if _, ok := x.typ.Underlying().(*types.Slice); ok {
				return d.container(x.args[0], x.typ, f)
			}
			return d.matrix(x, f)
		}
		se := d.e.P.KindType("ScalarExpression")
		switch name {
		case "symbolic.ConcretizeVectorExpression":
			return d.container(x, types.NewSlice(se), f)
		case "symbolic.ConcretizeMatrixExpression":
			return d.container(x, types.NewSlice(types.NewSlice(se)), f)
		}
		return d.matrix(x, f)
	case "Power":
		m := d.matrix(a[0], f)
		if d.isOne(m.R, f) && d.isOne(m.C, f) {
			z := T.Int(0)
			return &MV{m.R, m.C, func(i, j *Term, h *Facts) *Poly { return T.ppowP(m.at(z, z, h), d.integer(a[1], h)) }}
		}
		if sh, _ := matKind(a[0].typ); a[0].op != "iface" || sh != "matrix" {
			return nil
		}
		return d.matpow(a[0], a[1], m)
	case "ToMonomialVector", "ToPolynomialVector", "ToMonomialMatrix", "ToPolynomialMatrix", "ToScalarExpressions", "ToVecDense", "ToDense":
		return d.matrix(a[0], f)
	}
	return nil
}

// foldMatrix: an object accumulated by a loop with affine steps, entry by entry.
func (d *Den) foldMatrix(t *Term, f *Facts) *MV {
	T := d.T
	if t.n != 1 {
		d.fail("joint accumulation %s", clip(t.String()))
	}
	typ := t.typ
	k := d.idx()
	g := d.under(f, k, t.args[0])
	acc := T.mk(Term{op: "acc", name: "obj", n: k.n, typ: typ})
	// shape: that of the first step's result, which later steps must keep
	shape := func(start *MV, st *Term) *MV {
		d.accs[acc] = start
		defer delete(d.accs, acc)
		if start.C == T.Int(1) && start.R == T.Int(1) && d.isScalar(st, f) {
			a2 := T.mk(Term{op: "acc", name: "scalar", n: k.n, typ: typ})
			return d.matrix(d.norm(T.open(t.args[2], k, a2), g), g)
		}
		return d.matrix(d.norm(T.open(t.args[2], k, acc), g), g)
	}
	m0 := d.matrix(t.args[1], f)
	if m := d.repeated(t, k, acc, m0, f, g); m != nil {
		return m
	}
	m1 := shape(m0, t.args[1])
	R, C := d.norm(m1.R, g), d.norm(m1.C, g)
	scal := d.isScalar(t.args[1], f)
	if R.free[k] || C.free[k] {
		d.fail("the shape changes while accumulating")
	}
	entry := func(i, j *Term, h *Facts) *Poly {
		A := T.mk(Term{op: "accat", n: k.n, args: []*Term{i, j}, typ: types.Typ[types.Float64]})
		d.accs[acc] = &MV{R, C, func(i2, j2 *Term, h *Facts) *Poly {
			return patom(T.mk(Term{op: "accat", n: k.n, args: []*Term{i2, j2}, typ: types.Typ[types.Float64]}))
		}}
		defer delete(d.accs, acc)
		hh := d.under(h, k, t.args[0])
		nx := d.matrix(d.norm(T.open(t.args[2], k, acc), hh), hh).at(i, j, hh)
		co, B, ok := splitLinear(nx, A)
		if !ok || hasOpP(co, "accat") || hasOpP(B, "accat") {
			d.fail("the accumulation is not affine: %s", clip(nx.String()))
		}
		i0 := m0
		ii, jj := i, j
		if scal {
			ii, jj = T.Int(0), T.Int(0)
		}
		p0 := i0.at(ii, jj, h)
		if v, isC := co.isConst(); isC && v.Num().Int64() == 1 && v.IsInt() {
			return padd(p0, d.Sum(t.args[0], h, func(x *Term, g *Facts) *Poly { return d.substPoly(B, k, x, g) }), 1)
		}
		if B.isZero() {
			return pmul(p0, d.Prod(t.args[0], h, func(x *Term, g *Facts) *Poly { return d.substPoly(co, k, x, g) }))
		}
		d.fail("the accumulation is neither a sum nor a product")
		return nil
	}
	return &MV{R, C, entry}
}

// matpow: a matrix multiplied n times with itself.
func (d *Den) matpow(a, n *Term, m *MV) *MV {
	return &MV{m.R, m.C, func(i, j *Term, h *Facts) *Poly {
		return patom(d.T.mk(Term{op: "matpow", args: []*Term{a.args[0], d.norm(n, h), i, j}, typ: types.Typ[types.Float64]}))
	}}
}

// repeated: the identity multiplied n times with one matrix.
func (d *Den) repeated(t, k, acc *Term, m0 *MV, f, g *Facts) *MV {
	T := d.T
	b := T.open(t.args[2], k, acc)
	for b.op == "assert" || b.op == "call" && b.name == "AsSimplifiedExpression" {
		b = b.args[0]
	}
	if b.op != "call" || b.name != "Multiply" || len(b.args) != 2 {
		return nil
	}
	strip := func(x *Term) *Term {
		for x.op == "assert" {
			x = x.args[0]
		}
		return x
	}
	l, r := strip(b.args[0]), strip(b.args[1])
	if r == acc {
		l, r = r, l
	}
	if l != acc || r.op != "iface" || r.free[k] || r.free[acc] {
		return nil
	}
	if sh, _ := matKind(r.typ); sh != "matrix" {
		return nil
	}
	m := d.matrix(r, f)
	for _, p := range [][2]*Term{{m.R, m.C}, {m0.R, m.R}, {m0.C, m.R}} {
		if d.D.Decide(T.EqInt(p[0], p[1]), f) != yes && d.norm(p[0], f) != d.norm(p[1], f) {
			return nil
		}
	}
	h := f.clone()
	i, j := d.idx(), d.idx()
	d.D.Assume(T.Lt(i, m.R), true, h)
	d.D.Assume(T.Lt(j, m.R), true, h)
	id := d.indAtom(T.EqInt(i, j), h)
	if ok, _ := d.zero(padd(m0.at(i, j, h), id, -1), h, 0); !ok {
		d.fail("the power does not start from the identity")
	}
	return d.matpow(r, t.args[0], m)
}

func hasOpP(p *Poly, op string) bool {
	for _, m := range p.monos() {
		for _, x := range m.f {
			if hasOp(x.a, op) || hasOpP(x.e, op) {
				return true
			}
		}
	}
	return false
}

// ---- comparison ------------------------------------------------------------------

// zero decides whether p vanishes under the facts.
func (d *Den) zero(p *Poly, f *Facts, depth int) (bool, string) {
	p = d.renorm(p, f)
	if p.isZero() {
		return true, ""
	}
	if depth > 8 {
		return false, p.String()
	}
	if !d.possible(f) {
		return true, ""
	}
	// split on a condition
	for _, m := range p.monos() {
		for _, x := range m.f {
			if x.a.op != "ind" || x.a.args[0].loose > 0 {
				continue
			}
			c := x.a.args[0]
			if d.D.Decide(c, f) != unknown {
				continue
			}
			for _, truth := range []bool{true, false} {
				g := f.clone()
				if !d.D.Assume(c, truth, g) {
					continue
				}
				if c.op == "fz" && truth {
					// handled by the product rule
				}
				q := p.mapAtoms(d.T, func(a *Term) *Poly {
					if a == x.a {
						if truth {
							return pint(1)
						}
						return pint(0)
					}
					return patom(a)
				})
				if c.op == "fz" && truth {
					q = d.modZero(q, c.args[0])
				}
				if ok, w := d.zero(q, g, depth+1); !ok {
					return false, w
				}
			}
			return true, ""
		}
	}
	return false, p.String()
}

// modZero reduces q modulo the polynomial encoded by z being zero.
func (d *Den) modZero(q *Poly, z *Term) *Poly {
	zp := d.decode(z)
	return d.reduceBy(q, zp)
}

// reduceBy: use z = 0, solved for an atom that occurs linearly and alone.
func (d *Den) reduceBy(q, z *Poly) *Poly {
	if z.isZero() {
		return q
	}
	if m := z.single(); m != nil {
		// a product is zero: drop the monomials it divides
		r := pint(0)
		for _, x := range q.monos() {
			if !divides(m, x) {
				r.addMono(x.c, x.f)
			}
		}
		return r
	}
	for _, m := range z.monos() {
		if len(m.f) != 1 {
			continue
		}
		if v, ok := m.f[0].e.isConst(); !ok || !v.IsInt() || v.Num().Int64() != 1 {
			continue
		}
		a := m.f[0].a
		if a.op == "ind" {
			continue
		}
		rest := padd(z, pmono(m.c, m.f), -1)
		if mentions(rest, a) {
			continue
		}
		val := pscale(rest, ratNegInv(m.c))
		return q.mapAtoms(d.T, func(b *Term) *Poly {
			if b == a {
				return val
			}
			return patom(b)
		})
	}
	return q
}

func divides(m, x *mono) bool {
	for _, y := range m.f {
		hit := false
		for _, z := range x.f {
			if z.a == y.a {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// decode reads an encoded polynomial without renormalising it.
func (d *Den) decode(t *Term) *Poly {
	if t.op != "poly" {
		return patom(t)
	}
	r := pint(0)
	for _, m := range t.args {
		p := pconst(ratString(m.name))
		for _, w := range m.args {
			p = pmul(p, ppow(w.args[0], d.decode(w.args[1])))
		}
		r = padd(r, p, 1)
	}
	return r
}

// renorm re-evaluates the atoms of p under the facts and uses the numeric
// equalities they contain.
func (d *Den) renorm(p *Poly, f *Facts) *Poly {
	for i := 0; i < 4; i++ {
		q := p.mapAtoms(d.T, func(a *Term) *Poly { return d.atom(d.norm(a, f), f) })
		for _, k := range f.order {
			if k.op == "eq" && f.m[k] && (isNumTerm(k.args[0]) || isNumTerm(k.args[1])) {
				q = d.reduceBy(q, padd(d.float(k.args[0], f), d.float(k.args[1], f), -1))
			}
		}
		for _, e := range d.listFacts(f) {
			q = d.reduceBy(q, e)
		}
		if q.Key() == p.Key() {
			return q
		}
		p = q
	}
	return p
}

// listFacts: for a list of monomials built by a loop, about whose entries the
// facts say something, the sum found from its construction equals the sum over
// its entries.
func (d *Den) listFacts(f *Facts) []*Poly {
	if d.noFold {
		return nil
	}
	var out []*Poly
	mt := d.e.P.KindType("Monomial")
	for _, k := range f.order {
		if k.op != "exists" || f.m[k] || k.args[0].op != "len" {
			continue
		}
		l := k.args[0].args[0]
		et := elemTypeOf(l.typ)
		if l.op != "fold" || et == nil || typeShort(et) != "Monomial" {
			continue
		}
		g := func(k *Term, g *Facts) *Poly { return d.kindVal("Monomial", d.elem(l, k, mt, g), g) }
		a := d.SumL(l, f, g)
		d.noFold = true
		b := d.Sum(k.args[0], f, g)
		d.noFold = false
		out = append(out, padd(a, b, -1))
	}
	return out
}

func ratString(s string) *big.Rat {
	r, _ := new(big.Rat).SetString(s)
	return r
}

func ratNegInv(c *big.Rat) *big.Rat {
	r := new(big.Rat).Inv(c)
	return r.Neg(r)
}
