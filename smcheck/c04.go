package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = checkC04
	checks["C05"] = checkC05
	checks["C06"] = checkC06
}

var sideOps = "Plus Minus Multiply Substitute SubstituteAccordingTo Constant LinearCoeff Degree Variables String Simplify AsSimplifiedExpression ConcretizeVectorExpression ConcretizeMatrixExpression"

// split runs f on every alternative of a value that is feasible under the facts.
func (s *Spec) split(t *Term, f *Facts, do func(v *Term, f *Facts)) {
	t = s.norm(t, f)
	if t.op == "iface" && t.args[0].op == "choice" {
		t = s.T.mapChoice(t.args[0], func(v *Term) *Term { return s.T.Iface(v, t.typ) })
	}
	if t.op == "choice" {
		for i := 0; i+1 < len(t.args); i += 2 {
			if g, ok := s.assume(f, t.args[i]); ok {
				s.split(t.args[i+1], g, do)
			}
		}
		return
	}
	if t.op == "struct" || t.op == "iface" && t.args[0].op == "struct" {
		st := t
		if t.op == "iface" {
			st = t.args[0]
		}
		for i, a := range st.args {
			a = s.norm(a, f)
			if a.op != "choice" {
				continue
			}
			for j := 0; j+1 < len(a.args); j += 2 {
				g, ok := s.assume(f, a.args[j])
				if !ok {
					continue
				}
				na := append([]*Term{}, st.args...)
				na[i] = a.args[j+1]
				v := s.T.Struct(st.typ, na)
				if t.op == "iface" {
					v = s.T.Iface(v, t.typ)
				}
				s.split(v, g, do)
			}
			return
		}
	}
	do(t, f)
}

// rewriteZero maps terms the facts equate with zero.
func zeros(f *Facts) map[*Term]bool {
	m := map[*Term]bool{}
	for _, k := range f.order {
		if f.m[k] && k.op == "eq" {
			for n := 0; n < 2; n++ {
				if c := k.args[1-n]; c.op == "const" {
					if r := ratOfConst(c.c); r != nil && r.Sign() == 0 {
						m[k.args[n]] = true
					}
				}
			}
		}
	}
	return m
}

// zeroBy: the facts make the combination of constants zero.
func (s *Spec) zeroBy(c *Poly, f *Facts) bool {
	if c.isZero() {
		return true
	}
	for z := range zeros(f) {
		if z.op != "call" || z.name != "Constant" {
			continue
		}
		q := s.plain(s.cst(z.args[0], f))
		for _, k := range []int64{1, -1} {
			if padd(c, q, k).isZero() {
				return true
			}
		}
	}
	return false
}

// ---- linear combinations of expressions -------------------------------------

// lin is the value of an expression as a combination of the values of the
// expressions it was built from.
func (s *Spec) lin(t *Term, f *Facts) *Poly {
	t = s.norm(t, f)
	switch t.op {
	case "iface":
		switch typeShort(t.typ) {
		case "K", "float64", "int":
			return s.num(t.args[0], f)
		}
		if isConstKind(typeShort(t.typ)) {
			return patom(t.args[0])
		}
	case "assert":
		if typeShort(t.typ) == "K" {
			return patom(t)
		}
		return s.lin(t.args[0], f)
	case "call":
		switch t.name {
		case "Plus":
			return padd(s.lin(t.args[0], f), s.lin(t.args[1], f), 1)
		case "Minus":
			return padd(s.lin(t.args[0], f), s.lin(t.args[1], f), -1)
		case "Multiply":
			a, b := s.lin(t.args[0], f), s.lin(t.args[1], f)
			if s.isNumber(t.args[1], f) || s.isNumber(t.args[0], f) {
				return pmul(a, b)
			}
		case "Simplify", "AsSimplifiedExpression", "ToPolynomial", "ToMonomial", "Copy":
			return s.lin(t.args[0], f)
		case "symbolic.ConcretizeVectorExpression", "symbolic.ConcretizeMatrixExpression":
			if x := s.relisted(t.args[0], f); x != nil {
				return s.lin(x, f)
			}
		}
	}
	if s.isNumber(t, f) {
		return patom(s.T.Assert(t, s.p.KindType("K")))
	}
	return patom(t)
}

// relisted: the list holds the entries of one object, in order; that object.
func (s *Spec) relisted(l *Term, f *Facts) *Term {
	T := s.T
	var idx, lens []*Term
	for {
		l = s.norm(l, f)
		if l.op == "iface" && len(idx) == 0 {
			if _, ok := l.typ.Underlying().(*types.Slice); ok {
				l = l.args[0]
				continue
			}
		}
		if l.op == "lit" && len(l.args) == 1 {
			idx, lens = append(idx, T.Int(0)), append(lens, T.Int(1))
			l = l.args[0]
			continue
		}
		if l.op == "map" {
			k := s.k()
			idx, lens = append(idx, k), append(lens, l.args[0])
			l = T.open(l.args[1], k)
			continue
		}
		break
	}
	for l.op == "assert" || l.op == "iface" && !isConstKind(typeShort(l.typ)) && l.args[0].op == "assert" {
		l = l.args[0]
	}
	x := l
	if l.op == "call" && (l.name == "AtVec" || l.name == "At") {
		x = l.args[0]
		n := 0
		for i, k := range idx {
			if n+1 < len(l.args) && l.args[n+1] == k {
				m := lens[i]
				if !(m.op == "call" && m.name == "Len" && m.args[0] == x && n == 0 || m.op == "elem" && m.args[0].op == "call" && m.args[0].name == "Dims" && m.args[0].args[0] == x && m.args[1] == T.Int(int64(n))) {
					return nil
				}
				n++
				continue
			}
			if m := lens[i]; m != T.Int(1) {
				return nil
			}
		}
		if n+1 != len(l.args) {
			return nil
		}
	} else {
		for _, m := range lens {
			if m != T.Int(1) {
				return nil
			}
		}
	}
	for _, k := range idx {
		if x.free[k] {
			return nil
		}
	}
	if len(idx) == 0 {
		return nil
	}
	return x
}

func (s *Spec) isNumber(t *Term, f *Facts) bool {
	if t.op == "iface" {
		switch typeShort(t.typ) {
		case "K", "float64", "int":
			return true
		}
		return false
	}
	return s.d.Decide(s.T.TypeIs(t, s.p.KindType("K")), f) == yes
}

func isConstKind(k string) bool {
	switch k {
	case "KVector", "KMatrix", "mat.VecDense", "mat.Dense":
		return true
	}
	return false
}

// num is a float over the constants of the expressions involved.
func (s *Spec) num(t *Term, f *Facts) *Poly {
	z := zeros(f)
	return s.fpoly(s.norm(t, f)).mapAtoms(s.T, func(a *Term) *Poly {
		if z[a] {
			return pint(0)
		}
		if a.op == "call" && a.name == "Constant" {
			return s.cst(a.args[0], f)
		}
		if a.op == "call" && a.name == "imag" {
			return patom(a)
		}
		return patom(a)
	})
}

// cst is the constant term of an expression (a linear functional).
func (s *Spec) cst(t *Term, f *Facts) *Poly {
	z := zeros(f)
	return s.lin(t, f).mapAtoms(s.T, func(a *Term) *Poly {
		if z[a] {
			return pint(0)
		}
		if isFloatTerm(a) || a.op == "call" && a.name == "Constant" || a.op == "assert" && typeShort(a.typ) == "K" {
			return patom(a)
		}
		c := s.T.Call("Constant", []*Term{a}, nil)
		for x := range z {
			if x.op == "call" && x.name == "Constant" && x.args[0] == a {
				return pint(0)
			}
		}
		return patom(c)
	})
}

// canonical atoms: Constant(e) whatever the static result type
func (s *Spec) plain(p *Poly) *Poly {
	return p.mapAtoms(s.T, func(a *Term) *Poly {
		if a.op == "call" && a.name == "Constant" {
			return patom(s.T.Call("Constant", a.args, nil))
		}
		return patom(a)
	})
}

func polySame(a, b *Poly) bool { return a.Key() == b.Key() }

// constraintParts of a value of constraint kind.
func (s *Spec) parts(t *Term, f *Facts) (l, r, sense *Term, ok bool) {
	if t.op == "iface" {
		t = t.args[0]
	}
	if t.op == "struct" && len(t.args) == 3 {
		return t.args[0], t.args[1], t.args[2], true
	}
	for _, k := range constraintOf {
		if kt := s.p.KindType(k); t.typ != nil && types.Identical(t.typ, kt) {
			return s.T.Field(t, 0, kt), s.T.Field(t, 1, kt), s.T.Field(t, 2, kt), true
		}
	}
	return nil, nil, nil, false
}

func checkC04(p *Program, r *Report) {
	r.Explain = "Value analysis of every constraint operation: element access, substitution, scaling, simplification and compilation into scalar constraints are evaluated symbolically for arbitrary sides; each side of the result must be the corresponding operation applied to the same side of the receiver, the sense must be preserved, scaling must reverse <= and >= exactly when the factor is negative, simplification must preserve left minus right (as a linear combination of the two sides) while leaving only constants on the right, and compilation must list every element once, in order."
	for _, x := range []string{
		"constraint-part: Left, Right, ConstrSense and element access return the matching parts of the receiver",
		"constraint-substitute: both sides are substituted with the same arguments; the sense stays",
		"constraint-scale: both sides are scaled by the factor; the sense flips exactly for a negative factor and an inequality",
		"constraint-simplify: left minus right is unchanged, the right side is constant, the sense stays",
		"constraint-compile: scalar, vector and matrix constraints contribute each element once, in order",
	} {
		r.Rule(x)
	}
	n := 0
	elem := []string{"", "AtVec", "At"}
	for sh, k := range constraintOf {
		k := k
		st, _ := structOf(p.KindType(k))
		part := func(s *Spec, c *Term, name string) *Term {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return s.T.Field(c, i, p.KindType(k))
				}
			}
			return nil
		}
		sides := func(s *Spec, c *Term) (l, r, se *Term) {
			return part(s, c, "LeftHandSide"), part(s, c, "RightHandSide"), part(s, c, "Sense")
		}
		for m, fld := range map[string]string{"Left": "LeftHandSide", "Right": "RightHandSide", "ConstrSense": "Sense"} {
			fld := fld
			s := NewSpec(p, r)
			n++
			s.returns("constraint-part", k+"."+m, nil, names(sideOps), nil, func(a []*Term, f *Facts) []*Term {
				return []*Term{part(s, a[0], fld)}
			})
		}
		if sh > 0 {
			s := NewSpec(p, r)
			n++
			s.returns("constraint-part", k+"."+elem[sh], nil, names(sideOps, "AtVec At"), nil, func(a []*Term, f *Facts) []*Term {
				l, rr, se := sides(s, a[0])
				sc := p.KindType("ScalarExpression")
				x := s.T.Call(elem[sh], append([]*Term{l}, a[1:]...), sc)
				y := s.T.Call(elem[sh], append([]*Term{rr}, a[1:]...), sc)
				return []*Term{s.T.Struct(p.KindType("ScalarConstraint"), []*Term{x, y, se})}
			})
			for _, m := range []string{"Dims", "Len"} {
				if p.Method(k, m) == nil {
					continue
				}
				s := NewSpec(p, r)
				n++
				s.returns("constraint-part", k+"."+m, nil, names(sideOps), nil, func(a []*Term, f *Facts) []*Term {
					l, _, _ := sides(s, a[0])
					return []*Term{s.T.Call(m, []*Term{l}, s.fn(k+"."+m).Signature.Results().At(0).Type())}
				})
			}
		}
		for _, m := range []string{"Substitute", "SubstituteAccordingTo"} {
			s := NewSpec(p, r)
			n++
			s.returns("constraint-substitute", k+"."+m, nil, names(sideOps), nil, func(a []*Term, f *Facts) []*Term {
				l, rr, se := sides(s, a[0])
				et := p.KindType("Expression")
				x := s.T.Call(m, append([]*Term{l}, a[1:]...), et)
				y := s.T.Call(m, append([]*Term{rr}, a[1:]...), et)
				return []*Term{s.constraint(sh, x, y, se)}
			})
		}
		if p.Method(k, "ScaleBy") != nil {
			for _, sense := range []int64{'<', '>', '='} {
				for _, neg := range []bool{false, true} {
					sense, neg := sense, neg
					s := NewSpec(p, r)
					n++
					s.returns("constraint-scale", k+".ScaleBy", nil, names(sideOps), func(a []*Term) []*Term {
						_, _, se := sides(s, a[0])
						c := s.T.Cmp("<", a[1], s.T.Float(0))
						if !neg {
							c = s.T.Not(c)
						}
						return []*Term{s.T.EqInt(se, s.T.Int(sense)), c}
					}, func(a []*Term, f *Facts) []*Term {
						l, rr, _ := sides(s, a[0])
						et := p.KindType("Expression")
						num := s.T.Iface(a[1], p.KindType("float64"))
						x := s.T.Call("Multiply", []*Term{l, num}, et)
						y := s.T.Call("Multiply", []*Term{rr, num}, et)
						want := sense
						if neg && sense == '<' {
							want = '>'
						} else if neg && sense == '>' {
							want = '<'
						}
						return []*Term{s.constraint(sh, x, y, s.T.Int(want))}
					})
				}
			}
		}
		ms := []string{"AsSimplifiedConstraint"}
		if p.Method(k, "Simplify") != nil {
			ms = append(ms, "Simplify")
		}
		for _, m := range ms {
			s := NewSpec(p, r)
			n++
			name := k + "." + m
			op := names(sideOps)
			delete(op, "Simplify") // of constraints: evaluated in place
			res, args, fn := s.run("constraint-simplify", name, nil, op, nil)
			if res == nil {
				continue
			}
			l0, r0, se0 := sides(s, args[0])
			bad := func(why string, f *Facts) {
				r.Bad("constraint-simplify", name, p.Pos(fn.Pos()), why+" ["+factsText(f)+"]")
			}
			if len(res.Rets) == 0 {
				r.Bad("constraint-simplify", name, p.Pos(fn.Pos()), "never returns")
				continue
			}
			before := len(r.Findings)
			for _, rt := range res.Rets {
				s.split(rt.Vals[0], rt.Facts, func(v *Term, f *Facts) {
					l, rr, se, ok := s.parts(v, f)
					if !ok {
						bad("the result is not a constraint built from the two sides: "+clip(v.String()), f)
						return
					}
					if w := s.cmpInt(se, se0, f); w != "" {
						bad("the sense of the result is "+w, f)
					}
					got := s.plain(s.resolveConst(padd(s.lin(l, f), s.lin(rr, f), -1), f))
					want := s.plain(s.resolveConst(padd(s.lin(l0, f), s.lin(r0, f), -1), f))
					if !polySame(got, want) {
						bad(fmt.Sprintf("left minus right becomes %s instead of %s", clip(got.String()), clip(want.String())), f)
					}
					rl := s.lin(rr, f)
					for _, mo := range rl.monos() {
						for _, fc := range mo.f {
							if !(isFloatTerm(fc.a) || fc.a.op == "call" && fc.a.name == "Constant" || fc.a.op == "assert" && typeShort(fc.a.typ) == "K") {
								bad("the right side keeps a non-constant part: "+clip(rl.String()), f)
								return
							}
						}
					}
					if m == "AsSimplifiedConstraint" {
						c := s.plain(s.cst(l, f))
						if !s.zeroBy(c, f) {
							bad("the left side keeps the constant "+clip(c.String()), f)
						}
					}
				})
			}
			if len(r.Findings) == before {
				r.OK(name)
			}
		}
	}
	// compilation into scalar constraints
	s := NewSpec(p, r)
	n++
	s.compile(r)
	r.Min("constraint obligations", n, 26)
}

// resolveConst replaces Constant(x) by x for values known to be numbers.
func (s *Spec) resolveConst(p *Poly, f *Facts) *Poly {
	return p.mapAtoms(s.T, func(a *Term) *Poly {
		if a.op == "call" && a.name == "Constant" && s.isNumber(a.args[0], f) {
			return patom(s.T.Assert(a.args[0], s.p.KindType("K")))
		}
		return patom(a)
	})
}

func (s *Spec) compile(r *Report) {
	p, T := s.p, s.T
	name := "CompileConstraintsIntoScalarConstraints"
	res, args, fn := s.run("constraint-compile", name, nil, names("AtVec At Dims Len"), nil)
	if res == nil {
		return
	}
	if len(res.Rets) != 1 {
		r.Bad("constraint-compile", name, p.Pos(fn.Pos()), fmt.Sprintf("expected one return of the whole list, found %d", len(res.Rets)))
		return
	}
	ct := p.KindType("Constraint")
	sct := p.KindType("ScalarConstraint")
	k := s.k()
	c := T.Elem(args[0], k, ct)
	isS, isV := T.TypeIs(c, sct), T.TypeIs(c, p.KindType("VectorConstraint"))
	vc := T.Iface(T.Assert(c, p.KindType("VectorConstraint")), p.KindType("VectorConstraint"))
	mc := T.Iface(T.Assert(c, p.KindType("MatrixConstraint")), p.KindType("MatrixConstraint"))
	i, j := s.k(), s.k()
	row := T.MapN(T.Elem(T.Call("Dims", []*Term{mc}, nil), T.Int(1), nil), j, T.Call("At", []*Term{mc, i, j}, sct))
	mat := T.mk(Term{op: "flat", args: []*Term{T.Elem(T.Call("Dims", []*Term{mc}, nil), T.Int(0), nil), T.close(row, []*Term{i})}})
	vec := T.MapN(T.Call("Len", []*Term{vc}, nil), i, T.Call("AtVec", []*Term{vc, i}, sct))
	want := []*Term{T.Lit([]*Term{T.Assert(c, sct)}), vec, mat}
	g := [][]*Term{{isS}, {T.Not(isS), isV}, {T.Not(isS), T.Not(isV)}}
	got := res.Rets[0].Vals[0]
	if got.op != "flat" || got.args[0] != T.Len(args[0]) {
		r.Bad("constraint-compile", name, p.Pos(fn.Pos()), "the result is not the concatenation of one list per constraint: "+clip(got.String()))
		return
	}
	f0, _ := s.assume(NewFacts(), T.Not(T.Lt(k, T.Int(0))), T.Lt(k, T.Len(args[0])))
	body := T.open(got.args[1], k)
	for n, kind := range constraintOf {
		f, ok := s.assume(f0, g[n]...)
		if !ok {
			continue
		}
		if w := s.sameList(body, want[n], f); w != "" {
			r.Bad("constraint-compile", name+" of "+kind, p.Pos(fn.Pos()), "the scalar constraints listed for a "+kind+" are "+w)
		} else {
			r.OK(name + " of " + kind)
		}
	}
}

// sameList compares list terms structurally (length and generic element).
func (s *Spec) sameList(a, b *Term, f *Facts) string {
	T := s.T
	a, b = s.norm(a, f), s.norm(b, f)
	a, b = s.untyped(a), s.untyped(b)
	if a == b {
		return ""
	}
	if a.op == b.op && (a.op == "flat" || a.op == "map") {
		if w := s.cmp(a.args[0], b.args[0], nil, f, 0); w != "" {
			return "number of rows " + w
		}
		k := s.k()
		g, ok := s.assume(f, T.Not(T.Lt(k, T.Int(0))), T.Lt(k, b.args[0]))
		if !ok {
			return ""
		}
		x, y := T.open(a.args[1], k), T.open(b.args[1], k)
		if a.op == "flat" {
			return s.sameList(x, y, g)
		}
		return s.cmp(x, y, nil, g, 0)
	}
	if a.op == "lit" && b.op == "lit" && len(a.args) == len(b.args) {
		for i := range a.args {
			if w := s.cmp(a.args[i], b.args[i], nil, f, 0); w != "" {
				return w
			}
		}
		return ""
	}
	return clip(a.String()) + "  instead of  " + clip(b.String())
}

// untyped drops static types of calls and elements (they do not carry meaning).
func (s *Spec) untyped(t *Term) *Term {
	return s.T.Rewrite(t, func(x *Term) *Term {
		if (x.op == "call" || x.op == "elem") && x.typ != nil {
			n := *x
			n.typ = nil
			n.id = 0
			n.free = nil
			n.loose = 0
			return s.T.mk(n)
		}
		return nil
	})
}

// ---- C05: linear representations -----------------------------------------

func checkC05(p *Program, r *Report) {
	r.Explain = "Value analysis of LinearInequalityConstraintRepresentation and LinearEqualityConstraintRepresentation of scalar and vector constraints for every sense: the coefficient part must be +/- LinearCoeff of an expression equal to left minus right up to constants, with the caller's variable list, the bound must be +/- (constant of right - constant of left) with the matching sign (negated exactly for >=), and the call must panic (on every path) when a side is not linear or the sense is of the other kind."
	r.Rule("linear-coefficients: A = s*LinearCoeff(left - right, wrt) with s = -1 for >= and +1 otherwise")
	r.Rule("linear-bound: b = s*(constant(right) - constant(left))")
	r.Rule("linear-refused: a nonlinear side or a sense of the other kind never yields a representation")
	n := 0
	for sh, k := range constraintOf[:2] {
		for _, m := range []string{"LinearInequalityConstraintRepresentation", "LinearEqualityConstraintRepresentation"} {
			name := k + "." + m
			fn := p.Method(k, m)
			if fn == nil {
				r.Bad("linear-coefficients", name, "-", "the operation no longer exists")
				continue
			}
			for _, sense := range []int64{'<', '>', '='} {
				n++
				s := NewSpec(p, r)
				lab := fmt.Sprintf("%s with sense %c", name, rune(sense))
				want := sense == '=' == (m == "LinearEqualityConstraintRepresentation")
				res, args, _ := s.run("linear-coefficients", name, nil, names(sideOps), func(a []*Term) []*Term {
					return []*Term{s.T.EqInt(s.T.Field(a[0], 2, p.KindType(k)), s.T.Int(sense))}
				})
				if res == nil {
					continue
				}
				if !want {
					if len(res.Rets) > 0 {
						r.Bad("linear-refused", lab, p.Pos(fn.Pos()), "a representation is returned although the sense is of the other kind ["+factsText(res.Rets[0].Facts)+"]")
					} else {
						r.OK(lab + " is refused")
					}
					continue
				}
				s.linearRep(r, lab, fn, res, args, sense, sh)
			}
			for side := 0; side < 2; side++ {
				n++
				s := NewSpec(p, r)
				lab := fmt.Sprintf("%s with nonlinear side %d", name, side)
				res, _, _ := s.run("linear-refused", name, nil, names(sideOps), func(a []*Term) []*Term {
					x := s.T.Field(a[0], side, p.KindType(k))
					return []*Term{s.T.Lt(s.T.Int(1), s.T.Call("Degree", []*Term{x}, p.KindType("int")))}
				})
				if res == nil {
					continue
				}
				if len(res.Rets) > 0 {
					r.Bad("linear-refused", lab, p.Pos(fn.Pos()), "a representation is returned although one side is not linear ["+factsText(res.Rets[0].Facts)+"]")
				} else {
					r.OK(lab + " is refused")
				}
			}
		}
	}
	r.Min("representation obligations", n, 20)
}

func (s *Spec) linearRep(r *Report, lab string, fn *ssa.Function, res *Result, args []*Term, sense int64, sh int) {
	p, T := s.p, s.T
	pos := p.Pos(fn.Pos())
	k := typeShort(args[0].typ)
	L, R := T.Field(args[0], 0, p.KindType(k)), T.Field(args[0], 1, p.KindType(k))
	wrt := args[1]
	if len(res.Rets) == 0 {
		r.Bad("linear-coefficients", lab, pos, "no representation is ever returned")
		return
	}
	sign := int64(1)
	if sense == '>' {
		sign = -1
	}
	for _, rt := range res.Rets {
		f := rt.Facts
		s.split(rt.Vals[0], f, func(A *Term, f *Facts) {
			// generic entry
			i, j := s.k(), s.k()
			var a *Term
			if sh == 0 {
				a = T.Elem(A, i, p.KindType("float64"))
			} else {
				a = T.Elem(T.Elem(A, i, nil), j, p.KindType("float64"))
			}
			d := NewDen(s.e)
			var cs []caseT
			if w := d.try(func() { cs = d.cases([]*Term{a}, f, 64) }); w != "" {
				r.Bad("analysis-complete", lab, pos, w)
				return
			}
			for _, c := range cs {
				if !s.linearEntry(r, lab, pos, c.ts[0], c.f, i, j, L, R, wrt, sign, sh) {
					return
				}
			}
			r.OK(lab + ": coefficients")
		})
		s.split(rt.Vals[1], f, func(b *Term, f *Facts) {
			fl := p.KindType("float64")
			i := s.k()
			var got, want *Poly
			cl, cr := T.Call("Constant", []*Term{L}, nil), T.Call("Constant", []*Term{R}, nil)
			if sh == 0 {
				got = s.plain(s.num(b, f))
				want = padd(patom(cr), patom(cl), -1)
			} else {
				if w := s.cmpInt(T.Len(s.norm(b, f)), T.Len(T.Call("Constant", []*Term{R}, p.KindType("VecDense"))), f); w != "" {
					if w2 := s.cmpInt(T.Len(s.norm(b, f)), T.Call("Len", []*Term{L}, p.KindType("int")), f); w2 != "" {
						r.Bad("linear-bound", lab, pos, "the bound has length "+w)
						return
					}
				}
				got = s.fpoly(s.norm(T.Elem(b, i, fl), f))
				got = got.mapAtoms(s.T, func(a *Term) *Poly { return patom(s.untyped(a)) })
				want = padd(patom(T.mk(Term{op: "elem", args: []*Term{cr, i}})), patom(T.mk(Term{op: "elem", args: []*Term{cl, i}})), -1)
			}
			want = pscale(want, big.NewRat(sign, 1))
			if !polySame(got, want) {
				r.Bad("linear-bound", lab, pos, "the bound is "+clip(got.String())+" instead of "+clip(want.String()))
				return
			}
			r.OK(lab + ": bound")
		})
	}
}

// linearEntry: entry (i, j) of the coefficients is the entry of LinearCoeff(left - right).
func (s *Spec) linearEntry(r *Report, lab, pos string, a *Term, f *Facts, i, j, L, R, wrt *Term, sign int64, sh int) bool {
	q := s.fpoly(s.norm(a, f))
	m := q.single()
	if m == nil || len(m.f) != 1 || m.c.Cmp(big.NewRat(sign, 1)) != 0 {
		r.Bad("linear-coefficients", lab, pos, "an entry of the coefficients is "+clip(q.String())+" instead of "+fmt.Sprint(sign)+" times an entry of LinearCoeff(left - right)")
		return false
	}
	e := m.f[0].a
	if e.op == "elem" {
		e = e.args[0]
	}
	if sh == 1 && e.op == "elem" {
		e = e.args[0]
	}
	if e.op != "call" || e.name != "LinearCoeff" || len(e.args) != 2 || e.args[1] != wrt {
		r.Bad("linear-coefficients", lab, pos, "the coefficients are taken from "+clip(e.String())+" and not from LinearCoeff with the caller's variables")
		return false
	}
	// entry index must be the generic one
	idx := m.f[0].a
	ok := idx.op == "elem" && idx.args[1] == i
	if sh == 1 {
		ok = idx.op == "elem" && idx.args[1] == j && idx.args[0].op == "elem" && idx.args[0].args[1] == i
	}
	if !ok {
		r.Bad("linear-coefficients", lab, pos, "the coefficients are not in the order of the variables: "+clip(q.String()))
		return false
	}
	d := padd(s.lin(e.args[0], f), padd(s.lin(L, f), s.lin(R, f), -1), -1)
	for _, mo := range d.monos() {
		for _, fc := range mo.f {
			if !(isFloatTerm(fc.a) || fc.a.op == "call" && fc.a.name == "Constant") {
				r.Bad("linear-coefficients", lab, pos, "the coefficients belong to "+clip(e.args[0].String())+", which is not left - right up to constants")
				return false
			}
		}
	}
	return true
}
