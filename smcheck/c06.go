package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: a reported implication is a true one. The condition under which the
// operation returns true is a boolean term over the two simplified
// constraints; it is evaluated (three-valued) over the finite abstraction
// (sense x sense x sign of each coefficient x order of the two bounds x how
// the shape requirements hold), and every abstract case in which it may be
// true must be one in which the implication holds.

type implCase struct {
	sense [2]int64
	sg    [2]int // sign of the coefficient
	ord   int    // sign of bound1 - bound2
	one   [2]bool
	same  bool
	deg   [2]int // degree of the left side
	rsg   int    // sign of the right side (non-negativity)
	kinds bool   // whether the left sides are polynomial-like
}

type implEval struct {
	s    *Spec
	args []*Term
	c    implCase
	memo map[*Term]tri
	imem map[*Term]*int64
}

func strip(t *Term) *Term {
	for t.op == "iface" || t.op == "assert" {
		t = t.args[0]
	}
	return t
}

// which says whose simplified constraint t is (-1: none).
func (v *implEval) which(t *Term) int {
	t = strip(t)
	if t.op == "call" && t.name == "AsSimplifiedConstraint" {
		for i, a := range v.args {
			if strip(t.args[0]) == strip(a) {
				return i
			}
		}
	}
	return -1
}

// side: field n of a simplified constraint.
func (v *implEval) side(t *Term, n int) int {
	t = strip(t)
	if t.op == "call" && (t.name == "Left" || t.name == "Right") {
		if t.name == "Left" && n == 0 || t.name == "Right" && n == 1 {
			return v.which(t.args[0])
		}
		return -1
	}
	if t.op == "field" && t.n == n {
		return v.which(t.args[0])
	}
	return -1
}

func (v *implEval) vars(t *Term) int {
	t = strip(t)
	if t.op == "call" && (t.name == "Variables" || strings.HasSuffix(t.name, "VariablesInThisConstraint")) {
		if i := v.which(t.args[0]); i >= 0 {
			return i
		}
		return v.side(t.args[0], 0)
	}
	return -1
}

func isTrue(b bool) tri {
	if b {
		return yes
	}
	return no
}

func neg(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

func (v *implEval) bool(t *Term) tri {
	if r, ok := v.memo[t]; ok {
		return r
	}
	v.memo[t] = unknown
	r := v.bool1(t)
	v.memo[t] = r
	return r
}

func (v *implEval) bool1(t *Term) tri {
	switch t.op {
	case "const":
		return isTrue(t.c.String() == "true")
	case "not":
		return neg(v.bool(t.args[0]))
	case "and":
		r := yes
		for _, a := range t.args {
			switch v.bool(a) {
			case no:
				return no
			case unknown:
				r = unknown
			}
		}
		return r
	case "or":
		r := no
		for _, a := range t.args {
			switch v.bool(a) {
			case yes:
				return yes
			case unknown:
				r = unknown
			}
		}
		return r
	case "ite":
		switch v.bool(t.args[0]) {
		case yes:
			return v.bool(t.args[1])
		case no:
			return v.bool(t.args[2])
		}
		if a, b := v.bool(t.args[1]), v.bool(t.args[2]); a == b {
			return a
		}
	case "choice":
		res, first := unknown, true
		for i := 0; i+1 < len(t.args); i += 2 {
			g := v.bool(t.args[i])
			if g == no {
				continue
			}
			b := v.bool(t.args[i+1])
			if first {
				res, first = b, false
			} else if b != res {
				return unknown
			}
			if g == yes {
				return res
			}
		}
		return res
	case "eq0", "pos":
		if n := v.int(t.args[0]); n != nil {
			if t.op == "eq0" {
				return isTrue(*n == 0)
			}
			return isTrue(*n > 0)
		}
		// a count of variables that is not one
		if t.op == "eq0" && t.args[0].op == "lin" && len(t.args[0].args) == 1 && t.args[0].c0 == -1 {
			a := t.args[0].args[0]
			if a.op == "len" {
				if i := v.vars(a.args[0]); i >= 0 {
					return isTrue(v.c.one[i])
				}
				if u := strip(a.args[0]); u.op == "call" && strings.HasSuffix(u.name, "UnionOfVariables") && v.bothVars(u) {
					return isTrue(v.c.same)
				}
			}
		}
	case "eq", "cmp":
		if t.op == "eq" && len(t.args) == 2 {
			// the two single variables compared by ID
		}
		p := padd(v.poly(t.args[0]), v.poly(t.args[1]), -1)
		sg, ok := v.sign(p)
		if !ok {
			return unknown
		}
		if t.op == "eq" {
			return isTrue(sg == 0)
		}
		switch strings.TrimPrefix(t.name, "cmp:") {
		case "<":
			return isTrue(sg < 0)
		case "<=":
			return isTrue(sg <= 0)
		}
	case "call":
		if strings.HasSuffix(t.name, "IsLinear") && len(t.args) > 0 {
			if i := v.which(t.args[0]); i >= 0 {
				return isTrue(v.c.deg[i] <= 1)
			}
			if i := v.side(t.args[0], 0); i >= 0 {
				return isTrue(v.c.deg[i] <= 1)
			}
			if i := v.side(t.args[0], 1); i >= 0 {
				return yes
			}
		}
	case "typeis":
		if i := v.which(t.args[0]); i >= 0 {
			return isTrue(typeShort(t.typ) == "ScalarConstraint")
		}
		if i := v.side(t.args[0], 1); i >= 0 {
			return isTrue(typeShort(t.typ) == "K")
		}
	}
	return unknown
}

func (v *implEval) bothVars(u *Term) bool {
	var l []*Term
	for _, a := range u.args {
		if a.op == "lit" || a.op == "app" {
			l = append(l, a.args...)
		} else {
			l = append(l, a)
		}
	}
	seen := map[int]bool{}
	for _, a := range l {
		if a.op == "lit" {
			continue
		}
		seen[v.vars(a)] = true
	}
	return seen[0] && seen[1]
}

func (v *implEval) int(t *Term) *int64 {
	if r, ok := v.imem[t]; ok {
		return r
	}
	r := v.int1(t)
	v.imem[t] = r
	return r
}

func (v *implEval) int1(t *Term) *int64 {
	ret := func(n int64) *int64 { return &n }
	switch t.op {
	case "lin":
		n := t.c0
		for i, a := range t.args {
			x := v.int(a)
			if x == nil {
				return nil
			}
			n += t.coefs[i] * *x
		}
		return &n
	case "choice":
		var res *int64
		for i := 0; i+1 < len(t.args); i += 2 {
			g := v.bool(t.args[i])
			if g == no {
				continue
			}
			x := v.int(t.args[i+1])
			if x == nil || res != nil && *res != *x {
				return nil
			}
			res = x
			if g == yes {
				return res
			}
		}
		return res
	case "field", "call":
		if i := v.side(t, 2); i >= 0 {
			return ret(v.c.sense[i])
		}
		if t.op == "call" && t.name == "Degree" {
			if i := v.side(t.args[0], 0); i >= 0 {
				return ret(int64(v.c.deg[i]))
			}
			if i := v.side(t.args[0], 1); i >= 0 {
				return ret(0)
			}
		}
		if t.op == "call" && t.name == "ConstrSense" {
			if i := v.which(t.args[0]); i >= 0 {
				return ret(v.c.sense[i])
			}
		}
	case "len":
		if i := v.vars(t.args[0]); i >= 0 && v.c.one[i] {
			return ret(1)
		}
		if u := strip(t.args[0]); u.op == "call" && strings.HasSuffix(u.name, "UnionOfVariables") && v.bothVars(u) {
			if v.c.same {
				return ret(1)
			}
			return ret(2)
		}
	}
	return nil
}

// poly: float terms over the two coefficients (sym c0, c1) and right sides.
func (v *implEval) poly(t *Term) *Poly {
	t = v.pick(t)
	return v.s.fpoly(t).mapAtoms(v.s.T, func(a *Term) *Poly {
		if a.op == "choice" {
			if b := v.pick(a); b != a {
				return v.poly(b)
			}
		}
		if i := v.coef(a); i >= 0 {
			return patom(v.atom("coefficient", i))
		}
		if a.op == "assert" || a.op == "call" && a.name == "Constant" {
			x := a.args[0]
			if x.op == "call" && x.name == "Multiply" && a.op == "call" && x.args[1].op == "iface" {
				return pmul(v.poly(v.s.T.Call("Constant", x.args[:1], nil)), v.poly(x.args[1].args[0]))
			}
			if i := v.side(x, 1); i >= 0 {
				return patom(v.atom("right", i))
			}
			if i := v.side(x, 0); i >= 0 && a.op == "call" {
				return pint(0)
			}
		}
		return patom(a)
	})
}

func (v *implEval) pick(t *Term) *Term {
	for t.op == "choice" {
		var only *Term
		for i := 0; i+1 < len(t.args); i += 2 {
			g := v.bool(t.args[i])
			if g == no {
				continue
			}
			if only != nil {
				return t
			}
			only = t.args[i+1]
			if g == yes {
				break
			}
		}
		if only == nil {
			return t
		}
		t = only
	}
	return t
}

func (v *implEval) atom(n string, i int) *Term {
	return v.s.T.Sym(fmt.Sprint(n, i), v.s.p.KindType("float64"))
}

// coef: entry 0 of LinearCoeff of the left side.
func (v *implEval) coef(a *Term) int {
	if a.op == "elem" && len(a.args) == 2 && a.args[0].op == "call" && a.args[0].name == "LinearCoeff" {
		if z := a.args[1]; z.op == "lin" && len(z.args) == 0 && z.c0 == 0 {
			c := a.args[0]
			if len(c.args) > 1 {
				ok := false
				w := c.args[1]
				if w.op == "lit" && len(w.args) == 0 {
					ok = true
				}
				if w.op == "lit" && len(w.args) == 1 {
					w = w.args[0]
					ok = v.vars(w) >= 0 && (v.c.same || v.vars(w) == v.side(c.args[0], 0))
				}
				if !ok {
					return -1
				}
			}
			return v.side(c.args[0], 0)
		}
	}
	return -1
}

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// sign of a polynomial in the case at hand.
func (v *implEval) sign(p *Poly) (int, bool) {
	if c, ok := p.isConst(); ok {
		return c.Sign(), true
	}
	c := [2]*Poly{patom(v.atom("coefficient", 0)), patom(v.atom("coefficient", 1))}
	R := [2]*Poly{patom(v.atom("right", 0)), patom(v.atom("right", 1))}
	inv := [2]*Poly{pinv(c[0]), pinv(c[1])}
	B := padd(pmul(R[0], inv[0]), pmul(R[1], inv[1]), -1)
	try := func(base *Poly, sg int) (int, bool) {
		for _, e := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {-1, 0}, {0, -1}, {-1, -1}} {
			q, s := base, sg
			for i := 0; i < 2; i++ {
				switch e[i] {
				case 1:
					q, s = pmul(q, c[i]), s*v.c.sg[i]
				case -1:
					q, s = pmul(q, inv[i]), s*v.c.sg[i]
				}
			}
			if k := ratio(p, q); k != nil {
				return k.Sign() * s, true
			}
		}
		return 0, false
	}
	if s, ok := try(pint(1), 1); ok {
		return s, true
	}
	if s, ok := try(B, v.c.ord); ok {
		return s, true
	}
	for i := 0; i < 2; i++ {
		if v.c.rsg != 9 {
			if s, ok := try(R[i], v.c.rsg); ok {
				return s, true
			}
		}
	}
	return 0, false
}

// ratio: k with p = k*q, or nil.
func ratio(p, q *Poly) *big.Rat {
	mp, mq := p.monos(), q.monos()
	if len(mp) == 0 || len(mp) != len(mq) {
		return nil
	}
	for _, a := range mp {
		k := new(big.Rat).Quo(a.c, mq[0].c)
		if k.Sign() != 0 && padd(p, pscale(q, k), -1).isZero() {
			return k
		}
	}
	return nil
}

func flip(s int64, sg int) int64 {
	if sg < 0 {
		switch s {
		case '<':
			return '>'
		case '>':
			return '<'
		}
	}
	return s
}

func (c implCase) holds() bool {
	if !c.one[0] || !c.one[1] || !c.same || c.deg[0] > 1 || c.deg[1] > 1 {
		return false
	}
	a, b := flip(c.sense[0], c.sg[0]), flip(c.sense[1], c.sg[1])
	switch {
	case b == '=':
		return a == '=' && c.ord == 0
	case b == '<':
		return (a == '<' || a == '=') && c.ord <= 0
	case b == '>':
		return (a == '>' || a == '=') && c.ord >= 0
	}
	return false
}

func (c implCase) String() string {
	var l []string
	for i := 0; i < 2; i++ {
		l = append(l, fmt.Sprintf("%+d*x %c b%d", c.sg[i], rune(c.sense[i]), i))
	}
	t := strings.Join(l, " against ")
	t += map[int]string{-1: " with the first bound smaller", 0: " with equal bounds", 1: " with the first bound larger"}[c.ord]
	if !c.one[0] {
		t += ", the first has several variables or none"
	}
	if !c.one[1] {
		t += ", the second has several variables or none"
	}
	if !c.same {
		t += ", the variables differ"
	}
	for i := 0; i < 2; i++ {
		if c.deg[i] > 1 {
			t += fmt.Sprintf(", constraint %d is nonlinear", i)
		}
	}
	return t
}

var implOpaque = "VariablesInThisConstraint UnionOfVariables AsSimplifiedConstraint IsLinear ImpliesThisIsAlsoSatisfied Len Dims At AtVec"

func checkC06(p *Program, r *Report) {
	r.Explain = "The condition under which ImpliesThisIsAlsoSatisfied returns true is computed as a boolean term over the two simplified constraints (value analysis, all paths), then evaluated three-valued over the complete finite abstraction senses x coefficient signs x order of the bounds x {one variable each, same variable, linear}: no case in which it may be true may be one where the implication fails. Vector and matrix constraints may only report an implication that one of their elements reports; other pairs never. IsNonnegativityConstraint is evaluated likewise over sense x sign x sign of the bound."
	r.Rule("implication-sound: true only when the bound of the first lies within the bound of the second, for the same single variable, both linear")
	r.Rule("implication-element: a vector or matrix constraint implies only what one of its own elements implies")
	r.Rule("nonnegativity: true exactly for c*x >= 0 with c > 0 or c*x <= 0 with c < 0, c*x linear in one variable")
	cases := 0
	name := "ScalarConstraint.ImpliesThisIsAlsoSatisfied"
	s := NewSpec(p, r)
	res, args, fn := s.run("implication-sound", name, []string{"ScalarConstraint"}, names(sideOps, implOpaque), nil)
	if res != nil {
		cases += s.implied2(r, name, fn, res, args)
	}
	for _, k := range constraintOf {
		for sh, k2 := range constraintOf {
			if k == "ScalarConstraint" && sh == 0 {
				continue
			}
			s := NewSpec(p, r)
			m := k + ".ImpliesThisIsAlsoSatisfied"
			res, args, fn := s.run("implication-element", m, []string{k2}, names(sideOps, implOpaque), nil)
			if res == nil {
				continue
			}
			lab := label(m, []string{k2})
			bad := false
			for _, rt := range res.Rets {
				f, ok := s.assume(rt.Facts, rt.Vals[0])
				if !ok || rt.Vals[0].op == "const" && rt.Vals[0].c.String() == "false" {
					continue
				}
				if !s.byElement(f, args) {
					r.Bad("implication-element", lab, p.Pos(fn.Pos()), "true is returned although no element of the receiver was found to imply the operand ["+factsText(rt.Facts)+"]")
					bad = true
					break
				}
			}
			if !bad {
				r.OK(lab)
			}
		}
	}
	cases += checkNonneg(p, r)
	r.Counts["abstract cases"] = cases
	r.Min("abstract cases", cases, 600)
}

func (s *Spec) implied2(r *Report, name string, fn *ssa.Function, res *Result, args []*Term) int {
	n := 0
	seen := map[string]bool{}
	var conds [][]*Term
	for _, rt := range res.Rets {
		if rt.Vals[0].op == "const" && rt.Vals[0].c.String() == "false" {
			continue
		}
		cs := []*Term{rt.Vals[0]}
		for _, k := range rt.Facts.order {
			if rt.Facts.imp[k] {
				continue
			}
			if rt.Facts.m[k] {
				cs = append(cs, k)
			} else {
				cs = append(cs, s.T.Not(k))
			}
		}
		conds = append(conds, cs)
	}
	if len(conds) == 0 {
		r.Bad("implication-sound", name, s.p.Pos(fn.Pos()), "no implication is ever reported")
		return 0
	}
	senses := []int64{'<', '>', '='}
	var shapes []implCase
	base := implCase{one: [2]bool{true, true}, same: true, deg: [2]int{1, 1}, rsg: 9, kinds: true}
	shapes = append(shapes, base)
	for i := 0; i < 2; i++ {
		c := base
		c.one[i] = false // several variables
		c.same = false
		shapes = append(shapes, c)
		c.same = true // none
		shapes = append(shapes, c)
		c = base
		c.deg[i] = 2
		shapes = append(shapes, c)
	}
	c := base
	c.same = false
	shapes = append(shapes, c)
	ok := true
	for _, sh := range shapes {
		for _, a := range senses {
			for _, b := range senses {
				for sg := 0; sg < 4; sg++ {
					for ord := -1; ord <= 1; ord++ {
						c := sh
						c.sense = [2]int64{a, b}
						c.sg = [2]int{1 - 2*(sg&1), 1 - sg&2}
						c.ord = ord
						n++
						v := &implEval{s: s, args: args, c: c, memo: map[*Term]tri{}, imem: map[*Term]*int64{}}
						may := false
						for _, cs := range conds {
							m := true
							for _, x := range cs {
								if v.bool(x) == no {
									m = false
									break
								}
							}
							if m {
								may = true
								break
							}
						}
						if may && !c.holds() {
							ok = false
							key := "an implication that does not hold may be reported: " + c.String()
							if len(seen) < 4 && !seen[key] {
								seen[key] = true
								r.Bad("implication-sound", name, s.p.Pos(fn.Pos()), key)
							}
						}
					}
				}
			}
		}
	}
	if ok {
		r.OK(name)
	}
	return n
}

// byElement: the facts contain a positive answer of one element.
func (s *Spec) byElement(f *Facts, args []*Term) bool {
	var is func(t *Term) bool
	is = func(t *Term) bool {
		if t.op == "exists" {
			return is(t.args[1])
		}
		if t.op == "and" {
			for _, a := range t.args {
				if is(a) {
					return true
				}
			}
			return false
		}
		if t.op != "call" || t.name != "ImpliesThisIsAlsoSatisfied" || len(t.args) != 2 || strip(t.args[1]) != strip(args[1]) {
			return false
		}
		e := strip(t.args[0])
		if e.op != "call" || e.name != "AtVec" && e.name != "At" {
			return false
		}
		c := strip(e.args[0])
		if c.op == "call" && c.name == "AsSimplifiedConstraint" {
			c = strip(c.args[0])
		}
		return c == strip(args[0])
	}
	for _, k := range f.order {
		if f.m[k] && is(k) {
			return true
		}
	}
	return false
}

func checkNonneg(p *Program, r *Report) int {
	name := "ScalarConstraint.IsNonnegativityConstraint"
	s := NewSpec(p, r)
	res, args, fn := s.run("nonnegativity", name, nil, names(sideOps, implOpaque), nil)
	if res == nil {
		return 0
	}
	n, bad := 0, 0
	for _, sense := range []int64{'<', '>', '='} {
		for sg := -1; sg <= 1; sg += 2 {
			for rs := -1; rs <= 1; rs++ {
				for _, one := range []bool{true, false} {
					for deg := 0; deg <= 2; deg++ {
						n++
						c := implCase{sense: [2]int64{sense, sense}, sg: [2]int{sg, sg}, rsg: rs, ord: rs * sg, one: [2]bool{one, one}, same: true, deg: [2]int{deg, deg}}
						v := &implEval{s: s, args: args, c: c, memo: map[*Term]tri{}, imem: map[*Term]*int64{}}
						want := one && deg == 1 && rs == 0 && (sg > 0 && sense == '>' || sg < 0 && sense == '<')
						var may [2]bool
						for _, rt := range res.Rets {
							m := yes
							for _, k := range rt.Facts.order {
								if rt.Facts.imp[k] {
									continue
								}
								b := v.bool(k)
								if !rt.Facts.m[k] {
									b = neg(b)
								}
								if b == no {
									m = no
									break
								}
							}
							if m == no {
								continue
							}
							b := v.bool(rt.Vals[0])
							if b != no {
								may[1] = true
							}
							if b != yes {
								may[0] = true
							}
						}
						w := ""
						switch {
						case want && may[0]:
							w = "may be refused"
						case !want && may[1]:
							w = "may be accepted"
						}
						if w != "" {
							bad++
							if bad <= 4 {
								r.Bad("nonnegativity", name, p.Pos(fn.Pos()), fmt.Sprintf("%+d*x %c b with sign(b)=%d, single variable: %v, degree %d, %s", sg, rune(sense), rs, one, deg, w))
							}
						}
					}
				}
			}
		}
	}
	if bad == 0 {
		r.OK(name)
	}
	return n
}
