package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: the verdicts of the validity checks are those of the definition.

func init() { checks["C21"] = checkVerdicts }

type verdicts struct {
	s *Spec
	c *coefs
}

// all: every one of the n entries is well formed.
func (v *verdicts) all(l *Term, el types.Type, each func(x *Term) *Term) *Term {
	k := v.s.k()
	return v.c.every(v.s.T.Len(l), k, each(v.s.T.Elem(l, k, el)))
}

// ok: the definition of a well-formed value of a kind.
func (v *verdicts) ok(kind string, x *Term) *Term {
	s, T := v.s, v.s.T
	field := func(name string) *Term { return v.c.field(x, kind, name) }
	some := func(l *Term) *Term { return T.Lt(T.Int(0), T.Len(l)) }
	switch kind {
	case "K", "KVector", "KMatrix":
		return T.Bool(true)
	case "Variable":
		return T.mk(Term{op: "cmp", name: "<", args: []*Term{field("Lower"), field("Upper")}})
	case "Monomial":
		return T.EqInt(T.Len(field("Exponents")), T.Len(field("VariableFactors")))
	case "Polynomial":
		ms := field("Monomials")
		return T.And([]*Term{some(ms), v.all(ms, s.p.KindType("Monomial"), func(m *Term) *Term { return v.ok("Monomial", m) })})
	case "ConstrSense":
		var out []*Term
		for _, c := range "=<>" {
			out = append(out, T.Not(T.EqInt(x, T.Int(int64(c)))))
		}
		return T.Not(T.And(out))
	case "ScalarConstraint", "VectorConstraint", "MatrixConstraint":
		l, r := field("LeftHandSide"), field("RightHandSide")
		cs := []*Term{v.side(l), v.side(r), v.ok("ConstrSense", field("Sense"))}
		if kind == "VectorConstraint" {
			cs = append(cs, v.or(v.dims(l, r), v.one(l), v.one(r)))
		}
		if kind == "MatrixConstraint" {
			cs = append(cs, v.dims(l, r))
		}
		return T.And(cs)
	}
	el := s.p.KindType(elemOfKind[kind])
	each := func(y *Term) *Term { return v.ok(elemOfKind[kind], y) }
	if shapeOf(kind) == 1 {
		if kind == "VariableVector" {
			return v.all(x, el, each)
		}
		return T.And([]*Term{some(x), v.all(x, el, each)})
	}
	rt := types.NewSlice(el)
	row := func(y *Term) *Term {
		return T.And([]*Term{T.EqInt(T.Len(y), T.Len(T.Elem(x, T.Int(0), rt))), v.all(y, el, each)})
	}
	return T.And([]*Term{some(x), v.all(x, rt, row)})
}

func (v *verdicts) or(cs ...*Term) *Term {
	for i, c := range cs {
		cs[i] = v.s.T.Not(c)
	}
	return v.s.T.Not(v.s.T.And(cs))
}

// side: the check of a side of unknown kind reports nothing.
func (v *verdicts) side(x *Term) *Term {
	T := v.s.T
	return T.Eq(T.Call("Check", []*Term{x}, types.Universe.Lookup("error").Type()), T.Nil())
}

func (v *verdicts) dim(x *Term, i int64) *Term {
	T := v.s.T
	return T.Elem(T.Call("Dims", []*Term{x}, types.NewSlice(types.Typ[types.Int])), T.Int(i), types.Typ[types.Int])
}

func (v *verdicts) dims(l, r *Term) *Term {
	T := v.s.T
	return T.And([]*Term{T.EqInt(v.dim(l, 0), v.dim(r, 0)), T.EqInt(v.dim(l, 1), v.dim(r, 1))})
}

// one: an expression with a single entry.
func (v *verdicts) one(x *Term) *Term {
	T := v.s.T
	return T.And([]*Term{T.EqInt(v.dim(x, 0), T.Int(1)), T.EqInt(v.dim(x, 1), T.Int(1))})
}

// scalar: an expression of a scalar kind.
func (v *verdicts) scalar(x *Term) *Term {
	var cs []*Term
	for _, k := range []string{"K", "Variable", "Monomial", "Polynomial"} {
		cs = append(cs, v.s.T.TypeIs(x, v.s.p.KindType(k)))
	}
	return v.or(cs...)
}

// aligned: all blocks have the same number of rows (columns): every two
// neighbours, or each and the first one.
func (v *verdicts) aligned(l *Term, i int64, phrase int) *Term {
	s, T := v.s, v.s.T
	k, et := s.k(), s.p.KindType("ScalarExpression")
	if l.typ != nil {
		et = elemTypeOf(l.typ)
	}
	n, x, y := T.Len(l), k, T.Int(0)
	if phrase < 2 {
		n, x = T.Add(n, T.Int(1), -1), T.Add(k, T.Int(1), 1)
	}
	if phrase == 0 {
		y = k
	}
	return v.c.every(n, k, T.EqInt(v.dim(T.Elem(l, x, et), i), v.dim(T.Elem(l, y, et), i)))
}

// a validity check and the phrasings of its definition.
type validity struct {
	name  string
	total bool                    // the check answers for every operand
	given func(a []*Term) *Term   // the operands it is about (nil: all)
	wants []func(a []*Term) *Term // equivalent definitions

	rule   string             // "verdict" unless given
	answer func(rt Ret) *Term // the verdict; by default: the result is nil
	yes    string             // what the answers say
	no     string
}

func (v *verdicts) decide(c validity) {
	s := v.s
	if c.rule == "" {
		c.rule, c.yes, c.no = "verdict", "no error is reported", "an error is reported"
	}
	fn := s.fn(c.name)
	if fn == nil {
		s.r.Bad(c.rule, c.name, "-", "the check no longer exists")
		return
	}
	why := ""
	for i, w := range c.wants {
		bad := v.verdict(c, fn, w)
		if bad == "" {
			why = ""
			break
		}
		if i == 0 || os.Getenv("SMCHECK_PROVE") != "" {
			why = bad
		}
	}
	if why != "" {
		s.r.Bad(c.rule, c.name, s.p.Pos(fn.Pos()), why)
	} else {
		s.r.OK(c.name)
	}
}

// verdict says what is wrong with the answers, measured by one definition.
func (v *verdicts) verdict(c validity, fn *ssa.Function, want func(a []*Term) *Term) string {
	s := v.s
	s.fresh()
	s.T.wf = false
	T := s.T
	args := s.e.SymArgs(fn, nil)
	P := want(args)
	cfg := &Config{Budget: 400000, MaxRec: 6, KeepPanics: true, KeepObl: true,
		Hook: func(c *Term, f *Facts) tri {
			// operands, sides and blocks are there
			if c.op == "isnil" {
				switch x := c.args[0]; x.op {
				case "sym", "elem", "field", "mapval":
					return no
				}
			}
			return unknown
		},
		Opaque: func(g *ssa.Function, a []*Term, depth int) bool { return depth > 20 }}
	var given []*Term
	if c.given != nil {
		given = []*Term{c.given(args)}
	}
	res := s.e.Run(fn, args, cfg, given)
	if len(res.Problems) > 0 {
		s.r.Bad("analysis-complete", c.name, s.p.Pos(fn.Pos()), "the value analysis of this check is incomplete: "+strings.Join(res.Problems, "; "))
	}
	if len(res.Rets) == 0 {
		return "the check gives no verdict"
	}
	for _, rt := range res.Rets {
		ans := T.Eq(rt.Vals[0], T.Nil())
		if c.answer != nil {
			ans = c.answer(rt)
		}
		if g, ok := s.assume(rt.Facts, ans); ok && !s.proves(P, g) {
			return c.yes + " although the definition can fail: " + clip(factsText(g))
		}
		if g, ok := s.assume(rt.Facts, T.Not(ans)); ok && !s.proves(T.Not(P), g) {
			return c.no + " although the definition can hold: " + clip(factsText(g))
		}
	}
	fails := func(f *Facts) bool {
		if c.total {
			return !s.contradictory(f)
		}
		return !s.proves(T.Not(P), f)
	}
	for _, x := range res.Panics {
		if fails(x.Facts) {
			return fmt.Sprintf("%s: the check can panic (%s)", s.p.Pos(x.Pos), x.Kind)
		}
	}
	for _, o := range res.Asserts {
		if g, ok := s.assume(o.Facts, T.Not(o.Term)); ok && fails(g) {
			return fmt.Sprintf("%s: the check can fail (%s: %s)", s.p.Pos(o.Pos), o.Kind, clip(o.Term.String()))
		}
	}
	return ""
}

func checkVerdicts(p *Program, r *Report) {
	r.Explain = "every Check method, dimension check, index check and the substitution-map check evaluated without any assumption on its operand; its verdict (nil or an error) compared as a formula with the definition, in both directions"
	r.Rule("verdict: no error is reported exactly when the definition holds, and the check itself neither panics nor indexes out of range")
	r.Rule("analysis-complete: every statement of the check is understood by the value analysis")
	v := &verdicts{s: NewSpec(p, r)}
	s := v.s
	v.c = &coefs{s: s}
	n := 0
	var kinds []string
	for _, k := range append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...) {
		if !strings.HasPrefix(k, "mat.") && k != "float64" {
			kinds = append(kinds, k)
		}
	}
	type def = func(a []*Term) *Term
	for _, k := range append(kinds, "ConstrSense", "ScalarConstraint", "VectorConstraint", "MatrixConstraint") {
		n++
		v.decide(validity{name: k + ".Check", total: true, wants: []def{func(a []*Term) *Term { return v.ok(k, a[0]) }}})
	}
	fits := func(a []*Term) *Term { return v.or(v.dims(a[0], a[1]), v.one(a[0]), v.one(a[1])) }
	product := func(a []*Term) *Term {
		return v.or(s.T.EqInt(v.dim(a[0], 1), v.dim(a[1], 0)), v.one(a[0]), v.one(a[1]))
	}
	within := func(i, n *Term) *Term { return s.T.And([]*Term{s.T.Not(s.T.Lt(i, s.T.Int(0))), s.T.Lt(i, n)}) }
	aligned := func(i int64) []def {
		var out []def
		for phrase := 0; phrase < 3; phrase++ {
			out = append(out, func(a []*Term) *Term { return v.aligned(a[0], i, phrase) })
		}
		return out
	}
	for _, x := range []validity{
		{name: "smErrors.CheckDimensionsInAddition", total: true, wants: []def{fits}},
		{name: "smErrors.CheckDimensionsInSubtraction", total: true, wants: []def{fits}},
		{name: "smErrors.CheckDimensionsInMultiplication", total: true, wants: []def{product}},
		// the error for two columns wants vectors
		{name: "smErrors.CheckDimensionsInComparison", total: false, wants: []def{fits}},
		{name: "smErrors.CheckDimensionsInHStack", total: true, wants: aligned(0)},
		{name: "smErrors.CheckDimensionsInVStack", total: true, wants: aligned(1)},
		{name: "smErrors.CheckIndexOnVector", total: true, wants: []def{func(a []*Term) *Term { return within(a[0], v.dim(a[1], 0)) }}},
		{name: "smErrors.CheckIndexOnMatrix", total: true, wants: []def{func(a []*Term) *Term {
			return s.T.And([]*Term{within(a[0], v.dim(a[2], 0)), within(a[1], v.dim(a[2], 1))})
		}}},
		{name: "symbolic.CheckDimensionsInComparison", total: true, given: func(a []*Term) *Term { return v.ok("ConstrSense", a[2]) }, wants: []def{func(a []*Term) *Term {
			return v.or(v.dims(a[0], a[1]), v.scalar(a[0]), v.scalar(a[1]))
		}}},
		{name: "symbolic.CheckSubstitutionMap", total: true, wants: []def{func(a []*Term) *Term {
			T, k := s.T, s.k()
			mt := s.fn("symbolic.CheckSubstitutionMap").Params[0].Type().Underlying().(*types.Map)
			key := T.mk(Term{op: "mapkey", args: []*Term{a[0], k}, typ: mt.Key()})
			val := T.mk(Term{op: "mapval", args: []*Term{a[0], k}, typ: mt.Elem()})
			return v.c.every(T.Len(a[0]), k, T.And([]*Term{v.ok("Variable", key), v.side(val), v.scalar(val)}))
		}}},
	} {
		n++
		v.decide(x)
	}
	r.Min("validity checks", n, 26)
}
