package main

import (
	"strings"
)

// C22: objects are recognised as what they are, and conversions report an
// error exactly for the objects they do not recognise.

func init() { checks["C22"] = checkKinds }

func (v *verdicts) kindOf(x *Term, kinds string) *Term {
	var cs []*Term
	for _, k := range strings.Fields(kinds) {
		cs = append(cs, v.s.T.TypeIs(x, v.s.p.KindType(k)))
	}
	return v.or(cs...)
}

func checkKinds(p *Program, r *Report) {
	r.Explain = "every kind predicate and every conversion that can report an error, evaluated for an operand of any dynamic type; the answer compared as a formula over the dynamic type with the list of kinds, in both directions"
	r.Rule("recognised: the predicate answers true exactly for the objects of its kinds")
	r.Rule("converted: the conversion reports no error exactly for the objects of its kinds, and refuses the others")
	r.Rule("analysis-complete: every statement of the function is understood by the value analysis")
	v := &verdicts{s: NewSpec(p, r)}
	v.c = &coefs{s: v.s}
	s := v.s
	const (
		scalar = "float64 K Variable Monomial Polynomial"
		plVec  = "VecDense KVector VariableVector MonomialVector PolynomialVector"
		plMat  = "Dense KMatrix VariableMatrix MonomialMatrix PolynomialMatrix"
		vector = "*VecDense " + plVec
		matrix = "*Dense " + plMat
		constr = "ScalarConstraint VectorConstraint MatrixConstraint *ScalarConstraint *VectorConstraint *MatrixConstraint"
	)
	n := 0
	decide := func(rule string, c validity) {
		n++
		c.rule, c.yes, c.no = rule, "the answer is yes", "the answer is no"
		if rule == "converted" {
			c.yes, c.no = "no error is reported", "an error is reported"
		}
		v.decide(c)
	}
	one := func(f func(a []*Term) *Term) []func(a []*Term) *Term { return []func(a []*Term) *Term{f} }
	answer := func(rt Ret) *Term { return rt.Vals[0] }
	for _, x := range [][3]string{
		{"Expression", scalar + " " + vector + " " + matrix, "panics"},
		{"ScalarExpression", scalar},
		{"VectorExpression", vector},
		{"MatrixExpression", matrix},
		{"PolynomialLike", scalar + " " + plVec + " " + plMat, "panics"},
		{"PolynomialLikeScalar", scalar},
		{"PolynomialLikeVector", plVec},
		{"PolynomialLikeMatrix", plMat},
	} {
		of := one(func(a []*Term) *Term { return v.kindOf(a[0], x[1]) })
		decide("recognised", validity{name: "symbolic.Is" + x[0], total: true, wants: of, answer: answer})
		// the wide conversions panic where the others report an error
		decide("converted", validity{name: "symbolic.To" + x[0], total: x[2] == "", wants: of,
			answer: func(rt Ret) *Term { return s.T.Eq(rt.Vals[1], s.T.Nil()) }})
	}
	decide("recognised", validity{name: "symbolic.IsConstraint", total: true, answer: answer,
		wants: one(func(a []*Term) *Term { return v.kindOf(a[0], constr) })})
	decide("recognised", validity{name: "symbolic.IsSquare", total: true, answer: answer,
		wants: one(func(a []*Term) *Term { return s.T.EqInt(v.dim(a[0], 0), v.dim(a[0], 1)) })})
	decide("recognised", validity{name: "smErrors.IsScalarExpression", total: true, answer: answer,
		wants: one(func(a []*Term) *Term { return v.one(a[0]) })})
	r.Min("kind predicates and conversions", n, 19)
}
