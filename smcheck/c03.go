package main

import (
	"fmt"
	"os"
)

func init() {
	checks["C03"] = checkC03
}

var (
	scalarKinds = []string{"K", "Variable", "Monomial", "Polynomial"}
	vectorKinds = []string{"KVector", "VariableVector", "MonomialVector", "PolynomialVector"}
	matrixKinds = []string{"KMatrix", "VariableMatrix", "MonomialMatrix", "PolynomialMatrix"}
	rawKinds    = []string{"float64", "int", "VecDense", "*VecDense", "Dense", "*Dense"}
)

func allKinds() []string {
	var l []string
	l = append(l, scalarKinds...)
	l = append(l, vectorKinds...)
	return append(l, matrixKinds...)
}

func shapeOf(k string) int {
	for i, l := range [][]string{scalarKinds, vectorKinds, matrixKinds} {
		for _, x := range l {
			if x == k {
				return i
			}
		}
	}
	switch k {
	case "float64", "int":
		return 0
	case "VecDense", "*VecDense":
		return 1
	}
	return 2
}

// asLib is the library constant a raw operand stands for.
func (s *Spec) asLib(x *Term, k string) (*Term, string) {
	T := s.T
	switch k {
	case "float64":
		return x, "K"
	case "int":
		return T.ToFloat(x), "K"
	case "VecDense":
		return x, "KVector"
	case "*VecDense":
		return T.Deref(x, s.p.KindType("VecDense")), "KVector"
	case "Dense":
		return x, "KMatrix"
	case "*Dense":
		return T.Deref(x, s.p.KindType("Dense")), "KMatrix"
	}
	return x, k
}

// rows, cols of a matrix-like value.
func (s *Spec) rows(x *Term) *Term { return s.T.Len(x) }
func (s *Spec) cols(x *Term, kind string) *Term {
	return s.T.Len(s.T.Elem(x, s.T.Int(0), elemTypeOf(s.p.KindType(kind))))
}

// fill is the constant vector or matrix with every entry c, of the shape of x.
func (s *Spec) fill(c, x *Term, kind string) *Term {
	T := s.T
	if shapeOf(kind) == 1 {
		return T.Iface(T.MapN(T.Len(x), s.k(), c), s.p.KindType("KVector"))
	}
	row := T.MapN(s.cols(x, kind), s.k(), c)
	return T.Iface(T.MapN(s.rows(x), s.k(), row), s.p.KindType("KMatrix"))
}

var constraintOf = []string{"ScalarConstraint", "VectorConstraint", "MatrixConstraint"}

func (s *Spec) constraint(shape int, l, r, sense *Term) *Term {
	t := s.p.KindType(constraintOf[shape])
	return s.T.Iface(s.T.Struct(t, []*Term{l, r, sense}), t)
}

// comparisonSupported: the pairs the reviewed tree accepts.
var comparisonSupported = map[string]string{
	"PolynomialVector": "K KVector VariableVector MonomialVector PolynomialVector float64 VecDense *VecDense",
	"VariableVector":   "KVector VariableVector MonomialVector PolynomialVector VecDense *VecDense",
	"Monomial":         "K Variable Monomial Polynomial float64 int",
	"Polynomial":       "K Variable Monomial Polynomial float64 int",
	"Variable":         "K Variable Monomial Polynomial float64 int",
	"K":                "K Variable Monomial Polynomial KVector VariableVector float64 VecDense *VecDense",
	"MonomialMatrix":   "K KMatrix VariableMatrix MonomialMatrix PolynomialMatrix float64 Dense *Dense",
	"KVector":          "K KVector VariableVector MonomialVector PolynomialVector float64 int VecDense *VecDense",
	"PolynomialMatrix": "K KMatrix float64 Dense *Dense",
	"KMatrix":          "K KMatrix VariableMatrix MonomialMatrix PolynomialMatrix Dense *Dense",
	"VariableMatrix":   "K KMatrix VariableMatrix MonomialMatrix PolynomialMatrix float64 Dense",
	"MonomialVector":   "K KVector VariableVector MonomialVector float64",
}

func checkC03(p *Program, r *Report) {
	r.Explain = "Value analysis (gated value numbering with loop summaries over SSA) of every Comparison/LessEq/GreaterEq/Eq of every expression kind against every operand kind: the symbolic result must be the constraint whose left side is the receiver, whose right side is the operand (numbers and gonum data as the equal constants, scalars broadcast to every entry of the shape they are compared with) and whose sense is the requested one."
	r.Rule("comparison-result: Comparison(e, s) = constraint(receiver, operand, s)")
	r.Rule("comparison-supported: operand kinds accepted by the reviewed tree are still accepted")
	r.Rule("sense-shorthand: LessEq/GreaterEq/Eq(e) = Comparison(e, <= / >= / ==)")
	n := 0
	for _, k := range allKinds() {
		for _, o := range append(allKinds(), rawKinds...) {
			name := k + ".Comparison"
			s := NewSpec(p, r)
			res, args, fn := s.run("comparison-result", name, []string{o}, names("Variables String"), nil)
			if res == nil {
				continue
			}
			sup := inList(comparisonSupported[k], o)
			if len(res.Rets) == 0 {
				if sup {
					r.Bad("comparison-supported", label(name, []string{o}), p.Pos(fn.Pos()), "comparing a "+k+" with a "+o+" now always panics")
				}
				continue
			}
			n++
			if debugTables {
				fmt.Println("SUP", k, o)
			}
			s.check("comparison-result", label(name, []string{o}), fn, res, args, func(args []*Term, f *Facts) []*Term {
				recv := s.iface(args[0], k)
				x, lk := s.asLib(args[1].args[0], o)
				right := s.iface(x, lk)
				ls, rs := shapeOf(k), shapeOf(o)
				switch {
				case ls == rs:
				case ls == 0:
					recv = s.fill(args[0], x, lk)
				case rs == 0 && lk == "K":
					right = s.fill(x, args[0], k)
				}
				sh := ls
				if rs > sh {
					sh = rs
				}
				return []*Term{s.constraint(sh, recv, right, args[2])}
			})
		}
		for op, sense := range map[string]int64{"LessEq": '<', "GreaterEq": '>', "Eq": '='} {
			s := NewSpec(p, r)
			n++
			s.returns("sense-shorthand", k+"."+op, nil, names("Comparison"), nil, func(args []*Term, f *Facts) []*Term {
				return []*Term{s.call("Comparison", p.KindType("Constraint"), s.iface(args[0], k), args[1], s.T.Int(sense))}
			})
		}
	}
	r.Min("comparison obligations", n, 100)
}

var debugTables = os.Getenv("SMCHECK_TABLES") != ""

func inList(l, x string) bool {
	return names(l)[x]
}
