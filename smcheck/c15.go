package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { checks["C15"] = checkRefusals }

var kindsAll = append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...)

// kinds that contain variables, and so can be ill-formed
var checkedKinds = strings.Fields("Variable Monomial Polynomial VariableVector MonomialVector PolynomialVector VariableMatrix MonomialMatrix PolynomialMatrix")

// refusal evaluates an operation under assumptions that call for a refusal.
type refusal struct {
	rule, name, tag string
	kinds           []string
	transparent     string
	ill             bool // operand number which is ill-formed
	which           int
	mk              func(a []*Term, d *Den, f *Facts) []*Term
}

// refuse: the operation never returns a value of its own making.
func (s *Spec) refuse(q refusal) {
	lab := label(q.name, q.kinds) + q.tag
	fn := s.fn(q.name)
	if fn == nil {
		s.r.Bad(q.rule, lab, "-", "the operation no longer exists")
		return
	}
	s.fresh()
	args := s.e.SymArgs(fn, q.kinds)
	var as []*Term
	d := NewDen(s.e)
	if w := d.try(func() { as = q.mk(args, d, NewFacts()) }); w != "" {
		s.r.Bad("analysis-complete", lab, s.p.Pos(fn.Pos()), w)
		return
	}
	for _, a := range as {
		if v, ok := a.isBool(); ok && !v {
			return // cannot arise
		}
	}
	s.r.Counts["refusals"]++
	opaque := valueOps
	if q.transparent != "" {
		opaque = map[string]bool{}
		for k, v := range valueOps {
			opaque[k] = v && k != q.transparent
		}
	}
	cfg := s.config(opaque, fn)
	var isBad func(x *Term) bool
	if q.ill {
		bad := args[q.which]
		raw := bad
		if bad.op == "iface" {
			raw = bad.args[0]
		}
		isBad = func(x *Term) bool {
			if x.op == "iface" {
				x = x.args[0]
			}
			return x == raw || x.op == "assert" && x.args[0] == bad
		}
		s.T.wf = false
		cfg.Hook = func(c *Term, f *Facts) tri {
			if c.op == "isnil" && c.args[0].op == "call" && c.args[0].name == "Check" {
				if isBad(c.args[0].args[0]) {
					return no
				}
				return yes
			}
			return unknown
		}
	}
	res := s.e.Run(fn, args, cfg, as)
	if len(res.Problems) > 0 {
		s.r.Bad("analysis-complete", lab, s.p.Pos(fn.Pos()), strings.Join(res.Problems, "; "))
		return
	}
	for _, r := range res.Rets {
		passed := false
		for _, v := range r.Vals {
			passed = passed || q.ill && mentionsCall(v, isBad, map[*Term]bool{})
		}
		if !passed && d.consistent(r.Facts) && d.possible(r.Facts) {
			s.r.Bad(q.rule, lab, s.p.Pos(fn.Pos()), "the operation returns "+clip(r.Vals[0].String())+" ["+factsText(r.Facts)+"]")
			return
		}
	}
	s.r.OK(q.rule + ": " + lab)
}
func mentionsCall(t *Term, isBad func(*Term) bool, memo map[*Term]bool) (r bool) {
	if r, ok := memo[t]; ok {
		return r
	}
	defer func() { memo[t] = r }()
	if t.op == "call" {
		switch t.name {
		case "Plus", "Minus", "Multiply", "Power", "Substitute", "SubstituteAccordingTo", "DerivativeWrt", "Transpose", "Comparison":
			for _, a := range t.args {
				if isBad(a) {
					return true
				}
			}
		}
	}
	if t.op == "choice" {
		if mentionsCall(t.args[0], isBad, memo) {
			return true
		}
		for i := 1; i < len(t.args); i += 2 {
			if !mentionsCall(t.args[i], isBad, memo) {
				return false
			}
		}
		return true
	}
	for _, a := range t.args {
		if mentionsCall(a, isBad, memo) {
			return true
		}
	}
	return false
}

// checkRefusals: C15.
func checkRefusals(p *Program, r *Report) {
	r.Explain = "every operation evaluated under the assumption that its operands cannot be combined; no normal return may be reachable"
	r.Rule("ill-formed: with a receiver or operand whose Check reports an error, no return is reachable (except one that hands the operand on to another operation of this list)")
	r.Rule("shapes: with operands of shapes that do not fit, no return is reachable")
	r.Rule("unsupported: with an operand of a foreign type, no return is reachable")
	r.Rule("exponent: with a negative exponent or a base that is not square, no return of Power is reachable")
	r.Rule("position: with a position outside the object, no return of At or AtVec is reachable")
	r.Rule("stacking: with no blocks, or blocks that do not fit, no return of HStack or VStack is reachable")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	s := NewSpec(p, r)
	binary := strings.Fields("Plus Minus Multiply Comparison LessEq GreaterEq Eq")
	via := map[string]string{"LessEq": "Comparison", "GreaterEq": "Comparison", "Eq": "Comparison"}
	nothing := func(x []*Term, d *Den, f *Facts) []*Term { return nil }

	for _, a := range kindsAll {
		for _, op := range binary {
			for _, k := range []string{"string", "[]string", "ScalarConstraint"} {
				s.refuse(refusal{rule: "unsupported", name: a + "." + op, kinds: []string{k}, transparent: via[op], mk: nothing})
			}
			for _, b := range kindsAll {
				if member(checkedKinds, a) {
					s.illFormed(a+"."+op, []string{b}, 0)
				}
				if member(checkedKinds, b) {
					s.illFormed(a+"."+op, []string{b}, 1)
				}
			}
			if shapeOf(a) > 0 {
				for _, b := range kindsAll[4:] {
					s.misfit(a, op, b, via[op])
				}
				if op != "LessEq" && op != "GreaterEq" && op != "Eq" {
					for _, b := range []string{"*VecDense", "VecDense", "Dense", "*Dense"} {
						s.misfit(a, op, b, "")
					}
				}
			}
		}
		s.refuse(refusal{rule: "exponent", name: a + ".Power", tag: " negative", mk: func(x []*Term, d *Den, f *Facts) []*Term {
			return []*Term{s.T.Lt(x[1], s.T.Int(0))}
		}})
		if shapeOf(a) > 0 {
			s.refuse(refusal{rule: "exponent", name: a + ".Power", tag: " not square", mk: func(x []*Term, d *Den, f *Facts) []*Term {
				m := d.matrix(s.boxed(a, x)[0], f)
				return append(s.nonEmpty(a, x), s.T.Not(s.T.EqInt(m.R, m.C)))
			}})
		}
		for _, op := range []string{"At", "AtVec"} {
			if op == "AtVec" && shapeOf(a) != 1 {
				continue
			}
			for c := 0; c < 4; c++ {
				if op == "AtVec" && c >= 2 {
					continue
				}
				tag := []string{" row < 0", " row too large", " column < 0", " column too large"}[c]
				s.refuse(refusal{rule: "position", name: a + "." + op, tag: tag, mk: func(x []*Term, d *Den, f *Facts) []*Term {
					T := s.T
					n, i := T.Int(1), x[1]
					if c >= 2 {
						i = x[2]
					}
					if shapeOf(a) > 0 {
						m := d.matrix(s.boxed(a, x)[0], f)
						n = m.R
						if c >= 2 {
							n = m.C
						}
					}
					bad := T.Lt(i, T.Int(0))
					if c%2 == 1 {
						bad = T.Not(T.Lt(i, n))
					}
					return append(s.nonEmpty(a, x), bad)
				}})
			}
		}
	}
	for _, a := range checkedKinds {
		for _, op := range strings.Fields("Power Transpose DerivativeWrt Substitute SubstituteAccordingTo") {
			if a == "Variable" && op == "Transpose" {
				continue // returns the variable itself
			}
			s.illFormed(a+"."+op, nil, 0)
			if op == "DerivativeWrt" || op == "Substitute" {
				s.illFormed(a+"."+op, nil, 1)
			}
		}
	}
	for n, op := range []string{"HStack", "VStack"} {
		s.refuse(refusal{rule: "stacking", name: op, tag: " of nothing", mk: func(x []*Term, d *Den, f *Facts) []*Term {
			return []*Term{s.T.EqInt(s.T.Len(x[0]), s.T.Int(0))}
		}})
		// block k is the first one that does not fit the first block
		s.refuse(refusal{rule: "stacking", name: op, tag: " misfit", mk: func(x []*Term, d *Den, f *Facts) []*Term {
			T := s.T
			et, it := s.p.KindType("Expression"), types.Typ[types.Int]
			k, zero, one := s.k(), T.Int(0), T.Int(1)
			before := T.Add(k, one, -1)
			dim := func(k *Term) *Term {
				return T.Elem(T.Call("Dims", []*Term{T.Elem(x[0], k, et)}, types.NewSlice(it)), T.Int(int64(n)), it)
			}
			d.points = []*Term{k, before}
			return []*Term{T.Lt(zero, T.Len(x[0])), T.Lt(zero, k), T.Lt(k, T.Len(x[0])),
				T.Not(T.EqInt(dim(k), dim(zero))), T.Not(T.EqInt(dim(k), dim(before))), T.EqInt(dim(before), dim(zero))}
		}})
	}
	r.Min("refusals", r.Counts["refusals"], 4000)
}

func member(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (s *Spec) illFormed(name string, kinds []string, which int) {
	tag := " ill-formed receiver"
	if which > 0 {
		tag = " ill-formed operand"
	}
	s.refuse(refusal{rule: "ill-formed", name: name, kinds: kinds, tag: tag, which: which, ill: true,
		mk: func(x []*Term, d *Den, f *Facts) []*Term { return nil }})
}

// misfit: every way two shapes can fail to fit, none of them being one by one.
func (s *Spec) misfit(recv, op, kind, transparent string) {
	for c := 0; c < 8; c++ {
		if op == "Multiply" && c&1 > 0 {
			continue
		}
		tag := [2]string{" rows differ", " columns differ"}[c&1]
		if op == "Multiply" {
			tag = " inner sizes differ"
		}
		s.refuse(refusal{rule: "shapes", name: recv + "." + op, kinds: []string{kind}, tag: fmt.Sprint(tag, " ", c), transparent: transparent,
			mk: func(x []*Term, d *Den, f *Facts) []*Term {
				T := s.T
				b := s.boxed(recv, x)
				l, r := d.matrix(b[0], f), d.matrix(b[1], f)
				neq := func(x, y *Term) *Term { return T.Not(T.EqInt(x, y)) }
				pick := func(bit int, x, y *Term) *Term {
					if c>>bit&1 == 0 {
						return x
					}
					return y
				}
				as := s.nonEmpty(recv, x)
				if op == "Multiply" {
					as = append(as, neq(l.C, r.R))
				} else {
					as = append(as, neq(pick(0, l.R, l.C), pick(0, r.R, r.C)))
				}
				one := T.Int(1)
				return append(as, neq(pick(1, l.R, l.C), one), neq(pick(2, r.R, r.C), one))
			}})
	}
}
