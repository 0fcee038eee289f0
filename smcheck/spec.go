package main

// Comparing what a function computes with what it should compute.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Spec carries one engine and one report.
type Spec struct {
	shapes  bool // split by the shapes of the two operands
	recv    string
	prepare func(d *Den, args []*Term)
	rewrite func(res *Result, args []*Term) // what the property knows about the results' terms
	kinds   *kindSets
	p       *Program
	r       *Report
	e       *Engine
	T       *Terms
	d       *Decider
	// opaque operation names kept uninterpreted, besides Check
	opaque map[string]bool
	n      int
	// extra equates two terms the structural comparison leaves open
	extra func(a, b *Term, f *Facts) bool
}

func NewSpec(p *Program, r *Report) *Spec {
	s := &Spec{p: p, r: r}
	s.fresh()
	return s
}

func (s *Spec) fresh() {
	s.e = NewEngine(s.p)
	s.T, s.d = s.e.T, s.e.D
	s.T.wf = true
	s.T.rowType = types.NewSlice(s.p.KindType("ScalarExpression"))
}

func names(ss ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		for _, x := range strings.Fields(s) {
			m[x] = true
		}
	}
	return m
}

// config: operands are well formed; the named operations stay uninterpreted.
func (s *Spec) config(opaque map[string]bool, root *ssa.Function) *Config {
	return &Config{Budget: 400000, MaxRec: 6, Hook: wellFormed,
		Opaque: func(fn *ssa.Function, args []*Term, depth int) bool {
			if fn == root && depth == 0 {
				return false
			}
			return fn.Name() == "Check" || opaque[fn.Name()] || opaque[callName(fn)]
		}}
}

// wellFormed: Check of an operand returns nil.
func wellFormed(c *Term, f *Facts) tri {
	if c.op == "isnil" && c.args[0].op == "call" && c.args[0].name == "Check" {
		return yes
	}
	if c.op == "isnil" && c.args[0].op == "elem" && c.args[0].args[0].op == "sym" && c.args[0].typ != nil {
		// the items of a list of expressions are expressions
		if i, ok := c.args[0].typ.Underlying().(*types.Interface); ok && i.NumMethods() > 0 {
			return no
		}
	}
	return unknown
}

// fn finds "Type.Method" or "Func".
func (s *Spec) fn(name string) *ssa.Function {
	if i := strings.Index(name, "."); i >= 0 {
		for _, pk := range s.p.SSAPkgs {
			if pk.Pkg.Name() == name[:i] {
				return pk.Func(name[i+1:])
			}
		}
		return s.p.Method(name[:i], name[i+1:])
	}
	return s.p.Func(name)
}

// run evaluates fn and reports a finding when the analysis is incomplete.
func (s *Spec) run(rule, name string, kinds []string, opaque map[string]bool, mk func(args []*Term) []*Term) (*Result, []*Term, *ssa.Function) {
	fn := s.fn(name)
	if fn == nil {
		s.r.Bad(rule, name, "-", "the operation no longer exists")
		return nil, nil, nil
	}
	args := s.e.SymArgs(fn, kinds)
	var assume []*Term
	if mk != nil {
		assume = mk(args)
	}
	res := s.e.Run(fn, args, s.config(opaque, fn), assume)
	if len(res.Problems) > 0 {
		s.r.Bad("analysis-complete", label(name, kinds), s.p.Pos(fn.Pos()), "the value analysis of this operation is incomplete: "+strings.Join(res.Problems, "; "))
	}
	return res, args, fn
}

func label(name string, kinds []string) string {
	if len(kinds) == 0 {
		return name
	}
	return name + "(" + strings.Join(kinds, ", ") + ")"
}

// ---- comparison ----------------------------------------------------------

func (s *Spec) k() *Term { return s.e.newIdx() }

func (s *Spec) assume(f *Facts, cs ...*Term) (*Facts, bool) {
	g := f.clone()
	for _, c := range cs {
		if !s.d.Assume(c, true, g) {
			return g, false
		}
	}
	return g, true
}

// norm resolves choices the facts decide, at every depth.
func (s *Spec) norm(t *Term, f *Facts) *Term {
	for i := 0; i < 4; i++ {
		u := s.T.Rewrite(t, func(x *Term) *Term {
			if x.loose > 0 {
				return nil
			}
			switch x.op {
			case "choice", "elem":
				if y := s.d.Resolve(x, f); y != x {
					return y
				}
			}
			return nil
		})
		if u == t {
			break
		}
		t = u
	}
	return t
}

// same decides whether got and want denote the same value; the string says
// where they differ ("" = same).
func (s *Spec) same(got, want *Term, typ types.Type, f *Facts) string {
	s.n = 0
	return s.cmp(got, want, typ, f, 0)
}

func (s *Spec) cmp(a, b *Term, typ types.Type, f *Facts, depth int) string {
	s.n++
	T := s.T
	if s.n > 4000 || depth > 40 {
		return "the comparison is too deep"
	}
	a, b = s.norm(a, f), s.norm(b, f)
	if a == b {
		return ""
	}
	diff := func() string { return fmt.Sprintf("%s  instead of  %s", clip(a.String()), clip(b.String())) }
	for n, x := range []*Term{a, b} {
		if x.op == "choice" {
			for i := 0; i+1 < len(x.args); i += 2 {
				g, ok := s.assume(f, x.args[i])
				if !ok {
					continue
				}
				v := x.args[i+1]
				var w string
				if n == 0 {
					w = s.cmp(v, b, typ, g, depth+1)
				} else {
					w = s.cmp(a, v, typ, g, depth+1)
				}
				if w != "" {
					return w + " when " + clip(x.args[i].String())
				}
			}
			return ""
		}
	}
	if s.extra != nil && s.extra(a, b, f) {
		return ""
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.typ, b.typ) {
			return fmt.Sprintf("a value of kind %s instead of %s: %s", typeShort(a.typ), typeShort(b.typ), diff())
		}
		return s.cmp(a.args[0], b.args[0], a.typ, f, depth+1)
	}
	// a known concrete kind on one side only
	if a.op == "iface" && b.op != "iface" || b.op == "iface" && a.op != "iface" {
		x, y := a, b
		if b.op == "iface" {
			x, y = b, a
		}
		if s.d.Decide(T.TypeIs(y, x.typ), f) == yes {
			in := T.Assert(y, x.typ)
			if x == a {
				return s.cmp(x.args[0], in, x.typ, f, depth+1)
			}
			return s.cmp(in, x.args[0], x.typ, f, depth+1)
		}
		return diff()
	}
	if typ == nil {
		typ = a.typ
	}
	if typ == nil {
		typ = b.typ
	}
	if isBoolTerm(a) && isBoolTerm(b) {
		x := T.And([]*Term{a, T.Not(b)})
		y := T.And([]*Term{b, T.Not(a)})
		if s.refuted(x, f) && s.refuted(y, f) {
			return ""
		}
		return diff()
	}
	if typ != nil {
		et := elemTypeOf(typ)
		if et != nil {
			na, nb := T.Len(a), T.Len(b)
			if w := s.cmpInt(na, nb, f); w != "" {
				return "length " + w
			}
			k := s.k()
			g, ok := s.assume(f, T.Not(T.Lt(k, T.Int(0))), T.Lt(k, nb))
			if !ok {
				return ""
			}
			if structural(a) && structural(b) && a.op == b.op && (a.op == "call" || a.op == "elem" || a.op == "field") {
				if w := s.args(a, b, f, depth); w == "" {
					return ""
				}
			}
			ea, eb := T.Elem(a, k, et), T.Elem(b, k, et)
			if ea.op == "elem" && ea.args[0] == a && eb.op == "elem" && eb.args[0] == b {
				return diff()
			}
			if w := s.cmp(ea, eb, et, g, depth+1); w != "" {
				return "entry " + k.String() + ": " + w
			}
			return ""
		}
		if st, ok := structOf(typ); ok {
			if a.op == "struct" || b.op == "struct" {
				for i := 0; i < st.NumFields(); i++ {
					if w := s.cmp(T.Field(a, i, typ), T.Field(b, i, typ), st.Field(i).Type(), f, depth+1); w != "" {
						return "field " + st.Field(i).Name() + ": " + w
					}
				}
				return ""
			}
		}
		if isIntegral(typ) {
			return s.cmpInt(a, b, f)
		}
		if isFloat(typ) {
			if s.sameFloat(a, b, f, depth) {
				return ""
			}
			return diff()
		}
	}
	if a.op == "lin" || b.op == "lin" {
		return s.cmpInt(a, b, f)
	}
	if structural(a) && a.op == b.op && a.name == b.name && a.n == b.n && len(a.args) == len(b.args) {
		if w := s.args(a, b, f, depth); w == "" {
			return ""
		}
	}
	return diff()
}

func (s *Spec) args(a, b *Term, f *Facts, depth int) string {
	if a.name != b.name || a.n != b.n || len(a.args) != len(b.args) {
		return "different operation"
	}
	for i := range a.args {
		if w := s.cmp(a.args[i], b.args[i], nil, f, depth+1); w != "" {
			return w
		}
	}
	return ""
}

func structural(t *Term) bool {
	switch t.op {
	case "call", "elem", "field", "iface", "assert", "bin", "tofloat", "lit":
		return true
	}
	return false
}

// refuted: the condition cannot hold under the facts.
func (s *Spec) refuted(c *Term, f *Facts) bool {
	if s.d.Decide(c, f) == no {
		return true
	}
	_, ok := s.assume(f, c)
	return !ok
}

// implied: the condition holds under the facts.
func (s *Spec) implied(c *Term, f *Facts) bool {
	return s.d.Decide(c, f) == yes || s.refuted(s.T.Not(c), f)
}

func (s *Spec) cmpInt(a, b *Term, f *Facts) string {
	if a == b || s.d.Decide(s.T.EqInt(a, b), f) == yes {
		return ""
	}
	g, ok := s.assume(f, s.T.Not(s.T.EqInt(a, b)))
	_ = g
	if !ok {
		return ""
	}
	return fmt.Sprintf("%s  instead of  %s", clip(a.String()), clip(b.String()))
}

// ---- real arithmetic -------------------------------------------------------

func ratOfConst(c constant.Value) *big.Rat {
	c = constant.ToFloat(c)
	if c.Kind() != constant.Float {
		return nil
	}
	r := new(big.Rat)
	if _, ok := r.SetString(c.ExactString()); ok {
		return r
	}
	return nil
}

// fpoly normalises + - * / over the reals.
func (s *Spec) fpoly(t *Term) *Poly {
	switch t.op {
	case "const":
		if r := ratOfConst(t.c); r != nil {
			return pconst(r)
		}
	case "lin":
		if len(t.args) == 0 {
			return pint(t.c0)
		}
	case "tofloat":
		return s.fpoly(t.args[0])
	case "bin":
		a, b := s.fpoly(t.args[0]), s.fpoly(t.args[1])
		switch t.name {
		case "+":
			return padd(a, b, 1)
		case "-":
			return padd(a, b, -1)
		case "*":
			return pmul(a, b)
		case "/":
			if v, ok := b.isConst(); ok && v.Sign() != 0 {
				return pscale(a, new(big.Rat).Inv(v))
			}
			if i := pinv(b); i != nil {
				return pmul(a, i)
			}
		}
	}
	return patom(t)
}

func (s *Spec) sameFloat(a, b *Term, f *Facts, depth int) bool {
	pa, pb := s.fpoly(a), s.fpoly(b)
	if pa.Key() == pb.Key() {
		return true
	}
	// match atoms one by one
	if len(pa.m) == 1 && len(pb.m) == 1 {
		x, y := pa.single(), pb.single()
		if x != nil && y != nil && x.c.Cmp(y.c) == 0 && len(x.f) == 1 && len(y.f) == 1 && x.f[0].e.Key() == y.f[0].e.Key() {
			u, v := x.f[0].a, y.f[0].a
			if (u != a || v != b) && s.cmp(u, v, nil, f, depth+1) == "" {
				return true
			}
			if structural(u) && u.op == v.op && u.op != "bin" {
				return s.args(u, v, f, depth) == ""
			}
		}
	}
	return false
}

var clipAt = 260

func clip(s string) string {
	if len(s) > clipAt {
		return s[:clipAt] + "…"
	}
	return s
}

// ---- report helpers --------------------------------------------------------

// factsText lists the branch conditions of a path.
func factsText(f *Facts) string {
	var out []string
	for _, k := range f.order {
		if f.imp[k] {
			continue
		}
		x := clip(k.String())
		if !f.m[k] {
			x = "not " + x
		}
		out = append(out, x)
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "always"
	}
	return "when " + strings.Join(out, " and ")
}

// returns requires a normal return with the wanted values and nothing else.
func (s *Spec) returns(rule, name string, kinds []string, opaque map[string]bool, mk func(args []*Term) []*Term, want func(args []*Term, f *Facts) []*Term) bool {
	lab := label(name, kinds)
	res, args, fn := s.run(rule, name, kinds, opaque, mk)
	if res == nil {
		return false
	}
	return s.check(rule, lab, fn, res, args, want)
}

func (s *Spec) check(rule, lab string, fn *ssa.Function, res *Result, args []*Term, want func(args []*Term, f *Facts) []*Term) bool {
	pos := s.p.Pos(fn.Pos())
	if len(res.Rets) == 0 {
		s.r.Bad(rule, lab, pos, "the operation never returns for these operands")
		return false
	}
	for _, rt := range res.Rets {
		w := want(args, rt.Facts)
		if w == nil {
			continue
		}
		for i, x := range rt.Vals {
			if i >= len(w) || w[i] == nil {
				continue
			}
			if why := s.same(x, w[i], fn.Signature.Results().At(i).Type(), rt.Facts); why != "" {
				s.r.Bad(rule, lab, s.p.Pos(fn.Pos()), "the result is "+why+" ["+factsText(rt.Facts)+"]")
				return false
			}
		}
	}
	s.r.OK(lab)
	return true
}

// iface wraps a concrete value.
func (s *Spec) iface(x *Term, kind string) *Term { return s.T.Iface(x, s.p.KindType(kind)) }

// call builds the uninterpreted application the engine would build.
func (s *Spec) call(name string, typ types.Type, args ...*Term) *Term {
	return s.T.Call(name, args, typ)
}
