package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugVal = os.Getenv("SMCHECK_VAL") != ""

// valueOps stay uninterpreted while one operation is evaluated; the value
// domain gives them their specified meaning.
var valueOps = names("Plus Minus Multiply Power Transpose Substitute SubstituteAccordingTo DerivativeWrt Simplify AsSimplifiedExpression symbolic.ConcretizeExpression symbolic.ConcretizeVectorExpression symbolic.ConcretizeMatrixExpression symbolic.FindInSlice symbolic.UniqueVars symbolic.UnionOfVariables MatchesFormOf Variables String Comparison Constant LinearCoeff Degree")

// valueOf runs one operation and compares every return with the wanted value.
// want is called with the symbolic arguments and gives the wanted value.
func (s *Spec) valueOf(rule, name string, kinds []string, opaque map[string]bool, mk func(args []*Term) []*Term, want func(d *Den, args []*Term, f *Facts) *MV) string {
	res, args, fn := s.run(rule, name, kinds, opaque, mk)
	if res == nil {
		return "missing"
	}
	if s.rewrite != nil {
		s.rewrite(res, args)
	}
	if len(res.Rets) == 0 {
		return "panics"
	}
	if rt := fn.Signature.Results().At(0).Type(); !types.IsInterface(rt) && s.matrixType(rt) {
		for i := range res.Rets {
			res.Rets[i].Vals[0] = s.T.Iface(res.Rets[i].Vals[0], rt)
		}
	}
	if b, ok := fn.Signature.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.Float64 {
		for i := range res.Rets {
			res.Rets[i].Vals[0] = s.T.Iface(res.Rets[i].Vals[0], s.p.KindType("K"))
		}
	}
	lab := label(name, kinds)
	s.r.Counts["value obligations"]++
	w := s.sameValue(res, args, want)
	if w != "" && name == "Polynomial.AsSimplifiedExpression" {
		// relative to Simplify, whose value is decided on its own
		T := s.T
		pt := s.p.KindType("Polynomial")
		q := T.Call("Simplify", []*Term{T.Iface(args[0], pt)}, pt)
		s.prepare = func(d *Den, args []*Term) { d.literal = q }
		w = s.sameValue(res, args, func(d *Den, args []*Term, f *Facts) *MV { return d.one2(q) })
		s.prepare = nil
	}
	if w != "" {
		s.r.Bad(rule, lab, s.p.Pos(fn.Pos()), w)
		return "bad"
	}
	s.r.OK(lab)
	return "ok"
}

func (s *Spec) sameValue(res *Result, args []*Term, want func(d *Den, args []*Term, f *Facts) *MV) string {
	var last string
	for _, mode := range []int{coarse, byForm, fine} {
		d := NewDen(s.e)
		d.mode = mode
		if s.prepare != nil {
			s.prepare(d, args)
		}
		ok := true
		for _, r := range res.Rets {
			w := ""
			if msg := d.try(func() {
				if s.shapes {
					d.shapeArgs = s.boxed(s.recv, args)
				}
				w = d.compareRet(r, args, want)
			}); msg != "" {
				w = "cannot be shown equal: " + msg
			}
			if w != "" {
				ok = false
				if debugVal {
					fmt.Println("   mode", mode, ":", clipN(w, 1500))
				}
				last = w
				break
			}
		}
		if ok {
			return ""
		}
	}
	return last
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (d *Den) compareRet(r Ret, args []*Term, want func(d *Den, args []*Term, f *Facts) *MV) string {
	T := d.T
	f := r.Facts
	var todo []caseT
	for _, c := range d.cases([]*Term{r.Vals[0]}, f, 64) {
		if !c.f.bad {
			todo = append(todo, d.splitShapes(c)...)
		}
	}
	for _, c := range todo {
		if c.f.bad {
			continue
		}
		got := d.matrix(c.ts[0], c.f)
		w := want(d, args, c.f)
		if w.R != nil && d.D.Decide(T.EqInt(got.R, w.R), c.f) != yes && d.norm(got.R, c.f) != d.norm(w.R, c.f) {
			return fmt.Sprintf("the result has %s rows instead of %s", clip(got.R.String()), clip(w.R.String()))
		}
		if w.C != nil && d.D.Decide(T.EqInt(got.C, w.C), c.f) != yes && d.norm(got.C, c.f) != d.norm(w.C, c.f) {
			if debugVal {
				fmt.Print(c.f.dump())
				fmt.Println("RET", clipN(c.ts[0].String(), 1500))
			}
			return fmt.Sprintf("the result has %s columns instead of %s", clip(got.C.String()), clip(w.C.String()))
		}
		g := c.f.clone()
		pick := func(n *Term) *Term {
			if d.isOne(n, g) {
				return T.Int(0)
			}
			k := d.idx()
			d.local[k] = false
			d.D.Assume(T.Lt(k, n), true, g)
			return k
		}
		i := pick(got.R)
		j := pick(got.C)
		if g.bad {
			continue
		}
		d.firstEntries(g)
		if g.bad {
			continue
		}
		a, b := got.at(i, j, g), w.at(i, j, g)
		d.points = []*Term{i, j}
		if ok, res := d.zero(padd(a, b, -1), g, 0); !ok {
			if debugVal {
				fmt.Print(g.dump())
				fmt.Println("GOT", clipN(a.String(), 1500), "\nRET", clipN(c.ts[0].String(), 1500))
			}
			return fmt.Sprintf("the value differs from the specified one: result - specification = %s", clipN(res, 900))
		}
	}
	return ""
}

// firstEntries: what is known of l[i] is known of l[0] when i can only be 0.
func (d *Den) firstEntries(f *Facts) {
	T := d.T
	for _, k := range append([]*Term{}, f.order...) {
		if k.loose > 0 || k.op == "exists" || k.op == "forall" {
			continue
		}
		zero := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || t.loose > 0 {
				return
			}
			seen[t] = true
			if t.op == "elem" {
				if i := t.args[1]; i.op == "res" || i.op == "first" || i.op == "last" {
					if _, done := zero[i]; !done && d.D.Decide(T.EqInt(i, T.Int(0)), f) == yes {
						zero[i] = T.Int(0)
					}
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(k)
		if len(zero) == 0 {
			continue
		}
		if nk := T.SubstMap(k, zero); nk != k {
			d.D.Assume(nk, f.m[k], f)
		}
	}
}

// splitShapes decides, for two containers, which dimensions agree or are one.
func (d *Den) splitShapes(c caseT) []caseT {
	T := d.T
	if d.shapeArgs == nil {
		return []caseT{c}
	}
	var ms []*MV
	for _, a := range d.shapeArgs {
		m := d.matrix(a, c.f)
		ms = append(ms, m)
	}
	conds := []*Term{T.EqInt(ms[0].R, ms[1].R), T.EqInt(ms[0].C, ms[1].C), T.EqInt(ms[0].C, ms[1].R)}
	for _, m := range ms {
		conds = append(conds, T.EqInt(m.R, T.Int(1)), T.EqInt(m.C, T.Int(1)))
	}
	out := []caseT{c}
	for _, q := range conds {
		var nx []caseT
		for _, c := range out {
			if d.D.Decide(q, c.f) != unknown {
				nx = append(nx, c)
				continue
			}
			for _, v := range []bool{true, false} {
				g := c.f.clone()
				if d.D.Assume(q, v, g) && !g.bad {
					nx = append(nx, caseT{ts: c.ts, f: g})
				}
			}
		}
		out = nx
	}
	var nx []caseT
	for _, c := range out {
		if d.consistent(c.f) {
			nx = append(nx, c)
		}
	}
	return nx
}

// consistent evaluates the compound facts under the other ones.
func (d *Den) consistent(f *Facts) bool {
	for _, k := range f.order {
		v, ok := f.m[k]
		if ok && (k.op == "forall" && v || k.op == "exists" && !v) && !d.instance(k, f) {
			return false
		}
		if !ok || (k.op != "ite" && k.op != "and") {
			continue
		}
		if r := d.D.Decide(k, f.without(k)); r != unknown && (r == yes) != v {
			return false
		}
	}
	return true
}

// possible: what the facts say of every position holds at the one looked at.
func (d *Den) possible(f *Facts) bool {
	for _, k := range f.order {
		v, ok := f.m[k]
		if ok && (k.op == "forall" && v || k.op == "exists" && !v) && !d.holdsAt(k, f.without(k), f) {
			return false
		}
		// nothing is found in an empty list
		if ok && !v && k.op == "eq0" {
			if m, _ := d.T.linParts(k.args[0]); len(m) == 1 {
				for a := range m {
					if findIndex(a) == nil {
						continue
					}
					_, l := findArgs(a)
					if d.D.Decide(d.T.EqInt(d.T.Len(l), d.T.Int(0)), f) == yes && d.D.Decide(d.T.EqInt(a, d.T.Int(-1)), f) == no {
						return false
					}
				}
			}
		}
	}
	return true
}

func (d *Den) holdsAt(k *Term, g, f *Facts) bool {
	T := d.T
	for _, x := range d.points {
		if !d.inDomain(x, k.args[0], f) {
			continue
		}
		c := T.open(k.args[1], x)
		if k.op == "exists" {
			c = T.Not(c)
		}
		for _, l := range conj(c) {
			if d.D.Decide(l, g) == no {
				return false
			}
			if l.op == "not" && l.args[0].op == "exists" {
				l = l.args[0]
			} else if l.op != "forall" {
				continue
			}
			if !d.holdsAt(l, g, f) {
				return false
			}
		}
	}
	return true
}

// inDomain: x < n, where n may be a length known to equal another one.
func (d *Den) inDomain(x, n *Term, f *Facts) bool {
	T := d.T
	if d.D.Decide(T.Lt(x, n), f) == yes {
		return true
	}
	for _, k := range f.order {
		if k.op != "pos" || !f.m[k] {
			continue
		}
		b := T.Add(k.args[0], x, 1)
		if b.free[x] {
			continue
		}
		q := T.EqInt(b, n)
		if d.D.Decide(q, f) == yes {
			return true
		}
		for _, a := range f.order {
			if a.op != "forall" || !f.m[a] {
				continue
			}
			for _, y := range d.points {
				if y == x || d.D.Decide(T.Lt(y, a.args[0]), f) != yes {
					continue
				}
				for _, l := range conj(T.open(a.args[1], y)) {
					if l == q {
						return true
					}
				}
			}
		}
	}
	return false
}

// instance looks at what a fact about every position says of the first one.
func (d *Den) instance(k *Term, f *Facts) bool {
	T := d.T
	if d.D.Decide(T.Lt(T.Int(0), k.args[0]), f) != yes {
		return true
	}
	c := T.open(k.args[1], T.Int(0))
	if k.op == "exists" {
		c = T.Not(c)
	}
	for _, l := range conj(c) {
		if d.D.Decide(l, f) == no {
			return false
		}
		if l.op == "forall" && !d.instance(l, f) {
			return false
		}
	}
	return true
}

func (s *Spec) matrixType(t types.Type) bool {
	sh, _ := matKind(t)
	return sh != ""
}

// debugValue: "Plus|Minus|Multiply ..." on "Kind.Op:Kind".
func debugValue(p *Program, what string) {
	for _, w := range strings.Fields(what) {
		sp := strings.SplitN(w, ":", 2)
		var kinds []string
		if len(sp) > 1 {
			kinds = strings.Split(sp[1], ",")
		}
		r := NewReport("DBG", "quick")
		s := NewSpec(p, r)
		fmt.Println(w, "=>", s.valueSpec("value", sp[0], kinds))
	}
}

// valueSpec compares one operation with its mathematical meaning.
func (s *Spec) valueSpec(rule, name string, kinds []string) string {
	op := name
	recv := ""
	if i := strings.Index(name, "."); i >= 0 {
		recv, op = name[:i], name[i+1:]
		if strings.HasPrefix(recv, "get") {
			recv, op = "", "symbolic.ToExpression"
		}
	} else {
		op = "symbolic." + name
	}
	mk := func(args []*Term) []*Term {
		if name != "Variable.Substitute" {
			return s.nonEmpty(recv, args)
		}
		// the variables of one computation belong to one environment
		vt := s.p.KindType("Variable")
		i := fieldIndex(vt, "Environment")
		return []*Term{s.T.Eq(s.T.Field(args[0], i, vt), s.T.Field(args[1], i, vt))}
	}
	s.recv = recv
	s.shapes = (op == "Plus" || op == "Minus" || op == "Multiply") && recv != "" && len(kinds) == 1
	return s.valueOf(rule, name, kinds, valueOps, mk, func(d *Den, args []*Term, f *Facts) *MV {
		T := d.T
		a := s.boxed(recv, args)
		return d.callMatrixOrScalar(T.Call(op, a, s.p.KindType("Expression")), f)
	})
}

// nonEmpty: vectors and matrices have at least one entry.
func (s *Spec) nonEmpty(recv string, args []*Term) []*Term {
	T := s.T
	var out []*Term
	for i, a := range s.boxed(recv, args) {
		if a.op != "iface" {
			continue
		}
		sh, el := matKind(a.typ)
		if sh == "" || i > 1 {
			continue
		}
		x := a.args[0]
		out = append(out, T.Lt(T.Int(0), T.Len(x)))
		if sh == "matrix" {
			var et types.Type = types.Typ[types.Float64]
			if el != "float64" {
				et = s.p.KindType(el)
			}
			out = append(out, T.Lt(T.Int(0), T.Len(T.Elem(x, T.Int(0), types.NewSlice(et)))))
		}
	}
	return out
}

// boxed gives the operands as expressions.
func (s *Spec) boxed(recv string, args []*Term) []*Term {
	a := make([]*Term, len(args))
	copy(a, args)
	if recv != "" {
		a[0] = s.T.Iface(a[0], s.p.KindType(recv))
	}
	for i := range a {
		if a[i].op == "iface" && i > 0 {
			k := typeShort(a[i].typ)
			if strings.HasPrefix(k, "*mat") {
				x, lk := s.asLib(a[i].args[0], "*"+strings.TrimPrefix(k, "*mat."))
				a[i] = s.iface(x, lk)
			}
		}
	}
	return a
}

func (d *Den) callMatrixOrScalar(t *Term, f *Facts) *MV {
	if d.isScalar(t, f) {
		return d.one2(t)
	}
	m := d.callMatrix(t, f)
	if m == nil {
		d.fail("no specification for %s", t.name)
	}
	return m
}

var _ = ssa.NaiveForm

func (f *Facts) dump() string {
	var sb strings.Builder
	for _, k := range f.order {
		fmt.Fprintf(&sb, "      %v %s\n", f.m[k], clipN(k.String(), 300))
	}
	return sb.String()
}
