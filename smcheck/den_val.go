package main

// Denotations of the library's values: scalars as polynomials over variable
// values, vectors and matrices entry by entry.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const (
	fine   = iota // monomials down to variable values
	byForm        // coefficient times an opaque power product
	coarse        // whole monomials are atoms
)

// scalarKindOf: the kind of a scalar value with static type t.
func scalarKindOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsFloat != 0:
			return "float64"
		case b.Info()&types.IsInteger != 0:
			return "int"
		}
	}
	switch s := typeShort(t); s {
	case "K", "Variable", "Monomial", "Polynomial":
		return s
	}
	return ""
}

// scalar is the value of a scalar expression.
func (d *Den) scalar(t *Term, f *Facts) *Poly {
	defer d.enter()()
	T := d.T
	switch t.op {
	case "choice":
		r := pint(0)
		for i := 0; i+1 < len(t.args); i += 2 {
			g := d.indicator(t.args[i], f)
			if g.isZero() {
				continue
			}
			h := f.clone()
			if t.args[i].loose == 0 && !d.D.Assume(t.args[i], true, h) {
				continue
			}
			r = padd(r, pmul(g, d.scalar(t.args[i+1], h)), 1)
		}
		return r
	case "iface":
		k := scalarKindOf(t.typ)
		if k == "" {
			return d.entry11(t, f)
		}
		return d.kindVal(k, t.args[0], f)
	case "assert":
		if scalarKindOf(t.typ) != "" || types.IsInterface(t.typ) {
			return d.scalar(t.args[0], f)
		}
		return d.entry11(t, f)
	case "call":
		if d.literal != nil && t == d.literal {
			return d.kindVal(scalarKindOf(t.typ), t, f)
		}
		return d.callScalar(t, f)
	case "fold":
		if p := d.foldValue(t, f, d.scalar); p != nil {
			return p
		}
	case "elem":
		if x := d.elemAtom(t, f); x != nil {
			return d.scalar(x, f)
		}
		if p := d.listEntry(t, f, d.scalar); p != nil {
			return p
		}
	}
	if k := scalarKindOf(t.typ); k != "" {
		return d.kindVal(k, t, f)
	}
	if t.op == "acc" || t.op == "sym" || t.op == "elem" || t.op == "field" || t.op == "res" || t.op == "mapget" || t.op == "mapval" {
		return patom(T.mk(Term{op: "val", args: []*Term{t}}))
	}
	d.fail("the value of %s is not understood", clip(t.String()))
	return nil
}

// kindVal: x holds a value of the named scalar kind.
func (d *Den) kindVal(k string, x *Term, f *Facts) *Poly {
	T := d.T
	switch x.op {
	case "choice":
		r := pint(0)
		for i := 0; i+1 < len(x.args); i += 2 {
			g := d.indicator(x.args[i], f)
			if g.isZero() {
				continue
			}
			h := f.clone()
			if x.args[i].loose == 0 && !d.D.Assume(x.args[i], true, h) {
				continue
			}
			r = padd(r, pmul(g, d.kindVal(k, x.args[i+1], h)), 1)
		}
		return r
	case "assert":
		return d.scalar(x.args[0], f)
	case "call":
		if d.literal != nil && x == d.literal {
			break
		}
		if k != "float64" && k != "int" {
			return d.callScalar(x, f)
		}
	case "fold":
		if k != "int" {
			if p := d.foldValue(x, f, func(t *Term, g *Facts) *Poly { return d.kindVal(k, t, g) }); p != nil {
				return p
			}
		}
	case "acc":
		if k != "float64" && k != "int" && k != "K" {
			return patom(T.mk(Term{op: "val", args: []*Term{x}}))
		}
	case "elem":
		if y := d.elemAtom(x, f); y != nil {
			return d.kindVal(k, y, f)
		}
	}
	typ := d.e.P.KindType(k)
	switch k {
	case "float64", "K":
		return d.float(x, f)
	case "int":
		return d.integer(x, f)
	case "Variable":
		return d.X(d.normID(T.Field(x, fieldIndex(typ, "ID"), typ), f))
	case "Monomial":
		if d.mode == coarse && rooted(x) || x.op == "elem" && x.args[0].op == "filt" {
			return patom(T.mk(Term{op: "val", args: []*Term{x}}))
		}
		co := d.float(T.Field(x, fieldIndex(typ, "Coefficient"), typ), f)
		vf := T.Field(x, fieldIndex(typ, "VariableFactors"), typ)
		ex := T.Field(x, fieldIndex(typ, "Exponents"), typ)
		return pmul(co, d.form(vf, ex, f))
	case "Polynomial":
		ms := T.Field(x, fieldIndex(typ, "Monomials"), typ)
		mt := d.e.P.KindType("Monomial")
		return d.SumL(ms, f, func(k *Term, g *Facts) *Poly {
			return d.kindVal("Monomial", d.elem(ms, k, mt, g), g)
		})
	}
	d.fail("unknown kind %s", k)
	return nil
}

func fieldIndex(t types.Type, name string) int {
	st, ok := structOf(t)
	if !ok {
		panic(denErr{"not a struct"})
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(denErr{"field " + name + " not found"})
}

// form is the power product of parallel variable and exponent lists.
func (d *Den) form(vf, ex *Term, f *Facts) *Poly {
	T := d.T
	if vf.op == "choice" {
		r := pint(0)
		for i := 0; i+1 < len(vf.args); i += 2 {
			h := f.clone()
			if !d.D.Assume(vf.args[i], true, h) {
				continue
			}
			r = padd(r, pmul(d.indicator(vf.args[i], f), d.form(vf.args[i+1], d.norm(ex, h), h)), 1)
		}
		return r
	}
	if d.degreeZero(vf, f) {
		return pint(1)
	}
	if d.mode != fine && rooted(vf) && rooted(ex) {
		a := d.canonForm(T.mk(Term{op: "form", args: []*Term{vf, ex}}), f)
		z := d.indicator(T.EqInt(T.Len(a.args[0]), T.Int(0)), f)
		return padd(z, pmul(padd(pint(1), z, -1), patom(a)), 1)
	}
	vt := d.e.P.KindType("Variable")
	return d.ProdL(vf, f, func(k *Term, g *Facts) *Poly {
		b := d.kindVal("Variable", d.elem(vf, k, vt, g), g)
		e := d.integer(d.elem(ex, k, types.Typ[types.Int], g), g)
		return d.T.ppowP(b, e)
	})
}

// degreeZero: vf lists the variables of a monomial of a polynomial whose degree
// the facts say is zero (exponents are not negative, so every one is zero).
func (d *Den) degreeZero(vf *Term, f *Facts) bool {
	if vf.op != "field" || vf.args[0].op != "elem" {
		return false
	}
	l := vf.args[0].args[0]
	if l.op != "field" || l.name != "Monomials" {
		return false
	}
	for _, k := range f.order {
		if k.op != "eq0" || !f.m[k] {
			continue
		}
		c := k.args[0]
		if c.op != "call" || c.name != "Degree" || len(c.args) != 1 {
			continue
		}
		x := c.args[0]
		if x.op == "iface" {
			x = x.args[0]
		}
		if x == l.args[0] {
			return true
		}
	}
	return false
}

// rooted: t is read from something that is not built here.
func rooted(t *Term) bool {
	for t != nil {
		switch t.op {
		case "sym", "call", "res", "deref", "acc", "fold", "filt":
			return true
		case "field", "elem", "assert", "iface":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// matches lists the monomial pairs the facts say have one form.
func (d *Den) matches(f *Facts) [][2]*Term {
	var out [][2]*Term
	T := d.T
	add := func(c *Term) {
		if c.op == "call" && c.name == "MatchesFormOf" && len(c.args) == 2 {
			x, y := c.args[0], c.args[1]
			if x.op == "iface" {
				x = x.args[0]
			}
			if y.op == "iface" {
				y = y.args[0]
			}
			out = append(out, [2]*Term{x, y})
		}
	}
	for _, k := range f.order {
		if !f.m[k] {
			continue
		}
		add(k)
		if k.op == "exists" {
			i := T.mk(Term{op: "first", args: k.args, typ: types.Typ[types.Int]})
			for _, c := range conj(T.open(k.args[1], i)) {
				add(c)
			}
		}
	}
	return out
}

// canonForm picks one representative among power products of equal form.
func (d *Den) canonForm(a *Term, f *Facts) *Term {
	T := d.T
	ms := d.matches(f)
	if len(ms) == 0 {
		return a
	}
	mt := d.e.P.KindType("Monomial")
	form := func(x *Term) *Term {
		return T.mk(Term{op: "form", args: []*Term{
			T.Field(x, fieldIndex(mt, "VariableFactors"), mt), T.Field(x, fieldIndex(mt, "Exponents"), mt)}})
	}
	rank := func(x *Term) int {
		r := x.id
		if hasOp(x, "acc") {
			r += 1 << 30
		}
		return r
	}
	best := a
	seen := map[*Term]bool{a: true}
	work := []*Term{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if rank(x) < rank(best) {
			best = x
		}
		for _, m := range ms {
			p, q := form(m[0]), form(m[1])
			for _, e := range [][2]*Term{{p, q}, {q, p}} {
				if e[0] == x && !seen[e[1]] {
					seen[e[1]] = true
					work = append(work, e[1])
				}
			}
		}
	}
	return best
}

func hasOp(t *Term, op string) bool {
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if hasOp(a, op) {
			return true
		}
	}
	return false
}

// normID canonicalises identifiers: the entry that FindInSlice found has the
// identifier that was looked up.
func (d *Den) normID(id *Term, f *Facts) *Term {
	id = d.norm(id, f)
	if id.op == "field" && id.name == "ID" && id.args[0].op == "elem" {
		if fd := findIndex(id.args[0].args[1]); fd != nil {
			x, l := findArgs(fd)
			if l == id.args[0].args[0] && d.D.Decide(d.T.EqInt(fd, d.T.Int(-1)), f) == no {
				return d.normID(d.T.Field(x, id.n, x.typOr(d.e.P.KindType("Variable"))), f)
			}
		}
	}
	return id
}

func (t *Term) typOr(u types.Type) types.Type { return u }

// findIndex: t is the index FindInSlice returned.
func findIndex(t *Term) *Term {
	if t.op == "res" && t.n == 0 && t.args[0].op == "call" && t.args[0].name == "symbolic.FindInSlice" {
		if len(t.args[0].args) == 2 && t.args[0].args[0].op == "iface" && t.args[0].args[1].op == "iface" {
			return t
		}
	}
	return nil
}

func findArgs(fd *Term) (x, l *Term) {
	return fd.args[0].args[0].args[0], fd.args[0].args[1].args[0]
}

// mkFind builds the index FindInSlice(x, l) returns.
func (d *Den) mkFind(x, l *Term) *Term {
	T := d.T
	vt := d.e.P.KindType("Variable")
	c := T.Call("symbolic.FindInSlice", []*Term{T.Iface(x, vt), T.Iface(l, types.NewSlice(vt))}, nil)
	return T.mk(Term{op: "res", n: 0, args: []*Term{c}, typ: types.Typ[types.Int]})
}

// distinctList: no identifier occurs twice.
func distinctList(l *Term) bool {
	switch l.op {
	case "field":
		return l.name == "VariableFactors" && stable(l.args[0])
	case "call":
		return l.name == "symbolic.UniqueVars" || l.name == "Variables" || l.name == "symbolic.UnionOfVariables"
	}
	return false
}

// ---- operations ---------------------------------------------------------------

func (d *Den) callScalar(t *Term, f *Facts) *Poly {
	T := d.T
	if d.extra != nil {
		if p := d.extra(d, t, f); p != nil {
			return p
		}
	}
	a := t.args
	switch t.name {
	case "symbolic.Minus":
		t = T.Call("Minus", a, t.typ)
	}
	switch t.name {
	case "Plus", "Minus", "Multiply":
		if len(a) == 2 && d.isScalar(a[0], f) && d.isScalar(a[1], f) {
			x, y := d.scalar(a[0], f), d.scalar(a[1], f)
			switch t.name {
			case "Plus":
				return padd(x, y, 1)
			case "Minus":
				return padd(x, y, -1)
			}
			return pmul(x, y)
		}
		return d.entry11(t, f)
	case "Power":
		if len(a) == 2 && d.isScalar(a[0], f) {
			return d.T.ppowP(d.scalar(a[0], f), d.integer(a[1], f))
		}
		return d.entry11(t, f)
	case "AsSimplifiedExpression", "Simplify", "Copy", "ToMonomial", "ToPolynomial", "ToVariable", "Transpose":
		if d.isScalar(a[0], f) {
			return d.scalar(a[0], f)
		}
		return d.entry11(t, f)
	case "DerivativeWrt":
		if d.isScalar(a[0], f) {
			vt := d.e.P.KindType("Variable")
			return d.deriv(d.scalar(a[0], f), d.normID(T.Field(a[1], fieldIndex(vt, "ID"), vt), f), a[1], f)
		}
		return d.entry11(t, f)
	case "Substitute":
		if d.isScalar(a[0], f) {
			vt := d.e.P.KindType("Variable")
			s := &subst{id: d.normID(T.Field(a[1], fieldIndex(vt, "ID"), vt), f), e: d.scalar(a[2], f), v: a[1], se: a[2]}
			return d.subst(d.scalar(a[0], f), s, f)
		}
		return d.entry11(t, f)
	case "SubstituteAccordingTo":
		if d.isScalar(a[0], f) {
			s := &subst{m: a[1]}
			return d.subst(d.scalar(a[0], f), s, f)
		}
		return d.entry11(t, f)
	case "At":
		m := d.matrix(a[0], f)
		return m.at(a[1], a[2], f)
	case "AtVec":
		m := d.matrix(a[0], f)
		return m.at(a[1], T.Int(0), f)
	case "symbolic.ConcretizeExpression":
		return d.entry11(t, f)
	}
	if t.typ != nil && types.IsInterface(t.typ) || scalarKindOf(t.typ) != "" {
		return patom(T.mk(Term{op: "val", args: []*Term{t}}))
	}
	d.fail("operation %s has no specification here", t.name)
	return nil
}

// entry11: the value of a one by one object.
func (d *Den) entry11(t *Term, f *Facts) *Poly {
	m := d.matrix(t, f)
	one := d.T.Int(1)
	if d.D.Decide(d.T.EqInt(m.R, one), f) == no || d.D.Decide(d.T.EqInt(m.C, one), f) == no {
		d.fail("%s is not a scalar", clip(t.String()))
	}
	return m.at(d.T.Int(0), d.T.Int(0), f)
}

// callKinds: the kinds of value an operation can return, from its source.
func (e *Engine) callKinds(t *Term) []types.Type {
	if t.op != "call" || len(t.args) == 0 {
		return nil
	}
	var fn *ssa.Function
	if t.args[0].op == "iface" {
		fn = e.P.Method(typeShort(t.args[0].typ), t.name)
	}
	if fn == nil {
		return nil
	}
	return e.returnKinds(fn)
}

func (e *Engine) returnKinds(fn *ssa.Function) []types.Type {
	seen := map[any]bool{}
	out := map[string]types.Type{}
	ok := true
	var val func(v ssa.Value)
	var fun func(fn *ssa.Function)
	val = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if !types.IsInterface(v.Type()) {
			out[typeKey(v.Type())] = v.Type()
			return
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			out[typeKey(x.X.Type())] = x.X.Type()
		case *ssa.ChangeInterface:
			val(x.X)
		case *ssa.Phi:
			for _, y := range x.Edges {
				val(y)
			}
		case *ssa.TypeAssert:
			val(x.X)
		case *ssa.Call:
			if c := x.Call.StaticCallee(); c != nil && len(c.Blocks) > 0 {
				fun(c)
			} else {
				ok = false
			}
		default:
			ok = false
		}
	}
	fun = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && len(r.Results) > 0 {
				val(r.Results[0])
			}
		}
	}
	fun(fn)
	if !ok {
		return nil
	}
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ts []types.Type
	for _, k := range ks {
		ts = append(ts, out[k])
	}
	return ts
}

// isScalar: t is known to be a scalar expression or a number.
func (d *Den) isScalar(t *Term, f *Facts) bool {
	switch t.op {
	case "iface":
		return scalarKindOf(t.typ) != ""
	case "assert":
		if scalarKindOf(t.typ) != "" {
			return true
		}
		return d.isScalar(t.args[0], f)
	case "choice":
		for i := 0; i+1 < len(t.args); i += 2 {
			if !d.isScalar(t.args[i+1], f) {
				return false
			}
		}
		return true
	case "acc":
		return t.name == "scalar"
	case "mapget", "mapval":
		return true // substitution maps hold scalar expressions (CheckSubstitutionMap)
	case "fold":
		return t.n == 1 && d.isScalar(t.args[1], f) && d.foldScalar(t, f)
	case "call":
		switch t.name {
		case "Plus", "Minus", "Multiply":
			return d.isScalar(t.args[0], f) && d.isScalar(t.args[1], f)
		case "AsSimplifiedExpression", "Substitute", "SubstituteAccordingTo", "DerivativeWrt", "Power", "Transpose", "Simplify", "Copy", "ToMonomial", "ToPolynomial", "ToVariable":
			if d.isScalar(t.args[0], f) {
				return true
			}
		case "At", "AtVec":
			return true
		}
	}
	if scalarKindOf(t.typ) != "" {
		return true
	}
	if t.typ != nil && typeShort(t.typ) == "ScalarExpression" {
		return true
	}
	for _, k := range f.order {
		if k.op == "typeis" && f.m[k] && k.args[0] == t && (scalarKindOf(k.typ) != "" || typeShort(k.typ) == "ScalarExpression") {
			return true
		}
	}
	return false
}

func (d *Den) foldScalar(t *Term, f *Facts) bool {
	k := d.idx()
	acc := d.T.mk(Term{op: "acc", name: "scalar", n: k.n, typ: t.typ})
	return d.isScalar(d.T.open(t.args[2], k, acc), f)
}

// ---- derivative and substitution as homomorphisms ------------------------------

func (d *Den) deriv(p *Poly, id, v *Term, f *Facts) *Poly {
	r := pint(0)
	for _, m := range p.monos() {
		for i, x := range m.f {
			da := d.derivAtom(x.a, id, v, f)
			if da.isZero() {
				continue
			}
			rest := append(append([]fac{}, m.f[:i]...), m.f[i+1:]...)
			q := pmul(pmono(m.c, rest), x.e)
			q = pmul(q, ppow(x.a, padd(x.e, pint(1), -1)))
			r = padd(r, pmul(q, da), 1)
		}
	}
	return r
}

func (d *Den) derivAtom(a, id, v *Term, f *Facts) *Poly {
	T := d.T
	switch a.op {
	case "X":
		return d.indicator(T.EqInt(a.args[0], id), f)
	case "val":
		x := a.args[0]
		c := T.Call("DerivativeWrt", []*Term{d.box(x), v}, nil)
		p := patom(T.mk(Term{op: "val", args: []*Term{d.retype(c)}}))
		if typeShort(typeOf(x)) == "Monomial" {
			mt := d.e.P.KindType("Monomial")
			vf := T.Field(x, fieldIndex(mt, "VariableFactors"), mt)
			p = pmul(p, padd(pint(1), d.indicator(T.EqInt(T.Len(vf), T.Int(0)), f), -1))
		}
		return p
	case "psum":
		return d.Sum(a.args[0], f, func(k *Term, g *Facts) *Poly { return d.deriv(d.parse(T.open(a.args[1], k), g), id, v, g) })
	case "pprod":
		s := d.Sum(a.args[0], f, func(k *Term, g *Facts) *Poly {
			b := d.parse(T.open(a.args[1], k), g)
			i := pinv(b)
			if i == nil {
				d.fail("the derivative of this product is not understood")
			}
			return pmul(d.deriv(b, id, v, g), i)
		})
		return pmul(patom(a), s)
	case "pbox":
		return d.deriv(d.parse(a.args[0], f), id, v, f)
	case "form":
		d.fail("form has no derivative rule")
	}
	return pint(0)
}

func typeOf(t *Term) types.Type {
	if t.op == "iface" {
		return t.typ
	}
	return t.typ
}

func (d *Den) box(x *Term) *Term {
	if x.typ != nil && !types.IsInterface(x.typ) && x.op != "iface" {
		return d.T.Iface(x, x.typ)
	}
	return x
}

// retype gives a derived operation the result type its interface declares.
func (d *Den) retype(c *Term) *Term {
	return d.T.Call(c.name, c.args, d.e.P.KindType("Expression"))
}

type subst struct {
	id    *Term
	e     *Poly
	v, se *Term
	m     *Term
}

func (d *Den) subst(p *Poly, s *subst, f *Facts) *Poly {
	return p.mapAtoms(d.T, func(a *Term) *Poly { return d.substAtom(a, s, f) })
}

func (d *Den) substAtom(a *Term, s *subst, f *Facts) *Poly {
	T := d.T
	switch a.op {
	case "X":
		if s.m != nil {
			// an identifier stands for its variable
			if id := a.args[0]; id.op == "field" && id.name == "ID" {
				v := id.args[0]
				i := d.indicator(T.mk(Term{op: "mapok", args: []*Term{s.m, v}}), f)
				e := patom(T.mk(Term{op: "val", args: []*Term{T.mk(Term{op: "mapget", args: []*Term{s.m, v}, typ: d.e.P.KindType("Expression")})}}))
				return padd(pmul(i, e), pmul(padd(pint(1), i, -1), patom(a)), 1)
			}
			return patom(T.mk(Term{op: "Xsub", args: []*Term{a.args[0], s.m}}))
		}
		i := d.indicator(T.EqInt(a.args[0], s.id), f)
		return padd(pmul(i, s.e), pmul(padd(pint(1), i, -1), patom(a)), 1)
	case "val":
		var c *Term
		if s.m != nil {
			c = T.Call("SubstituteAccordingTo", []*Term{d.box(a.args[0]), s.m}, nil)
		} else {
			c = T.Call("Substitute", []*Term{d.box(a.args[0]), s.v, s.se}, nil)
		}
		return patom(T.mk(Term{op: "val", args: []*Term{d.retype(c)}}))
	case "psum":
		return d.Sum(a.args[0], f, func(k *Term, g *Facts) *Poly { return d.subst(d.parse(T.open(a.args[1], k), g), s, g) })
	case "pprod":
		return d.Prod(a.args[0], f, func(k *Term, g *Facts) *Poly { return d.subst(d.parse(T.open(a.args[1], k), g), s, g) })
	case "pbox":
		q := d.subst(d.parse(a.args[0], f), s, f)
		return patom(T.mk(Term{op: "pbox", args: []*Term{T.PolyTerm(q)}}))
	case "form", "Xsub":
		d.fail("no substitution rule for %s", a.op)
	}
	return patom(a)
}

// ---- folds -----------------------------------------------------------------------

// foldValue: a value accumulated by a loop, when each step is affine in it.
func (d *Den) foldValue(t *Term, f *Facts, val func(t *Term, g *Facts) *Poly) *Poly {
	T := d.T
	if t.n != 1 {
		return nil
	}
	name := ""
	init := t.args[1]
	if d.isScalar(init, f) {
		name = "scalar"
	}
	typ := t.typ
	if typ == nil {
		typ = init.typ
	}
	k := d.idx()
	acc := T.mk(Term{op: "acc", name: name, n: k.n, typ: typ})
	g := d.under(f, k, t.args[0])
	a0 := val(acc, g)
	m := a0.single()
	if m == nil || len(m.f) != 1 {
		return nil
	}
	atom := m.f[0].a
	nx := val(d.norm(T.open(t.args[2], k, acc), g), g)
	A, B, ok := splitLinear(nx, atom)
	if !ok || mentions(A, acc) || mentions(B, acc) {
		d.fail("the accumulation %s is not affine", clip(nx.String()))
	}
	i0 := val(init, f)
	if v, isC := A.isConst(); isC && v.Cmp(big.NewRat(1, 1)) == 0 {
		if !B.free(k) && !B.isZero() {
			return padd(i0, pmul(B, d.integer(t.args[0], f)), 1)
		}
		return padd(i0, d.sumOver(d.norm(t.args[0], f), k, B, f), 1)
	}
	if B.isZero() {
		return pmul(i0, d.Prod(t.args[0], f, func(j *Term, h *Facts) *Poly { return d.substPoly(A, k, j, h) }))
	}
	d.fail("the accumulation is neither a sum nor a product")
	return nil
}

// splitLinear: p = A·x + B.
func splitLinear(p *Poly, x *Term) (A, B *Poly, ok bool) {
	A, B = pint(0), pint(0)
	for _, m := range p.monos() {
		var rest []fac
		hit := false
		for _, y := range m.f {
			if y.a == x {
				if v, isC := y.e.isConst(); !isC || v.Cmp(big.NewRat(1, 1)) != 0 || hit {
					return nil, nil, false
				}
				hit = true
				continue
			}
			rest = append(rest, y)
		}
		if hit {
			A.addMono(m.c, rest)
		} else {
			B.addMono(m.c, rest)
		}
	}
	return A, B, true
}

func mentions(p *Poly, x *Term) bool {
	for _, m := range p.monos() {
		for _, f := range m.f {
			if contains(f.a, x) || mentions(f.e, x) {
				return true
			}
		}
	}
	return false
}

// ---- sums and products over lists -------------------------------------------------

func (d *Den) SumL(l *Term, f *Facts, g func(k *Term, f *Facts) *Poly) *Poly {
	return d.overList(l, f, g, true)
}
func (d *Den) ProdL(l *Term, f *Facts, g func(k *Term, f *Facts) *Poly) *Poly {
	return d.overList(l, f, g, false)
}

// overList runs over the positions of l following its structure.
func (d *Den) overList(l *Term, f *Facts, g func(k *Term, f *Facts) *Poly, sum bool) *Poly {
	defer d.enter()()
	T := d.T
	l = d.norm(l, f)
	comb := func(a, b *Poly) *Poly {
		if sum {
			return padd(a, b, 1)
		}
		return pmul(a, b)
	}
	unit := pint(1)
	if sum {
		unit = pint(0)
	}
	switch l.op {
	case "choice":
		r := pint(0)
		for i := 0; i+1 < len(l.args); i += 2 {
			h := f.clone()
			if !d.D.Assume(l.args[i], true, h) {
				continue
			}
			r = padd(r, pmul(d.indicator(l.args[i], f), d.overList(l.args[i+1], h, g, sum)), 1)
		}
		return r
	case "app":
		off := T.Int(0)
		r := unit
		for _, a := range l.args {
			o := off
			r = comb(r, d.overList(a, f, func(k *Term, h *Facts) *Poly { return g(T.Add(k, o, 1), h) }, sum))
			off = T.Add(off, T.Len(a), 1)
		}
		return r
	case "filt":
		k := d.idx()
		j := d.idx()
		h := d.under(f, j, l.args[0])
		c := T.open(l.args[1], j)
		d.D.Assume(c, true, h)
		if h.bad {
			return unit
		}
		body := g(k, h)
		back := d.replaceFilt(body, l, k, j, h)
		ind := d.indicator(c, d.under(f, j, l.args[0]))
		if sum {
			return d.sumOver(d.norm(l.args[0], f), j, pmul(ind, back), f)
		}
		m := back.single()
		if m == nil || m.c.Cmp(big.NewRat(1, 1)) != 0 {
			d.fail("filtered product")
		}
		q := pint(1)
		for _, x := range m.f {
			q = pmul(q, ppow(x.a, pmul(x.e, ind)))
		}
		return d.prodOver(d.norm(l.args[0], f), j, q, f)
	case "fold":
		if sum {
			if p := d.sumFold(l, f, g); p != nil {
				return p
			}
		}
	}
	if sum {
		return d.Sum(T.Len(l), f, g)
	}
	return d.Prod(T.Len(l), f, g)
}

// replaceFilt rewrites the k-th kept element of parallel filters as the j-th
// source element.
func (d *Den) replaceFilt(p *Poly, l, k, j *Term, f *Facts) *Poly {
	T := d.T
	rw := func(t *Term) *Term {
		return T.Rewrite(t, func(x *Term) *Term {
			if x.op == "elem" && x.args[1] == k && x.args[0].op == "filt" && x.args[0].args[0] == l.args[0] && x.args[0].args[1] == l.args[1] {
				return T.open(x.args[0].args[2], j)
			}
			return nil
		})
	}
	r := p.mapAtoms(d.T, func(a *Term) *Poly {
		if !a.free[k] {
			return patom(a)
		}
		n := rw(a)
		if n.free[k] {
			d.fail("filtered lists are not parallel: %s", clip(n.String()))
		}
		return d.atom(d.norm(n, f), f)
	})
	return r
}

// sumFold: a sum over the entries of a list that a loop builds by appending
// entries and replacing entries.
func (d *Den) sumFold(l *Term, f *Facts, g func(k *Term, f *Facts) *Poly) *Poly {
	T := d.T
	if l.n != 1 {
		return nil
	}
	et := elemTypeOf(l.typ)
	if et == nil {
		return nil
	}
	// the contribution of one entry
	hole := T.mk(Term{op: "sym", name: fmt.Sprintf("entry%d", l.id), typ: et})
	jk := d.idx()
	hf := d.under(f, jk, T.Len(l))
	body := g(jk, hf)
	rw := func(t, list *Term) *Term {
		return T.Rewrite(t, func(x *Term) *Term {
			if x.op == "elem" && x.args[1] == jk && x.args[0] == list {
				return hole
			}
			return nil
		})
	}
	open := body.mapAtoms(d.T, func(a *Term) *Poly {
		if !a.free[jk] {
			return patom(a)
		}
		n := rw(a, l)
		if n.free[jk] {
			d.fail("entry contribution depends on the position")
		}
		return patom(n)
	})
	phi := func(x *Term, h *Facts) *Poly {
		return open.mapAtoms(d.T, func(a *Term) *Poly {
			n := T.Rewrite(a, func(y *Term) *Term {
				if y == hole {
					return x
				}
				return nil
			})
			if n == a {
				return patom(a)
			}
			return d.atom(d.norm(n, h), h)
		})
	}
	k := d.idx()
	acc := T.mk(Term{op: "acc", name: "list", n: k.n, typ: l.typ})
	S := patom(T.mk(Term{op: "listsum", args: []*Term{acc}}))
	h := d.under(f, k, l.args[0])
	var step func(nx *Term, h *Facts) *Poly
	step = func(nx *Term, h *Facts) *Poly {
		nx = d.norm(nx, h)
		switch {
		case nx == acc:
			return S
		case nx.op == "choice":
			r := pint(0)
			for i := 0; i+1 < len(nx.args); i += 2 {
				g := h.clone()
				if !d.D.Assume(nx.args[i], true, g) {
					continue
				}
				r = padd(r, pmul(d.indicator(nx.args[i], h), step(nx.args[i+1], g)), 1)
			}
			return r
		case nx.op == "app" && nx.args[0] == acc:
			r := S
			rest := T.App(nx.args[1:]...)
			return padd(r, d.overList(rest, h, func(j *Term, g *Facts) *Poly { return phi(d.elem(rest, j, et, g), g) }, true), 1)
		case nx.op == "set":
			base := step(nx.args[0], h)
			old := d.elem(nx.args[0], nx.args[1], et, h)
			return padd(padd(base, phi(nx.args[2], h), 1), phi(old, h), -1)
		}
		d.fail("list step %s is not understood", clip(nx.String()))
		return nil
	}
	p := step(T.open(l.args[2], k, acc), h)
	A, B, ok := splitLinear(p, S.monos()[0].f[0].a)
	if v, isC := A.isConst(); !ok || !isC || v.Cmp(big.NewRat(1, 1)) != 0 || mentions(B, acc) {
		d.fail("the entries of the list do not add up: %s", clipN(p.String(), 3000))
	}
	init := d.overList(l.args[1], f, func(j *Term, g *Facts) *Poly { return phi(d.elem(l.args[1], j, et, g), g) }, true)
	return padd(init, d.sumOver(d.norm(l.args[0], f), k, B, f), 1)
}

// listEntry: entry of a list whose entries a loop replaces, t = fold(...)[i]:
// the entry is affine in its previous value at every step.
func (d *Den) listEntry(t *Term, f *Facts, val func(t *Term, g *Facts) *Poly) *Poly {
	defer d.enter()()
	T := d.T
	if t.op != "elem" || t.args[0].op != "fold" || t.args[0].n != 1 {
		return nil
	}
	l, i := t.args[0], t.args[1]
	k := d.idx()
	acc := T.mk(Term{op: "acc", name: "list", n: k.n, typ: l.typ})
	cell := T.Elem(acc, i, t.typ)
	h := d.under(f, k, l.args[0])
	av := val(cell, h)
	m := av.single()
	if m == nil || len(m.f) != 1 {
		return nil
	}
	A := m.f[0].a
	bad := false
	var step func(nx *Term, h *Facts) *Poly
	step = func(nx *Term, h *Facts) *Poly {
		nx = d.norm(nx, h)
		switch {
		case nx == acc:
			return av
		case nx.op == "choice":
			r := pint(0)
			for j := 0; j+1 < len(nx.args); j += 2 {
				g := h.clone()
				if !d.D.Assume(nx.args[j], true, g) {
					continue
				}
				r = padd(r, pmul(d.indicator(nx.args[j], h), step(nx.args[j+1], g)), 1)
			}
			return r
		case nx.op == "set":
			idx := nx.args[1]
			c := T.EqInt(idx, i)
			dec := d.D.Decide(c, h)
			old := pint(0)
			if dec != yes {
				old = step(nx.args[0], h)
			}
			if dec == no {
				return old
			}
			g := h.clone()
			if !d.D.Assume(c, true, g) {
				return old
			}
			v := T.Rewrite(nx.args[2], func(x *Term) *Term {
				if x.op == "elem" && x.args[0] == nx.args[0] && x.args[1] == idx {
					return T.Elem(nx.args[0], i, x.typ)
				}
				return nil
			})
			nv := val(v, g)
			if dec == yes {
				return nv
			}
			ind := d.indicator(c, h)
			return padd(pmul(ind, nv), pmul(padd(pint(1), ind, -1), old), 1)
		}
		bad = true
		return av
	}
	p := step(T.open(l.args[2], k, acc), h)
	if bad {
		return nil
	}
	a, b, ok := splitLinear(p, A)
	if v, isC := a.isConst(); !ok || !isC || v.Cmp(big.NewRat(1, 1)) != 0 || mentions(b, acc) {
		return nil
	}
	init := val(d.norm(d.elem(l.args[1], i, t.typ, f), f), f)
	return padd(init, d.sumOver(d.norm(l.args[0], f), k, b, f), 1)
}
