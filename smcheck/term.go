package main

// Hash-consed value-graph terms (global value numbering with gated choices and
// locally-nameless binders for loop summaries).

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

type Term struct {
	id    int
	op    string
	name  string
	typ   types.Type
	c     constant.Value
	n     int
	args  []*Term
	coefs []int64 // for op "lin": coefficient per arg; n holds nothing, c0 the constant
	c0    int64
	loose int // 1 + deepest loose bound-variable level, 0 if closed
	free  map[*Term]bool
	ref   bool // mentions an object (address or slice reference)
}

type Terms struct {
	tallies int
	nfresh  int
	neg     int        // numbers of atoms that are bound again at once
	rowType types.Type // []ScalarExpression
	wf      bool       // operands are well formed
	tab     map[string]*Term
	next    int
	bdd     *bddTab
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}, bdd: newBdd()} }

func binders(op string) int {
	switch op {
	case "map", "filt", "forall", "exists", "first", "fold", "sum", "prod", "flat", "last", "maxf", "psum", "pprod":
		return 1
	}
	return 0
}

// firstBound: index of the first argument that lies under the binder.
func firstBound(t *Term) int {
	switch t.op {
	case "map", "filt", "forall", "exists", "first", "sum", "prod", "flat", "last", "psum", "pprod":
		return 1 // args[0] is the trip count
	case "maxf":
		return 2 // trip count, initial value
	case "fold":
		return 1 + t.n // trip count, inits..., nexts...
	}
	return len(t.args)
}

func (T *Terms) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	if t.typ != nil {
		sb.WriteByte('|')
		sb.WriteString(typeKey(t.typ))
	}
	if t.c != nil {
		sb.WriteByte('|')
		sb.WriteString(t.c.ExactString())
	}
	fmt.Fprintf(&sb, "|%d|%d", t.n, t.c0)
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coefs != nil {
			fmt.Fprintf(&sb, "*%d", t.coefs[i])
		}
	}
	k := sb.String()
	if x := T.tab[k]; x != nil {
		return x
	}
	x := new(Term)
	*x = t
	T.next++
	x.id = T.next
	if t.op == "bv" {
		x.loose = t.n + 1
	}
	x.ref = t.op == "ptr" || t.op == "slice"
	for _, a := range x.args {
		x.ref = x.ref || a.ref
	}
	fb := firstBound(x)
	for i, a := range x.args {
		l := a.loose
		if i >= fb && l > 0 {
			l--
		}
		if l > x.loose {
			x.loose = l
		}
	}
	// free loop atoms, used to skip substitution quickly
	if x.op == "idx" || x.op == "lv" {
		x.free = map[*Term]bool{x: true}
	} else {
		for _, a := range x.args {
			for f := range a.free {
				if x.free == nil {
					x.free = map[*Term]bool{}
				}
				x.free[f] = true
			}
		}
	}
	T.tab[k] = x
	return x
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeys[t] = s
	return s
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	as := func(from int) string {
		var s []string
		for _, a := range t.args[from:] {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	tn := ""
	if t.typ != nil {
		tn = typeShort(t.typ)
	}
	switch t.op {
	case "const":
		return t.c.ExactString()
	case "nil":
		return "nil"
	case "zero":
		return "zero(" + tn + ")"
	case "param", "sym":
		return t.name
	case "struct":
		return tn + "{" + as(0) + "}"
	case "field":
		return t.args[0].str(d+1) + "." + t.name
	case "iface":
		return "⟨" + tn + " " + t.args[0].str(d+1) + "⟩"
	case "assert":
		return t.args[0].str(d+1) + ".(" + tn + ")"
	case "typeis":
		return t.args[0].str(d+1) + " is " + tn
	case "lin":
		var s []string
		for i, a := range t.args {
			switch t.coefs[i] {
			case 1:
				s = append(s, a.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d·%s", t.coefs[i], a.str(d+1)))
			}
		}
		if t.c0 != 0 || len(s) == 0 {
			s = append(s, fmt.Sprint(t.c0))
		}
		return "(" + strings.Join(s, "+") + ")"
	case "elem":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "len":
		return "len(" + t.args[0].str(d+1) + ")"
	case "idx":
		return fmt.Sprintf("k%d", t.n)
	case "lv":
		return fmt.Sprintf("lv%d", t.n)
	case "bv":
		return fmt.Sprintf("#%d.%s", t.n, t.name)
	case "ptr":
		return fmt.Sprintf("&o%d.%s", t.n, t.name)
	case "own":
		return "&" + t.name
	case "slice":
		return fmt.Sprintf("[o%d]", t.n)
	case "choice":
		var s []string
		for i := 0; i+1 < len(t.args); i += 2 {
			s = append(s, t.args[i].str(d+1)+" → "+t.args[i+1].str(d+1))
		}
		return "choice{" + strings.Join(s, " | ") + "}"
	case "opaque":
		return fmt.Sprintf("?%s%d", t.name, t.n)
	}
	n := t.op
	if t.name != "" {
		n = t.name
		if t.op != "call" && t.op != "bin" {
			n = t.op + ":" + t.name
		}
	}
	return n + "(" + as(0) + ")"
}

// ---- constructors -------------------------------------------------------

func (T *Terms) Const(c constant.Value, typ types.Type) *Term {
	if typ != nil && isIntegral(typ) {
		if v, ok := constant.Int64Val(constant.ToInt(c)); ok {
			return T.Int(v)
		}
	}
	if typ != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsFloat != 0 {
				c = constant.ToFloat(c)
			}
		}
	}
	return T.mk(Term{op: "const", c: c})
}

func isIntegral(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (T *Terms) Int(v int64) *Term { return T.mk(Term{op: "lin", c0: v}) }
func (T *Terms) Float(f float64) *Term {
	return T.mk(Term{op: "const", c: constant.ToFloat(constant.MakeFloat64(f))})
}
func (T *Terms) Bool(b bool) *Term { return T.mk(Term{op: "const", c: constant.MakeBool(b)}) }
func (T *Terms) Nil() *Term        { return T.mk(Term{op: "nil"}) }
func (T *Terms) Sym(name string, typ types.Type) *Term {
	return T.mk(Term{op: "sym", name: name, typ: typ})
}
func (T *Terms) Opaque(why string) *Term {
	return T.mk(Term{op: "opaque", name: why, n: T.next + 1})
}

func (t *Term) isInt() (int64, bool) {
	if t.op == "lin" && len(t.args) == 0 {
		return t.c0, true
	}
	return 0, false
}
func (t *Term) isBool() (bool, bool) {
	if t.op == "const" && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}

// linear integer arithmetic
func (T *Terms) linParts(t *Term) (map[*Term]int64, int64) {
	if t.op == "lin" {
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return m, t.c0
	}
	return map[*Term]int64{t: 1}, 0
}

func (T *Terms) mkLin(m map[*Term]int64, c int64) *Term {
	var as []*Term
	for a, k := range m {
		if k != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && m[as[0]] == 1 && c == 0 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return T.mk(Term{op: "lin", args: as, coefs: cs, c0: c})
}

func (T *Terms) Add(a, b *Term, kb int64) *Term {
	m, c := T.linParts(a)
	m2, c2 := T.linParts(b)
	for x, k := range m2 {
		m[x] += kb * k
	}
	return T.mkLin(m, c+kb*c2)
}

func (T *Terms) Scale(a *Term, k int64) *Term {
	m, c := T.linParts(a)
	for x := range m {
		m[x] *= k
	}
	return T.mkLin(m, c*k)
}

// Lt builds a < b over integers in the canonical form 0 < b-a.
func (T *Terms) Lt(a, b *Term) *Term {
	d := T.Add(b, a, -1)
	if v, ok := d.isInt(); ok {
		return T.Bool(v > 0)
	}
	if n, c, sign, c0 := T.tally(d); c != nil {
		k := T.tallyIndex()
		switch {
		case sign > 0 && c0 == 0: // one at least satisfies c
			return T.Exists(n, k, T.open(c, k))
		case sign < 0 && c0 == 1: // none does
			return T.Not(T.Exists(n, k, T.open(c, k)))
		}
	}
	if c := T.counted(d, 1, 0); c != nil {
		return c
	}
	if c := T.counted(d, -1, 1); c != nil {
		return T.Not(c)
	}
	return T.mk(Term{op: "pos", args: []*Term{d}})
}

// counted: d is sign times a sum of counts, plus c0; the condition is that one
// of the counts is not zero.
func (T *Terms) counted(d *Term, sign, c0 int64) *Term {
	m, d0 := T.linParts(d)
	if len(m) == 0 || d0 != c0 {
		return nil
	}
	var any []*Term
	for a, q := range m {
		if a.op != "sum" || a.name != "int" || q*sign <= 0 {
			return nil
		}
		c := T.someCounted(a)
		if c == nil {
			return nil
		}
		any = append(any, c)
	}
	sort.Slice(any, func(i, j int) bool { return any[i].id < any[j].id })
	return T.Or(any...)
}

// someCounted: the condition that a count, which cannot be negative, is not zero.
func (T *Terms) someCounted(x *Term) *Term {
	if v, ok := x.isInt(); ok {
		if v < 0 {
			return nil
		}
		return T.Bool(v > 0)
	}
	switch {
	case x.op == "sum" && x.name == "int":
		k := T.tallyIndex()
		c := T.someCounted(T.open(x.args[1], k))
		if c == nil {
			return nil
		}
		return T.Exists(x.args[0], k, c)
	case x.op == "choice":
		var any []*Term
		for i := 0; i+1 < len(x.args); i += 2 {
			c := T.someCounted(x.args[i+1])
			if c == nil {
				return nil
			}
			any = append(any, T.And([]*Term{x.args[i], c}))
		}
		return T.Or(any...)
	}
	return nil
}

// tally reads sign·#{k < n : c(k)} + c0 (c is closed); sign·(n - #{c}) + c0 is
// the tally of the complement.
func (T *Terms) tally(d *Term) (n, c *Term, sign, c0 int64) {
	m, c0 := T.linParts(d)
	var sum *Term
	for a := range m {
		if a.op == "sum" && a.name == "int" {
			if sum != nil {
				return nil, nil, 0, 0
			}
			sum = a
		}
	}
	if sum == nil || m[sum] != 1 && m[sum] != -1 {
		return nil, nil, 0, 0
	}
	b := sum.args[1]
	var yes []*Term
	if b.op != "choice" {
		return nil, nil, 0, 0
	}
	k := T.tallyIndex()
	o := T.open(b, k)
	if o.op != "choice" {
		return nil, nil, 0, 0
	}
	for i := 0; i+1 < len(o.args); i += 2 {
		switch v, ok := o.args[i+1].isInt(); {
		case ok && v == 1:
			yes = append(yes, o.args[i])
		case ok && v == 0:
		default:
			return nil, nil, 0, 0
		}
	}
	c = T.Or(yes...)
	n, sign = sum.args[0], m[sum]
	delete(m, sum)
	nm, n0 := T.linParts(n)
	if len(m) > 0 { // is the rest -sign·n ?
		if len(m) != len(nm) {
			return nil, nil, 0, 0
		}
		for a, q := range nm {
			if m[a] != -sign*q {
				return nil, nil, 0, 0
			}
		}
		c, sign, c0 = T.Not(c), -sign, c0+sign*n0
	}
	return n, T.close(c, []*Term{k}), sign, c0
}

func (T *Terms) tallyIndex() *Term {
	T.tallies--
	return T.mk(Term{op: "idx", n: T.tallies})
}

func (T *Terms) EqInt(a, b *Term) *Term {
	d := T.Add(b, a, -1)
	if v, ok := d.isInt(); ok {
		return T.Bool(v == 0)
	}
	// canonical sign
	if d.op == "lin" && len(d.args) > 0 && d.coefs[0] < 0 {
		d = T.Scale(d, -1)
	}
	if n, c, _, c0 := T.tally(d); c != nil && c0 == 0 {
		k := T.tallyIndex()
		return T.Not(T.Exists(n, k, T.open(c, k)))
	}
	for _, sign := range []int64{1, -1} {
		if c := T.counted(d, sign, 0); c != nil {
			return T.Not(c)
		}
	}
	return T.mk(Term{op: "eq0", args: []*Term{d}})
}

// Eq over arbitrary (non-integer) comparable values.
func (T *Terms) Eq(a, b *Term) *Term {
	if a == b && !isFloatTerm(a) {
		return T.Bool(true)
	}
	if a.op == "const" && b.op == "const" {
		return T.Bool(constant.Compare(a.c, tokenEQL, b.c))
	}
	if a.op == "lin" || b.op == "lin" {
		return T.EqInt(a, b)
	}
	if a.op == "nil" || b.op == "nil" {
		x := a
		if a.op == "nil" {
			x = b
		}
		switch x.op {
		case "iface", "struct", "ptr", "own", "slice", "lit":
			return T.Bool(false)
		case "nil":
			return T.Bool(true)
		case "choice":
			var cs []*Term
			for i := 0; i+1 < len(x.args); i += 2 {
				cs = append(cs, T.And([]*Term{x.args[i], T.Eq(x.args[i+1], T.Nil())}))
			}
			return T.Or(cs...)
		case "fold":
			if c := T.staysNil(x); c != nil {
				return c
			}
		}
		return T.mk(Term{op: "isnil", args: []*Term{x}})
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, T.Eq(a.args[i], b.args[i]))
		}
		return T.And(cs)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(Term{op: "eq", args: []*Term{a, b}})
}

// staysNil: a loop value that starts as nil and is only ever replaced by
// something else is nil at the end when no round replaces it.
func (T *Terms) staysNil(f *Term) *Term {
	if f.loose > 0 || f.n != 1 || len(f.args) != 3 || T.Eq(f.args[1], T.Nil()) != T.Bool(true) {
		return nil
	}
	T.neg--
	k := T.mk(Term{op: "idx", n: T.neg})
	T.neg--
	a := T.mk(Term{op: "lv", n: T.neg, typ: f.typ})
	var hits []*Term
	gs, vs := T.alts(T.open(f.args[2], k, a))
	for i, v := range vs {
		switch {
		case v == a:
			continue
		case T.Eq(v, T.Nil()) == T.Bool(false):
			hits = append(hits, T.Subst(gs[i], a, T.Nil()))
		default:
			return nil
		}
	}
	if len(hits) == 0 {
		return T.Bool(true)
	}
	hit := T.Or(hits...)
	if hit.free[a] {
		return nil
	}
	return T.Not(T.Exists(f.args[0], k, hit))
}

func isFloatTerm(t *Term) bool { return t.typ != nil && isFloat(t.typ) }

// Struct with eta reduction: T{x.0, x.1, ...} is x.
func (T *Terms) Struct(typ types.Type, fields []*Term) *Term {
	if len(fields) > 0 && fields[0].op == "field" {
		x := fields[0].args[0]
		ok := x.typ != nil && types.Identical(x.typ, typ)
		for i, f := range fields {
			if f.op != "field" || f.n != i || f.args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return T.mk(Term{op: "struct", typ: typ, args: fields})
}

func (T *Terms) Field(x *Term, i int, st types.Type) *Term {
	s, ok := st.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return T.Opaque("field")
	}
	switch x.op {
	case "struct":
		if i < len(x.args) {
			return x.args[i]
		}
	case "zero":
		return T.Zero(s.Field(i).Type())
	case "choice":
		return T.mapChoice(x, func(v *Term) *Term { return T.Field(v, i, st) })
	}
	return T.mk(Term{op: "field", n: i, name: s.Field(i).Name(), args: []*Term{x}, typ: s.Field(i).Type()})
}

func (T *Terms) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return T.Int(0)
		case u.Info()&types.IsFloat != 0:
			return T.Float(0)
		case u.Info()&types.IsBoolean != 0:
			return T.Bool(false)
		case u.Info()&types.IsString != 0:
			return T.Const(constant.MakeString(""), nil)
		}
	case *types.Slice:
		return T.Lit(nil)
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return T.Nil()
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "gonum.org") {
			return T.mk(Term{op: "zero", typ: t})
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, T.Zero(u.Field(i).Type()))
		}
		return T.mk(Term{op: "struct", typ: t, args: fs})
	case *types.Array:
		if u.Len() <= 64 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, T.Zero(u.Elem()))
			}
			return T.Lit(fs)
		}
	}
	return T.mk(Term{op: "zero", typ: t})
}

// ---- lists --------------------------------------------------------------

func (T *Terms) Lit(xs []*Term) *Term { return T.mk(Term{op: "lit", args: xs}) }

// App concatenates lists, flattening and merging literals.
func (T *Terms) App(ls ...*Term) *Term {
	var out []*Term
	var add func(l *Term)
	add = func(l *Term) {
		switch l.op {
		case "app":
			for _, x := range l.args {
				add(x)
			}
			return
		case "nil":
			return
		case "lit":
			if len(l.args) == 0 {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "lit" {
				out[n-1] = T.Lit(append(append([]*Term{}, out[n-1].args...), l.args...))
				return
			}
		}
		out = append(out, l)
	}
	for _, l := range ls {
		add(l)
	}
	// l[:i] ++ l[i+1:] is l without its i-th entry
	for j := 0; j+1 < len(out); j++ {
		a, b := out[j], out[j+1]
		if a.op != "sub" || b.op != "sub" || a.args[0] != b.args[0] || a.loose > 0 || b.loose > 0 {
			continue
		}
		l, i := a.args[0], a.args[2]
		if v, ok := a.args[1].isInt(); !ok || v != 0 || b.args[1] != T.Add(i, T.Int(1), 1) || b.args[2] != T.Len(l) {
			continue
		}
		T.nfresh++
		k := T.mk(Term{op: "idx", name: "w", n: T.nfresh})
		var et types.Type
		if l.typ != nil {
			if st, ok := l.typ.Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		f := T.mk(Term{op: "filt", args: []*Term{T.Len(l), T.close(T.Not(T.EqInt(k, i)), []*Term{k}), T.close(T.Elem(l, k, et), []*Term{k})}})
		out = append(append(append([]*Term{}, out[:j]...), f), out[j+2:]...)
	}
	if len(out) == 0 {
		return T.Lit(nil)
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk(Term{op: "app", args: out})
}

func (T *Terms) Len(x *Term) *Term {
	switch x.op {
	case "elem":
		// the rows of a well-formed matrix have one length
		if T.wf && stable(x.args[0]) && isMatrixType(x.args[0].typ) {
			if v, ok := x.args[1].isInt(); !ok || v != 0 {
				return T.Len(T.Elem(x.args[0], T.Int(0), x.typ))
			}
		}
		if n := T.rowLen(x.args[0]); n != nil {
			return n
		}
	case "call":
		if x.name == "Dims" {
			return T.Int(2) // rows and columns
		}
	case "field":
		// a well-formed monomial has one exponent per variable
		if T.wf && x.name == "Exponents" && stable(x.args[0]) {
			if st, ok := structOf(x.args[0].typ); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "VariableFactors" {
						return T.Len(T.Field(x.args[0], i, x.args[0].typ))
					}
				}
			}
		}
	case "lit":
		return T.Int(int64(len(x.args)))
	case "nil":
		return T.Int(0)
	case "app":
		s := T.Int(0)
		for _, a := range x.args {
			s = T.Add(s, T.Len(a), 1)
		}
		return s
	case "map", "zeros":
		return x.args[0]
	case "set", "upd", "blk":
		return T.Len(x.args[0])
	case "flat":
		// rows of one fixed length
		if b := x.args[1]; b.op == "map" && b.args[0].loose == 0 {
			return T.Mul(x.args[0], b.args[0])
		}
	case "partial":
		return T.Len(x.args[3])
	case "fold":
		// every step only overwrites entries
		if x.n == 1 {
			b := x.args[2]
			for b.op == "set" || b.op == "upd" || b.op == "blk" {
				b = b.args[0]
			}
			if b.op == "bv" && b.n == 0 && b.name == "1" && b != x.args[2] {
				return T.Len(x.args[1])
			}
		}
	case "sub":
		return T.Add(x.args[2], x.args[1], -1)
	case "choice":
		return T.mapChoice(x, T.Len)
	case "const":
		if x.c.Kind() == constant.String {
			return T.Int(int64(len(constant.StringVal(x.c))))
		}
	}
	return T.mk(Term{op: "len", args: []*Term{x}})
}

// rowLen: the one length all entries of a list have, or nil.
func (T *Terms) rowLen(x *Term) *Term {
	switch x.op {
	case "map":
		if b := x.args[1]; !listOp(b) {
			return nil
		} else if n := T.Len(b); n.loose == 0 && n.op != "len" {
			return n
		} else if n.loose == 0 && !n.args[0].free[x] && n.args[0].loose == 0 {
			return n
		}
	case "upd":
		if b := x.args[2]; b.op == "map" {
			n, m := T.rowLen(x.args[0]), T.rowLen(b)
			if n != nil && n == m {
				return n
			}
		}
	case "set":
		n := T.rowLen(x.args[0])
		if n != nil && n == T.Len(x.args[2]) {
			return n
		}
	case "elem":
		return nil
	}
	return nil
}

func listOp(t *Term) bool {
	switch t.op {
	case "map", "zeros", "set", "upd", "lit", "app", "elem", "flat":
		return true
	}
	return false
}

// Deref is what a pointer from outside points to.
func (T *Terms) Deref(x *Term, typ types.Type) *Term {
	if x.op == "ref" {
		return x.args[0]
	}
	if x.typ != nil {
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
	}
	return T.mk(Term{op: "deref", args: []*Term{x}, typ: typ})
}

// plainNum reads K as float64 in the types of list entries, so that one entry
// has one term.
func plainNum(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Float64 {
			return u
		}
	case *types.Slice:
		if e := plainNum(u.Elem()); e != u.Elem() || types.Type(u) != t && isPlainFloat(e) {
			return types.NewSlice(e)
		}
	}
	return t
}

func isPlainFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float64
}

// concreteDim: making a list of scalars concrete keeps its shape.
func (T *Terms) concreteDim(x, i *Term) *Term {
	k, ok := i.isInt()
	if !ok || k < 0 || k > 1 || x.op != "call" || len(x.args) != 1 {
		return nil
	}
	l := x.args[0]
	switch x.name {
	case "symbolic.ConcretizeVectorExpression":
		if k == 1 {
			return T.Int(1)
		}
		return T.Len(l)
	case "symbolic.ConcretizeMatrixExpression":
		if k == 1 {
			return T.Len(T.Elem(l, T.Int(0), T.rowType))
		}
		return T.Len(l)
	}
	return nil
}

func (T *Terms) Elem(x, i *Term, et types.Type) *Term {
	switch x.op {
	case "call":
		if x.name == "Dims" {
			if n := T.concreteDim(x.args[0], i); n != nil {
				return n
			}
		}
	case "lit":
		if v, ok := i.isInt(); ok && v >= 0 && int(v) < len(x.args) {
			return x.args[v]
		}
		if len(x.args) > 0 {
			same := true
			for _, a := range x.args {
				if a != x.args[0] {
					same = false
				}
			}
			if same {
				return x.args[0]
			}
		}
	case "map":
		return T.open(x.args[1], i)
	case "zeros":
		return T.Zero(x.typ)
	case "sub":
		return T.Elem(x.args[0], T.Add(i, x.args[1], 1), et)
	case "set":
		if x.args[1] == i {
			return x.args[2]
		}
		a, ok1 := x.args[1].isInt()
		b, ok2 := i.isInt()
		if ok1 && ok2 && a != b {
			return T.Elem(x.args[0], i, et)
		}
		if d, ok := T.Add(x.args[1], i, -1).isInt(); ok && d != 0 {
			return T.Elem(x.args[0], i, et)
		}
	case "app":
		// constant offsets through literal prefixes
		off := i
		for n, a := range x.args {
			l := T.Len(a)
			if lv, ok := l.isInt(); ok {
				if v, ok2 := off.isInt(); ok2 {
					if v < lv {
						return T.Elem(a, off, et)
					}
					off = T.Add(off, l, -1)
					continue
				}
			} else if v, ok2 := off.isInt(); !ok2 || v < 0 {
				// index relative to this segment: off - len(a) constant >= 0 means later
				if d, ok3 := T.Add(off, l, -1).isInt(); ok3 && d >= 0 {
					off = T.Int(d)
					continue
				}
			}
			if n == len(x.args)-1 && n > 0 {
				if v, ok := off.isInt(); ok && v >= 0 {
					return T.Elem(a, off, et)
				}
			}
			break
		}
	case "choice":
		return T.mapChoice(x, func(v *Term) *Term { return T.Elem(v, i, et) })
	}
	if i.op == "choice" {
		return T.mapChoice(i, func(v *Term) *Term { return T.Elem(x, v, et) })
	}
	if et != nil && x.typ != nil && types.IsInterface(et) {
		// an entry keeps the type it has in its list
		if l, ok := x.typ.Underlying().(*types.Slice); ok && types.IsInterface(l.Elem()) {
			et = l.Elem()
		}
	}
	return T.mk(Term{op: "elem", args: []*Term{x, i}, typ: plainNum(et)})
}

func (T *Terms) Set(x, i, v *Term) *Term {
	if x.op == "lit" {
		if k, ok := i.isInt(); ok && k >= 0 && int(k) < len(x.args) {
			n := append([]*Term{}, x.args...)
			n[k] = v
			return T.Lit(n)
		}
	}
	if x.op == "set" && x.args[1] == i {
		return T.Set(x.args[0], i, v)
	}
	return T.mk(Term{op: "set", args: []*Term{x, i, v}})
}

// MapN(n, k, body): the list body[k:=0], ..., body[k:=n-1].
func (T *Terms) MapN(n, k, body *Term) *Term {
	if v, ok := n.isInt(); ok && v <= 0 {
		return T.Lit(nil)
	}
	// eta: map over x[k] for n = len(x)
	if body.op == "elem" && body.args[1] == k && !body.args[0].free[k] && T.Len(body.args[0]) == n {
		return body.args[0]
	}
	if v, ok := n.isInt(); ok && v == 1 {
		return T.Lit([]*Term{T.Subst(body, k, T.Int(0))})
	}
	return T.mk(Term{op: "map", args: []*Term{n, T.close(body, []*Term{k})}})
}

// ---- choices ------------------------------------------------------------

func (T *Terms) mentions(g, x *Term) bool {
	if g == x {
		return true
	}
	switch g.op {
	case "and", "not", "ite":
		for _, a := range g.args {
			if T.mentions(a, x) {
				return true
			}
		}
	}
	return false
}

func (T *Terms) Choice(gs, vs []*Term) *Term {
	// flatten nested, drop impossible, merge equal values
	var og, ov []*Term
	var add func(g, v *Term)
	add = func(g, v *Term) {
		if b, ok := g.isBool(); ok && !b {
			return
		}
		if v.op == "choice" && len(og) < 48 {
			for i := 0; i+1 < len(v.args); i += 2 {
				add(T.And([]*Term{g, v.args[i]}), v.args[i+1])
			}
			return
		}
		for i, x := range ov {
			if x == v {
				og[i] = T.orGuard(og[i], g)
				return
			}
		}
		og = append(og, g)
		ov = append(ov, v)
	}
	for i := range gs {
		add(gs[i], vs[i])
	}
	if len(ov) == 0 {
		return T.Opaque("empty-choice")
	}
	if len(ov) == 1 {
		return ov[0]
	}
	allB := true
	for _, v := range ov {
		if !isBoolTerm(v) {
			allB = false
		}
	}
	if allB {
		r := T.bdd.f
		for i := range ov {
			r = T.bdd.or(r, T.bdd.and(T.toBdd(og[i]), T.toBdd(ov[i])))
		}
		return T.fromBdd(r)
	}
	// a record whose list is empty under its guard is the record itself
	for i, x := range ov {
		y := x
		for _, g := range conj(og[i]) {
			if g.op != "eq" {
				continue
			}
			for k, a := range g.args {
				if b := g.args[1-k]; a.op == "lit" && len(a.args) == 0 && b.op == "field" {
					y = T.fillEmpty(y, b)
				}
			}
		}
		if y != x {
			gs, vs := append([]*Term{}, og...), append([]*Term{}, ov...)
			vs[i] = y
			return T.Choice(gs, vs)
		}
	}
	// a nil list and an empty one hold the same entries
	for i, x := range ov {
		if x.op != "lit" || len(x.args) != 0 {
			continue
		}
		for j, y := range ov {
			if i == j {
				continue
			}
			e := T.Eq(x, y)
			if e.op != "eq" || !T.mentions(og[i], e) || T.toBdd(T.And([]*Term{og[i], T.Not(e)})) != T.bdd.f {
				continue
			}
			gs, vs := []*Term{}, []*Term{}
			for k := range ov {
				switch k {
				case i:
				case j:
					gs, vs = append(gs, T.orGuard(og[i], og[j])), append(vs, y)
				default:
					gs, vs = append(gs, og[k]), append(vs, ov[k])
				}
			}
			return T.Choice(gs, vs)
		}
	}
	idx := make([]int, len(ov))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return ov[idx[a]].id < ov[idx[b]].id })
	var as []*Term
	for _, i := range idx {
		as = append(as, og[i], ov[i])
	}
	return T.mk(Term{op: "choice", args: as, typ: ov[0].typ})
}

// fillEmpty replaces, in records that otherwise copy the record y is a field
// of, the empty list in y's place by y (which is empty).
func (T *Terms) fillEmpty(t, y *Term) *Term {
	switch t.op {
	case "struct", "lit", "iface", "app":
	default:
		return t
	}
	t = T.rebuild(t, func(i int, a *Term) *Term { return T.fillEmpty(a, y) })
	if t.op != "struct" || len(t.args) < 2 || y.n >= len(t.args) {
		return t
	}
	rec := y.args[0]
	for i, f := range t.args {
		if i == y.n {
			if f.op != "lit" || len(f.args) != 0 {
				return t
			}
		} else if f.op != "field" || f.n != i || f.args[0] != rec {
			return t
		}
	}
	args := append([]*Term{}, t.args...)
	args[y.n] = y
	return T.Struct(t.typ, args)
}

func conj(c *Term) []*Term {
	if b, ok := c.isBool(); ok && b {
		return nil
	}
	if c.op == "and" {
		return c.args
	}
	return []*Term{c}
}

func (T *Terms) mapChoice(x *Term, f func(*Term) *Term) *Term {
	var gs, vs []*Term
	for i := 0; i+1 < len(x.args); i += 2 {
		gs = append(gs, x.args[i])
		vs = append(vs, f(x.args[i+1]))
	}
	return T.Choice(gs, vs)
}

// alts lists the (guard, value) alternatives of a term.
func (T *Terms) alts(x *Term) (gs, vs []*Term) {
	if x.op != "choice" {
		return []*Term{T.Bool(true)}, []*Term{x}
	}
	for i := 0; i+1 < len(x.args); i += 2 {
		gs = append(gs, x.args[i])
		vs = append(vs, x.args[i+1])
	}
	return
}

// ---- binders ------------------------------------------------------------

// close replaces the free atoms by bound variables of the enclosing binder.
func (T *Terms) close(t *Term, atoms []*Term) *Term {
	names := map[*Term]string{}
	for i, a := range atoms {
		names[a] = fmt.Sprint(i)
	}
	memo := map[[2]int]*Term{}
	var rec func(t *Term, lvl int) *Term
	rec = func(t *Term, lvl int) *Term {
		hit := false
		for a := range names {
			if t.free[a] {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		if nm, ok := names[t]; ok {
			return T.mk(Term{op: "bv", n: lvl, name: nm, typ: t.typ})
		}
		key := [2]int{t.id, lvl}
		if r, ok := memo[key]; ok {
			return r
		}
		r := T.rebuild(t, func(i int, a *Term) *Term {
			l := lvl
			if i >= firstBound(t) {
				l++
			}
			return rec(a, l)
		})
		memo[key] = r
		return r
	}
	return rec(t, 0)
}

// open instantiates the bound variables of the outermost binder.
func (T *Terms) open(body *Term, vals ...*Term) *Term {
	memo := map[[2]int]*Term{}
	var rec func(t *Term, lvl int) *Term
	rec = func(t *Term, lvl int) *Term {
		if t.loose <= lvl {
			return t
		}
		if t.op == "bv" {
			if t.n == lvl {
				var k int
				fmt.Sscan(t.name, &k)
				if k < len(vals) && vals[k] != nil {
					return T.shift(vals[k], lvl)
				}
				return t
			}
			return T.mk(Term{op: "bv", name: t.name, n: t.n - 1, typ: t.typ})
		}
		key := [2]int{t.id, lvl}
		if r, ok := memo[key]; ok {
			return r
		}
		r := T.rebuild(t, func(i int, a *Term) *Term {
			l := lvl
			if i >= firstBound(t) {
				l++
			}
			return rec(a, l)
		})
		memo[key] = r
		return r
	}
	return rec(body, 0)
}

// shift moves a term under by more binders.
func (T *Terms) shift(t *Term, by int) *Term {
	if by == 0 || t.loose == 0 {
		return t
	}
	var rec func(t *Term, lvl int) *Term
	rec = func(t *Term, lvl int) *Term {
		if t.loose <= lvl {
			return t
		}
		if t.op == "bv" {
			return T.mk(Term{op: "bv", name: t.name, n: t.n + by, typ: t.typ})
		}
		return T.rebuild(t, func(i int, a *Term) *Term {
			l := lvl
			if i >= firstBound(t) {
				l++
			}
			return rec(a, l)
		})
	}
	return rec(t, 0)
}

// Subst replaces a free loop atom.
func (T *Terms) Subst(t, atom, val *Term) *Term {
	if atom == val {
		return t
	}
	return T.SubstMap(t, map[*Term]*Term{atom: val})
}

func (T *Terms) SubstMap(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		hit := false
		for a := range m {
			if t.free[a] {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		if v, ok := m[t]; ok {
			return v
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := T.rebuild(t, func(i int, a *Term) *Term { return rec(a) })
		memo[t] = r
		return r
	}
	return rec(t)
}

// Rewrite applies f bottom-up to every subterm (f returns nil for no change).
func (T *Terms) Rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if len(t.args) > 0 {
			r = T.rebuild(t, func(i int, a *Term) *Term { return rec(a) })
		}
		if x := f(r); x != nil {
			r = x
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// rebuild reconstructs t with transformed arguments, re-running simplification.
func (T *Terms) rebuild(t *Term, f func(i int, a *Term) *Term) *Term {
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = f(i, a)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return T.remake(t, na)
}

func (T *Terms) remake(t *Term, na []*Term) *Term {
	switch t.op {
	case "filt", "map", "sum", "exists", "forall":
		if s := T.splitLoop(t, na); s != nil {
			return s
		}
	}
	switch t.op {
	case "lin":
		s := T.Int(t.c0)
		for i, a := range na {
			s = T.Add(s, a, t.coefs[i])
		}
		return s
	case "pos":
		return T.Lt(T.Int(0), na[0])
	case "eq0":
		return T.EqInt(T.Int(0), na[0])
	case "eq":
		return T.Eq(na[0], na[1])
	case "isnil":
		return T.Eq(na[0], T.Nil())
	case "not":
		return T.Not(na[0])
	case "and":
		return T.And(na)
	case "ite":
		return T.Ite(na[0], na[1], na[2])
	case "imul":
		return T.Mul(na[0], na[1])
	case "upd":
		return T.Upd(na[0], na[1], na[2], T.Len(na[0]))
	case "partial":
		return T.Partial(na[0], na[1], na[2], na[3], t.typ)
	case "exists":
		return T.existsClosed(na[0], na[1])
	case "forall":
		if b, ok := na[1].isBool(); ok && b {
			return na[1]
		}
		if v, ok := na[0].isInt(); ok && v <= 0 {
			return T.Bool(true)
		}
	case "first":
		if b, ok := na[1].isBool(); ok && b {
			return T.Int(0)
		}
	case "sum":
		return T.sumClosed(t.name, na[0], na[1], t)
	case "struct":
		return T.Struct(t.typ, na)
	case "field":
		// recover the struct type from the original argument when needed
		switch na[0].op {
		case "struct":
			if t.n < len(na[0].args) {
				return na[0].args[t.n]
			}
		case "choice":
			return T.mapChoice(na[0], func(v *Term) *Term { return T.remake(t, []*Term{v}) })
		}
	case "elem":
		return T.Elem(na[0], na[1], t.typ)
	case "len":
		return T.Len(na[0])
	case "deref":
		return T.Deref(na[0], t.typ)
	case "app":
		return T.App(na...)
	case "set":
		return T.Set(na[0], na[1], na[2])
	case "choice":
		var gs, vs []*Term
		for i := 0; i+1 < len(na); i += 2 {
			gs = append(gs, na[i])
			vs = append(vs, na[i+1])
		}
		return T.Choice(gs, vs)
	case "iface":
		return T.Iface(na[0], t.typ)
	case "assert":
		return T.Assert(na[0], t.typ)
	case "typeis":
		return T.TypeIs(na[0], t.typ)
	case "bin":
		return T.Bin(t.name, na[0], na[1], t.typ)
	case "map":
		if v, ok := na[0].isInt(); ok && v <= 0 {
			return T.Lit(nil)
		}
		// eta after substitution
		if b := na[1]; b.op == "elem" && b.args[1].op == "bv" && b.args[1].n == 0 && b.args[0].loose == 0 && T.Len(b.args[0]) == na[0] {
			return b.args[0]
		}
	}
	n := *t
	n.args = na
	n.id = 0
	n.free = nil
	n.loose = 0
	return T.mk(n)
}

// ---- interfaces ---------------------------------------------------------

func (T *Terms) Iface(x *Term, typ types.Type) *Term {
	if x.op == "assert" && types.Identical(x.typ, typ) {
		return x.args[0]
	}
	if x.op == "choice" {
		return T.mapChoice(x, func(v *Term) *Term { return T.Iface(v, typ) })
	}
	return T.mk(Term{op: "iface", typ: typ, args: []*Term{x}})
}

// TypeIs: the dynamic type of x is t (or implements it).
func (T *Terms) TypeIs(x *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if x.op == "iface" {
			return T.Bool(types.Implements(x.typ, it))
		}
	} else if x.op == "iface" {
		return T.Bool(types.Identical(x.typ, t))
	}
	if x.op == "nil" {
		return T.Bool(false)
	}
	if x.op == "choice" {
		return T.mapChoice(x, func(v *Term) *Term { return T.TypeIs(v, t) })
	}
	return T.mk(Term{op: "typeis", args: []*Term{x}, typ: t})
}

func (T *Terms) Assert(x *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x // same dynamic value seen through another interface
	}
	if x.op == "iface" {
		if types.Identical(x.typ, t) {
			return x.args[0]
		}
		return T.mk(Term{op: "opaque", name: "failed-assert"})
	}
	if x.op == "choice" {
		var gs, vs []*Term
		for i := 0; i+1 < len(x.args); i += 2 {
			v := T.Assert(x.args[i+1], t)
			if v.op == "opaque" && v.name == "failed-assert" {
				continue
			}
			gs = append(gs, x.args[i])
			vs = append(vs, v)
		}
		if len(vs) == 0 {
			return T.mk(Term{op: "opaque", name: "failed-assert"})
		}
		return T.Choice(gs, vs)
	}
	return T.mk(Term{op: "assert", args: []*Term{x}, typ: t})
}

// Bin is non-integer arithmetic; + and * are kept commutative.
func (T *Terms) Bin(op string, a, b *Term, typ types.Type) *Term {
	if a.op == "const" && b.op == "const" && a.c.Kind() == constant.Float || a.op == "const" && b.op == "const" && a.c.Kind() == constant.Int {
		switch op {
		case "+", "-", "*":
			tk := map[string]int{"+": 0, "-": 1, "*": 2}[op]
			r := constant.BinaryOp(a.c, []tokenT{tokenADD, tokenSUB, tokenMUL}[tk], b.c)
			return T.mk(Term{op: "const", c: constant.ToFloat(r)})
		}
	}
	if (op == "+" || op == "*") && typ != nil && isFloat(typ) && a.id > b.id {
		a, b = b, a
	}
	return T.mk(Term{op: "bin", name: op, args: []*Term{a, b}, typ: typ})
}

// stable: the value of an operand or of an operation, not of a loop variable.
func stable(t *Term) bool {
	for t != nil {
		switch t.op {
		case "sym", "call", "res", "deref":
			return true
		case "field", "elem", "assert", "iface":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

func isMatrixType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch typeShort(t) {
	case "KMatrix", "VariableMatrix", "MonomialMatrix", "PolynomialMatrix", "mat.Dense":
		return true
	}
	return false
}
