package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"strings"
)

func init() { checks["C16"] = checkAccept }

// accept: with operands that fit, no panic is reachable.
func (s *Spec) accept(name string, kinds []string, mk func(a []*Term, d *Den) []*Term) (string, string) {
	fn := s.fn(name)
	if fn == nil {
		return "missing", ""
	}
	s.fresh()
	args := s.e.SymArgs(fn, kinds)
	d := NewDen(s.e)
	var as []*Term
	if w := d.try(func() { as = mk(args, d) }); w != "" {
		return "problem", w
	}
	for _, a := range as {
		if v, ok := a.isBool(); ok && !v {
			return "vacuous", ""
		}
	}
	cfg := s.config(valueOps, fn)
	cfg.KeepPanics, cfg.KeepObl = true, true
	cfg.Hook = s.kinds.hook(s, d)
	res := s.e.Run(fn, args, cfg, as)
	if len(res.Problems) > 0 {
		return "problem", strings.Join(res.Problems, ";")
	}
	out := ""
	for _, p := range res.Panics {
		if d.consistent(p.Facts) && d.possible(p.Facts) && s.kinds.feasible(d, p.Facts) {
			out += fmt.Sprintf("  PANIC %s %s %s\n%s", p.Kind, s.p.Pos(p.Pos), clip(fmt.Sprint(p.Val)), p.Facts.dump())
		}
	}
	for _, o := range res.Asserts {
		if cfg.Hook(o.Term, o.Facts) == yes || s.implied(o.Term, o.Facts) || !d.consistent(o.Facts) || !d.possible(o.Facts) || !s.kinds.feasible(d, o.Facts) {
			continue
		}
		g := o.Facts.clone()
		if !d.D.Assume(o.Term, false, g) || !s.kinds.feasible(d, g) {
			continue
		}
		out += fmt.Sprintf("  OBL %s %s %s\n%s", o.Kind, s.p.Pos(o.Pos), clip(o.Term.String()), o.Facts.dump())
	}
	if out != "" {
		return "panics", out
	}
	if len(res.Rets) == 0 {
		return "never returns", ""
	}
	return "ok", ""
}

// rows lists the operations with the operand kinds they must accept.
func acceptRows() (out [][2]string) {
	for _, id := range strings.Fields("C07 C08 C09 C10 C11 C12") {
		for _, x := range valuePairs(id) {
			if !strings.HasPrefix(x[1], "?") {
				out = append(out, x)
			}
		}
	}
	for _, op := range strings.Fields("LessEq GreaterEq Eq Comparison") {
		for _, a := range append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...) {
			for _, b := range append(append(append([]string{"float64", "*VecDense", "VecDense", "Dense", "*Dense"}, scalarKinds...), vectorKinds...), matrixKinds...) {
				out = append(out, [2]string{a + "." + op, b})
			}
		}
	}
	return out
}

// otherRows: every other exported operation, arguments left open.
func (s *Spec) otherRows() (out [][2]string) {
	seen := map[string]bool{}
	for _, x := range acceptRows() {
		seen[x[0]] = true
	}
	for _, fn := range s.p.Funcs {
		if fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		name := fn.Name()
		if rv := fn.Signature.Recv(); rv != nil {
			name = typeShort(rv.Type()) + "." + name
		} else if pkgOf(fn).Pkg.Name() != "symbolic" {
			continue
		}
		if !seen[name] {
			out = append(out, [2]string{name, ""})
		}
	}
	return out
}

// acceptCase assumes the operands fit: 0 the shapes agree, 1 (2) the left
// (right) operand is a single element.
func (s *Spec) acceptCase(recv, op string, nk, c int) func(a []*Term, d *Den) []*Term {
	return func(a []*Term, d *Den) []*Term {
		T := s.T
		as := s.nonEmpty(recv, a)
		one := T.Int(1)
		f := NewFacts()
		switch op {
		case "Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison":
			if nk != 1 || recv == "" {
				break
			}
			b := s.boxed(recv, a)
			mv := func(i int) *MV {
				if b[i].op != "iface" || shapeOf(typeShort(b[i].typ)) == 0 {
					return &MV{R: one, C: one}
				}
				return d.matrix(b[i], f)
			}
			l, r := mv(0), mv(1)
			switch {
			case c == 1:
				as = append(as, T.EqInt(l.R, one), T.EqInt(l.C, one))
			case c == 2:
				as = append(as, T.EqInt(r.R, one), T.EqInt(r.C, one))
			case op == "Multiply":
				as = append(as, T.EqInt(l.C, r.R))
			default:
				as = append(as, T.EqInt(l.R, r.R), T.EqInt(l.C, r.C))
			}
		case "Power":
			if shapeOf(recv) > 0 {
				m := d.matrix(s.boxed(recv, a)[0], f)
				as = append(as, T.EqInt(m.R, m.C))
			}
			as = append(as, T.Not(T.Lt(a[1], T.Int(0))))
		case "HStack", "VStack":
			n := int64(0)
			if op == "VStack" {
				n = 1
			}
			et, it := s.p.KindType("Expression"), types.Typ[types.Int]
			dim := func(k *Term) *Term {
				return T.Elem(T.Call("Dims", []*Term{T.Elem(a[0], k, et)}, types.NewSlice(it)), T.Int(n), it)
			}
			k := s.k()
			all := func(m, body *Term) *Term {
				return T.Not(T.Exists(m, k, T.Not(body)))
			}
			as = append(as, T.Lt(T.Int(0), T.Len(a[0])),
				all(T.Len(a[0]), T.EqInt(dim(k), dim(T.Int(0)))),
				all(T.Add(T.Len(a[0]), one, -1), T.EqInt(dim(k), dim(T.Add(k, one, 1)))))
		case "ConcretizeVectorExpression", "ConcretizeMatrixExpression", "From":
			l := a[0]
			if op == "From" {
				if l.op != "iface" || typeShort(l.typ) != "[][]float64" {
					break
				}
				l = l.args[0]
			}
			as = append(as, T.Lt(T.Int(0), T.Len(l)))
			if op != "ConcretizeVectorExpression" {
				row := func(i *Term) *Term { return T.Len(T.Elem(l, i, l.typ.Underlying().(*types.Slice).Elem())) }
				k := s.k()
				as = append(as, T.Lt(T.Int(0), row(T.Int(0))), T.Not(T.Exists(T.Len(l), k, T.Not(T.EqInt(row(k), row(T.Int(0)))))))
			}
		case "At", "AtVec":
			R, C := one, one
			if shapeOf(recv) > 0 {
				m := d.matrix(s.boxed(recv, a)[0], f)
				R, C = m.R, m.C
			}
			as = append(as, T.Not(T.Lt(a[1], T.Int(0))), T.Lt(a[1], R))
			if op == "At" {
				as = append(as, T.Not(T.Lt(a[2], T.Int(0))), T.Lt(a[2], C))
			}
		}
		return as
	}
}

//go:embed acctable.txt
var accTable string

// accCases: the shape cases an operation is examined in.
func accCases(op string, nk int, recv string) int {
	switch op {
	case "Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison":
		if nk == 1 && recv != "" {
			return 3
		}
	}
	return 1
}

func splitName(name string) (recv, op string) {
	op = name
	if i := strings.Index(name, "."); i >= 0 {
		recv, op = name[:i], name[i+1:]
		if strings.HasPrefix(recv, "get") || recv == "smErrors" {
			recv = ""
		}
	}
	return
}

var caseText = [3]string{"", " (left operand 1x1)", " (right operand 1x1)"}

func checkAccept(p *Program, r *Report) {
	r.Explain = "Reachability analysis of every operation under the assumption that its operands are well formed, of supported kinds and of fitting shapes: every path of the operation (helpers included) is evaluated symbolically, and no explicit panic, failing type assertion, out-of-range index or library shape panic may be reachable. The concrete kinds an inner operation can return are computed from that operation's own code, so a type assertion on a result is accepted exactly when every kind the result can have satisfies it."
	r.Rule("accepted: no panic, failing type assertion, index error or dimension error is reachable with operands that fit")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	s := NewSpec(p, r)
	s.kinds = &kindSets{s: s, memo: map[string]map[string]bool{}, busy: map[string]bool{}}
	n := 0
	for _, l := range strings.Split(accTable, "\n") {
		w := strings.Fields(l)
		if len(w) != 3 {
			continue
		}
		var kinds []string
		if w[1] != "-" {
			kinds = strings.Split(w[1], ",")
		}
		recv, op := splitName(w[0])
		for _, ch := range w[2] {
			c := int(ch - '0')
			lab := label(w[0], kinds) + caseText[c]
			n++
			st, det := s.accept(w[0], kinds, s.acceptCase(recv, op, len(kinds), c))
			switch st {
			case "ok":
				r.OK(lab)
			case "problem":
				r.Bad("analysis-complete", lab, s.where(w[0]), det)
			case "missing":
				r.Bad("accepted", lab, "-", "the operation no longer exists")
			default:
				where, first := s.where(w[0]), strings.TrimSpace(strings.SplitN(det, "\n", 2)[0])
				if x := strings.Fields(first); len(x) > 2 {
					where = x[2]
				}
				r.Bad("accepted", lab, where, "operands that fit are not accepted: "+st+" "+clip(first))
			}
		}
	}
	r.Counts["accepted operand combinations"] = n
	r.Min("operand combinations", n, 3500)
}

// debugAcc prints the table of the combinations that are accepted.
func debugAcc(p *Program) {
	s := NewSpec(p, NewReport("DBG", "quick"))
	s.kinds = &kindSets{s: s, memo: map[string]map[string]bool{}, busy: map[string]bool{}}
	want := os.Getenv("ACC")
	for _, x := range append(acceptRows(), s.otherRows()...) {
		if want != "" && !strings.Contains(x[0]+":"+x[1], want) {
			continue
		}
		var kinds []string
		if x[1] != "" {
			kinds = strings.Split(x[1], ",")
		}
		recv, op := splitName(x[0])
		good := ""
		for c := 0; c < accCases(op, len(kinds), recv); c++ {
			st, det := s.accept(x[0], kinds, s.acceptCase(recv, op, len(kinds), c))
			if st == "ok" {
				good += fmt.Sprint(c)
			}
			if os.Getenv("SMCHECK_VAL") != "" {
				fmt.Println(x[0], x[1], c, st)
				fmt.Println(clipN(det, 3000))
			}
		}
		if good != "" && os.Getenv("SMCHECK_VAL") == "" {
			k := x[1]
			if k == "" {
				k = "-"
			}
			fmt.Println(x[0], k, good)
		}
	}
}

// kindSets tells which concrete kinds an operation can return.
type kindSets struct {
	s    *Spec
	memo map[string]map[string]bool
	busy map[string]bool
}

// of lists the kinds a value may have; nil when unknown.
func (k *kindSets) of(d *Den, t *Term, f *Facts) map[string]bool {
	one := func(x string) map[string]bool { return map[string]bool{x: true} }
	switch t.op {
	case "iface":
		return one(typeShort(t.typ))
	case "choice":
		out := map[string]bool{}
		for i := 0; i+1 < len(t.args); i += 2 {
			s := k.of(d, t.args[i+1], f)
			if s == nil {
				return nil
			}
			for x := range s {
				out[x] = true
			}
		}
		return out
	case "call":
		if t.typ != nil && !types.IsInterface(t.typ) {
			return one(typeShort(t.typ))
		}
		if len(t.args) == 0 {
			break
		}
		switch t.name {
		case "symbolic.Minus":
			T := d.T
			m := T.Call("Multiply", []*Term{t.args[1], T.Iface(T.Float(-1), types.Typ[types.Float64])}, t.typ)
			return k.of(d, T.Call("Plus", []*Term{t.args[0], m}, t.typ), f)
		case "symbolic.ConcretizeExpression":
			if a := t.args[0]; a.op == "iface" {
				if l, ok := a.typ.Underlying().(*types.Slice); ok {
					if _, nested := l.Elem().Underlying().(*types.Slice); !nested {
						out := map[string]bool{}
						for _, x := range append(append([]string{}, scalarKinds...), vectorKinds...) {
							out[x] = true
						}
						return out
					}
				}
			}
		}
		r := k.of(d, t.args[0], f)
		if r == nil {
			break
		}
		out := map[string]bool{}
		for a := range r {
			var args []map[string]bool
			if len(t.args) > 1 && (t.name == "Plus" || t.name == "Minus" || t.name == "Multiply") {
				b := k.of(d, t.args[1], f)
				if b == nil {
					return k.scalar(d, t, f)
				}
				args = append(args, b)
			}
			bs := []string{""}
			if len(args) > 0 {
				bs = nil
				for b := range args[0] {
					bs = append(bs, b)
				}
			}
			for _, b := range bs {
				s := k.summary(a, t.name, b)
				if s == nil {
					return k.scalar(d, t, f)
				}
				for x := range s {
					out[x] = true
				}
			}
		}
		return out
	}
	return k.scalar(d, t, f)
}

// scalar: the kinds left by the static type and the shape of a value.
func (k *kindSets) scalar(d *Den, t *Term, f *Facts) map[string]bool {
	out := map[string]bool{}
	add := func(ks []string) {
		for _, x := range ks {
			out[x] = true
		}
	}
	if d.isScalar(t, f) {
		add(scalarKinds)
		return out
	}
	if t.typ == nil {
		return nil
	}
	switch typeShort(t.typ) {
	case "VectorExpression", "PolynomialLikeVector":
		add(vectorKinds)
		return out
	case "MatrixExpression", "PolynomialLikeMatrix":
		add(matrixKinds)
		return out
	}
	var m *MV
	if d.try(func() { m = d.matrix(t, f) }) != "" {
		return nil
	}
	T := d.T
	one := T.Int(1)
	many := func(n *Term) bool { return d.D.Decide(T.Lt(one, n), f) == yes }
	switch {
	case many(m.C):
		add(matrixKinds)
	case many(m.R):
		add(vectorKinds)
		add(matrixKinds)
	default:
		return nil
	}
	return out
}

// feasible: no value is required to have a kind it cannot have.
func (k *kindSets) feasible(d *Den, f *Facts) bool { return k.feasibleFrom(d, f, 0) }

func (k *kindSets) feasibleFrom(d *Den, f *Facts, depth int) bool {
	T := d.T
	found := map[*Term]bool{} // what an entry shows to hold of some entry
	var open []*Term
	var tested []*Term
	seen := map[*Term]bool{}
	for _, c := range f.order {
		if c.op == "typeis" && !seen[c.args[0]] {
			seen[c.args[0]] = true
			tested = append(tested, c.args[0])
		}
	}
	for _, x := range tested {
		set := k.of(d, x, f)
		if set == nil {
			continue
		}
		// what is known of x: facts about it, and what holds of every entry
		var known []*Term
		var left []types.Type
		for _, c := range f.order {
			switch {
			case mentionsTerm(c, x):
				if f.m[c] {
					known = append(known, c)
				} else {
					known = append(known, T.Not(c))
				}
			case c.op == "exists" && !f.m[c]:
				var inst func(c *Term)
				inst = func(c *Term) {
					if c.op != "exists" {
						if mentionsTerm(c, x) {
							known = append(known, T.Not(c))
						}
						return
					}
					for _, i := range indicesIn(x) {
						if d.inDomain(i, c.args[0], f) {
							inst(T.open(c.args[1], i))
						}
					}
				}
				inst(c)
			}
		}
		n := 0
		for y := range set {
			t := k.s.p.KindType(y)
			if t == nil {
				n++
				continue
			}
			ok := true
			for _, c := range known {
				v := ofKind(T, c, x, t)
				if b, is := v.isBool(); is && !b {
					ok = false
					break
				}
			}
			if ok {
				n++
				left = append(left, t)
			}
		}
		if n == 0 {
			return false
		}
		if depth > 3 || n > len(left) {
			continue
		}
		if open == nil {
			open = undecidedExists(d, f)
		}
		for _, c := range open {
			if found[c] {
				continue
			}
			all := true
			for _, t := range left {
				if !k.shows(d, c, x, t, f) {
					all = false
					break
				}
			}
			found[c] = all
		}
	}
	g := f.clone()
	more := false
	for _, c := range open {
		if found[c] {
			more = true
			if !d.D.Assume(c, true, g) {
				return false
			}
		}
	}
	return !more || k.feasibleFrom(d, g, depth+1)
}

// ofKind: c when the value x has the type t.
func ofKind(T *Terms, c, x *Term, t types.Type) *Term {
	return T.Rewrite(c, func(u *Term) *Term {
		if u.op == "typeis" && u.args[0] == x {
			return T.Bool(types.Identical(t, u.typ) || types.IsInterface(u.typ) && types.Implements(t, u.typ.Underlying().(*types.Interface)))
		}
		return nil
	})
}

// shows: x is, as a value of type t, an entry of which c says there is one.
func (k *kindSets) shows(d *Den, c, x *Term, t types.Type, f *Facts) bool {
	if c.op != "exists" {
		if !mentionsTerm(c, x) {
			return false
		}
		b, is := ofKind(d.T, c, x, t).isBool()
		return is && b
	}
	for _, i := range indicesIn(x) {
		if d.inDomain(i, c.args[0], f) && k.shows(d, d.T.open(c.args[1], i), x, t, f) {
			return true
		}
	}
	return false
}

// undecidedExists: statements about some entry on whose truth the facts depend.
func undecidedExists(d *Den, f *Facts) []*Term {
	out := []*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "exists":
			if t.loose == 0 && d.D.Decide(t, f) != yes && d.D.Decide(t, f) != no {
				out = append(out, t)
			}
		case "and", "not", "ite":
			for _, a := range t.args {
				rec(a)
			}
		}
	}
	for _, c := range f.order {
		if c.op != "exists" {
			rec(c)
		}
	}
	return out
}

func mentionsTerm(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// indicesIn lists the positions at which a value is taken from lists.
func indicesIn(t *Term) (out []*Term) {
	for i := range t.free {
		out = append(out, i)
	}
	for t.op == "elem" || t.op == "field" || t.op == "assert" || t.op == "iface" || t.op == "call" && len(t.args) > 0 {
		if t.op == "elem" {
			out = append(out, t.args[1])
		}
		t = t.args[0]
	}
	return
}

func (k *kindSets) summary(recv, op, kind string) map[string]bool {
	key := recv + "." + op + ":" + kind
	if r, ok := k.memo[key]; ok {
		return r
	}
	if k.busy[key] {
		return nil
	}
	fn := k.s.fn(recv + "." + op)
	if fn == nil || kind != "" && k.s.p.KindType(kind) == nil {
		return nil
	}
	k.busy[key] = true
	defer delete(k.busy, key)
	s := NewSpec(k.s.p, k.s.r)
	var kinds []string
	if kind != "" {
		kinds = []string{kind}
	}
	args := s.e.SymArgs(fn, kinds)
	d := NewDen(s.e)
	cfg := s.config(valueOps, fn)
	cfg.Hook = k.hook(s, d)
	res := s.e.Run(fn, args, cfg, s.nonEmpty(recv, args))
	var out map[string]bool
	if len(res.Problems) == 0 {
		out = map[string]bool{}
		for _, r := range res.Rets {
			if !d.consistent(r.Facts) {
				continue
			}
			x := k.of(d, r.Vals[0], r.Facts)
			if x == nil {
				if os.Getenv("SMCHECK_KINDS") != "" {
					fmt.Fprintln(os.Stderr, "  unknown kind", key, clip(r.Vals[0].String()))
				}
				out = nil
				break
			}
			for y := range x {
				out[y] = true
			}
		}
	}
	k.memo[key] = out
	if os.Getenv("SMCHECK_KINDS") != "" {
		fmt.Fprintln(os.Stderr, "kinds", key, out, res.Problems)
	}
	return out
}

// hook decides type tests from what the operations can return.
func (k *kindSets) hook(s *Spec, d *Den) func(c *Term, f *Facts) tri {
	return func(c *Term, f *Facts) tri {
		if c.op == "typeis" {
			set := k.of(d, c.args[0], f)
			if set == nil {
				return unknown
			}
			n := 0
			for x := range set {
				t := s.p.KindType(x)
				if t == nil {
					return unknown
				}
				if types.Identical(t, c.typ) || types.IsInterface(c.typ) && types.Implements(t, c.typ.Underlying().(*types.Interface)) {
					n++
				}
			}
			if n == 0 {
				return no
			}
			if n == len(set) {
				return yes
			}
			return unknown
		}
		// an object of positive degree has variables
		if c.op == "pos" && c.args[0].op == "len" {
			if v := c.args[0].args[0]; v.op == "call" && v.name == "Variables" {
				T := d.T
				if d.D.Decide(T.Lt(T.Int(0), T.Call("Degree", v.args, types.Typ[types.Int])), f) == yes {
					return yes
				}
			}
		}
		return wellFormed(c, f)
	}
}
