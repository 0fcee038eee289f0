package main

// Must-facts (path conditions that hold whenever a program point is reached)
// and the decision of conditions from them: literal lookup, kind reasoning,
// and a small polyhedral test for integer comparisons.

import (
	"go/types"
	"sort"
)

type Facts struct {
	m     map[*Term]bool // canonical positive condition -> truth
	order []*Term
	bad   bool           // contradictory: the point is unreachable
	imp   map[*Term]bool // consequences (index ranges, loop invariants) rather than branch outcomes
}

func NewFacts() *Facts { return &Facts{m: map[*Term]bool{}, imp: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{m: make(map[*Term]bool, len(f.m)+2), order: append([]*Term{}, f.order...), bad: f.bad}
	for k, v := range f.m {
		n.m[k] = v
	}
	n.imp = make(map[*Term]bool, len(f.imp))
	for k := range f.imp {
		n.imp[k] = true
	}
	return n
}

// without drops one fact.
func (f *Facts) without(x *Term) *Facts {
	g := f.clone()
	delete(g.m, x)
	g.order = g.order[:0]
	for _, k := range f.order {
		if k != x {
			g.order = append(g.order, k)
		}
	}
	return g
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

func b2t(b bool) tri {
	if b {
		return yes
	}
	return no
}

// Universe enumerates the concrete kinds an interface value can have.
type Universe interface {
	Implementers(it types.Type) []types.Type
}

type Decider struct {
	T     *Terms
	U     Universe
	depth int
	hook  func(c *Term, f *Facts) tri
}

func (d *Decider) Decide(c *Term, f *Facts) tri {
	if b, ok := c.isBool(); ok {
		return b2t(b)
	}
	if f.bad {
		return yes
	}
	if d.depth > 24 {
		return unknown
	}
	d.depth++
	defer func() { d.depth-- }()
	if v, ok := f.m[c]; ok {
		return b2t(v)
	}
	switch c.op {
	case "not":
		return d.Decide(c.args[0], f).not()
	case "and":
		all := true
		for _, x := range c.args {
			switch d.Decide(x, f) {
			case no:
				return no
			case unknown:
				all = false
			}
		}
		if all {
			return yes
		}
		return d.hooked(c, f)
	case "ite":
		x := d.reduce(d.T.toBdd(c), f)
		if x == d.T.bdd.t {
			return yes
		}
		if x == d.T.bdd.f {
			return no
		}
		return d.hooked(c, f)
	case "choice":
		res := unknown
		for i := 0; i+1 < len(c.args); i += 2 {
			if d.Decide(c.args[i], f) == no {
				continue
			}
			r := d.Decide(c.args[i+1], f)
			if r == unknown {
				return d.hooked(c, f)
			}
			if res != unknown && res != r {
				return d.hooked(c, f)
			}
			res = r
		}
		return res
	case "typeis":
		return d.typeis(c, f)
	}
	// push through choices inside the condition
	if ch := topChoice(c); ch != nil && d.depth < 8 {
		res := unknown
		for i := 0; i+1 < len(ch.args); i += 2 {
			if d.Decide(ch.args[i], f) == no {
				continue
			}
			r := d.Decide(d.replaceTop(c, ch, ch.args[i+1]), f)
			if r == unknown || (res != unknown && res != r) {
				res = unknown
				break
			}
			res = r
		}
		if res != unknown {
			return res
		}
	}
	switch c.op {
	case "pos":
		if r := d.linear(c.args[0], 1, f); r != unknown {
			return r
		}
	case "eq0":
		if r := d.linear(c.args[0], 0, f); r != unknown {
			return r
		}
	}
	if r := d.forall(c, f); r != unknown {
		return r
	}
	return d.hooked(c, f)
}

// reduce restricts a decision graph by what the facts decide.
func (d *Decider) reduce(x *bnode, f *Facts) *bnode {
	b := d.T.bdd
	memo := map[*bnode]*bnode{}
	dec := map[*Term]tri{}
	var rec func(x *bnode) *bnode
	rec = func(x *bnode) *bnode {
		if x == b.t || x == b.f {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		t, ok := dec[x.atom]
		if !ok {
			t = d.Decide(x.atom, f)
			dec[x.atom] = t
		}
		var r *bnode
		switch t {
		case yes:
			r = rec(x.hi)
		case no:
			r = rec(x.lo)
		default:
			r = b.node(x.atom, rec(x.hi), rec(x.lo))
		}
		memo[x] = r
		return r
	}
	return rec(x)
}

// reduceLits restricts by facts that were stated literally.
func (d *Decider) reduceLits(x *bnode, f *Facts) *bnode { return d.T.bdd.restrict(x, f.m) }

func (d *Decider) hooked(c *Term, f *Facts) tri {
	if d.hook != nil {
		return d.hook(c, f)
	}
	return unknown
}

func topChoice(c *Term) *Term {
	for _, a := range c.args {
		if a.op == "choice" {
			return a
		}
		if a.op == "lin" {
			for _, b := range a.args {
				if b.op == "choice" {
					return b
				}
			}
		}
	}
	return nil
}

func (d *Decider) replaceTop(c, ch, v *Term) *Term {
	return d.T.rebuild(c, func(i int, a *Term) *Term {
		if a == ch {
			return v
		}
		if a.op == "lin" {
			return d.T.rebuild(a, func(j int, b *Term) *Term {
				if b == ch {
					return v
				}
				return b
			})
		}
		return a
	})
}

func (d *Decider) typeis(c *Term, f *Facts) tri {
	x := c.args[0]
	tgt := c.typ
	it, isI := tgt.Underlying().(*types.Interface)
	for _, k := range f.order {
		if k.op != "typeis" || k.args[0] != x || !f.m[k] {
			continue
		}
		if _, ki := k.typ.Underlying().(*types.Interface); ki {
			continue
		}
		if isI {
			return b2t(types.Implements(k.typ, it))
		}
		return b2t(types.Identical(k.typ, tgt))
	}
	if !isI {
		for _, k := range f.order {
			if k.op == "typeis" && k.args[0] == x {
				if ki, ok := k.typ.Underlying().(*types.Interface); ok && types.Implements(tgt, ki) != f.m[k] {
					return no
				}
			}
		}
	}
	// finite universe of the value's static interface type
	if x.typ != nil && d.U != nil {
		if xi, ok := x.typ.Underlying().(*types.Interface); ok && xi.NumMethods() > 0 {
			impl := d.U.Implementers(x.typ)
			if len(impl) > 0 {
				var left []types.Type
				for _, t := range impl {
					if v, ok := f.m[d.T.TypeIs(x, t)]; ok && !v {
						continue
					}
					drop := false
					for _, k := range f.order {
						if k.op == "typeis" && k.args[0] == x {
							if ki, ok := k.typ.Underlying().(*types.Interface); ok {
								if types.Implements(t, ki) != f.m[k] {
									drop = true
								}
							}
						}
					}
					if !drop {
						left = append(left, t)
					}
				}
				if len(left) > 0 {
					y, n := 0, 0
					for _, t := range left {
						m := false
						if isI {
							m = types.Implements(t, it)
						} else {
							m = types.Identical(t, tgt)
						}
						if m {
							y++
						} else {
							n++
						}
					}
					if y == 0 {
						return no
					}
					if n == 0 && d.notNil(x, f) {
						return yes
					}
				}
			}
		}
	}
	return d.hooked(c, f)
}

func (d *Decider) notNil(x *Term, f *Facts) bool {
	// values of expression interfaces produced by the library are never nil
	return x.op != "sym" || true
}

// forall: instantiate universally quantified facts produced by loop summaries.
func (d *Decider) forall(c *Term, f *Facts) tri {
	for _, k := range f.order {
		if k.op == "exists" && !f.m[k] {
			// no position satisfies the conjunction
			lits := conj(k.args[1])
			for n, lit := range lits {
				b := lit
				if b.op == "not" {
					b = b.args[0]
				}
				t := d.matchBound(b, c)
				if t == nil || d.T.open(b, t) != c || !d.inRange(t, k.args[0], f) {
					continue
				}
				rest := true
				for m, o := range lits {
					if m != n && d.Decide(d.T.open(o, t), f) != yes {
						rest = false
						break
					}
				}
				if rest {
					return b2t(lit.op == "not")
				}
			}
			continue
		}
		if k.op != "forall" || !f.m[k] {
			continue
		}
		body := k.args[1]
		for _, lit := range conj(body) {
			pol := true
			b := lit
			if b.op == "not" {
				pol = false
				b = b.args[0]
			}
			if t := d.matchBound(b, c); t != nil {
				if d.T.open(b, t) != c {
					continue
				}
				if d.inRange(t, k.args[0], f) {
					return b2t(pol)
				}
			}
		}
	}
	return unknown
}

func (d *Decider) inRange(t, n *Term, f *Facts) bool {
	if d.depth > 12 {
		return false
	}
	T := d.T
	return d.Decide(T.Lt(t, T.Int(0)), f) == no && d.Decide(T.Lt(t, n), f) == yes
}

// matchBound finds what the bound variable #0 of pattern must be for pattern to equal t.
func (d *Decider) matchBound(p, t *Term) *Term {
	for _, x := range d.bounds(p, t) {
		if d.T.open(p, x) == t {
			return x
		}
	}
	return nil
}

// bounds lists values #0 might have.
func (d *Decider) bounds(p, t *Term) []*Term {
	if p.loose == 0 {
		return nil
	}
	if p.op == "bv" && p.n == 0 && p.name == "0" {
		return []*Term{t}
	}
	if p.op == "lin" {
		var out []*Term
		ts := []*Term{t}
		if t.op == "lin" {
			ts = t.args
		}
		for i, a := range p.args {
			if a.op == "bv" && a.n == 0 && a.name == "0" && (p.coefs[i] == 1 || p.coefs[i] == -1) {
				continue
			}
			for _, b := range ts {
				out = append(out, d.bounds(a, b)...)
			}
		}
		return out
	}
	if p.op != t.op || p.n != t.n || p.name != t.name || len(p.args) != len(t.args) {
		return nil
	}
	for i := range p.args {
		if i >= firstBound(p) {
			continue
		}
		if r := d.bounds(p.args[i], t.args[i]); len(r) > 0 {
			return r
		}
	}
	return nil
}

// ---- integer reasoning --------------------------------------------------

type ineq struct { // sum k*x + c >= 0
	m map[*Term]int64
	c int64
}

// linear decides d > 0 (want 1) or d == 0 (want 0).
func (d *Decider) linear(t *Term, want int, f *Facts) tri {
	if want == 1 {
		// d>0 yes iff d<=0 infeasible; no iff d>=1 infeasible
		if d.infeasible(t, -1, 0, f) {
			return yes
		}
		if d.infeasible(t, 1, -1, f) {
			return no
		}
		return unknown
	}
	// d == 0
	ge1 := d.infeasible(t, 1, -1, f)
	le1 := d.infeasible(t, -1, -1, f)
	if ge1 && le1 {
		return yes
	}
	if d.infeasibleEq(t, f) {
		return no
	}
	return unknown
}

// infeasible: facts ∧ (s*t + c >= 0) has no rational solution.
func (d *Decider) infeasible(t *Term, s, c int64, f *Facts) bool {
	m, k := d.T.linParts(d.T.Scale(t, s))
	return d.fm([]ineq{{m, k + c}}, f)
}

func (d *Decider) infeasibleEq(t *Term, f *Facts) bool {
	m, k := d.T.linParts(t)
	m2, k2 := d.T.linParts(d.T.Scale(t, -1))
	return d.fm([]ineq{{m, k}, {m2, k2}}, f)
}

func (d *Decider) fm(query []ineq, f *Facts) bool {
	var all []ineq
	var nes []*Term
	for _, k := range f.order {
		v := f.m[k]
		switch k.op {
		case "pos":
			if v {
				m, c := d.T.linParts(k.args[0])
				all = append(all, ineq{m, c - 1})
			} else {
				m, c := d.T.linParts(d.T.Scale(k.args[0], -1))
				all = append(all, ineq{m, c})
			}
		case "eq0":
			if v {
				m, c := d.T.linParts(k.args[0])
				all = append(all, ineq{m, c})
				m2, c2 := d.T.linParts(d.T.Scale(k.args[0], -1))
				all = append(all, ineq{m2, c2})
			} else {
				nes = append(nes, k.args[0])
			}
		}
	}
	// keep only facts connected to the query's atoms
	rel := map[*Term]bool{}
	for _, q := range query {
		for a := range q.m {
			rel[a] = true
		}
	}
	used := make([]bool, len(all))
	cons := append([]ineq{}, query...)
	seenFind := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for i, q := range all {
			if used[i] {
				continue
			}
			hit := false
			for a := range q.m {
				if rel[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cons = append(cons, q)
				for a := range q.m {
					if !rel[a] {
						rel[a] = true
						ch = true
					}
				}
			}
		}
		var finds []*Term
		for a := range rel {
			if !seenFind[a] && findIndex(a) != nil {
				finds = append(finds, a)
			}
		}
		sort.Slice(finds, func(i, j int) bool { return finds[i].id < finds[j].id })
		for _, a := range finds {
			// the index FindInSlice returns: -1 or a position of the list
			seenFind[a] = true
			x, l := findArgs(a)
			lo := int64(1)
			if memberOf(x, l) {
				lo = 0
			}
			cons = append(cons, ineq{map[*Term]int64{a: 1}, lo})
			m, c := d.T.linParts(d.T.Add(d.T.Len(l), a, -1))
			cons = append(cons, ineq{m, c - 1})
			for y := range m {
				if !rel[y] {
					rel[y] = true
					ch = true
				}
			}
		}
	}
	for a := range rel {
		if nonNeg(a) || a.op == "imul" && d.nonNegProduct(a, f) {
			least := int64(0)
			if termsOfSimplified(a) {
				least = 1
			}
			cons = append(cons, ineq{map[*Term]int64{a: 1}, -least})
		}
	}
	cons = append(cons, d.products(rel, f)...)
	if fmInfeasible(cons) {
		return true
	}
	// x != 0 together with x >= 0 (or x <= 0) tightens by one
	tight := false
	for _, t := range nes {
		conn := false
		mt, ct := d.T.linParts(t)
		for a := range mt {
			if rel[a] {
				conn = true
			}
		}
		if !conn {
			continue
		}
		// if cons imply t >= 0 then t >= 1
		mneg, cneg := d.T.linParts(d.T.Scale(t, -1))
		if fmInfeasible(append(append([]ineq{}, cons...), ineq{mneg, cneg - 1})) {
			cons = append(cons, ineq{mt, ct - 1})
			tight = true
		} else if fmInfeasible(append(append([]ineq{}, cons...), ineq{mt, ct - 1})) {
			cons = append(cons, ineq{mneg, cneg - 1})
			tight = true
		}
	}
	if tight {
		return fmInfeasible(cons)
	}
	return false
}

// termsOfSimplified: the number of terms of a simplified polynomial, which has
// at least one (C23 decides that for Simplify itself).
func termsOfSimplified(a *Term) bool {
	if a.op != "len" || a.args[0].op != "field" || a.args[0].name != "Monomials" {
		return false
	}
	q := a.args[0].args[0]
	return q.op == "call" && q.name == "Simplify"
}

// memberOf: x is an entry of the list l (or of a list l collects).
func memberOf(x, l *Term) bool {
	if x.op != "elem" {
		return false
	}
	src := x.args[0]
	if l == src {
		return true
	}
	switch l.op {
	case "app":
		for _, a := range l.args {
			if memberOf(x, a) {
				return true
			}
		}
	case "call":
		switch l.name {
		case "symbolic.UniqueVars":
			return len(l.args) == 1 && memberOf(x, l.args[0])
		case "symbolic.UnionOfVariables":
			for _, a := range l.args {
				if memberOf(x, a) {
					return true
				}
			}
		}
	}
	return false
}

// products: a*p and a*q differ by at least a when q < p.
func (d *Decider) products(rel map[*Term]bool, f *Facts) (out []ineq) {
	var l []*Term
	for a := range rel {
		if a.op == "imul" && len(a.args) == 2 {
			l = append(l, a)
		}
	}
	if len(l) == 0 || len(l) > 6 || d.depth > 8 {
		return nil
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	T := d.T
	d.depth++
	defer func() { d.depth-- }()
	less := func(q, p *Term) bool { return d.Decide(T.Lt(q, p), f) == yes }
	for _, y := range l {
		for j, a := range y.args {
			q := y.args[1-j]
			if !nonNeg(a) && d.Decide(T.Lt(a, T.Int(0)), f) != no {
				continue
			}
			if less(q, T.Int(1)) {
				m, c := T.linParts(T.Scale(y, -1))
				out = append(out, ineq{m, c})
			}
			for _, x := range l {
				if x == y {
					continue
				}
				for i := range x.args {
					if x.args[i] == a && less(q, x.args[1-i]) {
						m, c := T.linParts(T.Add(T.Add(x, y, -1), a, -1))
						out = append(out, ineq{m, c})
					}
				}
			}
		}
	}
	return out
}

func (d *Decider) nonNegProduct(a *Term, f *Facts) bool {
	for _, x := range a.args {
		if !nonNeg(x) && (d.depth > 12 || d.Decide(d.T.Lt(x, d.T.Int(0)), f) != no) {
			return false
		}
	}
	return true
}

func nonNeg(a *Term) bool {
	switch a.op {
	case "len", "cap", "idx", "max0", "trip", "first", "last", "count":
		return true
	case "bv":
		return true // bound variables of integer type are iteration counters
	case "call":
		return a.name == "Len" || a.name == "Length" || a.name == "Degree"
	case "elem":
		return a.args[0].op == "call" && a.args[0].name == "Dims"
	}
	return false
}

func fmInfeasible(cons []ineq) bool {
	for round := 0; round < 40; round++ {
		var vars []*Term
		cnt := map[*Term][2]int{}
		for _, q := range cons {
			if len(q.m) == 0 && q.c < 0 {
				return true
			}
			for a, k := range q.m {
				if k == 0 {
					continue
				}
				x, seen := cnt[a]
				if !seen {
					vars = append(vars, a)
				}
				if k > 0 {
					x[0]++
				} else {
					x[1]++
				}
				cnt[a] = x
			}
		}
		if len(vars) == 0 {
			return false
		}
		best := vars[0]
		bc := 1 << 30
		for _, v := range vars {
			c := cnt[v][0]*cnt[v][1] - cnt[v][0] - cnt[v][1]
			if c < bc || (c == bc && v.id < best.id) {
				best, bc = v, c
			}
		}
		var pos, neg, rest []ineq
		for _, q := range cons {
			switch k := q.m[best]; {
			case k > 0:
				pos = append(pos, q)
			case k < 0:
				neg = append(neg, q)
			default:
				rest = append(rest, q)
			}
		}
		if len(pos)*len(neg) > 400 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := p.m[best], -n.m[best]
				m := map[*Term]int64{}
				for a, k := range p.m {
					m[a] += k * kn
				}
				for a, k := range n.m {
					m[a] += k * kp
				}
				delete(m, best)
				g := int64(0)
				for a, k := range m {
					if k == 0 {
						delete(m, a)
						continue
					}
					g = gcd(g, k)
				}
				c := p.c*kn + n.c*kp
				if len(m) == 0 {
					if c < 0 {
						return true
					}
					continue
				}
				if g > 1 {
					for a := range m {
						m[a] /= g
					}
					c = floorDiv(c, g)
				}
				rest = append(rest, ineq{m, c})
			}
		}
		cons = rest
		if len(cons) > 400 {
			return false
		}
	}
	return false
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Assume adds a fact; it reports false if the point becomes unreachable.
func (d *Decider) Assume(c *Term, truth bool, f *Facts) bool {
	if f.bad {
		return false
	}
	if !truth {
		c = d.T.Not(c)
	}
	switch d.Decide(c, f) {
	case yes:
		return true
	case no:
		f.bad = true
		return false
	}
	pol := true
	if c.op == "not" {
		pol = false
		c = c.args[0]
	}
	if c.op == "and" && pol {
		for _, x := range c.args {
			if !d.Assume(x, true, f) {
				return false
			}
		}
		return true
	}
	if c.op == "ite" {
		x := d.T.toBdd(c)
		if !pol {
			x = d.T.bdd.not(x)
		}
		x = d.reduce(x, f)
		if r := d.T.fromBdd(x); r.op != "ite" {
			return d.Assume(r, true, f)
		} else {
			c, pol = r, true
		}
		if v, ok := f.m[c]; ok {
			if !v {
				f.bad = true
			}
			return v
		}
	}
	f.m[c] = pol
	f.order = append(f.order, c)
	if c.op == "exists" && pol && c.loose == 0 && d.depth < 8 {
		// the first such position is one
		T := d.T
		i := T.mk(Term{op: "first", args: c.args, typ: types.Typ[types.Int]})
		d.depth++
		n := len(f.order)
		ok := d.Assume(T.Lt(i, c.args[0]), true, f) && d.Assume(T.open(c.args[1], i), true, f)
		for _, k := range f.order[n:] {
			f.imp[k] = true
		}
		d.depth--
		if !ok {
			return false
		}
	}
	if c.op == "exists" && !pol && c.loose == 0 && d.depth < 4 {
		// what is known of chosen positions may say more now
		d.depth++
		n := len(f.order)
		ok := true
		for _, k := range f.order[:n] {
			if !f.imp[k] || !ok || k == c {
				continue
			}
			if k.op != "ite" && k.op != "and" {
				if v := d.forall(k, f); v != unknown {
					ok = (v == yes) == f.m[k]
				}
				continue
			}
			switch v := d.Decide(k, f); {
			case v != unknown:
				ok = (v == yes) == f.m[k]
			default:
				r := d.Resolve(k, f)
				if r != k {
					ok = d.Assume(r, f.m[k], f)
				}
			}
		}
		for _, k := range f.order[n:] {
			f.imp[k] = true
		}
		d.depth--
		if !ok {
			f.bad = true
			return false
		}
	}
	if c.op == "eq" && pol && len(c.args) == 2 && d.depth < 8 {
		// a list that equals nil is empty
		for i, x := range c.args {
			if y := c.args[1-i]; x.op == "nil" || x.op == "lit" && len(x.args) == 0 {
				if l := d.T.Len(y); y.op != "struct" && l.op != "choice" && isSliceType(y.typ) {
					d.depth++
					n := len(f.order)
					ok := d.Assume(d.T.EqInt(l, d.T.Int(0)), true, f)
					for _, k := range f.order[n:] {
						f.imp[k] = true
					}
					d.depth--
					if !ok {
						return false
					}
				}
				break
			}
		}
	}
	if c.op == "call" && c.name == "MatchesFormOf" && pol && len(c.args) == 2 && d.depth < 8 {
		// equal forms list equally many variables
		T := d.T
		var ls []*Term
		for _, x := range c.args {
			if x.op == "iface" {
				x = x.args[0]
			}
			if mt := x.typ; mt != nil && typeShort(mt) == "Monomial" {
				ls = append(ls, T.Len(T.Field(x, fieldIndex(mt, "VariableFactors"), mt)))
			}
		}
		if len(ls) == 2 {
			d.depth++
			n := len(f.order)
			ok := d.Assume(T.EqInt(ls[0], ls[1]), true, f)
			for _, k := range f.order[n:] {
				f.imp[k] = true
			}
			d.depth--
			if !ok {
				return false
			}
		}
	}
	if c.op == "eq0" && pol && c.args[0].op == "len" && c.args[0].args[0].op == "filt" && c.loose == 0 && d.depth < 8 {
		// nothing passed the filter
		l := c.args[0].args[0]
		d.depth++
		n := len(f.order)
		ok := d.Assume(d.T.mk(Term{op: "exists", args: l.args[:2]}), false, f)
		for _, k := range f.order[n:] {
			f.imp[k] = true
		}
		d.depth--
		if !ok {
			return false
		}
	}
	// a choice condition that leaves one feasible alternative pins its guard
	ch := c
	if ch.op != "choice" {
		ch = topChoice(c)
	}
	if ch != nil {
		var live []int
		for i := 0; i+1 < len(ch.args); i += 2 {
			if d.Decide(ch.args[i], f) == no {
				continue
			}
			var cc *Term
			if c.op == "choice" {
				cc = ch.args[i+1]
			} else {
				cc = d.replaceTop(c, ch, ch.args[i+1])
			}
			delete(f.m, c)
			r := d.Decide(cc, f)
			f.m[c] = pol
			if r == b2t(!pol) {
				continue
			}
			live = append(live, i)
		}
		if len(live) == 0 {
			f.bad = true
			return false
		}
		if len(live) == 1 {
			i := live[0]
			if !d.Assume(ch.args[i], true, f) {
				return false
			}
			if c.op == "choice" {
				if !d.Assume(ch.args[i+1], pol, f) {
					return false
				}
			} else if !d.Assume(d.replaceTop(c, ch, ch.args[i+1]), pol, f) {
				return false
			}
		} else if len(live) < len(ch.args)/2 {
			for i := 0; i+1 < len(ch.args); i += 2 {
				in := false
				for _, l := range live {
					if l == i {
						in = true
					}
				}
				if !in && d.Decide(ch.args[i], f) == unknown {
					g := ch.args[i]
					gp := true
					if g.op == "not" {
						g, gp = g.args[0], false
					}
					if g.op != "and" || !gp {
						f.m[g] = !gp
						f.order = append(f.order, g)
					}
				}
			}
		}
	}
	// disjunctions that the new fact decides
	if d.depth < 6 {
		for _, k := range append([]*Term{}, f.order...) {
			if k.op != "ite" || !f.m[k] {
				continue
			}
			x := d.T.toBdd(k)
			r := d.reduceLits(x, f)
			if r == x {
				continue
			}
			if r == d.T.bdd.f {
				f.bad = true
				return false
			}
			if m := d.T.bdd.forcedLits(r); len(m) > 0 {
				var l []*Term
				for a := range m {
					l = append(l, a)
				}
				sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
				d.depth++
				for _, a := range l {
					if !d.Assume(a, m[a], f) {
						d.depth--
						return false
					}
				}
				d.depth--
			}
		}
	}
	return !f.bad
}

// Resolve drops choice alternatives that contradict the facts.
func (d *Decider) Resolve(t *Term, f *Facts) *Term {
	return d.resolve(t, f, 0)
}

func (d *Decider) resolve(t *Term, f *Facts, depth int) *Term {
	if depth > 6 {
		return t
	}
	switch t.op {
	case "choice":
		var gs, vs []*Term
		ch := false
		for i := 0; i+1 < len(t.args); i += 2 {
			if d.Decide(t.args[i], f) == no {
				ch = true
				continue
			}
			gs = append(gs, t.args[i])
			vs = append(vs, t.args[i+1])
		}
		if !ch {
			return t
		}
		if len(vs) == 0 {
			return t
		}
		return d.resolve(d.T.Choice(gs, vs), f, depth+1)
	case "elem":
		if x := d.flatElem(t.args[0], t.args[1], t.typ, f); x != nil {
			return d.resolve(x, f, depth+1)
		}
	case "lin", "iface", "struct", "tuple", "assert":
		return d.T.rebuild(t, func(i int, a *Term) *Term { return d.resolve(a, f, depth+1) })
	}
	return t
}

// flatElem: entry j + m*i of rows of fixed length m.
func (d *Decider) flatElem(l, i *Term, typ types.Type, f *Facts) *Term {
	T := d.T
	if l.op != "flat" || l.args[1].op != "map" || l.args[1].args[0].loose != 0 {
		return nil
	}
	m := l.args[1].args[0]
	parts, _ := T.linParts(i)
	try := func(row *Term) *Term {
		col := T.Add(i, T.Mul(m, row), -1)
		if d.inRange(row, l.args[0], f) && d.inRange(col, m, f) {
			return T.Elem(T.open(l.args[1], row), col, typ)
		}
		return nil
	}
	for x, c := range parts {
		if x.op == "imul" && c == 1 {
			for n := 0; n < 2; n++ {
				if x.args[n] == m {
					if r := try(x.args[1-n]); r != nil {
						return r
					}
				}
			}
		}
		if k, ok := m.isInt(); ok && c == k {
			if r := try(x); r != nil {
				return r
			}
		}
	}
	return nil
}
