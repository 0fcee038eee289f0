package main

import "os"

// Refutation by case distinction and instantiation: whether a set of facts,
// with quantified statements over positions among them, has no model.

type prover struct {
	s      *Spec
	budget int
}

// claims are facts, those on every position apart from the others.
type claims struct {
	g    *Facts
	all  []*Term // exists/forall terms
	sign map[*Term]bool
}

func (c *claims) clone() *claims {
	n := &claims{g: c.g.clone(), all: append([]*Term{}, c.all...), sign: map[*Term]bool{}}
	for k, v := range c.sign {
		n.sign[k] = v
	}
	return n
}

// contradictory: no values satisfy the facts.
func (s *Spec) contradictory(f *Facts) bool {
	if f.bad {
		return true
	}
	p := &prover{s: s, budget: 600}
	c := &claims{g: NewFacts(), sign: map[*Term]bool{}}
	for _, k := range f.order {
		if v, ok := f.m[k]; ok && !p.add(c, k, v) {
			return true
		}
	}
	return p.unsat(c, 0)
}

// proves: under the facts the condition holds.
func (s *Spec) proves(c *Term, f *Facts) bool {
	if s.implied(c, f) {
		return true
	}
	g, ok := s.assume(f, s.T.Not(c))
	return !ok || s.contradictory(g)
}

func (p *prover) add(c *claims, t *Term, v bool) bool {
	T := p.s.T
	if !v {
		t = T.Not(t)
	}
	if t.loose == 0 {
		t = p.s.norm(t, c.g)
	}
	for _, x := range conj(t) {
		tv := x.op != "not"
		if !tv {
			x = x.args[0]
		}
		if x.op == "forall" && tv || x.op == "exists" && !tv {
			if w, ok := c.sign[x]; !ok {
				c.sign[x] = tv
				c.all = append(c.all, x)
			} else if w != tv {
				return false
			}
			continue
		}
		if w, ok := c.sign[x]; ok && w != tv {
			return false
		}
		if !p.s.d.Assume(x, tv, c.g) {
			return false
		}
	}
	return true
}

func (p *prover) renamed(c *claims, y, k *Term, v bool) bool { return y == k || p.add(c, y, v) }

func (p *prover) unsat(c *claims, depth int) bool {
	s, T := p.s, p.s.T
	for round := 0; round < 8; round++ {
		f := c.g
		if f.bad {
			return true
		}
		if p.budget--; p.budget < 0 {
			return false
		}
		n := len(f.order) + len(c.all)
		// composite facts under the other ones
		for _, k := range append([]*Term{}, f.order...) {
			v, ok := f.m[k]
			if !ok || k.op != "ite" && k.op != "and" && k.op != "not" {
				continue
			}
			x := T.toBdd(k)
			if !v {
				x = T.bdd.not(x)
			}
			r := T.fromBdd(s.d.reduce(T.bdd.restrict(x, c.sign), f.without(k)))
			if b, ok := r.isBool(); ok && !b {
				return true
			}
			if r != k && r.op != "ite" && !p.add(c, r, true) {
				return true
			}
		}
		idx := positions(f)
		// a position known by another name
		zero := T.Int(0)
		for n, i := range idx {
			if _, num := i.isInt(); num {
				continue
			}
			for _, j := range append([]*Term{zero}, idx[:n]...) {
				if j == i || s.d.Decide(T.EqInt(i, j), f) != yes {
					continue
				}
				other := func(k *Term) *Term {
					return T.Rewrite(k, func(x *Term) *Term {
						if x.op == "elem" && x.args[1] == i {
							return T.Elem(x.args[0], j, x.typ)
						}
						return nil
					})
				}
				for _, k := range append([]*Term{}, f.order...) {
					if v, ok := f.m[k]; ok && !p.renamed(c, other(k), k, v) {
						return true
					}
				}
				for _, k := range append([]*Term{}, c.all...) {
					if !p.renamed(c, other(k), k, c.sign[k]) {
						return true
					}
				}
				break
			}
		}
		// statements on every position
		for _, i := range idx {
			if _, num := i.isInt(); !num {
				idx = append(idx, T.Add(i, T.Int(1), -1), T.Add(i, T.Int(1), 1))
			}
		}
		for _, k := range append([]*Term{}, c.all...) {
			if k.loose > 0 {
				continue
			}
			for _, i := range idx {
				if s.d.Decide(T.Lt(i, k.args[0]), f) != yes || s.d.Decide(T.Lt(i, zero), f) != no {
					continue
				}
				if !p.add(c, T.open(k.args[1], i), c.sign[k]) {
					return true
				}
			}
		}
		if len(f.order)+len(c.all) == n {
			break
		}
	}
	if depth > 14 {
		return false
	}
	// distinguish cases
	f := c.g
	for _, k := range f.order {
		v, ok := f.m[k]
		if !ok || k.op != "ite" && (k.op != "and" || v) {
			continue
		}
		x := T.toBdd(k)
		if !v {
			x = T.bdd.not(x)
		}
		x = s.d.reduce(T.bdd.restrict(x, c.sign), f.without(k))
		if x.atom == nil {
			if x == T.bdd.f {
				return true
			}
			continue
		}
		for _, tv := range []bool{true, false} {
			n := c.clone()
			n.g = n.g.without(k)
			rest := x.hi
			if !tv {
				rest = x.lo
			}
			if p.add(n, x.atom, tv) && p.add(n, T.fromBdd(rest), true) && !p.unsat(n, depth+1) {
				return false
			}
		}
		return true
	}
	// whether a chosen position is one of those spoken of or the one behind them
	for _, k := range c.all {
		if k.loose > 0 || depth > 6 {
			continue
		}
		for _, i := range positions(f) {
			n := k.args[0]
			if i.op != "first" || s.d.Decide(T.Lt(i, n), f) != unknown || s.d.Decide(T.Lt(i, T.Add(n, T.Int(1), 1)), f) != yes {
				continue
			}
			if a := c.clone(); p.add(a, T.Lt(i, n), true) && !p.unsat(a, depth+1) {
				return false
			}
			if a := c.clone(); p.add(a, T.EqInt(i, n), true) && !p.unsat(a, depth+1) {
				return false
			}
			return true
		}
	}
	// whether a neighbouring position is within the list
	for _, k := range c.all {
		if k.loose > 0 || depth > 6 {
			continue
		}
		for _, i := range positions(f) {
			if i.op != "first" || s.d.Decide(T.Lt(i, k.args[0]), f) != yes {
				continue
			}
			q := T.Lt(T.Add(i, T.Int(1), 1), k.args[0])
			if s.d.Decide(q, f) != unknown {
				continue
			}
			for _, tv := range []bool{true, false} {
				if n := c.clone(); p.add(n, q, tv) && !p.unsat(n, depth+1) {
					return false
				}
			}
			return true
		}
	}
	if os.Getenv("SMCHECK_PROVE") != "" {
		println("OPEN", depth, p.budget, f.dump())
		for _, k := range c.all {
			println("   ALL", c.sign[k], k.String())
		}
	}
	return false
}

// positions lists the indices the facts speak of.
func positions(f *Facts) (out []*Term) {
	seen, have := map[*Term]bool{}, map[*Term]bool{}
	add := func(t *Term) {
		if t.loose == 0 && !have[t] && len(out) < 24 {
			have[t] = true
			out = append(out, t)
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "elem":
			add(t.args[1])
		case "mapkey", "mapval":
			add(t.args[1])
		case "first", "last":
			add(t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, k := range f.order {
		walk(k)
	}
	return
}
