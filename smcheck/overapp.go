package main

// Loops over a list that was put together from pieces are loops over the pieces.

// segment is a part of the list app and the position at which it starts.
type segment struct {
	list *Term
	off  *Term
}

// overApp: the bodies, iterated n times, read a list that is put together from
// literal entries and other lists. It returns that list's segments, the bodies
// opened with a fresh index, and the index.
func (T *Terms) overApp(n *Term, bodies ...*Term) (app *Term, segs []segment, opened []*Term, k *Term) {
	if n.op != "lin" || n.loose > 0 || n.c0 < 1 || n.c0 > 4 {
		return
	}
	T.neg--
	k = T.mk(Term{op: "idx", n: T.neg})
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if app != nil || seen[t] || !t.free[k] {
			return
		}
		seen[t] = true
		if t.op == "elem" && t.args[1] == k && t.args[0].op == "app" && t.args[0].loose == 0 && T.Len(t.args[0]) == n {
			app = t.args[0]
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, b := range bodies {
		o := T.open(b, k)
		opened = append(opened, o)
		walk(o)
	}
	if app == nil {
		return
	}
	off := T.Int(0)
	for _, s := range app.args {
		segs = append(segs, segment{s, off})
		off = T.Add(off, T.Len(s), 1)
	}
	return
}

// in reads the opened body at entry i of the segment.
func (T *Terms) in(s segment, app, body, k, i *Term) *Term {
	pos := T.Add(s.off, i, 1)
	T.neg--
	j := T.mk(Term{op: "idx", n: T.neg})
	body = T.Rewrite(body, func(x *Term) *Term {
		if x.op == "elem" && x.args[0] == app && x.args[1] == k {
			return T.Elem(s.list, j, x.typ)
		}
		return nil
	})
	return T.SubstMap(T.Subst(body, k, pos), map[*Term]*Term{j: i})
}

// overParts splits an iteration over such a list: one for each literal entry,
// rest for each other piece (its length, the bodies closed over the index).
func (T *Terms) overParts(n *Term, bodies []*Term, one func(bodies []*Term), rest func(n *Term, bodies []*Term)) bool {
	app, segs, opened, k := T.overApp(n, bodies...)
	if app == nil {
		return false
	}
	for _, s := range segs {
		if s.list.op == "lit" {
			for i := range s.list.args {
				var bs []*Term
				for _, b := range opened {
					bs = append(bs, T.in(s, app, b, k, T.Int(int64(i))))
				}
				one(bs)
			}
			continue
		}
		T.neg--
		i := T.mk(Term{op: "idx", n: T.neg})
		var bs []*Term
		for _, b := range opened {
			bs = append(bs, T.close(T.in(s, app, b, k, i), []*Term{i}))
		}
		rest(T.Len(s.list), bs)
	}
	return true
}

// splitLoop splits the iteration t, whose new arguments are na, or returns nil.
func (T *Terms) splitLoop(t *Term, na []*Term) *Term {
	again := func(n *Term, bs []*Term) *Term { return T.remake(t, append([]*Term{n}, bs...)) }
	var parts []*Term
	var one func(bs []*Term)
	switch t.op {
	case "filt":
		one = func(bs []*Term) {
			parts = append(parts, T.Choice([]*Term{bs[0], T.Not(bs[0])}, []*Term{T.Lit([]*Term{bs[1]}), T.Lit(nil)}))
		}
	case "map":
		one = func(bs []*Term) { parts = append(parts, T.Lit([]*Term{bs[0]})) }
	case "exists", "forall", "sum":
		one = func(bs []*Term) { parts = append(parts, bs[0]) }
	default:
		return nil
	}
	if !T.overParts(na[0], na[1:], one, func(n *Term, bs []*Term) { parts = append(parts, again(n, bs)) }) {
		return nil
	}
	switch t.op {
	case "exists":
		return T.Or(parts...)
	case "forall":
		return T.And(parts)
	case "sum":
		s := parts[0]
		for _, p := range parts[1:] {
			if t.name == "float" {
				s = T.Bin("+", s, p, p.typOr(s.typ))
			} else {
				s = T.Add(s, p, 1)
			}
		}
		return s
	}
	out := T.Lit(nil)
	for i := len(parts) - 1; i >= 0; i-- {
		tail := out
		if parts[i].op == "choice" {
			out = T.mapChoice(parts[i], func(v *Term) *Term { return T.App(v, tail) })
		} else {
			out = T.App(parts[i], tail)
		}
	}
	return out
}
