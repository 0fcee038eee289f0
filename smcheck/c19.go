package main

import (
	"go/constant"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkEnds }

// opNode is one operation on operands of known kinds.
type opNode struct {
	name     string
	kinds    string
	edges    map[string]*opEdge
	fn       *ssa.Function
	args     []*Term
	prob     string
	low, idx int
	on       bool
	scc      int
}

type opEdge struct {
	to      string
	where   string
	smaller bool
}

func (n *opNode) key() string { return n.name + ":" + n.kinds }

// callGraph computes which operations an operation can hand its work to.
type callGraph struct {
	s     *Spec
	nodes map[string]*opNode
	todo  []*opNode
	fns   map[string]*ssa.Function
}

func (g *callGraph) node(name, kinds string) *opNode {
	k := name + ":" + kinds
	n := g.nodes[k]
	if n == nil {
		n = &opNode{name: name, kinds: kinds, edges: map[string]*opEdge{}}
		g.nodes[k] = n
		g.todo = append(g.todo, n)
	}
	return n
}

func (g *callGraph) expand(n *opNode) {
	s := g.s
	fn := g.fns[n.name]
	if fn == nil {
		fn = g.fns["*"+n.name]
	}
	if fn == nil {
		return // a kind without the operation
	}
	n.fn = fn
	g.prints(n)
	s.fresh()
	var kinds []string
	if n.kinds != "" {
		kinds = strings.Split(n.kinds, ",")
	}
	for i, k := range kinds {
		if k == "?" {
			kinds[i] = ""
		}
	}
	args := s.e.SymArgs(fn, kinds)
	n.args = args
	d := NewDen(s.e)
	recv, _ := splitName(n.name)
	cfg := s.config(valueOps, fn)
	cfg.Hook = s.kinds.hook(s, d)
	cfg.Event = func(in *ssa.Function, name string, cargs []*Term, sig *types.Signature, f *Facts) {
		if strings.HasPrefix(name, "Sprint") {
			return
		}
		if !strings.Contains(name, ".") || strings.HasPrefix(name, "symbolic.") || strings.HasPrefix(name, "smErrors.") {
			g.edge(n, d, in, name, cargs, sig, f)
		}
	}
	var as []*Term
	if slices.Contains(vectorKinds, recv) || slices.Contains(matrixKinds, recv) {
		as = s.nonEmpty(recv, args)
	}
	res := s.e.Run(fn, args, cfg, as)
	for _, x := range res.Problems {
		// registering a variable is followed all the same
		if !strings.Contains(x, "store through memory") {
			n.prob = x
		}
	}
}

func (g *callGraph) edge(n *opNode, d *Den, in *ssa.Function, name string, args []*Term, sig *types.Signature, f *Facts) {
	if !d.consistent(f) {
		return
	}
	type slot struct{ ks []string }
	var recv []string
	params := args
	if !strings.Contains(name, ".") {
		recv = g.kindsOf(d, args[0], f)
		params = args[1:]
	}
	var slots [][]string
	for i, a := range params {
		if i >= sig.Params().Len() || !types.IsInterface(sig.Params().At(i).Type()) {
			continue
		}
		slots = append(slots, g.kindsOf(d, a, f))
	}
	combos := []string{""}
	for i, ks := range slots {
		var nx []string
		for _, c := range combos {
			for _, k := range ks {
				if i > 0 {
					nx = append(nx, c+","+k)
				} else {
					nx = append(nx, k)
				}
			}
		}
		combos = nx
	}
	names := []string{name}
	if recv != nil {
		names = nil
		for _, r := range recv {
			names = append(names, r+"."+name)
		}
	}
	for _, nm := range names {
		if i := strings.Index(nm, "."); strings.HasPrefix(nm, "symbolic.") {
			nm = nm[i+1:]
		}
		for _, c := range combos {
			m := g.node(nm, c)
			e := n.edges[m.key()]
			if e == nil {
				e = &opEdge{to: m.key(), where: shortName(in), smaller: true}
				n.edges[m.key()] = e
			}
			e.smaller = e.smaller && m == n && smaller(d, args, n.args, f)
		}
	}
}

// smaller: a number that stays non-negative, or a list, has become smaller.
func smaller(d *Den, to, from []*Term, f *Facts) bool {
	T := d.T
	for i, a := range to {
		if i >= len(from) || a.typ == nil || from[i].typ == nil || !types.Identical(a.typ, from[i].typ) {
			continue
		}
		switch u := a.typ.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 && d.D.Decide(T.Lt(a, from[i]), f) == yes && d.D.Decide(T.Lt(a, T.Int(0)), f) == no {
				return true
			}
		case *types.Slice:
			if d.D.Decide(T.Lt(T.Len(a), T.Len(from[i])), f) == yes {
				return true
			}
		}
	}
	return false
}

// kindsOf lists the kinds a value may have; "?" when its type is open.
func (g *callGraph) kindsOf(d *Den, t *Term, f *Facts) []string {
	set := g.s.kinds.of(d, t, f)
	var out []string
	if set == nil {
		add := func(ks ...string) { out = append(out, ks...) }
		if t.typ != nil && !types.IsInterface(t.typ) {
			return []string{typeShort(t.typ)}
		}
		name := ""
		if t.typ != nil {
			name = typeShort(t.typ)
		}
		switch {
		case strings.Contains(name, "Scalar"):
			add(scalarKinds...)
		case strings.Contains(name, "Vector"):
			add(vectorKinds...)
		case strings.Contains(name, "Matrix"):
			add(matrixKinds...)
		case strings.Contains(name, "Expression"):
			add(scalarKinds...)
			add(vectorKinds...)
			add(matrixKinds...)
		default:
			return []string{"?"}
		}
		return out
	}
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (g *callGraph) sccs() [][]*opNode {
	var out [][]*opNode
	var stack []*opNode
	cnt := 0
	var visit func(n *opNode)
	visit = func(n *opNode) {
		cnt++
		n.idx, n.low, n.on = cnt, cnt, true
		stack = append(stack, n)
		for k := range n.edges {
			m := g.nodes[k]
			if m.idx == 0 {
				visit(m)
				n.low = min(n.low, m.low)
			} else if m.on {
				n.low = min(n.low, m.idx)
			}
		}
		if n.low == n.idx {
			var c []*opNode
			for {
				m := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				m.on = false
				m.scc = n.idx
				c = append(c, m)
				if m == n {
					break
				}
			}
			if e := n.edges[n.key()]; len(c) > 1 || e != nil && !e.smaller {
				out = append(out, c)
			}
		}
	}
	var ks []string
	for k := range g.nodes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if g.nodes[k].idx == 0 {
			visit(g.nodes[k])
		}
	}
	return out
}

func checkEnds(p *Program, r *Report) {
	s := NewSpec(p, r)
	s.kinds = &kindSets{s: s, memo: map[string]map[string]bool{}, busy: map[string]bool{}}
	r.Explain = "Every operation, for every combination of operand kinds, is evaluated symbolically with the operations it calls kept as calls; the calls that are reachable under the conditions gathered on the way, with the kinds their operands can have, form a graph over (operation, operand kinds). The graph must have no cycle, other than calls of the same operation with a non-negative number or list that has become smaller. Every loop must have a test, passed in every round, of a quantity that each round moves towards a bound fixed for the loop."
	r.Rule("recursion: no operation leads back to itself with operands of the same kinds")
	r.Rule("loop: every loop moves towards a fixed bound")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	g := &callGraph{s: s, nodes: map[string]*opNode{}, fns: map[string]*ssa.Function{}}
	for _, fn := range p.Funcs {
		if fn.Parent() == nil {
			g.fns[nodeName(fn)] = fn
		}
	}
	for _, x := range append(acceptRows(), s.otherRows()...) {
		g.node(x[0], x[1])
	}
	for _, fn := range p.Funcs {
		if fn.Parent() == nil && (fn.Name() == "String" || fn.Name() == "Error") && fn.Signature.Recv() != nil {
			g.node(nodeName(fn), "")
		}
	}
	for len(g.todo) > 0 {
		n := g.todo[0]
		g.todo = g.todo[1:]
		g.expand(n)
	}
	edges := 0
	var ks []string
	for k, n := range g.nodes {
		if n.fn != nil {
			ks = append(ks, k)
			edges += len(n.edges)
		}
	}
	sort.Strings(ks)
	cyc := g.sccs()
	in := map[*opNode]bool{}
	for _, c := range cyc {
		var path []string
		for _, n := range c {
			in[n] = true
		}
		// one cycle through the component
		n, seen := c[0], map[*opNode]bool{}
		for !seen[n] {
			seen[n] = true
			var es []string
			for k, m := range n.edges {
				if in[g.nodes[k]] && g.nodes[k].scc == n.scc && !m.smaller {
					es = append(es, k)
				}
			}
			if len(es) == 0 {
				break
			}
			sort.Strings(es)
			path = append(path, n.key()+" (in "+n.edges[es[0]].where+")")
			n = g.nodes[es[0]]
		}
		path = append(path, n.key())
		r.Bad("recursion", c[0].name, p.Pos(c[0].fn.Pos()), "never comes to an end: "+strings.Join(path, " -> "))
	}
	for _, k := range ks {
		if n := g.nodes[k]; n.prob != "" {
			r.Bad("analysis-complete", k, p.Pos(n.fn.Pos()), n.prob)
		} else if !in[n] {
			r.OK(k)
		}
	}
	loops := 0
	for _, fn := range p.Funcs {
		if fn.Name() == "init" {
			continue
		}
		for _, L := range s.e.forest(fn).loops {
			loops++
			pos := p.Pos(fn.Pos())
			for _, b := range L.order {
				for _, i := range b.Instrs {
					if i.Pos().IsValid() {
						pos = p.Pos(i.Pos())
						break
					}
				}
				if pos != p.Pos(fn.Pos()) {
					break
				}
			}
			if w := (&ranker{L: L}).ends(); w != "" {
				r.Bad("loop", shortName(fn), pos, w)
			} else {
				r.OK("loop at " + pos)
			}
		}
	}
	r.Counts["operations on operand kinds"] = len(ks)
	r.Counts["calls between them"] = edges
	r.Counts["loops"] = loops
	r.Min("operations on operand kinds", len(ks), 1200)
	r.Min("loops", loops, 100)
}

func nodeName(fn *ssa.Function) string {
	if rv := fn.Signature.Recv(); rv != nil {
		return typeShort(rv.Type()) + "." + fn.Name()
	}
	if pkgOf(fn).Pkg.Name() == "symbolic" {
		return fn.Name()
	}
	return pkgOf(fn).Pkg.Name() + "." + fn.Name()
}

// prints: what the formatting functions call on the values they are given,
// unless the value is a component of the operand.
func (g *callGraph) prints(n *opNode) {
	for _, b := range n.fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" || len(c.Call.Args) == 0 {
				continue
			}
			verbs := formatVerbs(f, c.Call.Args)
			sl, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.Slice)
			if !ok {
				continue
			}
			for _, ref := range *sl.X.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, _ := intConst(ia.Index)
				if verbs != nil && (int(i) >= len(verbs) || !strings.ContainsRune("vsq", rune(verbs[i]))) {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					st, ok := r2.(*ssa.Store)
					if !ok {
						continue
					}
					mi, ok := st.Val.(*ssa.MakeInterface)
					if !ok || component(mi.X) {
						continue
					}
					for t := mi.X.Type(); t != nil; {
						to := ""
						for _, m := range []string{"Error", "String"} {
							if types.NewMethodSet(t).Lookup(nil, m) != nil && to == "" {
								to = typeShort(t) + "." + m
							}
						}
						if to != "" {
							x := g.node(to, "")
							n.edges[x.key()] = &opEdge{to: x.key(), where: g.s.p.Pos(c.Pos())}
							break
						}
						switch u := t.Underlying().(type) {
						case *types.Slice:
							t = u.Elem()
						case *types.Pointer:
							t = u.Elem()
						case *types.Array:
							t = u.Elem()
						default:
							t = nil
						}
					}
				}
			}
		}
	}
}

// component: a strict part of an operand.
func component(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Field, *ssa.Index, *ssa.Lookup:
			return true
		case *ssa.Extract:
			_, ok := x.Tuple.(*ssa.Next)
			return ok
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return true
			default:
				v = a
			}
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.Alloc:
			var only ssa.Value
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if only != nil {
						return false
					}
					only = st.Val
				}
			}
			if only == nil {
				return false
			}
			v = only
		default:
			return false
		}
	}
}

// formatVerbs: the verb of each operand; nil when every operand is printed.
func formatVerbs(f *ssa.Function, args []ssa.Value) []byte {
	if !strings.HasSuffix(f.Name(), "f") {
		return nil
	}
	for _, a := range args {
		c, ok := a.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			continue
		}
		s := constant.StringVal(c.Value)
		out := []byte{}
		for i := 0; i < len(s); i++ {
			if s[i] != '%' {
				continue
			}
			for i++; i < len(s) && strings.IndexByte("+-# 0123456789.[]", s[i]) >= 0; i++ {
			}
			if i < len(s) && s[i] != '%' {
				out = append(out, s[i])
			}
		}
		return out
	}
	return nil
}
