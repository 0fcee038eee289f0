package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// C17: new variables are new, well-defined and registered in their environment.

func init() { checks["C17"] = checkNewVariables }

type envs struct {
	s        *Spec
	registry *Term // entries of the registry before the call
	own      *Term // pointer to the environment
	obj      int
}

func (v *envs) envType() types.Type { return v.s.p.KindType("BasicEnvironment") }

// config: the environment is an object of its own with any entries.
func (v *envs) config(name string, opaque map[string]bool, global bool) *Config {
	s, T := v.s, v.s.T
	c := s.config(opaque, s.fn(name))
	et := v.envType()
	st := et.Underlying().(*types.Struct)
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := T.Sym("env."+st.Field(i).Name(), st.Field(i).Type())
		if st.Field(i).Name() == "Variables" {
			v.registry = f
		}
		fs = append(fs, f)
	}
	s.e.nobj++
	v.obj = s.e.nobj
	s.e.otyp[v.obj] = et
	v.own = T.mk(Term{op: "own", name: "env", n: v.obj})
	c.Init = func(m *State) { m.mem[v.obj] = T.Struct(et, fs) }
	if global {
		c.Globals = map[string]*Term{"DefaultEnvironment": v.own}
	}
	return c
}

// nameField: the field of the environment that holds its name.
func (v *envs) nameField() string {
	st := v.envType().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Typ[types.String]) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// constant: the value of a package constant.
func (s *Spec) constant(name, kind string, sign int64) *Term {
	c, ok := s.p.Sym.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return s.T.Opaque("constant " + name)
	}
	t := c.Type()
	v := c.Val()
	if kind != "" {
		t = types.Typ[types.Float64]
		v = constant.ToFloat(v)
	}
	if sign < 0 {
		v = constant.UnaryOp(token.SUB, v, 0)
	}
	return s.T.Const(v, t)
}

func (v *envs) iface() *Term { return v.s.T.Iface(v.own, types.NewPointer(v.envType())) }

// above: the integer t is larger than the identifier of entry k of the registry.
func (v *envs) above(t, k *Term, f *Facts) bool {
	s, T := v.s, v.s.T
	id := v.id(k)
	t = s.norm(t, f)
	if t.op == "choice" {
		for i := 0; i+1 < len(t.args); i += 2 {
			if g, ok := s.assume(f, t.args[i]); ok && !v.above(t.args[i+1], k, g) {
				return false
			}
		}
		return true
	}
	if s.implied(T.Lt(id, t), f) {
		return true
	}
	// a running value over the registry that never falls and passes each entry
	m, c := T.linParts(t)
	if len(m) != 1 {
		return false
	}
	for x, n := range m {
		if n != 1 {
			return false
		}
		var body *Term
		a := T.Sym("running", types.Typ[types.Int])
		switch {
		case x.op == "fold" && x.args[0] == T.Len(v.registry):
			body = T.open(x.args[2], k, a)
		case x.op == "maxf" && x.args[0] == T.Len(v.registry):
			body = T.open(x.args[2], k)
			return s.implied(T.Lt(id, T.Add(body, T.Int(c), 1)), f)
		default:
			return false
		}
		holds := func(g *Facts, b *Term) bool {
			return s.refuted(T.Lt(b, a), g) && s.implied(T.Lt(id, T.Add(b, T.Int(c), 1)), g)
		}
		body = s.norm(body, f)
		if body.op != "choice" {
			return holds(f, body)
		}
		for i := 0; i+1 < len(body.args); i += 2 {
			if g, ok := s.assume(f, body.args[i]); ok && !holds(g, s.norm(body.args[i+1], g)) {
				return false
			}
		}
	}
	return true
}

func (v *envs) id(k *Term) *Term {
	vt := v.s.p.KindType("Variable")
	return v.field(v.s.T.Elem(v.registry, k, vt), "ID")
}

func (v *envs) field(x *Term, name string) *Term {
	vt := v.s.p.KindType("Variable")
	return v.s.T.Field(x, fieldIndex(vt, name), vt)
}

// after: the registry when the call returns.
func (v *envs) after(rt Ret, f *Facts) *Term {
	c := v.s.e.freeze(rt.Mem[v.obj], &State{mem: rt.Mem})
	et := v.envType()
	return v.s.norm(v.s.T.Field(c, fieldIndex(et, "Variables"), et), f)
}

// extended: the list is the registry followed by x.
func (v *envs) extended(l, x *Term, f *Facts) bool {
	s, T := v.s, v.s.T
	vt := s.p.KindType("Variable")
	n := T.Len(v.registry)
	if !s.implied(T.EqInt(T.Len(l), T.Add(n, T.Int(1), 1)), f) {
		return false
	}
	k := s.k()
	g, ok := s.assume(f, T.Lt(T.Int(-1), k), T.Lt(k, n))
	if !ok {
		return false
	}
	old := s.norm(NewDen(s.e).elem(l, k, vt, g), g)
	last := s.norm(NewDen(s.e).elem(l, n, vt, f), f)
	return s.same(old, T.Elem(v.registry, k, vt), vt, g) == "" && s.same(last, x, vt, f) == ""
}

func (v *envs) has(id *Term) *Term {
	s, T := v.s, v.s.T
	k := s.k()
	return T.Exists(T.Len(v.registry), k, T.EqInt(v.id(k), id))
}

func checkNewVariables(p *Program, r *Report) {
	r.Explain = "the constructors of variables and the registry evaluated on an environment with any registered variables: identifier against every registered one, fields, registry afterwards; entries of vectors and matrices of variables traced to one creation each"
	r.Rule("fresh: the identifier of a new variable differs from that of every variable registered in its environment")
	r.Rule("registered: afterwards the registry of the environment is the old one followed by the new variable")
	r.Rule("fields: bounds, type, name and environment of a new variable are those of its sort")
	r.Rule("entries: a new vector or matrix has the requested size and every entry is created on its own in the requested environment")
	r.Rule("registry: TrackVariable adds a variable exactly if its identifier is not registered and says so; AllTrackedVariables lists the registry; a new environment has none")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	s := NewSpec(p, r)
	n := 0
	for _, given := range []bool{true, false} {
		for _, name := range []string{"NewVariable", "NewContinuousVariable", "NewBinaryVariable"} {
			n++
			checkNewVariable(s, name, given)
		}
		for _, name := range []string{"NewVariableVector", "NewVariableMatrix", "NewVariableMatrixClassic"} {
			n++
			checkNewVariableList(s, name, given)
		}
	}
	n += checkRegistry(s)
	r.Min("constructor obligations", n, 16)
}

func (v *envs) run(name string, given bool, opaque map[string]bool, mk func(a []*Term) []*Term) (*Result, []*Term) {
	s := v.s
	fn := s.fn(name)
	if fn == nil {
		s.r.Bad("analysis-complete", name, "-", "the operation no longer exists")
		return nil, nil
	}
	c := v.config(name, opaque, !given)
	c.Stamp = opaque
	args := s.e.SymArgs(fn, nil)
	if n := len(args); n > 0 && fn.Signature.Variadic() {
		args[n-1] = s.T.Lit(nil)
		if given {
			args[n-1] = s.T.Lit([]*Term{v.iface()})
		}
	} else if fn.Signature.Recv() != nil {
		args[0] = v.own
	}
	var assume []*Term
	if mk != nil {
		assume = mk(args)
	}
	res := s.e.Run(fn, args, c, assume)
	if len(res.Problems) > 0 {
		s.r.Bad("analysis-complete", name, s.p.Pos(fn.Pos()), "the value analysis of this operation is incomplete: "+strings.Join(res.Problems, "; "))
	}
	return res, args
}

func where(given bool) string {
	if given {
		return " in a given environment"
	}
	return " in the default environment"
}

func checkNewVariable(s *Spec, name string, given bool) {
	s.fresh()
	T := s.T
	v := &envs{s: s}
	res, _ := v.run(name, given, nil, nil)
	if res == nil {
		return
	}
	lab := name + where(given)
	bad := map[string]string{}
	if len(res.Rets) == 0 {
		bad["fields"] = "the operation returns no variable"
	}
	lower, upper, typ := T.Float(0), T.Float(1), s.constant("Binary", "", 1)
	if name != "NewBinaryVariable" {
		lower, upper, typ = s.constant("Infinity", "float64", -1), s.constant("Infinity", "float64", 1), s.constant("Continuous", "", 1)
	}
	vt := s.p.KindType("Variable")
	for _, rt := range res.Rets {
		x, f := rt.Vals[0], rt.Facts
		id := s.norm(v.field(x, "ID"), f)
		k := s.k()
		g, ok := s.assume(f, T.Lt(T.Int(-1), k), T.Lt(k, T.Len(v.registry)))
		if !ok {
			continue
		}
		if !v.above(id, k, g) && !s.refuted(T.EqInt(v.id(k), id), g) && !s.refuted(v.has(id), f) {
			bad["fresh"] = "a registered variable can have the identifier of the new one"
			continue
		}
		h := f.clone()
		if !s.d.Assume(v.has(id), false, h) {
			continue
		}
		if !v.extended(v.after(rt, h), x, h) {
			bad["registered"] = "the registry afterwards is not the old one followed by the new variable"
		}
		for fld, want := range map[string]*Term{"Lower": lower, "Upper": upper, "Type": typ, "Environment": v.iface()} {
			ft := vt.Underlying().(*types.Struct).Field(fieldIndex(vt, fld)).Type()
			if d := s.same(v.field(x, fld), want, ft, h); d != "" {
				bad["fields"] = fld + ": " + d
			}
		}
		if nm := v.field(x, "Name"); !contains(nm, id) {
			bad["fields"] = "the name does not tell the variables of an environment apart"
		}
	}
	for _, rule := range []string{"fresh", "registered", "fields"} {
		if bad[rule] != "" {
			s.r.Bad(rule, lab, s.where(name), bad[rule])
		} else {
			s.r.OK(rule + " " + lab)
		}
	}
}

var creators = names("symbolic.NewVariable symbolic.NewContinuousVariable")

func checkNewVariableList(s *Spec, name string, given bool) {
	s.fresh()
	T := s.T
	v := &envs{s: s}
	matrix := name != "NewVariableVector"
	res, args := v.run(name, given, creators, func(a []*Term) []*Term {
		out := []*Term{T.Lt(T.Int(0), a[0])}
		if matrix {
			out = append(out, T.Lt(T.Int(0), a[1]))
		}
		return out
	})
	if res == nil {
		return
	}
	lab := name + where(given)
	bad := ""
	if len(res.Rets) == 0 {
		bad = "the operation returns no result"
	}
	vt := s.p.KindType("Variable")
	for _, rt := range res.Rets {
		l, f := rt.Vals[0], rt.Facts
		i, j := s.k(), s.k()
		if !s.implied(T.EqInt(T.Len(l), args[0]), f) {
			bad = "the number of entries is not the requested one: " + clip(T.Len(l).String())
			continue
		}
		g, ok := s.assume(f, T.Lt(T.Int(-1), i), T.Lt(i, args[0]))
		if !ok {
			continue
		}
		d := NewDen(s.e)
		x := d.elem(l, i, vt, g)
		idx := []*Term{i}
		if matrix {
			row := s.norm(d.elem(l, i, types.NewSlice(vt), g), g)
			if !s.implied(T.EqInt(T.Len(row), args[1]), g) {
				bad = "the number of columns is not the requested one: " + clip(T.Len(row).String())
				continue
			}
			if g, ok = s.assume(g, T.Lt(T.Int(-1), j), T.Lt(j, args[1])); !ok {
				continue
			}
			x = d.elem(row, j, vt, g)
			idx = append(idx, j)
		}
		x = s.norm(x, g)
		if why := v.created(x, idx, g); why != "" {
			bad = why
		}
	}
	if bad != "" {
		s.r.Bad("entries", lab, s.where(name), bad)
	} else {
		s.r.OK("entries " + lab)
	}
}

// created: x is the result of a creation of its own for every index.
func (v *envs) created(x *Term, idx []*Term, f *Facts) string {
	s, T := v.s, v.s.T
	if x.op == "choice" {
		sites := map[*Term]bool{}
		for i := 0; i+1 < len(x.args); i += 2 {
			g, ok := s.assume(f, x.args[i])
			if !ok {
				continue
			}
			y := s.norm(x.args[i+1], g)
			if why := v.created(y, idx, g); why != "" {
				return why
			}
			if y.op == "call" {
				site := y.args[1].args[len(y.args[1].args)-1]
				if sites[site] {
					return "different entries can be the same creation"
				}
				sites[site] = true
			}
		}
		return ""
	}
	if x.op != "call" || !creators[x.name] || len(x.args) != 2 || x.args[1].op != "at" {
		return "an entry is not a newly created variable: " + clip(x.String())
	}
	if n, ok := T.Len(x.args[0]).isInt(); !ok || n != 1 {
		return "an entry is not created in the requested environment"
	}
	it := types.NewPointer(v.envType())
	if e := s.norm(T.Elem(x.args[0], T.Int(0), it), f); e != v.iface() {
		return "an entry is created in another environment: " + clip(e.String())
	}
	for _, k := range idx {
		own := false
		for _, a := range x.args[1].args {
			if d, ok := T.Add(a, k, -1).isInt(); ok || a == k {
				_ = d
				own = true
			}
			// positions fixed by the facts
			if s.implied(T.EqInt(a, k), f) {
				own = true
			}
		}
		if !own && !fixed(s, k, f) {
			return "different entries can be the same creation"
		}
	}
	return ""
}

// fixed: the facts leave one value for k.
func fixed(s *Spec, k *Term, f *Facts) bool {
	for n := int64(0); n < 3; n++ {
		if s.implied(s.T.EqInt(k, s.T.Int(n)), f) {
			return true
		}
	}
	return false
}

func checkRegistry(s *Spec) int {
	vs := types.NewSlice(s.p.KindType("Variable"))
	env := "BasicEnvironment."
	run := func(name string, chk func(v *envs, rt Ret, args []*Term) string) {
		s.fresh()
		v := &envs{s: s}
		res, args := v.run(name, true, nil, nil)
		if res == nil {
			return
		}
		bad := ""
		if len(res.Rets) == 0 {
			bad = "the operation never returns"
		}
		for _, rt := range res.Rets {
			if b := chk(v, rt, args); b != "" {
				bad = b
			}
		}
		if bad != "" {
			s.r.Bad("registry", name, s.where(name), bad)
		} else {
			s.r.OK(name)
		}
	}
	run(env+"TrackVariable", func(v *envs, rt Ret, args []*Term) string {
		in := v.has(v.field(args[1], "ID"))
		for _, known := range []bool{true, false} {
			f := rt.Facts.clone()
			if !s.d.Assume(in, known, f) {
				continue
			}
			l := v.after(rt, f)
			if known {
				if !s.refuted(rt.Vals[0], f) {
					return "a variable that is registered already is reported as added"
				}
				if s.same(l, v.registry, vs, f) != "" {
					return "a variable that is registered already changes the registry"
				}
				continue
			}
			if !s.implied(rt.Vals[0], f) {
				return "a variable that is not registered is reported as present"
			}
			if !v.extended(l, args[1], f) {
				return "a variable that is not registered is not appended to the registry"
			}
		}
		return ""
	})
	run(env+"AllTrackedVariables", func(v *envs, rt Ret, args []*Term) string {
		return s.same(rt.Vals[0], v.registry, vs, rt.Facts)
	})
	run(env+"GetName", func(v *envs, rt Ret, args []*Term) string {
		return s.same(rt.Vals[0], s.T.Sym("env."+v.nameField(), types.Typ[types.String]), types.Typ[types.String], rt.Facts)
	})
	run("MakeBasicEnvironment", func(v *envs, rt Ret, args []*Term) string {
		et := v.envType()
		if !s.implied(s.T.EqInt(s.T.Len(s.T.Field(rt.Vals[0], fieldIndex(et, "Variables"), et)), s.T.Int(0)), rt.Facts) {
			return "a new environment has registered variables"
		}
		return s.same(s.T.Field(rt.Vals[0], fieldIndex(et, v.nameField()), et), args[0], types.Typ[types.String], rt.Facts)
	})
	return 4
}
