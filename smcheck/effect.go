package main

// Interprocedural effect and alias analysis.
//
// For every function it computes which memory reachable from its parameters
// (or from package variables) it may write, and what its results may alias.
// Locals are tracked flow-sensitively with strong updates; memory reachable
// from parameters is named by (parameter, access path).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loc struct {
	key   string
	kind  byte // 'P' parameter region, 'G' global region, 'E' environment registry, 'A' fresh object
	root  int
	path  string
	fresh bool
	pos   token.Pos
}

type Ref struct {
	L   *Loc
	sub string
}

type RefSet map[Ref]bool
type Val map[string]RefSet

func (v Val) add(k string, r Ref) bool {
	s := v[k]
	if s == nil {
		s = RefSet{}
		v[k] = s
	}
	if s[r] {
		return false
	}
	s[r] = true
	return true
}

func (v Val) join(o Val) bool {
	ch := false
	for k, s := range o {
		for r := range s {
			if v.add(k, r) {
				ch = true
			}
		}
	}
	return ch
}

func (v Val) project(prefix string) Val {
	out := Val{}
	for k, s := range v {
		if strings.HasPrefix(k, prefix) {
			for r := range s {
				out.add(k[len(prefix):], r)
			}
		}
	}
	return out
}

func (v Val) prefixed(p string) Val {
	out := Val{}
	for k, s := range v {
		for r := range s {
			out.add(p+k, r)
		}
	}
	return out
}

func (v Val) root() RefSet { return v[""] }

// Effect is a write to non-fresh memory.
type Effect struct {
	kind byte // 'P','G','E'
	root int
	path string
	pos  token.Pos
	via  string // call chain, for the report
	what string
	org  string // function containing the write
}

func (e Effect) key() string { return fmt.Sprintf("%c%d|%s", e.kind, e.root, e.path) }

type Summary struct {
	fn      *ssa.Function
	effects map[string]Effect
	stores  map[string]map[string]Val // effect key -> subkey -> value stored
	ret     Val                       // "#i" prefixed when multiple results
	mem     map[*Loc]Val              // contents of fresh objects reachable from ret/stores
	sig     string
}

type Effects struct {
	p     *Program
	locs  map[string]*Loc
	sums  map[*ssa.Function]*Summary
	impls map[string][]*ssa.Function
	envT  *types.Interface
	names []*types.Named
	Stats map[string]int
}

func NewEffects(p *Program) *Effects {
	e := &Effects{p: p, locs: map[string]*Loc{}, sums: map[*ssa.Function]*Summary{}, impls: map[string][]*ssa.Function{}, Stats: map[string]int{}}
	if t := p.Sym.Type("Environment"); t != nil {
		e.envT, _ = t.Type().Underlying().(*types.Interface)
	}
	for _, sp := range p.SSAPkgs {
		var ms []string
		for n := range sp.Members {
			ms = append(ms, n)
		}
		sort.Strings(ms)
		for _, n := range ms {
			if t, ok := sp.Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok {
					e.names = append(e.names, nt)
				}
			}
		}
	}
	return e
}

func (e *Effects) loc(kind byte, root int, path string, site string, pos token.Pos) *Loc {
	if len(path) > 400 {
		path = path[:400]
	}
	key := fmt.Sprintf("%c%d|%s|%s", kind, root, path, site)
	l := e.locs[key]
	if l == nil {
		l = &Loc{key: key, kind: kind, root: root, path: path, fresh: kind == 'A', pos: pos}
		e.locs[key] = l
	}
	return l
}

func (e *Effects) env() *Loc { return e.loc('E', 0, "", "", token.NoPos) }

func (e *Effects) isEnv(t types.Type) bool {
	if e.envT == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return types.Identical(t.Underlying(), e.envT)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return types.Implements(pt, e.envT)
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// leaves lists the reference-typed leaves of a value of type t.
func (e *Effects) leaves(t types.Type, prefix string, depth int, f func(path string, t types.Type)) {
	if isErrorType(t) || depth > 8 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.leaves(u.Field(i).Type(), prefix+"."+u.Field(i).Name(), depth+1, f)
		}
	case *types.Array:
		e.leaves(u.Elem(), prefix+"[]", depth+1, f)
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		f(prefix, t)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			e.leaves(u.At(i).Type(), fmt.Sprintf("%s#%d", prefix, i), depth+1, f)
		}
	}
}

// expand names every reference inside a value of type t found at a symbolic path.
func (e *Effects) expand(t types.Type, kind byte, root int, path string) Val {
	v := Val{}
	e.leaves(t, "", 0, func(lp string, lt types.Type) {
		if kind == 'E' || e.isEnv(lt) {
			v.add(lp, Ref{e.env(), ""})
			return
		}
		v.add(lp, Ref{e.loc(kind, root, path+lp, "", token.NoPos), ""})
	})
	return v
}

type fnState struct {
	e        *Effects
	fn       *ssa.Function
	sum      *Summary
	regs     map[ssa.Value]Val
	mem      map[*Loc]Val // current block state
	changed  bool
	escaping map[*ssa.Alloc]bool
	blockOf  map[*ssa.BasicBlock]map[*Loc]Val
	org      string // origin of the effect being instantiated
}

func (s *fnState) val(x ssa.Value) Val {
	switch x := x.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return Val{}
	case *ssa.Global:
		if s.e.isEnv(x.Type()) {
			return Val{"": RefSet{Ref{s.e.env(), ""}: true}}
		}
		return Val{"": RefSet{Ref{s.e.loc('G', 0, x.RelString(nil), "", x.Pos()), ""}: true}}
	}
	if v, ok := s.regs[x]; ok {
		return v
	}
	return Val{}
}

func (s *fnState) set(x ssa.Value, v Val) {
	old := s.regs[x]
	if old == nil {
		old = Val{}
		s.regs[x] = old
		s.changed = true
	}
	if old.join(v) {
		s.changed = true
	}
}

func (s *fnState) load(refs RefSet, seg string, t types.Type) Val {
	out := Val{}
	for r := range refs {
		switch r.L.kind {
		case 'A':
			out.join(s.mem[r.L].project(r.sub + seg))
		case 'E':
			out.join(s.e.expand(t, 'E', 0, ""))
		default:
			out.join(s.e.expand(t, r.L.kind, r.L.root, r.L.path+"->"+r.sub+seg))
		}
	}
	return out
}

func (s *fnState) effect(r Ref, seg string, pos token.Pos, via, what string, v Val) {
	var e Effect
	switch r.L.kind {
	case 'E':
		e = Effect{kind: 'E', pos: pos, via: via, what: what}
	default:
		e = Effect{kind: r.L.kind, root: r.L.root, path: r.L.path + "->" + r.sub + seg, pos: pos, via: via, what: what}
	}
	if via == "" {
		e.org = shortName(s.fn)
	} else {
		e.org = s.org
	}
	k := e.key()
	if old, ok := s.sum.effects[k]; !ok || (len(e.via) < len(old.via)) {
		if !ok {
			s.changed = true
		}
		s.sum.effects[k] = e
	}
	if r.L.kind != 'E' && len(v) > 0 {
		if s.sum.stores[k] == nil {
			s.sum.stores[k] = map[string]Val{"": {}}
		}
		if s.sum.stores[k][""].join(v) {
			s.changed = true
		}
	}
}

func (s *fnState) store(refs RefSet, seg string, v Val, pos token.Pos, via, what string, strongOK bool) {
	strong := strongOK && len(refs) == 1
	for r := range refs {
		full := r.sub + seg
		if r.L.kind == 'A' {
			m := s.mem[r.L]
			if strong && r.L.fresh && !strings.Contains(full, "[]") && !strings.Contains(full, "{}") && s.strongable(r.L) {
				n := Val{}
				for k, rs := range m {
					if !strings.HasPrefix(k, full) {
						n[k] = rs
					}
				}
				n = cloneVal(n)
				n.join(v.prefixed(full))
				s.mem[r.L] = n
			} else {
				n := cloneVal(m)
				n.join(v.prefixed(full))
				s.mem[r.L] = n
			}
			continue
		}
		s.effect(r, seg, pos, via, what, v)
	}
}

func cloneVal(v Val) Val {
	o := Val{}
	for k, s := range v {
		n := RefSet{}
		for r := range s {
			n[r] = true
		}
		o[k] = n
	}
	return o
}

func (s *fnState) strongable(l *Loc) bool { return strings.HasPrefix(l.path, "local:") }

func (s *fnState) fresh(in ssa.Instruction, tag string) *Loc {
	v, _ := in.(ssa.Value)
	nm := ""
	if v != nil {
		nm = v.Name()
	}
	return s.e.loc('A', 0, tag, fmt.Sprintf("%s#%d:%s:%d", s.fn.RelString(nil), in.Block().Index, nm, indexIn(in)), in.Pos())
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// allocEscapes: the address is used other than to load, store or index it.
func allocEscapes(a ssa.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == a {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if allocEscapes(r, depth+1) {
				return true
			}
		case *ssa.IndexAddr:
			if allocEscapes(r, depth+1) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (e *Effects) analyze(fn *ssa.Function) *Summary {
	s := &fnState{e: e, fn: fn, regs: map[ssa.Value]Val{}, sum: &Summary{fn: fn, effects: map[string]Effect{}, stores: map[string]map[string]Val{}, ret: Val{}, mem: map[*Loc]Val{}}, blockOf: map[*ssa.BasicBlock]map[*Loc]Val{}}
	for i, p := range fn.Params {
		if e.isEnv(p.Type()) {
			s.regs[p] = Val{"": RefSet{Ref{e.env(), ""}: true}}
		} else {
			s.regs[p] = e.expand(p.Type(), 'P', i, "")
		}
	}
	for i, p := range fn.FreeVars {
		s.regs[p] = e.expand(p.Type(), 'P', len(fn.Params)+i, "")
	}
	s.blockOf[fn.Blocks[0]] = map[*Loc]Val{}
	for iter := 0; iter < 60; iter++ {
		s.changed = false
		for _, b := range fn.DomPreorder() {
			in := s.blockOf[b]
			if in == nil {
				continue
			}
			s.mem = map[*Loc]Val{}
			for k, v := range in {
				s.mem[k] = v
			}
			for _, instr := range b.Instrs {
				s.instr(instr)
			}
			for _, succ := range b.Succs {
				t := s.blockOf[succ]
				if t == nil {
					t = map[*Loc]Val{}
					s.blockOf[succ] = t
					s.changed = true
				}
				for k, v := range s.mem {
					if t[k] == nil {
						t[k] = cloneVal(v)
						s.changed = true
					} else {
						n := cloneVal(t[k])
						if n.join(v) {
							t[k] = n
							s.changed = true
						}
					}
				}
			}
		}
		if !s.changed {
			break
		}
	}
	s.sum.sig = s.sum.signature()
	return s.sum
}

func (m *Summary) signature() string {
	var parts []string
	for k := range m.effects {
		parts = append(parts, "E"+k)
	}
	dump := func(tag string, v Val) {
		for k, s := range v {
			for r := range s {
				parts = append(parts, tag+k+"="+r.L.key+"/"+r.sub)
			}
		}
	}
	dump("R", m.ret)
	for l, v := range m.mem {
		dump("M"+l.key, v)
	}
	for k, sv := range m.stores {
		for k2, v := range sv {
			dump("S"+k+k2, v)
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

func (s *fnState) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		tag := "local:"
		if allocEscapes(x, 0) && inLoop(x.Block()) {
			tag = "weak:"
		}
		l := s.fresh(x, tag+typeShort(x.Type()))
		if tag == "local:" || s.mem[l] == nil {
			s.mem[l] = Val{}
		}
		s.set(x, Val{"": RefSet{Ref{l, ""}: true}})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		l := s.fresh(in, "obj:"+typeShort(in.(ssa.Value).Type()))
		if s.mem[l] == nil {
			s.mem[l] = Val{}
		}
		s.set(in.(ssa.Value), Val{"": RefSet{Ref{l, ""}: true}})
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		s.set(x, s.addSub(s.val(x.X), "."+st.Field(x.Field).Name()))
	case *ssa.IndexAddr:
		s.set(x, s.addSub(s.val(x.X), "[]"))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.set(x, s.load(s.val(x.X).root(), "", x.Type()))
		} else {
			s.set(x, Val{})
		}
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		s.set(x, s.val(x.X).project("."+st.Field(x.Field).Name()))
	case *ssa.Index:
		s.set(x, s.val(x.X).project("[]"))
	case *ssa.Lookup:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			s.set(x, Val{})
			return
		}
		v := s.load(s.val(x.X).root(), "{}", mt.Elem())
		if x.CommaOk {
			v = v.prefixed("#0")
		}
		s.set(x, v)
	case *ssa.Extract:
		s.set(x, s.val(x.Tuple).project(fmt.Sprintf("#%d", x.Index)))
	case *ssa.MakeInterface:
		if isErrorType(x.Type()) {
			s.set(x, Val{})
			return
		}
		if s.e.isEnv(x.X.Type()) {
			s.set(x, Val{"": RefSet{Ref{s.e.env(), ""}: true}})
			return
		}
		s.set(x, s.val(x.X).prefixed("«"+typeShort(x.X.Type())+"»"))
	case *ssa.ChangeInterface:
		s.set(x, s.val(x.X))
	case *ssa.TypeAssert:
		v := s.assert(s.val(x.X), x.AssertedType)
		if x.CommaOk {
			v = v.prefixed("#0")
		}
		s.set(x, v)
	case *ssa.ChangeType:
		s.set(x, s.val(x.X))
	case *ssa.Convert:
		_, a := x.X.Type().Underlying().(*types.Basic)
		if a {
			if _, b := x.Type().Underlying().(*types.Slice); b {
				l := s.fresh(in, "obj:conv")
				s.set(x, Val{"": RefSet{Ref{l, ""}: true}})
				return
			}
		}
		if _, b := x.Type().Underlying().(*types.Basic); b {
			s.set(x, Val{})
			return
		}
		s.set(x, s.val(x.X))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		s.set(in.(ssa.Value), s.val(*in.Operands(nil)[0]))
	case *ssa.Slice:
		s.set(x, s.val(x.X))
	case *ssa.Phi:
		v := Val{}
		for _, ed := range x.Edges {
			v.join(s.val(ed))
		}
		s.set(x, v)
	case *ssa.Store:
		s.store(s.val(x.Addr).root(), "", s.val(x.Val), x.Pos(), "", "assignment", true)
	case *ssa.MapUpdate:
		s.store(s.val(x.Map).root(), "{}", s.val(x.Value), x.Pos(), "", "map update", false)
		s.store(s.val(x.Map).root(), "{k}", s.val(x.Key), x.Pos(), "", "map update", false)
	case *ssa.Range:
		s.set(x, s.val(x.X))
	case *ssa.Next:
		if x.IsString {
			s.set(x, Val{})
			return
		}
		rg := x.Iter.(*ssa.Range)
		mt, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			s.set(x, Val{})
			return
		}
		v := s.load(s.val(x.Iter).root(), "{k}", mt.Key()).prefixed("#1")
		v.join(s.load(s.val(x.Iter).root(), "{}", mt.Elem()).prefixed("#2"))
		s.set(x, v)
	case *ssa.Return:
		for i, r := range x.Results {
			v := s.val(r)
			if len(x.Results) > 1 {
				v = v.prefixed(fmt.Sprintf("#%d", i))
			}
			if s.sum.ret.join(v) {
				s.changed = true
			}
		}
		// memory visible to the caller
		reach := map[*Loc]bool{}
		var mark func(v Val)
		mark = func(v Val) {
			for _, rs := range v {
				for q := range rs {
					if q.L.kind == 'A' && !reach[q.L] {
						reach[q.L] = true
						mark(s.mem[q.L])
					}
				}
			}
		}
		mark(s.sum.ret)
		for _, sv := range s.sum.stores {
			mark(sv[""])
		}
		for l, v := range s.mem {
			if !reach[l] {
				continue
			}
			if s.sum.mem[l] == nil {
				s.sum.mem[l] = Val{}
			}
			if s.sum.mem[l].join(v) {
				s.changed = true
			}
		}
	case *ssa.Call:
		s.set(x, s.call(x, &x.Call))
	case *ssa.Defer:
		s.call(x, &x.Call)
	case *ssa.Go:
		s.call(x, &x.Call)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]Val, len(fn.Params))
		for i := range args {
			args[i] = Val{}
		}
		for _, b := range x.Bindings {
			args = append(args, s.val(b))
		}
		v := s.apply(x, fn, args, "closure")
		l := s.fresh(in, "closure")
		s.mem[l] = v.prefixed("ret")
		s.set(x, Val{"": RefSet{Ref{l, ""}: true}})
	case *ssa.Select, *ssa.Send:
	}
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func (s *fnState) addSub(v Val, seg string) Val {
	out := Val{}
	for r := range v.root() {
		if r.L.kind == 'E' {
			out.add("", r)
			continue
		}
		out.add("", Ref{r.L, r.sub + seg})
	}
	return out
}

func (s *fnState) assert(v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	if s.e.isEnv(t) {
		return Val{"": RefSet{Ref{s.e.env(), ""}: true}}
	}
	tag := "«" + typeShort(t) + "»"
	out := v.project(tag)
	for r := range v.root() { // symbolic interface value
		switch r.L.kind {
		case 'A':
		case 'E':
			out.join(s.e.expand(t, 'E', 0, ""))
		default:
			out.join(s.e.expand(t, r.L.kind, r.L.root, r.L.path+tag))
		}
	}
	return out
}

func (s *fnState) call(in ssa.Instruction, c *ssa.CallCommon) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return s.builtin(in, b, c.Args)
	}
	if c.IsInvoke() {
		out := Val{}
		recv := s.val(c.Value)
		targets := s.e.targets(c.Value.Type(), c.Method)
		for _, t := range targets {
			args := []Val{s.recvFor(recv, t)}
			for _, a := range c.Args {
				args = append(args, s.val(a))
			}
			out.join(s.apply(in, t, args, shortName(t)))
		}
		if len(targets) == 0 {
			s.e.Stats["external-invoke"]++
		}
		return out
	}
	fn := c.StaticCallee()
	if fn == nil {
		// call of a function value: closures created in this function
		out := Val{}
		for r := range s.val(c.Value).root() {
			if r.L.kind == 'A' {
				out.join(s.mem[r.L].project("ret"))
			}
		}
		return out
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, s.val(a))
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			args = append(args, s.val(b))
		}
	}
	if s.e.p.Our(fn) {
		return s.apply(in, fn, args, shortName(fn))
	}
	// synthetic wrapper / instantiation with body in our packages
	if len(fn.Blocks) > 0 && fn.Synthetic != "" {
		if _, ok := s.e.sums[fn]; !ok {
			s.e.sums[fn] = &Summary{fn: fn, ret: Val{}, effects: map[string]Effect{}, stores: map[string]map[string]Val{}, mem: map[*Loc]Val{}}
			s.e.sums[fn] = s.e.analyze(fn)
		}
		return s.apply(in, fn, args, shortName(fn))
	}
	return s.external(in, fn, c.Args, args)
}

// recvFor turns an interface value into the receiver of a concrete method.
func (s *fnState) recvFor(v Val, t *ssa.Function) Val {
	rt := t.Signature.Recv().Type()
	return s.assert(v, rt)
}

func (e *Effects) targets(it types.Type, m *types.Func) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := it.String() + "." + m.Name()
	if t, ok := e.impls[key]; ok {
		return t
	}
	var out []*ssa.Function
	for _, n := range e.names {
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if !types.Implements(t, iface) {
				continue
			}
			obj, _, _ := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
			if f, ok := obj.(*types.Func); ok {
				if sf := e.p.Prog.FuncValue(f); sf != nil && len(sf.Blocks) > 0 {
					out = append(out, sf)
				}
			}
			break
		}
	}
	e.impls[key] = out
	return out
}

// apply instantiates a callee summary at a call site.
func (s *fnState) apply(in ssa.Instruction, fn *ssa.Function, args []Val, name string) Val {
	sum := s.e.sums[fn]
	if sum == nil {
		return Val{}
	}
	freshMap := map[*Loc]*Loc{}
	mapFresh := func(l *Loc) *Loc {
		if n, ok := freshMap[l]; ok {
			return n
		}
		p := l.path
		if i := strings.Index(p, ":"); i >= 0 {
			p = p[i+1:]
		}
		n := s.fresh(in, "call:"+p)
		freshMap[l] = n
		return n
	}
	var substRef func(r Ref) RefSet
	substRef = func(r Ref) RefSet {
		switch r.L.kind {
		case 'A':
			return RefSet{Ref{mapFresh(r.L), r.sub}: true}
		case 'P':
			out := RefSet{}
			for x := range s.resolve(args, r.L.root, r.L.path) {
				out[Ref{x.L, x.sub + r.sub}] = true
			}
			return out
		}
		return RefSet{r: true}
	}
	substVal := func(v Val) Val {
		out := Val{}
		for k, rs := range v {
			for r := range rs {
				for x := range substRef(r) {
					// an interface leaf resolved to a typed content is handled by resolve
					out.add(k, x)
				}
				if r.L.kind == 'P' {
					// interface leaves carry dynamic content under type tags
					for tk, trs := range s.resolveDyn(args, r.L.root, r.L.path) {
						for x := range trs {
							out.add(k+tk, x)
						}
					}
				}
			}
		}
		return out
	}
	for l, v := range sum.mem {
		n := mapFresh(l)
		c := cloneVal(s.mem[n])
		c.join(substVal(v))
		s.mem[n] = c
	}
	keys := make([]string, 0, len(sum.effects))
	for k := range sum.effects {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ef := sum.effects[k]
		via := name
		if ef.via != "" {
			via = name + " → " + ef.via
		}
		if strings.Count(via, "→") > 8 {
			via = ef.via
		}
		stored := Val{}
		if sv := sum.stores[k]; sv != nil {
			stored = substVal(sv[""])
		}
		s.org = ef.org
		switch ef.kind {
		case 'E':
			s.effect(Ref{s.e.env(), ""}, "", ef.pos, via, ef.what, nil)
		case 'G':
			s.effectRaw(ef, via)
		case 'P':
			base, sub := ef.path, ""
			if i := strings.LastIndex(base, "->"); i >= 0 {
				base, sub = ef.path[:i], ef.path[i+2:]
			}
			refs := s.resolve(args, ef.root, base)
			s.store(refs, sub, stored, ef.pos, via, ef.what, false)
		}
	}
	return substVal(sum.ret)
}

func (s *fnState) effectRaw(ef Effect, via string) {
	ef.via = via
	if _, ok := s.sum.effects[ef.key()]; !ok {
		s.sum.effects[ef.key()] = ef
		s.changed = true
	}
}

// resolve maps a callee parameter path to the caller's references.
func (s *fnState) resolve(args []Val, root int, path string) RefSet {
	if root >= len(args) {
		return RefSet{}
	}
	segs := strings.Split(path, "->")
	cur := RefSet{}
	v := args[root]
	for i, seg := range segs {
		next := RefSet{}
		if i == 0 {
			for x := range s.leafRefs(v, seg) {
				next[x] = true
			}
		} else {
			for r := range cur {
				switch r.L.kind {
				case 'A':
					for x := range s.leafRefs(s.mem[r.L], r.sub+seg) {
						next[x] = true
					}
				case 'E':
					next[r] = true
				default:
					next[Ref{s.e.loc(r.L.kind, r.L.root, r.L.path+"->"+r.sub+seg, "", token.NoPos), ""}] = true
				}
			}
		}
		cur = next
	}
	return cur
}

// leafRefs finds the references stored at key seg, extending symbolic interface leaves.
func (s *fnState) leafRefs(v Val, seg string) RefSet {
	out := RefSet{}
	for k, rs := range v {
		if k == seg {
			for r := range rs {
				out[r] = true
			}
		} else if strings.HasPrefix(seg, k) && strings.HasPrefix(seg[len(k):], "«") {
			for r := range rs {
				switch r.L.kind {
				case 'P', 'G':
					out[Ref{s.e.loc(r.L.kind, r.L.root, r.L.path+seg[len(k):], "", token.NoPos), r.sub}] = true
				case 'E':
					out[r] = true
				}
			}
		}
	}
	return out
}

// resolveDyn returns the dynamic (type-tagged) contents at an interface leaf.
func (s *fnState) resolveDyn(args []Val, root int, path string) Val {
	out := Val{}
	if root >= len(args) {
		return out
	}
	segs := strings.Split(path, "->")
	take := func(v Val, seg string) {
		for k, rs := range v {
			if strings.HasPrefix(k, seg) && strings.HasPrefix(k[len(seg):], "«") {
				for r := range rs {
					out.add(k[len(seg):], r)
				}
			}
		}
	}
	if len(segs) == 1 {
		take(args[root], segs[0])
		return out
	}
	base := s.resolve(args, root, strings.Join(segs[:len(segs)-1], "->"))
	last := segs[len(segs)-1]
	for r := range base {
		if r.L.kind == 'A' {
			take(s.mem[r.L], r.sub+last)
		}
	}
	return out
}

func (s *fnState) builtin(in ssa.Instruction, b *ssa.Builtin, args []ssa.Value) Val {
	switch b.Name() {
	case "append":
		dst := s.val(args[0])
		l := s.fresh(in, "obj:append "+typeShort(args[0].Type()))
		if s.mem[l] == nil {
			s.mem[l] = Val{}
		}
		elemT := args[0].Type().Underlying().(*types.Slice).Elem()
		content := s.load(dst.root(), "[]", elemT)
		if len(args) > 1 {
			if _, isStr := args[1].Type().Underlying().(*types.Basic); !isStr {
				content.join(s.load(s.val(args[1]).root(), "[]", elemT))
			}
		}
		c := cloneVal(s.mem[l])
		c.join(content.prefixed("[]"))
		s.mem[l] = c
		out := Val{"": RefSet{Ref{l, ""}: true}}
		if len(args) > 1 && !clipped(args[0]) && !emptyVariadic(args[1]) {
			add := Val{}
			if _, isStr := args[1].Type().Underlying().(*types.Basic); !isStr {
				add = s.load(s.val(args[1]).root(), "[]", elemT)
			}
			s.store(dst.root(), "[]", add, in.Pos(), "", "append into the operand's spare capacity", false)
			for r := range dst.root() {
				out.add("", r)
			}
		}
		return out
	case "copy":
		elemT := types.Type(types.Typ[types.Byte])
		if st, ok := args[0].Type().Underlying().(*types.Slice); ok {
			elemT = st.Elem()
		}
		src := Val{}
		if _, isStr := args[1].Type().Underlying().(*types.Basic); !isStr {
			src = s.load(s.val(args[1]).root(), "[]", elemT)
		}
		s.store(s.val(args[0]).root(), "[]", src, in.Pos(), "", "copy()", false)
	case "delete":
		s.store(s.val(args[0]).root(), "{}", Val{}, in.Pos(), "", "delete()", false)
	case "clear":
		s.store(s.val(args[0]).root(), "[]", Val{}, in.Pos(), "", "clear()", false)
	}
	return Val{}
}

func emptyVariadic(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// clipped: the slice expression s[a:b:b] has no spare capacity.
func clipped(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Max == nil || sl.High == nil {
		return false
	}
	if sl.Max == sl.High {
		return true
	}
	a, ok1 := sl.Max.(*ssa.Const)
	b, ok2 := sl.High.(*ssa.Const)
	if ok1 && ok2 && a.Value != nil && b.Value != nil && a.Value.String() == b.Value.String() {
		return true
	}
	la, ok1 := lenOf(sl.Max)
	lb, ok2 := lenOf(sl.High)
	return ok1 && ok2 && la == lb
}

func lenOf(v ssa.Value) (ssa.Value, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, false
	}
	return c.Call.Args[0], true
}

var gonumReads = map[string]bool{"AtVec": true, "At": true, "Len": true, "Dims": true, "Cap": true, "Caps": true, "IsEmpty": true, "Norm": true}
var gonumAliases = map[string]bool{"T": true, "TVec": true, "RawVector": true, "RawMatrix": true, "SliceVec": true, "Slice": true, "ColView": true, "RowView": true, "RawRowView": true, "Grow": true}
var gonumReset = map[string]bool{"CloneFromVec": true, "CloneFrom": true, "ReuseAsVec": true, "ReuseAs": true}

func (s *fnState) external(in ssa.Instruction, fn *ssa.Function, vals []ssa.Value, args []Val) Val {
	pkg := ""
	origin := fn
	if fn.Origin() != nil {
		origin = fn.Origin()
	}
	if origin.Pkg != nil {
		pkg = origin.Pkg.Pkg.Path()
	} else if origin.Object() != nil && origin.Object().Pkg() != nil {
		pkg = origin.Object().Pkg().Path()
	}
	name := origin.Name()
	s.e.Stats["external-call"]++
	freshObj := func(tag string) Ref {
		l := s.fresh(in, "obj:"+tag)
		if s.mem[l] == nil {
			s.mem[l] = Val{}
		}
		return Ref{l, ""}
	}
	writeData := func(v Val) {
		// the matrix header and the backing array it refers to
		for r := range v.root() {
			if r.L.kind != 'A' {
				s.effect(r, "", in.Pos(), "", "gonum "+name+"()", nil)
			}
			for _, f := range []string{".mat.Data"} {
				var data RefSet
				if r.L.kind == 'A' {
					data = s.leafRefs(s.mem[r.L], r.sub+f)
				} else {
					data = RefSet{Ref{s.e.loc(r.L.kind, r.L.root, r.L.path+"->"+r.sub+f, "", token.NoPos), ""}: true}
				}
				s.store(data, "[]", Val{}, in.Pos(), "", "gonum "+name+"()", false)
			}
		}
	}
	switch {
	case strings.HasPrefix(pkg, "gonum.org/v1/gonum/mat"):
		recv := fn.Signature.Recv()
		if recv == nil {
			switch name {
			case "NewVecDense", "NewDense", "NewSymDense", "NewDiagDense":
				o := freshObj("gonum")
				c := cloneVal(s.mem[o.L])
				data := args[len(args)-1]
				if len(data.root()) == 0 {
					data = Val{"": RefSet{freshObj("gonumdata"): true}}
				}
				c.join(data.prefixed(".mat.Data"))
				s.mem[o.L] = c
				return Val{"": RefSet{o: true}}
			case "VecDenseCopyOf", "DenseCopyOf":
				o := freshObj("gonum")
				c := cloneVal(s.mem[o.L])
				c.add(".mat.Data", freshObj("gonumdata"))
				s.mem[o.L] = c
				return Val{"": RefSet{o: true}}
			}
			// formatting, equality, norms, ...
			out := Val{}
			s.e.leaves(resultType(fn), "", 0, func(lp string, lt types.Type) { out.add(lp, freshObj("gonumres")) })
			return out
		}
		if gonumReads[name] {
			return Val{}
		}
		if gonumAliases[name] {
			out := Val{}
			s.e.leaves(resultType(fn), "", 0, func(lp string, lt types.Type) {
				for _, rs := range args[0] {
					for r := range rs {
						out.add(lp, r)
						if r.L.kind == 'A' {
							for x := range s.leafRefs(s.mem[r.L], r.sub+".mat.Data") {
								out.add(lp, x)
							}
						}
					}
				}
			})
			return out
		}
		if gonumReset[name] {
			for r := range args[0].root() {
				if r.L.kind == 'A' {
					s.store(RefSet{r: true}, ".mat.Data", Val{"": RefSet{freshObj("gonumdata"): true}}, in.Pos(), "", "", true)
				} else {
					s.effect(r, "", in.Pos(), "", "gonum "+name+"()", nil)
				}
			}
			return Val{}
		}
		writeData(args[0])
		for r := range args[0].root() { // zero-value receivers allocate
			if r.L.kind == 'A' && len(s.leafRefs(s.mem[r.L], r.sub+".mat.Data")) == 0 {
				s.store(RefSet{r: true}, ".mat.Data", Val{"": RefSet{freshObj("gonumdata"): true}}, in.Pos(), "", "", false)
			}
		}
		return Val{}
	case pkg == "fmt" || pkg == "errors" || pkg == "strings" || pkg == "math" || pkg == "strconv" || pkg == "reflect" || pkg == "unicode" || pkg == "unicode/utf8" || pkg == "log" || pkg == "os" || pkg == "math/bits" || pkg == "cmp":
		out := Val{}
		s.e.leaves(resultType(fn), "", 0, func(lp string, lt types.Type) { out.add(lp, freshObj("ext")) })
		if pkg == "strings" && fn.Signature.Recv() != nil {
			return out
		}
		return out
	case pkg == "slices" || pkg == "maps":
		switch name {
		case "Clone", "Collect", "Sorted", "Concat", "Repeat":
			o := freshObj("clone")
			c := cloneVal(s.mem[o.L])
			for i, a := range args {
				t := vals[i].Type()
				if st, ok := t.Underlying().(*types.Slice); ok {
					c.join(s.load(a.root(), "[]", st.Elem()).prefixed("[]"))
				}
				if mt, ok := t.Underlying().(*types.Map); ok {
					c.join(s.load(a.root(), "{}", mt.Elem()).prefixed("{}"))
					c.join(s.load(a.root(), "{k}", mt.Key()).prefixed("{k}"))
				}
			}
			s.mem[o.L] = c
			return Val{"": RefSet{o: true}}
		case "Contains", "ContainsFunc", "Index", "IndexFunc", "Equal", "EqualFunc", "Max", "Min", "MaxFunc", "MinFunc", "IsSorted", "IsSortedFunc", "Keys", "Values", "All", "BinarySearch", "Compare":
			out := Val{}
			for i, a := range args {
				if st, ok := vals[i].Type().Underlying().(*types.Slice); ok {
					out.join(s.load(a.root(), "[]", st.Elem()))
				}
			}
			return out
		}
	case pkg == "sort" && (strings.HasPrefix(name, "Search") || strings.HasSuffix(name, "AreSorted") || name == "IsSorted"):
		return Val{}
	}
	// unknown external function: may write everything it can reach
	for i, a := range args {
		for k, rs := range a {
			for r := range rs {
				if r.L.kind == 'E' {
					continue
				}
				if st, ok := vals[i].Type().Underlying().(*types.Slice); ok && k == "" {
					_ = st
					s.store(RefSet{r: true}, "[]", Val{}, in.Pos(), "", "call of "+pkg+"."+name+"()", false)
				} else {
					s.store(RefSet{r: true}, "", Val{}, in.Pos(), "", "call of "+pkg+"."+name+"()", false)
				}
			}
		}
	}
	out := Val{}
	s.e.leaves(resultType(fn), "", 0, func(lp string, lt types.Type) {
		out.add(lp, freshObj("ext"))
		for _, a := range args {
			for _, rs := range a {
				for r := range rs {
					out.add(lp, r)
				}
			}
		}
	})
	return out
}

func resultType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// Run computes all summaries to a fixpoint.
func (e *Effects) Run() {
	fns := append([]*ssa.Function{}, e.p.Funcs...)
	// anonymous functions
	var anon func(f *ssa.Function)
	anon = func(f *ssa.Function) {
		for _, a := range f.AnonFuncs {
			fns = append(fns, a)
			anon(a)
		}
	}
	for _, f := range e.p.Funcs {
		if f.Parent() == nil {
			anon(f)
		}
	}
	for round := 0; round < 40; round++ {
		changed := false
		if os.Getenv("SMDEBUG") != "" {
			tot, mx := 0, ""
			mm := 0
			for f, s := range e.sums {
				tot += len(s.sig)
				if len(s.sig) > mm {
					mm = len(s.sig)
					mx = shortName(f)
				}
			}
			fmt.Fprintln(os.Stderr, "round", round, tot, mm, mx)
		}
		for _, f := range fns {
			n := e.analyze(f)
			if o := e.sums[f]; o == nil || o.sig != n.sig {
				changed = true
				e.sums[f] = n
			}
		}
		e.Stats["rounds"] = round + 1
		if !changed {
			return
		}
	}
	e.Stats["nofix"] = 1
}
