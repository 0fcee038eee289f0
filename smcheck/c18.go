package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: the outcome of an operation is a function of its operands alone.

func init() { checks["C18"] = checkDeterminism }

// purePkgs: packages whose functions depend on their arguments only.
var purePkgs = map[string]bool{
	"fmt": true, "math": true, "math/bits": true, "math/big": true, "math/cmplx": true, "strings": true, "strconv": true, "errors": true,
	"sort": true, "slices": true, "cmp": true, "bytes": true, "unicode": true, "unicode/utf8": true, "iter": true, "maps": true,
	"container/list": true, "container/heap": true, "reflect": true, "regexp": true, "text/tabwriter": true,
}

// impure functions of those packages.
var impureFns = map[string]bool{
	"fmt.Scan": true, "fmt.Scanf": true, "fmt.Scanln": true,
	"(reflect.Value).MapRange": true, "(reflect.Value).MapKeys": true, "(reflect.Value).Pointer": true, "(reflect.Value).UnsafePointer": true, "(reflect.Value).UnsafeAddr": true,
}

var mapIters = map[string]bool{"maps.Keys": true, "maps.Values": true, "maps.All": true}

func checkDeterminism(p *Program, r *Report) {
	r.Explain = "every function of the library searched for what could make two calls with the same operands differ: time, randomness, the operating system, goroutines and channels, mutable package variables and the variable registry, and iterations over maps whose outcome depends on the order"
	r.Rule("surroundings: no operation calls time, randomness, operating system, runtime or synchronisation functions")
	r.Rule("concurrency: no operation starts goroutines or uses channels")
	r.Rule("state: only constructors of variables read the registry of an environment or a package variable that holds one; no function uses a package variable that any function writes")
	r.Rule("map-order: an iteration over a map carries nothing from one round to the next but order-free accumulations, and leaves early with one outcome only")
	calls, iters := 0, 0
	varies := changing(p)
	ctors := constructing(p)
	for _, f := range p.Funcs {
		if f.Name() == "init" {
			continue
		}
		name := shortName(f)
		bad := map[string]string{}
		ctor := ctors[outermost(f)]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				at := p.Pos(in.Pos())
				switch in := in.(type) {
				case *ssa.Go:
					bad["concurrency"] = "a goroutine is started at " + at
				case *ssa.Select, *ssa.Send, *ssa.MakeChan:
					bad["concurrency"] = "a channel is used at " + at
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						iters++
						if why := mapLoop(p, f, in); why != "" {
							bad["map-order"] = why
						} else {
							r.OK("map iteration in " + name)
						}
					}
				case ssa.CallInstruction:
					calls++
					if why := ambient(p, in); why != "" {
						bad["surroundings"] = why + " at " + at
					}
					if !ctor && readsRegistry(in.Common()) {
						bad["state"] = "the registry of an environment is read at " + at
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					switch {
					case !ok:
					case !ctor && holdsEnv(p, g.Type()):
						bad["state"] = "the package variable " + g.Name() + " is used at " + at
					case varies[g.RelString(nil)] != "":
						bad["state"] = "the package variable " + g.Name() + " is used at " + at + ", which " + varies[g.RelString(nil)] + " changes"
					}
				}
			}
		}
		for _, rule := range []string{"surroundings", "concurrency", "state", "map-order"} {
			if bad[rule] != "" {
				r.Bad(rule, name, p.Pos(f.Pos()), bad[rule])
			}
		}
		if len(bad) == 0 {
			r.OK(name)
		}
	}
	r.Counts["calls"] = calls
	r.Counts["map iterations"] = iters
	r.Min("functions", len(p.Funcs), 400)
	r.Min("calls", calls, 1500)
}

// changing gives the package variables some function of the library may write
// (the effect analysis of C01), with that function.
func changing(p *Program) map[string]string {
	out := map[string]string{}
	e := NewEffects(p)
	e.Run()
	for _, f := range p.Funcs {
		if f.Name() == "init" || e.sums[f] == nil {
			continue
		}
		for _, ef := range e.sums[f].effects {
			if ef.kind != 'G' {
				continue
			}
			g := ef.path
			if i := strings.Index(g, "->"); i >= 0 {
				g = g[:i]
			}
			if out[g] == "" || ef.org < out[g] {
				out[g] = ef.org
			}
		}
	}
	return out
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// constructing gives the functions that run only when a variable is made:
// constructors of variables, the methods of environments, and the unexported
// functions that only those call and that are not used as values.
func constructing(p *Program) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	uses := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						uses[g] = append(uses[g], outermost(f))
						if c == nil || c.Common().IsInvoke() || op != &c.Common().Value {
							escapes[g] = true
						}
					}
				}
			}
		}
		if f.Parent() == nil && constructsOnly(p, f) {
			out[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range p.Funcs {
			if out[f] || f.Parent() != nil || f.Signature.Recv() != nil || token.IsExported(f.Name()) || escapes[f] || len(uses[f]) == 0 {
				continue
			}
			all := true
			for _, u := range uses[f] {
				all = all && (out[u] || u == f)
			}
			if all {
				out[f], again = true, true
			}
		}
	}
	return out
}

// constructsOnly: constructors of variables and the methods of environments.
func constructsOnly(p *Program, f *ssa.Function) bool {
	if rv := f.Signature.Recv(); rv != nil {
		env, ok := p.Sym.Type("Environment").Type().Underlying().(*types.Interface)
		return ok && (types.Implements(rv.Type(), env) || types.Implements(types.NewPointer(rv.Type()), env))
	}
	return isVarConstructor(p, f)
}

func readsRegistry(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "AllTrackedVariables"
	}
	fn := c.StaticCallee()
	return fn != nil && fn.Signature.Recv() != nil && fn.Name() == "AllTrackedVariables"
}

// holdsEnv: a package variable that is or contains an environment.
func holdsEnv(p *Program, t types.Type) bool {
	env, ok := p.Sym.Type("Environment").Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	seen := map[types.Type]bool{}
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if types.Implements(t, env) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rec(u.Elem())
		case *types.Slice:
			return rec(u.Elem())
		case *types.Array:
			return rec(u.Elem())
		case *types.Map:
			return rec(u.Elem()) || rec(u.Key())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if rec(u.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// ambient: a call whose outcome is not determined by its arguments.
func ambient(p *Program, in ssa.CallInstruction) string {
	fn := in.Common().StaticCallee()
	if fn == nil {
		return ""
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if p.Our(fn) {
		return ""
	}
	obj := fn.Object()
	if obj == nil || obj.Pkg() == nil {
		return ""
	}
	path := obj.Pkg().Path()
	full := obj.(*types.Func).FullName()
	switch {
	case path == strings.TrimSuffix(modPath, "/") || strings.HasPrefix(path, modPath+"/"):
		return ""
	case impureFns[full]:
		return "call of " + full
	case mapIters[full]:
		if v, ok := in.(ssa.Value); ok {
			if refs := v.Referrers(); refs != nil {
				for _, u := range *refs {
					if c, ok := u.(*ssa.Call); !ok || c.Common().StaticCallee() == nil || !strings.HasPrefix(callee(c), "slices.Sorted") {
						return "unordered iteration with " + full
					}
				}
				return ""
			}
		}
		return "unordered iteration with " + full
	case purePkgs[path], strings.HasPrefix(path, "gonum.org/v1/gonum/") && !strings.Contains(path, "/stat/") && !strings.HasSuffix(path, "/stat"):
		return ""
	}
	return "call of " + full
}

func callee(c *ssa.Call) string {
	fn := c.Common().StaticCallee()
	if fn == nil {
		return ""
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if f, ok := fn.Object().(*types.Func); ok {
		return f.FullName()
	}
	return ""
}

// mapLoop tells why the outcome of an iteration over a map depends on the order.
func mapLoop(p *Program, f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if next != nil {
				return "a map iterator is advanced in several places"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	in := loopBlocks(head)
	dep := iterationValues(next, in)
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && in[i.Block()]
	}
	if len(in) == 1 && len(dep) > 0 {
		in = map[*ssa.BasicBlock]bool{head: true}
		body := head.Succs[0]
		outs := map[string]bool{}
		if why := outcomes(body, head, dep, outs); why != "" {
			return why
		}
		if len(outs) > 1 {
			return "only the round that happens to come first is looked at"
		}
		return ""
	}
	// carried from round to round
	for _, b := range f.Blocks {
		if !in[b] {
			continue
		}
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Phi:
				if b == head {
					if why := carried(x, in, inLoop); why != "" {
						return why + " (" + p.Pos(posOf(x)) + ")"
					}
				}
			case *ssa.Store:
				if !localAddr(x.Addr, in) {
					return "a round writes to " + x.Addr.String() + " at " + p.Pos(x.Pos())
				}
			case *ssa.MapUpdate:
				_, konst := x.Value.(*ssa.Const)
				if !konst && !isKey(x.Key, next) && inLoop(x.Key) {
					return "a round overwrites map entries at " + p.Pos(x.Pos())
				}
			case *ssa.Defer:
				return "a round defers a call at " + p.Pos(x.Pos())
			}
		}
	}
	// one outcome only when left early
	outs := map[string]bool{}
	for _, b := range f.Blocks {
		if !in[b] {
			continue
		}
		for _, s := range b.Succs {
			if in[s] || b == head {
				continue
			}
			if why := outcomes(s, b, dep, outs); why != "" {
				return why
			}
		}
		if len(b.Succs) == 0 {
			o, why := outcomeOf(b, dep)
			if why != "" {
				return why
			}
			outs[o] = true
		}
	}
	if len(outs) > 1 {
		return "the iteration can be left early with different outcomes"
	}
	return ""
}

func posOf(x *ssa.Phi) token.Pos {
	if x.Pos().IsValid() {
		return x.Pos()
	}
	for _, i := range x.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return x.Parent().Pos()
}

// loopBlocks: the natural loop of head.
func loopBlocks(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{head: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, q := range b.Preds {
			up(q)
		}
	}
	for _, q := range head.Preds {
		if head.Dominates(q) {
			up(q)
		}
	}
	return in
}

// iterationValues: what is computed from the key and value of a round.
func iterationValues(next *ssa.Next, in map[*ssa.BasicBlock]bool) map[ssa.Value]bool {
	dep := map[ssa.Value]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if dep[v] || v.Referrers() == nil {
			return
		}
		dep[v] = true
		for _, u := range *v.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Tuple == next && e.Index == 0 {
				continue
			}
			if w, ok := u.(ssa.Value); ok {
				mark(w)
			}
			if s, ok := u.(*ssa.Store); ok {
				mark(s.Addr)
			}
		}
	}
	mark(next)
	return dep
}

func isKey(v ssa.Value, next *ssa.Next) bool {
	e, ok := v.(*ssa.Extract)
	if ok && e.Tuple == next && e.Index == 1 {
		return true
	}
	// a copy kept in a local
	if u, ok := v.(*ssa.UnOp); ok {
		if a, ok := u.X.(*ssa.Alloc); ok {
			n, hit := 0, false
			for _, w := range *a.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == a {
					n++
					hit = isKey(s.Val, next)
				}
			}
			return n == 1 && hit
		}
	}
	return false
}

// localAddr: storage created in the same round.
func localAddr(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return in[v.Block()]
	case *ssa.FieldAddr:
		return localAddr(v.X, in)
	case *ssa.IndexAddr:
		return localAddr(v.X, in)
	case *ssa.Slice:
		return localAddr(v.X, in)
	case *ssa.MakeSlice:
		return in[v.Block()]
	}
	return false
}

// carried: a value handed from round to round must be an order-free accumulation.
func carried(phi *ssa.Phi, in map[*ssa.BasicBlock]bool, inLoop func(ssa.Value) bool) string {
	var leaves []ssa.Value
	seen := map[ssa.Value]bool{}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if q, ok := v.(*ssa.Phi); ok && q != phi && in[q.Block()] {
			for _, e := range q.Edges {
				collect(e)
			}
			return
		}
		leaves = append(leaves, v)
	}
	for i, e := range phi.Edges {
		if in[phi.Block().Preds[i]] {
			collect(e)
		}
	}
	konst, kinds := "", map[string]bool{}
	sorted := false
	for _, l := range leaves {
		switch l := l.(type) {
		case *ssa.Const:
			s := "nil"
			if l.Value != nil {
				s = l.Value.ExactString()
			}
			if konst != "" && konst != s {
				return "a flag is set to different values in different rounds"
			}
			konst = s
			kinds["const"] = true
			continue
		case *ssa.Phi:
			if l == phi {
				continue
			}
		case *ssa.BinOp:
			other := l.Y
			if l.Y == phi {
				other = l.X
			}
			if (l.X == phi || l.Y == phi) && other != phi && !reaches(other, phi, in) {
				switch l.Op.String() {
				case "+", "*", "&", "|", "^", "&^":
					if isIntegral(l.Type()) && (l.Op.String() != "&^" || l.X == phi) {
						kinds[l.Op.String()] = true
						continue
					}
				case "-":
					if isIntegral(l.Type()) && l.X == phi {
						kinds["+"] = true
						continue
					}
				}
			}
		case *ssa.Call:
			if b, ok := l.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if l.Call.Args[0] == phi && sortedAfter(phi, in) {
						kinds["append"] = true
						sorted = true
						continue
					}
				case "min", "max":
					kinds[b.Name()] = true
					continue
				}
			}
		}
		if !inLoop(l) && len(leaves) == 1 {
			kinds["invariant"] = true
			continue
		}
		return "the value " + phi.Comment + " depends on the order of the rounds"
	}
	if len(kinds) > 1 {
		return "the value " + phi.Comment + " depends on the order of the rounds"
	}
	// the running value must not steer the rounds
	if !sorted && (kinds["+"] || kinds["*"] || kinds["const"]) {
		for _, u := range *phi.Referrers() {
			if !in[u.Block()] {
				continue
			}
			switch u := u.(type) {
			case *ssa.Phi, *ssa.BinOp:
				if b, ok := u.(*ssa.BinOp); ok && !isAccum(b, leaves) {
					return "the running value " + phi.Comment + " is used within the rounds"
				}
			case *ssa.If:
				if !kinds["const"] {
					return "the running value " + phi.Comment + " is used within the rounds"
				}
			case *ssa.DebugRef:
			default:
				return "the running value " + phi.Comment + " is used within the rounds"
			}
		}
	}
	return ""
}

func isAccum(b *ssa.BinOp, leaves []ssa.Value) bool {
	for _, l := range leaves {
		if l == b {
			return true
		}
	}
	return false
}

func reaches(v ssa.Value, phi *ssa.Phi, in map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == phi {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !in[i.Block()] {
			return false
		}
		seen[v] = true
		for _, o := range i.Operands(nil) {
			if *o != nil && rec(*o) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// sortedAfter: after the iteration the list is sorted before anything else.
func sortedAfter(phi *ssa.Phi, in map[*ssa.BasicBlock]bool) bool {
	isSort := func(c *ssa.Call) bool {
		n := callee(c)
		return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")
	}
	sorts := false
	for _, u := range *phi.Referrers() {
		if in[u.Block()] {
			continue
		}
		switch u := u.(type) {
		case *ssa.Call:
			if isSort(u) {
				sorts = true
			}
		case *ssa.MakeInterface:
			for _, w := range *u.Referrers() {
				if c, ok := w.(*ssa.Call); ok && isSort(c) {
					sorts = true
				}
			}
		case *ssa.ChangeType:
			for _, w := range *u.Referrers() {
				if c, ok := w.(*ssa.Call); ok && isSort(c) {
					sorts = true
				}
			}
		}
	}
	return sorts
}

// outcomes of leaving the loop through the edge from -> s.
func outcomes(s, from *ssa.BasicBlock, dep map[ssa.Value]bool, outs map[string]bool) string {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b, from *ssa.BasicBlock) string
	rec = func(b, from *ssa.BasicBlock) string {
		if b != s && !s.Dominates(b) || len(s.Preds) > 1 {
			// back among the other paths
			for _, x := range b.Instrs {
				if phi, ok := x.(*ssa.Phi); ok {
					if e := phi.Edges[predIndex(b, from)]; dep[e] && !isError(e.Type()) {
						return "a value of the round that happens to come first leaves the iteration"
					}
				}
			}
			outs[fmt.Sprintf("block %d", b.Index)] = true
			return ""
		}
		if seen[b] {
			return ""
		}
		seen[b] = true
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Store:
				if dep[x.Val] && !localAddr(x.Addr, seen) && !isError(x.Val.Type()) {
					return "a value of the round that happens to come first is kept"
				}
			case *ssa.MapUpdate:
				if dep[x.Key] || dep[x.Value] {
					return "a value of the round that happens to come first is kept"
				}
			}
		}
		if len(b.Succs) == 0 {
			o, why := outcomeOf(b, dep)
			outs[o] = true
			return why
		}
		for _, t := range b.Succs {
			if why := rec(t, b); why != "" {
				return why
			}
		}
		return ""
	}
	return rec(s, from)
}

func outcomeOf(b *ssa.BasicBlock, dep map[ssa.Value]bool) (string, string) {
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return "refused", ""
	case *ssa.Return:
		s := ""
		for _, v := range x.Results {
			if isError(v.Type()) {
				if c, ok := v.(*ssa.Const); ok && c.IsNil() {
					s += "nil,"
				} else {
					return "refused", ""
				}
				continue
			}
			if dep[v] {
				return "", "a value of the round that happens to come first is returned"
			}
			s += v.Name() + ","
			if c, ok := v.(*ssa.Const); ok {
				s += c.String()
			}
		}
		return s, ""
	}
	return "", ""
}

func isError(t types.Type) bool { return t.String() == "error" }
