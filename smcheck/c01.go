package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

func debugDump(p *Program, what string) {
	e := NewEffects(p)
	e.Run()
	fmt.Println(e.Stats, len(p.Funcs))
	for _, f := range p.Funcs {
		s := e.sums[f]
		if what != "all" && !strings.Contains(shortName(f), what) {
			continue
		}
		if what == "all" && len(s.effects) == 0 {
			continue
		}
		fmt.Println("==", shortName(f))
		for _, x := range s.effects {
			fmt.Printf("   %s  %s at %s via %s\n", x.key(), x.what, p.Pos(x.pos), x.via)
		}
		if what != "all" {
			fmt.Println("  ret", strings.ReplaceAll(s.sig, "\n", "\n      "))
		}
	}
}

// isConstructor: a package-level function that receives no expression,
// constraint or matrix, i.e. it can only build new objects.
func isVarConstructor(p *Program, f *ssa.Function) bool {
	if f.Signature.Recv() != nil {
		return false
	}
	expr, _ := p.Sym.Type("Expression").Type().Underlying().(*types.Interface)
	con, _ := p.Sym.Type("Constraint").Type().Underlying().(*types.Interface)
	for _, prm := range f.Params {
		t := prm.Type()
		for {
			if s, ok := t.Underlying().(*types.Slice); ok && !types.Implements(t, expr) {
				t = s.Elem()
				continue
			}
			break
		}
		if types.Implements(t, expr) || types.Implements(t, con) {
			return false
		}
		if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
			return false
		}
	}
	return true
}

func checkC01(p *Program, r *Report) {
	r.Explain = "Interprocedural effect analysis over the SSA form of every shipped package: for each exported function and method, the set of memory regions reachable from its receiver, its arguments or package variables that any path (including paths that end in a panic) may write - element and field stores, copy(), map updates, append() into storage that is not provably fresh, and gonum mutators - must be empty. The variable registry of an environment may be written, but only from constructors (functions that take no expression)."
	r.Rule("no-operand-write: an exported operation writes no memory reachable from its receiver or arguments")
	r.Rule("no-global-write: an exported operation writes no package variable other than the environment registry")
	r.Rule("registry-write: the registry is written only by the environment's own tracking method and by constructors that take no expression")
	e := NewEffects(p)
	e.Run()
	if e.Stats["nofix"] != 0 {
		r.Bad("analysis-complete", "effect-fixpoint", "-", "the effect analysis did not reach a fixpoint")
	}
	n := 0
	for _, f := range p.Funcs {
		if f.Name() == "init" || !isExportedAPI(f) {
			continue
		}
		n++
		s := e.sums[f]
		name := shortName(f)
		var keys []string
		for k := range s.effects {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		bad := false
		for _, k := range keys {
			ef := s.effects[k]
			via := ""
			if ef.via != "" {
				via = " reached through " + ef.via
			}
			switch ef.kind {
			case 'P':
				bad = true
				pn := fmt.Sprintf("parameter %d", ef.root)
				if ef.root < len(f.Params) {
					pn = f.Params[ef.root].Name()
				}
				r.Bad("no-operand-write", ef.org+": "+ef.what, p.Pos(ef.pos), fmt.Sprintf("%s may write memory owned by its operand %q (region %s): %s%s", name, pn, ef.path, ef.what, via))
			case 'G':
				bad = true
				r.Bad("no-global-write", ef.org+": "+ef.what+" "+ef.path, p.Pos(ef.pos), fmt.Sprintf("%s may write package variable %s: %s%s", name, ef.path, ef.what, via))
			case 'E':
				if f.Signature.Recv() != nil && e.isEnv(f.Signature.Recv().Type()) || isVarConstructor(p, f) {
					continue
				}
				bad = true
				r.Bad("registry-write", name+" via "+ef.org, p.Pos(ef.pos), fmt.Sprintf("%s may change the set of tracked variables although it is not a variable constructor: %s%s", name, ef.what, via))
			}
		}
		if !bad {
			r.OK(name + ": no write to operand, package or registry memory")
		}
	}
	r.Min("exported operations", n, 400)
	r.Counts["functions analysed"] = len(p.Funcs)
	r.Counts["fixpoint rounds"] = e.Stats["rounds"]
	r.Assume = append(r.Assume, "gonum and standard-library callees behave as modelled (mutators write their receiver; documented readers do not); unknown callees are assumed to write every argument they can reach")
}

// aliases returns the operand/global regions the result of f may share.
func (e *Effects) aliases(f *ssa.Function) []string {
	s := e.sums[f]
	seen := map[*Loc]bool{}
	out := map[string]bool{}
	var walk func(v Val, at string)
	walk = func(v Val, at string) {
		for k, rs := range v {
			for r := range rs {
				switch r.L.kind {
				case 'A':
					if !seen[r.L] {
						seen[r.L] = true
						walk(s.mem[r.L], at+k)
					}
				case 'P':
					n := fmt.Sprint(r.L.root)
					if r.L.root < len(f.Params) {
						n = f.Params[r.L.root].Name()
					}
					out[n+strings.ReplaceAll(r.L.path, "->", "")+" at result"+at+k] = true
				case 'G':
					out[r.L.path+" at result"+at+k] = true
				case 'E':
					if strings.HasSuffix(k, "Environment") {
						continue // the environment is shared by design
					}
					out["the environment registry at result"+at+k] = true
				}
			}
		}
	}
	walk(s.ret, "")
	var l []string
	for k := range out {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ownsResult: operations whose result must not share storage with an operand.
// The set is derived from signatures, not from a list of functions:
//   - Copy and derivatives of any object,
//   - anything that returns a variable list or a gonum vector/matrix,
//   - conversions from one concrete kind to another (ToX methods with a concrete result),
//   - functions that turn gonum / raw numeric data into library constants.
func (p *Program) ownsResult(f *ssa.Function) string {
	sig := f.Signature
	name := f.Name()
	hasRef := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Struct, *types.Pointer, *types.Map:
			_ = u
			return true
		}
		return false
	}
	isGonum := func(t types.Type) bool {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "gonum.org/")
	}
	isVarList := func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		return ok && types.Identical(s.Elem(), p.Type("Variable"))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if isGonum(t) {
			return "returns gonum data"
		}
		if isVarList(t) && f.Name() != "AllTrackedVariables" {
			return "returns a variable list"
		}
	}
	if sig.Recv() != nil {
		if name == "Copy" {
			return "copy"
		}
		if name == "DerivativeWrt" {
			return "derivative"
		}
		if strings.HasPrefix(name, "To") && sig.Results().Len() >= 1 {
			t := sig.Results().At(0).Type()
			if _, isI := t.Underlying().(*types.Interface); !isI && hasRef(t) {
				if sl, ok := t.(*types.Slice); ok {
					if _, isI := sl.Elem().Underlying().(*types.Interface); isI {
						return ""
					}
				}
				return "conversion between concrete kinds"
			}
		}
		return ""
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if isGonum(t) {
			return "conversion from gonum data"
		}
		if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 && pkgOf(f) != p.Sym && pkgOf(f) != p.SmErr {
			return "conversion from raw data"
		}
	}
	return ""
}

func checkC02(p *Program, r *Report) {
	r.Explain = "Interprocedural alias analysis over SSA: for every exported operation that promises an independent result (copies, derivatives, variable lists, gonum vectors and matrices, conversions between concrete kinds, conversions from gonum or raw numeric data), every reference inside the result must lead only to memory allocated by the call itself, never to memory reachable from the receiver, an argument or a package variable. Environments are shared by design and excluded; converting an object to the kind it already has may return it."
	r.Rule("own-storage: no reference inside the result leads to operand or package memory")
	e := NewEffects(p)
	e.Run()
	if e.Stats["nofix"] != 0 {
		r.Bad("analysis-complete", "effect-fixpoint", "-", "the alias analysis did not reach a fixpoint")
	}
	n := 0
	for _, f := range p.Funcs {
		if !isExportedAPI(f) || pkgOf(f) == p.SmErr {
			continue
		}
		why := p.ownsResult(f)
		if why == "" {
			continue
		}
		n++
		var al []string
		for _, a := range e.aliases(f) {
			// identity conversions: From(KVector) may return its argument
			if why == "conversion from raw data" && len(f.Params) == 1 {
				rt := typeShort(f.Signature.Results().At(0).Type())
				if strings.HasPrefix(a, f.Params[0].Name()+"«"+rt+"»") {
					continue
				}
			}
			al = append(al, a)
		}
		if len(al) > 0 {
			r.Bad("own-storage", shortName(f)+" ("+why+")", p.Pos(f.Pos()), "the result may share storage with: "+strings.Join(al, "; "))
		} else {
			r.OK(shortName(f) + " (" + why + ")")
		}
	}
	r.Min("operations with independent results", n, 80)
	r.Counts["functions analysed"] = len(p.Funcs)
	r.Assume = append(r.Assume, "gonum copying constructors (VecDenseCopyOf, DenseCopyOf, CloneFrom*) copy; NewVecDense/NewDense share the slice they are given; Raw*/Slice*/T views share storage")
}
