package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis: every non-test package of
// /repo that the library ships, type-checked and in SSA form.
type Program struct {
	Root    string
	Fset    *token.FileSet
	Prog    *ssa.Program
	Pkgs    []*packages.Package
	SSAPkgs []*ssa.Package
	Sym     *ssa.Package // the symbolic package
	SmErr   *ssa.Package
	Funcs   []*ssa.Function // all source functions with bodies, sorted
	ours    map[*ssa.Package]bool
	consts  map[token.Pos]string
}

const modPath = "github.com/MatProGo-dev/SymbolicMath.go"

func Load(root string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   root,
		Fset:  fset,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off"),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			mode := parser.SkipObjectResolution
			if strings.HasPrefix(filename, root+string(filepath.Separator)) {
				mode |= parser.ParseComments
			}
			f, err := parser.ParseFile(fset, filename, src, mode)
			return f, err
		},
	}
	pats := []string{"./symbolic/...", "./smErrors/...", "./get/..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) < 4 {
		return nil, fmt.Errorf("only %d packages matched %v", len(pkgs), pats)
	}
	p := &Program{Root: root, Fset: fset, Pkgs: pkgs, ours: map[*ssa.Package]bool{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		if pk.IllTyped {
			first := ""
			packages.Visit([]*packages.Package{pk}, nil, func(d *packages.Package) {
				if first == "" && len(d.Errors) > 0 {
					first = fmt.Sprintf("%s: %v", d.PkgPath, d.Errors[0])
				}
			})
			return nil, fmt.Errorf("package %s is ill-typed (%s)", pk.PkgPath, first)
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	p.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.ours[sp] = true
		p.SSAPkgs = append(p.SSAPkgs, sp)
		switch pkgs[i].PkgPath {
		case modPath + "/symbolic":
			p.Sym = sp
		case modPath + "/smErrors":
			p.SmErr = sp
		}
	}
	if p.Sym == nil || p.SmErr == nil {
		return nil, fmt.Errorf("packages symbolic and smErrors not found under %s", root)
	}
	all := ssautil.AllFunctions(prog)
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && p.Our(f) && (f.Synthetic == "" || f.Origin() != nil) && !generic(f) {
			seen[f] = true
			p.Funcs = append(p.Funcs, f)
		}
	}
	for f := range all {
		add(f)
	}
	// AllFunctions may omit methods of types never converted to an interface
	for _, sp := range p.SSAPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, f := range p.declaredMethods(m.Type()) {
					add(f)
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
	sort.SliceStable(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

func (p *Program) declaredMethods(t types.Type) []*ssa.Function {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.Prog.FuncValue(n.Method(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// Our reports whether f is a source function of the analysed packages, or an
// instance of a generic one.
func (p *Program) Our(f *ssa.Function) bool {
	return f != nil && p.ours[pkgOf(f)] && len(f.Blocks) > 0
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

// generic: a function whose type parameters are open; its instances are analysed.
func generic(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.TypeParams().Len() > 0 && len(g.TypeArgs()) == 0 {
			return true
		}
	}
	return false
}

// Type returns the named type of the symbolic package.
func (p *Program) Type(name string) *types.Named {
	m := p.Sym.Type(name)
	if m == nil {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

// Method returns the declared method of a named type of package symbolic.
func (p *Program) Method(typ, name string) *ssa.Function {
	n := p.Type(typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Program) Func(name string) *ssa.Function { return p.Sym.Func(name) }

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	if b := in.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
	}
	return in.Parent().Pos()
}

// shortName is the refactor-stable name used in reports: Type.Method or pkg.Func.
func shortName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/symbolic.", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	return s
}

func typeShort(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath+"/symbolic" {
			return ""
		}
		return p.Name()
	})
	return s
}

// isExportedAPI: exported function, or exported method on an exported type.
func isExportedAPI(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
		return false
	}
	return true
}
