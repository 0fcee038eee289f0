// refactor rewrites a copy of the repository without changing what it does,
// to measure that the checks stay quiet: refactor -dir COPY -t NAME [-list].
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type R struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	fn    *ast.FuncDecl
	n     int
	decls []ast.Decl // added to the file
	count int
	only  int
	imports map[string]string
}

func (r *R) name(s string) string { r.n++; return fmt.Sprintf("%sZ%d", s, r.n) }

var transforms = map[string]func(r *R, fd *ast.FuncDecl){
	"range2idx": (*R).range2idx, "invertif": (*R).invertIf, "guard2else": (*R).guard2else,
	"rettemp": (*R).retTemp, "hoist": (*R).hoist, "tswitch2if": (*R).tswitch2if, "rotate": (*R).rotate,
	"delegate": (*R).delegate, "extractblock": (*R).extractBlock, "extractloop": (*R).extractLoop,
	"swap": (*R).swap, "append2idx": (*R).append2idx, "idx2append": (*R).idx2append, "cmp": (*R).cmp,
	"while": (*R).while, "ifinit": (*R).ifInit, "alias": (*R).alias, "splitand": (*R).splitAnd,
	"boolvar": (*R).boolVar, "resultvar": (*R).resultVar, "idx2range": (*R).idx2range, "elseless": (*R).elseless,
	"flag": (*R).flag,
}

func main() {
	dir := flag.String("dir", "", "copy of the repository to rewrite in place")
	t := flag.String("t", "", "transformation")
	list := flag.Bool("list", false, "list transformations")
	flag.Parse()
	if *list {
		var ns []string
		for n := range transforms {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off"),
		ParseFile: func(fset *token.FileSet, fn string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		}}
	pkgs, err := packages.Load(cfg, "./symbolic/...", "./get/...")
	if err != nil {
		panic(err)
	}
	total := 0
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			r := &R{fset: fset, info: p.TypesInfo, pkg: p.Types, file: f, n: i * 10000}
			r.imports = map[string]string{}
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				nm := filepath.Base(path)
				if im.Name != nil {
					nm = im.Name.Name
				} else if q := p.Imports[path]; q != nil {
					nm = q.Name
				}
				r.imports[path] = nm
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					r.fn = fd
					transforms[*t](r, fd)
				}
			}
			if r.count == 0 {
				continue
			}
			total += r.count
			f.Decls = append(f.Decls, r.decls...)
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				panic(err)
			}
			name := p.CompiledGoFiles[i]
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				panic(err)
			}
		}
	}
	fmt.Println(*t, total, "sites")
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *R) src(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, r.fset, n)
	return b.String()
}

func (r *R) expr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(err)
	}
	strip(e)
	return e
}

// strip forgets positions so that printing lays the code out afresh.
func strip(n ast.Node) {}

func (r *R) typ(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		if n, ok := r.imports[p.Path()]; ok {
			return n
		}
		r.imports["!"+p.Path()] = ""
		return "NOIMPORT"
	})
}

func (r *R) typeOK(t types.Type) bool { return !strings.Contains(r.typ(t), "NOIMPORT") }

// each visits every statement list.
func (r *R) lists(fd *ast.FuncDecl, f func(l []ast.Stmt) []ast.Stmt) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = f(n.List)
		case *ast.CaseClause:
			n.Body = f(n.Body)
		}
		return true
	})
}

func (r *R) uses(n ast.Node, o types.Object) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && o != nil && r.info.Uses[i] == o {
			hit = true
		}
		return true
	})
	return hit
}

// assigned: variables n assigns to (not defined inside it).
func (r *R) assigned(n ast.Node) map[types.Object]bool {
	out := map[types.Object]bool{}
	var root func(e ast.Expr)
	root = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.Ident:
			if o := r.info.Uses[e]; o != nil {
				out[o] = true
			}
		case *ast.IndexExpr:
			root(e.X)
		case *ast.SelectorExpr:
			root(e.X)
		case *ast.StarExpr:
			root(e.X)
		case *ast.ParenExpr:
			root(e.X)
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				root(l)
			}
		case *ast.IncDecStmt:
			root(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					root(x.Key)
				}
				if x.Value != nil {
					root(x.Value)
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				root(x.X)
			}
		}
		return true
	})
	return out
}

func (r *R) free(n ast.Node, ignore map[types.Object]bool) []*types.Var {
	var out []*types.Var
	seen := map[types.Object]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		i, ok := x.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := r.info.Uses[i].(*types.Var)
		if !ok || v.IsField() || seen[v] || v.Parent() == r.pkg.Scope() || v.Parent() == types.Universe || v.Pkg() != r.pkg {
			return true
		}
		if v.Pos() >= n.Pos() && v.Pos() < n.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	return out
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	case *ast.BlockStmt:
		return terminates(s.List)
	case *ast.IfStmt:
		if s.Else == nil || !terminates(s.Body.List) {
			return false
		}
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			return terminates(e.List)
		case *ast.IfStmt:
			return terminates([]ast.Stmt{e})
		}
	case *ast.TypeSwitchStmt:
		def := false
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = true
			}
			if !terminates(cc.Body) || jumps(&ast.BlockStmt{List: cc.Body}, true) {
				return false
			}
		}
		return def
	case *ast.SwitchStmt:
		def := false
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = true
			}
			if !terminates(cc.Body) || jumps(&ast.BlockStmt{List: cc.Body}, true) {
				return false
			}
		}
		return def
	}
	return false
}

// jumps: contains break/continue/goto that leave the node (or returns, if wanted).
func jumps(n ast.Node, brk bool) bool {
	hit := false
	var walk func(n ast.Node, loop, sw int)
	walk = func(n ast.Node, loop, sw int) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == n {
				return true
			}
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				switch {
				case x.Label != nil || x.Tok == token.GOTO || x.Tok == token.FALLTHROUGH:
					hit = true
				case x.Tok == token.BREAK && loop+sw == 0 && brk:
					hit = true
				case x.Tok == token.CONTINUE && loop == 0:
					hit = true
				}
			case *ast.ForStmt:
				walk(x.Body, loop+1, sw)
				return false
			case *ast.RangeStmt:
				walk(x.Body, loop+1, sw)
				return false
			case *ast.SwitchStmt:
				walk(x.Body, loop, sw+1)
				return false
			case *ast.TypeSwitchStmt:
				walk(x.Body, loop, sw+1)
				return false
			}
			return true
		})
	}
	walk(n, 0, 0)
	return hit
}

func returns(n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			hit = true
		}
		return true
	})
	return hit
}

func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (r *R) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			if tv := r.info.Types[x.Fun]; tv.IsType() {
				return true
			}
			if i, is := x.Fun.(*ast.Ident); is && (i.Name == "len" || i.Name == "make") {
				return true
			}
			ok = false
		case *ast.FuncLit, *ast.TypeAssertExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				ok = false
			}
		}
		return true
	})
	return ok
}

// for i, v := range X  =>  for i := 0; i < len(X); i++ { v := X[i]; ... }
func (r *R) range2idx(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k, s := range l {
			rs, ok := s.(*ast.RangeStmt)
			if !ok || rs.Tok != token.DEFINE {
				continue
			}
			if _, ok := r.info.TypeOf(rs.X).Underlying().(*types.Slice); !ok {
				continue
			}
			xi, ok := rs.X.(*ast.Ident)
			if !ok {
				if sel, ok2 := rs.X.(*ast.SelectorExpr); ok2 {
					xi, ok = sel.X.(*ast.Ident)
				}
			}
			if !ok || r.assigned(rs.Body)[r.info.Uses[xi]] {
				continue
			}
			i := id(r.name("i"))
			body := rs.Body
			var pre []ast.Stmt
			if !blank(rs.Key) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{rs.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{i}})
			}
			if !blank(rs.Value) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{rs.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: rs.X, Index: i}}})
			}
			body.List = append(pre, body.List...)
			l[k] = &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{i}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr("0")}},
				Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{rs.X}}},
				Post: &ast.IncDecStmt{X: i, Tok: token.INC}, Body: body}
			r.count++
		}
		return l
	})
}

// for i := 0; i < len(X); i++  =>  for i := range X
func (r *R) idx2range(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k, s := range l {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil || f.Cond == nil {
				continue
			}
			in, ok := f.Init.(*ast.AssignStmt)
			if !ok || len(in.Lhs) != 1 || r.src(in.Rhs[0]) != "0" {
				continue
			}
			c, ok := f.Cond.(*ast.BinaryExpr)
			if !ok || c.Op != token.LSS || r.src(c.X) != r.src(in.Lhs[0]) {
				continue
			}
			o := r.info.Defs[in.Lhs[0].(*ast.Ident)]
			if r.assigned(f.Body)[o] {
				continue
			}
			call, ok := c.Y.(*ast.CallExpr)
			if !ok || r.src(call.Fun) != "len" {
				continue
			}
			x, ok := call.Args[0].(*ast.Ident)
			if !ok || r.assigned(f.Body)[r.info.Uses[x]] {
				continue
			}
			f.Body.List = append([]ast.Stmt{keep(o.Name())}, f.Body.List...)
			l[k] = &ast.RangeStmt{Key: in.Lhs[0], Tok: token.DEFINE, X: x, Body: f.Body}
			r.count++
		}
		return l
	})
}

// for i := 0; c; i++ { B }  =>  { i := 0; for c { B; i++ } }
func (r *R) while(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k, s := range l {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil || f.Post == nil || hasContinue(f.Body) {
				continue
			}
			w := &ast.ForStmt{Cond: f.Cond, Body: &ast.BlockStmt{List: append(append([]ast.Stmt{}, f.Body.List...), f.Post)}}
			l[k] = &ast.BlockStmt{List: []ast.Stmt{f.Init, w}}
			r.count++
		}
		return l
	})
}

func hasContinue(n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			hit = true
		}
		return true
	})
	return hit
}

// if c {A} else {B}  =>  if !(c) {B} else {A}
func (r *R) invertIf(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.IfStmt)
		if !ok {
			return true
		}
		b, ok := s.Else.(*ast.BlockStmt)
		if !ok {
			return true
		}
		s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}
		s.Body, s.Else = b, s.Body
		r.count++
		return true
	})
}

// if c {A; return}; rest  =>  if c {A; return} else {rest}
func (r *R) guard2else(fd *ast.FuncDecl) {
	var do func(l []ast.Stmt) []ast.Stmt
	do = func(l []ast.Stmt) []ast.Stmt {
		for k, s := range l {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else != nil || !terminates(i.Body.List) || k == len(l)-1 || !terminates(l) {
				continue
			}
			i.Else = &ast.BlockStmt{List: do(append([]ast.Stmt{}, l[k+1:]...))}
			r.count++
			return l[:k+1]
		}
		return l
	}
	fd.Body.List = do(fd.Body.List)
}

// if c {A; return} else {B}  =>  if c {A; return}; B   (B in a block)
func (r *R) elseless(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			out = append(out, s)
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else == nil || i.Init != nil || !terminates(i.Body.List) {
				continue
			}
			e := i.Else
			i.Else = nil
			if b, ok := e.(*ast.BlockStmt); ok {
				out = append(out, &ast.BlockStmt{List: b.List})
			} else {
				out = append(out, e)
			}
			r.count++
		}
		return out
	})
}

// return e  =>  var x T = e; return x
func (r *R) retTemp(fd *ast.FuncDecl) {
	res := r.info.Defs[fd.Name].Type().(*types.Signature).Results()
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			rs, ok := s.(*ast.ReturnStmt)
			if ok && len(rs.Results) == res.Len() && res.Len() > 0 && !inLit(fd, rs) {
				for i, e := range rs.Results {
					if _, ok := e.(*ast.Ident); ok || !r.typeOK(res.At(i).Type()) {
						continue
					}
					x := id(r.name("out"))
					out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{x}, Type: r.expr(r.typ(res.At(i).Type())), Values: []ast.Expr{e}}}}})
					rs.Results[i] = x
					r.count++
				}
			}
			out = append(out, s)
		}
		return out
	})
}

func inLit(fd *ast.FuncDecl, n ast.Node) bool {
	in := false
	ast.Inspect(fd, func(x ast.Node) bool {
		if l, ok := x.(*ast.FuncLit); ok && l.Pos() <= n.Pos() && n.End() <= l.End() {
			in = true
		}
		return true
	})
	return in
}

// f(g(x))  =>  y := g(x); f(y)   when f's receiver and earlier arguments are plain
func (r *R) hoist(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			var root *ast.Expr
			switch s := s.(type) {
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					root = &s.Results[0]
				}
			case *ast.AssignStmt:
				if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
					if _, ok := s.Lhs[0].(*ast.Ident); ok {
						root = &s.Rhs[0]
					}
				}
			}
			if root != nil {
				out = append(out, r.hoistExpr(root)...)
			}
			out = append(out, s)
		}
		return out
	})
}

func (r *R) hoistExpr(e *ast.Expr) (pre []ast.Stmt) {
	c, ok := (*e).(*ast.CallExpr)
	if !ok {
		if ta, ok := (*e).(*ast.TypeAssertExpr); ok {
			return r.hoistExpr(&ta.X)
		}
		return nil
	}
	if r.info.Types[c.Fun].IsType() {
		return r.hoistExpr(&c.Args[0])
	}
	take := func(x *ast.Expr) {
		t := r.info.TypeOf(*x)
		if _, ok := (*x).(*ast.CallExpr); !ok || r.info.Types[(*x).(*ast.CallExpr).Fun].IsType() {
			return
		}
		if _, tup := t.(*types.Tuple); tup {
			return
		}
		pre = append(pre, r.hoistExpr(x)...)
		v := id(r.name("h"))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{*x}})
		*x = v
		r.count++
	}
	if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
		take(&sel.X)
	}
	for i := range c.Args {
		if _, lit := c.Args[i].(*ast.FuncLit); lit {
			break
		}
		take(&c.Args[i])
	}
	return pre
}

// switch x := e.(type)  =>  if x, ok := e.(A); ok {...} else if ...
func (r *R) tswitch2if(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k, s := range l {
			ts, ok := s.(*ast.TypeSwitchStmt)
			if !ok || ts.Init != nil {
				continue
			}
			var v string
			var x ast.Expr
			switch a := ts.Assign.(type) {
			case *ast.AssignStmt:
				v, x = a.Lhs[0].(*ast.Ident).Name, a.Rhs[0].(*ast.TypeAssertExpr).X
			case *ast.ExprStmt:
				x = a.X.(*ast.TypeAssertExpr).X
			}
			if _, ok := x.(*ast.Ident); !ok {
				continue
			}
			good := true
			var def *ast.BlockStmt
			type arm struct {
				t ast.Expr
				b []ast.Stmt
			}
			var arms []arm
			for _, c := range ts.Body.List {
				cc := c.(*ast.CaseClause)
				if jumps(&ast.BlockStmt{List: cc.Body}, true) {
					good = false
				}
				if cc.List == nil {
					def = &ast.BlockStmt{List: cc.Body}
					if v != "" {
						def.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}, keep(v)}, def.List...)
					}
					continue
				}
				if len(cc.List) > 1 {
					good = false
				}
				arms = append(arms, arm{cc.List[0], cc.Body})
			}
			if !good || len(arms) == 0 {
				continue
			}
			var cur ast.Stmt
			if def != nil {
				cur = def
			}
			for i := len(arms) - 1; i >= 0; i-- {
				ok := r.name("ok")
				name := v
				if name == "" {
					name = "_"
				}
				b := arms[i].b
				if v != "" {
					b = append([]ast.Stmt{keep(v)}, b...)
				}
				st := &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(name), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: x, Type: arms[i].t}}},
					Cond: id(ok), Body: &ast.BlockStmt{List: b}}
				if cur != nil {
					st.Else = cur
				}
				cur = st
			}
			l[k] = cur
			r.count++
		}
		return l
	})
}

func keep(v string) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}}
}

// rotate the cases of type switches over concrete types
func (r *R) rotate(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		ts, ok := n.(*ast.TypeSwitchStmt)
		if !ok {
			return true
		}
		for _, c := range ts.Body.List {
			for _, t := range c.(*ast.CaseClause).List {
				if tt := r.info.TypeOf(t); tt == nil || types.IsInterface(tt) {
					return true
				}
			}
		}
		l := ts.Body.List
		if len(l) > 1 {
			ts.Body.List = append(append([]ast.Stmt{}, l[1:]...), l[0])
			r.count++
		}
		return true
	})
}

// every function delegates to a helper that has its body
func (r *R) delegate(fd *ast.FuncDecl) {
	if fd.Name.Name == "init" || !fd.Name.IsExported() {
		return
	}
	sig := r.info.Defs[fd.Name].Type().(*types.Signature)
	if sig.TypeParams().Len() > 0 {
		return
	}
	nm := "impl" + fd.Name.Name
	if fd.Recv == nil {
		nm = r.name(nm)
	}
	cp := *fd
	cp.Name = id(nm)
	cp.Doc = nil
	var args []ast.Expr
	var ell token.Pos
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			return
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return
			}
			args = append(args, id(n.Name))
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			ell = 1
		}
	}
	var fun ast.Expr = id(nm)
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 {
			return
		}
		fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(nm)}
	}
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
	fd.Body = &ast.BlockStmt{}
	if sig.Results().Len() > 0 {
		fd.Body.List = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}
	} else {
		fd.Body.List = []ast.Stmt{&ast.ExprStmt{X: call}}
	}
	r.decls = append(r.decls, &cp)
	r.count++
}

func (r *R) params(vs []*types.Var) (fl *ast.FieldList, args []ast.Expr, ok bool) {
	fl = &ast.FieldList{}
	for _, v := range vs {
		if !r.typeOK(v.Type()) || v.Name() == "_" {
			return nil, nil, false
		}
		fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: r.expr(r.typ(v.Type()))})
		args = append(args, id(v.Name()))
	}
	return fl, args, true
}

// extract case and if bodies that end in a return into helpers
func (r *R) extractBlock(fd *ast.FuncDecl) {
	sig := r.info.Defs[fd.Name].Type().(*types.Signature)
	if sig.Results().Len() == 0 || sig.Results().At(0).Name() != "" || sig.TypeParams().Len() > 0 {
		return
	}
	done := map[ast.Node]bool{}
	try := func(body []ast.Stmt, n ast.Node) ([]ast.Stmt, bool) {
		if len(body) == 0 || !terminates(body) || !returns(n) || jumps(&ast.BlockStmt{List: body}, true) {
			return body, false
		}
		blk := &ast.BlockStmt{List: body}
		lit := false
		ast.Inspect(blk, func(x ast.Node) bool {
			if _, ok := x.(*ast.FuncLit); ok {
				lit = true
			}
			return true
		})
		if lit {
			return body, false
		}
		// free variables: everything used that is defined outside
		var vs []*types.Var
		seen := map[types.Object]bool{}
		lo, hi := body[0].Pos(), body[len(body)-1].End()
		for _, s := range body {
			ast.Inspect(s, func(x ast.Node) bool {
				i, ok := x.(*ast.Ident)
				if !ok {
					return true
				}
				v, ok := r.info.Uses[i].(*types.Var)
				if !ok || v.IsField() || seen[v] || v.Parent() == r.pkg.Scope() || v.Pkg() != r.pkg || v.Pos() >= lo && v.Pos() < hi {
					return true
				}
				seen[v] = true
				vs = append(vs, v)
				return true
			})
		}
		as := r.assigned(blk)
		for _, v := range vs {
			if as[v] {
				_, sl := v.Type().Underlying().(*types.Slice)
				_ = sl
				// assigning a parameter copy is fine as the block ends the function
			}
		}
		fl, args, ok := r.params(vs)
		if !ok {
			return body, false
		}
		res := &ast.FieldList{}
		for i := 0; i < sig.Results().Len(); i++ {
			if !r.typeOK(sig.Results().At(i).Type()) {
				return body, false
			}
			res.List = append(res.List, &ast.Field{Type: r.expr(r.typ(sig.Results().At(i).Type()))})
		}
		nm := r.name("part")
		r.decls = append(r.decls, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: fl, Results: res}, Body: &ast.BlockStmt{List: []ast.Stmt{blk}}})
		r.count++
		return []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: id(nm), Args: args}}}}, true
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if done[n] {
			return false
		}
		ok := false
		switch n := n.(type) {
		case *ast.CaseClause:
			n.Body, ok = try(n.Body, n)
		case *ast.IfStmt:
			n.Body.List, ok = try(n.Body.List, n.Body)
		case *ast.FuncLit:
			return false
		}
		return !ok
	})
}

// extract whole loops into helpers that return what they assign
func (r *R) extractLoop(fd *ast.FuncDecl) {
	if r.info.Defs[fd.Name].Type().(*types.Signature).TypeParams().Len() > 0 {
		return
	}
	var do func(l []ast.Stmt)
	do = func(l []ast.Stmt) {
		for k, s := range l {
			switch s.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
			default:
				ast.Inspect(s, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.FuncLit:
						return false
					case *ast.BlockStmt:
						do(n.List)
						return false
					case *ast.CaseClause:
						do(n.Body)
						return false
					}
					return true
				})
				continue
			}
			if returns(s) || jumpsOut(s) {
				continue
			}
			vs := r.free(s, nil)
			as := r.assigned(s)
			fl, args, ok := r.params(vs)
			if !ok {
				continue
			}
			res := &ast.FieldList{}
			var back, outs []ast.Expr
			for _, v := range vs {
				if as[v] || strings.HasPrefix(r.typ(v.Type()), "mat.") {
					res.List = append(res.List, &ast.Field{Type: r.expr(r.typ(v.Type()))})
					back = append(back, id(v.Name()))
					outs = append(outs, id(v.Name()))
				}
			}
			nm := r.name("loop")
			body := &ast.BlockStmt{List: []ast.Stmt{s}}
			call := &ast.CallExpr{Fun: id(nm), Args: args}
			if len(back) > 0 {
				body.List = append(body.List, &ast.ReturnStmt{Results: outs})
				l[k] = &ast.AssignStmt{Lhs: back, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}
			} else {
				l[k] = &ast.ExprStmt{X: call}
			}
			r.decls = append(r.decls, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: fl, Results: res}, Body: body})
			r.count++
		}
	}
	do(fd.Body.List)
}

func jumpsOut(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ForStmt:
		return jumpsIn(s.Body)
	case *ast.RangeStmt:
		return jumpsIn(s.Body)
	}
	return true
}

func jumpsIn(n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok && b.Label != nil {
			hit = true
		}
		return true
	})
	return hit
}

// swap neighbouring independent simple definitions
func (r *R) swap(fd *ast.FuncDecl) {
	def := func(s ast.Stmt) (types.Object, ast.Expr, bool) {
		a, ok := s.(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
			return nil, nil, false
		}
		o := r.info.Defs[a.Lhs[0].(*ast.Ident)]
		return o, a.Rhs[0], o != nil
	}
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k := 0; k+1 < len(l); k++ {
			oa, ea, ok1 := def(l[k])
			if !ok1 {
				if d, ok := l[k].(*ast.DeclStmt); ok {
					if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR && len(g.Specs) == 1 && len(g.Specs[0].(*ast.ValueSpec).Values) == 0 {
						oa = r.info.Defs[g.Specs[0].(*ast.ValueSpec).Names[0]]
						ok1 = oa != nil
					}
				}
			}
			_, eb, ok2 := def(l[k+1])
			if !ok1 || !ok2 || r.uses(l[k+1], oa) || (ea != nil && !r.pure(ea) && !r.pure(eb)) {
				continue
			}
			l[k], l[k+1] = l[k+1], l[k]
			r.count++
			k++
		}
		return l
	})
}

// var out []T; for _, v := range xs { ...; out = append(out, e) }  =>  make and index
func (r *R) append2idx(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k := 0; k+1 < len(l); k++ {
			d, ok := l[k].(*ast.DeclStmt)
			if !ok {
				continue
			}
			g := d.Decl.(*ast.GenDecl)
			if g.Tok != token.VAR || len(g.Specs) != 1 {
				continue
			}
			vs := g.Specs[0].(*ast.ValueSpec)
			if len(vs.Values) != 0 || len(vs.Names) != 1 || vs.Type == nil {
				continue
			}
			o := r.info.Defs[vs.Names[0]]
			if _, ok := o.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			rs, ok := l[k+1].(*ast.RangeStmt)
			if !ok || jumps(rs.Body, true) || returns(rs.Body) || len(rs.Body.List) == 0 {
				continue
			}
			if _, ok := r.info.TypeOf(rs.X).Underlying().(*types.Slice); !ok {
				continue
			}
			last, ok := rs.Body.List[len(rs.Body.List)-1].(*ast.AssignStmt)
			if !ok || len(last.Lhs) != 1 || r.src(last.Lhs[0]) != o.Name() || last.Tok != token.ASSIGN {
				continue
			}
			c, ok := last.Rhs[0].(*ast.CallExpr)
			if !ok || r.src(c.Fun) != "append" || len(c.Args) != 2 || r.src(c.Args[0]) != o.Name() || c.Ellipsis != 0 {
				continue
			}
			other := false
			for _, s := range rs.Body.List[:len(rs.Body.List)-1] {
				other = other || r.uses(s, o)
			}
			if other {
				continue
			}
			var key ast.Expr = rs.Key
			if blank(key) {
				key = id(r.name("i"))
				rs.Key = key
			}
			l[k] = &ast.AssignStmt{Lhs: []ast.Expr{id(o.Name())}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: id("make"), Args: []ast.Expr{vs.Type, &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{rs.X}}}}}}
			last.Lhs[0] = &ast.IndexExpr{X: id(o.Name()), Index: key}
			last.Rhs[0] = c.Args[1]
			r.count++
		}
		return l
	})
}

// out := make([]T, len(xs)); for i := range xs { ...; out[i] = e }  =>  append
func (r *R) idx2append(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k := 0; k+1 < len(l); k++ {
			a, ok := l[k].(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
				continue
			}
			mk, ok := a.Rhs[0].(*ast.CallExpr)
			if !ok || r.src(mk.Fun) != "make" || len(mk.Args) != 2 {
				continue
			}
			rs, ok := l[k+1].(*ast.RangeStmt)
			if !ok || blank(rs.Key) || r.src(mk.Args[1]) != "len("+r.src(rs.X)+")" || jumps(rs.Body, true) || len(rs.Body.List) == 0 {
				continue
			}
			last, ok := rs.Body.List[len(rs.Body.List)-1].(*ast.AssignStmt)
			if !ok || len(last.Lhs) != 1 || r.src(last.Lhs[0]) != r.src(a.Lhs[0])+"["+r.src(rs.Key)+"]" {
				continue
			}
			o := r.info.Defs[a.Lhs[0].(*ast.Ident)]
			other := false
			for _, s := range rs.Body.List[:len(rs.Body.List)-1] {
				other = other || r.uses(s, o)
			}
			if other {
				continue
			}
			mk.Args = []ast.Expr{mk.Args[0], r.expr("0"), mk.Args[1]}
			x := id(o.Name())
			last.Rhs[0] = &ast.CallExpr{Fun: id("append"), Args: []ast.Expr{x, last.Rhs[0]}}
			last.Lhs[0] = x
			rs.Body.List = append([]ast.Stmt{keep(r.src(rs.Key))}, rs.Body.List...)
			r.count++
		}
		return l
	})
}

// comparisons the other way round
func (r *R) cmp(fd *ast.FuncDecl) {
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok {
			return true
		}
		if f, ok := flip[b.Op]; ok {
			b.X, b.Y, b.Op = b.Y, b.X, f
			r.count++
		} else if b.Op == token.NEQ {
			c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: token.EQL, Y: b.Y}}})
			r.count++
		} else if b.Op == token.EQL {
			b.X, b.Y = b.Y, b.X
			r.count++
		}
		return true
	})
}

// if x := e; c {...}  =>  { x := e; if c {...} }
func (r *R) ifInit(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		for k, s := range l {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Init == nil {
				continue
			}
			in := i.Init
			i.Init = nil
			l[k] = &ast.BlockStmt{List: []ast.Stmt{in, i}}
			r.count++
		}
		return l
	})
}

// the receiver is used through a local copy
func (r *R) alias(fd *ast.FuncDecl) {
	if fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 {
		return
	}
	n := fd.Recv.List[0].Names[0]
	if n.Name == "_" {
		return
	}
	o := r.info.Defs[n]
	if r.assigned(fd.Body)[o] || !r.uses(fd.Body, o) {
		return
	}
	nm := r.name("self")
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && r.info.Uses[i] == o {
			i.Name = nm
		}
		return true
	})
	fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(n.Name)}}}, fd.Body.List...)
	r.count++
}

// if a && b {A}  =>  if a { if b {A} };  if a || b {T}  =>  if a {T}; if b {T}
func (r *R) splitAnd(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			i, ok := s.(*ast.IfStmt)
			if ok && i.Else == nil && i.Init == nil {
				if b, ok := i.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					out = append(out, &ast.IfStmt{Cond: b.X, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: i.Body}}}})
					r.count++
					continue
				} else if ok && b.Op == token.LOR && terminates(i.Body.List) {
					out = append(out, &ast.IfStmt{Cond: b.X, Body: i.Body}, &ast.IfStmt{Cond: b.Y, Body: i.Body})
					r.count++
					continue
				}
			}
			out = append(out, s)
		}
		return out
	})
}

// if c {...}  =>  b := c; if b {...}
func (r *R) boolVar(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
				if _, plain := i.Cond.(*ast.Ident); !plain {
					v := id(r.name("cond"))
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}})
					i.Cond = v
					r.count++
				}
			}
			out = append(out, s)
		}
		return out
	})
}

// if c { return A }; return B  =>  var res; if c { res = A } else { res = B }; return res
func (r *R) resultVar(fd *ast.FuncDecl) {
	res := r.info.Defs[fd.Name].Type().(*types.Signature).Results()
	if res.Len() != 1 || !r.typeOK(res.At(0).Type()) {
		return
	}
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		if len(l) < 2 {
			return l
		}
		b, ok := l[len(l)-1].(*ast.ReturnStmt)
		i, ok2 := l[len(l)-2].(*ast.IfStmt)
		if !ok || !ok2 || i.Else != nil || len(b.Results) != 1 || inLit(fd, b) || len(i.Body.List) == 0 {
			return l
		}
		a, ok := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt)
		if !ok {
			return l
		}
		v := id(r.name("res"))
		set := func(e ast.Expr) ast.Stmt {
			return &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}
		}
		i.Body.List[len(i.Body.List)-1] = set(a.Results[0])
		i.Else = &ast.BlockStmt{List: []ast.Stmt{set(b.Results[0])}}
		r.count++
		d := &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{v}, Type: r.expr(r.typ(res.At(0).Type()))}}}}
		return append(append(append([]ast.Stmt{}, l[:len(l)-2]...), d, i), &ast.ReturnStmt{Results: []ast.Expr{v}})
	})
}

// for ... { if c { return true } }; return false  =>  found flag with break
func (r *R) flag(fd *ast.FuncDecl) {
	r.lists(fd, func(l []ast.Stmt) []ast.Stmt {
		if len(l) < 2 || inLit(fd, l[len(l)-1]) {
			return l
		}
		last, ok := l[len(l)-1].(*ast.ReturnStmt)
		rs, ok2 := l[len(l)-2].(*ast.RangeStmt)
		if !ok || !ok2 || len(last.Results) != 1 || (r.src(last.Results[0]) != "false" && r.src(last.Results[0]) != "true") || len(rs.Body.List) == 0 {
			return l
		}
		i, ok := rs.Body.List[len(rs.Body.List)-1].(*ast.IfStmt)
		if !ok || i.Else != nil || len(i.Body.List) != 1 || returns(&ast.BlockStmt{List: rs.Body.List[:len(rs.Body.List)-1]}) {
			return l
		}
		ret, ok := i.Body.List[0].(*ast.ReturnStmt)
		if !ok {
			return l
		}
		v := id(r.name("found"))
		i.Body.List = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.ASSIGN, Rhs: []ast.Expr{ret.Results[0]}}, &ast.BranchStmt{Tok: token.BREAK}}
		r.count++
		d := &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{last.Results[0]}}
		return append(append(append([]ast.Stmt{}, l[:len(l)-2]...), d, rs), &ast.ReturnStmt{Results: []ast.Expr{v}})
	})
}
