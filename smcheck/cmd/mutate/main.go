// mutate plants small changes one after the other in copies of the repository,
// drops those the existing tests notice, and reports which of the others the
// checks notice: mutate -repo DIR -work DIR -smcheck BIN -props ... -n 6 [-files a,b]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type mutant struct {
	file     string
	off, end int
	new      string
	fn       string
	line     int
	what     string
}

var skipFn = regexp.MustCompile(`^(String|Error)$`)

func main() {
	repo := flag.String("repo", "/repo", "")
	work := flag.String("work", "/tmp/mut", "")
	bin := flag.String("smcheck", "/tmp/smcheck", "")
	props := flag.String("props", "", "")
	n := flag.Int("n", 6, "")
	files := flag.String("files", "", "")
	every := flag.Int("every", 1, "take one mutant in this many")
	out := flag.String("out", "/tmp/mut/report.txt", "")
	flag.Parse()
	var ms []mutant
	var names []string
	for _, g := range []string{"symbolic/*.go", "get/*/*.go"} {
		l, _ := filepath.Glob(filepath.Join(*repo, g))
		names = append(names, l...)
	}
	sort.Strings(names)
	for _, f := range names {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		rel, _ := filepath.Rel(*repo, f)
		if *files != "" {
			hit := false
			for _, x := range strings.Split(*files, ",") {
				hit = hit || strings.HasSuffix(rel, x)
			}
			if !hit {
				continue
			}
		}
		ms = append(ms, mutantsOf(f, rel)...)
	}
	if *every > 1 {
		var l []mutant
		for i, m := range ms {
			if i%*every == 0 {
				l = append(l, m)
			}
		}
		ms = l
	}
	fmt.Println(len(ms), "mutants")
	os.MkdirAll(*work, 0o755)
	rep, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	ch := make(chan mutant)
	var wg sync.WaitGroup
	count := map[string]int{}
	for w := 0; w < *n; w++ {
		dir := filepath.Join(*work, "w"+strconv.Itoa(w))
		exec.Command("rm", "-rf", dir).Run()
		if b, err := exec.Command("cp", "-a", *repo, dir).CombinedOutput(); err != nil {
			panic(string(b))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range ch {
				st, det := try(dir, *bin, *props, m)
				mu.Lock()
				count[st]++
				if st == "MISSED" || st == "CAUGHT" || st == "TIMEOUT" {
					fmt.Fprintf(rep, "%s %s:%d %s: %s %s\n", st, m.file, m.line, m.fn, m.what, det)
				}
				mu.Unlock()
			}
		}()
	}
	for _, m := range ms {
		ch <- m
	}
	close(ch)
	wg.Wait()
	rep.Close()
	fmt.Println(count)
}

func run(dir string, limit time.Duration, env []string, name string, args ...string) (string, error) {
	c := exec.Command("timeout", append([]string{strconv.Itoa(int(limit.Seconds())), name}, args...)...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	b, err := c.CombinedOutput()
	return string(b), err
}

func try(dir, bin, props string, m mutant) (string, string) {
	p := filepath.Join(dir, m.file)
	src, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	defer os.WriteFile(p, src, 0o644)
	var b bytes.Buffer
	b.Write(src[:m.off])
	b.WriteString(m.new)
	b.Write(src[m.end:])
	os.WriteFile(p, b.Bytes(), 0o644)
	goenv := []string{"PATH=/opt/veriftools/go1.23.12/bin:" + os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"}
	if _, err := run(dir, 120*time.Second, goenv, "go", "build", "./..."); err != nil {
		return "nobuild", ""
	}
	if _, err := run(dir, 120*time.Second, goenv, "go", "test", "-vet=off", "-failfast", "./..."); err != nil {
		return "killed", ""
	}
	o, err := run(dir, 600*time.Second, nil, bin, "-prop", props, "-verif", dir+".v", "-repo", dir)
	if err != nil && strings.Contains(o, "VIOLATION") {
		seen := map[string]bool{}
		var l []string
		for _, x := range regexp.MustCompile(`VIOLATION property=(C\d+)`).FindAllStringSubmatch(o, -1) {
			if !seen[x[1]] {
				seen[x[1]] = true
				l = append(l, x[1])
			}
		}
		return "CAUGHT", strings.Join(l, ",")
	}
	if err != nil {
		return "TIMEOUT", err.Error()
	}
	return "MISSED", ""
}

func mutantsOf(path, rel string) (ms []mutant) {
	fset := token.NewFileSet()
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		panic(err)
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || skipFn.MatchString(fd.Name.Name) {
			continue
		}
		name := fd.Name.Name
		if fd.Recv != nil {
			name = string(src[fset.Position(fd.Recv.List[0].Type.Pos()).Offset:fset.Position(fd.Recv.List[0].Type.End()).Offset]) + "." + name
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		add := func(a, b token.Pos, new string) {
			pa, pb := fset.Position(a), fset.Position(b)
			old := string(src[pa.Offset:pb.Offset])
			if old == new {
				return
			}
			short := func(s string) string {
				s = strings.Join(strings.Fields(s), " ")
				if len(s) > 70 {
					s = s[:70] + "…"
				}
				return s
			}
			ms = append(ms, mutant{rel, pa.Offset, pb.Offset, new, name, pa.Line, fmt.Sprintf("`%s` => `%s`", short(old), short(new))})
		}
		rep := func(n ast.Node, new string) { add(n.Pos(), n.End(), new) }
		inPanic := map[ast.Node]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if n == nil {
				return false
			}
			switch x := n.(type) {
			case *ast.CallExpr:
				if i, ok := x.Fun.(*ast.Ident); ok && i.Name == "panic" {
					inPanic[x] = true
					return false
				}
				if strings.HasPrefix(text(x.Fun), "fmt.") {
					return false
				}
				// swap neighbouring arguments
				for i := 0; i+1 < len(x.Args); i++ {
					add(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
					for _, pr := range [][2]string{{"Plus", "Minus"}, {"Minus", "Plus"}, {"Multiply", "Plus"}} {
						if sel.Sel.Name == pr[0] {
							rep(sel.Sel, pr[1])
						}
					}
					if sel.Sel.Name == "Plus" || sel.Sel.Name == "Multiply" {
						rep(x, text(sel.X))
					}
				}
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && (sel.Sel.Name == "Copy" || sel.Sel.Name == "Simplify" || sel.Sel.Name == "AsSimplifiedExpression" || sel.Sel.Name == "Transpose") {
					rep(x, text(sel.X))
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}}
				for _, o := range alt[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					rep(x, text(x.X))
					rep(x, text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB || x.Op == token.NOT {
					rep(x, text(x.X))
				}
			case *ast.BasicLit:
				switch {
				case x.Kind == token.INT && x.Value == "0":
					rep(x, "1")
				case x.Kind == token.INT && x.Value == "1":
					rep(x, "0")
					rep(x, "2")
				case x.Kind == token.FLOAT && (x.Value == "0.0" || x.Value == "0"):
					rep(x, "1.0")
				case x.Kind == token.FLOAT:
					rep(x, "2.5")
				}
			case *ast.IndexExpr:
				switch i := x.Index.(type) {
				case *ast.Ident:
					for _, pr := range [][2]string{{"ii", "jj"}, {"jj", "ii"}, {"i", "j"}, {"j", "i"}, {"kk", "ii"}} {
						if i.Name == pr[0] {
							rep(i, pr[1])
						}
					}
					rep(i, "0")
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					rep(x, text(x.X)+" += 2")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK {
					rep(x, "continue")
				} else if x.Tok == token.CONTINUE {
					rep(x, "break")
				}
			case *ast.IfStmt:
				if !strings.HasPrefix(strings.TrimSpace(text(x.Body)[1:]), "panic") {
					rep(x.Cond, "!("+text(x.Cond)+")")
				}
				rep(x.Cond, "false && ("+text(x.Cond)+")")
				if x.Else != nil {
					rep(x.Cond, "true || ("+text(x.Cond)+")")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s, rep)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s, rep)
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					switch text(x.Results[0]) {
					case "true":
						rep(x.Results[0], "false")
					case "false":
						rep(x.Results[0], "true")
					}
				}
			}
			return true
		})
	}
	return
}

func del(s ast.Stmt, rep func(ast.Node, string)) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			rep(s, "")
		}
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
		rep(s, "")
	}
}
