package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// debugEval: "Type.Method[:Kind,Kind]" or "Func[:Kind,...]" prints the summary.
func debugEval(p *Program, what string) {
	spec := strings.SplitN(what, ":", 2)
	name := spec[0]
	var fn *ssa.Function
	if i := strings.Index(name, "."); i >= 0 {
		fn = p.Method(name[:i], name[i+1:])
	} else {
		fn = p.Func(name)
	}
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	e := NewEngine(p)
	var kinds []string
	if len(spec) > 1 {
		kinds = strings.Split(spec[1], ",")
	}
	args := e.SymArgs(fn, kinds)
	r := e.Run(fn, args, stdConfig(e), nil)
	for _, x := range r.Problems {
		fmt.Println("PROBLEM", x)
	}
	for i, x := range r.Rets {
		fmt.Println("RET", i)
		for _, k := range x.Facts.order {
			m := ""
			if x.Facts.imp[k] {
				m = " (implied)"
			}
			fmt.Println("   ", x.Facts.m[k], k, m)
		}
		for _, v := range x.Vals {
			fmt.Println("   =>", v)
		}
	}
	for _, x := range r.Panics {
		fmt.Println("PANIC", x.Kind, p.Pos(x.Pos), x.Val)
		for _, k := range x.Facts.order {
			if !x.Facts.imp[k] {
				fmt.Println("      ", x.Facts.m[k], k)
			}
		}
	}
	for _, x := range r.Asserts {
		fmt.Println("OBL", x.Kind, p.Pos(x.Pos), x.Term)
	}
	fmt.Println("steps", e.steps, "terms", e.T.next)
}

// KindType resolves a kind name to a type.
func (p *Program) KindType(k string) types.Type {
	if strings.HasPrefix(k, "[]") {
		return types.NewSlice(p.KindType(k[2:]))
	}
	k = strings.Replace(k, "mat.", "", 1)
	switch k {
	case "float64":
		return types.Typ[types.Float64]
	case "uint64":
		return types.Typ[types.Uint64]
	case "int":
		return types.Typ[types.Int]
	case "string":
		return types.Typ[types.String]
	case "bool":
		return types.Typ[types.Bool]
	case "VecDense", "Dense", "*VecDense", "*Dense":
		for _, pk := range p.Prog.AllPackages() {
			if pk.Pkg != nil && pk.Pkg.Path() == "gonum.org/v1/gonum/mat" {
				t := pk.Type(strings.TrimPrefix(k, "*")).Type()
				if k[0] == '*' {
					return types.NewPointer(t)
				}
				return t
			}
		}
	}
	if k[0] == '*' {
		return types.NewPointer(p.KindType(k[1:]))
	}
	return p.Type(k)
}

// SymArgs builds symbolic arguments; kinds pins the concrete kinds of interface
// parameters, in order ("" leaves one open).
func (e *Engine) SymArgs(fn *ssa.Function, kinds []string) []*Term {
	T := e.T
	var args []*Term
	for _, prm := range fn.Params {
		if types.IsInterface(prm.Type()) && len(kinds) > 0 {
			k := kinds[0]
			kinds = kinds[1:]
			if k != "" {
				t := e.P.KindType(k)
				args = append(args, T.Iface(T.Sym(prm.Name(), t), t))
				continue
			}
		}
		args = append(args, T.Sym(prm.Name(), prm.Type()))
	}
	return args
}

// stdConfig: well-formed operands.
func stdConfig(e *Engine) *Config {
	return &Config{KeepPanics: true, KeepObl: true, Budget: 400000, Hook: func(c *Term, f *Facts) tri {
		if c.op == "isnil" && c.args[0].op == "call" && c.args[0].name == "Check" {
			return yes
		}
		return unknown
	}, Opaque: func(fn *ssa.Function, args []*Term, depth int) bool {
		return fn.Name() == "Check" || opaqueOps[fn.Name()]
	}}
}

var opaqueOps = map[string]bool{
	"Plus": true, "Minus": true, "Multiply": true, "Transpose": true, "Substitute": true, "SubstituteAccordingTo": true,
	"Power": true, "DerivativeWrt": true, "Simplify": true, "AsSimplifiedExpression": true,
	"Comparison": true, "Constant": true, "LinearCoeff": true, "Degree": true, "Variables": true,
	"ConcretizeExpression": true, "ConcretizeVectorExpression": true, "ConcretizeMatrixExpression": true,
	"FindInSlice": true, "UniqueVars": true, "UnionOfVariables": true, "MatchesFormOf": true, "String": true,
	"VStack": true, "HStack": true,
}
