package main

import (
	"regexp"
)

// The obligations of one property take the operations an operation calls at
// their specified meaning. What a property rests on in this way is decided
// with it: the same obligations, reported for the property that needs them.

type need struct {
	prop string // whose obligations
	ops  *regexp.Regexp
	why  string
}

const scalars = `(K|Variable|Monomial|Polynomial)`

var needs = map[string][]need{}

func init() {
	n := func(prop, ops, why string) need { return need{prop, regexp.MustCompile(ops), why} }
	simp := n("C11", `\.(Simplify|AsSimplifiedExpression)$|^Concretize`, "results are collected and simplified by")
	terms := n("C20", `.`, "like terms are found by")
	find := n("C14", `^(FindInSlice\(Variable|UniqueVars|UnionOfVariables)`, "variables are found by")
	plus := n("C07", `^`+scalars+`\.Plus\(`+scalars+`\)`, "terms are added by")
	times := n("C08", `^`+scalars+`\.Multiply\(`+scalars+`\)|^`+scalars+`\.Power`, "terms are multiplied by")
	negate := n("C08", `\.Multiply\((K|float64)\)`, "differences are formed by")
	constant := n("C13", `\.Constant$`, "constants are read by")
	linear := n("C13", `\.(LinearCoeff|IsLinear|Constant)$`, "linear parts are read by")
	vars := n("C14", `.`, "variables are listed by")
	needs["C07"] = []need{simp, terms, find, negate}
	needs["C08"] = []need{simp, terms, find, plus}
	needs["C09"] = []need{simp, terms, plus, times}
	needs["C10"] = []need{simp, terms, find, plus}
	needs["C11"] = []need{terms, find}
	needs["C12"] = []need{n("C11", `^Concretize`, "entries are collected by")}
	needs["C13"] = []need{find}
	checks := n("C21", `\.Check`, "bad values are told from good ones by")
	needs["C15"] = []need{checks}
	needs["C16"] = []need{checks}
	needs["C04"] = []need{constant, simp, n("C07", `^`+scalars+`\.(Minus|Plus)\(`, "sides are moved by")}
	needs["C05"] = []need{linear, vars}
	needs["C23"] = []need{terms, find}
	needs["C06"] = []need{linear, vars}
}

var baseReports = map[string]*Report{}

// base runs the check of a property without what it rests on.
func base(p *Program, id string) *Report {
	if r := baseReports[id]; r != nil {
		return r
	}
	r := NewReport(id, "")
	checks[id](p, r)
	baseReports[id] = r
	return r
}

func checkNeeds(p *Program, r *Report) {
	for _, n := range needs[r.Prop] {
		b := base(p, n.prop)
		bad := map[string]bool{}
		for _, f := range b.Findings {
			bad[f.Construct] = true
			if n.ops.MatchString(f.Construct) {
				r.Bad("rests-on: "+f.Rule, f.Construct, f.Where, n.why+" "+f.Construct+": "+f.Detail)
			}
		}
		done := map[string]bool{}
		for _, c := range b.Done {
			if n.ops.MatchString(c) && !bad[c] && !done[c] {
				done[c] = true
				r.OK(c)
			}
		}
		if len(needs[r.Prop]) > 0 && len(done) == 0 && len(b.Findings) == 0 {
			r.Bad("instance-count", n.why, "-", "no obligation of "+n.prop+" matches any more")
		}
		r.Counts[n.why+" ("+n.prop+")"] = len(done)
	}
	if len(needs[r.Prop]) > 0 {
		r.Rule("rests-on: the operations whose specified meaning the obligations presuppose meet it")
	}
}
