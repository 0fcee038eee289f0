package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"strings"
)

//go:embed valtable.txt
var valTable string

func init() {
	for id, text := range map[string]string{
		"C07": "Plus, Minus and the package's Minus evaluated for every supported pair of operand kinds; each returned value compared, entry by entry, with the sum or difference of the operands' values",
		"C08": "Multiply and Power evaluated for every supported pair of operand kinds; each returned value compared, entry by entry, with the product or power",
		"C09": "Substitute and SubstituteAccordingTo evaluated for every kind of expression and substituted scalar; each returned value compared with the simultaneous substitution",
		"C10": "DerivativeWrt evaluated for every kind; each returned value compared, entry by entry, with the partial derivative",
		"C11": "simplification, copies and conversions evaluated for every kind; each returned value compared, entry by entry, with the value of the input",
		"C12": "Transpose, stacking, At, AtVec, Dims, Len and the constant builders evaluated for every kind; shape and every entry compared with the specified ones",
	} {
		id, text := id, text
		checks[id] = func(p *Program, r *Report) { checkValues(p, r, id, text) }
	}
}

// valuePairs are the operations a property covers, with the operand kinds that
// are supported ("-" for none, "?" where the operation may refuse).
func valuePairs(id string) (out [][2]string) {
	for _, l := range strings.Split(valTable, "\n") {
		w := strings.Fields(l)
		if len(w) < 3 || w[0] != id {
			continue
		}
		for _, k := range w[2:] {
			if k == "-" {
				k = ""
			}
			out = append(out, [2]string{w[1], k})
		}
	}
	return out
}

func checkValues(p *Program, r *Report, id, text string) {
	r.Explain = text
	r.Rule("value: every return of the operation denotes, as a function of the variables and for all operands, the specified value and shape (formal real algebra over gated value numbers; loops by closed forms, sums and products)")
	r.Rule("analysis-complete: every statement of the operation is understood by the value analysis")
	s := NewSpec(p, r)
	for _, x := range valuePairs(id) {
		optional := strings.HasPrefix(x[1], "?")
		x[1] = strings.TrimPrefix(x[1], "?")
		var kinds []string
		if x[1] != "" {
			kinds = strings.Split(x[1], ",")
		}
		s.fresh()
		s.prepare = nil
		var st string
		if id == "C12" {
			st = s.structure(x[0], kinds)
		} else {
			st = s.valueSpec("value", x[0], kinds)
		}
		if st == "panics" && !optional {
			r.Bad("value", label(x[0], kinds), s.where(x[0]), "the operation no longer returns a result for these operands")
		}
	}
	min := 0
	for _, x := range valuePairs(id) {
		if !strings.HasPrefix(x[1], "?") {
			min++
		}
	}
	r.Min("value obligations", r.Counts["value obligations"], min)
}

func (s *Spec) where(name string) string {
	if fn := s.fn(name); fn != nil {
		return s.p.Pos(fn.Pos())
	}
	return "-"
}

// structure: shape, position and builder operations.
func (s *Spec) structure(name string, kinds []string) string {
	op := name
	recv := ""
	if i := strings.Index(name, "."); i >= 0 {
		recv, op = name[:i], name[i+1:]
	}
	T := s.T
	switch {
	case op == "Dims" || op == "Len":
		return s.shapeSpec(name, recv, op)
	case op == "HStack" || op == "VStack":
		return s.stackSpec(op)
	}
	switch name {
	case "OnesVector", "ZerosVector", "OnesMatrix", "ZerosMatrix", "Identity":
		mk := func(args []*Term) []*Term {
			var out []*Term
			for _, a := range args {
				out = append(out, T.Lt(T.Int(0), a))
			}
			return out
		}
		s.recv, s.shapes = "", false
		return s.valueOf("value", name, kinds, valueOps, mk, func(d *Den, a []*Term, f *Facts) *MV {
			m := &MV{R: a[0], C: T.Int(1)}
			if len(a) > 1 {
				m.C = a[1]
			}
			m.at = func(i, j *Term, g *Facts) *Poly {
				switch name[:1] {
				case "O":
					return pint(1)
				case "Z":
					return pint(0)
				}
				return d.indAtom(T.EqInt(i, j), g)
			}
			if name == "Identity" {
				m.C = a[0]
			}
			return m
		})
	}
	return s.valueSpec("value", name, kinds)
}

// shapeSpec: Dims and Len tell the number of rows and columns.
func (s *Spec) shapeSpec(name, recv, op string) string {
	T := s.T
	res, args, fn := s.run("value", name, nil, valueOps, func(a []*Term) []*Term { return s.nonEmpty(recv, a) })
	if res == nil {
		return "missing"
	}
	if len(res.Rets) == 0 {
		return "panics"
	}
	s.r.Counts["value obligations"]++
	for _, rt := range res.Rets {
		d := NewDen(s.e)
		f := rt.Facts
		R, C := T.Int(1), T.Int(1)
		if shapeOf(recv) > 0 {
			m := d.matrix(s.boxed(recv, args)[0], f)
			R, C = m.R, m.C
		}
		v := rt.Vals[0]
		ok := false
		same := func(a, b *Term) bool {
			return s.d.Decide(T.EqInt(a, b), f) == yes || d.norm(a, f) == d.norm(b, f)
		}
		if op == "Len" {
			ok = same(v, R)
		} else {
			ok = same(T.Len(v), T.Int(2)) && same(T.Elem(v, T.Int(0), nil), R) && same(T.Elem(v, T.Int(1), nil), C)
		}
		if !ok {
			s.r.Bad("value", name, s.p.Pos(fn.Pos()), fmt.Sprintf("returns %s for a %s x %s object", clip(v.String()), clip(R.String()), clip(C.String())))
			return "bad"
		}
	}
	s.r.OK(name)
	return "ok"
}

// stackSpec: the blocks one after the other, entry by entry.
func (s *Spec) stackSpec(op string) string {
	T := s.T
	s.recv, s.shapes = "", false
	mk := func(a []*Term) []*Term { return []*Term{T.Lt(T.Int(0), T.Len(a[0]))} }
	return s.valueOf("value", op, nil, valueOps, mk, func(d *Den, a []*Term, f *Facts) *MV {
		l := a[0]
		et, it := s.p.KindType("Expression"), types.Typ[types.Int]
		x, i, j := s.k(), s.k(), s.k()
		e := T.Elem(l, x, et)
		dim := func(e *Term, k int64) *Term {
			return T.Elem(T.Call("Dims", []*Term{e}, types.NewSlice(it)), T.Int(k), it)
		}
		at := T.Call("At", []*Term{e, i, j}, s.p.KindType("ScalarExpression"))
		flat := func(body *Term) *Term {
			return T.mk(Term{op: "flat", args: []*Term{T.Len(l), T.close(body, []*Term{x})}})
		}
		var list *Term
		if op == "HStack" {
			row := flat(T.MapN(dim(e, 1), j, at))
			list = T.MapN(dim(T.Elem(l, T.Int(0), et), 0), i, row)
		} else {
			list = flat(T.MapN(dim(e, 0), i, T.MapN(dim(e, 1), j, at)))
		}
		return d.container(list, types.NewSlice(types.NewSlice(s.p.KindType("ScalarExpression"))), f)
	})
}
