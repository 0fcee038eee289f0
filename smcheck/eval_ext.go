package main

// Models of the few external operations the library uses: gonum vectors are
// lists of numbers, gonum matrices lists of rows.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.NewNamed(types.NewTypeName(0, nil, "someError", nil), types.NewStruct(nil, nil), nil)

func (fr *frame) external(in *ssa.Call, fn *ssa.Function, args []*Term, st *State) ([]*Term, *State, bool) {
	e, T := fr.e, fr.e.T
	if fn.Pkg == nil {
		return nil, nil, false
	}
	path := fn.Pkg.Pkg.Path()
	switch path {
	case "fmt", "errors":
		switch fn.Name() {
		case "Errorf", "New":
			return []*Term{T.mk(Term{op: "iface", typ: errType, args: []*Term{T.mk(Term{op: "errval"})}})}, st, true
		}
		if strings.HasPrefix(fn.Name(), "Sprint") {
			r, s := fr.uninterpreted(fn.Name(), args, fn.Signature, st)
			return r, s, true
		}
		return nil, nil, false
	case "gonum.org/v1/gonum/mat":
	default:
		return nil, nil, false
	}
	f64 := types.Typ[types.Float64]
	ld := func(p *Term) *Term { return e.freeze(e.list(st, e.load(fr, st, p, nil, in.Pos())), st) }
	newK := func() *Term { e.nat++; return T.mk(Term{op: "idx", n: e.nat}) }
	zero := func(n *Term) *Term { return T.mk(Term{op: "zeros", args: []*Term{n}, typ: f64}) }
	cols := func(d *Term) *Term {
		if d.op == "map" {
			return T.Len(T.open(d.args[1], T.Int(0)))
		}
		return T.Len(T.Elem(d, T.Int(0), types.NewSlice(f64)))
	}
	isDense := false
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		switch {
		case isGonum(t, "VecDense"):
		case isGonum(t, "Dense"):
			isDense = true
		default:
			return nil, nil, false
		}
	}
	rowT := types.NewSlice(f64)
	// operand may be passed as a mat.Vector / mat.Matrix interface holding a pointer
	unbox := func(x *Term) *Term {
		if x.op == "iface" {
			x = x.args[0]
		}
		return ld(x)
	}
	mapv := func(l *Term, f func(x *Term, k *Term) *Term) *Term {
		k := newK()
		return T.MapN(T.Len(l), k, f(T.Elem(l, k, f64), k))
	}
	mapm := func(r, c *Term, f func(i, j *Term) *Term) *Term {
		i, j := newK(), newK()
		return T.MapN(r, i, T.MapN(c, j, f(i, j)))
	}
	at := func(d, i, j *Term) *Term { return T.Elem(T.Elem(d, i, rowT), j, f64) }
	inRange := func(i, n *Term) bool {
		lo, hi := T.Lt(i, T.Int(0)), T.Lt(i, n)
		dl, dh := e.D.Decide(lo, st.facts), e.D.Decide(hi, st.facts)
		if e.cfg.KeepObl && (dl != no || dh != yes) {
			c := hi
			if dl != no {
				c = T.Not(lo)
			}
			e.obls = append(e.obls, Obl{"index", fr.fn, in.Pos(), c, st.facts.clone(), fr.depth})
		}
		if dl == yes || dh == no {
			fr.kill(st, "index out of range", in.Pos(), i)
			return false
		}
		return fr.assume(st, lo, false, true) && fr.assume(st, hi, true, true)
	}
	sameLen := func(a, b *Term) bool {
		c := T.EqInt(a, b)
		dec := e.D.Decide(c, st.facts)
		if dec == no {
			fr.kill(st, "dimension mismatch", in.Pos(), nil)
			return false
		}
		if dec == unknown && e.cfg.KeepObl {
			e.obls = append(e.obls, Obl{"dims", fr.fn, in.Pos(), c, st.facts.clone(), fr.depth})
		}
		return fr.assume(st, c, true, true)
	}
	switch fn.Name() {
	case "NewVecDense":
		n, data := args[0], e.freeze(e.list(st, args[1]), st)
		c := data
		if data.op == "lit" && len(data.args) == 0 {
			c = zero(n)
		} else if !fr.assume(st, T.EqInt(n, T.Len(data)), true, true) {
			fr.kill(st, "wrong data length", in.Pos(), nil)
			return nil, nil, true
		}
		o := e.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), st, c)
		return []*Term{T.mk(Term{op: "ptr", n: o})}, st, true
	case "NewDense":
		r, c, data := args[0], args[1], e.freeze(e.list(st, args[2]), st)
		var d *Term
		if data.op == "lit" && len(data.args) == 0 || data.op == "zeros" {
			d = T.MapN(r, newK(), zero(c))
		} else {
			d = mapm(r, c, func(i, j *Term) *Term {
				return T.Elem(data, T.Add(fr.intArith(tokenMUL, i, c), j, 1), f64)
			})
		}
		o := e.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), st, d)
		return []*Term{T.mk(Term{op: "ptr", n: o})}, st, true
	}
	floats := types.NewSlice(f64)
	if fn.Signature.Recv() == nil {
		switch fn.Name() {
		case "Row", "Col":
			if args[0].op != "nil" && !(args[0].op == "lit" && len(args[0].args) == 0) {
				return nil, nil, false
			}
			x := args[2]
			if x.op != "iface" || !isPointerTo(x.typ, "Dense") {
				return nil, nil, false
			}
			d := unbox(x)
			k := newK()
			n, l := T.Len(d), T.MapN(cols(d), k, at(d, args[1], k))
			if fn.Name() == "Col" {
				n, l = cols(d), T.MapN(T.Len(d), k, at(d, k, args[1]))
			}
			if !inRange(args[1], n) {
				return nil, nil, true
			}
			return []*Term{T.mk(Term{op: "slice", n: e.newObj(floats, st, l)})}, st, true
		}
		return nil, nil, false
	}
	if !isDense {
		switch fn.Name() {
		case "At":
			l := ld(args[0])
			if !inRange(args[1], T.Len(l)) || !inRange(args[2], T.Int(1)) {
				return nil, nil, true
			}
			return []*Term{T.Elem(l, args[1], f64)}, st, true
		case "RawVector":
			l := ld(args[0])
			rt := fn.Signature.Results().At(0).Type()
			rs, ok := rt.Underlying().(*types.Struct)
			if !ok {
				return nil, nil, false
			}
			var fs []*Term
			for i := 0; i < rs.NumFields(); i++ {
				switch rs.Field(i).Name() {
				case "N":
					fs = append(fs, T.Len(l))
				case "Inc":
					fs = append(fs, T.Int(1))
				case "Data":
					// its own object: C02 decides that nothing is written through it
					fs = append(fs, T.mk(Term{op: "slice", n: e.newObj(floats, st, l)}))
				default:
					return nil, nil, false
				}
			}
			return []*Term{T.Struct(rt, fs)}, st, true
		case "Zero":
			e.store(fr, st, args[0], zero(T.Len(ld(args[0]))), in.Pos())
			return nil, st, true
		case "AddScaledVec":
			a, b := unbox(args[1]), unbox(args[3])
			if !sameLen(T.Len(a), T.Len(b)) {
				return nil, nil, true
			}
			e.store(fr, st, args[0], mapv(a, func(x, k *Term) *Term {
				return T.Bin("+", x, T.Bin("*", args[2], T.Elem(b, k, f64), f64), f64)
			}), in.Pos())
			return nil, st, true
		case "MulElemVec":
			a, b := unbox(args[1]), unbox(args[2])
			if !sameLen(T.Len(a), T.Len(b)) {
				return nil, nil, true
			}
			e.store(fr, st, args[0], mapv(a, func(x, k *Term) *Term { return T.Bin("*", x, T.Elem(b, k, f64), f64) }), in.Pos())
			return nil, st, true
		case "Len":
			return []*Term{T.Len(ld(args[0]))}, st, true
		case "Dims":
			return []*Term{T.Len(ld(args[0])), T.Int(1)}, st, true
		case "AtVec":
			l := ld(args[0])
			if !inRange(args[1], T.Len(l)) {
				return nil, nil, true
			}
			return []*Term{T.Elem(l, args[1], f64)}, st, true
		case "SetVec":
			l := ld(args[0])
			if !inRange(args[1], T.Len(l)) {
				return nil, nil, true
			}
			e.store(fr, st, args[0], T.Set(l, args[1], args[2]), in.Pos())
			return nil, st, true
		case "ScaleVec":
			src := unbox(args[2])
			e.store(fr, st, args[0], mapv(src, func(x, _ *Term) *Term { return T.Bin("*", args[1], x, f64) }), in.Pos())
			return nil, st, true
		case "AddVec", "SubVec":
			a, b := unbox(args[1]), unbox(args[2])
			if !sameLen(T.Len(a), T.Len(b)) {
				return nil, nil, true
			}
			op := "+"
			if fn.Name() == "SubVec" {
				op = "-"
			}
			e.store(fr, st, args[0], mapv(a, func(x, k *Term) *Term { return T.Bin(op, x, T.Elem(b, k, f64), f64) }), in.Pos())
			return nil, st, true
		case "CopyVec", "CloneFromVec":
			e.store(fr, st, args[0], unbox(args[1]), in.Pos())
			return []*Term{T.Len(unbox(args[1]))}, st, true
		case "MulVec":
			a, b := unbox(args[1]), unbox(args[2])
			if !sameLen(cols(a), T.Len(b)) {
				return nil, nil, true
			}
			k, i := newK(), newK()
			dot := T.Sum("float", cols(a), k, T.Bin("*", at(a, i, k), T.Elem(b, k, f64), f64))
			e.store(fr, st, args[0], T.MapN(T.Len(a), i, dot), in.Pos())
			return nil, st, true
		}
		return nil, nil, false
	}
	switch fn.Name() {
	case "Dims":
		d := ld(args[0])
		return []*Term{T.Len(d), cols(d)}, st, true
	case "At":
		d := ld(args[0])
		if !inRange(args[1], T.Len(d)) || !inRange(args[2], cols(d)) {
			return nil, nil, true
		}
		return []*Term{at(d, args[1], args[2])}, st, true
	case "Set":
		d := ld(args[0])
		if !inRange(args[1], T.Len(d)) || !inRange(args[2], cols(d)) {
			return nil, nil, true
		}
		e.store(fr, st, args[0], T.Set(d, args[1], T.Set(T.Elem(d, args[1], rowT), args[2], args[3])), in.Pos())
		return nil, st, true
	case "SetRow":
		d, row := ld(args[0]), e.freeze(e.list(st, args[2]), st)
		if !inRange(args[1], T.Len(d)) || !sameLen(cols(d), T.Len(row)) {
			return nil, nil, true
		}
		k := newK()
		e.store(fr, st, args[0], T.Set(d, args[1], T.MapN(T.Len(T.Elem(d, args[1], rowT)), k, T.Elem(row, k, f64))), in.Pos())
		return nil, st, true
	case "SetCol":
		d, col := ld(args[0]), e.freeze(e.list(st, args[2]), st)
		if !inRange(args[1], cols(d)) || !sameLen(T.Len(d), T.Len(col)) {
			return nil, nil, true
		}
		k := newK()
		e.store(fr, st, args[0], T.MapN(T.Len(d), k, T.Set(T.Elem(d, k, rowT), args[1], T.Elem(col, k, f64))), in.Pos())
		return nil, st, true
	case "RawRowView":
		d := ld(args[0])
		if !inRange(args[1], T.Len(d)) {
			return nil, nil, true
		}
		k := newK()
		return []*Term{T.mk(Term{op: "slice", n: e.newObj(floats, st, T.MapN(cols(d), k, at(d, args[1], k)))})}, st, true
	case "Zero":
		d := ld(args[0])
		e.store(fr, st, args[0], T.MapN(T.Len(d), newK(), zero(cols(d))), in.Pos())
		return nil, st, true
	case "MulElem":
		a, b := unbox(args[1]), unbox(args[2])
		if !sameLen(T.Len(a), T.Len(b)) || !sameLen(cols(a), cols(b)) {
			return nil, nil, true
		}
		e.store(fr, st, args[0], mapm(T.Len(a), cols(a), func(i, j *Term) *Term { return T.Bin("*", at(a, i, j), at(b, i, j), f64) }), in.Pos())
		return nil, st, true
	case "Scale":
		d := unbox(args[2])
		e.store(fr, st, args[0], mapm(T.Len(d), cols(d), func(i, j *Term) *Term { return T.Bin("*", args[1], at(d, i, j), f64) }), in.Pos())
		return nil, st, true
	case "Add", "Sub":
		a, b := unbox(args[1]), unbox(args[2])
		if !sameLen(T.Len(a), T.Len(b)) || !sameLen(cols(a), cols(b)) {
			return nil, nil, true
		}
		op := "+"
		if fn.Name() == "Sub" {
			op = "-"
		}
		e.store(fr, st, args[0], mapm(T.Len(a), cols(a), func(i, j *Term) *Term { return T.Bin(op, at(a, i, j), at(b, i, j), f64) }), in.Pos())
		return nil, st, true
	case "Mul":
		a, b := unbox(args[1]), unbox(args[2])
		if !sameLen(cols(a), T.Len(b)) {
			return nil, nil, true
		}
		k := newK()
		e.store(fr, st, args[0], mapm(T.Len(a), cols(b), func(i, j *Term) *Term {
			return T.Sum("float", cols(a), k, T.Bin("*", at(a, i, k), at(b, k, j), f64))
		}), in.Pos())
		return nil, st, true
	case "CloneFrom", "Copy":
		e.store(fr, st, args[0], unbox(args[1]), in.Pos())
		return []*Term{T.Len(unbox(args[1])), cols(unbox(args[1]))}, st, true
	case "T":
		d := ld(args[0])
		t := mapm(cols(d), T.Len(d), func(i, j *Term) *Term { return at(d, j, i) })
		recvT := fn.Signature.Recv().Type()
		o := e.newObj(recvT.(*types.Pointer).Elem(), st, t)
		return []*Term{T.Iface(T.mk(Term{op: "ptr", n: o}), recvT)}, st, true
	case "ColView", "RowView":
		d := ld(args[0])
		var l *Term
		k := newK()
		if fn.Name() == "ColView" {
			if !inRange(args[1], cols(d)) {
				return nil, nil, true
			}
			l = T.MapN(T.Len(d), k, at(d, k, args[1]))
		} else {
			if !inRange(args[1], T.Len(d)) {
				return nil, nil, true
			}
			l = T.MapN(cols(d), k, at(d, args[1], k))
		}
		vd := e.P.gonumType("VecDense")
		o := e.newObj(vd, st, l)
		return []*Term{T.Iface(T.mk(Term{op: "ptr", n: o}), types.NewPointer(vd))}, st, true
	}
	return nil, nil, false
}

func isPointerTo(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	return ok && isGonum(p.Elem(), name)
}

// readOnly: a function from outside the library that leaves its arguments alone.
func readOnly(fn *ssa.Function) bool {
	path := ""
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	switch path {
	case "fmt", "errors", "strings", "math", "strconv", "unicode", "math/bits", "math/cmplx", "reflect", "bytes":
		return !strings.HasPrefix(name, "Fscan") && !strings.HasPrefix(name, "Sscan") && name != "As"
	case "slices", "maps":
		for _, w := range []string{"Sort", "Reverse", "Insert", "Delete", "Replace", "Compact", "Copy"} {
			if strings.HasPrefix(name, w) {
				return false
			}
		}
		return true
	case "sort":
		return strings.HasPrefix(name, "Search") || strings.HasSuffix(name, "AreSorted") || strings.HasSuffix(name, "IsSorted")
	case "gonum.org/v1/gonum/mat":
		if fn.Signature.Recv() == nil {
			switch name {
			case "Sum", "Dot", "Equal", "EqualApprox", "Max", "Min", "Norm", "Trace", "Det", "Formatted", "NewVecDense", "NewDense":
				return true
			}
			return false
		}
		return gonumReads[name] || gonumAliases[name]
	}
	return false
}

// overwrite: a function that is not read changes what its arguments refer to.
func (fr *frame) overwrite(in *ssa.Call, fn *ssa.Function, args []*Term, st *State) {
	e, T := fr.e, fr.e.T
	if readOnly(fn) {
		return
	}
	var frozen []*Term
	for _, a := range args {
		frozen = append(frozen, e.freeze(a, st))
	}
	for i, a := range args {
		if a.op == "iface" {
			a = a.args[0]
		}
		var t types.Type
		var old *Term
		switch a.op {
		case "ptr", "own":
			old = st.mem[a.n]
			if old != nil {
				old = e.read(old, a.args)
			}
		case "slice":
			old = st.mem[a.n]
		}
		if old == nil {
			fr.overwriteValue(in, fn, i, a, frozen, st)
			continue
		}
		e.nat++
		after := T.mk(Term{op: "call", name: fmt.Sprintf("after:%s:%d:%d", fn.String(), i, e.nat), args: frozen, typ: t})
		if a.op == "slice" {
			st.mem[a.n] = after
			e.logWrite(a.n)
			continue
		}
		e.store(fr, st, a, after, in.Pos())
	}
}

// overwriteValue: the argument is a slice or pointer known only by its value,
// which every register and cell that holds the same value may share.
func (fr *frame) overwriteValue(in *ssa.Call, fn *ssa.Function, i int, a *Term, frozen []*Term, st *State) {
	e, T := fr.e, fr.e.T
	v := in.Call.Args[i]
	for {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		} else if m, ok := v.(*ssa.ChangeType); ok {
			v = m.X
		} else {
			break
		}
	}
	if !isSliceType(v.Type()) || a.op == "lit" || a.op == "opaque" {
		return
	}
	if fr.lf != nil && fr.lf.inner[in.Block()] != nil {
		e.problem(fr, in.Pos(), "%s may change its argument in a loop", fn)
		return
	}
	e.nat++
	after := T.mk(Term{op: "call", name: fmt.Sprintf("after:%s:%d:%d", fn.String(), i, e.nat), args: frozen, typ: v.Type()})
	for r, x := range st.env {
		if x == a {
			st.env[r] = after
		} else if x.op == "iface" && x.args[0] == a {
			st.env[r] = T.Iface(after, v.Type())
		}
	}
	for o, x := range st.mem {
		if x == a {
			st.mem[o] = after
			e.logWrite(o)
		}
	}
}

func (p *Program) gonumType(name string) types.Type {
	for _, imp := range p.Sym.Pkg.Imports() {
		if imp.Path() == "gonum.org/v1/gonum/mat" {
			if o := imp.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// Sum is the sum of body over k = 0..n-1 (integers or reals).
func (T *Terms) Sum(kind string, n, k, body *Term) *Term {
	zero := T.Int(0)
	if kind == "float" {
		zero = T.Float(0)
	}
	if body == zero {
		return zero
	}
	if v, ok := n.isInt(); ok && v <= 0 {
		return zero
	}
	if v, ok := n.isInt(); ok && v == 1 {
		return T.Subst(body, k, T.Int(0))
	}
	return T.mk(Term{op: "sum", name: kind, args: []*Term{n, T.close(body, []*Term{k})}})
}
