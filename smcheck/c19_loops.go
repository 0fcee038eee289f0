package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ranking of loops: some test that every round passes must compare a quantity
// that moves towards a bound fixed for the whole loop.

type ranker struct {
	L    *loopInfo
	fuel int
}

// ends says why no ranking of the loop is recognised; "" when there is one.
func (k *ranker) ends() string {
	why := "no test ends the loop in every round"
	for _, b := range k.L.order {
		if len(b.Instrs) == 0 || !k.everyRound(b) {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		in0, in1 := k.L.blocks[b.Succs[0]], k.L.blocks[b.Succs[1]]
		if in0 == in1 {
			continue
		}
		if k.test(i.Cond, in0) {
			return ""
		}
		why = "nothing the loop tests moves towards a fixed bound"
	}
	return why
}

func (k *ranker) everyRound(b *ssa.BasicBlock) bool {
	for _, l := range k.L.latch {
		if !b.Dominates(l) {
			return false
		}
	}
	return true
}

// test: a condition that cannot stay at the value that continues the loop.
func (k *ranker) test(c ssa.Value, stay bool) bool {
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return k.test(c.X, !stay)
		}
	case *ssa.Extract:
		// the next entry of a map or string
		if _, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && stay {
			return true
		}
	case *ssa.Phi:
		// the short-circuit form of a conjunction
		if c.Block() == k.L.header || !k.L.blocks[c.Block()] {
			return false
		}
		n := 0
		for _, e := range c.Edges {
			if x, ok := e.(*ssa.Const); ok && constant.BoolVal(x.Value) != stay {
				continue
			}
			if !k.test(e, stay) {
				return false
			}
			n++
		}
		return n > 0
	case *ssa.BinOp:
		op := c.Op
		if !stay {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		if op == token.NEQ {
			if isNilConst(c.Y) && k.follows(c.X) || isNilConst(c.X) && k.follows(c.Y) {
				return true
			}
		}
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
		return k.order(op, c.X, c.Y) || k.order(flip[op], c.Y, c.X)
	}
	return false
}

// order: x op y continues the loop; x must move and y must not move away.
func (k *ranker) order(op token.Token, x, y ssa.Value) bool {
	if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	up, down := 0, 0
	switch op {
	case token.LSS, token.LEQ:
		up = 1
	case token.GTR, token.GEQ:
		down = 1
	case token.NEQ:
		up, down = 1, 1
	default:
		return false
	}
	fixed := k.fixed(y, 0)
	if up > 0 && k.moves(x, 1, op == token.NEQ) && (fixed || op != token.NEQ && k.never(y, 1)) {
		return op != token.NEQ || k.meets(x, y, 1)
	}
	if down > 0 && k.moves(x, -1, op == token.NEQ) && (fixed || op != token.NEQ && k.never(y, -1)) {
		return op != token.NEQ || k.meets(x, y, -1)
	}
	// two ends that approach each other
	if op != token.NEQ {
		s := 1
		if down > 0 {
			s = -1
		}
		if k.moves(y, -s, false) && k.never(x, -s) {
			return true
		}
		// halving
		if down > 0 && k.halves(x) {
			if c, ok := intConst(y); ok && (c >= 1 || c == 0 && op == token.GTR) {
				return true
			}
		}
	} else if c, ok := intConst(y); ok && c == 0 && k.halves(x) {
		return true
	}
	return false
}

// never: y does not move in direction s.
func (k *ranker) never(y ssa.Value, s int) bool {
	p, _ := k.base(y)
	if p == nil {
		return false
	}
	lo, ok := k.step(p, -s)
	return ok && lo >= 0
}

// base: the quantity carried around the loop that a tested value shifts.
func (k *ranker) base(x ssa.Value) (*ssa.Phi, bool) {
	lenOf := false
	for {
		switch v := x.(type) {
		case *ssa.Phi:
			if v.Block() == k.L.header {
				return v, lenOf
			}
			return nil, false
		case *ssa.BinOp:
			if _, ok := intConst(v.Y); ok && (v.Op == token.ADD || v.Op == token.SUB) {
				x = v.X
				continue
			}
			if _, ok := intConst(v.X); ok && v.Op == token.ADD {
				x = v.Y
				continue
			}
			return nil, false
		case *ssa.Convert:
			x = v.X
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				x, lenOf = v.Call.Args[0], true
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
}

// moves: every round changes x by at least one (exactly one) in direction s.
func (k *ranker) moves(x ssa.Value, s int, exact bool) bool {
	p, lenOf := k.base(x)
	if p == nil {
		return false
	}
	if _, slice := p.Type().Underlying().(*types.Slice); slice != lenOf {
		if _, str := p.Type().Underlying().(*types.Basic); !str || !lenOf {
			return false
		}
	}
	lo, ok := k.step(p, s)
	if !ok || lo < 1 {
		return false
	}
	if exact {
		hi, ok := k.step(p, -s)
		return ok && hi == -1 && lo == 1
	}
	return true
}

// step: the least amount by which a round moves p in direction s.
func (k *ranker) step(p *ssa.Phi, s int) (int64, bool) {
	best, any := int64(0), false
	for i, e := range p.Edges {
		if !k.L.blocks[p.Block().Preds[i]] {
			continue
		}
		d, ok := k.delta(e, p, s, map[*ssa.Phi]bool{})
		if !ok {
			return 0, false
		}
		if !any || d < best {
			best, any = d, true
		}
	}
	return best, any
}

// delta: a lower bound of s*(v - base).
func (k *ranker) delta(v ssa.Value, base *ssa.Phi, s int, busy map[*ssa.Phi]bool) (int64, bool) {
	if v == base {
		return 0, true
	}
	if k.fuel++; k.fuel > 4000 {
		return 0, false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !k.L.blocks[in.Block()] {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		x, y, sg := v.X, v.Y, int64(s)
		if v.Op == token.SUB {
			sg = -sg
		} else if v.Op != token.ADD {
			return 0, false
		}
		c, ok := intConst(y)
		if !ok && v.Op == token.ADD {
			if c, ok = intConst(x); ok {
				x = y
			}
		}
		if !ok {
			return 0, false
		}
		d, ok := k.delta(x, base, s, busy)
		return d + sg*c, ok
	case *ssa.Convert:
		return k.delta(v.X, base, s, busy)
	case *ssa.Slice:
		d, ok := k.delta(v.X, base, s, busy)
		if !ok || s > 0 {
			return 0, false
		}
		if v.Low != nil {
			if c, is := intConst(v.Low); is && c > 0 && v.High == nil {
				return d + c, true
			}
		}
		if v.High != nil && v.Low == nil {
			if b, is := v.High.(*ssa.BinOp); is && b.Op == token.SUB {
				c, isC := intConst(b.Y)
				if l, isL := b.X.(*ssa.Call); isC && isL && c > 0 && len(l.Call.Args) == 1 && l.Call.Args[0] == v.X {
					if bi, isB := l.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
						return d + c, true
					}
				}
			}
		}
		return d, true
	case *ssa.Call:
		// append lengthens
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && s > 0 {
			d, ok := k.delta(v.Call.Args[0], base, s, busy)
			return d + listed(v.Call.Args[1]), ok
		}
	case *ssa.Phi:
		if busy[v] {
			return 1 << 40, true // the same value again: no step back on the way
		}
		busy[v] = true
		defer delete(busy, v)
		best, any := int64(0), false
		for i, e := range v.Edges {
			if v.Block().Dominates(v.Block().Preds[i]) {
				// a round of an inner loop
				d, ok := k.delta(e, v, s, map[*ssa.Phi]bool{})
				if !ok || d < 0 {
					return 0, false
				}
				continue
			}
			d, ok := k.delta(e, base, s, busy)
			if !ok {
				return 0, false
			}
			if !any || d < best {
				best, any = d, true
			}
		}
		return best, any
	}
	return 0, false
}

// listed: the number of arguments written one by one for a variadic call.
func listed(v ssa.Value) int64 {
	if s, ok := v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		if a, ok := s.X.(*ssa.Alloc); ok {
			if t, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return t.Len()
			}
		}
	}
	return 0
}

// meets: counting by ones from x cannot miss the bound.
func (k *ranker) meets(x, y ssa.Value, s int) bool {
	p, lenOf := k.base(x)
	if p == nil {
		return false
	}
	if p != x && !lenOf {
		return false
	}
	c, isC := intConst(y)
	if s < 0 {
		// down to zero from a length
		if !isC || c != 0 {
			return false
		}
		if lenOf {
			return true
		}
		for i, e := range p.Edges {
			if !k.L.blocks[p.Block().Preds[i]] && !isLen(e) {
				return false
			}
		}
		return true
	}
	for i, e := range p.Edges {
		if k.L.blocks[p.Block().Preds[i]] {
			continue
		}
		c0, ok := intConst(e)
		if !ok || !(isLen(y) && c0 == 0 || isC && c0 <= c) {
			return false
		}
	}
	return true
}

func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "cap")
}

// halves: every round divides x by at least two.
func (k *ranker) halves(x ssa.Value) bool {
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != k.L.header {
		return false
	}
	var half func(v ssa.Value, depth int) bool
	half = func(v ssa.Value, depth int) bool {
		switch v := v.(type) {
		case *ssa.BinOp:
			c, isC := intConst(v.Y)
			if !isC {
				return false
			}
			if v.Op == token.QUO && c >= 2 || v.Op == token.SHR && c >= 1 {
				if v.X == ssa.Value(p) {
					return true
				}
				if d, ok := k.delta(v.X, p, -1, map[*ssa.Phi]bool{}); ok && d >= 0 {
					return true
				}
			}
			if v.Op == token.SUB && c >= 0 {
				return half(v.X, depth)
			}
		case *ssa.Phi:
			if depth > 4 || v == p {
				return false
			}
			for _, e := range v.Edges {
				if !half(e, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	n := 0
	for i, e := range p.Edges {
		if k.L.blocks[p.Block().Preds[i]] {
			n++
			if !half(e, 0) {
				return false
			}
		}
	}
	return n > 0
}

// follows: x walks along a linked list or an error chain.
func (k *ranker) follows(x ssa.Value) bool {
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != k.L.header {
		return false
	}
	for i, e := range p.Edges {
		if !k.L.blocks[p.Block().Preds[i]] {
			continue
		}
		c, ok := e.(*ssa.Call)
		if !ok || len(c.Call.Args) == 0 || c.Call.Args[0] != ssa.Value(p) {
			return false
		}
		f := c.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch f.String() {
		case "(*container/list.Element).Next", "(*container/list.Element).Prev", "errors.Unwrap":
		default:
			return false
		}
	}
	return true
}

// fixed: the value is the same in every round.
func (k *ranker) fixed(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if !k.L.blocks[in.Block()] {
		return true
	}
	all := func(vs ...ssa.Value) bool {
		for _, x := range vs {
			if x != nil && !k.fixed(x, depth+1) {
				return false
			}
		}
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return all(v.X, v.Y)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return v.Op != token.ARROW && all(v.X)
		}
		return all(v.X) && !k.written(v.X)
	case *ssa.Field:
		return all(v.X)
	case *ssa.FieldAddr:
		return all(v.X)
	case *ssa.IndexAddr:
		return all(v.X, v.Index)
	case *ssa.Index:
		return all(v.X, v.Index)
	case *ssa.Slice:
		return all(v.X, v.Low, v.High, v.Max)
	case *ssa.Convert:
		return all(v.X)
	case *ssa.ChangeType:
		return all(v.X)
	case *ssa.ChangeInterface:
		return all(v.X)
	case *ssa.MakeInterface:
		return all(v.X)
	case *ssa.TypeAssert:
		return all(v.X)
	case *ssa.Extract:
		return all(v.Tuple)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return all(v.Call.Args...)
			}
			return false
		}
		// operations answer the same for the same operands (C18)
		if v.Call.IsInvoke() && !all(v.Call.Value) || !v.Call.IsInvoke() && v.Call.StaticCallee() == nil {
			return false
		}
		for _, a := range v.Call.Args {
			if _, ptr := a.Type().Underlying().(*types.Pointer); ptr && !strings.Contains(a.Type().String(), "gonum.org") {
				return false
			}
		}
		return all(v.Call.Args...)
	}
	return false
}

// written: the loop may store to the place.
func (k *ranker) written(addr ssa.Value) bool {
	root := rootOf(addr)
	t := addr.Type().Underlying().(*types.Pointer).Elem()
	_, local := root.(*ssa.Alloc)
	for b := range k.L.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				r := rootOf(in.Addr)
				if r == root && overlap(in.Val.Type(), t) {
					return true
				}
				_, l2 := r.(*ssa.Alloc)
				if !local && !l2 && types.Identical(in.Val.Type(), t) {
					return true
				}
			case *ssa.MakeClosure:
				for _, x := range in.Bindings {
					if rootOf(x) == root {
						return true
					}
				}
			case ssa.CallInstruction:
				for _, x := range in.Common().Args {
					if _, ok := x.Type().Underlying().(*types.Pointer); ok && local && rootOf(x) == root {
						return true
					}
				}
			}
		}
	}
	return false
}

func overlap(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	_, x := a.Underlying().(*types.Struct)
	_, y := b.Underlying().(*types.Struct)
	return x || y
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return x.X
			}
			v = x.X
		default:
			return v
		}
	}
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}
