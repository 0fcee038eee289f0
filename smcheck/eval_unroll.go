package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Loops with a known, small number of rounds are carried out round by round.

const unrollMax = 4

// rounds: the number of rounds of a counting loop whose bound is a number.
func (fr *frame) rounds(L *loopInfo, S0 *State) (int64, bool) {
	e, T := fr.e, fr.e.T
	ifi, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	b, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS && b.Op != token.NEQ && b.Op != token.LEQ || L.blocks[L.header.Succs[0]] == L.blocks[L.header.Succs[1]] || !L.blocks[L.header.Succs[0]] {
		return 0, false
	}
	off := int64(0)
	x := b.X
	if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == L.header {
		c, ok := a.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		x, off = a.X, c.Int64()
	}
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != L.header {
		return 0, false
	}
	if s, ok := induction(p, L); !ok || s != 1 {
		return 0, false
	}
	var bound *Term
	switch y := b.Y.(type) {
	case *ssa.Const:
		bound = fr.val(S0, y)
	default:
		in, ok := y.(ssa.Instruction)
		if !ok || !L.blocks[in.Block()] {
			bound = S0.env[y]
		} else if c, ok := y.(*ssa.Call); ok && c.Call.Value.Name() == "len" && in.Block() == L.header {
			if l, ok := c.Call.Args[0].(ssa.Instruction); ok && L.blocks[l.Block()] {
				return 0, false
			}
			bound = T.Len(e.list(S0, fr.val(S0, c.Call.Args[0])))
		}
	}
	if bound == nil || S0.env[p] == nil {
		return 0, false
	}
	hi, ok1 := e.D.Resolve(bound, S0.facts).isInt()
	lo, ok2 := e.D.Resolve(S0.env[p], S0.facts).isInt()
	if !ok1 || !ok2 {
		return 0, false
	}
	n := hi - lo - off
	if b.Op == token.LEQ {
		n++
	}
	return n, true
}

// unroll carries the rounds out one after the other.
func (fr *frame) unroll(L *loopInfo, S *State) ([]*edge, bool) {
	e := fr.e
	nprob, nobl, npan, nret := len(e.probs), len(e.obls), len(e.panics), len(fr.rets)
	var out []*edge
	for i := 0; i <= unrollMax+1; i++ {
		fr.curK[L.header] = e.T.Int(int64(i))
		backs, exits := fr.region(L.order, L, S.clone())
		for _, x := range liveEdges(exits) {
			out = append(out, x)
		}
		backs = liveEdges(backs)
		if len(backs) == 0 {
			return out, true
		}
		S = fr.joinEdges(L.header, backs)
		if S.facts.bad {
			return out, true
		}
	}
	e.probs, e.obls, e.panics, fr.rets = e.probs[:nprob], e.obls[:nobl], e.panics[:npan], fr.rets[:nret]
	return nil, false
}
