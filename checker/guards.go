package main

import (
	"go/token"
	"math"

	"golang.org/x/tools/go/ssa"
)

// guard: a condition known to have the given value wherever a block runs,
// because every way into the block passes the corresponding branch.
type guard struct {
	cond ssa.Value
	val  bool
	at   *ssa.BasicBlock
}

// guards lists the branch conditions that dominate block b.
func guards(b *ssa.BasicBlock) []guard {
	var r []guard
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		for i, s := range id.Succs {
			if s == d && len(d.Preds) == 1 {
				r = append(r, normGuard(iff.Cond, i == 0, id))
			}
		}
	}
	return r
}

func normGuard(c ssa.Value, val bool, at *ssa.BasicBlock) guard {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return guard{c, val, at}
		}
		c, val = u.X, !val
	}
}

// cmpOf gives a guard as a comparison that holds.
func (g guard) cmp() (x ssa.Value, op token.Token, y ssa.Value, ok bool) {
	b, ok := g.cond.(*ssa.BinOp)
	if !ok {
		return nil, 0, nil, false
	}
	op = b.Op
	if !g.val {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		default:
			return nil, 0, nil, false
		}
	}
	return b.X, op, b.Y, true
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// boundsAt: constant bounds of integer value v wherever block b runs.
func (p *Prog) boundsAt(v ssa.Value, b *ssa.BasicBlock) (lo, hi int64) {
	return p.boundsAt1(v, b, map[ssa.Value]bool{})
}

func (p *Prog) boundsAt1(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	if seen[v] {
		return
	}
	seen[v] = true
	if k, ok := v.(*ssa.Const); ok {
		if n, ok := constInt(k.Value); ok {
			return n, n
		}
		return
	}
	if ph, ok := v.(*ssa.Phi); ok {
		l, h := int64(math.MaxInt64), int64(math.MinInt64)
		for i, e := range ph.Edges {
			a, z := p.boundsAt1(e, ph.Block().Preds[i], seen)
			l, h = min(l, a), max(h, z)
		}
		lo, hi = max(lo, l), min(hi, h)
	}
	for _, g := range guards(b) {
		x, op, y, ok := g.cmp()
		if !ok {
			continue
		}
		if y == v {
			x, y, op = y, x, flip(op)
		}
		k, isC := y.(*ssa.Const)
		if x != v || !isC {
			continue
		}
		n, ok := constInt(k.Value)
		if !ok {
			continue
		}
		switch op {
		case token.LSS:
			hi = min(hi, n-1)
		case token.LEQ:
			hi = min(hi, n)
		case token.GTR:
			lo = max(lo, n+1)
		case token.GEQ:
			lo = max(lo, n)
		case token.EQL:
			lo, hi = max(lo, n), min(hi, n)
		}
	}
	return
}
