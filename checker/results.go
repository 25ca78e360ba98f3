package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Results of functions that are the same or never nil whatever they do.

// resultVals are the values fn may return as result i.
func resultVals(fn *ssa.Function, i int) []ssa.Value {
	var r []ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && i < len(rt.Results) {
				r = append(r, rt.Results[i])
			}
		}
	}
	return r
}

// constResult: result i of fn is the same constant on every return.
func (p *Prog) constResult(fn *ssa.Function, i int) *ssa.Const {
	if fn.Blocks == nil || !p.InRepo(fn) {
		return nil
	}
	var c *ssa.Const
	for _, v := range resultVals(fn, i) {
		k, ok := v.(*ssa.Const)
		if !ok {
			return nil
		}
		if c != nil && (c.Value == nil) != (k.Value == nil) {
			return nil
		}
		if c != nil && c.Value != nil && c.Value.ExactString() != k.Value.ExactString() {
			return nil
		}
		c = k
	}
	return c
}

type resKey struct {
	fn *ssa.Function
	i  int
}

var nonNilRes map[resKey]bool

// nonNilResult: the pointer result i of fn is never nil (greatest fixpoint: a
// call that returns has an innermost return of its own).
func (p *Prog) nonNilResult(fn *ssa.Function, i int) bool {
	if nonNilRes == nil {
		nonNilRes = map[resKey]bool{}
		for _, f := range p.Funcs {
			for j := 0; j < f.Signature.Results().Len(); j++ {
				if _, ok := types.Unalias(f.Signature.Results().At(j).Type()).Underlying().(*types.Pointer); ok && f.Blocks != nil {
					nonNilRes[resKey{f, j}] = true
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for k, ok := range nonNilRes {
				if !ok {
					continue
				}
				if !p.retNonNil(k.fn, k.i, nil) {
					nonNilRes[k] = false
					ch = true
				}
			}
		}
	}
	return nonNilRes[resKey{fn, i}]
}

// retNonNil: no return of fn gives nil as result i if the parameters assumed
// are not nil.
func (p *Prog) retNonNil(fn *ssa.Function, i int, assumed map[ssa.Value]bool) bool {
	for _, b := range fn.Blocks {
	instrs:
		for _, in := range b.Instrs {
			rt, ok := in.(*ssa.Return)
			if !ok || i >= len(rt.Results) {
				continue
			}
			for _, g := range guards(b) {
				x, op, y, ok := g.cmp()
				if !ok {
					continue
				}
				if isNilConst(x) {
					x, y = y, x
				}
				if !isNilConst(y) {
					continue
				}
				if op == token.EQL && assumed[x] || op == token.NEQ && x == rt.Results[i] {
					continue instrs
				}
			}
			seen := map[ssa.Value]bool{}
			for a := range assumed {
				seen[a] = true
			}
			if ph, ok := rt.Results[i].(*ssa.Phi); ok {
				if skip := notFirst(ph, b); len(skip) > 0 {
					seen[ph] = true
					for j := range ph.Edges {
						if !skip[j] && !p.nonNilEdge(ph, j, seen) {
							return false
						}
					}
					continue
				}
			}
			if !p.nonNilValue(rt.Results[i], seen) {
				return false
			}
		}
	}
	return true
}

// notFirst: ph is a variable of a loop whose end is at block b; the edges into
// the loop over which its condition is known to hold, so that the end is not
// reached without a further pass.
func notFirst(ph *ssa.Phi, b *ssa.BasicBlock) map[int]bool {
	h := ph.Block()
	if h == b || len(h.Succs) != 2 {
		return nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	out := -1
	for k, s := range h.Succs {
		if len(s.Preds) == 1 && s.Dominates(b) {
			out = k
		}
	}
	if out < 0 {
		return nil
	}
	r := map[int]bool{}
	for j := range ph.Edges {
		v := ssa.Value(iff.Cond)
		if c, ok := v.(*ssa.Phi); ok && c.Block() == h {
			v = c.Edges[j]
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) != (out == 0) {
				r[j] = true
			}
		}
	}
	return r
}

// nonNilEdge: what the variable gets over edge j is not nil.
func (p *Prog) nonNilEdge(ph *ssa.Phi, j int, seen map[ssa.Value]bool) bool {
	v := ph.Edges[j]
	pred := ph.Block().Preds[j]
	if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			x, y := bo.X, bo.Y
			if isNilConst(x) {
				x, y = y, x
			}
			if x == v && isNilConst(y) && (bo.Op == token.EQL && pred.Succs[1] == ph.Block() || bo.Op == token.NEQ && pred.Succs[0] == ph.Block()) {
				return true
			}
		}
	}
	return p.nonNilValue(v, seen)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (p *Prog) nonNilValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	case *ssa.Phi:
		for j := range x.Edges {
			if !p.nonNilEdge(x, j, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return p.nonNilCall(x, 0, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.nonNilCall(c, x.Index, seen)
		}
	case *ssa.ChangeType:
		return p.nonNilValue(x.X, seen)
	case *ssa.Convert:
		if ptrLike(x.Type()) && ptrLike(x.X.Type()) {
			return p.nonNilValue(x.X, seen)
		}
	}
	return false
}

func ptrLike(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (p *Prog) nonNilCall(c *ssa.Call, i int, seen map[ssa.Value]bool) bool {
	fns := p.Callees(c)
	if len(fns) == 0 {
		return false
	}
	for _, f := range fns {
		if u := unwrap(f); f.Synthetic != "" && u != nil {
			f = u
		}
		if p.isNoRet(f) {
			continue
		}
		if nonNilRes[resKey{f, i}] {
			continue
		}
		if f.Blocks == nil || c.Call.IsInvoke() || len(f.Params) != len(c.Call.Args) || len(f.Blocks) > 6 || p.nnDepth > 3 {
			return false
		}
		as := map[ssa.Value]bool{}
		p.nnDepth++
		for j, a := range c.Call.Args {
			if ptrLike(a.Type()) && p.nonNilValue(a, seen) {
				as[f.Params[j]] = true
			}
		}
		ok := len(as) > 0 && p.retNonNil(f, i, as)
		p.nnDepth--
		if !ok {
			return false
		}
	}
	return true
}

func (p *Prog) isNoRet(f *ssa.Function) bool { return p.NoReturn()[f] }

// fieldNonNil: everything ever stored into the field is non-nil.
func (p *Prog) fieldNonNil(cls string) bool {
	p.nonNilResult(nil, 0)
	n := 0
	ok := true
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		s, is := in.(*ssa.Store)
		if !is {
			return
		}
		if c, _ := addrClass(s.Addr); c == cls {
			n++
			if !p.nonNilValue(s.Val, map[ssa.Value]bool{}) {
				ok = false
			}
		}
	})
	return ok && n > 0
}

// Bool is the value of a boolean constant.
func (t *Term) Bool() (bool, bool) {
	if t == nil || t.kind != KConst || t.val.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.val), true
}
