package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Runs of segs: a subsector names its segs by the first one and their number.

// bare: v without conversions.
func bare(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// addends splits a sum; ok is false when something else than additions occurs.
func addends(v ssa.Value) []ssa.Value {
	v = bare(v)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(addends(b.X), addends(b.Y)...)
	}
	return []ssa.Value{v}
}

func isZero(v ssa.Value) bool {
	c, ok := bare(v).(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

// leaves: the values a (nested) phi may have, phis themselves left out.
func leaves(v ssa.Value, seen map[ssa.Value]bool, out map[ssa.Value]bool) {
	v = bare(v)
	if seen[v] {
		return
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			leaves(e, seen, out)
		}
		return
	}
	out[v] = true
}

// reaches: b can be reached from a by at least one step.
func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		w = append(w, x.Succs...)
	}
	return false
}

func ruleSegRuns(c *Ctx) {
	p := c.P
	const rn = "seg-runs"
	c.Rule("seg-runs: where the first seg of each subsector is recomputed as a running number, the number grows by exactly the seg count of one subsector per subsector, starts at zero or at the end of another subsector, and is stored before it grows; where a new subsector's seg count is a difference, what is subtracted is the value stored as its first seg")
	for _, fn := range p.Funcs {
		var firsts, counts []*ssa.Store
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch {
				case isFirstSeg(s.Addr):
					firsts = append(firsts, s)
				case segCountAddr(s.Addr):
					counts = append(counts, s)
				}
			}
		}
		for _, s := range firsts {
			c.Count(rn+": first segs stored", 1)
			runningSum(c, rn, fn, s)
		}
		if len(firsts) == 0 {
			continue
		}
		firstVals := map[ssa.Value]bool{}
		for _, s := range firsts {
			firstVals[bare(s.Val)] = true
			leaves(s.Val, map[ssa.Value]bool{}, firstVals)
		}
		for _, s := range counts {
			ls := map[ssa.Value]bool{}
			leaves(s.Val, map[ssa.Value]bool{}, ls)
			for v := range ls {
				b, ok := v.(*ssa.BinOp)
				if !ok || b.Op != token.SUB {
					continue
				}
				c.Count(rn+": seg counts that are a difference", 1)
				c.Site(FullName(fn), p.InstrPos(s))
				if !isLen(b.X) {
					c.Viol(rn, "N06|seg count not the growth of the list ["+fn.Name()+"]", p.Pos(b.Pos()), "the seg count of a subsector is a difference that does not start from the length of the list of segs in "+FullName(fn))
				}
				if !firstVals[bare(b.Y)] {
					c.Viol(rn, "N06|seg count not counted from the first seg ["+fn.Name()+"]", p.Pos(b.Pos()), "the seg count of a subsector is not counted from the value stored as its first seg in "+FullName(fn))
				}
			}
		}
	}
	c.Min(rn, rn+": first segs stored", 3)
	c.Min(rn, rn+": running numbers", 1)
}

func isLen(v ssa.Value) bool {
	ci, ok := bare(v).(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := ci.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func subsectorField(a ssa.Value, name string) bool {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	f, ok := structField(fa.X, fa.Field)
	return ok && f.name == name && strings.HasSuffix(family(f.st.Obj().Name()), "SubSector")
}

func segCountAddr(a ssa.Value) bool { return subsectorField(a, "SegCount") }

// isFirstSeg: the field, or an element of a list of first segs.
func isFirstSeg(a ssa.Value) bool {
	if subsectorField(a, "FirstSeg") {
		return true
	}
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	f, ok := readsField(ia.X)
	if !ok || !strings.EqualFold(f.name, "firstSegs") {
		return false
	}
	_, ok = ia.X.Type().Underlying().(*types.Slice)
	return ok
}

// runningSum: the value stored is carried round the loop the store is in.
func runningSum(c *Ctx, rn string, fn *ssa.Function, s *ssa.Store) {
	p := c.P
	for _, t := range addends(s.Val) {
		ph, ok := t.(*ssa.Phi)
		if !ok || !reaches(s.Block(), ph.Block()) || !reaches(ph.Block(), s.Block()) && ph.Block() != s.Block() {
			continue
		}
		// carried round: some edge is computed from the phi
		carried := false
		type edge struct {
			v    ssa.Value
			back bool
		}
		var es []edge
		for i, e := range ph.Edges {
			back := reaches(ph.Block(), ph.Block().Preds[i]) || ph.Block() == ph.Block().Preds[i]
			es = append(es, edge{e, back})
			carried = carried || back
		}
		if !carried {
			continue
		}
		c.Count(rn+": running numbers", 1)
		c.Site(FullName(fn), p.InstrPos(s))
		key := " [" + fn.Name() + "]"
		if len(addends(s.Val)) > 1 {
			c.Viol(rn, "N06|first seg not the running number"+key, p.InstrPos(s), "the first seg stored is not the running number itself but something added to it in "+FullName(fn))
			return
		}
		for _, e := range es {
			if !e.back {
				if k, ok := bare(e.v).(*ssa.Const); ok && !isZero(k) {
					c.Viol(rn, "N06|running number starts wrong"+key, p.InstrPos(s), "the number of the first seg does not start at zero in "+FullName(fn))
				}
				continue
			}
			grown := map[ssa.Value]bool{}
			leaves2(e.v, ph, map[ssa.Value]bool{}, grown)
			for v := range grown {
				if v == ph {
					// not grown on this way round: a subsector without segs, or
					// one that was skipped
					continue
				}
				n, self, other := 0, 0, false
				for _, a := range addends(v) {
					switch {
					case a == ssa.Value(ph):
						self++
					default:
						f, ok := readsField(a)
						switch {
						case ok && f.name == "SegCount":
							n++
						case isZero(a):
						default:
							if _, k := a.(*ssa.Const); k {
								other = true
							} else if ok {
								other = true
							} else if b, k := a.(*ssa.BinOp); k && b.Op == token.SUB {
								other = true
							} else {
								// a variable of its own: not followed
								n = 1
							}
						}
					}
				}
				if other || self > 0 && n != 1 {
					c.Viol(rn, "N06|running number grows wrong"+key, p.InstrPos(s), "the number of the first seg does not grow by exactly the number of segs of one subsector in "+FullName(fn))
				}
			}
		}
	}
}

// leaves2: as leaves, but stops at the phi given.
func leaves2(v ssa.Value, stop *ssa.Phi, seen, out map[ssa.Value]bool) {
	v = bare(v)
	if v == ssa.Value(stop) {
		out[v] = true
		return
	}
	if seen[v] {
		return
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			leaves2(e, stop, seen, out)
		}
		return
	}
	out[v] = true
}
