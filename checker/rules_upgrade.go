package main

import (
	"golang.org/x/tools/go/ssa"
)

// always: b runs whenever a does, before it or after it (unless the program
// ends in between).
func (p *Prog) always(a, b ssa.Instruction) bool {
	if before(b, a) {
		return true
	}
	if a.Block() == b.Block() {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{b.Block(): true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		for _, in := range x.Instrs {
			if ci, ok := in.(*ssa.Call); ok && ci.Common().StaticCallee() != nil && p.isNoRet(ci.Common().StaticCallee()) {
				return true
			}
		}
		if len(x.Succs) == 0 {
			_, isRet := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
			return !isRet
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	for _, s := range a.Block().Succs {
		if !walk(s) {
			return false
		}
	}
	return len(a.Block().Succs) > 0
}

// ruleFormatSwitch: once a tree under construction is said to be in DeeP
// format, all its data is.
func ruleFormatSwitch(c *Ctx) {
	p := c.P
	const rn = "format-switch"
	c.Rule("format-switch: wherever the format of an existing tree is set to DeeP, the segs and subsectors are converted (DeeP ones are stored, the classic ones given up) and the subsector mask is replaced, on every path on which the format is set, by the same function or one that always runs with it; nothing else changes the format of an existing tree")
	deep, ok := p.ConstInt("NODETYPE_DEEP")
	mask, ok2 := p.ConstInt("SSECTOR_DEEP_MASK")
	if !ok || !ok2 {
		c.Undecided(rn, "constants of the DeeP format are gone")
		return
	}
	type need struct {
		field string
		ok    func(v ssa.Value) bool
		text  string
	}
	k := func(v ssa.Value) (int64, bool) {
		for {
			cv, ok := v.(*ssa.Convert)
			if !ok {
				break
			}
			v = cv.X
		}
		cn, ok := v.(*ssa.Const)
		if !ok || cn.Value == nil {
			return 0, false
		}
		return Const(cn.Value).Int()
	}
	needs := []need{
		{"deepSegs", func(v ssa.Value) bool { return !isNilConst(v) }, "DeeP segs are stored"},
		{"deepSubsectors", func(v ssa.Value) bool { return !isNilConst(v) }, "DeeP subsectors are stored"},
		{"segs", isNilConst, "the classic segs are given up"},
		{"subsectors", isNilConst, "the classic subsectors are given up"},
		{"SsectorMask", func(v ssa.Value) bool { n, ok := k(v); return ok && n == mask }, "the subsector mask is replaced"},
	}
	// satisfied: an instruction of fn that always runs with `at` does it
	var satisfied func(fn *ssa.Function, at ssa.Instruction, n need, depth int) bool
	satisfied = func(fn *ssa.Function, at ssa.Instruction, n need, depth int) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						f, ok := structField(fa.X, fa.Field)
						if ok && family(f.st.Obj().Name()) == "NodesWork" && f.name == n.field && n.ok(x.Val) && (at == nil || p.always(at, x)) {
							if at == nil && !alwaysRuns(p, fn, x) {
								continue
							}
							return true
						}
					}
				case *ssa.Call:
					f := x.Common().StaticCallee()
					if f != nil && p.InRepo(f) && f != fn && depth < 3 && f.Blocks != nil {
						if at == nil && !alwaysRuns(p, fn, x) || at != nil && !p.always(at, x) {
							continue
						}
						if satisfied(f, nil, n, depth+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f, ok := structField(fa.X, fa.Field)
				if !ok || family(f.st.Obj().Name()) != "NodesWork" || f.name != "nodeType" || inTheMaking(fa.X, s) {
					continue
				}
				c.Site(rn+": changes of a tree's format", p.InstrPos(in))
				n, isC := k(s.Val)
				if !isC || n != deep {
					c.Viol(rn, "format of an existing tree changed ["+fn.Name()+"]", p.InstrPos(in), "the format of an existing tree is set to something else than DeeP in "+FullName(fn))
					continue
				}
				for _, nd := range needs {
					if satisfied(fn, s, nd, 0) {
						continue
					}
					// a small helper: its callers may do the rest
					all := len(p.callers[fn]) > 0
					for _, cs := range p.callers[fn] {
						in, ok := cs.(ssa.Instruction)
						if !ok || !satisfied(in.Parent(), in, nd, 0) {
							all = false
						}
					}
					if !all {
						c.Viol(rn, "switch without "+nd.field+" ["+fn.Name()+"]", p.InstrPos(s), "the format of a tree is set to DeeP on a path on which it is not certain that "+nd.text+" in "+FullName(fn))
					}
				}
			}
		}
	}
	c.Min(rn, rn+": changes of a tree's format", 1)
}

// alwaysRuns: the instruction runs on every path through fn that returns.
func alwaysRuns(p *Prog, fn *ssa.Function, in ssa.Instruction) bool {
	return in.Block() == fn.Blocks[0] || p.always(fn.Blocks[0].Instrs[0], in)
}

// inTheMaking: the struct was made in this function and has not been handed to
// another one before the store runs.
func inTheMaking(base ssa.Value, s *ssa.Store) bool {
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if ci, ok := r.(ssa.CallInstruction); ok && before(ci, s) {
			return false
		}
	}
	return true
}
