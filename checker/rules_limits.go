package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The functions that decide whether node data fits 16-bit indices: each may say
// "fits" only on paths on which that was found out.

const (
	unsignedMax = 65535
	signedMax   = 32767
)

func ruleSegLimits(c *Ctx) {
	p := c.P
	const rn = "limit-checks"
	c.Rule("limit-checks: the test of the last subsector says 'no overflow' only on paths on which FirstSeg+SegCount was found to reach the number of segs and FirstSeg not to exceed the limit given, in wider arithmetic; the reordering of segs says 'done' only if the number of segs less the largest subsector was found not to exceed the limit; the check of segs, and the checks of a whole tree against the unsigned and signed limits, say 'fits' only if each of the quantities they are about was found to fit; a dry run changes nothing")
	w := p.Named("NodesWork")
	if w == nil {
		c.Undecided(rn, "type NodesWork is gone")
		return
	}
	kinds := map[*ssa.Function]string{}
	byKind := map[string]*ssa.Function{}
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() == nil || namedName(deref(fn.Signature.Recv().Type())) != "NodesWork" || fn.Blocks == nil {
			continue
		}
		k := ""
		switch sigOf(fn) {
		case "uint16->bool":
			k = "over"
		case "uint16,bool->bool,int":
			k = "fit"
		case "bool->bool":
			k = "segs"
		case "->bool":
			switch fn.Name() {
			case "isUnsignedOverflow":
				k = "unsigned"
			case "isVanillaSignedOverflow":
				k = "signed"
			}
		}
		if k == "" {
			continue
		}
		if byKind[k] != nil {
			// told apart by name only if there is more than one of a shape
			std := map[string]string{"over": "lastSubsectorOverflows", "fit": "fitSegsToTarget", "segs": "tooManySegsCantFix"}[k]
			if fn.Name() != std {
				continue
			}
			delete(kinds, byKind[k])
		}
		byKind[k] = fn
		kinds[fn] = k
	}
	for _, k := range []string{"over", "fit", "segs", "unsigned", "signed"} {
		if byKind[k] == nil {
			c.Undecided(rn, "no function found that is the "+k+" check of node data")
			continue
		}
		limitCheck(c, rn, byKind[k], k, kinds)
	}
	for _, k := range []string{"over", "fit", "segs", "unsigned", "signed"} {
		c.Min(rn, rn+": answer of check '"+k+"'", 1)
	}
	wrappedBounds(c, rn)
}

func sigOf(fn *ssa.Function) string {
	var a, b []string
	s := fn.Signature
	for i := 0; i < s.Params().Len(); i++ {
		a = append(a, types.TypeString(s.Params().At(i).Type(), nil))
	}
	for i := 0; i < s.Results().Len(); i++ {
		b = append(b, types.TypeString(s.Results().At(i).Type(), nil))
	}
	return strings.Join(a, ",") + "->" + strings.Join(b, ",")
}

func limitCheck(c *Ctx, rn string, root *ssa.Function, kind string, kinds map[*ssa.Function]string) {
	p := c.P
	wT := p.Named("NodesWork")
	vanilla, ok := p.ConstInt("NODETYPE_VANILLA")
	if !ok {
		c.Undecided(rn, "constant NODETYPE_VANILLA is gone")
		return
	}
	intT := types.Typ[types.Int]
	r := &Rule{Name: rn, Cap: 120}
	r.Keep = func(cls string) bool { return true }
	r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) || kinds[fn] != "" }
	r.ForceInline = func(fn *ssa.Function) bool { return p.InRepo(fn) && !isLogFn(fn) && kinds[fn] == "" }
	var recv *Term
	param := map[string]*Term{}
	type req struct {
		name string
		get  func(e *Engine, fr *Frame, st *State) int // 1: known to hold
	}
	not := func(x int) int {
		if x < 0 {
			return x
		}
		return 1 - x
	}
	fld := func(e *Engine, fr *Frame, st *State, names ...string) *Term {
		t, typ := recv, types.Type(wT)
		for _, n := range names {
			if t, typ = e.loadField(fr, st, t, typ, n); t == nil {
				return Sym("none", n)
			}
		}
		return t
	}
	last := func(e *Engine, fr *Frame, st *State, name string) *Term {
		ssT := p.Named("SubSector")
		subs := fld(e, fr, st, "subsectors")
		n := BinTerm(token.SUB, App("len", subs), ConstI(1), intT, intT)
		i := fieldIndex(ssT, name)
		if i < 0 {
			return Sym("none", name)
		}
		cls, ft := fieldClass(ssT, i)
		return e.Load(fr, st, FieldOf(IndexOf(subs, n, ssT), cls, ft), ft)
	}
	var reqs []req
	add := func(name string, get func(e *Engine, fr *Frame, st *State) int) { reqs = append(reqs, req{name, get}) }
	called := func(k string, max int64, good bool) func(e *Engine, fr *Frame, st *State) int {
		return func(e *Engine, fr *Frame, st *State) int {
			for m, t := range st.mon {
				if !strings.HasPrefix(m, "call:"+k+":") {
					continue
				}
				v := e.Truth(st, t)
				if v < 0 || (v == 1) != good {
					continue
				}
				if a := st.mon["max:"+m[5:]]; a != nil {
					if n, ok := a.Int(); !ok || n > max || n < 1 {
						continue
					}
				}
				return 1
			}
			return -1
		}
	}
	or := func(fs ...func(e *Engine, fr *Frame, st *State) int) func(e *Engine, fr *Frame, st *State) int {
		return func(e *Engine, fr *Frame, st *State) int {
			for _, f := range fs {
				if f(e, fr, st) == 1 {
					return 1
				}
			}
			return -1
		}
	}
	fine := false // the answer that says "fits"
	tree := func(vmax int64) {
		add("the node format is still the vanilla one", func(e *Engine, fr *Frame, st *State) int {
			return e.Truth(st, Eq(fld(e, fr, st, "nodeType"), ConstI(vanilla)))
		})
		add("the number of subsectors does not have the bit that marks subsectors", func(e *Engine, fr *Frame, st *State) int {
			n, m := fld(e, fr, st, "totals", "numSSectors"), fld(e, fr, st, "SsectorMask")
			for _, x := range []*Term{App("&", n, m), App("&", m, n)} {
				if e.Truth(st, Eq(x, m)) == 0 || e.Truth(st, Eq(x, ConstI(0))) == 1 {
					return 1
				}
			}
			return not(e.Truth(st, Eq(BinTerm(token.AND, n, m, types.Typ[types.Uint32], types.Typ[types.Uint32]), m)))
		})
		add("the number of vertices was found not to exceed "+itoa(int(vmax)), func(e *Engine, fr *Frame, st *State) int {
			return not(e.Truth(st, Less(ConstI(vmax), App("len", fld(e, fr, st, "vertices")), intT)))
		})
	}
	switch kind {
	case "over":
		add("FirstSeg+SegCount of the last subsector was found to reach the number of segs", func(e *Engine, fr *Frame, st *State) int {
			sum := BinTerm(token.ADD, last(e, fr, st, "FirstSeg"), last(e, fr, st, "SegCount"), intT, intT)
			return not(e.Truth(st, Less(sum, App("len", fld(e, fr, st, "segs")), intT)))
		})
		add("FirstSeg of the last subsector was found not to exceed the limit", func(e *Engine, fr *Frame, st *State) int {
			return not(e.Truth(st, Less(param["uint16"], last(e, fr, st, "FirstSeg"), intT)))
		})
	case "fit":
		fine = true
		add("the number of segs less those of the largest subsector was found not to exceed the limit", func(e *Engine, fr *Frame, st *State) int {
			d := BinTerm(token.SUB, App("len", fld(e, fr, st, "segs")), fld(e, fr, st, "totals", "maxSegCountInSubsector"), intT, intT)
			return not(e.Truth(st, Less(param["uint16"], d, intT)))
		})
	case "segs":
		add("there are no segs with 16-bit references, or the last subsector was found to be within the unsigned limit, or segs could be reordered to be within it", or(
			func(e *Engine, fr *Frame, st *State) int { return e.Truth(st, Eq(fld(e, fr, st, "segs"), Nil())) },
			called("over", unsignedMax, false), called("fit", unsignedMax, true)))
	case "unsigned":
		tree(65536)
		add("the check of segs said that they fit", called("segs", 0, false))
	case "signed":
		tree(32768)
		add("the last subsector was found to be within the signed limit, or segs can be reordered to be within it", or(called("over", signedMax, false), called("fit", signedMax, true)))
	}
	settle := func(e *Engine, fr *Frame, st *State) {
		for i, q := range reqs {
			k := "req" + itoa(i)
			if st.M(k) == "" && q.get(e, fr, st) == 1 {
				st.SetM(k, "1")
			}
		}
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) {
		if d := param["bool"]; d != nil && e.Truth(st, d) == 1 {
			st.SetM("dry", "1")
		}
		settle(e, fr, st)
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if callee == nil || kinds[callee] == "" || len(args) == 0 {
			return nil, false
		}
		k := kinds[callee]
		outs := e.opaque(fr, st, ci, ci.Common(), callee, args)
		if stripAt(args[0]) != stripAt(recv) {
			return outs, true // about other data
		}
		key := k + ":" + p.InstrPos(ci)
		for _, o := range outs {
			if o.Kind != ORet || o.Res == nil {
				continue
			}
			res := o.Res
			if res.kind == KTuple {
				res = res.args[0]
			}
			if k == "fit" && len(args) > 2 {
				// a dry run only tells: it counts in a dry run or a mere check
				if dry := e.Truth(st, args[2]); dry != 0 && kind == "segs" && st.M("dry") == "" && args[2] != param["bool"] {
					continue
				}
			}
			o.St.mon["call:"+key] = res
			if k == "over" || k == "fit" {
				o.St.mon["max:"+key] = args[1]
			}
		}
		return outs, true
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		pos := p.InstrPos(i)
		switch v := i.(type) {
		case *ssa.Store:
			if st.M("dry") != "" && e.Eval(fr, st, v.Addr).root().kind != KAlloc {
				e.Violate("N03|dry run changes data ["+root.Name()+"]", pos, "node data is changed during a dry run in "+FullName(root))
			}
		case *ssa.Return:
			if fr.parent != nil {
				return
			}
			e.Ev("answer of check '"+kind+"'", i)
			res := e.Eval(fr, st, v.Results[0])
			s := st.Clone()
			if !e.Assume(s, res, fine) {
				return
			}
			settle(e, fr, s)
			for n, q := range reqs {
				if s.M("req"+itoa(n)) == "" {
					if debugEngine {
						debugState(kind+": "+q.name, root.Name(), s)
					}
					e.Violate("N03|"+kind+": answer not founded: "+q.name+" ["+root.Name()+"]", pos, FullName(root)+" may say that the data fits on a path on which it does not hold that "+q.name)
				}
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for i, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+pr.Name())
			if i == 0 {
				t = App("nonnil", t)
				recv = t
			} else if b, ok := pr.Type().(*types.Basic); ok {
				param[b.Name()] = t
			}
			a = append(a, t)
		}
		return a
	})
	c.Take(e)
}

// wrappedBounds: where segs of subsectors are picked out by FirstSeg and
// SegCount, their sum is not computed in 16 bits.
func wrappedBounds(c *Ctx, rn string) {
	p := c.P
	narrow := func(v ssa.Value) ssa.Instruction {
		for {
			cv, ok := v.(*ssa.Convert)
			if !ok {
				break
			}
			v = cv.X
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil
		}
		t, ok := b.Type().Underlying().(*types.Basic)
		if !ok || t.Kind() != types.Uint16 && t.Kind() != types.Int16 {
			return nil
		}
		reads := func(v ssa.Value, f string) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			cl, _ := addrClass(u.X)
			return strings.HasSuffix(cl, "SubSector."+f)
		}
		if reads(b.X, "SegCount") || reads(b.Y, "SegCount") || reads(b.X, "FirstSeg") || reads(b.Y, "FirstSeg") {
			return b
		}
		return nil
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var vs []ssa.Value
				switch x := in.(type) {
				case *ssa.Slice:
					vs = append(vs, x.Low, x.High)
				case *ssa.IndexAddr:
					vs = append(vs, x.Index)
				case *ssa.BinOp:
					switch x.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
						vs = append(vs, x.X, x.Y)
					}
				}
				for _, v := range vs {
					if v == nil {
						continue
					}
					c.Count(rn+": bounds looked at", 1)
					if n := narrow(v); n != nil {
						c.Viol(rn, "N03|end of a subsector computed in 16 bits ["+fn.Name()+"]", p.InstrPos(n), "where a subsector's segs end is computed in 16 bits, which wraps at 65536, and used as a bound in "+FullName(fn))
					}
				}
			}
		}
	}
}
