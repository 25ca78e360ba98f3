package main

// The parser of RMB option files: whatever it reports as an error makes the
// line, and with it the file, count as not parsed.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rmbLoader: the function that turns the text of an RMB file into options
func rmbLoader(p *Prog) *ssa.Function {
	for _, fn := range p.Funcs {
		rs := fn.Signature.Results()
		if fn.Signature.Recv() != nil || fn.Parent() != nil || rs.Len() != 2 || fn.Signature.Params().Len() < 1 {
			continue
		}
		if namedName(deref(rs.At(1).Type())) != "LoadedRMB" || !isBool(rs.At(0).Type()) {
			continue
		}
		if isBytes(fn.Signature.Params().At(0).Type()) {
			return fn
		}
	}
	return nil
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func isError(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// success: which result tells that all went well, and whether it is an error
func success(sig *types.Signature) (idx int, isErr bool) {
	for i := 0; i < sig.Results().Len(); i++ {
		if isBool(sig.Results().At(i).Type()) {
			return i, false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if isError(sig.Results().At(i).Type()) {
			return i, true
		}
	}
	return -1, false
}

func ruleRMBErrors(c *Ctx) {
	p := c.P
	const rn = "rmb-errors"
	c.Rule("rmb-errors: in each function of the RMB parser, on every path on which an error was reported, or a function of the parser answered that it failed, or an error value that is looked at was not nil, the answer is failure, and no option is added; every such answer of a called function is looked at; a command is taken back out of the list only where the list was found to have grown")
	root := rmbLoader(p)
	if root == nil {
		c.Undecided(rn, "the function that parses RMB files was not found")
		return
	}
	below := p.below([]*ssa.Function{root})
	// those that report errors
	reaches := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for f := range below {
			if reaches[f] || isLogFn(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if x := call.Common().StaticCallee(); x != nil && isLogFn(x) {
						if x.Name() == "Error" && !reaches[f] {
							reaches[f], ch = true, true
						}
						continue
					}
					for _, g := range p.Callees(call) {
						if reaches[g] && !reaches[f] {
							reaches[f], ch = true, true
						}
					}
				}
			}
		}
	}
	var fns []*ssa.Function
	reporter := map[*ssa.Function]bool{}
	for f := range below {
		if f.Blocks == nil || !p.InRepo(f) || isLogFn(f) {
			continue
		}
		i, isErr := success(f.Signature)
		if i < 0 {
			if reaches[f] {
				reporter[f] = true
			}
			continue
		}
		if reaches[f] || isErr {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return FullName(fns[i]) < FullName(fns[j]) })
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	for _, f := range fns {
		rmbFunc(c, rn, f, in, reporter)
	}
	c.Count(rn+": functions of the parser", len(fns))
	c.Min(rn, rn+": functions of the parser", 4)
	c.Min(rn, rn+": error reported", 20)
	c.Min(rn, rn+": answer of a part", 4)
	c.Min(rn, rn+": option added", 1)
	c.Min(rn, rn+": answer", 10)
}

func rmbFunc(c *Ctx, rn string, root *ssa.Function, parts, reporter map[*ssa.Function]bool) {
	p := c.P
	r := &Rule{Name: rn, Cap: 150, JoinBools: true}
	r.NoInline = func(fn *ssa.Function) bool { return true }
	r.Keep = func(cls string) bool {
		return strings.HasSuffix(cls, "ParseContext.activeFrame") || strings.HasSuffix(cls, "RMBFrame.Commands")
	}
	r.KeepFact = r.Keep
	failing := func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, i int, isErr bool) []Out {
		n := ci.Common().Signature().Results().Len()
		mk := func(s *State, res *Term) Out {
			if n == 1 {
				return Out{Kind: ORet, Res: res, St: s}
			}
			var a []*Term
			for k := 0; k < n; k++ {
				if k == i {
					a = append(a, res)
				} else {
					a = append(a, e.sym(fr, s, ci, "r"+itoa(k)))
				}
			}
			return Out{Kind: ORet, Res: Tuple(a...), St: s}
		}
		for k := 0; k < n; k++ {
			e.sym(fr, st, ci, "r"+itoa(k))
		}
		es := App("nonnil", e.sym(fr, st, ci, "err"))
		bad := st.Clone()
		bad.SetM("err", p.InstrPos(ci))
		if isErr {
			return []Out{mk(st, Nil()), mk(bad, es)}
		}
		return []Out{mk(st, ConstB(true)), mk(bad, ConstB(false))}
	}
	looked := func(ci ssa.CallInstruction, i int) bool {
		v, ok := ci.(*ssa.Call)
		if !ok || v.Referrers() == nil {
			return false
		}
		if ci.Common().Signature().Results().Len() == 1 {
			return len(*v.Referrers()) > 0
		}
		for _, rf := range *v.Referrers() {
			if ex, ok := rf.(*ssa.Extract); ok && ex.Index == i && ex.Referrers() != nil && len(*ex.Referrers()) > 0 {
				return true
			}
		}
		return false
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if callee == nil {
			return nil, false
		}
		if reporter[callee] || isLogFn(callee) && callee.Name() == "Error" {
			e.Ev("error reported", ci)
			st.SetM("err", p.InstrPos(ci))
			return []Out{{Kind: ORet, Res: e.opaqueResult(fr, st, ci, ci.Common().Signature()), St: st}}, true
		}
		i, isErr := success(callee.Signature)
		if i < 0 {
			return nil, false
		}
		if parts[callee] {
			e.Ev("answer of a part", ci)
			if !looked(ci, i) {
				e.Violate("R01|answer of "+FullName(callee)+" not looked at in "+FullName(root), p.InstrPos(ci), FullName(root)+" does not look at whether "+FullName(callee)+" succeeded")
			}
			o := e.opaque(fr, st, ci, ci.Common(), callee, args)
			if len(o) != 1 || o[0].Kind != ORet {
				return o, true
			}
			return failing(e, fr, o[0].St, ci, i, isErr), true
		}
		if isErr && !p.InRepo(callee) && looked(ci, i) {
			e.Ev("error value looked at", ci)
			return failing(e, fr, st, ci, i, isErr), true
		}
		return nil, false
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		pos := p.InstrPos(i)
		switch v := i.(type) {
		case *ssa.Store:
			fa, ok := v.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if cls, _ := fieldClass(deref(fa.X.Type()), fa.Field); !strings.HasSuffix(cls, "RMBFrame.Commands") {
				return
			}
			e.Ev("option added", i)
			if sl, ok := v.Val.(*ssa.Slice); ok && sl.High != nil && st.mon["len0"] != nil {
				now := App("len", e.Eval(fr, st, sl.X))
				e.Ev("option taken back", i)
				if e.Truth(st, Eq(now, st.mon["len0"])) != 0 && e.Truth(st, Less(st.mon["len0"], now, types.Typ[types.Int])) != 1 {
					e.Violate("R01|option of another line taken in "+FullName(root), pos, FullName(root)+" takes an option back out of the list on a path on which the list was not found to have grown: "+st.Path())
				}
			}
			if st.M("err") != "" {
				e.Violate("R01|option of a failed line kept in "+FullName(root), pos, FullName(root)+" changes the options of a frame on a path on which an error was found at "+st.M("err"))
			}
		case *ssa.Return:
			if fr.parent != nil || len(v.Results) == 0 {
				return
			}
			k, isErr := success(root.Signature)
			e.Ev("answer", i)
			if st.M("err") == "" {
				return
			}
			res := e.Eval(fr, st, v.Results[k])
			bad := false
			if isErr {
				bad = e.Truth(st, Eq(res, Nil())) != 0
			} else {
				bad = e.Truth(st, res) != 0
			}
			if bad {
				e.Violate("R01|success in spite of an error in "+FullName(root), pos, FullName(root)+" may answer success on a path on which an error was found at "+st.M("err")+": "+st.Path())
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for _, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+pr.Name())
			if ptrLike(pr.Type()) {
				t = App("nonnil", t)
			}
			a = append(a, t)
			if namedName(deref(pr.Type())) == "ParseContext" {
				if f, ft := e.loadField(fr, st, t, deref(pr.Type()), "activeFrame"); f != nil {
					if l, _ := e.loadField(fr, st, f, deref(ft), "Commands"); l != nil {
						st.mon["len0"] = App("len", l)
					}
				}
			}
		}
		return a
	})
	c.Take(e)
}
