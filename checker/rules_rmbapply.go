package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How RMB options take effect on the reject table.

// rmbTypes: option types by constant name.
func (p *Prog) rmbTypes() map[string]int64 {
	r := map[string]int64{}
	sc := p.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "RMB_") || strings.HasPrefix(n, "RMB_FRAME") || k.Val().Kind() != constant.Int {
			continue
		}
		if v, ok := constant.Int64Val(k.Val()); ok {
			r[strings.TrimPrefix(n, "RMB_")] = v
		}
	}
	return r
}

func readsCommandType(v ssa.Value) bool {
	f, ok := readsField(v)
	return ok && f.name == "Type" && f.st.Obj().Name() == "RMBCommand"
}

const noType = -7777 // a type no command has

// pinned: the value v has when every command has type k.
func (a *rmbApply) pinned(v ssa.Value, k int64, params map[ssa.Value]int64) (int64, bool) {
	if c, ok := bare(v).(*ssa.Const); ok && c.Value != nil {
		if c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				return 1, true
			}
			return 0, true
		}
		return constInt(c.Value)
	}
	if n, ok := params[v]; ok {
		return n, true
	}
	if readsCommandType(v) {
		return k, true
	}
	switch x := bare(v).(type) {
	case *ssa.BinOp:
		l, ok1 := a.pinned(x.X, k, params)
		r, ok2 := a.pinned(x.Y, k, params)
		if !ok1 || !ok2 {
			return 0, false
		}
		t := false
		switch x.Op {
		case token.EQL:
			t = l == r
		case token.NEQ:
			t = l != r
		case token.LSS:
			t = l < r
		case token.LEQ:
			t = l <= r
		case token.GTR:
			t = l > r
		case token.GEQ:
			t = l >= r
		default:
			return 0, false
		}
		if t {
			return 1, true
		}
		return 0, true
	case *ssa.UnOp:
		if x.Op == token.NOT {
			n, ok := a.pinned(x.X, k, params)
			return 1 - n, ok
		}
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil || f.Blocks == nil || f.Signature.Results().Len() != 1 || !a.p.InRepo(f) || len(params) > 0 {
			return 0, false
		}
		ps := map[ssa.Value]int64{}
		for i, arg := range x.Common().Args {
			if i < len(f.Params) {
				if n, ok := a.pinned(arg, k, nil); ok {
					if _, isC := arg.(*ssa.Const); !isC {
						ps[f.Params[i]] = n
					}
				}
			}
		}
		if len(ps) == 0 {
			return 0, false
		}
		reach := a.reach(f, k, ps)
		var res int64
		n := 0
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !reach[b] {
				continue
			}
			w, ok := a.pinnedPhi(ret.Results[0], k, ps, reach)
			if !ok || n > 0 && w != res {
				return 0, false
			}
			res = w
			n++
		}
		return res, n > 0
	}
	return 0, false
}

// pinnedPhi: as pinned, for a value merged from the blocks that are reached.
func (a *rmbApply) pinnedPhi(v ssa.Value, k int64, ps map[ssa.Value]int64, reach map[*ssa.BasicBlock]bool) (int64, bool) {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return a.pinned(v, k, ps)
	}
	var res int64
	n := 0
	for i, e := range ph.Edges {
		pr := ph.Block().Preds[i]
		if !reach[pr] {
			continue
		}
		if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && pr.Succs[0] != pr.Succs[1] {
			if c, ok := a.pinned(iff.Cond, k, ps); ok && (c != 0) != (pr.Succs[0] == ph.Block()) {
				continue
			}
		}
		w, ok := a.pinned(e, k, ps)
		if !ok || n > 0 && w != res {
			return 0, false
		}
		res = w
		n++
	}
	return res, n > 0
}

// reach: the blocks of fn that run when every command has type k.
func (a *rmbApply) reach(fn *ssa.Function, k int64, ps map[ssa.Value]int64) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if r[b] {
			return
		}
		r[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c, ok := a.pinned(iff.Cond, k, ps)
			if !ok {
				if ph, isP := iff.Cond.(*ssa.Phi); isP && ph.Block() == b {
					c, ok = a.pinnedPhi(ph, k, ps, r)
					// blocks not walked yet may still feed the phi
					for i := range ph.Edges {
						if !r[ph.Block().Preds[i]] {
							if !a.deadFor(fn, ph.Block().Preds[i], k, ps) {
								ok = false
							}
						}
					}
				}
			}
			if ok {
				if c != 0 {
					walk(b.Succs[0])
				} else {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
	}
	return r
}

// deadFor: block b's only way in is a branch not taken for type k.
func (a *rmbApply) deadFor(fn *ssa.Function, b *ssa.BasicBlock, k int64, ps map[ssa.Value]int64) bool {
	for _, pr := range b.Preds {
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			return false
		}
		c, ok := a.pinned(iff.Cond, k, ps)
		if !ok || (c != 0) == (pr.Succs[0] == b) {
			return false
		}
	}
	return true
}

type rmbApply struct {
	p     *Prog
	types map[string]int64
	names map[int64]string
	// blocks enabled by a type, per function
	enabled map[*ssa.Function]map[string]map[*ssa.BasicBlock]bool
	kinds   map[*ssa.Function]map[string]bool
}

func newRMBApply(p *Prog) *rmbApply {
	a := &rmbApply{p: p, types: p.rmbTypes(), names: map[int64]string{}, enabled: map[*ssa.Function]map[string]map[*ssa.BasicBlock]bool{}, kinds: map[*ssa.Function]map[string]bool{}}
	for n, v := range a.types {
		a.names[v] = n
	}
	for _, fn := range p.Funcs {
		looks := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && readsCommandType(v) {
					looks = true
				}
			}
		}
		if !looks {
			continue
		}
		none := a.reach(fn, noType, nil)
		m := map[string]map[*ssa.BasicBlock]bool{}
		for n, k := range a.types {
			for b := range a.reach(fn, k, nil) {
				if !none[b] {
					if m[n] == nil {
						m[n] = map[*ssa.BasicBlock]bool{}
					}
					m[n][b] = true
				}
			}
			// a type can also be told apart by what does not run for it
			if m[n] == nil {
				r := a.reach(fn, k, nil)
				for b := range none {
					if !r[b] {
						m[n] = map[*ssa.BasicBlock]bool{}
					}
				}
			}
		}
		a.enabled[fn] = m
	}
	return a
}

// acts: the instruction does something (other than logging) outside the
// function's own variables.
func (a *rmbApply) acts(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		root := x.Addr
		for {
			if fa, ok := root.(*ssa.FieldAddr); ok {
				root = fa.X
				continue
			}
			if ia, ok := root.(*ssa.IndexAddr); ok {
				root = ia.X
				continue
			}
			break
		}
		al, ok := root.(*ssa.Alloc)
		return !ok || al.Heap && !isVarargs(al)
	case *ssa.MapUpdate:
		return true
	case *ssa.Send:
		return true
	case ssa.CallInstruction:
		f := x.Common().StaticCallee()
		if f == nil {
			_, b := x.Common().Value.(*ssa.Builtin)
			return !b
		}
		return a.p.InRepo(f) && !isLogFn(f) && !a.onlyTells(f)
	}
	return false
}

func isVarargs(al *ssa.Alloc) bool { return al.Comment == "varargs" || al.Comment == "slicelit" }

// onlyTells: a function that only reports or answers a question.
func (a *rmbApply) onlyTells(f *ssa.Function) bool {
	if f.Signature.Recv() != nil && namedName(deref(f.Signature.Recv().Type())) == "RMBCommand" {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if a.acts(x) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send:
				return false
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || g == f {
					continue
				}
				if isLogFn(g) || !a.p.InRepo(g) {
					continue
				}
				if g.Signature.Recv() != nil && namedName(deref(g.Signature.Recv().Type())) == "RMBCommand" {
					continue
				}
				return false
			}
		}
	}
	return true
}

// effects: the instructions of fn that do something because of a command of
// type n.
func (a *rmbApply) effects(fn *ssa.Function, n string) []ssa.Instruction {
	var r []ssa.Instruction
	for _, b := range fn.Blocks {
		if !a.enabled[fn][n][b] {
			continue
		}
		for _, in := range b.Instrs {
			if a.acts(in) {
				r = append(r, in)
			}
		}
	}
	return r
}

// all: the types that take effect in fn or below it.
func (a *rmbApply) all(fn *ssa.Function) map[string]bool {
	if m, ok := a.kinds[fn]; ok {
		return m
	}
	m := map[string]bool{}
	a.kinds[fn] = m
	for f := range a.p.below([]*ssa.Function{fn}) {
		for n := range a.enabled[f] {
			if len(a.effects(f, n)) > 0 {
				m[n] = true
			}
		}
	}
	return m
}

var rmbRank = map[string]int{
	"BLIND": 1, "SAFE": 1, "SIMPLE_BLIND": 1, "SIMPLE_SAFE": 1,
	"VORTEX": 2, "INCLUDE": 3, "EXCLUDE": 4, "REPORT": 5,
}

func ranks(m map[string]bool) (lo, hi int, lon, hin string) {
	lo = 99
	for n := range m {
		r := rmbRank[n]
		if r == 0 {
			continue
		}
		if r < lo || r == lo && n < lon {
			lo, lon = r, n
		}
		if r > hi || r == hi && n < hin {
			hi, hin = r, n
		}
	}
	return
}

// rejectMains: the functions that carry out the building of a reject table,
// one for each kind of working table.
func rejectMains(p *Prog) []*ssa.Function {
	gen := p.Func("RejectGenerator")
	var r []*ssa.Function
	if gen == nil {
		return nil
	}
	for _, b := range gen.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() {
				continue
			}
			for _, f := range p.Callees(ci) {
				if f != nil && f.Blocks != nil && p.InRepo(f) {
					res := f.Signature.Results()
					if res.Len() == 1 && types.TypeString(res.At(0).Type(), nil) == "[]byte" {
						r = append(r, f)
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return FullName(r[i]) < FullName(r[j]) })
	return r
}

// instrReach: b can run after a within their function.
func instrReach(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				if a == b {
					break
				}
				return true
			}
			if in == b {
				break
			}
		}
	}
	return reaches(a.Block(), b.Block())
}

func ruleRMBOrder(c *Ctx) {
	p := c.P
	const rn = "rmb-order"
	c.Rule("rmb-order: in every function below the reject builder, what takes effect because of an option of a higher priority (or is done below a call) cannot run before something of a lower priority: BLIND/SAFE, VORTEX, INCLUDE, EXCLUDE, REPORT; within a function the parent frame's options are applied before the function's own, on every path to them and whatever its own are; nothing that computes visibility runs after options were applied, and a finished table is only handed on after they were; where only one option counts, the map's own last one does")
	a := newRMBApply(p)
	mains := rejectMains(p)
	if len(mains) == 0 {
		c.Viol(rn, "R03|anchors", "", "reject builder not found")
		return
	}
	seen := map[*ssa.Function]bool{}
	for _, m := range mains {
		for f := range p.below([]*ssa.Function{m}) {
			seen[f] = true
		}
		a.afterLOS(c, rn, m)
	}
	var fns []*ssa.Function
	for f := range seen {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return FullName(fns[i]) < FullName(fns[j]) })
	for _, f := range fns {
		type ev struct {
			in    ssa.Instruction
			kinds map[string]bool
		}
		var evs []ev
		var recs []ssa.CallInstruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				own := map[string]bool{}
				for n := range rmbRank {
					if a.enabled[f][n][b] && a.acts(in) {
						own[n] = true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, now := in.(*ssa.Call); now && a.onParent(ci) {
						recs = append(recs, ci)
					}
					if len(own) == 0 {
						for _, g := range p.Callees(ci) {
							if g != nil && g.Blocks != nil && g != f && p.InRepo(g) && !isLogFn(g) {
								for n := range a.all(g) {
									own[n] = true
								}
							}
						}
					}
				}
				if lo, _, _, _ := ranks(own); lo < 99 {
					evs = append(evs, ev{in, own})
				}
			}
		}
		for _, x := range evs {
			for _, y := range evs {
				if x.in == y.in || !instrReach(x.in, y.in) {
					continue
				}
				_, hi, _, hin := ranks(x.kinds)
				lo, _, lon, _ := ranks(y.kinds)
				c.Count(rn+": pairs of effects in order", 1)
				if hi == lo && hin == "VORTEX" && lon == "VORTEX" && a.consults(x.in) && !a.consults(y.in) {
					c.Site(FullName(f), p.InstrPos(x.in))
					c.Viol(rn, "R03|VORTEX spread before it is set ["+f.Name()+"]", p.InstrPos(x.in), "visibility is passed on between VORTEX options before all of them made their own sectors visible in "+FullName(f))
				}
				if hi > lo {
					c.Site(FullName(f), p.InstrPos(x.in))
					c.Viol(rn, "R03|"+hin+" before "+lon+" ["+f.Name()+"]", p.InstrPos(x.in), fmt.Sprintf("%s can take effect before %s in %s", hin, lon, FullName(f)))
				}
			}
		}
		a.parentFirst(c, rn, f, recs)
	}
	for _, f := range p.Funcs {
		a.lastWins(c, rn, f, seen)
	}
	c.Min(rn, rn+": pairs of effects in order", 12)
	c.Min(rn, rn+": effects after the parent's", 12)
	c.Min(rn, rn+": option values read", 2)
}

// consults: the visibility found so far is looked at in or below the call.
func (a *rmbApply) consults(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	for f := range a.p.below(a.p.Callees(ci)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && tablePlace(u.X) {
					return true
				}
			}
		}
	}
	return false
}

// onParent: a call that is given the parent of the frame at hand.
func (a *rmbApply) onParent(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	if f == nil || !a.p.InRepo(f) {
		return false
	}
	for _, arg := range ci.Common().Args {
		if r, ok := readsField(arg); ok && r.name == "Parent" && r.st.Obj().Name() == "RMBFrame" {
			return true
		}
	}
	return false
}

// parentFirst: in a function on a frame that applies options of its own.
func (a *rmbApply) parentFirst(c *Ctx, rn string, f *ssa.Function, recs []ssa.CallInstruction) {
	p := c.P
	frame := false
	for _, pr := range f.Params {
		frame = frame || namedName(deref(pr.Type())) == "RMBFrame"
	}
	if !frame {
		return
	}
	done := map[ssa.Instruction]bool{}
	for n, m := range a.enabled[f] {
		if rmbRank[n] == 5 || rmbRank[n] == 0 && n != "GROUP" && n != "LINE" || len(m) == 0 {
			continue
		}
		for _, in := range a.effects(f, n) {
			if done[in] {
				continue
			}
			done[in] = true
			c.Count(rn+": effects after the parent's", 1)
			c.Site(FullName(f), p.InstrPos(in))
			ok := false
			for _, r := range recs {
				if r.(ssa.Instruction).Block() == in.Block() && instrBefore(r, in) || r.Block() != in.Block() && r.Block().Dominates(in.Block()) {
					ok = true
				}
				if instrReach(in, r) {
					c.Viol(rn, "R03|own options before global ones ["+f.Name()+"]", p.InstrPos(in), "options of the map can take effect before the global ones in "+FullName(f))
				}
			}
			if !ok {
				c.Viol(rn, "R03|global options not applied first ["+f.Name()+"]", p.InstrPos(in), "options of the map take effect where the global ones need not have been applied in "+FullName(f))
			}
		}
	}
	if len(done) == 0 {
		return
	}
	for _, r := range recs {
		for _, g := range allGuards(r.Block()) {
			for _, fr := range computedFrom(g.cond).fields {
				if fr.name == "Commands" && fr.st.Obj().Name() == "RMBFrame" {
					c.Viol(rn, "R03|global options depend on own ["+f.Name()+"]", p.InstrPos(r), "whether global options are applied depends on the map's own options in "+FullName(f))
				}
			}
		}
	}
}

func instrBefore(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// marksTable: fn itself writes the working table of visibility.
func marksTable(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if bt, ok := s.Val.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint8 {
				continue
			}
			if tablePlace(s.Addr) {
				return true
			}
		}
	}
	return false
}

// tablePlace: an address in the working table of visibility.
func tablePlace(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		f, ok := readsField(x.X)
		return ok && f.name == "rejectTable"
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil || f.Blocks == nil {
			return false
		}
		if x.Type().String() != "*uint8" && x.Type().String() != "*byte" {
			return false
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && !tablePlace(ret.Results[0]) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if tablePlace(e) {
				return true
			}
		}
	}
	return false
}

// afterLOS: in the building function, nothing marks visibility once options
// were applied, and results are handed out only after that.
func (a *rmbApply) afterLOS(c *Ctx, rn string, m *ssa.Function) {
	p := c.P
	var apply []ssa.Instruction
	type mk struct {
		in ssa.Instruction
		by string
	}
	var marks []mk
	for _, b := range m.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, g := range p.Callees(ci) {
				if g == nil || g.Blocks == nil || !p.InRepo(g) || isLogFn(g) {
					continue
				}
				if k := a.all(g); k["EXCLUDE"] && k["INCLUDE"] || k["VORTEX"] || k["EXCLUDE"] || k["INCLUDE"] {
					apply = append(apply, in)
					continue
				}
				for f := range p.below([]*ssa.Function{g}) {
					if marksTable(f) {
						marks = append(marks, mk{in, f.Name()})
						break
					}
				}
			}
		}
	}
	if len(apply) == 0 {
		c.Viol(rn, "R03|options not applied ["+FullName(m)+"]", p.Pos(m.Pos()), "the reject table is built without applying RMB options in "+FullName(m))
		return
	}
	for _, x := range apply {
		c.Count(rn+": applications of options", 1)
		for _, y := range marks {
			c.Count(rn+": visibility computed before options", 1)
			if instrReach(x, y.in) {
				c.Viol(rn, "R03|visibility computed after options ["+FullName(m)+"]", p.InstrPos(y.in), "visibility can still be computed ("+y.by+") after RMB options were applied in "+FullName(m))
			}
		}
	}
	for _, b := range m.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 || isNilConst(ret.Results[0]) {
			continue
		}
		for _, v := range resultsOf(ret.Results[0]) {
			if isNilConst(v) {
				continue
			}
			in, isI := v.(ssa.Instruction)
			if !isI || reachedWithout(m, in, apply) {
				c.Viol(rn, "R03|table handed on without options ["+FullName(m)+"]", p.InstrPos(ret), "a finished table is made where RMB options need not have been applied in "+FullName(m))
			}
		}
	}
	c.Min(rn, rn+": applications of options", 1)
	c.Min(rn, rn+": visibility computed before options", 1)
}

// reachedWithout: in can run in fn, for a frame that exists, without one of
// calls having run.
func reachedWithout(fn *ssa.Function, in ssa.Instruction, calls []ssa.Instruction) bool {
	stop := map[ssa.Instruction]bool{}
	for _, x := range calls {
		stop[x] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if stop[i] {
				return false
			}
			if i == in {
				return true
			}
		}
		dead := -1
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				v, w := bo.X, bo.Y
				if isNilConst(v) {
					v, w = w, v
				}
				if isNilConst(w) && namedName(deref(v.Type())) == "RMBFrame" {
					dead = 1
					if bo.Op == token.EQL {
						dead = 0
					}
				}
			}
		}
		for i, s := range b.Succs {
			if i != dead && walk(s) {
				return true
			}
		}
		return false
	}
	return len(fn.Blocks) > 0 && walk(fn.Blocks[0])
}

func resultsOf(v ssa.Value) []ssa.Value {
	m := map[ssa.Value]bool{}
	leaves(v, map[ssa.Value]bool{}, m)
	var r []ssa.Value
	for x := range m {
		r = append(r, x)
	}
	return r
}

// lastWins: a function that answers the value of an option.
func (a *rmbApply) lastWins(c *Ctx, rn string, f *ssa.Function, scope map[*ssa.Function]bool) {
	p := c.P
	if !scope[f] || a.enabled[f] == nil || f.Signature.Results().Len() != 2 || !isBool(f.Signature.Results().At(0).Type()) {
		return
	}
	if _, ok := f.Signature.Results().At(1).Type().Underlying().(*types.Basic); !ok || isBool(f.Signature.Results().At(1).Type()) {
		return
	}
	var names []string
	for n, m := range a.enabled[f] {
		if len(m) > 0 {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return
	}
	sort.Strings(names)
	c.Count(rn+": option values read", 1)
	c.Site(FullName(f), p.Pos(f.Pos()))
	// loops over the commands: found on the way down and answered at once, or
	// remembered on the way up
	for _, n := range names {
		dir := loopDirection(f)
		stops := !a.loopsBack(f, n)
		if dir == 0 {
			continue
		}
		if dir > 0 == stops {
			c.Viol(rn, "R03|first option wins ["+f.Name()+"]", p.Pos(f.Pos()), "of several "+n+" options not the last one counts in "+FullName(f))
		}
	}
	// the parent is only asked when the map has none of its own
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !a.onParent(ci) {
				continue
			}
			if a.commandLoop(f) != nil && !afterLoop(a.commandLoop(f), b) {
				c.Viol(rn, "R03|global value preferred ["+f.Name()+"]", p.InstrPos(in), "a global option is looked up before the map's own in "+FullName(f))
			}
		}
	}
}

// commandLoop: a block in which the type of a command is looked at.
func (a *rmbApply) commandLoop(f *ssa.Function) *ssa.BasicBlock {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && readsCommandType(v) {
				return b
			}
		}
	}
	return nil
}

func afterLoop(loop, b *ssa.BasicBlock) bool { return !reaches(b, loop) }

// loopsBack: after a command of type n was found others are still looked at.
func (a *rmbApply) loopsBack(f *ssa.Function, n string) bool {
	l := a.commandLoop(f)
	if l == nil {
		return false
	}
	k := a.types[n]
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l && len(seen) > 0 {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := a.pinned(iff.Cond, k, nil); ok {
				if v != 0 {
					return walk(b.Succs[0])
				}
				return walk(b.Succs[1])
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(l)
}

// loopDirection: +1 when commands are visited in order, -1 backwards, 0 unknown.
func loopDirection(f *ssa.Function) int {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			r, ok := readsField(ia.X)
			if !ok || r.name != "Commands" {
				continue
			}
			idx := ia.Index
			for i := 0; i < 4; i++ {
				if bo, ok := idx.(*ssa.BinOp); ok {
					if k, ok := bo.Y.(*ssa.Const); ok {
						if n, ok := constInt(k.Value); ok && n != 0 {
							if _, isPhi := bo.X.(*ssa.Phi); isPhi {
								idx = bo.X
								continue
							}
						}
					}
				}
				break
			}
			ph, ok := idx.(*ssa.Phi)
			if !ok {
				continue
			}
			for _, e := range ph.Edges {
				bo, ok := e.(*ssa.BinOp)
				if !ok || bo.X != ssa.Value(ph) {
					continue
				}
				k, ok := bo.Y.(*ssa.Const)
				if !ok {
					continue
				}
				n, _ := constInt(k.Value)
				if bo.Op == token.SUB {
					n = -n
				}
				if n > 0 {
					return 1
				}
				if n < 0 {
					return -1
				}
			}
		}
	}
	return 0
}

// parseTable: the options the parser knows, and whether they are implemented.
type parseEntry struct {
	name string
	typ  string
	impl bool
	pos  token.Pos
}

func (a *rmbApply) parseTable() []parseEntry {
	var r []parseEntry
	p := a.p
	for _, file := range p.Pkg.Syntax {
		ast.Inspect(file, func(nd ast.Node) bool {
			cl, ok := nd.(*ast.CompositeLit)
			if !ok {
				return true
			}
			t := p.Pkg.TypesInfo.TypeOf(cl)
			if t == nil || namedName(t) != "ParseDef" {
				return true
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return true
			}
			e := parseEntry{pos: cl.Pos()}
			for i, el := range cl.Elts {
				name := ""
				val := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					if id, ok := kv.Key.(*ast.Ident); ok {
						name = id.Name
					}
					val = kv.Value
				} else if i < st.NumFields() {
					name = st.Field(i).Name()
				}
				tv := p.Pkg.TypesInfo.Types[val]
				switch name {
				case "Type":
					if tv.Value != nil {
						if n, ok := constant.Int64Val(tv.Value); ok {
							e.typ = a.names[n]
						}
					}
				case "Impl":
					if tv.Value != nil && tv.Value.Kind() == constant.Bool {
						e.impl = constant.BoolVal(tv.Value)
					}
				case "Name":
					if call, ok := val.(*ast.CallExpr); ok && len(call.Args) == 1 {
						if av := p.Pkg.TypesInfo.Types[call.Args[0]]; av.Value != nil && av.Value.Kind() == constant.String {
							e.name = constant.StringVal(av.Value)
						}
					}
				}
			}
			if e.typ != "" {
				r = append(r, e)
			}
			return true
		})
	}
	return r
}
