package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Every implemented RMB option takes effect, for the map and globally.

// exempt: parsed and implemented, but only by selecting what the options that
// follow apply to, or by changing the option they precede.
var rmbSelectors = map[string]bool{"EXMY_MAP": true, "MAPXY_MAP": true, "BAND": true, "INVERT": true}

func ruleRMBEffects(c *Ctx) {
	p := c.P
	const rn = "rmb-effects"
	c.Rule("rmb-effects: each kind of option the parser accepts as implemented is looked at below the reject builder, and the effect required of it is reached (table cells forced visible by INCLUDE and VORTEX, hidden by EXCLUDE, sector limits set by BLIND and SAFE, line effects by LINE, ...); every function that looks at a kind is reached, by abstract interpretation over option kinds, when that kind is among the map's own options and when it is among the global ones with or without other options of the map's own; queries that decide what is prepared answer yes for every kind that needs it; an option not implemented is warned about before it is recorded")
	a := newRMBApply(p)
	gen := p.Func("RejectGenerator")
	mains := rejectMains(p)
	table := a.parseTable()
	if gen == nil || len(mains) == 0 || len(table) < 10 {
		c.Viol(rn, "R06|anchors", "", fmt.Sprintf("reject builder or parse table not found (%d builders, %d options)", len(mains), len(table)))
		return
	}
	kinds := map[string]bool{}
	for _, e := range table {
		if e.impl && !rmbSelectors[e.typ] {
			kinds[e.typ] = true
		}
	}
	if kinds["BLIND"] {
		kinds["SIMPLE_BLIND"] = true
	}
	if kinds["SAFE"] {
		kinds["SIMPLE_SAFE"] = true
	}
	var names []string
	for n := range kinds {
		names = append(names, n)
	}
	sort.Strings(names)
	oneWay := map[string]bool{}
	for _, n := range rmbOneWay {
		oneWay[n] = true
	}
	below := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, m := range mains {
		below[m] = map[*ssa.Function]bool{}
		for f := range p.below([]*ssa.Function{m}) {
			below[m][f] = true
		}
	}
	before := map[*ssa.Function]bool{} // looked at before a builder is chosen
	for f := range p.below([]*ssa.Function{gen}) {
		in := false
		for _, m := range mains {
			in = in || below[m][f]
		}
		if !in {
			before[f] = true
		}
	}
	e := newRMBEval(p)
	e.apply = a
	e.touch = map[*ssa.Function]bool{}
	for f := range a.enabled {
		work := []*ssa.Function{f}
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if e.touch[g] {
				continue
			}
			e.touch[g] = true
			for _, site := range p.callers[g] {
				work = append(work, site.Parent())
			}
		}
	}
	for _, n := range names {
		for _, m := range mains {
			if oneWay[n] && strings.HasPrefix(recvName(m), "Symm") {
				continue
			}
			c.Count(rn+": kinds of options per builder", 1)
			a.hasEffect(c, rn, n, m, below[m], before)
		}
		a.reached(c, rn, e, n, gen, mains, below, before, oneWay[n])
	}
	a.directions(c, rn, mains, below)
	a.queries(c, rn, e)
	a.warned(c, rn)
	c.Min(rn, rn+": kinds of options per builder", 30)
	c.Min(rn, rn+": functions reached for a kind", 60)
	c.Min(rn, rn+": directions", 6)
	c.Min(rn, rn+": queries", 1)
	c.Min(rn, rn+": warning", 1)
}

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	return namedName(deref(f.Signature.Recv().Type()))
}

// storesBelow: the fields (or tables) written in or below fns.
func (a *rmbApply) storesBelow(in ssa.Instruction) (fields map[string]bool, tableVals map[string]bool) {
	fields, tableVals = map[string]bool{}, map[string]bool{}
	look := func(x ssa.Instruction) {
		switch s := x.(type) {
		case *ssa.Store:
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				if r, ok := structField(fa.X, fa.Field); ok {
					fields[r.st.Obj().Name()+"."+r.name] = true
				}
			}
			if tablePlace(s.Addr) {
				tableVals[""] = true
			}
		case *ssa.MapUpdate:
			if r, ok := readsField(s.Map); ok {
				fields[r.st.Obj().Name()+"."+r.name] = true
			}
		}
	}
	look(in)
	if ci, ok := in.(ssa.CallInstruction); ok {
		for f := range a.p.below(a.p.Callees(ci)) {
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					look(x)
				}
			}
		}
	}
	return
}

// hasEffect: kind n has the effect required of it below builder m.
func (a *rmbApply) hasEffect(c *Ctx, rn, n string, m *ssa.Function, below, before map[*ssa.Function]bool) {
	p := a.p
	where := "[" + n + " in " + recvName(m) + "]"
	looked := false
	ok := false
	want := ""
	for f, en := range a.enabled {
		if !below[f] && !before[f] {
			continue
		}
		if _, is := en[n]; !is {
			continue
		}
		looked = true
		for _, in := range a.effects(f, n) {
			fields, tab := a.storesBelow(in)
			switch n {
			case "INCLUDE", "EXCLUDE", "VORTEX":
				want = "cells of the table"
				ok = ok || len(tab) > 0 && below[f]
				a.forced(c, rn, n, f, in)
			case "BLIND", "SIMPLE_BLIND", "SAFE", "SIMPLE_SAFE":
				fam := strings.TrimPrefix(n, "SIMPLE_")
				want = "limits of sectors"
				own, other := false, ""
				for k := range fields {
					if !strings.HasPrefix(k, "SectorRMB.") {
						continue
					}
					if strings.HasPrefix(strings.ToUpper(k[10:]), fam) {
						own = true
					} else {
						other = k
					}
				}
				if !own {
					continue
				}
				ok = ok || below[f]
				if other != "" {
					c.Viol(rn, "R06|"+n+" sets "+other+" ["+f.Name()+"]", p.InstrPos(in), n+" sets "+other+" in "+FullName(f))
				}
				if ci, isC := in.(ssa.CallInstruction); isC {
					for _, pre := range []string{"Band", "Invert"} {
						if !a.readsBelow(ci, "RMBCommand", pre) {
							c.Viol(rn, "R06|prefix "+pre+" ignored "+where, p.InstrPos(in), "the prefix "+strings.ToUpper(pre)+" makes no difference to "+n+" in "+FullName(f))
						}
					}
				}
			case "LINE":
				want = "effects of lines"
				ok = ok || fields["RejectInternalSetup.lineEffects"]
				for k := range fields {
					ok = ok || strings.HasSuffix(k, ".lineEffects")
				}
			case "GROUP":
				want = "groups"
				for k := range fields {
					ok = ok || strings.HasPrefix(k, "RejGroup.")
				}
			default:
				ok = true
			}
		}
		switch n {
		case "DISTANCE", "LENGTH", "PERFECT", "ASSERT":
			ok = true
		case "REPORT":
			want = "a report"
		}
	}
	if !looked {
		c.Viol(rn, "R06|not looked at "+where, p.Pos(m.Pos()), "option "+n+" is accepted as implemented but not looked at when "+recvName(m)+" builds the reject")
	} else if !ok {
		c.Viol(rn, "R06|no effect "+where, p.Pos(m.Pos()), "option "+n+" does not set "+want+" when "+recvName(m)+" builds the reject")
	}
}

func (a *rmbApply) readsBelow(ci ssa.CallInstruction, st, field string) bool {
	for f := range a.p.below(a.p.Callees(ci)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if r, ok := readsField(v); ok && r.name == field && r.st.Obj().Name() == st {
						return true
					}
				}
			}
		}
	}
	return false
}

// listIndex: v is an element of the command's first (0) or second list (1).
func listIndex(v ssa.Value) int {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return -1
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return -1
	}
	l, ok := ia.X.(*ssa.UnOp)
	if !ok {
		if ix, ok := ia.X.(*ssa.Index); ok {
			if n, ok := bare(ix.Index).(*ssa.Const); ok {
				if k, ok := constInt(n.Value); ok {
					return int(k)
				}
			}
		}
		return -1
	}
	if al, ok := l.X.(*ssa.Alloc); ok {
		if s := onlyStore(al); s != nil {
			if l2, ok := s.Val.(*ssa.UnOp); ok {
				l = l2
			}
		}
	}
	la, ok := l.X.(*ssa.IndexAddr)
	if !ok {
		return -1
	}
	fa, ok := la.X.(*ssa.FieldAddr)
	if !ok {
		return -1
	}
	r, ok := structField(fa.X, fa.Field)
	if !ok || r.name != "List" {
		return -1
	}
	if n, ok := bare(la.Index).(*ssa.Const); ok {
		if k, ok := constInt(n.Value); ok {
			return int(k)
		}
	}
	return -1
}

// forced: what an option forces on the table.
func (a *rmbApply) forced(c *Ctx, rn, n string, f *ssa.Function, in ssa.Instruction) {
	p := a.p
	vis, ok1 := p.ConstInt("VIS_VISIBLE")
	hid, ok2 := p.ConstInt("VIS_HIDDEN")
	if !ok1 || !ok2 {
		return
	}
	want := vis
	if n == "EXCLUDE" {
		want = hid
	}
	bad := func(v ssa.Value) bool {
		k, ok := bare(v).(*ssa.Const)
		if !ok {
			return false
		}
		bt, ok := k.Type().Underlying().(*types.Basic)
		if !ok || bt.Kind() != types.Uint8 {
			return false
		}
		x, ok := constInt(k.Value)
		return ok && x != want
	}
	switch x := in.(type) {
	case *ssa.Store:
		if tablePlace(x.Addr) && bad(x.Val) {
			c.Viol(rn, "R06|"+n+" forces the opposite ["+f.Name()+"]", p.InstrPos(in), n+" sets the opposite visibility in "+FullName(f))
		}
	case ssa.CallInstruction:
		c.Count(rn+": directions", 1)
		var idx []int
		for _, arg := range x.Common().Args {
			if bad(arg) {
				c.Viol(rn, "R06|"+n+" forces the opposite ["+f.Name()+"]", p.InstrPos(in), n+" sets the opposite visibility in "+FullName(f))
			}
			if i := listIndex(arg); i >= 0 {
				idx = append(idx, i)
			}
		}
		if n != "VORTEX" && len(idx) == 2 && (idx[0] != 0 || idx[1] != 1) {
			c.Viol(rn, "R06|"+n+" lists swapped ["+f.Name()+"]", p.InstrPos(in), n+" does not relate its first list to its second in "+FullName(f))
		}
	}
}

// directions: BLIND limits what the sector sees, SAFE what sees the sector.
func (a *rmbApply) directions(c *Ctx, rn string, mains []*ssa.Function, below map[*ssa.Function]map[*ssa.Function]bool) {
	p := a.p
	hid, ok := p.ConstInt("VIS_HIDDEN")
	if !ok {
		return
	}
	fns := map[*ssa.Function]bool{}
	for _, m := range mains {
		for f := range below[m] {
			fns[f] = true
		}
	}
	for f := range fns {
		fam := map[string]bool{}
		var stores []*ssa.Store
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if r, ok := readsField(v); ok && r.st.Obj().Name() == "SectorRMB" {
						fam[strings.TrimSuffix(strings.TrimSuffix(r.name, "Lo"), "Hi")] = true
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if tablePlace(s.Addr) {
						stores = append(stores, s)
					}
					a.limits(c, rn, f, s)
				}
			}
		}
		if len(fam) == 0 || len(stores) == 0 {
			continue
		}
		first, second := 0, 0
		for _, s := range stores {
			c.Count(rn+": directions", 1)
			c.Site(FullName(f), p.InstrPos(s))
			if k, ok := bare(s.Val).(*ssa.Const); ok {
				if x, ok := constInt(k.Value); ok && x != hid {
					c.Viol(rn, "R06|limits show instead of hide ["+f.Name()+"]", p.InstrPos(s), "BLIND or SAFE makes sectors visible in "+FullName(f))
				}
			}
			call, ok := s.Addr.(*ssa.Call)
			if !ok {
				continue
			}
			args := call.Common().Args
			if len(args) < 2 {
				continue
			}
			x, y := bare(args[len(args)-2]), bare(args[len(args)-1])
			_, xp := x.(*ssa.Parameter)
			_, yp := y.(*ssa.Parameter)
			if xp && !yp {
				first++
			}
			if yp && !xp {
				second++
			}
		}
		if fam["Blind"] && second > 0 && first == 0 || fam["Blind"] && !fam["Safe"] && second > 0 {
			c.Viol(rn, "R06|BLIND acts on what sees the sector ["+f.Name()+"]", p.Pos(f.Pos()), "BLIND limits what sees the sector, not what it sees, in "+FullName(f))
		}
		if fam["Safe"] && first > 0 && second == 0 || fam["Safe"] && !fam["Blind"] && first > 0 {
			c.Viol(rn, "R06|SAFE acts on what the sector sees ["+f.Name()+"]", p.Pos(f.Pos()), "SAFE limits what the sector sees, not what sees it, in "+FullName(f))
		}
	}
}

// limits: the lower limit is never taken from the second number.
func (a *rmbApply) limits(c *Ctx, rn string, f *ssa.Function, s *ssa.Store) {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	r, ok := structField(fa.X, fa.Field)
	if !ok || r.st.Obj().Name() != "SectorRMB" {
		return
	}
	i := dataIndex(s.Val)
	if i < 0 {
		return
	}
	c.Count(rn+": limits", 1)
	two := false
	for _, in := range s.Block().Instrs {
		if v, ok := in.(ssa.Value); ok && dataIndex(v) == 1 {
			two = true
		}
	}
	lo := strings.HasSuffix(r.name, "Lo")
	hi := strings.HasSuffix(r.name, "Hi")
	if lo && i != 0 || hi && two && i != 1 {
		c.Viol(rn, "R06|limits swapped ["+f.Name()+"]", a.p.InstrPos(s), "the limits of a band are taken in the wrong order in "+FullName(f))
	}
}

// dataIndex: v is number 0 or 1 of a command.
func dataIndex(v ssa.Value) int {
	if elemSource(v) != "Data" {
		return -1
	}
	var idx ssa.Value
	switch x := v.(type) {
	case *ssa.UnOp:
		idx = x.X.(*ssa.IndexAddr).Index
	case *ssa.Index:
		idx = x.Index
	}
	if k, ok := bare(idx).(*ssa.Const); ok {
		if n, ok := constInt(k.Value); ok {
			return int(n)
		}
	}
	return -1
}

// reached: every function that looks at kind n is reached with it.
func (a *rmbApply) reached(c *Ctx, rn string, e *rmbEval, n string, gen *ssa.Function, mains []*ssa.Function, below map[*ssa.Function]map[*ssa.Function]bool, before map[*ssa.Function]bool, oneWay bool) {
	p := a.p
	k := a.types[n]
	group, nop, line, vortex := a.types["GROUP"], a.types["NOPROCESS"], a.types["LINE"], a.types["VORTEX"]
	type variant struct {
		text string
		opts []rmbModel
	}
	set := func(ks ...int64) map[int64]bool {
		r := map[int64]bool{}
		for _, k := range ks {
			r[k] = true
		}
		return r
	}
	other := vortex
	if n == "VORTEX" {
		other = line
	}
	vs := []variant{
		{"an option of the map", []rmbModel{{own: set(k)}, {own: set(k, nop)}, {own: set(k, group)}, {own: set(k, other)}}},
		{"a global option", []rmbModel{{own: set(), par: set(k), hasPar: true}, {own: set(), par: set(k, nop), hasPar: true}, {own: set(), par: set(k, group), hasPar: true}}},
		{"a global option besides options of the map", []rmbModel{{own: set(other), par: set(k), hasPar: true}, {own: set(other), par: set(k, nop), hasPar: true}, {own: set(other), par: set(k, group), hasPar: true}}},
	}
	var roots []*ssa.Function
	roots = append(roots, gen)
	for _, m := range mains {
		if oneWay && strings.HasPrefix(recvName(m), "Symm") {
			continue
		}
		roots = append(roots, m)
	}
	for _, v := range vs {
		e.hit = map[*ssa.Function]bool{}
		for _, m := range v.opts {
			var own, par []int64
			own, par = keysI(m.own), keysI(m.par)
			e.model(own, par, m.hasPar)
			e.hitKind = k
			for _, r := range roots {
				e.run(r, nil, "", "fr:own", 0, map[string]bool{})
			}
		}
		var fns []*ssa.Function
		for f, en := range a.enabled {
			if len(en[n]) == 0 {
				continue
			}
			in := before[f]
			for _, m := range roots[1:] {
				in = in || below[m][f]
			}
			if in {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return FullName(fns[i]) < FullName(fns[j]) })
		for _, f := range fns {
			c.Count(rn+": functions reached for a kind", 1)
			if !e.hit[f] {
				c.Viol(rn, "R06|"+n+" as "+v.text+" is passed over ["+FullName(f)+"]", p.Pos(f.Pos()), n+" as "+v.text+" never takes effect in "+FullName(f))
			}
		}
	}
}

// queries: what is prepared for options is prepared for each that needs it.
func (a *rmbApply) queries(c *Ctx, rn string, e *rmbEval) {
	p := a.p
	need := map[string][]string{"needDistances": {"BLIND", "SAFE", "LENGTH", "REPORT"}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || len(need[faName(fa)]) == 0 {
					continue
				}
				if k, isC := s.Val.(*ssa.Const); isC && k.Value != nil {
					continue
				}
				c.Count(rn+": queries", 1)
				c.Site(FullName(fn), p.InstrPos(s))
				for _, n := range need[faName(fa)] {
					k := a.types[n]
					for _, m := range []rmbModel{{own: map[int64]bool{k: true}}, {own: map[int64]bool{k: true, a.types["VORTEX"]: true}}, {own: map[int64]bool{a.types["VORTEX"]: true}, par: map[int64]bool{k: true}, hasPar: true}, {par: map[int64]bool{k: true}, hasPar: true}} {
						e.model(keysI(m.own), keysI(m.par), m.hasPar)
						vals := map[string]bool{}
						e.probe = func(in ssa.Instruction, st *rmbState) {
							if in == ssa.Instruction(s) {
								vals[e.val(st, s.Val)] = true
							}
						}
						e.run(fn, nil, "", "fr:own", 0, map[string]bool{})
						e.probe = nil
						for v := range vals {
							if v != "b:true" {
								c.Viol(rn, "R06|"+faName(fa)+" not set for "+n, p.InstrPos(s), "what "+n+" needs is not always prepared: "+faName(fa)+" can be false with "+m.String())
							}
						}
						if len(vals) == 0 {
							c.Viol(rn, "R06|"+faName(fa)+" not followed", p.InstrPos(s), "could not follow how "+faName(fa)+" is set")
						}
					}
				}
			}
		}
	}
}

// warned: an option that is not implemented is warned about before it is
// recorded.
func (a *rmbApply) warned(c *Ctx, rn string) {
	p := a.p
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || faName(fa) != "Commands" {
					continue
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok {
					continue
				}
				if bl, ok := call.Common().Value.(*ssa.Builtin); !ok || bl.Name() != "append" {
					continue
				}
				if r := recvName(fn); r == "RMBFrame" {
					continue // copying a frame
				}
				c.Count(rn+": warning", 1)
				c.Site(FullName(fn), p.InstrPos(st))
				if !a.warnsBefore(fn, st) {
					c.Viol(rn, "R06|no warning ["+fn.Name()+"]", p.InstrPos(st), "an option that is not implemented can be recorded without a warning in "+FullName(fn))
				}
			}
		}
	}
}

// warnsBefore: every path to in on which Impl is false passes a warning.
func (a *rmbApply) warnsBefore(fn *ssa.Function, in ssa.Instruction) bool {
	isWarn := func(x ssa.Instruction) bool {
		ci, ok := x.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		if f == nil {
			return false
		}
		n := f.Name()
		return strings.Contains(n, "Warn") || strings.Contains(n, "Error") || isLogFn(f)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool // reaches in without a warning, not implemented
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, x := range b.Instrs {
			if x == in {
				return true
			}
			if isWarn(x) && a.afterImplFalse(b) {
				return false
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cond := iff.Cond
			neg := false
			if u, ok := cond.(*ssa.UnOp); ok && u.Op.String() == "!" {
				cond, neg = u.X, true
			}
			if r, ok := readsField(cond); ok && r.name == "Impl" {
				if neg {
					return walk(b.Succs[0])
				}
				return walk(b.Succs[1])
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return !walk(fn.Blocks[0])
}

// afterImplFalse: block b runs only where Impl was found false.
func (a *rmbApply) afterImplFalse(b *ssa.BasicBlock) bool {
	for _, g := range allGuards(b) {
		cond := g.cond
		if u, ok := cond.(*ssa.UnOp); ok && u.Op.String() == "!" {
			cond = u.X
		}
		if r, ok := readsField(cond); ok && r.name == "Impl" {
			return true
		}
	}
	return false
}
