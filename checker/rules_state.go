package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rootGlobal: the package variable an address or value is reached from.
func rootGlobal(v ssa.Value) *ssa.Global {
	seen := map[ssa.Value]bool{}
	for i := 0; i < 40; i++ {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Index:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.MakeInterface:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// writesGlobal: the package variable whose memory the instruction changes.
func writesGlobal(in ssa.Instruction) *ssa.Global {
	switch v := in.(type) {
	case *ssa.Store:
		return rootGlobal(v.Addr)
	case *ssa.MapUpdate:
		return rootGlobal(v.Map)
	case *ssa.Send:
		return rootGlobal(v.Chan)
	case ssa.CallInstruction:
		c := v.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "copy", "delete", "clear":
				return rootGlobal(c.Args[0])
			}
			return nil
		}
		for _, a := range c.Args {
			// the variable itself is handed over: it may be changed there
			if g, ok := a.(*ssa.Global); ok {
				return g
			}
			if fa, ok := a.(*ssa.FieldAddr); ok {
				if g := rootGlobal(fa); g != nil {
					return g
				}
			}
			if fa, ok := a.(*ssa.IndexAddr); ok {
				if g := rootGlobal(fa); g != nil {
					return g
				}
			}
		}
	}
	return nil
}

func isLogGlobal(g *ssa.Global) bool {
	t := types.TypeString(g.Type(), func(p *types.Package) string { return p.Name() })
	return strings.HasSuffix(t, "*log.Logger") || strings.HasSuffix(t, "MyLogger")
}

// structsFrom: names of the structs of the program reachable from a type.
func structsFrom(t types.Type, out map[string]bool) {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		if u.Obj().Pkg() == nil || u.Obj().Pkg().Name() != "main" {
			return
		}
		if s, ok := u.Underlying().(*types.Struct); ok {
			if out[u.Obj().Name()] {
				return
			}
			out[u.Obj().Name()] = true
			for i := 0; i < s.NumFields(); i++ {
				structsFrom(s.Field(i).Type(), out)
			}
			return
		}
		structsFrom(u.Underlying(), out)
	case *types.Pointer:
		structsFrom(u.Elem(), out)
	case *types.Slice:
		structsFrom(u.Elem(), out)
	case *types.Array:
		structsFrom(u.Elem(), out)
	case *types.Map:
		structsFrom(u.Key(), out)
		structsFrom(u.Elem(), out)
	}
}

// rulePackageState: L05.
func rulePackageState(c *Ctx) {
	p := c.P
	const rn = "level-state"
	c.Rule("level-state: no function run for a level changes a package variable or anything reached through one (the log excepted), nor, outside memory it made itself, the structures handed in that outlive the level (options, RMB rules, schedule, other wads) - except its own directory entries, the offsets of zero-filled rejects, the write queue and the cache of the external wad, which is only used for the very file asked for; and nothing run between two levels changes a package variable")
	var roots []*ssa.Function
	for _, t := range []string{"Level", "UDMF_Level"} {
		if f := p.Method(t, "DoLevel"); f != nil {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		c.Undecided("L05", "no method DoLevel")
		return
	}
	below := p.below(roots)
	c.Count(rn+": functions run for a level", len(below))
	via := func(f *ssa.Function) string {
		s := FullName(f)
		for i := 0; below[f] != nil && i < 12; i++ {
			f = below[f]
			s = FullName(f) + " -> " + s
		}
		return s
	}
	// structures that outlive a level
	lasting := map[string]bool{}
	for _, r := range roots {
		for _, pr := range r.Params[1:] {
			structsFrom(pr.Type(), lasting)
		}
	}
	for _, m := range p.Main.Members {
		if g, ok := m.(*ssa.Global); ok && !isLogGlobal(g) {
			structsFrom(deref(g.Type()), lasting)
		}
	}
	own := func(cls string) bool {
		switch cls {
		case "F:LumpEntry.FilePos", "F:LumpEntry.Size", // their own entries: W06, W09
			"F:FileControl.freport",                                                                 // the report, which is no lump
			"F:FileControl.fpin", "F:FileControl.pinnedFileName", "F:FileControl.pinnedExternalWad": // the cache, below
			return true
		}
		switch classOwner(cls) {
		case "Troll", "OffsetContainer", "WriteBusControl", "WriteBusRequest", "MyLogger", "MiniLogger", "ZExt_MiniLogger", "LumpWriteConfirmation":
			return true
		}
		return false
	}
	for fn := range below {
		if isLogFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c.Count(rn+": instructions looked at", 1)
				if g := writesGlobal(in); g != nil && !isLogGlobal(g) {
					c.Viol(rn, "L05|package variable changed while a level is processed ["+g.Name()+" in "+fn.Name()+"]", p.InstrPos(in), "package variable "+g.Name()+" (or memory reached from it) is changed by "+via(fn)+", so a level's result depends on the levels before it")
				}
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				addr := s.Addr
				if ia, ok := addr.(*ssa.IndexAddr); ok {
					// element of a list in a lasting structure
					if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL {
						addr = u.X
					}
				}
				fa, ok := addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				cls, _ := fieldClass(fa.X.Type(), fa.Field)
				if !lasting[classOwner(cls)] || own(cls) {
					continue
				}
				c.Count(rn+": stores into structures that may outlive a level", 1)
				if ownMemory(s.Addr, map[ssa.Value]bool{}) || ownMemory(fa.X, map[ssa.Value]bool{}) || freshBelow(p, fa.X) {
					continue
				}
				c.Viol(rn, "L05|shared structure changed while a level is processed ["+strings.TrimPrefix(cls, "F:")+" in "+fn.Name()+"]", p.InstrPos(in), "field "+strings.TrimPrefix(cls, "F:")+", which outlives the level, is changed by "+via(fn)+", so a level's result depends on the levels before it")
			}
		}
	}
	// between levels
	main := p.Func("main")
	if main == nil {
		c.Undecided("L05", "no function main")
		return
	}
	for caller := range callersOf(p, roots, main) {
		var levels []ssa.Instruction
		for _, b := range caller.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, f := range p.Callees(ci) {
						for _, r := range roots {
							if f == r || callersOf(p, []*ssa.Function{r}, main)[f] {
								levels = append(levels, in)
							}
						}
					}
				}
			}
		}
		for _, b := range caller.Blocks {
			for _, in := range b.Instrs {
				between := false
				for _, l := range levels {
					between = between || instrReach(l, in) && instrReach(in, l)
				}
				if !between {
					continue
				}
				c.Count(rn+": instructions between two levels", 1)
				if g := writesGlobal(in); g != nil && !isLogGlobal(g) {
					c.Viol(rn, "L05|package variable changed between levels ["+g.Name()+" in "+caller.Name()+"]", p.InstrPos(in), "package variable "+g.Name()+" is changed between two levels in "+FullName(caller))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, f := range p.Callees(ci) {
					if isLogFn(f) || below[f] != nil || f == roots[0] || f == roots[len(roots)-1] {
						continue
					}
					for g := range p.below([]*ssa.Function{f}) {
						if isLogFn(g) || hasKey(below, g) {
							continue
						}
						for _, bb := range g.Blocks {
							for _, i2 := range bb.Instrs {
								if gl := writesGlobal(i2); gl != nil && !isLogGlobal(gl) {
									c.Viol(rn, "L05|package variable changed between levels ["+gl.Name()+" in "+g.Name()+"]", p.InstrPos(i2), "package variable "+gl.Name()+" is changed in "+FullName(g)+", which runs between two levels")
								}
							}
						}
					}
				}
			}
		}
	}
	c.Min(rn, rn+": functions run for a level", 300)
	c.Min(rn, rn+": instructions between two levels", 20)
	c.Min(rn, rn+": stores into structures that may outlive a level", 3)
	ruleWadCache(c)
}

func hasKey(m map[*ssa.Function]*ssa.Function, f *ssa.Function) bool { _, ok := m[f]; return ok }

// callersOf: functions from which one of fns is called, up to and including top.
func callersOf(p *Prog, fns []*ssa.Function, top *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	w := append([]*ssa.Function{}, fns...)
	for len(w) > 0 {
		f := w[0]
		w = w[1:]
		for _, ci := range p.callers[f] {
			if g := ci.Parent(); !out[g] {
				out[g] = true
				if g != top {
					w = append(w, g)
				}
			}
		}
	}
	return out
}

// freshBelow: the object was made below the level: every place it may come from is
// an allocation, also when it is reached through a field of such an object (then
// the field was given an allocation where the object was made).
func freshBelow(p *Prog, v ssa.Value) bool {
	_, ok := makers(p, v, map[ssa.Value]bool{})
	return ok
}

func makers(p *Prog, v ssa.Value, seen map[ssa.Value]bool) ([]ssa.Value, bool) {
	if seen[v] || isNilConst(v) {
		return nil, true
	}
	seen[v] = true
	all := func(vs []ssa.Value) ([]ssa.Value, bool) {
		var out []ssa.Value
		for _, x := range vs {
			m, ok := makers(p, x, seen)
			if !ok {
				return nil, false
			}
			out = append(out, m...)
		}
		return out, true
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return []ssa.Value{v}, true
	case *ssa.FieldAddr:
		return makers(p, x.X, seen)
	case *ssa.IndexAddr:
		return makers(p, x.X, seen)
	case *ssa.Slice:
		return makers(p, x.X, seen)
	case *ssa.ChangeType:
		return makers(p, x.X, seen)
	case *ssa.Phi:
		return all(x.Edges)
	case *ssa.Extract:
		if ci, ok := x.Tuple.(*ssa.Call); ok {
			return callMakers(p, ci, x.Index, seen)
		}
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return makers(p, x.Common().Args[0], seen)
			}
			return nil, false
		}
		return callMakers(p, x, 0, seen)
	case *ssa.Parameter:
		i := -1
		for k, q := range x.Parent().Params {
			if q == x {
				i = k
			}
		}
		cs := p.callers[x.Parent()]
		if i < 0 || len(cs) == 0 {
			return nil, false
		}
		var as []ssa.Value
		for _, ci := range cs {
			if ci.Common().IsInvoke() || i >= len(ci.Common().Args) {
				return nil, false
			}
			as = append(as, ci.Common().Args[i])
		}
		return all(as)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			vs := storedIn(al, -1)
			if len(vs) == 0 {
				return nil, false
			}
			return all(vs)
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			// an element of a list that was made: whatever is put into such lists there
			objs, ok := makers(p, ia.X, seen)
			if !ok {
				return nil, false
			}
			var vs []ssa.Value
			fns := map[*ssa.Function]bool{x.Parent(): true}
			for _, o := range objs {
				fns[o.(ssa.Instruction).Parent()] = true
			}
			for f := range fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok {
							if ib, ok := s.Addr.(*ssa.IndexAddr); ok && types.Identical(deref(ib.Type()), x.Type()) {
								vs = append(vs, s.Val)
							}
						}
					}
				}
			}
			if len(vs) == 0 {
				return nil, false
			}
			return all(vs)
		}
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return nil, false
		}
		// the objects the field may belong to, found anew
		loads := map[ssa.Value]bool{}
		for k := range seen {
			if _, ok := k.(*ssa.UnOp); ok {
				loads[k] = true
			}
		}
		objs, ok := makers(p, fa.X, loads)
		if !ok {
			return nil, false
		}
		var vs []ssa.Value
		for _, o := range objs {
			al, ok := o.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			w := storedIn(al, fa.Field)
			// a copy of another object: the field has to be given anew after that
			for _, cp := range storedAt(al, -1) {
				anew := false
				for _, s := range storedAt(al, fa.Field) {
					if x.Parent() == al.Parent() {
						anew = anew || before(s, x) && !instrReach(s, cp)
					} else {
						anew = anew || p.always(cp, s) && !before(s, cp)
					}
				}
				if !anew {
					w = append(w, cp.Val)
				}
			}
			if len(w) == 0 {
				return nil, false
			}
			vs = append(vs, w...)
		}
		return all(vs)
	}
	return nil, false
}

func callMakers(p *Prog, ci *ssa.Call, i int, seen map[ssa.Value]bool) ([]ssa.Value, bool) {
	var out []ssa.Value
	fs := p.Callees(ci)
	for _, f := range fs {
		rs := resultVals(f, i)
		if len(rs) == 0 {
			return nil, false
		}
		for _, r := range rs {
			m, ok := makers(p, r, seen)
			if !ok {
				return nil, false
			}
			out = append(out, m...)
		}
	}
	return out, len(fs) > 0
}

// storedIn: values stored into a field of an allocation (field < 0: into it) in
// the function that makes it, directly or through a variable it is assigned to.
func storedIn(al *ssa.Alloc, field int) []ssa.Value {
	var out []ssa.Value
	for _, s := range storedAt(al, field) {
		out = append(out, s.Val)
	}
	return out
}

func storedAt(al *ssa.Alloc, field int) []*ssa.Store {
	alias := map[ssa.Value]bool{al: true}
	for again := true; again; {
		again = false
		for _, b := range al.Parent().Blocks {
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && !alias[ph] {
					for _, e := range ph.Edges {
						if alias[e] {
							alias[ph] = true
							again = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Store
	for _, b := range al.Parent().Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if field < 0 {
				if alias[s.Addr] {
					out = append(out, s)
				}
				continue
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == field && alias[fa.X] {
				out = append(out, s)
			}
		}
	}
	return out
}

// ruleWadCache: the external wad handed out is the one asked for, never the output.
func ruleWadCache(c *Ctx) {
	p := c.P
	const rn = "wad-cache"
	c.Rule("wad-cache: the wad handed out for a file name is the input's only if the name is the input's or names the same file, the one kept from an earlier request only if it was kept under that name or names the same file, and a newly read one only if it was read from a file opened by that name, which is not the output; what is kept is what was read, together with its name")
	fct := p.Named("FileControl")
	pw := p.Named("PinnedWad")
	if fct == nil || pw == nil {
		c.Undecided("L05", "FileControl or PinnedWad not found")
		return
	}
	for _, fn := range p.Funcs {
		if isSourceFn(fn) != "wad" || fn.Blocks == nil {
			continue
		}
		c.Count(rn+": functions handing out a wad", 1)
		r := &Rule{Name: rn, Cap: 300}
		isOpen := func(f *ssa.Function) bool {
			return isSig2(f, "FileControl", []string{"string"}, "*File", "error")
		}
		isRead := func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			return rs.Len() == 2 && types.TypeString(rs.At(0).Type(), func(*types.Package) string { return "" }) == "[]LumpEntry" && paramOf(f, "File") >= 0
		}
		r.Keep = func(cls string) bool {
			return strings.HasPrefix(cls, "F:FileControl.") || strings.HasPrefix(cls, "F:PinnedWad.")
		}
		r.KeepFact = r.Keep
		r.NoInline = func(f *ssa.Function) bool { return isLogFn(f) || isOpen(f) || isRead(f) }
		r.Eventful = func(f *ssa.Function, in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := callName(ci)
			return n == "SameFile" || n == "Stat"
		}
		recv := Sym(fn.Name(), "p:"+fn.Params[0].Name())
		name := Sym(fn.Name(), "p:"+fn.Params[1].Name())
		fld := func(e *Engine, fr *Frame, st *State, f string) *Term {
			t, _ := e.loadField(fr, st, recv, fct, f)
			return orT(t)
		}
		r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
			if callee == nil {
				return nil, false
			}
			switch {
			case FullName(callee) == "os.Stat":
				return []Out{{Kind: ORet, Res: Tuple(App("stat", args[0]), App("staterr", args[0])), St: st}}, true
			case FullName(callee) == "os.SameFile":
				a, b := args[0], args[1]
				return []Out{{Kind: ORet, Res: App("same", a, b), St: st}}, true
			case isOpen(callee):
				e.Ev("another wad opened", ci)
				st.SetM("opened", "1")
				e.Kill(fr, st, "F:FileControl.pinnedFileName", e.sym(fr, st, ci, "k"), nil)
				return []Out{{Kind: ORet, Res: Tuple(App("open", args[len(args)-1]), App("openerr", args[len(args)-1])), St: st}}, true
			case isRead(callee):
				e.Ev("directory of another wad read", ci)
				return []Out{{Kind: ORet, Res: Tuple(App("dir", args[paramOf(callee, "File")]), e.sym(fr, st, ci, "err")), St: st}}, true
			}
			return nil, false
		}
		same := func(e *Engine, st *State, a, b *Term, want int) bool {
			x, y := App("stat", a), App("stat", b)
			return e.Truth(st, App("same", x, y)) == want || e.Truth(st, App("same", y, x)) == want
		}
		r.Branch = func(e *Engine, fr *Frame, st *State) {
			// looked at before the fields may change
			if k := fld(e, fr, st, "pinnedFileName"); st.M("opened") == "" {
				if e.Truth(st, Eq(k, name)) == 1 || same(e, st, k, name, 1) {
					st.SetM("kept", "1")
				}
			}
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			v, ok := in.(*ssa.Return)
			if !ok || fr.parent != nil {
				return
			}
			e.Paths++
			pos := p.InstrPos(in)
			t := e.Eval(fr, st, v.Results[0])
			if e.Truth(st, Eq(t, Nil())) == 1 {
				e.Ev("no wad handed out", in)
				return
			}
			isIn := e.Truth(st, Eq(fld(e, fr, st, "inputFileName"), name)) == 1
			if !isIn && !same(e, st, fld(e, fr, st, "outputFileName"), name, 0) {
				e.Violate("L05|wad handed out may be the output", pos, "a wad is handed out though it was not found to be another file than the output, which is being written: "+st.Path())
			}
			cls, base := ldOf(t)
			switch {
			case cls == "FileControl.inputWad" && base == recv:
				e.Ev("input wad handed out", in)
				if !isIn && !same(e, st, fld(e, fr, st, "inputFileName"), name, 1) {
					e.Violate("L05|input wad handed out for another file", pos, "the input wad is handed out though another file was asked for: "+st.Path())
				}
			case cls == "FileControl.pinnedExternalWad" && base == recv:
				e.Ev("wad kept from an earlier request handed out", in)
				if st.M("kept") == "" || st.M("opened") != "" {
					e.Violate("L05|wad of an earlier level handed out for another file", pos, "the wad kept from an earlier request is handed out though it was not found to be the file asked for: "+st.Path())
				}
			default:
				e.Ev("newly read wad handed out", in)
				le, _ := e.loadField(fr, st, t, pw, "le")
				rd, _ := e.loadField(fr, st, t, pw, "readerAt")
				f := App("open", name)
				if orT(le) != App("dir", f) || unDyn(orT(rd)) != f {
					e.Violate("L05|wad handed out is not the file asked for", pos, "the wad handed out was not read from the file asked for: "+st.Path())
				}
				if kept := fld(e, fr, st, "pinnedExternalWad"); kept != t {
					e.Violate("L05|kept wad is not the one its name says", pos, "after another file was opened the wad kept is not the one read from it: a later request for that file gets an older wad: "+st.Path())
				}
			}
		}
		e := NewEngine(p, r)
		e.Run(fn, keepParams(fn))
		c.Take(e)
	}
	c.Min(rn, rn+": input wad handed out", 1)
	c.Min(rn, rn+": newly read wad handed out", 1)
}

func isSig2(f *ssa.Function, recv string, params []string, r1, r2 string) bool {
	s := f.Signature
	q := func(*types.Package) string { return "" }
	if s.Recv() == nil || recvName(f) != recv || s.Params().Len() != len(params) || s.Results().Len() != 2 {
		return false
	}
	for i, t := range params {
		if types.TypeString(s.Params().At(i).Type(), q) != t {
			return false
		}
	}
	return types.TypeString(s.Results().At(0).Type(), q) == "*"+strings.TrimPrefix(r1, "*") && types.TypeString(s.Results().At(1).Type(), q) == r2
}
