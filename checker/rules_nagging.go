package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// answerers finds the functions that answer a builder's request for an existing
// reject lump: they take the request and are called by one that does not.
func answerers(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if paramOf(f, "RejectNagger") < 0 || f.Blocks == nil {
			continue
		}
		outer := false
		for _, ci := range p.callers[f] {
			outer = outer || paramOf(ci.Parent(), "RejectNagger") < 0
		}
		sends := false
		for g := range p.below([]*ssa.Function{f}) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					_, ok := isAnswerSend(in)
					sends = sends || ok
				}
			}
		}
		if outer && sends && f.Signature.Results().Len() == 1 {
			out = append(out, f)
		}
	}
	return out
}

func isSig(f *ssa.Function, recv string, params []string, result string) bool {
	s := f.Signature
	if s.Recv() == nil != (recv == "") || s.Recv() != nil && recvName(f) != recv {
		return false
	}
	if s.Params().Len() != len(params) || s.Results().Len() != 1 {
		return false
	}
	for i, t := range params {
		if types.TypeString(s.Params().At(i).Type(), func(*types.Package) string { return "" }) != t {
			return false
		}
	}
	return types.TypeString(s.Results().At(0).Type(), func(*types.Package) string { return "" }) == result
}

func isAnswerSend(in ssa.Instruction) (*ssa.Send, bool) {
	s, ok := in.(*ssa.Send)
	if !ok || chanElem(s.Chan.Type()) != "LevelSaysToNagging" {
		return nil, false
	}
	return s, true
}

// ldOf: t is the value loaded from a field; the field's class and its object.
func ldOf(t *Term) (string, *Term) {
	t = stripConv(t)
	if t != nil && t.kind == KApp && t.op == "ld" && t.args[0].kind == KField {
		return strings.TrimPrefix(t.args[0].op, "F:"), t.args[0].args[0]
	}
	return "", nil
}

// ruleRejectSource: R05.
func ruleRejectSource(c *Ctx) {
	p := c.P
	const rn = "reject-source"
	c.Rule("reject-source: a request for an existing REJECT is answered with bytes only on paths where the size of the very directory entry read was found equal to the size the requested sector count needs, the whole lump was read from that entry's position of the same wad without error, and the entry is the REJECT of the level asked for; every other path declines; every path answers exactly once and returns bytes only if it said they were copied; the asker obeys a refusal")
	rootFns := answerers(p)
	ans := p.Named("LevelSaysToNagging")
	nag := p.Named("RejectNagger")
	if ans == nil || nag == nil || len(rootFns) == 0 {
		c.Undecided("R05", "no function answering requests for an existing reject was found")
		return
	}
	for _, root := range rootFns {
		c.Count(rn+": functions answering requests for a reject", 1)
		r := &Rule{Name: rn, Cap: 400, JoinBools: true}
		r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
			if _, ok := isAnswerSend(in); ok {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if n := callName(ci); n == "ReadAt" || n == "ReadFull" {
					return true
				}
				for _, f := range p.Callees(ci) {
					if isSourceFn(f) != "" || isSizeFn(f) {
						return true
					}
				}
			}
			return false
		}
		r.NoInline = func(f *ssa.Function) bool { return isLogFn(f) || isSourceFn(f) != "" || isSizeFn(f) }
		r.Keep = func(cls string) bool {
			cls = strings.TrimPrefix(cls, "F:")
			return strings.HasPrefix(cls, "LumpEntry.") || strings.HasPrefix(cls, "RejectNagger.") || strings.HasPrefix(cls, "PinnedWad.") ||
				cls == "Level.le" || cls == "Level.f" || cls == "Level.RejectLumpIdx" || cls == "Level.mapName" || cls == "ScheduledLump.DirIndex"
		}
		r.KeepFact = r.Keep
		r.Immutable = func(cls string) bool {
			return r.Keep(cls)
		}
		viol := func(e *Engine, key, pos, msg string, st *State) {
			e.Violate("R05|"+key, pos, msg+": "+st.Path())
		}
		need := func(e *Engine, st *State, t *Term, pos, what string) {
			if t.kind == KApp && strings.HasPrefix(t.op, "src:") && e.Truth(st, Eq(t, Nil())) != 0 {
				viol(e, "source used without knowing it exists ["+what+"]", pos, "the "+what+" is used though the look-up may have found none", st)
			}
		}
		r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
			pos := p.InstrPos(ci)
			switch callName(ci) {
			case "ReadAt":
				if len(args) != 3 {
					return nil, false
				}
				e.Ev("reject lump read", ci)
				n := e.lenOf(fr, st, args[1])
				st.mon["rd"] = Tuple(args[0], args[1], args[2])
				outs := e.forkErr(fr, st, ci, []*Term{n}, nil, func(s *State) { s.SetM("short", "1"); s.Note("read of the lump fails") })
				if len(outs) == 2 && outs[1].Res.kind == KTuple {
					e.Assume(outs[1].St, Less(outs[1].Res.args[0], n, types.Typ[types.Int]), true)
				}
				return outs, true
			}
			if callee == nil {
				return nil, false
			}
			switch isSourceFn(callee) {
			case "wad":
				e.Ev("source wad looked up", ci)
				return []Out{{Kind: ORet, Res: App("src:wad", args[len(args)-1]), St: st}}, true
			case "level":
				e.Ev("source level looked up", ci)
				need(e, st, args[0], pos, "wad")
				return []Out{{Kind: ORet, Res: App("src:level", args...), St: st}}, true
			case "lump":
				e.Ev("source lump looked up", ci)
				need(e, st, args[0], pos, "wad")
				need(e, st, args[1], pos, "level")
				return []Out{{Kind: ORet, Res: App("src:lump", args...), St: st}}, true
			case "path":
				return []Out{{Kind: ORet, Res: App("src:path", args[1]), St: st}}, true
			}
			if isSizeFn(callee) {
				e.Ev("size of a reject computed", ci)
				return []Out{{Kind: ORet, Res: App("rejsize", args[0]), St: st}}, true
			}
			return nil, false
		}
		field := func(e *Engine, fr *Frame, st *State, name string) *Term {
			i := paramOf(root, "RejectNagger")
			t, _ := e.loadField(fr, st, Sym(root.Name(), "p:"+root.Params[i].Name()), nag, name)
			return orT(t)
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			pos := p.InstrPos(in)
			if fa, ok := in.(*ssa.FieldAddr); ok {
				switch namedName(deref(fa.X.Type())) {
				case "PinnedWad":
					need(e, st, e.Eval(fr, st, fa.X), pos, "wad")
				case "ScheduledLump":
					need(e, st, e.Eval(fr, st, fa.X), pos, "lump")
				}
				return
			}
			if s, ok := isAnswerSend(in); ok {
				if st.M("sent") != "" {
					viol(e, "request answered twice", pos, "a request for an existing reject is answered twice; nobody takes the second answer", st)
				}
				st.SetM("sent", "1")
				if ch := e.Eval(fr, st, s.Chan); stripConv(ch) != field(e, fr, st, "replyTo") {
					viol(e, "answer sent elsewhere", pos, "the answer is not sent where the request says", st)
				}
				v := e.Eval(fr, st, s.X)
				refuse, copied := e.sfield(v, ans, "goToHell"), e.sfield(v, ans, "copied")
				data := orT(e.sfield(v, ans, "rejectData"))
				switch e.Truth(st, refuse) {
				case 1:
					e.Ev("request for a reject declined", in)
					st.SetM("ret", "nil")
					if e.Truth(st, copied) != 0 || data != Nil() {
						viol(e, "refusal with data", pos, "a request is declined yet data is said to be given", st)
					}
					return
				case 0:
				default:
					viol(e, "answer of unknown kind", pos, "whether the request is declined is not known", st)
					return
				}
				e.Ev("request for a reject granted", in)
				direct := field(e, fr, st, "mustDirectlyCopy")
				cp := e.Truth(st, copied)
				if cp < 0 && stripConv(copied) == direct {
					// answered as asked: two cases, but the same obligations
					viol(e, "answer of unknown kind", pos, "whether the lump is copied is not known", st)
					return
				}
				if cp < 0 || e.Truth(st, direct) != cp {
					viol(e, "lump not handed over as asked", pos, "the answer does not agree with the request on who writes the lump", st)
				}
				rd := st.mon["rd"]
				if rd == nil {
					viol(e, "reject given without being read", pos, "a request is granted though nothing was read", st)
					return
				}
				if st.M("short") != "" {
					viol(e, "reject given though reading it failed", pos, "a request is granted though the lump could not be read completely", st)
				}
				if cp == 1 {
					st.SetM("ret", "data")
					st.mon["retdata"] = rd.args[1]
				} else {
					st.SetM("ret", "nil")
					if data != rd.args[1] {
						viol(e, "other bytes given than read", pos, "the bytes given are not those read", st)
					}
				}
				// where from
				pc, po := ldOf(rd.args[2])
				if pc != "LumpEntry.FilePos" {
					viol(e, "reject read from elsewhere", pos, "the lump is not read at the position of its directory entry", st)
					return
				}
				sz, ok := sizeOfEntry(e, fr, st, po)
				if !ok {
					viol(e, "size of reject unknown", pos, "the size of the entry read is not known", st)
					return
				}
				n := stripConv(e.lenOf(fr, st, rd.args[1]))
				if n != sz {
					viol(e, "part of the reject read", pos, "the buffer read into does not have the size of the entry", st)
				}
				want := field(e, fr, st, "numSectors")
				if !sizeKnown(e, st, sz, want) {
					viol(e, "reject given without its size fitting", pos, "a request is granted though the size of the entry was not found equal to the size this number of sectors needs", st)
				}
				// the entry
				if po.kind != KIndex {
					viol(e, "entry of unknown place", pos, "the entry read is not an element of a directory", st)
					return
				}
				lc, lo := ldOf(po.args[0])
				rc, ro := ldOf(unDyn(rd.args[0]))
				if lo == nil || ro == nil || lo != ro {
					viol(e, "reject read from another wad than its entry's", pos, "the lump is read from another file than the one its directory entry belongs to", st)
					return
				}
				own := e.Truth(st, field(e, fr, st, "currentWadAndMap"))
				ic, io := ldOf(po.args[1])
				switch {
				case lc == "Level.le" && rc == "Level.f":
					e.Ev("reject of the level itself given", in)
					if own != 1 {
						viol(e, "own reject given instead of the one asked for", pos, "the level's own reject is given though another was asked for", st)
					}
					if ic != "Level.RejectLumpIdx" || io != lo {
						viol(e, "other lump given as own reject", pos, "the entry read is not that of the level's REJECT", st)
					}
				case lc == "PinnedWad.le" && rc == "PinnedWad.readerAt":
					e.Ev("reject of another wad given", in)
					if own != 0 {
						viol(e, "other reject given instead of own", pos, "another wad's reject is given though the level's own was asked for", st)
					}
					wad := lo
					okk := ic == "ScheduledLump.DirIndex" && io != nil && io.kind == KApp && io.op == "src:lump" && io.args[0] == wad
					if okk {
						s, isS := io.args[2].Str()
						lvl := io.args[1]
						okk = isS && s == "REJECT" && lvl.kind == KApp && lvl.op == "src:level" && lvl.args[0] == wad
						if okk {
							name := lvl.args[1]
							asked := field(e, fr, st, "mapToLoad")
							mc, _ := ldOf(name)
							switch {
							case name == asked:
								okk = e.Truth(st, Eq(asked, ConstS(""))) == 0
							case mc == "Level.mapName":
								okk = e.Truth(st, Eq(asked, ConstS(""))) == 1
							default:
								okk = false
							}
						}
					}
					if !okk {
						viol(e, "other lump given than asked for", pos, "the entry read is not the REJECT of the level asked for (or, if none was named, of the level with the current one's name)", st)
					}
					w := wad
					if !(w.kind == KApp && w.op == "src:wad" && underPath(w.args[0]) == field(e, fr, st, "wadToLoad")) {
						viol(e, "other wad used than asked for", pos, "the wad read is not the one asked for", st)
					}
				default:
					viol(e, "reject read from another wad than its entry's", pos, "the lump is read from another file than the one its directory entry belongs to", st)
				}
				return
			}
			if v, ok := in.(*ssa.Return); ok && fr.parent == nil {
				e.Paths++
				e.Ev("return from answering", in)
				if st.M("sent") == "" {
					viol(e, "request not answered", pos, "a request for an existing reject is not answered; the builder waits for ever", st)
					return
				}
				res := e.Eval(fr, st, v.Results[0])
				switch st.M("ret") {
				case "nil":
					if e.Truth(st, Eq(res, Nil())) != 1 {
						viol(e, "bytes returned to be written though not said to be copied", pos, "bytes are returned to be written though the builder was not told so; it delivers a lump of its own", st)
					}
				case "data":
					if res != st.mon["retdata"] {
						viol(e, "lump said to be copied is not returned", pos, "the builder is told the lump is copied, yet the bytes read are not returned to be written", st)
					}
				}
			}
		}
		e := NewEngine(p, r)
		e.Run(root, keepParams(root))
		c.Take(e)
	}
	c.Min(rn, rn+": request for a reject granted", 1)
	c.Min(rn, rn+": request for a reject declined", 1)
	c.Min(rn, rn+": reject of another wad given", 1)
	c.Min(rn, rn+": reject of the level itself given", 1)
	ruleRejectAsker(c)
	ruleRejectSize(c)
}

func callName(ci ssa.CallInstruction) string {
	if f := ci.Common().StaticCallee(); f != nil {
		return f.Name()
	}
	if m := ci.Common().Method; m != nil && ci.Common().IsInvoke() {
		return m.Name()
	}
	return ""
}

// isSourceFn: the look-ups a sourced reject goes through.
func isSourceFn(f *ssa.Function) string {
	switch {
	case isSig(f, "FileControl", []string{"string"}, "*PinnedWad"):
		return "wad"
	case isSig(f, "PinnedWad", []string{"string"}, "*ScheduledLump"):
		return "level"
	case isSig(f, "PinnedWad", []string{"*ScheduledLump", "string"}, "*ScheduledLump"):
		return "lump"
	case isSig(f, "FileControl", []string{"string"}, "string"):
		return "path"
	}
	return ""
}

// isSizeFn: int to int, no memory, no calls.
func isSizeFn(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.Blocks) > 4 || !isSig(f, "", []string{"int"}, "int") {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.BinOp, *ssa.Return, *ssa.Convert, *ssa.DebugRef, *ssa.Phi, *ssa.If, *ssa.Jump:
			default:
				return false
			}
		}
	}
	return true
}

func (e *Engine) lenOf(fr *Frame, st *State, a *Term) *Term {
	if a.kind == KApp && a.op == "sl2" {
		if t := e.sliceLen(a); t != nil {
			return t
		}
	}
	if a.kind == KAlloc && len(a.args) == 1 {
		return a.args[0]
	}
	return App("len", a)
}

func unDyn(t *Term) *Term {
	for t.kind == KApp && (t.op == "dyn" || strings.HasPrefix(t.op, "iface:")) && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func underPath(t *Term) *Term {
	if t.kind == KApp && t.op == "src:path" {
		return t.args[0]
	}
	return t
}

func sizeOfEntry(e *Engine, fr *Frame, st *State, entry *Term) (*Term, bool) {
	lt := e.P.Named("LumpEntry")
	if lt == nil {
		return nil, false
	}
	t, _ := e.loadField(fr, st, entry, lt, "Size")
	if t == nil {
		return nil, false
	}
	return stripConv(t), true
}

// sizeKnown: on this path the size was found equal to that needed for n sectors.
func sizeKnown(e *Engine, st *State, size, n *Term) bool {
	for f, v := range st.facts {
		if !v || f.kind != KApp || f.op != "==" || len(f.args) != 2 {
			continue
		}
		a, b := stripConv(f.args[0]), stripConv(f.args[1])
		for i := 0; i < 2; i++ {
			if a == size && b.kind == KApp && b.op == "rejsize" && stripConv(b.args[0]) == n {
				return true
			}
			if a == size && isRejectSize(b, n) {
				return true
			}
			a, b = b, a
		}
	}
	return false
}

// isRejectSize: t is the number of bytes a table of n*n bits needs.
func isRejectSize(t, n *Term) bool {
	it := types.Typ[types.Int]
	nn := BinTerm(token.MUL, n, n, it, it)
	up := BinTerm(token.ADD, nn, ConstI(7), it, it)
	for _, f := range []*Term{
		BinTerm(token.QUO, up, ConstI(8), it, it),
		BinTerm(token.SHR, up, ConstI(3), it, it),
		BinTerm(token.ADD, BinTerm(token.QUO, BinTerm(token.SUB, nn, ConstI(1), it, it), ConstI(8), it, it), ConstI(1), it, it),
	} {
		if t == f {
			return true
		}
	}
	return false
}

// ruleRejectSize: every function used as "size of a reject" computes n*n bits rounded up to bytes.
func ruleRejectSize(c *Ctx) {
	p := c.P
	const rn = "reject-size"
	c.Rule("reject-size: the function that gives the size of a REJECT for a number of sectors answers the number of bytes n*n bits take up")
	used := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !isSizeFn(f) {
			continue
		}
		for _, ci := range p.callers[f] {
			for _, a := range ci.Common().Args {
				if strings.HasSuffix(leafOfValue(a), "numSectors") {
					used[f] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if !used[f] {
			continue
		}
		r := &Rule{Name: rn}
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			v, ok := in.(*ssa.Return)
			if !ok || fr.parent != nil {
				return
			}
			e.Ev("size of a reject answered", in)
			n := Sym(f.Name(), "p:"+f.Params[0].Name())
			got := stripConv(e.Eval(fr, st, v.Results[0]))
			it := types.Typ[types.Int]
			nn := BinTerm(token.MUL, n, n, it, it)
			down := BinTerm(token.QUO, nn, ConstI(8), it, it)
			even := e.Truth(st, Eq(BinTerm(token.REM, nn, ConstI(8), it, it), ConstI(0)))
			fits := isRejectSize(got, n) || even == 1 && got == down || even == 0 && got == BinTerm(token.ADD, down, ConstI(1), it, it)
			if !fits {
				e.Violate("R05|size of a reject miscomputed ["+f.Name()+"]", p.InstrPos(in), FullName(f)+" does not answer the number of bytes n*n bits take up")
			}
		}
		e := NewEngine(p, r)
		e.Run(f, nil)
		c.Take(e)
	}
	c.Min(rn, rn+": size of a reject answered", 1)
}

// leafOfValue: name of the field or parameter a value is.
func leafOfValue(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Convert:
		return leafOfValue(x.X)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldNameOf(fa)
		}
	}
	return ""
}

// ruleRejectAsker: the side that asks.
func ruleRejectAsker(c *Ctx) {
	p := c.P
	const rn = "reject-asker"
	c.Rule("reject-asker: whoever asks for an existing REJECT fills in the request (number of sectors, who writes, where to answer) before sending it, waits for exactly one answer on the channel it named, and on a refusal reports failure; on success without copying it hands on the bytes of the answer")
	ans, nag, rr := p.Named("LevelSaysToNagging"), p.Named("RejectNagger"), p.Named("RejectResponse")
	if ans == nil || nag == nil || rr == nil {
		return
	}
	for _, fn := range p.Funcs {
		if fn.Blocks == nil {
			continue
		}
		asks := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && chanElem(u.X.Type()) == "LevelSaysToNagging" {
					asks = true
				}
			}
		}
		if !asks {
			continue
		}
		// the outermost function that still says who writes the lump
		root := fn
		says := func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			return rs.Len() > 0 && isBool(rs.At(0).Type())
		}
		for i := 0; i < 5 && !says(root) && len(p.callers[root]) == 1; i++ {
			root = p.callers[root][0].Parent()
		}
		c.Count(rn+": functions asking for a reject", 1)
		r := &Rule{Name: rn, Cap: 100, JoinBools: true}
		r.Eventful = func(f *ssa.Function, in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.Send:
				return chanElem(v.Chan.Type()) == "RejectResponse"
			case *ssa.UnOp:
				return v.Op == token.ARROW && chanElem(v.X.Type()) == "LevelSaysToNagging"
			}
			return false
		}
		r.Keep = func(cls string) bool { return strings.HasPrefix(cls, "F:RejectNagger.") }
		r.NoInline = func(f *ssa.Function) bool { return isLogFn(f) }
		viol := func(e *Engine, key, pos, msg string, st *State) {
			e.Violate("R05|"+key+" ["+root.Name()+"]", pos, msg+" in "+FullName(root)+": "+st.Path())
		}
		var direct, sectors *Term
		for i, pr := range root.Params {
			t := Sym(root.Name(), "p:"+pr.Name())
			if b, ok := pr.Type().Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Bool:
					direct = t
				case types.Int:
					sectors = t
				}
			}
			_ = i
		}
		r.Recv = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, ch *Term) *Term {
			return nil
		}
		r.Value = func(e *Engine, fr *Frame, st *State, v ssa.Value) *Term {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW || chanElem(u.X.Type()) != "LevelSaysToNagging" {
				return nil
			}
			return App("answer")
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			pos := p.InstrPos(in)
			switch v := in.(type) {
			case *ssa.UnOp:
				if v.Op != token.ARROW || chanElem(v.X.Type()) != "LevelSaysToNagging" {
					return
				}
				e.Ev("answer awaited", in)
				if st.M("asked") == "" {
					viol(e, "answer awaited without a request", pos, "an answer is awaited though no request was sent", st)
				}
				if st.M("answered") != "" {
					viol(e, "second answer awaited", pos, "a second answer is awaited; none comes", st)
				}
				st.SetM("answered", "1")
				if ch := st.mon["reply"]; ch != nil && stripConv(e.Eval(fr, st, v.X)) != stripConv(ch) {
					viol(e, "answer awaited elsewhere", pos, "the answer is awaited on another channel than the request names", st)
				}
			case *ssa.Send:
				if chanElem(v.Chan.Type()) != "RejectResponse" {
					return
				}
				x := e.Eval(fr, st, v.X)
				n := e.sfield(x, rr, "nagger")
				if n == nil || e.Truth(st, Eq(n, Nil())) == 1 {
					return
				}
				e.Ev("request sent", in)
				if st.M("asked") != "" {
					viol(e, "request sent twice", pos, "a request for a reject is sent twice", st)
				}
				st.SetM("asked", "1")
				get := func(f string) *Term { t, _ := e.loadField(fr, st, n, nag, f); return orT(t) }
				if direct != nil && e.Truth(st, Eq(get("mustDirectlyCopy"), direct)) != 1 && get("mustDirectlyCopy") != direct {
					viol(e, "request does not say who writes the lump", pos, "the request does not carry who is to write the lump", st)
				}
				if sectors != nil && stripConv(get("numSectors")) != sectors {
					viol(e, "request without the number of sectors", pos, "the request does not carry the number of sectors, its size cannot be checked", st)
				}
				rp := get("replyTo")
				if e.Truth(st, Eq(rp, Nil())) != 0 {
					viol(e, "request without reply address", pos, "the request does not say where to answer", st)
				}
				st.mon["reply"] = rp
			case *ssa.Return:
				if fr.parent != nil || len(v.Results) == 0 {
					return
				}
				e.Paths++
				ok := e.Eval(fr, st, v.Results[0])
				a := App("answer")
				suc := e.Truth(st, ok)
				if st.M("asked") == "" || st.M("answered") == "" {
					if suc != 0 {
						viol(e, "success without an answer", pos, "success is reported though no answer was received", st)
					}
					return
				}
				refused := e.Truth(st, orT(e.sfield(a, ans, "goToHell")))
				if suc < 0 && ok == Not(orT(e.sfield(a, ans, "goToHell"))) {
					return
				}
				if suc != 0 && refused != 0 {
					viol(e, "refusal taken for success", pos, "success is reported though the request may have been declined", st)
				}
				if suc != 1 {
					e.Ev("failure reported", in)
					return
				}
				e.Ev("success reported", in)
				if len(v.Results) > 1 && direct != nil && e.Truth(st, direct) != 1 && e.Truth(st, orT(e.sfield(a, ans, "copied"))) != 1 {
					if e.Eval(fr, st, v.Results[1]) != orT(e.sfield(a, ans, "rejectData")) {
						viol(e, "other bytes used than answered", pos, "the bytes handed on are not those of the answer", st)
					}
				}
			}
		}
		e := NewEngine(p, r)
		e.Run(root, keepParams(root))
		c.Take(e)
	}
	c.Min(rn, rn+": request sent", 1)
	c.Min(rn, rn+": answer awaited", 1)
	c.Min(rn, rn+": failure reported", 1)
	c.Min(rn, rn+": success reported", 1)
}
