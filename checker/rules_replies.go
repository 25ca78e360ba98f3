package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The builders of reject and blockmap, the goroutines behind the shared
// blockmap of solid lines and the workers that try several trees or offsets:
// what they answer, how often and when their channels are closed.

// setFields gives fields of a parameter passed by value or by pointer symbols
// of their own and returns them.
func structParam(fr *Frame, st *State, param string, typ types.Type) *Term {
	s := typ.Underlying().(*types.Struct)
	var a []*Term
	for i := 0; i < s.NumFields(); i++ {
		t := Sym(fr.ctx, "p:"+param+"."+s.Field(i).Name())
		if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
			t = App("nonnil", t)
		}
		a = append(a, t)
	}
	return StructT(typ, a)
}

// rejectKeep: fields whose contents decide about messages of a reject builder.
func rejectKeep(owner, field string) bool {
	switch owner {
	case "RejectNagger", "RejectResponse", "LevelSaysToNagging", "BconRequest", "BgenRequest":
		return true
	case "RejectInput", "RejectInternalSetup":
		return field == "rejectChan" || field == "bcontrol" || field == "bgenerator"
	}
	if strings.HasSuffix(owner, "RejectWork") {
		return field == "specialSolids" || field == "input" || field == "blockmap"
	}
	return false
}

func ruleRejectBuilder(c *Ctx) {
	p := c.P
	const rn = "reject-builder"
	c.Rule("reject-builder: on every path on which the reject builder returns, exactly one final result is sent, as the last thing, to the channel it was given; each request for an existing reject is answered before anything else is sent; the shared solid-line blockmap is told exactly once whether it is needed, fetched only after being asked for and released exactly once after its last use")
	roots := goTargets(p, "RejectInput")
	if len(roots) == 0 {
		c.Undecided(rn, "no goroutine takes a RejectInput")
		return
	}
	inT, respT, breqT, bgenT, nagT := p.Named("RejectInput"), p.Named("RejectResponse"), p.Named("BconRequest"), p.Named("BgenRequest"), p.Named("RejectNagger")
	if inT == nil || respT == nil || breqT == nil || bgenT == nil || nagT == nil {
		c.Undecided(rn, "types of the reject builder are gone")
		return
	}
	K := func(name string) int64 {
		v, ok := p.ConstInt(name)
		if !ok {
			c.Undecided(rn, "constant "+name+" is gone")
		}
		return v
	}
	mods := p.ModSets()
	bmReach := p.reachLoads("F:Blockmap.")
	for _, root := range roots {
		pi := paramOf(root, "RejectInput")
		r := &Rule{Name: rn, Cap: 24, CoarseKill: true}
		interesting := map[string]bool{"RejectResponse": true, "BconRequest": true, "BgenRequest": true}
		r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.Send:
				return interesting[chanElem(v.Chan.Type())]
			case *ssa.Store:
				cl, _ := addrClass(v.Addr)
				return strings.HasSuffix(cl, "RejectWork.specialSolids")
			}
			return false
		}
		eventful := p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool { return r.Eventful(fn, in) })
		r.NoInline = func(fn *ssa.Function) bool {
			if isLogFn(fn) {
				return true
			}
			return !eventful[fn] && !plainResults(fn, "RejectWorkIntf", "RejectWork", "FastRejectWork", "SymmetricRejectWork")
		}
		imm := func(cls string) bool {
			switch cls {
			case "F:RejectInput.bcontrol", "F:RejectInput.bgenerator", "F:RejectInput.rejectChan", "F:RejectInternalSetup.rejectChan", "F:RejectNagger.replyTo":
				return true
			}
			return strings.HasPrefix(cls, "F:ProgramConfig.")
		}
		r.Immutable = imm
		r.Forget = p.forgetAllBut(rejectKeep)
		r.Keep = func(cls string) bool { return strings.HasSuffix(cls, "RejectWork.specialSolids") }
		r.KeepFact = r.Keep
		r.DropPhi = func(ph *ssa.Phi) bool {
			switch types.Unalias(ph.Type()).Underlying().(type) {
			case *types.Interface:
				return false
			}
			return dropPhi(ph)
		}
		memo := map[*Term]bool{}
		solids := map[*Term]bool{} // what lists of lines made solid were seen
		r.FactFilter = func(t *Term) bool {
			k, ok := memo[t]
			if !ok {
				k = mentionsField(t, "specialSolids", "nagger", "goToHell", "copied")
				for s := range solids {
					k = k || occurs(t, s)
				}
				memo[t] = k
			}
			return k
		}
		chans := map[string]*Term{}
		viol := func(e *Engine, key, in, msg string, st *State) {
			if debugEngine {
				debugState(key, in, st)
			}
			e.Violate(key+" ["+root.Name()+"]", in, msg+" in "+FullName(root)+": "+st.Path())
		}
		r.Recv = func(e *Engine, fr *Frame, st *State, i ssa.Instruction, ch *Term) *Term {
			u, ok := i.(*ssa.UnOp)
			if !ok {
				return nil
			}
			pos := p.InstrPos(i)
			switch chanElem(u.X.Type()) {
			case "LevelSaysToNagging":
				e.Ev("receipt of the answer about an existing reject", i)
				if st.mon["nagChan"] == nil || st.mon["nagChan"] != ch {
					viol(e, "L02|answer awaited without a request", pos, "an answer about an existing reject is waited for though no request with this channel is pending", st)
				}
				delete(st.mon, "nagChan")
				st.Note("answer received")
			case "Blockmap":
				if st.mon["bmChan"] == nil || st.mon["bmChan"] != ch {
					viol(e, "L03|blockmap awaited without request", pos, "the shared blockmap is waited for on a channel that was not part of a request", st)
				}
				st.SetM("fetched", "1")
				st.Note("shared blockmap fetched")
				return App("nonnil", e.sym(fr, st, i, ""))
			}
			return nil
		}
		solidsNow := func(e *Engine, fr *Frame, st *State) *Term {
			at := st.mon["solidsAt"]
			if at == nil {
				return nil
			}
			return e.Load(fr, st, at, types.NewSlice(types.Typ[types.Uint16]))
		}
		r.Branch = func(e *Engine, fr *Frame, st *State) {
			if x := solidsNow(e, fr, st); x != nil && st.M("solids") == "" {
				switch e.Truth(st, Eq(App("len", x), ConstI(0))) {
				case 1:
					st.SetM("solids", "empty")
				case 0:
					st.SetM("solids", "some")
				}
			}
		}
		r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
			if callee == nil {
				// what was found about the list of lines made solid stays
				// known while it is not stored to
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" && st.M("solids") != "" && args[0] == solidsNow(e, fr, st) {
					if st.M("solids") == "empty" {
						return []Out{{Kind: ORet, St: st, Res: ConstI(0), Site: ci}}, true
					}
					st.facts[Eq(App("len", args[0]), ConstI(0))] = false
				}
				return nil, false
			}
			if st.M("done") != "" && bmReach[callee] && !isLogFn(callee) && !e.inl[callee] {
				viol(e, "L03|shared blockmap used after release: "+callee.Name(), p.InstrPos(ci), callee.Name()+", which reads blockmaps, is called after the shared blockmap was released", st)
			}
			if m := mods[callee]; m != nil && !e.inl[callee] && !isLogFn(callee) {
				for _, cls := range sortedKeys(m.ext) {
					if levelData(cls) {
						viol(e, "N02|map data modified by the reject builder: "+callee.Name()+" "+cls, p.InstrPos(ci), callee.Name()+" may modify "+cls+" of data that existed before the call, which other builders read at the same time", st)
					}
				}
			}
			return nil, false
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
			pos := p.InstrPos(i)
			switch v := i.(type) {
			case *ssa.Store:
				if cl, _ := addrClass(v.Addr); strings.HasSuffix(cl, "RejectWork.specialSolids") {
					if x := e.Eval(fr, st, v.Val); !solids[x] {
						solids[x] = true
						memo = map[*Term]bool{}
					}
					st.mon["solidsAt"] = e.Eval(fr, st, v.Addr)
					st.SetM("solids", "")
				}
			case *ssa.Send:
				el := chanElem(v.Chan.Type())
				if !interesting[el] {
					return
				}
				ch := e.Eval(fr, st, v.Chan)
				x := e.Eval(fr, st, v.X)
				if st.mon["nagChan"] != nil {
					viol(e, "L02|message while a request is unanswered", pos, "a message is sent before the answer to the request for an existing reject was taken", st)
				}
				if st.M("replied") != "" {
					viol(e, "L02|message after the final result", pos, "a message is sent after the final result", st)
				}
				switch el {
				case "RejectResponse":
					if ch != chans["rejectChan"] {
						viol(e, "L02|result sent to another channel", pos, "the result is sent to "+ch.String()+" instead of the channel given to the builder", st)
						return
					}
					nag := orT(e.sfield(x, respT, "nagger"))
					switch {
					case nag == Nil() || nag.kind == KZero:
						e.Ev("final result of the reject builder", i)
						if st.M("replied") != "" {
							viol(e, "L02|result sent twice", pos, "a second final result is sent", st)
						}
						st.SetM("replied", "1")
						st.Note("result sent")
						if st.M("need") == "" {
							viol(e, "L03|controller not told whether blockmap is needed", pos, "the result is sent though the controller of the shared blockmap was not told whether it is needed", st)
						}
						if st.M("need") == "NEED" && st.M("done") == "" {
							viol(e, "L03|shared blockmap not released", pos, "the result is sent though the shared blockmap was asked for and not released", st)
						}
					case nag.kind == KAlloc:
						e.Ev("request for an existing reject", i)
						t, _ := e.loadField(fr, st, nag, nagT, "replyTo")
						t = orT(t)
						if t.root().kind != KAlloc && !(t.kind == KApp && t.op == "nonnil") {
							viol(e, "L02|request without a channel for the answer", pos, "a request for an existing reject is sent whose answer channel is "+t.String(), st)
						}
						st.mon["nagChan"] = t
						st.Note("existing reject asked for")
					default:
						viol(e, "L02|result of unknown kind", pos, "it cannot be told whether the message sent is the final result: nagger is "+nag.String(), st)
					}
				case "BconRequest":
					e.Ev("message to the shared blockmap's controller", i)
					snd, ok1 := orT(e.sfield(x, breqT, "Sender")).Int()
					msg, ok2 := orT(e.sfield(x, breqT, "Message")).Int()
					if !ok1 || !ok2 || ch != chans["bcontrol"] {
						viol(e, "L03|message of unknown kind", pos, "a message of unknown kind or to another controller is sent", st)
						return
					}
					if snd != K("SOLIDBLOCKS_REJECT") {
						viol(e, "L03|message on behalf of another user", pos, "the reject builder sends a message on behalf of another user of the shared blockmap", st)
					}
					bconStep(e, st, p, pos, msg, func(key, msg string) { viol(e, key, pos, msg, st) })
				case "BgenRequest":
					e.Ev("fetch of the shared blockmap", i)
					act, ok := orT(e.sfield(x, bgenT, "Action")).Int()
					if !ok || act != K("BGEN_RETRIEVE_BLOCKMAP") || ch != chans["bgenerator"] {
						viol(e, "L03|request of another kind", pos, "the reject builder sends the shared blockmap's generator something other than a request for it", st)
						return
					}
					if st.M("need") != "NEED" {
						viol(e, "L03|fetched without asking for it", pos, "the shared blockmap is fetched without having been asked for", st)
					}
					if st.M("done") != "" {
						viol(e, "L03|fetched after release", pos, "the shared blockmap is fetched after it was released", st)
					}
					t := orT(e.sfield(x, bgenT, "ReplyTo"))
					if t.root().kind != KAlloc && !(t.kind == KApp && t.op == "nonnil") {
						viol(e, "L03|fetched into a channel not made for it", pos, "the shared blockmap is fetched into "+t.String(), st)
					}
					st.mon["bmChan"] = t
				}
			case *ssa.Return:
				if fr.parent != nil {
					return
				}
				e.Ev("return of the reject builder", i)
				if st.M("replied") == "" {
					viol(e, "L02|no result sent", pos, "the builder returns without having sent a result", st)
				}
			}
		}
		e := NewEngine(p, r)
		e.Run(root, func(fr *Frame, st *State) []*Term {
			var a []*Term
			for i, pr := range root.Params {
				t := Sym(fr.ctx, "p:"+pr.Name())
				if i == pi && !isPtr(pr.Type()) {
					t = structParam(fr, st, pr.Name(), inT)
					for _, n := range []string{"rejectChan", "bcontrol", "bgenerator"} {
						chans[n] = e.sfield(t, inT, n)
					}
				} else if i == pi {
					for _, n := range []string{"rejectChan", "bcontrol", "bgenerator"} {
						x, _ := e.loadField(fr, st, t, inT, n)
						chans[n] = x
					}
				}
				a = append(a, t)
			}
			return a
		})
		c.Take(e)
	}
	c.Min(rn, rn+": final result of the reject builder", 1)
	c.Min(rn, rn+": request for an existing reject", 1)
	c.Min(rn, rn+": message to the shared blockmap's controller", 3)
	c.Min(rn, rn+": fetch of the shared blockmap", 1)
}

func isPtr(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok
}

// levelData: classes of the data of a level that builders share.
func levelData(cls string) bool {
	switch cls {
	case "I:Vertex", "I:Linedef", "I:HexenLinedef", "I:Sidedef", "I:Sector", "I:Thing", "I:HexenThing":
		return true
	}
	switch classOwner(cls) {
	case "Vertex", "Linedef", "HexenLinedef", "Sidedef", "Sector", "Thing", "HexenThing":
		return true
	}
	return false
}

// mentionsField: t depends on one of the fields, as loaded or as left by calls
// and joins.
func mentionsField(t *Term, names ...string) bool {
	hit := false
	is := func(cls string) {
		l := fieldLeaf(cls)
		for _, n := range names {
			if l == n {
				hit = true
			}
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || hit {
			return
		}
		switch {
		case t.kind == KSym:
			if i := strings.Index(t.op, "@"); i > 0 {
				is(t.op[i+1:])
			}
			return
		case t.kind == KApp && t.op == "ld":
			if t.args[0].kind == KField {
				is(t.args[0].op)
			}
			return
		case t.kind == KApp && t.op == "kill":
			if t.args[1].kind == KField {
				is(t.args[1].op)
			}
			return
		case t.kind == KApp && strings.HasPrefix(t.op, "at:"):
			is(t.op[3:])
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return hit
}

// ---- blockmap ----------------------------------------------------------------

func ruleBlockmapBuilder(c *Ctx) {
	p := c.P
	const rn = "blockmap-builder"
	c.Rule("blockmap-builder: on every path on which the blockmap builder returns, exactly one blockmap was sent to the channel it was given; it never modifies data of the level")
	mods := p.ModSets()
	var roots []*ssa.Function
	for _, f := range goTargets(p, "BlockmapInput") {
		for _, pr := range f.Params {
			if isBytesChan(pr.Type()) {
				roots = append(roots, f)
			}
		}
	}
	if len(roots) == 0 {
		c.Undecided(rn, "no goroutine takes a BlockmapInput and a channel for the blockmap's bytes")
		return
	}
	for _, root := range roots {
		r := &Rule{Name: rn, Cap: 60, CoarseKill: true}
		isSend := func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Send)
			return ok && isBytesChan(s.Chan.Type())
		}
		r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool { return isSend(in) }
		eventful := p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool { return isSend(in) })
		r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) || !eventful[fn] }
		r.Forget = p.forgetAllBut(func(o, f string) bool { return false })
		r.DropPhi = func(ph *ssa.Phi) bool { return !isBytesChan(ph.Type()) }
		r.FactFilter = func(t *Term) bool { return false }
		viol := func(e *Engine, key, in, msg string, st *State) {
			e.Violate(key+" ["+root.Name()+"]", in, msg+" in "+FullName(root)+": "+st.Path())
		}
		var out *Term
		r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
			if callee == nil {
				return nil, false
			}
			if m := mods[callee]; m != nil && !isLogFn(callee) && !e.inl[callee] {
				for _, cls := range sortedKeys(m.ext) {
					if levelData(cls) {
						viol(e, "N02|map data modified by the blockmap builder: "+callee.Name()+" "+cls, p.InstrPos(ci), callee.Name()+" may modify "+cls+" of data that existed before the call, which other builders read at the same time", st)
					}
				}
			}
			return nil, false
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
			pos := p.InstrPos(i)
			switch v := i.(type) {
			case *ssa.Send:
				if !isSend(i) {
					return
				}
				e.Ev("result of the blockmap builder", i)
				if ch := e.Eval(fr, st, v.Chan); ch != out {
					viol(e, "L02|result sent to another channel", pos, "the blockmap is sent to "+ch.String()+" instead of the channel given to the builder", st)
					return
				}
				if st.M("replied") != "" {
					viol(e, "L02|result sent twice", pos, "a second blockmap is sent", st)
				}
				st.SetM("replied", "1")
				st.Note("result sent")
			case *ssa.Return:
				if fr.parent != nil {
					return
				}
				e.Ev("return of the blockmap builder", i)
				if st.M("replied") == "" {
					viol(e, "L02|no result sent", pos, "the builder returns without having sent a blockmap", st)
				}
			}
		}
		e := NewEngine(p, r)
		e.Run(root, func(fr *Frame, st *State) []*Term {
			var a []*Term
			for _, pr := range root.Params {
				t := Sym(fr.ctx, "p:"+pr.Name())
				if isBytesChan(pr.Type()) {
					out = t
				}
				a = append(a, t)
			}
			return a
		})
		c.Take(e)
	}
	c.Min(rn, rn+": result of the blockmap builder", 1)
	c.Min(rn, rn+": return of the blockmap builder", 1)
}

func isBytesChan(t types.Type) bool {
	ch, ok := types.Unalias(t).Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := types.Unalias(ch.Elem()).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- workers -----------------------------------------------------------------

// closers: element types of channels on whose closing someone depends: the
// receiver is told whether the channel was closed.
func closeAwaited(p *Prog) map[string]string {
	r := map[string]string{}
	for _, fn := range p.Funcs {
		sel := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && FullName(f) == "reflect.Select" {
						if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
							for _, u := range *v.Referrers() {
								if ex, ok := u.(*ssa.Extract); ok && ex.Index == 2 && droppedWhenClosed(ex) {
									sel = true
								}
							}
						}
					}
				}
			}
		}
		if !sel {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok {
					if n := namedName(deref(ta.AssertedType)); n != "" {
						r[n] = FullName(fn)
					}
				}
			}
		}
	}
	return r
}

// droppedWhenClosed: a case is removed from those selected among where ok is
// known to be false.
func droppedWhenClosed(ok *ssa.Extract) bool {
	for _, b := range ok.Parent().Blocks {
		for _, g := range guards(b) {
			if g.cond != ssa.Value(ok) || g.val {
				continue
			}
			for _, in := range b.Instrs {
				if v, is := in.(ssa.Value); is {
					if s, is := v.Type().Underlying().(*types.Slice); is && namedName(s.Elem()) == "reflect.SelectCase" || is && strings.HasSuffix(types.TypeString(s.Elem(), nil), "reflect.SelectCase") {
						return true
					}
					if t, is := v.Type().(*types.Tuple); is && strings.Contains(t.String(), "reflect.SelectCase") {
						return true
					}
				}
			}
		}
	}
	return false
}

func ruleWorkers(c *Ctx) {
	p := c.P
	const rn = "worker"
	c.Rule("worker: a goroutine that works for one that waits until its workers' channels are closed closes each such channel exactly once on every path on which it returns and sends nothing afterwards; a worker that is handed tasks sends exactly one result for each before taking the next, with the task's number")
	aw := closeAwaited(p)
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, f := range p.Callees(g) {
					if !seen[f] && f.Blocks != nil && p.InRepo(f) {
						seen[f] = true
						workerRule(c, rn, f, aw)
					}
				}
			}
		}
	}
	c.Min(rn, rn+": closing of a result channel", 5)
	c.Min(rn, rn+": result of a task", 4)
}

func workerRule(c *Ctx, rn string, root *ssa.Function, aw map[string]string) {
	p := c.P
	// result channels it can reach: parameters and fields of structs given
	els := map[string]bool{}
	addChan := func(t types.Type) {
		if ch, ok := types.Unalias(t).Underlying().(*types.Chan); ok && ch.Dir() != types.RecvOnly {
			if n := chanElem(t); aw[n] != "" {
				els[n] = true
			}
		}
	}
	taskEl := ""
	for _, pr := range root.Params {
		addChan(pr.Type())
		if ch, ok := types.Unalias(pr.Type()).Underlying().(*types.Chan); ok && ch.Dir() != types.SendOnly {
			if s, ok := ch.Elem().Underlying().(*types.Struct); ok && hasField(s, "id") {
				taskEl = chanElem(pr.Type())
			}
		}
		if s, ok := deref(types.Unalias(pr.Type())).Underlying().(*types.Struct); ok && p.Named(namedName(deref(pr.Type()))) != nil {
			for i := 0; i < s.NumFields(); i++ {
				addChan(s.Field(i).Type())
			}
		}
	}
	if len(els) == 0 {
		return
	}
	c.Count(rn+": workers analysed", 1)
	r := &Rule{Name: rn, Cap: 60, CoarseKill: true}
	elOf := func(in ssa.Instruction) (string, ssa.Value, string) {
		switch v := in.(type) {
		case *ssa.Send:
			if e := chanElem(v.Chan.Type()); els[e] {
				return "send", v.Chan, e
			}
		case ssa.CallInstruction:
			if b, ok := v.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				if e := chanElem(v.Common().Args[0].Type()); els[e] {
					return "close", v.Common().Args[0], e
				}
			}
		case *ssa.Select:
			for _, s := range v.States {
				if s.Dir == types.SendOnly {
					if e := chanElem(s.Chan.Type()); els[e] {
						return "send", s.Chan, e
					}
				}
			}
		}
		return "", nil, ""
	}
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool { k, _, _ := elOf(in); return k != "" }
	eventful := p.Reach(false, r.Eventful)
	r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) || !eventful[fn] }
	owners := map[string]bool{}
	for _, pr := range root.Params {
		owners[namedName(deref(pr.Type()))] = true
	}
	r.Forget = p.forgetAllBut(func(o, f string) bool { return owners[o] || els[o] || o == taskEl })
	r.Immutable = func(cls string) bool {
		// channels and flags a worker is configured with
		return owners[classOwner(cls)] && !p.ModSets()[root].ext[cls]
	}
	r.DropPhi = dropPhi
	r.FactFilter = func(t *Term) bool {
		hit := false
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.kind == KField && owners[classOwner(t.op)] {
				hit = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return hit
	}
	viol := func(e *Engine, key, in, msg string, st *State) {
		e.Violate(key+" ["+root.Name()+"]", in, msg+" in "+FullName(root)+": "+st.Path())
	}
	r.Recv = func(e *Engine, fr *Frame, st *State, i ssa.Instruction, ch *Term) *Term {
		u, ok := i.(*ssa.UnOp)
		if !ok || taskEl == "" || chanElem(u.X.Type()) != taskEl {
			return nil
		}
		if st.M("task") == "open" {
			viol(e, "L02|task not answered", p.InstrPos(i), "the next task is taken before a result for the previous one was sent", st)
		}
		st.SetM("task", "open")
		delete(st.mon, "cur")
		return nil
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if callee != nil {
			return nil, false
		}
		if k, _, el := elOf(ci); k == "close" {
			e.Ev("closing of a result channel", ci)
			if st.M("closed:"+el) != "" {
				viol(e, "L02|closed twice: "+el, p.InstrPos(ci), "the result channel is closed twice", st)
			}
			st.SetM("closed:"+el, "1")
			st.Note("channel of " + el + " closed")
		}
		return nil, false
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		pos := p.InstrPos(i)
		if taskEl != "" {
			if u, ok := i.(*ssa.Extract); ok && u.Index == 0 {
				if un, ok := u.Tuple.(*ssa.UnOp); ok && un.Op == token.ARROW && chanElem(un.X.Type()) == taskEl {
					if t := e.Eval(fr, st, un); t.kind == KTuple {
						st.mon["cur"] = t.args[0]
					}
				}
			}
			if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW && !u.CommaOk && chanElem(u.X.Type()) == taskEl {
				st.mon["cur"] = e.sym(fr, st, i, "")
			}
		}
		k, _, el := elOf(i)
		switch k {
		case "send":
			if st.M("closed:"+el) != "" {
				viol(e, "L02|sent after closing: "+el, pos, "a result is sent to a channel that was closed", st)
			}
			if taskEl != "" {
				e.Ev("result of a task", i)
				if st.M("task") == "done" {
					viol(e, "L02|task answered twice", pos, "a second result is sent for one task", st)
				}
				st.SetM("task", "done")
				if sd, ok := i.(*ssa.Send); ok {
					x := e.Eval(fr, st, sd.X)
					rt, tt := p.Named(el), p.Named(taskEl)
					cur := st.mon["cur"]
					if rt != nil && tt != nil && cur != nil {
						for _, n := range []string{"id", "workData"} {
							a, b := e.sfield(x, rt, n), e.sfield(cur, tt, n)
							if a == nil || b == nil {
								continue
							}
							if stripAt(a) != stripAt(b) {
								viol(e, "L02|result with another task's "+n, pos, "the result sent for a task has "+n+" "+a.String()+", not the task's", st)
							}
						}
					}
				}
			}
		}
		if _, ok := i.(*ssa.Return); ok && fr.parent == nil {
			e.Ev("return of a worker", i)
			for _, el := range sortedKeys(els) {
				if st.M("closed:"+el) != "" {
					continue
				}
				if e.chanUnused(fr, st, root, el) {
					continue
				}
				viol(e, "L02|not closed: "+el, pos, fmt.Sprintf("the worker returns without having closed its channel of %s, for which %s waits", el, aw[el]), st)
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, nil)
	c.Take(e)
}

// chanUnused: the channel of el is one the worker was not given on this path
// (a flag among its parameters that the maker sets together with the channel
// is off).
func (e *Engine) chanUnused(fr *Frame, st *State, root *ssa.Function, el string) bool {
	// a boolean field b such that every store of the channel field happens
	// where b is known to hold
	for _, pr := range root.Params {
		t := deref(types.Unalias(pr.Type()))
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ci := -1
		for i := 0; i < s.NumFields(); i++ {
			if chanElem(s.Field(i).Type()) == el {
				ci = i
			}
		}
		if ci < 0 {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			b, ok := s.Field(i).Type().Underlying().(*types.Basic)
			if !ok || b.Kind() != types.Bool {
				continue
			}
			cls, ft := fieldClass(t, i)
			if e.Truth(st, e.Load(fr, st, FieldOf(Sym(fr.ctx, "p:"+pr.Name()), cls, ft), ft)) != 0 {
				continue
			}
			// off: is the channel given only when it is on?
			ccls, _ := fieldClass(t, ci)
			if e.P.storedUnder(ccls, cls) {
				return true
			}
		}
	}
	return false
}

// storedUnder: every store to class ccls is guarded by class bcls being true.
func (p *Prog) storedUnder(ccls, bcls string) bool {
	n := 0
	ok := true
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		s, is := in.(*ssa.Store)
		if !is {
			return
		}
		if c, _ := addrClass(s.Addr); c != ccls {
			return
		}
		if k, isC := s.Val.(*ssa.Const); isC && k.Value == nil {
			return
		}
		n++
		g := false
		for _, x := range guards(in.Block()) {
			if x.val {
				if u, isU := x.cond.(*ssa.UnOp); isU && u.Op == token.MUL {
					if c, _ := addrClass(u.X); c == bcls {
						g = true
					}
				}
			}
		}
		if !g {
			ok = false
		}
	})
	return ok && n > 0
}

func hasField(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	return false
}

// stripAt: the value a field was filled with.
func stripAt(t *Term) *Term {
	for t != nil && t.kind == KApp && (strings.HasPrefix(t.op, "at:") || t.op == "nonnil") {
		t = t.args[0]
	}
	return t
}

func debugState(key, in string, st *State) {
	fmt.Fprintln(os.Stderr, "DEBUG", key, in, st.Path())
	for k, v := range st.mem {
		fmt.Fprintln(os.Stderr, "   mem", k, "=", v)
	}
	for k, v := range st.facts {
		fmt.Fprintln(os.Stderr, "   fact", k, "=", v)
	}
	for k, v := range st.mon {
		fmt.Fprintln(os.Stderr, "   mon", k, "=", v)
	}
}

func occurs(t, x *Term) bool {
	if t == x {
		return true
	}
	if t == nil {
		return false
	}
	for _, a := range t.args {
		if occurs(a, x) {
			return true
		}
	}
	return false
}
