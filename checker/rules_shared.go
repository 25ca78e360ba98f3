package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The two goroutines behind the shared blockmap of solid lines: the one that
// keeps account of its users and the one that makes it and hands it out.

func ruleSharedBlockmap(c *Ctx) {
	p := c.P
	const rn = "shared-blockmap"
	c.Rule("shared-blockmap: the generator of the shared blockmap answers every retrieval, on the channel named in it and with a blockmap that was built, before it takes the next request; its controller tells it to end exactly once, as the last thing, and only when its channel was closed or every user has said that it does not need the blockmap or is done with it; the users the controller counts are exactly those that builders speak for, and none of them counts as finished from the start")
	breqT, bgenT := p.Named("BconRequest"), p.Named("BgenRequest")
	if breqT == nil || bgenT == nil {
		c.Undecided(rn, "request types of the shared blockmap are gone")
		return
	}
	K := func(name string) *Term {
		v, ok := p.ConstInt(name)
		if !ok {
			c.Undecided(rn, "constant "+name+" is gone")
		}
		return ConstI(v)
	}
	kill, gen, ret := K("BGEN_DIE"), K("BGEN_GENERATE_BLOCKMAP"), K("BGEN_RETRIEVE_BLOCKMAP")
	_ = gen
	need, noneed, done := K("BCON_NEED_SOLID_BLOCKMAP"), K("BCON_NONEED_SOLID_BLOCKMAP"), K("BCON_DONE_WITH_SOLID_BLOCKMAP")
	// goroutines by what they receive
	var gens, ctls []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, f := range p.Callees(g) {
					if seen[f] || f.Blocks == nil {
						continue
					}
					seen[f] = true
					for _, fb := range f.Blocks {
						for _, i := range fb.Instrs {
							if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW {
								switch chanElem(u.X.Type()) {
								case "BgenRequest":
									gens = append(gens, f)
								case "BconRequest":
									ctls = append(ctls, f)
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range gens {
		sharedGenerator(c, rn, f, bgenT, ret)
	}
	for _, f := range ctls {
		sharedControl(c, rn, f, bgenT, breqT, kill, []*Term{need, noneed, done})
	}
	sharedUsers(c, rn, breqT, noneed, done)
	c.Min(rn, rn+": retrieval answered", 1)
	c.Min(rn, rn+": generator told to end", 1)
	c.Min(rn, rn+": question whether all users are finished", 1)
	c.Min(rn, rn+": user's message noted", 1)
}

func sharedGenerator(c *Ctx, rn string, root *ssa.Function, bgenT types.Type, ret *Term) {
	p := c.P
	r := &Rule{Name: rn, Cap: 60}
	r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) }
	viol := func(e *Engine, key, in, msg string, st *State) {
		e.Violate("L03|"+key+" ["+root.Name()+"]", in, msg+" in "+FullName(root)+": "+st.Path())
	}
	isReq := func(v ssa.Value) bool { return chanElem(v.Type()) == "BgenRequest" }
	wanted := func(e *Engine, st *State) bool {
		a := st.mon["action"]
		if a == nil || st.M("answered") != "" {
			return false
		}
		if ok := st.mon["ok"]; ok != nil && e.Truth(st, ok) == 0 {
			return false
		}
		return e.Truth(st, Eq(a, ret)) != 0
	}
	note := func(e *Engine, st *State, v *Term, ok *Term) {
		st.mon["msg"] = v
		st.mon["action"] = e.sfield(v, bgenT, "Action")
		if ok != nil {
			st.mon["ok"] = ok
		} else {
			delete(st.mon, "ok")
		}
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) {
		// what is known about the request, before it is forgotten
		if a := st.mon["action"]; a != nil {
			if t := e.Truth(st, Eq(a, ret)); t == 0 {
				st.SetM("other", "1")
			}
		}
	}
	r.Recv = func(e *Engine, fr *Frame, st *State, i ssa.Instruction, ch *Term) *Term {
		u, ok := i.(*ssa.UnOp)
		if !ok || !isReq(u.X) {
			return nil
		}
		e.Ev("request taken", i)
		if st.M("other") == "" && wanted(e, st) {
			viol(e, "retrieval not answered", p.InstrPos(i), "the next request is taken though the previous one may have been an unanswered retrieval", st)
		}
		st.SetM("answered", "")
		st.SetM("other", "")
		delete(st.mon, "action")
		delete(st.mon, "ok")
		st.SetM("taken", "1")
		return nil
	}
	r.Value = func(e *Engine, fr *Frame, st *State, v ssa.Value) *Term {
		if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
			if u, ok := ex.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && isReq(u.X) {
				if t := e.Eval(fr, st, u); t.kind == KTuple {
					note(e, st, t.args[0], t.args[1])
				}
			}
		}
		return nil
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		switch v := i.(type) {
		case *ssa.Send:
			if chanElem(v.Chan.Type()) != "Blockmap" {
				return
			}
			pos := p.InstrPos(i)
			e.Ev("retrieval answered", i)
			msg := st.mon["msg"]
			ch := e.Eval(fr, st, v.Chan)
			if msg == nil || stripAt(ch) != e.sfield(msg, bgenT, "ReplyTo") {
				viol(e, "answer to another channel", pos, "a blockmap is sent to "+ch.String()+", not to the channel named in the request", st)
			}
			if a := st.mon["action"]; a == nil || e.Truth(st, Eq(a, ret)) != 1 {
				viol(e, "answer to another request", pos, "a blockmap is sent for a request that may not be a retrieval", st)
			}
			if st.M("answered") != "" {
				viol(e, "answered twice", pos, "a retrieval is answered twice", st)
			}
			st.SetM("answered", "1")
			st.Note("retrieval answered")
			x := e.Eval(fr, st, v.X)
			if !x.IsNonNil() && e.Truth(st, Eq(x, Nil())) != 0 {
				viol(e, "blockmap not built", pos, "the blockmap handed out may not have been built: "+x.String(), st)
			}
		case *ssa.Return:
			if fr.parent != nil {
				return
			}
			e.Ev("return of the generator", i)
			if st.M("other") == "" && wanted(e, st) {
				viol(e, "retrieval not answered", p.InstrPos(i), "the generator ends though the last request may have been an unanswered retrieval", st)
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, nil)
	c.Take(e)
}

func isUsers(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok && namedName(deref(s.Elem())) == "BconRequest"
}

func sharedControl(c *Ctx, rn string, root *ssa.Function, bgenT, breqT types.Type, kill *Term, known []*Term) {
	p := c.P
	r := &Rule{Name: rn, Cap: 60, JoinBools: true}
	asks := func(fn *ssa.Function) bool { // are all users finished?
		rs := fn.Signature.Results()
		if rs.Len() != 1 || len(fn.Params) == 0 {
			return false
		}
		b, ok := rs.At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Bool {
			return false
		}
		for _, pr := range fn.Params {
			if isUsers(pr.Type()) {
				return true
			}
		}
		return false
	}
	notes := func(fn *ssa.Function) bool { // a message is noted
		u, m := false, false
		for _, pr := range fn.Params {
			u = u || isUsers(pr.Type())
			m = m || namedName(deref(pr.Type())) == "BconRequest"
		}
		return u && m && fn.Signature.Results().Len() == 0
	}
	r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) || asks(fn) || notes(fn) }
	viol := func(e *Engine, key, in, msg string, st *State) {
		e.Violate("L03|"+key+" ["+root.Name()+"]", in, msg+" in "+FullName(root)+": "+st.Path())
	}
	r.Recv = func(e *Engine, fr *Frame, st *State, i ssa.Instruction, ch *Term) *Term {
		u, ok := i.(*ssa.UnOp)
		if !ok || chanElem(u.X.Type()) != "BconRequest" {
			return nil
		}
		if st.M("died") != "" {
			viol(e, "message taken after the end", p.InstrPos(i), "a message is taken after the generator was told to end", st)
		}
		for _, k := range []string{"fin", "msg", "ok"} {
			delete(st.mon, k)
		}
		st.SetM("finished", "")
		st.SetM("closed", "")
		st.SetM("noted", "")
		return nil
	}
	r.Value = func(e *Engine, fr *Frame, st *State, v ssa.Value) *Term {
		if ex, ok := v.(*ssa.Extract); ok {
			if u, ok := ex.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && chanElem(u.X.Type()) == "BconRequest" {
				if t := e.Eval(fr, st, u); t.kind == KTuple {
					if ex.Index == 0 {
						st.mon["msg"] = t.args[0]
					} else {
						st.mon["ok"] = t.args[1]
					}
				}
			}
		}
		return nil
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) {
		if t := st.mon["fin"]; t != nil && e.Truth(st, t) == 1 {
			st.SetM("finished", "1")
		}
		if t := st.mon["ok"]; t != nil && e.Truth(st, t) == 0 {
			st.SetM("closed", "1")
		}
		if m := st.mon["msg"]; m != nil && st.M("noted") == "" {
			other := true
			for _, k := range known {
				if e.Truth(st, Eq(e.sfield(m, breqT, "Message"), k)) != 0 {
					other = false
				}
			}
			if other {
				st.SetM("noted", "illegal")
			}
		}
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if callee == nil || !p.InRepo(callee) {
			return nil, false
		}
		switch {
		case asks(callee):
			e.Ev("question whether all users are finished", ci)
			if st.M("noted") == "" {
				viol(e, "message not noted", p.InstrPos(ci), "it is asked whether all users are finished before the message just received was noted", st)
			}
			outs := e.opaque(fr, st, ci, ci.Common(), callee, args)
			for _, o := range outs {
				if o.Kind == ORet {
					o.St.mon["fin"] = o.Res
				}
			}
			return outs, true
		case notes(callee):
			e.Ev("user's message noted", ci)
			outs := e.opaque(fr, st, ci, ci.Common(), callee, args)
			msg := st.mon["msg"]
			ok := false
			for _, a := range args {
				if msg != nil && (stripAt(a) == msg) {
					ok = true
				}
			}
			if !ok {
				viol(e, "another message noted", p.InstrPos(ci), "what is noted for a user is not the message just received", st)
			}
			for _, o := range outs {
				if o.Kind == ORet {
					o.St.SetM("noted", "1")
				}
			}
			return outs, true
		}
		return nil, false
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		pos := p.InstrPos(i)
		switch v := i.(type) {
		case *ssa.Go:
			for _, f := range p.Callees(v) {
				for _, pr := range f.Params {
					if chanElem(pr.Type()) == "BgenRequest" {
						e.Ev("start of the generator", i)
						if st.M("gen") != "" {
							viol(e, "generator started twice", pos, "the generator of the shared blockmap is started twice", st)
						}
						st.SetM("gen", "1")
						st.Note("generator started")
					}
				}
			}
		case *ssa.Send:
			if chanElem(v.Chan.Type()) != "BgenRequest" {
				return
			}
			if st.M("gen") == "" {
				viol(e, "request to no generator", pos, "a request is sent though the generator was not started", st)
			}
			if st.M("died") != "" {
				viol(e, "request after the end", pos, "a request is sent after the generator was told to end", st)
			}
			x := e.Eval(fr, st, v.X)
			act := e.sfield(x, bgenT, "Action")
			switch e.Truth(st, Eq(orT(act), kill)) {
			case 1:
				e.Ev("generator told to end", i)
				if st.M("finished") == "" && st.M("closed") == "" {
					viol(e, "ended while users may need it", pos, "the generator is told to end on a path on which it was not found that every user is finished", st)
				}
				st.SetM("died", "1")
				st.Note("generator told to end")
			case 0:
				e.Ev("generator told to generate", i)
			default:
				viol(e, "request of unknown kind", pos, "a request of unknown kind is sent to the generator", st)
			}
		case *ssa.Return:
			if fr.parent == nil {
				e.Ev("return of the controller", i)
				if st.M("gen") != "" && st.M("died") == "" {
					viol(e, "generator not ended", pos, "the controller ends without having told the generator to end", st)
				}
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, nil)
	c.Take(e)
	// what it asks and how it notes
	reach := map[*ssa.Function]bool{}
	for _, b := range root.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, f := range p.Callees(ci) {
					if p.InRepo(f) && f.Blocks != nil {
						reach[f] = true
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	for _, f := range fs {
		if asks(f) {
			allFinished(c, rn, f, known[1], known[2])
		}
		if notes(f) {
			noteMessage(c, rn, f, breqT)
		}
	}
}

// allFinished: true exactly if no user was found whose last message is another.
func allFinished(c *Ctx, rn string, root *ssa.Function, noneed, done *Term) {
	p := c.P
	r := &Rule{Name: rn, Cap: 60, JoinBools: true}
	viol := func(e *Engine, key, in, msg string, st *State) {
		e.Violate("L03|"+key+" ["+root.Name()+"]", in, msg+" in "+FullName(root))
	}
	settle := func(e *Engine, st *State) {
		m := st.mon["pend"]
		if m == nil {
			return
		}
		a, b := e.Truth(st, Eq(m, noneed)), e.Truth(st, Eq(m, done))
		switch {
		case a == 1 || b == 1:
			delete(st.mon, "pend")
		case a == 0 && b == 0:
			st.SetM("bad", "1")
		}
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) { settle(e, st) }
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		pos := p.InstrPos(i)
		switch v := i.(type) {
		case *ssa.IndexAddr:
			if !isUsers(v.X.Type()) {
				return
			}
			settle(e, st)
			if st.mon["pend"] != nil && st.M("bad") == "" {
				st.SetM("unknown", "1")
			}
			whole := v.X
			if ld, ok := whole.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if al, ok := ld.X.(*ssa.Alloc); ok && onlyStore(al) != nil {
					whole = onlyStore(al).Val
				}
			}
			if _, part := whole.(*ssa.Slice); part || loopStride(v.Index) != 1 || !fromZero(v.Index) {
				viol(e, "users skipped", pos, "not every user is looked at", st)
			}
			cls, ft := fieldClass(p.Named("BconRequest"), fieldIndex(p.Named("BconRequest"), "Message"))
			loc := FieldOf(IndexOf(e.Eval(fr, st, v.X), e.Eval(fr, st, v.Index), deref(v.Type())), cls, ft)
			st.mon["pend"] = e.Load(fr, st, loc, ft)
		case *ssa.Return:
			if fr.parent != nil {
				return
			}
			e.Ev("answer whether all users are finished", i)
			settle(e, st)
			res, ok := e.Eval(fr, st, v.Results[0]).Bool()
			switch {
			case !ok:
				viol(e, "answer unclear", pos, "it cannot be told what is answered to the question whether all users are finished", st)
			case res && (st.M("bad") != "" || st.M("unknown") != "" || st.mon["pend"] != nil):
				viol(e, "finished though a user is not", pos, "all users are taken to be finished though one of them may have neither declined the blockmap nor released it", st)
			case !res && st.M("bad") == "":
				viol(e, "not finished though all are", pos, "users are taken to be unfinished though none was found that is", st)
			case res && !exhausted(i.Block(), root):
				viol(e, "finished before all were looked at", pos, "all users are taken to be finished before all were looked at", st)
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, nil)
	c.Take(e)
}

// fromZero: the first value of a loop's index is 0.
func fromZero(v ssa.Value) bool {
	add := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, ok := b.Y.(*ssa.Const); ok {
			add, v = k.Int64(), b.X
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Int64()+add != 0 {
			return false
		}
	}
	return true
}

// exhausted: block b is reached only by way of the end of a loop over a slice
// of users.
func exhausted(b *ssa.BasicBlock, fn *ssa.Function) bool {
	for _, g := range guards(b) {
		x, op, y, ok := g.cmp()
		if !ok {
			continue
		}
		isLen := func(v ssa.Value) bool {
			ci, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := ci.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && isUsers(ci.Call.Args[0].Type())
		}
		if isLen(y) && (op == token.GEQ || op == token.EQL) || isLen(x) && (op == token.LEQ || op == token.EQL) {
			return true
		}
	}
	return false
}

func fieldIndex(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// noteMessage: a message is noted for the user it is from, only.
func noteMessage(c *Ctx, rn string, root *ssa.Function, breqT types.Type) {
	p := c.P
	r := &Rule{Name: rn, Cap: 60}
	r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) }
	keepSender := func(cls string) bool { return cls == "F:BconRequest.Sender" }
	r.Keep, r.KeepFact = keepSender, keepSender
	var msg *Term
	n := 0
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		v, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		cls, _ := addrClass(v.Addr)
		loc := e.Eval(fr, st, v.Addr)
		if !strings.HasPrefix(cls, "F:BconRequest.") && cls != "I:BconRequest" || loc.root().kind == KAlloc {
			return
		}
		n++
		e.Ev("note made for a user", i)
		pos := p.InstrPos(i)
		elem := loc
		if strings.HasPrefix(cls, "F:") {
			if cls != "F:BconRequest.Message" {
				e.Violate("L03|user's identity changed ["+root.Name()+"]", pos, "the identity of a user is changed in "+FullName(root))
				return
			}
			elem = loc.args[0]
			if stripAt(e.Eval(fr, st, v.Val)) != stripAt(e.sfield(msg, breqT, "Message")) {
				e.Violate("L03|something else noted ["+root.Name()+"]", pos, "what is noted for a user is not the message it sent, in "+FullName(root))
			}
		}
		scls, sft := fieldClass(breqT, fieldIndex(breqT, "Sender"))
		snd := e.Load(fr, st, FieldOf(elem, scls, sft), sft)
		if e.Truth(st, Eq(snd, e.sfield(msg, breqT, "Sender"))) != 1 {
			if debugEngine {
				debugState("another user "+Eq(snd, e.sfield(msg, breqT, "Sender")).String(), pos, st)
			}
			e.Violate("L03|noted for another user ["+root.Name()+"]", pos, "a message is noted for a user that may not be the one that sent it, in "+FullName(root))
		}
	}
	e := NewEngine(p, r)
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for _, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+pr.Name())
			if namedName(deref(pr.Type())) == "BconRequest" {
				t = structParam(fr, st, pr.Name(), breqT)
				msg = t
			}
			a = append(a, t)
		}
		return a
	})
	if n == 0 {
		c.Viol(rn, "L03|messages are not noted ["+root.Name()+"]", p.Pos(root.Pos()), FullName(root)+" does not note the message it is given")
	}
	c.Take(e)
}

// sharedUsers: users counted are those that speak.
func sharedUsers(c *Ctx, rn string, breqT types.Type, noneed, done *Term) {
	p := c.P
	known := map[int64]string{}
	speak := map[int64]string{}
	fin := map[int64]bool{}
	for _, t := range []*Term{noneed, done} {
		if v, ok := t.Int(); ok {
			fin[v] = true
		}
	}
	for _, fn := range p.Funcs {
		users := false
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			users = users || isUsers(rs.At(i).Type())
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				cls, _ := addrClass(s.Addr)
				k, isC := s.Val.(*ssa.Const)
				if !isC || k.Value == nil {
					continue
				}
				v, _ := Const(k.Value).Int()
				switch cls {
				case "F:BconRequest.Sender":
					if users {
						known[v] = p.InstrPos(in)
					} else {
						speak[v] = p.InstrPos(in)
					}
				case "F:BconRequest.Message":
					if users && fin[v] {
						c.Viol(rn, "L03|user finished from the start", p.InstrPos(in), "a user of the shared blockmap counts as finished before it has said anything, in "+FullName(fn))
					}
				}
			}
		}
	}
	for v, pos := range speak {
		if _, ok := known[v]; !ok {
			c.Viol(rn, "L03|user not counted "+ConstI(v).String(), pos, "a message is sent for user "+ConstI(v).String()+" of the shared blockmap, which its controller does not count")
		}
	}
	for v, pos := range known {
		if _, ok := speak[v]; !ok {
			c.Viol(rn, "L03|user never speaks "+ConstI(v).String(), pos, "user "+ConstI(v).String()+" of the shared blockmap is waited for but nobody sends messages for it")
		}
		c.Count(rn+": users counted", 1)
	}
	c.Min(rn, rn+": users counted", 2)
}
