package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The goroutines that build nodes, reject, blockmap and the shared blockmap of
// solid lines: what they send, to whom, how often and in which order.

// goTargets: functions started as goroutines that take a parameter of a type.
func goTargets(p *Prog, typ string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, f := range p.Callees(g) {
					if paramOf(f, typ) >= 0 && !seen[f] && f.Blocks != nil {
						seen[f] = true
						r = append(r, f)
					}
				}
			}
		}
	}
	return r
}

// chanElem is the name of the element type of a channel.
func chanElem(t types.Type) string {
	if c, ok := types.Unalias(t).Underlying().(*types.Chan); ok {
		if n := namedName(deref(c.Elem())); n != "" {
			return n
		}
		return types.TypeString(c.Elem(), func(*types.Package) string { return "" })
	}
	return ""
}

// isLogFn: functions of the log; they are not looked into.
func isLogFn(fn *ssa.Function) bool {
	n := FullName(fn)
	return strings.HasPrefix(n, "(*MiniLogger).") || strings.HasPrefix(n, "(*MyLogger).") || strings.HasPrefix(n, "(*ZExt_MiniLogger).")
}

// strucOf: the struct type that a named field's class belongs to.
func classOwner(cls string) string {
	if !strings.HasPrefix(cls, "F:") {
		return ""
	}
	s := cls[2:]
	if i := strings.LastIndex(s, "."); i > 0 {
		return s[:i]
	}
	return ""
}

// baseOf: object whose field is loaded by t.
func baseOf(t *Term) *Term {
	if t != nil && t.kind == KApp && t.op == "ld" {
		return t.args[0].root()
	}
	return nil
}

// plainResults: fn returns nothing but numbers, flags, channels and values of the types named.
func plainResults(fn *ssa.Function, named ...string) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := types.Unalias(rs.At(i).Type())
		switch t.Underlying().(type) {
		case *types.Basic, *types.Chan:
			continue
		}
		ok := false
		for _, n := range named {
			if namedName(deref(t)) == n {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

type nodesCase struct {
	name     string
	inner    bool
	nodeType string
	solid    string // inner: "given" or "unused"
	single   bool   // inner: one tree; otherwise ableist mode is off
}

// loadsOf: classes of fields a function or what it calls may load.
func (p *Prog) reachLoads(prefix string) map[*ssa.Function]bool {
	return p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool {
		switch v := in.(type) {
		case *ssa.FieldAddr:
			c, _ := addrClass(v)
			return strings.HasPrefix(c, prefix)
		}
		return false
	})
}

func ruleNodeBuilders(c *Ctx) {
	p := c.P
	const rn = "node-builder"
	c.Rule("node-builder: on every path on which a node builder returns, exactly one result is sent to the channel it was given; a result of the other builder is received only after that builder was started, and always when it was; the data has the form of the node format in effect and passed the limit checks or was emptied; the shared solid-line blockmap is told exactly once whether it is needed, fetched only after being asked for, released exactly once after its last use; lines are detached before they are first modified")
	roots := goTargets(p, "NodesInput")
	if len(roots) == 0 {
		c.Undecided(rn, "no goroutine takes a NodesInput")
		return
	}
	// the builder of extended nodes is the one reached through a variable
	zvar := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if _, ok := s.Addr.(*ssa.Global); ok {
						if f, ok := s.Val.(*ssa.Function); ok {
							zvar[f] = true
						}
					}
				}
			}
		}
	}
	for _, root := range roots {
		var cases []nodesCase
		if zvar[root] {
			for _, nt := range []string{"NODETYPE_ZDOOM_EXTENDED", "NODETYPE_ZDOOM_COMPRESSED"} {
				cases = append(cases, nodesCase{"outer", false, nt, "", false})
			}
			for _, nt := range []string{"NODETYPE_VANILLA_OR_ZEXTENDED", "NODETYPE_VANILLA_OR_ZCOMPRESSED"} {
				for _, single := range []bool{true, false} {
					cases = append(cases, nodesCase{"inner", true, nt, "given", single}, nodesCase{"inner", true, nt, "unused", single})
				}
			}
		} else {
			for _, nt := range []string{"NODETYPE_VANILLA", "NODETYPE_DEEP", "NODETYPE_VANILLA_OR_DEEP", "NODETYPE_VANILLA_OR_ZEXTENDED", "NODETYPE_VANILLA_OR_ZCOMPRESSED", "NODETYPE_VANILLA_RELAXED"} {
				cases = append(cases, nodesCase{"outer", false, nt, "", false})
			}
		}
		for _, nc := range cases {
			e := nodesBuilder(c, root, nc)
			if e == nil {
				return
			}
			c.Take(e)
			c.Count(rn+": return paths analysed", e.Paths)
		}
	}
	c.Min(rn, rn+": reply of a node builder", 4)
	c.Min(rn, rn+": start of the extended node builder", 2)
	c.Min(rn, rn+": receipt of the extended node builder's result", 2)
	c.Min(rn, rn+": fetch of the shared blockmap", 1)
	c.Min(rn, rn+": message to the shared blockmap's controller", 3)
}

var nodesBuilderMemo = map[string]*Engine{}

func nodesBuilder(c *Ctx, root *ssa.Function, nc nodesCase) *Engine {
	p := c.P
	mk := FullName(root) + "|" + nc.nodeType + "|" + nc.name + nc.solid + fmt.Sprint(nc.single)
	if e := nodesBuilderMemo[mk]; e != nil {
		return e
	}
	ntv, ok := p.ConstInt(nc.nodeType)
	if !ok {
		c.Undecided("node-builder", "constant "+nc.nodeType+" is gone")
		return nil
	}
	K := func(name string) *Term {
		v, ok := p.ConstInt(name)
		if !ok {
			c.Undecided("node-builder", "constant "+name+" is gone")
		}
		return ConstI(v)
	}
	pi := paramOf(root, "NodesInput")
	inT := p.Named("NodesInput")
	resT := p.Named("NodesResult")
	breqT, bgenT := p.Named("BconRequest"), p.Named("BgenRequest")
	if inT == nil || resT == nil || breqT == nil || bgenT == nil {
		c.Undecided("node-builder", "types of the builders are gone")
		return nil
	}
	bmReach := p.reachLoads("F:Blockmap.")
	mods := p.ModSets()
	what := FullName(root) + " (" + nc.name + ", " + nc.nodeType + ")"
	r := &Rule{Name: "node-builder", Cap: 160, CoarseKill: true}
	interesting := map[string]bool{"NodesResult": true, "BconRequest": true, "BgenRequest": true}
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		switch v := in.(type) {
		case *ssa.Send:
			return interesting[chanElem(v.Chan.Type())]
		case *ssa.Go:
			for _, f := range p.Callees(v) {
				if paramOf(f, "NodesInput") >= 0 {
					return true
				}
			}
		}
		return false
	}
	segCheck := isSegCheck
	rearr := func(fn *ssa.Function) bool {
		// converts a tree into the lump's records
		m := mods[fn]
		return m != nil && paramOf(fn, "NodeInProcess") >= 0 && fn.Signature.Results().Len() == 1 && (m.cls["I:Node"] || m.cls["I:DeepNode"]) &&
			!m.cls["F:NodesTotals.numSSectors"]
	}
	eventful := p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool { return r.Eventful(fn, in) })
	r.NoInline = func(fn *ssa.Function) bool {
		if isLogFn(fn) || segCheck(fn) || rearr(fn) {
			return true
		}
		if eventful[fn] {
			return false
		}
		return !plainResults(fn, "NodesInput", "NodesResult", "BconRequest", "BgenRequest", "NodeInProcess")
	}
	r.Immutable = func(cls string) bool {
		switch cls {
		case "G:config", "F:NodesInput.bcontrol", "F:NodesInput.bgenerator", "F:NodesInput.nodesChan", "F:NodesInput.solidMap", "F:NodesInput.lines", "F:NodesInput.pickNodeUser", "F:NodesInput.multiTreeMode":
			return true
		}
		return strings.HasPrefix(cls, "F:ProgramConfig.")
	}
	keepF := map[*Term]bool{}
	r.FactFilter = func(t *Term) bool {
		k, ok := keepF[t]
		if !ok {
			k = factInteresting(t)
			keepF[t] = k
		}
		return k
	}
	r.Forget = p.forgetAllBut(nodesKeep)
	r.DropPhi = dropPhi
	treeFields := map[string]bool{}
	r.LoadHook = func(e *Engine, fr *Frame, st *State, loc *Term) *Term {
		if loc.kind == KField && namedName(deref(orInt(loc.typ))) == "NodeInProcess" {
			ok, known := treeFields[loc.op]
			if !known {
				ok = p.fieldNonNil(loc.op)
				treeFields[loc.op] = ok
			}
			if ok {
				return App("nonnil", App("ld", loc, e.verOf(st, e.locClass(loc), loc.typ)))
			}
		}
		return nil
	}
	var in *Term
	inField := func(e *Engine, fr *Frame, st *State, base *Term, name string) *Term {
		t, _ := e.loadField(fr, st, base, inT, name)
		return orT(t)
	}
	viol := func(e *Engine, key, in, msg string, st *State) {
		if debugEngine {
			fmt.Fprintln(os.Stderr, "VIOL", key, what)
			for f, v := range st.facts {
				fmt.Fprintln(os.Stderr, "   ", v, f)
			}
			for f, v := range st.mon {
				fmt.Fprintln(os.Stderr, "   mon", f, v)
			}
		}
		e.Violate(key+" ["+root.Name()+"]", in, msg+" in "+what+": "+st.Path())
	}
	r.Keep = func(cls string) bool {
		return strings.HasSuffix(cls, "NodesWork.nodeType") || strings.HasSuffix(cls, "NodesWork.vertices") || strings.HasSuffix(cls, "NodesWork.totals") || strings.HasSuffix(cls, "NodesWork.SsectorMask") || strings.HasSuffix(cls, "NodesTotals.numSSectors") || cls == "F:NodesInput.nodeType"
	}
	r.KeepFact = r.Keep
	r.Recv = func(e *Engine, fr *Frame, st *State, i ssa.Instruction, ch *Term) *Term {
		u, ok := i.(*ssa.UnOp)
		if !ok {
			return nil
		}
		switch chanElem(u.X.Type()) {
		case "NodesResult":
			e.Ev("receipt of the extended node builder's result", i)
			pos := p.InstrPos(i)
			if st.mon["other"] == nil || st.mon["otherChan"] != ch {
				viol(e, "L02|result awaited of a builder not started", pos, "a node building result is waited for on a channel no started builder was given", st)
			}
			if st.M("received") != "" {
				viol(e, "L02|result awaited twice", pos, "the result of the extended node builder is waited for twice", st)
			}
			st.SetM("received", "1")
			st.Note("result of extended builder received")
			t := App("nonnil", e.sym(fr, st, i, ""))
			st.mon["otherRes"] = t
			return t
		case "Blockmap":
			if st.mon["bmChan"] == ch && ch != nil {
				st.SetM("fetched", "1")
				st.Note("shared blockmap fetched")
				t := App("nonnil", e.sym(fr, st, i, ""))
				st.mon["bm"] = t
				return t
			}
			viol(e, "L03|blockmap awaited without request", p.InstrPos(i), "the shared blockmap is waited for on a channel that was not part of a request", st)
		}
		return nil
	}
	isCount := func(cls string) bool {
		return strings.HasSuffix(cls, "NodesTotals.numSSectors") || strings.HasSuffix(cls, "NodesWork.totals") || strings.HasSuffix(cls, "NodesWork.SsectorMask")
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if callee == nil {
			return nil, false
		}
		pos := p.InstrPos(ci)
		if callee.Name() == "isZDoomNodes" && callee.Signature.Params().Len() == 0 {
			return nil, false
		}
		if m := mods[callee]; m != nil && st.M("ssec") != "" && !e.inl[callee] {
			for cls := range m.ext {
				if isCount(cls) {
					st.SetM("ssec", "")
				}
			}
		}
		if m := mods[callee]; m != nil && st.M("verts") != "" && !e.inl[callee] {
			for cls := range m.ext {
				if strings.HasSuffix(cls, "NodesWork.vertices") {
					st.SetM("verts", "")
				}
			}
		}
		// use of the shared blockmap after its release
		if st.M("done") != "" && bmReach[callee] && !isLogFn(callee) {
			viol(e, "L03|shared blockmap used after release: "+callee.Name(), pos, callee.Name()+", which reads blockmaps, is called after the shared blockmap was released", st)
		}
		// lines are modified: only the builder's own copy may be
		if ci.Common().IsInvoke() && len(args) > 0 && p.InRepo(callee) {
			recv := args[0]
			if recv.kind == KApp && recv.op == "dyn" {
				recv = recv.args[0]
			}
			if ldField(recv) == "F:NodesInput.lines" && baseOf(recv) == in {
				if callee.Name() == "UnshareData" {
					st.SetM("unshared", "1")
					e.Ev("detaching of lines", ci)
					outs := e.opaque(fr, st, ci, ci.Common(), callee, args)
					return outs, true
				}
			}
		}
		if m := mods[callee]; m != nil && !nc.inner && st.M("unshared") == "" && !isLogFn(callee) && !e.inl[callee] {
			for cls := range m.cls {
				if lineData(cls) {
					// does it get the lines?
					for _, a := range args {
						x := a
						if x.kind == KApp && x.op == "dyn" {
							x = x.args[0]
						}
						if ldField(x) == "F:NodesInput.lines" && baseOf(x) == in || x == in {
							viol(e, "N02|lines modified before they are detached: "+callee.Name(), pos, callee.Name()+" may modify "+cls+" and is given the lines before they were detached from those other builders read", st)
						}
					}
				}
			}
		}
		if segCheck(callee) {
			outs := e.opaque(fr, st, ci, ci.Common(), callee, args)
			if len(args) == 2 {
				if b, ok := args[1].Bool(); ok && !b {
					for i := range outs {
						if outs[i].Kind == ORet {
							outs[i].St.mon["segchk"] = outs[i].Res
							outs[i].St.SetM("seg", "checked")
						}
					}
				}
			}
			return outs, true
		}
		if rearr(callee) {
			outs := e.opaque(fr, st, ci, ci.Common(), callee, args)
			m := mods[callee]
			k := ""
			if m.cls["I:Node"] {
				k += "plain"
			}
			if m.cls["I:DeepNode"] {
				k += "deep"
			}
			for i := range outs {
				if outs[i].Kind == ORet {
					outs[i].St.SetM("rev", k)
				}
			}
			return outs, true
		}
		return nil, false
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) {
		if st.M("rev") == "" {
			return
		}
		for fr.parent != nil {
			fr = fr.parent
		}
		work, cls := ownTree(st, fr)
		if s := ssecWithin(e, fr, st, work, cls); s != "" {
			st.SetM("ssec", s)
		}
		if s := vertsWithin(e, fr, st, work, cls); s != "" {
			st.SetM("verts", s)
		}
		if work != nil {
			if dn, _ := e.loadField(fr, st, work, p.Named(cls), "deepNodes"); dn != nil && e.Truth(st, Eq(dn, Nil())) == 1 {
				st.SetM("nodesNil", "1")
			}
		}
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		pos := p.InstrPos(i)
		switch v := i.(type) {
		case *ssa.Store:
			if c, _ := addrClass(v.Addr); isCount(c) {
				st.SetM("ssec", "")
			}
			if c, _ := addrClass(v.Addr); strings.HasSuffix(c, "NodesWork.vertices") {
				st.SetM("verts", "")
			}
			if c, _ := addrClass(v.Addr); fr.parent == nil && strings.HasPrefix(c, "F:") && strings.HasSuffix(c, "NodesWork.nodeType") {
				st.mon["initType"] = e.Eval(fr, st, v.Val)
			}
		case *ssa.Go:
			for _, f := range p.Callees(v) {
				k := paramOf(f, "NodesInput")
				if k < 0 {
					continue
				}
				e.Ev("start of the extended node builder", i)
				arg := e.Eval(fr, st, v.Common().Args[k])
				if st.mon["other"] != nil {
					viol(e, "L02|extended builder started twice", pos, "the extended node builder is started twice", st)
				}
				st.mon["other"] = arg
				st.Note("extended builder started")
				if nc.inner {
					viol(e, "L02|extended builder starts itself", pos, "the extended node builder starts another one", st)
				}
				ch := inField(e, fr, st, arg, "nodesChan")
				st.mon["otherChan"] = ch
				if ch.kind != KAlloc && !(ch.kind == KApp && ch.op == "nonnil") {
					viol(e, "L02|extended builder without a channel of its own", pos, "the extended node builder is started with result channel "+ch.String()+", not one made for it", st)
				}
				if arg == in {
					viol(e, "L02|extended builder shares input", pos, "the extended node builder is started with the input of the builder that starts it", st)
				}
				if a := ableist(e, fr, st); a != nil && e.Truth(st, Eq(inField(e, fr, st, arg, "multiTreeMode"), K("MULTITREE_NOTUSED"))) != 1 && e.Truth(st, a) != 0 {
					viol(e, "L03|extended builder started in ableist multi-tree mode", pos, "the extended node builder is started by another one in a mode in which it acts as if it was not", st)
				}
				for _, n := range []string{"bcontrol", "bgenerator"} {
					if inField(e, fr, st, arg, n) != Nil() {
						viol(e, "L03|extended builder started with "+n, pos, "the extended node builder started by another one is given "+n+", so that both would speak for one user of the shared blockmap", st)
					}
				}
				nt := inField(e, fr, st, arg, "nodeType")
				if x, ok := nt.Int(); !ok || x != ntv {
					viol(e, "N05|extended builder started with another node format", pos, "the extended node builder is started with node format "+nt.String()+" instead of the one asked for", st)
				}
				sm := inField(e, fr, st, arg, "solidMap")
				if st.M("need") == "NEED" && (st.mon["bm"] == nil || sm != st.mon["bm"]) {
					viol(e, "L03|extended builder started without the shared blockmap", pos, "the extended node builder is started without the shared blockmap its partitioner needs ("+sm.String()+")", st)
				}
				if st.M("done") != "" {
					viol(e, "L03|shared blockmap passed on after release", pos, "the extended node builder is started with the shared blockmap after it was released", st)
				}
				ln, _ := unIface(inField(e, fr, st, arg, "lines"))
				if ln == inField(e, fr, st, in, "lines") || ldField(ln) == "F:NodesInput.lines" {
					viol(e, "N02|both node builders share lines", pos, "the extended node builder is started with the lines that the builder starting it edits", st)
				}
			}
		case *ssa.Send:
			el := chanElem(v.Chan.Type())
			if !interesting[el] {
				return
			}
			ch := e.Eval(fr, st, v.Chan)
			x := e.Eval(fr, st, v.X)
			own := func(name string) bool { return ch == inField(e, fr, st, in, name) }
			if nc.inner && (el == "BconRequest" || el == "BgenRequest") {
				viol(e, "L03|message from an extended builder that has no channel", pos, "a message to the shared blockmap is sent though the extended builder was started by another one and has no such channel (it would block forever)", st)
				return
			}
			switch el {
			case "NodesResult":
				e.Ev("reply of a node builder", i)
				if !own("nodesChan") {
					viol(e, "L02|result sent to another channel", pos, "the node building result is sent to "+ch.String()+" instead of the channel given to the builder", st)
					return
				}
				if st.M("replied") != "" {
					viol(e, "L02|result sent twice", pos, "a second node building result is sent", st)
				}
				st.SetM("replied", "1")
				st.Note("result sent")
				checkNodesReply(e, fr, st, i, x, nc, K, viol)
			case "BconRequest":
				e.Ev("message to the shared blockmap's controller", i)
				snd, ok1 := orT(e.sfield(x, breqT, "Sender")).Int()
				msg, ok2 := orT(e.sfield(x, breqT, "Message")).Int()
				want, _ := K("SOLIDBLOCKS_NODES").Int()
				if !ok1 || !ok2 || !own("bcontrol") {
					viol(e, "L03|message of unknown kind", pos, "a message of unknown kind or to another controller is sent", st)
					return
				}
				if snd != want {
					viol(e, "L03|message on behalf of another user", pos, "the node builder sends a message on behalf of another user of the shared blockmap", st)
				}
				bconStep(e, st, p, pos, msg, func(key, msg string) { viol(e, key, pos, msg, st) })
				if st.M("fetched") == "" && st.M("done") != "" && st.M("asked") != "" {
					viol(e, "L03|released before it arrived", pos, "the shared blockmap is released while it is still being waited for", st)
				}
			case "BgenRequest":
				e.Ev("fetch of the shared blockmap", i)
				act, ok := orT(e.sfield(x, bgenT, "Action")).Int()
				want, _ := K("BGEN_RETRIEVE_BLOCKMAP").Int()
				if !ok || act != want || !own("bgenerator") {
					viol(e, "L03|request of another kind", pos, "the node builder sends the shared blockmap's generator something other than a request for it", st)
					return
				}
				if st.M("need") != "NEED" {
					viol(e, "L03|fetched without asking for it", pos, "the shared blockmap is fetched without having been asked for", st)
				}
				if st.M("done") != "" {
					viol(e, "L03|fetched after release", pos, "the shared blockmap is fetched after it was released", st)
				}
				rt := orT(e.sfield(x, bgenT, "ReplyTo"))
				st.mon["bmChan"] = rt
				st.SetM("asked", "1")
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" && interesting[chanElem(v.Call.Args[0].Type())] {
				viol(e, "L02|builder closes a channel", pos, "a result or control channel is closed by the node builder", st)
			}
		case *ssa.Return:
			if fr.parent != nil {
				return
			}
			e.Paths++
			if st.M("replied") == "" {
				viol(e, "L02|no result sent", pos, "the builder returns without having sent a result", st)
			}
			if st.mon["other"] != nil && st.M("received") == "" {
				viol(e, "L02|result of extended builder never received", pos, "the result of the extended node builder that was started is never received", st)
			}
			if !nc.inner {
				if st.M("need") == "" {
					viol(e, "L03|controller not told whether blockmap is needed", pos, "the controller of the shared blockmap is not told by the node builder whether it is needed", st)
				}
				if st.M("need") == "NEED" && st.M("done") == "" {
					viol(e, "L03|shared blockmap not released", pos, "the shared blockmap was asked for but is not released by the node builder", st)
				}
			}
		}
	}
	e := NewEngine(p, r)
	nodesBuilderMemo[mk] = e
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for i, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+pr.Name())
			if i == pi {
				in = t
				set := func(name string, v *Term) {
					for k := 0; k < inT.Underlying().(*types.Struct).NumFields(); k++ {
						if inT.Underlying().(*types.Struct).Field(k).Name() == name {
							cls, ft := fieldClass(inT, k)
							st.mem[FieldOf(t, cls, ft)] = v
						}
					}
				}
				set("nodeType", ConstI(ntv))
				st.mon["in"] = t
				if nc.inner {
					ev := nil0(p, r)
					if nc.single {
						set("multiTreeMode", K("MULTITREE_NOTUSED"))
					} else if a := ableist(ev, fr, st); a != nil {
						st.facts[a] = false
					}
					set("bcontrol", Nil())
					set("bgenerator", Nil())
					if nc.solid == "given" {
						set("solidMap", App("nonnil", Sym(fr.ctx, "solid")))
					} else {
						set("solidMap", Nil())
						pn := inField(ev, fr, st, t, "pickNodeUser")
						st.facts[Eq(pn, K("PICKNODE_VISPLANE_ADV"))] = false
					}
				} else {
					set("solidMap", Nil())
					set("linedefForMTP", Nil())
				}
			}
			a = append(a, t)
		}
		return a
	})
	return e
}

// ableist: the option on which the node builder decides what it is.
func ableist(e *Engine, fr *Frame, st *State) *Term {
	p := e.P
	g := p.Main.Var("config")
	ct := p.Named("ProgramConfig")
	if g == nil || ct == nil {
		return nil
	}
	base := GlobalT(g)
	if _, ok := deref(g.Type()).Underlying().(*types.Pointer); ok {
		base = e.Load(fr, st, base, deref(g.Type()))
	}
	t, _ := e.loadField(fr, st, base, ct, "Ableist")
	return t
}

// nil0: an engine that only evaluates loads
func nil0(p *Prog, r *Rule) *Engine { return &Engine{P: p, R: &Rule{Immutable: r.Immutable}} }

// dropPhi: variables that do not decide about messages.
func dropPhi(ph *ssa.Phi) bool {
	switch types.Unalias(ph.Type()).Underlying().(type) {
	case *types.Signature, *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		switch strings.TrimPrefix(namedName(deref(ph.Type())), "ZExt_") {
		case "NodesInput", "NodesWork", "NodesTotals", "Blockmap", "MTPForeignInput", "MultiformatPassthrough":
			return false
		}
		return true
	}
	return isInt(ph.Type()) && !allConst(ph, map[ssa.Value]bool{})
}

func allConst(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !allConst(ed, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// nodesKeep: fields whose contents decide about messages of a node builder.
func nodesKeep(owner, field string) bool {
	switch owner {
	case "NodesInput", "NodesResult", "BconRequest", "BgenRequest", "MTPForeignInput", "MultiformatPassthrough",
		"ZExt_MTPForeignInput", "ZExt_MultiformatPassthrough":
		return true
	case "NodesWork", "ZExt_NodesWork":
		switch field {
		case "nodeType", "nodes", "segs", "subsectors", "deepNodes", "deepSegs", "deepSubsectors", "totals", "SsectorMask", "upgradableToDeep", "solidMap", "vertices":
			return true
		}
	case "NodesTotals", "ZExt_NodesTotals":
		return field == "numSSectors"
	}
	return false
}

// forgetAllBut: only fields named by keep, the configuration, globals and local
// variables are followed.
func (p *Prog) forgetAllBut(keep func(owner, field string) bool) func(cls string) bool {
	memo := map[string]bool{}
	return func(cls string) bool {
		if r, ok := memo[cls]; ok {
			return r
		}
		r := false
		switch {
		case strings.HasPrefix(cls, "F:ProgramConfig."):
		case strings.HasPrefix(cls, "F:"):
			o := classOwner(cls)
			r = !keep(o, strings.TrimPrefix(cls[2:], o+"."))
		case strings.HasPrefix(cls, "I:"):
			r = true
		}
		memo[cls] = r
		return r
	}
}

// factInteresting: conditions that decide about messages of a node builder.
func factInteresting(t *Term) bool {
	hit, large := false, false
	if t.kind == KApp && t.op == "<" {
		for _, a := range t.args {
			if n, ok := a.Int(); ok && n >= 1000 {
				large = true
			}
		}
	}
	field := func(cls string, root *Term) {
		o := strings.TrimPrefix(classOwner(cls), "ZExt_")
		switch fieldLeaf(cls) {
		case "nodeType", "pickNodeUser", "multiTreeMode", "solidMap", "linedefForMTP", "upgradableToDeep", "nodes", "deepNodes":
			if o == "NodesInput" || o == "NodesWork" && (root == nil || root.kind == KAlloc) {
				hit = true
			}
		case "vertices":
			// only their number compared with a limit of a format
			if large && (root == nil || root.kind == KAlloc) {
				hit = true
			}
		case "numSSectors":
			if root == nil || root.kind == KAlloc || baseOf(root) != nil && baseOf(root).kind == KAlloc || root.kind == KApp && strings.HasPrefix(root.op, "at:") || root.kind == KSym && strings.HasSuffix(root.op, "NodesWork.totals") {
				hit = true
			}
		}
		if o == "MTPForeignInput" || cls == "F:ProgramConfig.Ableist" {
			hit = true
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || hit {
			return
		}
		switch {
		case t.kind == KSym:
			if i := strings.Index(t.op, "@"); i > 0 {
				field(t.op[i+1:], nil)
			}
			if t.site == nil {
				return
			}
			if ci, ok := t.site.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && (isSegCheck(f) || f.Signature.Results().Len() > 0 && namedHas(f.Signature.Results().At(0).Type(), "NodeInProcess")) {
					hit = true
				}
			}
			return
		case t.kind == KApp && t.op == "ld":
			if c := t.args[0]; c.kind == KField {
				field(c.op, c.root())
			}
			return
		case t.kind == KApp && t.op == "kill":
			if c := t.args[1]; c.kind == KField {
				field(c.op, c.root())
			}
			return
		case t.kind == KApp && strings.HasPrefix(t.op, "at:"):
			field(t.op[3:], nil)
			return
		case t.kind == KApp && t.op == "forgot":
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return hit
}

func namedHas(t types.Type, n string) bool { return strings.HasSuffix(namedName(deref(t)), n) }

// isSegCheck: the check whether segs fit the node format.
func isSegCheck(f *ssa.Function) bool {
	return f.Name() == "tooManySegsCantFix" || f.Name() == "ZExt_tooManySegsCantFix"
}

// lineData: classes of the data of lines and vertices of a level.
func lineData(cls string) bool {
	switch cls {
	case "I:Vertex", "I:Linedef", "I:HexenLinedef":
		return true
	}
	o := classOwner(cls)
	return o == "Linedef" || o == "HexenLinedef" || o == "Vertex"
}

// bconStep advances the protocol of a user of the shared blockmap.
func bconStep(e *Engine, st *State, p *Prog, pos string, msg int64, viol func(key, msg string)) {
	is := func(n string) bool { v, ok := p.ConstInt(n); return ok && v == msg }
	switch {
	case is("BCON_NEED_SOLID_BLOCKMAP"), is("BCON_NONEED_SOLID_BLOCKMAP"):
		if st.M("need") != "" {
			viol("L03|controller told twice whether blockmap is needed", "the controller of the shared blockmap is told a second time whether it is needed")
		}
		if is("BCON_NEED_SOLID_BLOCKMAP") {
			st.SetM("need", "NEED")
			st.Note("shared blockmap asked for")
		} else {
			st.SetM("need", "NONEED")
			st.Note("shared blockmap declined")
		}
	case is("BCON_DONE_WITH_SOLID_BLOCKMAP"):
		if st.M("need") != "NEED" {
			viol("L03|released without having been asked for", "the shared blockmap is released without having been asked for")
		}
		if st.M("done") != "" {
			viol("L03|released twice", "the shared blockmap is released twice")
		}
		st.SetM("done", "1")
		st.Note("shared blockmap released")
	default:
		viol("L03|message of unknown kind", "a message of unknown kind is sent to the controller of the shared blockmap")
	}
}

// vertsWithin: likewise for the number of vertices and references of 16 bits.
func vertsWithin(e *Engine, fr *Frame, st *State, work *Term, workCls string) string {
	wt := e.P.Named(workCls)
	if work == nil || wt == nil {
		return ""
	}
	vs, _ := e.loadField(fr, st, work, wt, "vertices")
	if vs == nil {
		return ""
	}
	if e.Truth(st, Less(ConstI(65536), App("len", vs), types.Typ[types.Int])) == 0 {
		return "ok"
	}
	return ""
}

// ssecWithin: what the path knows about the number of subsectors of a tree:
// "ok" within what the format can refer to, "exceeded", "" nothing.
func ssecWithin(e *Engine, fr *Frame, st *State, work *Term, workCls string) string {
	p := e.P
	wt := p.Named(workCls)
	if work == nil || wt == nil {
		return ""
	}
	tt, typ := e.loadField(fr, st, work, wt, "totals")
	mask, _ := e.loadField(fr, st, work, wt, "SsectorMask")
	if tt == nil || mask == nil || typ == nil {
		return ""
	}
	n, _ := e.loadField(fr, st, tt, deref(typ), "numSSectors")
	if n == nil {
		return ""
	}
	has := func(t *Term) bool {
		m := map[*Term]bool{}
		addSub(m, t)
		return m[n]
	}
	res := ""
	for f, v := range st.facts {
		if f.kind != KApp || !has(f) {
			continue
		}
		switch f.op {
		case "==":
			for i := 0; i < 2; i++ {
				// (number & mask) == mask
				if f.args[i] == mask && has(f.args[1-i]) {
					if v {
						res = "exceeded"
					} else {
						res = "ok"
					}
				}
			}
		case "<":
			if f.args[1] == mask && has(f.args[0]) && v {
				res = "ok"
			}
		}
	}
	return res
}

var ntvMemo = map[string]map[int64]bool{}

// nodeTypeValues: formats a tree under construction can have: the one it is
// started with and those stored later.
func nodeTypeValues(p *Prog, cls string, init *Term) map[int64]bool {
	m := ntvMemo[cls]
	if m == nil {
		m = map[int64]bool{}
		p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if c, _ := addrClass(s.Addr); c == "F:"+cls+".nodeType" {
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
						if v, ok := Const(k.Value).Int(); ok {
							m[v] = true
						}
					}
				}
			}
		})
		ntvMemo[cls] = m
	}
	r := map[int64]bool{}
	for v := range m {
		r[v] = true
	}
	if v, ok := orT(init).Int(); ok {
		r[v] = true
	}
	return r
}

// nodeResultFamily of the fields of NodesResult
var nodeResFam = map[string]string{"segs": "plain", "nodes": "plain", "subsectors": "plain", "deepSegs": "deep", "deepNodes": "deep", "deepSubsectors": "deep", "rawNodes": "raw"}

// ownTree: the tree under construction in frame fr.
func ownTree(st *State, fr *Frame) (work *Term, cls string) {
	for k := range st.mem {
		if r := k.root(); r.kind == KAlloc && r.ctx == fr.ctx && r.typ != nil && namedHas(r.typ, "NodesWork") && (work == nil || r.id < work.id) {
			work = r
		}
	}
	if work != nil {
		cls = namedName(work.typ)
	}
	return
}

func checkNodesReply(e *Engine, fr *Frame, st *State, i ssa.Instruction, x *Term, nc nodesCase, K func(string) *Term, viol func(*Engine, string, string, string, *State)) {
	p := e.P
	pos := p.InstrPos(i)
	resT := p.Named("NodesResult")
	if st.mon["otherRes"] != nil && x == st.mon["otherRes"] {
		return // the other builder's result, checked where it is built
	}
	if x.kind == KApp && x.op == "nonnil" || x.kind == KSym {
		viol(e, "N05|result of unknown origin", pos, "the result sent is "+x.String()+", neither the builder's own nor that of the extended builder", st)
		return
	}
	work, workCls := ownTree(st, fr)
	var wt types.Type
	if work != nil {
		wt = work.typ
	}
	fams := map[string]bool{}
	s := resT.Underlying().(*types.Struct)
	for k := 0; k < s.NumFields(); k++ {
		n := s.Field(k).Name()
		t := orT(e.sfield(x, resT, n))
		fam := nodeResFam[n]
		if fam == "" || t == Nil() || t.kind == KZero {
			continue
		}
		fams[fam] = true
		if fam != "raw" {
			var cur *Term
			if wt != nil {
				cur, _ = e.loadField(fr, st, work, wt, n)
			}
			if cur != t {
				viol(e, "N05|"+n+" of result filled from elsewhere", pos, "field "+n+" of the result is "+t.String()+", not the "+n+" that were built", st)
			}
		}
	}
	if len(fams) > 1 {
		viol(e, "N05|result of mixed formats", pos, "the result holds data of several node formats", st)
		return
	}
	ssec := st.M("ssec")
	// formats the tree may have here
	types_ := map[int64]bool{}
	if work != nil {
		nt, _ := e.loadField(fr, st, work, wt, "nodeType")
		for v := range nodeTypeValues(p, workCls, st.mon["initType"]) {
			if e.Truth(st, Eq(orT(nt), ConstI(v))) != 0 {
				types_[v] = true
			}
		}
		if len(types_) == 0 {
			return // no tree has such a format: the path cannot be taken
		}
	}
	only := func(name string) bool {
		v, _ := K(name).Int()
		return len(types_) == 1 && types_[v]
	}
	switch {
	case fams["plain"]:
		if !only("NODETYPE_VANILLA") {
			viol(e, "N05|plain nodes sent for another format", pos, "nodes, segs and subsectors in the classic format are sent on a path on which the format in effect may be another", st)
		}
		if st.M("rev") != "plain" {
			viol(e, "N05|classic nodes not converted", pos, "nodes in the classic format are sent but the tree was converted to "+orStr(st.M("rev"), "nothing"), st)
		}
		if ssec != "ok" {
			viol(e, "N03|subsector limit not checked", pos, "nodes in the classic format are sent on a path on which the number of subsectors was not found to be within the limit of the format", st)
		}
		if st.M("verts") != "ok" {
			viol(e, "N03|vertex limit not checked", pos, "nodes in the classic format are sent on a path on which the number of vertices was not found to fit the 16-bit references of segs", st)
		}
		if t := st.mon["segchk"]; t == nil || e.Truth(st, t) != 0 {
			viol(e, "N03|seg limit not checked", pos, "nodes in the classic format are sent on a path on which the number of segs was not found to fit the format", st)
		}
	case fams["deep"]:
		if !only("NODETYPE_DEEP") {
			viol(e, "N05|deep nodes sent for another format", pos, "DeeP nodes are sent on a path on which the format in effect may be another", st)
		}
		if st.M("rev") != "deep" {
			viol(e, "N05|deep nodes not converted", pos, "DeeP nodes are sent but the tree was converted to "+orStr(st.M("rev"), "nothing"), st)
		}
		if ssec != "ok" {
			viol(e, "N03|subsector limit not checked", pos, "DeeP nodes are sent on a path on which the number of subsectors was not found to be within the limit of the format", st)
		}
	case fams["raw"]:
		if st.M("rev") != "deep" {
			viol(e, "N05|extended nodes not converted", pos, "extended nodes are sent but the tree was converted to "+orStr(st.M("rev"), "nothing"), st)
		}
		if ssec != "ok" {
			viol(e, "N03|subsector limit not checked", pos, "extended nodes are sent on a path on which the number of subsectors was not found to be within the limit of the format", st)
		}
		comp := orT(e.sfield(x, resT, "compressed"))
		zc, _ := K("NODETYPE_ZDOOM_COMPRESSED").Int()
		ze, _ := K("NODETYPE_ZDOOM_EXTENDED").Int()
		want := ze
		if strings.HasSuffix(nc.nodeType, "COMPRESSED") {
			want = zc
		}
		if len(types_) != 1 || !types_[want] {
			viol(e, "N05|extended nodes sent for another format", pos, "extended nodes are sent though the format asked for is "+nc.nodeType, st)
			return
		}
		// the mark, given what the format is
		s2 := st.Clone()
		nt, _ := e.loadField(fr, st, work, wt, "nodeType")
		e.assumeAlways(s2, Eq(nt, ConstI(want)))
		tr := e.Truth(s2, comp)
		if b, ok := comp.Bool(); ok {
			if b {
				tr = 1
			} else {
				tr = 0
			}
		}
		if tr < 0 || (tr == 1) != (want == zc) {
			viol(e, "N05|extended nodes marked wrongly", pos, "extended nodes are marked compressed="+comp.String()+" for node format "+nc.nodeType, st)
		}
	default:
		// nothing is sent: no seg could be made, or the data was emptied
		if st.M("rev") != "" && ssec == "ok" && st.M("nodesNil") == "" {
			if t := st.mon["segchk"]; t != nil && e.Truth(st, t) == 0 {
				e.Ev("empty result though limits hold", i)
				viol(e, "L02|empty result though nodes were built", pos, "an empty result is sent on a path on which nodes were built and are within limits", st)
			}
		}
	}
}
