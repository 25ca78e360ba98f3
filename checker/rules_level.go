package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Level processing: delivery of rebuilt lumps (L01, L03, L06), copying and
// registration of lumps and start of builders (W09, W11, L03, L04, L05).

// levelIdxField: lump index fields of Level and the lump each is for.
var levelIdxField = map[string]string{
	"BlockmapLumpIdx": "BLOCKMAP", "RejectLumpIdx": "REJECT", "SSectorsLumpIdx": "SSECTORS", "SegsLumpIdx": "SEGS",
	"NodesLumpIdx": "NODES", "VerticesLumpIdx": "VERTEXES", "LinedefsLumpIdx": "LINEDEFS",
}

func fieldLeaf(cls string) string { return cls[strings.LastIndex(cls, ".")+1:] }

// ldField: t is the loaded value of a field; returns its class.
func ldField(t *Term) string {
	if t != nil && t.kind == KApp && t.op == "ld" && t.args[0].kind == KField {
		return t.args[0].op
	}
	return ""
}

// isBusSend tells whether in sends a request to the lump writer.
func isBusSend(in ssa.Instruction) (*ssa.Send, bool) {
	s, ok := in.(*ssa.Send)
	if ok && busChan(s.Chan) {
		return s, true
	}
	return nil, false
}

// busRequest is the request a send passes on.
type busRequest struct {
	idx   *Term
	data  *Term
	field string // data field that is set, "" for none
	tpe   int64
}

func (e *Engine) busRequestOf(fr *Frame, st *State, s *ssa.Send) (busRequest, bool) {
	rt := e.P.Named("WriteBusRequest")
	var r busRequest
	if rt == nil {
		return r, false
	}
	v := e.Eval(fr, st, s.X)
	k, ok := orT(e.sfield(v, rt, "tpeIndex")).Int()
	if !ok {
		return r, false
	}
	r.tpe = k
	r.idx = orT(e.sfield(v, rt, "lumpIdx"))
	r.data = Nil()
	for _, f := range reqDataFields {
		x := e.sfield(v, rt, f)
		if x == nil || x == Nil() || x.kind == KZero {
			continue
		}
		r.data, _ = unIface(x)
		r.field = f
	}
	return r, true
}

// reachesBus: functions from which a send to the writer is reached by calls.
func reachesBus(p *Prog) map[*ssa.Function]bool {
	return p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool { _, ok := isBusSend(in); return ok })
}

// paramOf returns the index of the first parameter whose (pointee) type is named.
func paramOf(fn *ssa.Function, name string) int {
	for i, p := range fn.Params {
		if namedName(deref(p.Type())) == name {
			return i
		}
	}
	return -1
}

// deliverers: outermost functions that take a NodesResult and deliver it.
func nodeDeliverers(p *Prog) []*ssa.Function {
	rb := reachesBus(p)
	var r []*ssa.Function
	for _, fn := range p.Funcs {
		if rb[fn] && paramOf(fn, "NodesResult") >= 0 && fn.Synthetic == "" {
			r = append(r, fn)
		}
	}
	in := map[*ssa.Function]bool{}
	for _, f := range r {
		in[f] = true
	}
	var out []*ssa.Function
	for _, f := range r {
		outer := true
		for _, c := range p.callers[f] {
			if in[c.Parent()] && c.Parent() != f {
				outer = false
			}
		}
		if outer {
			out = append(out, f)
		}
	}
	return out
}

// ---- delivery of a node building result ----------------------------------------

// nodeData: which field of NodesResult may be delivered to which lump, by family.
var nodeData = map[string]map[string]string{
	"SEGS":     {"segs": "plain", "deepSegs": "deep"},
	"SSECTORS": {"subsectors": "plain", "deepSubsectors": "deep"},
	"NODES":    {"nodes": "plain", "deepNodes": "deep", "rawNodes": "raw"},
}
var famNodes = map[string]string{"plain": "nodes", "deep": "deepNodes", "raw": "rawNodes"}

func ruleWriteNodes(c *Ctx) {
	p := c.P
	const rn = "node-delivery"
	c.Rule("node-delivery: on every path of the function that delivers a node building result, LINEDEFS, VERTEXES, SEGS, SSECTORS and NODES are each sent to the writer exactly once, with the data of one node format that the path knows to be present")
	roots := nodeDeliverers(p)
	if len(roots) == 0 {
		c.Undecided(rn, "no function delivers a NodesResult")
		return
	}
	nr := p.Named("NodesResult")
	for _, root := range roots {
		root := root
		pi := paramOf(root, "NodesResult")
		_, byPtr := types.Unalias(root.Params[pi].Type()).Underlying().(*types.Pointer)
		r := &Rule{Name: rn, Cap: 200}
		r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool { _, ok := isBusSend(in); return ok }
		r.NoInline = func(fn *ssa.Function) bool { return strings.HasPrefix(FullName(fn), "(*MiniLogger).") }
		r.Immutable = func(cls string) bool {
			return strings.HasPrefix(cls, "F:Level.") || strings.HasPrefix(cls, "F:NodesResult.")
		}
		r.KeepFact = func(cls string) bool { return strings.HasPrefix(cls, "F:NodesResult.") }
		var resT *Term
		field := func(e *Engine, fr *Frame, st *State, name string) *Term {
			if byPtr {
				t, _ := e.loadField(fr, st, resT, nr, name)
				return orT(t)
			}
			return orT(e.sfield(resT, nr, name))
		}
		r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
			if callee != nil && (callee.Name() == "GetLinedefs" || callee.Name() == "GetVertices") && len(args) > 0 {
				ret := func(t *Term) ([]Out, bool) { return []Out{{Kind: ORet, Res: t, St: st}}, true }
				x := args[0]
				if x.kind == KApp && x.op == "dyn" {
					x = x.args[0]
				}
				return ret(App("call:"+callee.Name(), x))
			}
			return nil, false
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			pos := p.InstrPos(in)
			if s, ok := isBusSend(in); ok {
				rq, ok := e.busRequestOf(fr, st, s)
				if !ok {
					e.Undecided("request to the writer of unknown kind at " + pos)
					return
				}
				lump := levelIdxField[fieldLeaf(orStr(ldField(rq.idx), "."))]
				if lump == "" {
					e.Violate("L01|node data delivered to an unknown entry", pos, "node building data is delivered under entry "+rq.idx.String()+", which is not one of the indices recorded for the level: "+st.Path())
					return
				}
				e.Ev("delivery of a lump of rebuilt nodes", fr.rootSite(in))
				if st.M(lump) != "" {
					e.Violate("L01|"+lump+" delivered twice", pos, lump+" is delivered twice for one node building result: "+st.Path())
				}
				st.SetM(lump, "1")
				st.Note(lump + " sent")
				switch lump {
				case "LINEDEFS", "VERTEXES":
					want := map[string]string{"LINEDEFS": "call:GetLinedefs", "VERTEXES": "call:GetVertices"}[lump]
					if rq.data.kind != KApp || rq.data.op != want || ldField(rq.data.args[0]) != "F:Level.newLines" {
						e.Violate("L01|"+lump+" delivered with other data", pos, lump+" is delivered with "+rq.data.String()+" instead of the lines of the level: "+st.Path())
					}
				case "SEGS", "SSECTORS", "NODES":
					if rq.data == Nil() {
						if lump == "NODES" {
							st.SetM("fam:NODES", "none")
						} else {
							st.SetM("fam:"+lump, "none")
						}
						return
					}
					fam := ""
					for f, x := range nodeData[lump] {
						if field(e, fr, st, f) == rq.data {
							fam = x
						}
					}
					if fam == "" {
						e.Violate("L01|"+lump+" delivered with other data", pos, lump+" is delivered with "+rq.data.String()+", which is no such part of the node building result: "+st.Path())
						return
					}
					want := "intfData"
					if fam == "deep" && lump == "NODES" {
						want = "deepData"
					} else if fam == "raw" {
						want = "bData"
					}
					if rq.field != want {
						e.Violate("L01|"+lump+" ("+fam+") sent in the wrong form", pos, lump+" of the "+fam+" format is sent as "+rq.field+" instead of "+want+": "+st.Path())
					}
					st.SetM("fam:"+lump, fam)
				}
				return
			}
			if _, ok := in.(*ssa.Return); ok && fr.parent == nil {
				e.Paths++
				for _, l := range []string{"LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES"} {
					if st.M(l) == "" {
						e.Violate("L01|"+l+" not delivered with nodes", pos, l+" is not delivered on a path that delivers a node building result: "+st.Path())
					}
				}
				n := st.M("fam:NODES")
				isNil := func(f string) bool { return e.Truth(st, Eq(field(e, fr, st, f), Nil())) == 1 }
				notNil := func(f string) bool { return e.Truth(st, Eq(field(e, fr, st, f), Nil())) == 0 }
				if n == "" {
					return
				}
				// the delivered format is the one that is there
				if n == "none" || !notNil(famNodes[n]) {
					for _, f := range sortedFams() {
						if f != n && !isNil(famNodes[f]) {
							e.Violate("L01|nodes present in "+f+" format not delivered", pos, "NODES is delivered from the "+n+" part of the result on a path on which the "+f+" part may hold the nodes: "+st.Path())
						}
					}
				}
				for _, l := range []string{"SEGS", "SSECTORS"} {
					f := st.M("fam:" + l)
					if f == "" || f == n && n != "none" {
						continue
					}
					if f == "none" {
						if n == "raw" || n == "none" {
							continue
						}
						for k, x := range nodeData[l] {
							if x == n && !isNil(k) {
								e.Violate("L01|"+l+" left empty for "+n+" nodes", pos, l+" is delivered empty though NODES is delivered in "+n+" format: "+st.Path())
							}
						}
						continue
					}
					e.Violate("L01|"+l+" and NODES of different formats", pos, l+" is delivered in "+f+" format but NODES in "+n+" format: "+st.Path())
				}
			}
		}
		e := NewEngine(p, r)
		e.Run(root, func(fr *Frame, st *State) []*Term {
			var a []*Term
			for i, pr := range root.Params {
				t := Sym(fr.ctx, "p:"+pr.Name())
				t.typ = nil
				if i == pi {
					resT = t
				}
				st.mon["p"+itoa(i)] = t
				a = append(a, t)
			}
			return a
		})
		c.Take(e)
	}
	c.Min(rn, rn+": delivery of a lump of rebuilt nodes", 5)
}

func sortedFams() []string { return []string{"deep", "plain", "raw"} }

// ---- waiting for the builders ---------------------------------------------------

// list terms: slices whose elements are known.
func listT(el ...*Term) *Term { return App("list", el...) }
func isList(t *Term) bool     { return t != nil && t.kind == KApp && t.op == "list" }
func (s *State) replace(o, n *Term) {
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term { return replTerm(t, o, n, memo) }
	for k, v := range s.env {
		s.env[k] = f(v)
	}
	for k, v := range s.mem {
		s.mem[k] = f(v)
	}
	for k, v := range s.mon {
		s.mon[k] = f(v)
	}
}

func replTerm(t, o, n *Term, memo map[*Term]*Term) *Term {
	if t == o {
		return n
	}
	if t == nil || t.kind != KApp || len(t.args) == 0 || t.op == "list" {
		return t
	}
	return t
}

var chanKind = map[string]string{"NodesChan": "NODES", "RejectChan": "REJECT", "BlockmapLumpChannel": "BLOCKMAP"}

// waitFlow analyses Level.WaitForAndWriteData for one value of config.Deterministic.
func waitFlow(c *Ctx, root *ssa.Function, det bool, orders map[string]string) *Engine {
	p := c.P
	rn := "delivery-of-results"
	nr, rr := p.Named("NodesResult"), p.Named("RejectResponse")
	_ = nr
	deliver := map[*ssa.Function]bool{}
	for _, f := range nodeDeliverers(p) {
		deliver[f] = true
	}
	nagFn := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if paramOf(f, "RejectNagger") >= 0 && f.Signature.Results().Len() == 1 {
			nagFn[f] = true
		}
	}
	r := &Rule{Name: rn, Cap: 2000}
	selName := "reflect.Select"
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		if _, ok := isBusSend(in); ok {
			return true
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			for _, f := range p.Callees(ci) {
				n := FullName(f)
				if n == selName || deliver[f] || nagFn[f] || n == "reflect.ValueOf" {
					return true
				}
			}
		}
		return false
	}
	r.NoInline = func(fn *ssa.Function) bool { return strings.HasPrefix(FullName(fn), "(*MiniLogger).") }
	r.Immutable = func(cls string) bool {
		return strings.HasPrefix(cls, "F:Level.") || strings.HasPrefix(cls, "F:ProgramConfig.") || cls == "G:config"
	}
	r.KeepFact = func(cls string) bool { return strings.HasPrefix(cls, "F:Level.") && strings.Contains(cls, "Chan") }
	r.Keep = func(cls string) bool { return cls == "F:Level.WroteRejectAlready" }
	elem := func(loc *Term) *Term {
		if loc.kind == KIndex && isList(loc.args[0]) {
			if i, ok := loc.args[1].Int(); ok && i >= 0 && int(i) < len(loc.args[0].args) {
				return loc.args[0].args[i]
			}
		}
		return nil
	}
	r.LoadHook = func(e *Engine, fr *Frame, st *State, loc *Term) *Term {
		if loc.kind == KField {
			switch fieldLeaf(loc.op) {
			case "Deterministic":
				return ConstB(det)
			case "WroteRejectAlready":
				return ConstB(false)
			}
			if w := elem(loc.args[0]); w != nil {
				return projField(w, loc)
			}
		}
		if w := elem(loc); w != nil {
			return w
		}
		return nil
	}
	r.Value = func(e *Engine, fr *Frame, st *State, v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.MakeSlice:
			if n, ok := e.Eval(fr, st, v.Len).Int(); ok && n == 0 {
				return listT()
			}
		case *ssa.Slice:
			if v.Max != nil {
				return nil
			}
			x := e.Eval(fr, st, v.X)
			if at, ok := deref(v.X.Type()).Underlying().(*types.Array); ok {
				if v.High != nil {
					if n, ok := e.Eval(fr, st, v.High).Int(); ok && n == 0 && v.Low == nil {
						return listT()
					}
				} else if at.Len() == 0 {
					return listT()
				}
				if v.Low == nil && v.High == nil && at.Len() <= 8 {
					// composite literal
					if a, ok := v.X.(*ssa.Alloc); ok && a.Comment == "slicelit" {
						var el []*Term
						for i := int64(0); i < at.Len(); i++ {
							el = append(el, e.Load(fr, st, IndexOf(x, ConstI(i), at.Elem()), at.Elem()))
						}
						return listT(el...)
					}
				}
				return nil
			}
			if isList(x) {
				lo, hi := int64(0), int64(len(x.args))
				if v.Low != nil {
					n, ok := e.Eval(fr, st, v.Low).Int()
					if !ok {
						return nil
					}
					lo = n
				}
				if v.High != nil {
					n, ok := e.Eval(fr, st, v.High).Int()
					if !ok {
						return nil
					}
					hi = n
				}
				if lo < 0 || hi < lo || int(hi) > len(x.args) {
					return nil
				}
				return listT(x.args[lo:hi]...)
			}
		case *ssa.BinOp:
			// index arithmetic on known values
		}
		return nil
	}
	ret := func(st *State, t *Term) ([]Out, bool) { return []Out{{Kind: ORet, Res: t, St: st}}, true }
	// kindOfChan: which builder result a channel value stands for
	kindOfChan := func(t *Term) string {
		t, _ = unIface(t)
		return chanKind[fieldLeaf(orStr(ldField(t), "."))]
	}
	pending := func(st *State) []string {
		var r []string
		for _, k := range []string{"NODES", "REJECT", "BLOCKMAP"} {
			if st.M("reg:"+k) != "" && st.M("fin:"+k) == "" {
				r = append(r, k)
			}
		}
		return r
	}
	delivered := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, kind string, ok bool, what string) {
		pos := p.InstrPos(in)
		e.Ev("delivery of the result for "+kind, fr.rootSite(in))
		if st.M("dlv:"+kind) != "" {
			e.Violate("L01|"+kind+" delivered twice", pos, "the result for "+kind+" is delivered twice: "+st.Path())
		}
		if !ok {
			e.Violate("L01|"+kind+" delivered with other data than received", pos, kind+" is delivered with "+what+", which is not the result received for it: "+st.Path())
		}
		st.SetM("dlv:"+kind, "1")
		st.Note(kind + " delivered")
		if det {
			if w := pending(st); len(w) > 0 {
				e.Violate("L06|"+kind+" written before all results are there", pos, "with deterministic mode on, "+kind+" is delivered while the results for "+strings.Join(w, ", ")+" are still awaited, so the order of lumps depends on timing: "+st.Path())
			}
			st.SetM("order", st.M("order")+kind+" ")
		}
	}
	finalData := func(e *Engine, st *State, kind string) *Term { return st.mon["res:"+kind] }
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		pos := p.InstrPos(ci)
		if callee == nil {
			b, ok := ci.Common().Value.(*ssa.Builtin)
			if !ok {
				return nil, false
			}
			switch b.Name() {
			case "len":
				if isList(args[0]) {
					return ret(st, ConstI(int64(len(args[0].args))))
				}
			case "append":
				l := args[0]
				if l == Nil() {
					l = listT()
				}
				if !isList(l) {
					return nil, false
				}
				x := args[1]
				if isList(x) {
					return ret(st, listT(append(append([]*Term(nil), l.args...), x.args...)...))
				}
				if x.kind == KApp && x.op == "sl" {
					if sv, ok := ci.Common().Args[1].(*ssa.Slice); ok {
						if at, ok := deref(sv.X.Type()).Underlying().(*types.Array); ok {
							el := append([]*Term(nil), l.args...)
							for i := int64(0); i < at.Len(); i++ {
								el = append(el, e.Load(fr, st, IndexOf(x.args[0], ConstI(i), at.Elem()), at.Elem()))
							}
							return ret(st, listT(el...))
						}
					}
				}
			case "copy":
				if sv, ok := ci.Common().Args[0].(*ssa.Slice); ok && isList(args[0]) && isList(args[1]) {
					base := e.Eval(fr, st, sv.X)
					lo := int64(0)
					if sv.Low != nil {
						lo, _ = e.Eval(fr, st, sv.Low).Int()
					}
					n := len(args[0].args)
					if len(args[1].args) < n {
						n = len(args[1].args)
					}
					if isList(base) {
						el := append([]*Term(nil), base.args...)
						for i := 0; i < n; i++ {
							el[int(lo)+i] = args[1].args[i]
						}
						st.replace(base, listT(el...))
						return ret(st, ConstI(int64(n)))
					}
				}
			}
			return nil, false
		}
		name := FullName(callee)
		switch name {
		case "reflect.ValueOf":
			return ret(st, App("rval", args[0]))
		case "(reflect.Value).Interface":
			return ret(st, args[0])
		case selName:
			if !isList(args[0]) {
				e.Undecided("reflect.Select on cases that could not be followed at " + pos)
				return nil, true
			}
			e.Ev("wait for a builder", ci)
			st0 := p.Named
			_ = st0
			var outs []Out
			for i, x := range args[0].args {
				ch := (*Term)(nil)
				if x.kind == KStruct {
					for _, a := range x.args {
						if a.kind == KApp && a.op == "rval" {
							if k := kindOfChan(a.args[0]); k != "" {
								ch = a
							}
						}
					}
				}
				if ch == nil {
					e.Undecided("case of reflect.Select that is not a result channel of the level at " + pos)
					continue
				}
				k := kindOfChan(ch.args[0])
				s := st.Clone()
				s.SetM("reg:"+k, "1")
				s.Note("result for " + k)
				if s.M("fin:"+k) != "" {
					e.Violate("L02|channel of "+k+" waited on after its last result", pos, "the level waits for "+k+" again though its final result was received: "+st.Path())
					continue
				}
				// all channels waited on are registered
				for _, y := range args[0].args {
					if y.kind == KStruct {
						for _, a := range y.args {
							if a.kind == KApp && a.op == "rval" {
								if k2 := kindOfChan(a.args[0]); k2 != "" {
									s.SetM("reg:"+k2, "1")
								}
							}
						}
					}
				}
				msg := App("recvd", ConstS(k), ConstI(0))
				if k == "REJECT" && rr != nil {
					// a request for a lump: at most one before the result
					n := 0
					if s.M("nag") != "" {
						n = 1
					}
					msg = App("recvd", ConstS(k), ConstI(int64(n)))
					val := App("assert:RejectResponse", msg)
					ng := orT(e.sfield(val, rr, "nagger"))
					if n == 0 {
						s2 := s.Clone()
						s2.SetM("nag", "1")
						s2.SetM("cur", k)
						if e.Assume(s2, Eq(ng, Nil()), false) {
							s2.Note("request for a lump by reject builder")
							outs = append(outs, Out{Kind: ORet, Res: Tuple(ConstI(int64(i)), msg, ConstB(true)), St: s2})
						}
					}
					if !e.Assume(s, Eq(ng, Nil()), true) {
						continue
					}
					if s.M("copied") == "" {
						s.mon["res:"+k] = orT(e.sfield(val, rr, "data"))
					}
				} else {
					s.mon["res:"+k] = msg
				}
				s.SetM("fin:"+k, "1")
				outs = append(outs, Out{Kind: ORet, Res: Tuple(ConstI(int64(i)), msg, ConstB(true)), St: s})
			}
			return outs, true
		}
		if deliver[callee] {
			d := args[paramOf(callee, "NodesResult")]
			want := finalData(e, st, "NODES")
			ok := want != nil && d == App("assert:NodesResult", want)
			delivered(e, fr, st, ci, "NODES", ok, d.String())
			return ret(st, nil)
		}
		if nagFn[callee] {
			e.Ev("request of reject builder answered", ci)
			i := paramOf(callee, "RejectNagger")
			want := Nil()
			if rr != nil {
				want = orT(e.sfield(App("assert:RejectResponse", App("recvd", ConstS("REJECT"), ConstI(0))), rr, "nagger"))
			}
			if args[i] != want {
				e.Violate("R05|request of reject builder passed on changed", pos, "the request that is answered is "+args[i].String()+", not the one received: "+st.Path())
			}
			if st.M("answered") != "" {
				e.Violate("R05|request of reject builder answered twice", pos, "a request of the reject builder for a lump is answered twice: "+st.Path())
			}
			st.SetM("answered", "1")
			s2 := st.Clone()
			cp := App("nonnil", App("copied"))
			s2.SetM("copied", "1")
			s2.mon["res:REJECT"] = cp
			s2.Note("reject copied from source")
			return []Out{{Kind: ORet, Res: Nil(), St: st}, {Kind: ORet, Res: cp, St: s2}}, true
		}
		return nil, false
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		pos := p.InstrPos(in)
		switch v := in.(type) {
		case *ssa.TypeAssert:
			x := e.Eval(fr, st, v.X)
			if x.kind == KApp && x.op == "recvd" {
				k, _ := x.args[0].Str()
				want := map[string]string{"NODES": "NodesResult", "REJECT": "RejectResponse", "BLOCKMAP": "[]byte"}[k]
				if qualName(v.AssertedType) != want && !v.CommaOk {
					e.Violate("L01|result for "+k+" taken for something else", pos, "the result received for "+k+" is taken for a "+qualName(v.AssertedType)+": "+st.Path())
				}
			}
		case *ssa.Store:
			loc := e.Eval(fr, st, v.Addr)
			if loc.kind == KIndex && isList(loc.args[0]) {
				if i, ok := loc.args[1].Int(); ok && int(i) < len(loc.args[0].args) {
					el := append([]*Term(nil), loc.args[0].args...)
					el[i] = e.Eval(fr, st, v.Val)
					st.replace(loc.args[0], listT(el...))
				} else {
					e.Undecided("store into a list at unknown position at " + pos)
				}
			}
		case *ssa.Send:
			s, ok := isBusSend(in)
			if !ok {
				return
			}
			rq, ok := e.busRequestOf(fr, st, s)
			if !ok {
				e.Undecided("request to the writer of unknown kind at " + pos)
				return
			}
			lump := levelIdxField[fieldLeaf(orStr(ldField(rq.idx), "."))]
			if lump != "REJECT" && lump != "BLOCKMAP" {
				e.Violate("L01|result delivered to another entry", pos, "a result is delivered under entry "+rq.idx.String()+": "+st.Path())
				return
			}
			want := finalData(e, st, lump)
			ok = want != nil && (rq.data == want || rq.data == App("assert:[]byte", want))
			delivered(e, fr, st, in, lump, ok && rq.field == "bData", rq.data.String())
		case *ssa.Return:
			if fr.parent != nil {
				return
			}
			e.Paths++
			lt := p.Named("Level")
			set := ""
			for _, f := range []string{"NodesChan", "RejectChan", "BlockmapLumpChannel"} {
				k := chanKind[f]
				if lt == nil {
					continue
				}
				t, _ := e.loadField(fr, st, Sym(root.Name(), "p:"+root.Params[0].Name()), lt, f)
				tr := e.Truth(st, Eq(orT(t), Nil()))
				if tr == 1 {
					if st.M("dlv:"+k) != "" {
						e.Violate("L01|"+k+" delivered without a builder", pos, "a result for "+k+" is delivered though no builder was started: "+st.Path())
					}
					continue
				}
				set += k + " "
				if st.M("fin:"+k) == "" {
					e.Violate("L02|result for "+k+" not awaited", pos, "the level is finished without having received the final result for "+k+" although its builder may have been started: "+st.Path())
				} else if st.M("dlv:"+k) == "" {
					e.Violate("L01|result for "+k+" not delivered", pos, "the level is finished without delivering the result received for "+k+": "+st.Path())
				}
				if k == "REJECT" && st.M("nag") != "" && st.M("answered") == "" {
					e.Violate("R05|request of reject builder not answered", pos, "a request of the reject builder for a lump is never answered: "+st.Path())
				}
			}
			if det {
				o := st.M("order")
				if w, ok := orders[set]; ok && w != o {
					e.Violate("L06|order of lumps depends on order of results", pos, "with deterministic mode on, the lumps "+set+"are delivered as "+o+"or as "+w+"depending on which builder finishes first: "+st.Path())
				} else {
					orders[set] = o
				}
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, keepParams(root))
	return e
}

// keepParams gives the root's parameters names the monitor holds on to, so that
// facts about them survive to the end.
func keepParams(root *ssa.Function) func(fr *Frame, st *State) []*Term {
	return func(fr *Frame, st *State) []*Term {
		var a []*Term
		for i, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+pr.Name())
			st.mon["p"+itoa(i)] = t
			a = append(a, t)
		}
		return a
	}
}

// rootSite is the call in the analysed root function that leads to in.
func (fr *Frame) rootSite(in ssa.Instruction) ssa.Instruction {
	for fr.parent != nil {
		in = fr.site
		fr = fr.parent
	}
	return in
}

func ruleWaitLevel(c *Ctx) {
	p := c.P
	const rn = "delivery-of-results"
	c.Rule("delivery-of-results: on every path of Level.WaitForAndWriteData, over every order in which builders may finish and both outcomes of a request for an existing reject, each builder that was started is waited for until its final result, which is delivered exactly once under the entry recorded for it; with deterministic mode on only after all results arrived and in one fixed order")
	root := p.Method("Level", "WaitForAndWriteData")
	if root == nil {
		c.Undecided(rn, "no method Level.WaitForAndWriteData")
		return
	}
	for _, det := range []bool{false, true} {
		c.Take(waitFlow(c, root, det, map[string]string{}))
	}
	for _, k := range []string{"NODES", "REJECT", "BLOCKMAP"} {
		c.Min(rn, rn+": delivery of the result for "+k, 1)
	}
	c.Min(rn, rn+": wait for a builder", 1)
	_ = sort.Strings
	_ = token.ADD
}
