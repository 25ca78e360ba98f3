package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Extended node streams: what is written to them, in which order, with which
// counts, and how they are finished.

// streamType: the struct type with a zlib compressor among its fields.
func streamTypes(p *Prog) []*types.Named {
	var r []*types.Named
	sc := p.Main.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if qualName(s.Field(i).Type()) == "*zlib.Writer" {
				if nt, ok := tn.Type().(*types.Named); ok {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

// streamItem: what the items of a stream are, in order. "#" is the 32-bit count
// of the records that follow.
var streamItems = []string{"ZdoomNode_VertexHeader", "[]ZdoomNode_Vertex", "#", "[]uint32", "#", "[]ZdoomNode_Seg", "#", "[]DeepNode"}
var streamNames = []string{"vertex header", "vertices", "subsector count", "subsectors", "seg count", "segs", "node count", "nodes"}

func stripConv(t *Term) *Term {
	for t.kind == KApp && strings.HasPrefix(t.op, "conv:") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// unConv removes integer conversions anywhere inside a term.
func unConv(t *Term) *Term {
	if t.kind != KApp || len(t.args) == 0 {
		return t
	}
	switch t.op {
	case "conv:int", "conv:uint32", "conv:int32", "conv:uint", "conv:int64", "conv:uint64":
		return unConv(t.args[0])
	}
	ch := false
	a := make([]*Term, len(t.args))
	for i, x := range t.args {
		a[i] = unConv(x)
		ch = ch || a[i] != x
	}
	if !ch {
		return t
	}
	return App(t.op, a...)
}

func ruleExtStream(c *Ctx) {
	const rn = "node-stream"
	c.Rule("node-stream: on every path of each function that builds an extended node stream, the stream starts with the signature of the kind selected, holds vertex header, vertices, subsectors, segs and nodes in this order with matching counts, and is finished exactly once after that; the stream's Write passes on all bytes to the compressor if there is one")
	p := c.P
	sts := streamTypes(p)
	if len(sts) == 0 {
		c.Undecided(rn, "no node stream type found")
		return
	}
	zt := sts[0]
	zname := "*" + zt.Obj().Name()
	// functions that create a stream and do not hand it to their caller
	makes := p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		sc := ci.Common().StaticCallee()
		return sc != nil && strings.HasPrefix(FullName(sc), "compress/zlib.NewWriter")
	})
	nodet := p.Named("ZdoomNode_VertexHeader")
	compressedC, ok1 := p.ConstInt("NODETYPE_ZDOOM_COMPRESSED")
	if nodet == nil || !ok1 {
		c.Undecided(rn, "no vertex header type or node format constant")
		return
	}
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		if !makes[fn] || fn.Parent() != nil {
			continue
		}
		direct := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, isCall := in.(*ssa.Call); isCall && qualName(v.Type()) == zname {
						direct = true
					}
				}
			}
		}
		rets := false
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rets = rets || qualName(fn.Signature.Results().At(i).Type()) == zname
		}
		if direct && !rets {
			roots = append(roots, fn)
		}
	}
	ntField := func(e *Engine, t *Term) bool {
		f := fieldLeaf(ldField(t))
		return f == "nodeType"
	}
	for _, root := range roots {
		root := root
		r := &Rule{Name: rn, Cap: 200}
		r.ForceInline = func(fn *ssa.Function) bool {
			return makes[fn]
		}
		r.NoInline = func(fn *ssa.Function) bool { return strings.HasPrefix(FullName(fn), "(*MiniLogger).") }
		r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			for _, f := range p.Callees(ci) {
				n := FullName(f)
				if n == "encoding/binary.Write" || strings.HasPrefix(n, "compress/zlib.NewWriter") || strings.HasPrefix(n, "(*compress/zlib.Writer).") || strings.HasPrefix(n, "(*bytes.Buffer).") {
					return true
				}
			}
			return false
		}
		viol := func(e *Engine, key, pos, msg string, st *State) {
			e.Violate("N04|"+key+" in "+FullName(root), pos, msg+": "+st.Path())
		}
		level := func(e *Engine, st *State, t *Term) bool {
			if k, ok := t.Int(); ok {
				return k >= -2 && k <= 9
			}
			f := fieldLeaf(ldField(t))
			if f == "" {
				return false
			}
			good, n := true, 0
			p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				cl, _ := addrClass(s.Addr)
				if !strings.HasSuffix(cl, "."+f) {
					return
				}
				n++
				lo, hi := p.boundsAt(s.Val, s.Block())
				good = good && lo >= -2 && hi <= 9
			})
			return good
		}
		r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, f *ssa.Function, args []*Term) ([]Out, bool) {
			pos := p.InstrPos(ci)
			n := FullName(f)
			switch {
			case strings.HasPrefix(n, "compress/zlib.NewWriter"):
				e.Ev("compressor created", ci)
				if len(args) > 1 && !level(e, st, args[1]) {
					viol(e, "compression level out of range", pos, "the compressor is created with level "+args[1].String()+", which is not always a valid one; without compressor the data would be written uncompressed", st)
				}
				z := AllocT(fr.ctx, "zw", nil, true)
				st.mon["zw"] = z
				x, _ := unIface(args[0])
				st.mon["zraw"] = x
				if st.M("sig") == "" {
					viol(e, "compressor created before signature", pos, "the compressor is attached to the stream before the signature was written", st)
				}
				if f.Signature.Results().Len() == 2 {
					return []Out{{Kind: ORet, Res: Tuple(z, Nil()), St: st}}, true
				}
				return []Out{{Kind: ORet, Res: z, St: st}}, true
			case n == "(*compress/zlib.Writer).Close":
				e.Ev("compressor closed", ci)
				if st.M("closed") != "" {
					viol(e, "compressor closed twice", pos, "the compressor is closed twice", st)
				}
				if st.M("stage") != itoa(len(streamItems)) {
					viol(e, "compressor closed early", pos, "the compressor is closed before everything was written", st)
				}
				st.SetM("closed", "1")
				return e.forkErr(fr, st, ci, nil, nil, func(s *State) { s.SetM("fail", "1") }), true
			case n == "(*bytes.Buffer).Write":
				// the header; other writes to the buffer come through the stream
				if st.M("sig") != "" || st.M("stage") != "" {
					viol(e, "raw bytes written to stream", pos, "bytes are written to the buffer of the stream outside of its order", st)
				}
				s := args[1]
				var g *Term
				if s.kind == KApp && s.op == "sl" {
					g = s.args[0]
				} else {
					g = s
				}
				st.SetM("sig", "?")
				if g.kind == KGlobal {
					if m, ok := p.Main.Members[g.op].(*ssa.Global); ok {
						if b, ok := p.globalBytes(m); ok {
							st.SetM("sig", string(b))
						}
					}
				}
				return []Out{{Kind: ORet, Res: Tuple(e.sym(fr, st, ci, "n"), Nil()), St: st}}, true
			case n == "(*bytes.Buffer).Bytes":
				e.Ev("stream data taken", ci)
				if st.M("stage") != itoa(len(streamItems)) {
					viol(e, "stream finished early", pos, "the data of the stream is taken before everything was written to it", st)
				}
				if st.mon["zw"] != nil && st.M("closed") == "" {
					viol(e, "compressor not closed", pos, "the data of the stream is taken before its compressor was closed", st)
				}
				if st.M("taken") != "" {
					viol(e, "stream finished twice", pos, "the data of the stream is taken twice", st)
				}
				st.SetM("taken", "1")
				b := App("streamdata", args[0])
				st.mon["buf"] = b
				// signature and compression of the format selected
				sig, comp := st.M("sig"), st.mon["zw"] != nil
				switch {
				case st.M("fmt") == "":
					viol(e, "format not looked at", pos, "an extended node stream is built without looking at the node format selected", st)
				case st.M("fmt") == "c" && (sig != "ZNOD" || !comp):
					viol(e, "compressed nodes wrong", pos, fmt.Sprintf("compressed nodes were selected but the stream has signature %q, compressed: %v", sig, comp), st)
				case st.M("fmt") == "p" && (sig != "XNOD" || comp):
					viol(e, "uncompressed nodes wrong", pos, fmt.Sprintf("uncompressed extended nodes were selected but the stream has signature %q, compressed: %v", sig, comp), st)
				}
				return []Out{{Kind: ORet, Res: b, St: st}}, true
			case n == "encoding/binary.Write":
				_, tn := unIface(args[0])
				if tn != zname {
					return nil, false
				}
				e.Ev("item written to stream", ci)
				stage := 0
				if s := st.M("stage"); s != "" {
					fmt.Sscan(s, &stage)
				}
				if st.M("taken") != "" {
					viol(e, "item written after end", pos, "data is written to the stream after its data was taken", st)
				}
				x, tx := unIface(args[2])
				tx = strings.TrimPrefix(tx, "*")
				if stage >= len(streamItems) {
					viol(e, "too many items", pos, "more is written to the stream than its format has", st)
					stage--
				}
				want := streamItems[stage]
				w2 := want
				if want == "#" {
					w2 = "uint32"
				}
				if tx != w2 {
					viol(e, "wrong item for "+streamNames[stage], pos, "the stream needs "+streamNames[stage]+" ("+w2+") next but "+tx+" is written", st)
				}
				switch {
				case stage == 0:
					h := x
					if h.kind == KAlloc || h.kind == KField {
						h = e.Load(fr, st, h, nodet)
					}
					if v := e.sfield(h, nodet, "NumExtendedVertices"); v != nil {
						st.mon["cnt"] = unConv(v)
					}
					if v := e.sfield(h, nodet, "ReusedOriginalVertices"); v != nil {
						st.mon["reused"] = unConv(v)
					}
				case want == "#":
					st.mon["cnt"] = unConv(x)
				default:
					l := unConv(e.lenTerm(st, nil, x))
					if c := st.mon["cnt"]; c == nil || c != l && !e.ProveEq(st, c, l) {
						viol(e, "count of "+streamNames[stage]+" does not match", pos, "the count written for the "+streamNames[stage]+" is "+orT(c).String()+" but "+l.String()+" records follow", st)
					}
					f := fieldLeaf(ldField(x))
					if f != "" {
						for i, k := range []string{"", "", "", "zdoomSubsectors", "", "zdoomSegs", "", "deepNodes"} {
							if k == f && i != stage {
								viol(e, "wrong data for "+streamNames[stage], pos, "field "+f+" is written as the "+streamNames[stage], st)
							}
						}
					}
					delete(st.mon, "cnt")
				}
				st.SetM("stage", itoa(stage+1))
				return []Out{{Kind: ORet, Res: Nil(), St: st}}, true
			}
			return nil, false
		}
		r.Keep = func(cls string) bool {
			return strings.HasPrefix(cls, "F:"+zt.Obj().Name()+".") || strings.HasPrefix(cls, "F:ZdoomNode_VertexHeader.")
		}
		r.Branch = func(e *Engine, fr *Frame, st *State) {
			for t, v := range st.facts {
				if t.kind != KApp || t.op != "==" || len(t.args) != 2 {
					continue
				}
				a, b := t.args[0], t.args[1]
				if ntField(e, b) {
					a, b = b, a
				}
				if k, ok := b.Int(); ok && ntField(e, a) && k == compressedC {
					e.Ev("format decided", fr.fn.Blocks[0].Instrs[0])
					st.SetM("fmt", map[bool]string{true: "c", false: "p"}[v])
				}
			}
		}
		e := NewEngine(p, r)
		outs := e.Run(root, nil)
		for _, o := range outs {
			if o.Kind != ORet {
				continue
			}
			e.Paths++
			if o.St.M("taken") == "" || o.Res != o.St.mon["buf"] {
				viol(e, "stream data not returned", p.Pos(root.Pos()), "the function returns "+orT(o.Res).String()+" instead of the data of the stream", o.St)
			}
		}
		c.Take(e)
		c.Site(rn+": functions building a stream", FullName(root))
	}
	// the stream's Write
	w := p.Method(zt.Obj().Name(), "Write")
	if w == nil {
		c.Undecided(rn, "node stream has no Write method")
		return
	}
	r := &Rule{Name: rn}
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		_, ok := in.(ssa.CallInstruction)
		return ok
	}
	comp := func(t *Term) bool { return fieldType(zt, fieldLeaf(ldField(t))) == "*zlib.Writer" }
	raw := func(t *Term) bool { return fieldType(zt, fieldLeaf(ldField(t))) == "*bytes.Buffer" }
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, f *ssa.Function, args []*Term) ([]Out, bool) {
		n := FullName(f)
		if n != "(*compress/zlib.Writer).Write" && n != "(*bytes.Buffer).Write" {
			return nil, false
		}
		pos := p.InstrPos(ci)
		e.Ev("bytes passed on by the stream", ci)
		if st.M("fwd") != "" {
			e.Violate("N04|bytes written twice by "+FullName(w), pos, "the stream passes on the same bytes twice: "+st.Path())
		}
		st.SetM("fwd", "1")
		if args[1] != Sym(w.Name(), "p:"+w.Params[1].Name()) {
			e.Violate("N04|other bytes written by "+FullName(w), pos, "the stream does not pass on the bytes it was given: "+st.Path())
		}
		if strings.HasPrefix(n, "(*bytes") {
			good := raw(args[0])
			if !good || st.M("nocomp") == "" {
				e.Violate("N04|compressor passed by in "+FullName(w), pos, "the stream writes bytes to its buffer although it may have a compressor: "+st.Path())
			}
		} else if !comp(args[0]) {
			e.Violate("N04|other compressor in "+FullName(w), pos, "the stream writes to something else than its compressor: "+st.Path())
		}
		return e.forkErr(fr, st, ci, nil, nil, nil), true
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) {
		for t, v := range st.facts {
			if v && t.kind == KApp && t.op == "==" && len(t.args) == 2 && (t.args[0] == Nil() && comp(t.args[1]) || t.args[1] == Nil() && comp(t.args[0])) {
				st.SetM("nocomp", "1")
			}
		}
	}
	e := NewEngine(p, r)
	for _, o := range e.Run(w, nil) {
		if o.Kind == ORet && o.St.M("fwd") == "" {
			e.Violate("N04|bytes dropped by "+FullName(w), p.Pos(w.Pos()), "the stream does not pass on the bytes it was given: "+o.St.Path())
		}
	}
	c.Take(e)
	c.Min(rn, rn+": functions building a stream", 1)
	for _, k := range []string{"compressor created", "compressor closed", "stream data taken", "format decided", "bytes passed on by the stream"} {
		c.Min(rn, rn+": "+k, 1)
	}
	c.Min(rn, rn+": item written to stream", len(streamItems))
}

func fieldType(n *types.Named, f string) string {
	s, ok := n.Underlying().(*types.Struct)
	if !ok || f == "" {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return qualName(s.Field(i).Type())
		}
	}
	return ""
}
