package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lump writer: one iteration of its request loop from an arbitrary state.

// lenTerm is the length of value a (of SSA value v).
func (e *Engine) lenTerm(st *State, v ssa.Value, a *Term) *Term {
	switch a.kind {
	case KNil:
		return ConstI(0)
	case KAlloc:
		if len(a.args) == 1 {
			return a.args[0]
		}
	case KConst:
		if s, ok := a.Str(); ok {
			return ConstI(int64(len(s)))
		}
	case KApp:
		if a.op == "sl" {
			if v != nil {
				if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
					if at, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok {
						return ConstI(at.Len())
					}
				}
			}
			if a.args[0].typ != nil {
				if at, ok := a.args[0].typ.Underlying().(*types.Array); ok {
					return ConstI(at.Len())
				}
			}
		}
	}
	if e.Truth(st, Eq(a, Nil())) == 1 {
		return ConstI(0)
	}
	return App("len", a)
}

// reqShape is what a sender puts into a request for the lump writer.
type reqShape struct {
	tpe  int64
	data string // field that carries the data, "" for none
	fn   string
}

var reqDataFields = []string{"bData", "intfData", "deepData"}

// sendSites: all sends to the lump writer, with the shape of the request.
func sendShapes(c *Ctx, rule string) ([]reqShape, int) {
	p := c.P
	var out []reqShape
	sites := 0
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if s, ok := in.(*ssa.Send); ok && busChan(s.Chan) {
			sites++
			if !seen[fn] {
				seen[fn] = true
				fns = append(fns, fn)
			}
		}
	})
	rt := p.Named("WriteBusRequest")
	if rt == nil {
		c.Undecided(rule, "no type WriteBusRequest")
		return nil, 0
	}
	for _, fn := range fns {
		r := &Rule{Name: rule}
		fname := FullName(fn)
		r.Eventful = func(_ *ssa.Function, in ssa.Instruction) bool { _, ok := in.(*ssa.Send); return ok }
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Send)
			if !ok || !busChan(s.Chan) || fr.fn != fn {
				return
			}
			v := e.Eval(fr, st, s.X)
			k, ok := orT(e.sfield(v, rt, "tpeIndex")).Int()
			if !ok {
				return // relayed from a parameter: decided at the caller
			}
			sh := reqShape{tpe: k, fn: fname}
			for _, f := range reqDataFields {
				x := e.sfield(v, rt, f)
				if x == nil || x == Nil() || x.kind == KZero {
					continue
				}
				if sh.data != "" {
					c.Viol(rule, "request with several data fields in "+fname, p.InstrPos(in), "a request for the lump writer sets both "+sh.data+" and "+f)
				}
				sh.data = f
			}
			for _, o := range out {
				if o == sh {
					return
				}
			}
			out = append(out, sh)
		}
		e := NewEngine(p, r)
		e.Run(fn, nil)
		for _, u := range e.Undec {
			c.Undecided(rule, u)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fn < out[j].fn })
	return out, sites
}

type writerFlow struct {
	e      *Engine
	root   *ssa.Function
	ctr    *busContract
	fin    *Term // channel on which the writer signals its end
	shapes []reqShape
	sites  int
}

var writerMemo *writerFlow

func newWriterFlow(c *Ctx) *writerFlow {
	if writerMemo != nil {
		return writerMemo
	}
	p := c.P
	w := &writerFlow{}
	writerMemo = w
	w.shapes, w.sites = sendShapes(c, "writer")
	rt := p.Named("WriteBusRequest")
	lt := p.Named("LumpEntry")
	bt := p.Named("WriteBus")
	// goroutines that serve requests
	reach := p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool {
		u, ok := in.(*ssa.UnOp)
		return ok && u.Op.String() == "<-" && busChan(u.X)
	})
	var roots []*ssa.Function
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			for _, f := range p.Callees(g) {
				if reach[f] && fn.Parent() != f {
					dup := false
					for _, r := range roots {
						dup = dup || r == f
					}
					if !dup {
						roots = append(roots, f)
					}
				}
			}
		}
	})
	fileArg := func(t *Term) bool {
		_, tn := unIface(t)
		return tn == "*os.File"
	}
	r := &Rule{Name: "writer", Cap: 300}
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.UnOp:
			return in.Op.String() == "<-" && busChan(in.X)
		case *ssa.Store:
			cl, _ := addrClass(in.Addr)
			return strings.HasPrefix(cl, "F:LumpEntry.") || strings.HasPrefix(cl, "F:WriteBus.") || namedName(in.Val.Type()) == "LumpEntry"
		case ssa.CallInstruction:
			for _, f := range p.Callees(in) {
				n := FullName(f)
				if strings.HasPrefix(n, "(*os.File).") {
					return true
				}
				if n == "encoding/binary.Write" {
					// only writes to files are events; hashes are written the same way
					if mi, ok := in.Common().Args[0].(*ssa.MakeInterface); ok && qualName(mi.X.Type()) != "*os.File" {
						return false
					}
					return true
				}
			}
		}
		return false
	}
	r.NoInline = func(fn *ssa.Function) bool { return strings.HasPrefix(FullName(fn), "(*MiniLogger).") }
	r.Keep = func(cls string) bool {
		return cls == "F:WriteBus.curPos" || cls == "F:WriteBus.err" || cls == "D:uint32"
	}
	r.Immutable = func(cls string) bool {
		return cls == "F:WriteBus.fout" || cls == "F:WriteBus.le"
	}
	var busT *Term // the bus the writer serves
	field := func(e *Engine, fr *Frame, st *State, name string) *Term {
		if busT == nil || bt == nil {
			return orT(nil)
		}
		t, _ := e.loadField(fr, st, busT, bt, name)
		return orT(t)
	}
	finish := func(e *Engine, fr *Frame, st *State, pos string) {
		if st.mon["start"] == nil {
			return
		}
		e.Paths++
		req := st.mon["req"]
		fail := st.M("fail") != ""
		if fail || st.M("everfail") != "" {
			st.SetM("everfail", "1")
			x := field(e, fr, st, "err")
			if !x.IsNonNil() && e.Truth(st, Eq(x, Nil())) != 0 {
				e.Violate("W03|failed write of a lump not remembered", pos, "a write of lump data failed but the error is not kept for the end of the run: "+st.Path())
			}
		}
		cur := field(e, fr, st, "curPos")
		n := st.mon["n"]
		if n == nil {
			n = ConstI(0)
		}
		start := st.mon["start"]
		end := BinTerm(plusTok, start, n, types.Typ[types.Int], types.Typ[types.Int])
		// which request is it?
		kind := ""
		if req != nil && rt != nil {
			tp := e.sfield(req, rt, "tpeIndex")
			for _, s := range w.shapes {
				if e.Truth(st, Eq(tp, ConstI(s.tpe))) == 1 {
					kind = s.data
					if kind == "" {
						kind = "-"
					}
				}
			}
		}
		if !fail {
			if !e.ProveEq(st, cur, end) {
				e.Violate("W06|position not advanced by bytes written ("+kind+")", pos, "after a request of kind "+kind+" the write position is "+cur.String()+", but "+n.String()+" bytes were written from "+start.String()+": "+st.Path())
			}
			if st.mon["fp"] != nil || st.mon["sz"] != nil {
				if st.mon["fp"] == nil || st.mon["sz"] == nil {
					e.Violate("W06|entry half updated ("+kind+")", pos, "only one of offset and size of the directory entry is set: "+st.Path())
				} else {
					if !e.ProveEq(st, st.mon["fp"], start) {
						e.Violate("W06|wrong offset ("+kind+")", pos, "the offset in the directory entry is "+st.mon["fp"].String()+" but the lump was written at "+start.String()+": "+st.Path())
					}
					if !e.ProveEq(st, st.mon["sz"], n) {
						e.Violate("W06|wrong size ("+kind+")", pos, "the size in the directory entry is "+st.mon["sz"].String()+" but "+n.String()+" bytes were written: "+st.Path())
					}
				}
			}
			if kind != "" && kind != "-" {
				e.Ev("request carrying "+kind, fr.fn.Blocks[0].Instrs[0])
				if st.mon["fp"] == nil {
					e.Violate("W06|entry not updated ("+kind+")", pos, "a request carrying "+kind+" is served without updating the directory entry: "+st.Path())
				}
				if st.M("data") == "" {
					d := e.sfield(req, rt, kind)
					if e.Truth(st, Eq(d, Nil())) != 1 {
						e.Violate("W06|data not written ("+kind+")", pos, "a request is served without writing the data it carries in "+kind+": "+st.Path())
					}
				}
			}
		}
		for _, k := range []string{"start", "n", "fp", "sz", "ent", "data", "fail", "req"} {
			delete(st.mon, k)
		}
	}
	begin := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, req *Term) {
		// rename the position: each request is analysed from an arbitrary one
		cur := e.sym(fr, st, in, "cur")
		if busT != nil && bt != nil {
			if s, ok := bt.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "curPos" {
						cls, ft := fieldClass(bt, i)
						st.mem[FieldOf(busT, cls, ft)] = cur
					}
				}
			}
		}
		st.mon["start"] = field(e, fr, st, "curPos")
		if req != nil {
			st.mon["req"] = req
		}
	}
	write := func(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, f, data, n *Term) []Out {
		p := e.P.InstrPos(c)
		e.Ev("write to the output", c)
		if st.M("finished") != "" {
			e.Violate("W08|write after end was signalled", p, "the lump writer writes after it signalled that it is done: "+st.Path())
		}
		if x, _ := unIface(f); x != field(e, fr, st, "fout") {
			e.Violate("W08|writer writes to another file", p, "the lump writer writes to "+f.String()+" instead of the output: "+st.Path())
		}
		if st.M("fail") != "" {
			// position is lost already, the run will fail
			return e.forkErr(fr, st, c, []*Term{n}, nil, nil)
		}
		x, _ := unIface(data)
		req := st.mon["req"]
		own := false
		if req != nil {
			for _, k := range reqDataFields {
				d := e.sfield(req, rt, k)
				if x == d || x.kind == KApp && x.op == "sl" && x.args[0] == d {
					own = true
					if st.M("data") != "" {
						e.Violate("W06|data written twice", p, "the data of a request is written twice: "+st.Path())
					}
				}
			}
		}
		if !own && x.root().kind != KGlobal && !(x.kind == KApp && x.op == "sl" && x.args[0].root().kind == KGlobal) {
			e.Violate("W06|foreign data written", p, "the writer writes "+x.String()+", which is not the data of the request: "+st.Path())
		}
		old := st.mon["n"]
		if old == nil {
			old = ConstI(0)
		}
		return e.forkErr(fr, st, c, []*Term{n}, func(s *State) {
			s.mon["n"] = BinTerm(plusTok, old, n, types.Typ[types.Int], types.Typ[types.Int])
			if own {
				s.SetM("data", "1")
			}
		}, func(s *State) { s.SetM("fail", "1"); s.Note("write failed at " + p) })
	}
	r.Call = func(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		n := calleeName(callee)
		switch {
		case n == "(*os.File).Write", n == "(*os.File).WriteString":
			var v ssa.Value
			if len(c.Common().Args) > 0 {
				v = c.Common().Args[len(c.Common().Args)-1]
			}
			return write(e, fr, st, c, args[0], args[1], e.lenTerm(st, v, args[1])), true
		case n == "encoding/binary.Write" && fileArg(args[0]):
			return write(e, fr, st, c, args[0], args[2], e.binSizeTerm(fr, st, c.Common().Args[2], args[2])), true
		case strings.HasPrefix(n, "(*os.File).") && n != "(*os.File).Name" && n != "(*os.File).Sync":
			e.Violate("W08|"+n+" in lump writer", e.P.InstrPos(c), "the lump writer calls "+n+", which may change the position or content of the output: "+st.Path())
		}
		return nil, false
	}
	entryLoc := func(e *Engine, fr *Frame, st *State, pos string, loc *Term) {
		if loc.kind != KIndex || loc.args[0] != field(e, fr, st, "le") {
			e.Violate("W06|entry of another directory", pos, "offset or size of "+loc.String()+" is set, which is not an entry of the output directory: "+st.Path())
			return
		}
		if req := st.mon["req"]; req != nil && rt != nil {
			if loc.args[1] != e.sfield(req, rt, "lumpIdx") {
				e.Violate("W06|entry of another lump", pos, "offset or size of entry "+loc.args[1].String()+" is set, not of the entry the request names: "+st.Path())
			}
		}
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Return); ok && fr.parent == nil {
			finish(e, fr, st, e.P.InstrPos(in))
			return
		}
		if sd, ok := in.(*ssa.Send); ok && w.fin != nil {
			if e.Eval(fr, st, sd.Chan) == w.fin {
				e.Ev("end of service signalled", in)
				finish(e, fr, st, e.P.InstrPos(in))
				st.SetM("finished", "1")
			}
			return
		}
		s, ok := in.(*ssa.Store)
		if !ok || lt == nil {
			return
		}
		loc := e.Eval(fr, st, s.Addr)
		pos := e.P.InstrPos(in)
		val := e.Eval(fr, st, s.Val)
		switch {
		case loc.kind == KField && strings.HasPrefix(loc.op, "F:LumpEntry."):
			if loc.root().kind == KAlloc {
				return // local copy
			}
			e.Ev("update of directory entry", in)
			entryLoc(e, fr, st, pos, loc.args[0])
			switch loc.op {
			case "F:LumpEntry.FilePos":
				st.mon["fp"] = val
			case "F:LumpEntry.Size":
				st.mon["sz"] = val
			}
		case namedName(s.Val.Type()) == "LumpEntry" && loc.root().kind != KAlloc:
			e.Ev("update of directory entry", in)
			entryLoc(e, fr, st, pos, loc)
			st.mon["fp"] = orT(e.sfield(val, lt, "FilePos"))
			st.mon["sz"] = orT(e.sfield(val, lt, "Size"))
		}
	}
	r.Recv = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, ch *Term) *Term {
		u, ok := in.(*ssa.UnOp)
		if !ok || !busChan(u.X) {
			return nil
		}
		e.Ev("receive of request", in)
		if st.M("finished") != "" {
			e.Violate("W08|request taken after end was signalled", e.P.InstrPos(in), "the lump writer takes a request after it signalled that it is done: "+st.Path())
		}
		finish(e, fr, st, e.P.InstrPos(in))
		req := e.sym(fr, st, in, "req")
		begin(e, fr, st, in, req)
		if u.CommaOk {
			return Tuple(req, e.sym(fr, st, in, "ok"))
		}
		return req
	}
	e := NewEngine(p, r)
	w.e = e
	if len(roots) != 1 {
		e.Undecided("expected exactly one goroutine that serves the lump writer's requests, found " + itoa(len(roots)))
		return w
	}
	root := roots[0]
	w.root = root
	ctr := newBusContract(c, root)
	w.ctr = ctr
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for i, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+itoa(i)+pr.Name())
			if namedName(deref(pr.Type())) == "WriteBus" {
				busT = t
			}
			a = append(a, t)
			if ctr != nil && i == ctr.finIdx {
				w.fin = t
			}
		}
		for _, fv := range root.FreeVars {
			if namedName(deref(deref(fv.Type()))) == "WriteBus" {
				busT = Sym(fr.ctx, "fv:"+fv.Name())
			}
		}
		if busT != nil {
			st.mon["bus"] = busT
		}
		return a
	})
	if busT == nil {
		e.Undecided("the lump writer's state is not found in " + FullName(root))
	}
	return w
}

// busContract: what StartWriteBus, Shutdown and WriteNZerosOrFail promise to main.
type busContract struct {
	es     []*Engine
	finIdx int
}

func newBusContract(c *Ctx, writer *ssa.Function) *busContract {
	p := c.P
	b := &busContract{finIdx: -1}
	bt := p.Named("WriteBus")
	ct := p.Named("WriteBusControl")
	// start
	var starter *ssa.Function
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			for _, f := range p.Callees(g) {
				if f == writer {
					starter = fn
				}
			}
		}
	})
	if sw := p.Func("StartWriteBus"); sw != nil {
		starter = sw
	}
	r := &Rule{Name: "writer-contract"}
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool { _, ok := in.(*ssa.Go); return ok }
	r.Keep = func(cls string) bool {
		return strings.HasPrefix(cls, "F:WriteBus.") || strings.HasPrefix(cls, "F:WriteBusControl.")
	}
	e := NewEngine(p, r)
	b.es = append(b.es, e)
	if starter == nil || bt == nil || ct == nil {
		e.Undecided("start of the lump writer not found")
		return b
	}
	var params []*Term
	check := func(e *Engine, pos, what string, got *Term, ok func(types.Type) bool) {
		for i, pr := range starter.Params {
			if ok(pr.Type()) {
				if params[i] != got {
					e.Violate("W07|writer started with another "+what, pos, "the lump writer is started with "+orT(got).String()+" as "+what+" instead of the parameter")
				}
				return
			}
		}
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		pos := p.InstrPos(in)
		switch in := in.(type) {
		case *ssa.Go:
			isw := false
			for _, f := range p.Callees(in) {
				isw = isw || f == writer
			}
			if !isw {
				return
			}
			e.Ev("start of writer goroutine", in)
			if st.M("started") != "" {
				e.Violate("W08|two writers", pos, "a second lump writer is started for the same output")
			}
			st.SetM("started", "1")
			var bus *Term
			for i, a := range in.Call.Args {
				t := e.Eval(fr, st, a)
				st.mon["arg"+itoa(i)] = t
				if namedName(deref(a.Type())) == "WriteBus" {
					bus = t
				}
			}
			if bus == nil {
				e.Undecided("the goroutine of the lump writer gets no WriteBus")
				return
			}
			st.mon["bus"] = bus
			f, _ := e.loadField(fr, st, bus, bt, "fout")
			l, _ := e.loadField(fr, st, bus, bt, "le")
			cu, _ := e.loadField(fr, st, bus, bt, "curPos")
			check(e, pos, "file", f, func(t types.Type) bool { return qualName(t) == "*os.File" })
			check(e, pos, "directory", l, func(t types.Type) bool { return qualName(t) == "[]LumpEntry" })
			check(e, pos, "position", cu, isInt)
		case *ssa.Return:
			if fr.parent != nil || len(in.Results) != 1 {
				return
			}
			if st.M("started") == "" {
				e.Violate("W08|no writer", pos, "the control of the lump writer is handed out without the writer being started")
				return
			}
			res := e.Eval(fr, st, in.Results[0])
			bf, _ := e.loadField(fr, st, res, ct, "bus")
			if bf != st.mon["bus"] {
				e.Violate("W03|control of another writer", pos, "the control handed out does not refer to the writer started")
			}
			fi, _ := e.loadField(fr, st, res, ct, "finisher")
			for i := 0; ; i++ {
				t := st.mon["arg"+itoa(i)]
				if t == nil {
					break
				}
				if fi == t {
					b.finIdx = i
				}
			}
			if b.finIdx < 0 {
				e.Violate("W08|end of writer not observable", pos, "the channel on which the end of the writer is awaited is not given to the writer")
			}
		}
	}
	e.Run(starter, func(fr *Frame, st *State) []*Term {
		params = nil
		for i, pr := range starter.Params {
			params = append(params, Sym(fr.ctx, "p:"+itoa(i)+pr.Name()))
		}
		return params
	})
	// shutdown
	sd := p.Method("WriteBusControl", "Shutdown")
	r2 := &Rule{Name: "writer-shutdown"}
	var recv *Term
	r2.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
			return true
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			if bl, ok := ci.Common().Value.(*ssa.Builtin); ok && bl.Name() == "close" {
				return true
			}
		}
		return false
	}
	r2.Keep = func(cls string) bool {
		return strings.HasPrefix(cls, "F:WriteBus.") || strings.HasPrefix(cls, "F:WriteBusControl.")
	}
	fld := func(e *Engine, fr *Frame, st *State, path ...string) *Term {
		t, _ := e.loadField(fr, st, recv, ct, path...)
		return orT(t)
	}
	r2.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if bl, ok := ci.Common().Value.(*ssa.Builtin); ok && bl.Name() == "close" {
			if args[0] == fld(e, fr, st, "ch") {
				e.Ev("queue closed", ci)
				st.SetM("closed", "1")
			}
			return []Out{{Kind: ORet, St: st}}, true
		}
		return nil, false
	}
	r2.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		pos := p.InstrPos(in)
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op.String() == "<-" && e.Eval(fr, st, in.X) == fld(e, fr, st, "finisher") && st.M("closed") != "" {
				e.Ev("end of writer awaited", in)
				st.SetM("done", "1")
			}
		case *ssa.Return:
			if fr.parent != nil {
				return
			}
			if st.M("done") == "" {
				e.Violate("W08|shutdown does not wait for the writer", pos, "Shutdown returns on a path on which the queue was not closed or the end of the writer was not awaited: "+st.Path())
			}
			if len(in.Results) != 1 {
				e.Violate("W03|write errors not reported", pos, "Shutdown of the lump writer does not report write errors")
				return
			}
			res := e.Eval(fr, st, in.Results[0])
			bus := fld(e, fr, st, "bus")
			er, _ := e.loadField(fr, st, bus, bt, "err")
			if res != er && !(e.Truth(st, Eq(res, Nil())) == 0) && !(e.Truth(st, Eq(orT(er), Nil())) == 1) {
				e.Violate("W03|write errors not reported", pos, "Shutdown returns "+res.String()+" instead of the writer's first error: "+st.Path())
			}
		}
	}
	e2 := NewEngine(p, r2)
	b.es = append(b.es, e2)
	if sd == nil {
		e2.Undecided("no (*WriteBusControl).Shutdown")
	} else {
		e2.Run(sd, func(fr *Frame, st *State) []*Term {
			recv = Sym(fr.ctx, "recv")
			st.mon["recv"] = recv
			return []*Term{recv}
		})
	}
	// zeros
	r3 := &Rule{Name: "zero-fill"}
	r3.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Write"
	}
	var wr, cnt *Term
	r3.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		c := ci.Common()
		if !c.IsInvoke() || c.Method.Name() != "Write" {
			return nil, false
		}
		if args[0] != wr && args[0] != App("dyn", wr) {
			return nil, false
		}
		n := e.lenTerm(st, c.Args[0], args[1])
		e.Ev("write of zeros", ci)
		if x := args[1].root(); x.kind != KAlloc {
			e.Violate("W07|zero area filled with something else", p.InstrPos(ci), "the data written is not a fresh buffer of zeros")
		}
		old := st.mon["n"]
		if old == nil {
			old = ConstI(0)
		}
		outs := e.forkErr(fr, st, ci, []*Term{n}, func(s *State) {
			s.mon["n"] = BinTerm(plusTok, old, n, types.Typ[types.Int], types.Typ[types.Int])
		}, func(s *State) { s.SetM("fail", "1"); s.Note("write failed") })
		return outs, true
	}
	r3.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && fr.parent == nil && intWidth(s.Val.Type()) == 8 {
			if l := e.Eval(fr, st, s.Addr); l.kind == KIndex {
				v := e.Eval(fr, st, s.Val)
				if z, ok := v.Int(); !ok || z != 0 {
					e.Violate("W07|zero area filled with something else", p.InstrPos(in), "the buffer written as zeros is modified")
				}
			}
		}
		ret, ok := in.(*ssa.Return)
		if !ok || fr.parent != nil {
			return
		}
		if len(ret.Results) > 0 {
			return
		}
		if st.M("fail") != "" {
			e.Violate("W03|failed write of reserved space ignored", p.InstrPos(in), "space is reserved by a write that may have failed without stopping the program: "+st.Path())
		}
		if !e.ProveEq(st, orT(st.mon["n"]), cnt) {
			e.Violate("W07|reserved space differs from request", p.InstrPos(in), "the space reserved is "+orT(st.mon["n"]).String()+" bytes instead of "+cnt.String()+": "+st.Path())
		}
	}
	e3 := NewEngine(p, r3)
	b.es = append(b.es, e3)
	zf := p.Func("WriteNZerosOrFail")
	if zf == nil {
		e3.Undecided("no WriteNZerosOrFail")
	} else {
		e3.Run(zf, func(fr *Frame, st *State) []*Term {
			var a []*Term
			for i, pr := range zf.Params {
				t := Sym(fr.ctx, "p:"+itoa(i))
				if _, ok := pr.Type().Underlying().(*types.Interface); ok {
					wr = t
				} else if isInt(pr.Type()) {
					cnt = t
				}
				a = append(a, t)
			}
			return a
		})
	}
	return b
}

func ruleBusContract(c *Ctx) {
	w := newWriterFlow(c)
	if w.ctr == nil {
		c.Undecided("writer-contract", "no lump writer")
		return
	}
	for _, e := range w.ctr.es {
		c.Take(e)
	}
	c.Min("writer-contract", "writer-contract: start of writer goroutine", 1)
	c.Min("writer-shutdown", "writer-shutdown: queue closed", 1)
	c.Min("writer-shutdown", "writer-shutdown: end of writer awaited", 1)
	c.Min("zero-fill", "zero-fill: write of zeros", 1)
}

func ruleWriter(c *Ctx) {
	w := newWriterFlow(c)
	c.Take(w.e)
	c.Min("writer", "writer: end of service signalled", 1)
	c.Count("request shapes sent to the writer", len(w.shapes))
	c.Count("sends of requests", w.sites)
	for _, k := range []string{"receive of request", "write to the output", "update of directory entry"} {
		c.Min("writer", "writer: "+k, 1)
	}
	kinds := map[string]bool{}
	for _, s := range w.shapes {
		if s.data != "" {
			kinds[s.data] = true
		}
	}
	for k := range kinds {
		c.Min("writer", "writer: request carrying "+k, 1)
	}
	if len(kinds) == 0 {
		c.Undecided("writer", "no request shapes found")
	}
}
