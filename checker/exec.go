package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run analyses fn as a root with unknown parameters.
func (e *Engine) Run(fn *ssa.Function, init func(fr *Frame, st *State) []*Term) []Out {
	fr := &Frame{ctx: fn.Name(), fn: fn, li: e.P.Loop(fn)}
	st := NewState()
	var args []*Term
	if init != nil {
		args = init(fr, st)
	}
	for i := len(args); i < len(fn.Params); i++ {
		args = append(args, Sym(fr.ctx, "p:"+fn.Params[i].Name()))
	}
	for i, fv := range fn.FreeVars {
		_ = i
		st.env[fv] = Sym(fr.ctx, "fv:"+fv.Name())
	}
	return e.runFunc(fr, st, args)
}

func (e *Engine) runFunc(fr *Frame, st *State, args []*Term) []Out {
	fn := fr.fn
	e.inlined[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	type blk struct {
		pend *stateSet
		seen *stateSet
		wide map[string]*State
	}
	blks := map[*ssa.BasicBlock]*blk{}
	get := func(b *ssa.BasicBlock) *blk {
		x := blks[b]
		if x == nil {
			x = &blk{pend: newSet(), seen: newSet()}
			blks[b] = x
		}
		return x
	}
	get(fn.Blocks[0]).pend.add(e.key(fr, st, false), st)
	var outs []Out
	emit := func(o Out) { outs = append(outs, o) }
	for {
		// next block in reverse postorder
		var nb *ssa.BasicBlock
		for b, x := range blks {
			if x.pend.n > 0 && (nb == nil || fr.li.rpo[b] < fr.li.rpo[nb]) {
				nb = b
			}
		}
		if nb == nil {
			break
		}
		x := blks[nb]
		list := x.pend.all()
		x.pend = newSet()
		if x.seen.n+len(list) > e.R.Cap || x.wide != nil {
			// join everything with the same monitor state
			if x.wide == nil && debugEngine {
				e.dumpWide(fr, nb, append(x.seen.all(), list...))
			}
			if x.wide == nil {
				x.wide = map[string]*State{}
			}
			var nl []*State
			changed := map[string]bool{}
			var order []string
			for _, s := range list {
				e.normalise(s)
				mk := e.monKey(s)
				if e.R.JoinBools {
					mk += e.boolKey(fr, s)
				}
				o := x.wide[mk]
				if o == nil {
					x.wide[mk] = s
					changed[mk] = true
					order = append(order, mk)
					continue
				}
				j := e.join(fr, nb, o, s)
				if e.key(fr, j, true) != e.key(fr, o, true) {
					x.wide[mk] = j
					if !changed[mk] {
						order = append(order, mk)
					}
					changed[mk] = true
				}
			}
			for _, mk := range order {
				nl = append(nl, x.wide[mk])
			}
			list = nl
			if len(x.wide) > 4000 {
				e.Undecided("too many monitor states in " + FullName(fn))
				return outs
			}
		}
		for _, s := range list {
			if x.wide == nil && !x.seen.add(e.key(fr, s, false), s) {
				continue
			}
			e.execBlock(fr, nb, s.Clone(), emit, func(succ *ssa.BasicBlock, ns *State) {
				e.edge(fr, nb, succ, ns)
				e.prune(fr, succ, ns)
				get(succ).pend.add(e.key(fr, ns, false), ns)
			})
			if e.steps > e.MaxSteps {
				e.Undecided("analysis budget exhausted in " + FullName(fn))
				return outs
			}
		}
	}
	return e.mergeOuts(fr, outs)
}

func (e *Engine) mergeOuts(fr *Frame, outs []Out) []Out {
	if len(outs) <= 1 {
		for i := range outs {
			e.stripOut(fr, &outs[i])
		}
		return outs
	}
	sets := map[string]*stateSet{}
	res := map[string]Out{}
	var order []string
	for i := range outs {
		o := outs[i]
		e.stripOut(fr, &o)
		k := o.Kind.String()
		if o.Res != nil {
			k += itoa(o.Res.id)
		}
		if sets[k] == nil {
			sets[k] = newSet()
			res[k] = o
			order = append(order, k)
		}
		sets[k].add(e.key(fr, o.St, false), o.St)
	}
	var r []Out
	for _, k := range order {
		for _, s := range sets[k].all() {
			o := res[k]
			o.St = s
			r = append(r, o)
		}
	}
	return r
}

func (e *Engine) stripOut(fr *Frame, o *Out) {
	o.St.env = map[ssa.Value]*Term{}
	o.St.defers = nil
	var ex []*Term
	if o.Res != nil {
		ex = append(ex, o.Res)
	}
	if o.Kind == OExit {
		o.St.mem = map[*Term]*Term{}
		o.St.facts = map[*Term]bool{}
		o.St.ver = map[string]*Term{}
		return
	}
	e.gc(fr, o.St, nil, ex)
}

// edge evaluates the phis of succ.
func (e *Engine) edge(fr *Frame, b, succ *ssa.BasicBlock, st *State) {
	pi := -1
	for i, p := range succ.Preds {
		if p == b {
			pi = i
		}
	}
	back := fr.li.back[[2]int{b.Index, succ.Index}]
	type pv struct {
		ph *ssa.Phi
		t  *Term
	}
	var vals []pv
	var fresh []*Term
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !fr.li.live[succ][ph] {
			continue
		}
		t := e.Eval(fr, st, ph.Edges[pi])
		if e.R.Phi != nil && !back {
			if x := e.R.Phi(e, fr, st, ph); x != nil {
				vals = append(vals, pv{ph, x})
				continue
			}
		}
		if e.R.DropPhi != nil && !isConstish(t) && e.R.DropPhi(ph) {
			own := Sym(fr.ctx, fr.li.inum[ph])
			if fr.loopy || fr.li.inLoop[succ] {
				fresh = append(fresh, own)
			}
			nn := t.IsNonNil()
			t = own
			if nn {
				t = App("nonnil", own)
			}
			vals = append(vals, pv{ph, t})
			continue
		}
		if back {
			own := Sym(fr.ctx, fr.li.inum[ph])
			if t != own && t != App("nonnil", own) && !e.loopKeep(fr, succ, ph.Edges[pi], t) {
				fresh = append(fresh, own)
				if t.kind != KConst && (t.IsNonNil() || factOf(st, Eq(t, Nil())) == 0) {
					t = App("nonnil", own)
				} else {
					t = own
				}
			}
		} else if fr.li.inLoop[succ] && t.depth > 12 {
			t = Sym(fr.ctx, fr.li.inum[ph])
		}
		vals = append(vals, pv{ph, t})
	}
	if len(fresh) > 0 {
		fs := map[*Term]bool{}
		for _, f := range fresh {
			fs[f] = true
		}
		e.stale(st, func(t *Term) bool { return fs[t] }, fr)
	}
	for _, v := range vals {
		st.env[v.ph] = v.t
	}
}

// loopKeep: may the value brought by a back edge be kept as is.
func (e *Engine) loopKeep(fr *Frame, header *ssa.BasicBlock, v ssa.Value, t *Term) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	switch t.kind {
	case KNil, KGlobal, KFunc:
		return true
	case KConst:
		// a constant that came out of arithmetic would count up for ever
		if _, isInt := t.Int(); isInt {
			return constOrigin(v, map[ssa.Value]bool{})
		}
		return t.val.Kind().String() == "Bool" || constOrigin(v, map[ssa.Value]bool{})
	case KAlloc:
		return true
	}
	for t.kind == KApp && strings.HasPrefix(t.op, "iface:") && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.kind == KAlloc || t.kind == KNil {
		return true
	}
	if e.R.Stable != nil && e.R.Stable(t) {
		return true
	}
	if t.depth > 6 {
		return false
	}
	// loop invariant value: none of its leaves is produced inside the loop
	for _, l := range t.leafs {
		if strings.HasPrefix(l.ctx, fr.ctx+"/") {
			if !strings.Contains(l.op, "~") {
				return false
			}
			return false
		}
		if l.ctx == fr.ctx {
			bi := blockOf(l.op)
			if bi < 0 || bi >= len(fr.fn.Blocks) {
				if strings.HasPrefix(l.op, "p:") || strings.HasPrefix(l.op, "fv:") {
					continue
				}
				return false
			}
			if fr.li.reach[header][fr.fn.Blocks[bi]] && fr.li.reach[fr.fn.Blocks[bi]][header] {
				return false
			}
		}
	}
	if t.kind == KApp && (strings.HasPrefix(t.op, "lin:") || t.op == "/" || t.op == "*" || t.op == "sl2") {
		return false
	}
	return true
}

func constOrigin(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !constOrigin(ed, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return constOrigin(x.X, seen)
	case *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.Parameter:
		return true
	}
	return false
}

func blockOf(op string) int {
	op = strings.TrimLeft(op, "w")
	i := strings.IndexByte(op, '.')
	if i <= 0 {
		return -1
	}
	n := 0
	for _, c := range op[:i] {
		if c < '0' || c > '9' {
			return -1
		}
		n = n*10 + int(c-'0')
	}
	return n
}

type cont struct {
	st *State
	i  int
}

func (e *Engine) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, emit func(Out), next func(*ssa.BasicBlock, *State)) {
	work := []cont{{st, 0}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		st := c.st
	instrs:
		for i := c.i; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			e.steps++
			if e.steps > e.MaxSteps {
				return
			}
			switch v := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Call:
				e.visited[in] = true
				outs := e.call(fr, st, v, v.Common())
				for oi, o := range outs {
					switch o.Kind {
					case ORet:
						ns := o.St
						if o.Res != nil {
							ns.env[v] = o.Res
						}
						if oi == len(outs)-1 {
							st = ns
							continue instrs
						}
						work = append(work, cont{ns, i + 1})
					case OPanic:
						e.unwind(fr, o, emit)
					case OExit:
						emit(o)
					}
				}
				break instrs
			case *ssa.RunDefers:
				sts := e.runDefers(fr, st, emit)
				for si, s := range sts {
					if si == len(sts)-1 {
						st = s
						continue instrs
					}
					work = append(work, cont{s, i + 1})
				}
				break instrs
			case *ssa.Jump:
				next(b.Succs[0], st)
				break instrs
			case *ssa.If:
				t := e.Eval(fr, st, v.Cond)
				switch e.Truth(st, t) {
				case 1:
					next(b.Succs[0], st)
				case 0:
					next(b.Succs[1], st)
				default:
					s2 := st.Clone()
					if e.Assume(st, t, true) {
						e.branched(fr, st)
						next(b.Succs[0], st)
					}
					if e.Assume(s2, t, false) {
						e.branched(fr, s2)
						next(b.Succs[1], s2)
					}
				}
				break instrs
			case *ssa.Return:
				if e.R.Instr != nil {
					e.R.Instr(e, fr, st, in)
				}
				var res *Term
				if len(v.Results) == 1 {
					res = e.Eval(fr, st, v.Results[0])
				} else if len(v.Results) > 1 {
					var a []*Term
					for _, r := range v.Results {
						a = append(a, e.Eval(fr, st, r))
					}
					res = Tuple(a...)
				}
				emit(Out{Kind: ORet, Res: res, St: st, Site: in})
				break instrs
			case *ssa.Panic:
				if e.R.Instr != nil {
					e.R.Instr(e, fr, st, in)
				}
				e.unwind(fr, Out{Kind: OPanic, St: st, Site: in}, emit)
				break instrs
			default:
				e.visited[in] = true
				if e.nilDeref(fr, st, in) {
					e.unwind(fr, Out{Kind: OPanic, St: st, Site: in}, emit)
					break instrs
				}
				e.step(fr, st, in)
			}
		}
	}
}

// nilDeref: the instruction goes through a pointer known to be nil, which
// panics.
func (e *Engine) nilDeref(fr *Frame, st *State, in ssa.Instruction) bool {
	var a ssa.Value
	switch v := in.(type) {
	case *ssa.FieldAddr:
		a = v.X
	case *ssa.IndexAddr:
		a = v.X
	case *ssa.Store:
		a = v.Addr
	case *ssa.UnOp:
		if v.Op == token.MUL {
			a = v.X
		}
	}
	if a == nil {
		return false
	}
	t := e.Eval(fr, st, a).root()
	return t == Nil() || t.kind != KAlloc && t.kind != KConst && factOf(st, Eq(t, Nil())) == 1
}

func (e *Engine) branched(fr *Frame, st *State) {
	if e.R.Branch != nil {
		e.R.Branch(e, fr, st)
	}
}

// unwind runs the frame's deferred calls for a panic and passes it on.
func (e *Engine) unwind(fr *Frame, o Out, emit func(Out)) {
	for _, s := range e.runDefers(fr, o.St, emit) {
		emit(Out{Kind: OPanic, St: s, Site: o.Site})
	}
}

func (e *Engine) runDefers(fr *Frame, st *State, emit func(Out)) []*State {
	cur := []*State{st}
	for {
		var nxt []*State
		again := false
		for _, s := range cur {
			if len(s.defers) == 0 {
				nxt = append(nxt, s)
				continue
			}
			again = true
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			for _, o := range e.callWith(fr, s, d.call, d.call.Common(), d.fns, d.fval, d.args) {
				switch o.Kind {
				case ORet:
					nxt = append(nxt, o.St)
				case OPanic:
					e.unwind(fr, o, emit)
				case OExit:
					emit(o)
				}
			}
		}
		cur = nxt
		if !again {
			return cur
		}
	}
}

func (e *Engine) step(fr *Frame, st *State, in ssa.Instruction) {
	if e.R.Instr != nil {
		e.R.Instr(e, fr, st, in)
	}
	if e.R.Value != nil {
		if v, ok := in.(ssa.Value); ok {
			if t := e.R.Value(e, fr, st, v); t != nil {
				st.env[v] = t
				return
			}
		}
	}
	switch v := in.(type) {
	case *ssa.Alloc:
		esc := allocEscapes(v)
		t := AllocT(fr.ctx, fr.li.inum[in], deref(v.Type()), esc)
		t.site = in
		if fr.loopy || fr.li.inLoop[in.Block()] {
			e.stale(st, func(x *Term) bool { return x == t }, fr)
		}
		for k := range st.mem {
			if k.root() == t {
				delete(st.mem, k)
			}
		}
		st.mem[t] = ZeroOf(deref(v.Type()))
		st.env[v] = t
	case *ssa.Store:
		e.Store(fr, st, in, e.Eval(fr, st, v.Addr), e.Eval(fr, st, v.Val), deref(v.Addr.Type()))
	case *ssa.FieldAddr:
		cls, ft := fieldClass(v.X.Type(), v.Field)
		st.env[v] = FieldOf(e.Eval(fr, st, v.X), cls, ft)
	case *ssa.IndexAddr:
		st.env[v] = IndexOf(e.Eval(fr, st, v.X), e.Eval(fr, st, v.Index), deref(v.Type()))
	case *ssa.Field:
		x := e.Eval(fr, st, v.X)
		cls, ft := fieldClass(v.X.Type(), v.Field)
		var r *Term
		switch x.kind {
		case KStruct:
			if v.Field < len(x.args) {
				r = x.args[v.Field]
			}
		case KZero:
			r = ZeroOf(ft)
		}
		if r == nil {
			_ = cls
			r = App("fld:"+itoa(v.Field), x)
		}
		st.env[v] = r
	case *ssa.Index:
		x := e.Eval(fr, st, v.X)
		if x.kind == KZero {
			st.env[v] = ZeroOf(v.Type())
		} else {
			st.env[v] = App("idx", x, e.Eval(fr, st, v.Index))
		}
	case *ssa.UnOp:
		x := e.Eval(fr, st, v.X)
		switch v.Op {
		case token.MUL:
			st.env[v] = e.Load(fr, st, x, v.Type())
		case token.NOT:
			st.env[v] = Not(x)
		case token.SUB:
			if isInt(v.Type()) {
				st.env[v] = BinTerm(token.SUB, ConstI(0), x, v.Type(), v.Type())
			} else {
				st.env[v] = App("neg", x)
			}
		case token.XOR:
			st.env[v] = App("^u", x)
		case token.ARROW:
			var r *Term
			if e.R.Recv != nil {
				r = e.R.Recv(e, fr, st, in, x)
			}
			if r == nil {
				if v.CommaOk {
					r = Tuple(e.sym(fr, st, in, "a"), e.sym(fr, st, in, "b"))
				} else {
					r = e.sym(fr, st, in, "")
				}
			}
			st.env[v] = r
		default:
			st.env[v] = e.sym(fr, st, in, "")
		}
	case *ssa.BinOp:
		st.env[v] = e.depth(fr, st, in, BinTerm(v.Op, e.Eval(fr, st, v.X), e.Eval(fr, st, v.Y), v.X.Type(), v.Type()))
	case *ssa.Convert:
		st.env[v] = e.depth(fr, st, in, Conv(e.Eval(fr, st, v.X), v.X.Type(), v.Type()))
	case *ssa.ChangeType:
		st.env[v] = e.Eval(fr, st, v.X)
	case *ssa.ChangeInterface:
		st.env[v] = e.Eval(fr, st, v.X)
	case *ssa.MakeInterface:
		st.env[v] = App("iface:"+qualName(v.X.Type()), e.Eval(fr, st, v.X))
	case *ssa.MakeClosure:
		var a []*Term
		for _, x := range v.Bindings {
			a = append(a, e.Eval(fr, st, x))
		}
		st.env[v] = ClosT(v.Fn.(*ssa.Function), a)
	case *ssa.MakeSlice:
		t := AllocT(fr.ctx, fr.li.inum[in], nil, true, e.Eval(fr, st, v.Len))
		t.site = in
		if fr.loopy || fr.li.inLoop[in.Block()] {
			e.stale(st, func(x *Term) bool { return x.kind == KAlloc && x.ctx == t.ctx && x.op == t.op }, fr)
		}
		st.env[v] = t
	case *ssa.MakeMap, *ssa.MakeChan:
		t := AllocT(fr.ctx, fr.li.inum[in], nil, true)
		t.site = in
		if fr.loopy || fr.li.inLoop[in.Block()] {
			e.stale(st, func(x *Term) bool { return x == t }, fr)
		}
		st.env[v.(ssa.Value)] = t
	case *ssa.Slice:
		x := e.Eval(fr, st, v.X)
		if v.Low == nil && v.High == nil && v.Max == nil {
			if _, ok := deref(v.X.Type()).Underlying().(*types.Array); ok {
				st.env[v] = App("sl", x)
			} else {
				st.env[v] = x
			}
		} else {
			lo, hi := Nil(), Nil()
			if v.Low != nil {
				lo = e.Eval(fr, st, v.Low)
			}
			if v.High != nil {
				hi = e.Eval(fr, st, v.High)
			}
			st.env[v] = e.depth(fr, st, in, App("sl2", x, lo, hi))
		}
	case *ssa.Extract:
		x := e.Eval(fr, st, v.Tuple)
		if x.kind == KTuple && v.Index < len(x.args) {
			st.env[v] = x.args[v.Index]
		} else {
			st.env[v] = App("ext:"+itoa(v.Index), x)
		}
	case *ssa.TypeAssert:
		x := e.Eval(fr, st, v.X)
		if x.kind == KApp && strings.HasPrefix(x.op, "iface:") && !types.IsInterface(v.AssertedType) {
			ok := x.op == "iface:"+qualName(v.AssertedType)
			r := x.args[0]
			if !ok {
				r = ZeroOf(v.AssertedType)
			}
			if v.CommaOk {
				st.env[v] = Tuple(r, ConstB(ok))
				return
			}
			if ok {
				st.env[v] = r
				return
			}
		}
		a := App("assert:"+qualName(v.AssertedType), x)
		if v.CommaOk {
			st.env[v] = Tuple(a, App("is:"+qualName(v.AssertedType), x))
		} else {
			st.env[v] = a
		}
	case *ssa.Lookup:
		if v.CommaOk {
			st.env[v] = Tuple(e.sym(fr, st, in, "a"), e.sym(fr, st, in, "b"))
		} else {
			st.env[v] = e.sym(fr, st, in, "")
		}
	case *ssa.Next:
		st.env[v] = Tuple(e.sym(fr, st, in, "a"), e.sym(fr, st, in, "b"), e.sym(fr, st, in, "c"))
	case *ssa.Select:
		n := v.Type().(*types.Tuple).Len()
		var a []*Term
		for i := 0; i < n; i++ {
			a = append(a, e.sym(fr, st, in, "s"+itoa(i)))
		}
		st.env[v] = Tuple(a...)
	case *ssa.Defer:
		d := deferRec{call: v, fval: e.fval(fr, st, v.Common())}
		d.fns = e.targets(fr, st, v, v.Common(), d.fval)
		for _, a := range v.Common().Args {
			d.args = append(d.args, e.Eval(fr, st, a))
		}
		if v.Common().IsInvoke() {
			d.args = append([]*Term{d.fval}, d.args...)
		}
		st.defers = append(st.defers, d)
		if len(st.defers) > 30 {
			e.Undecided("unbounded defer in " + FullName(fr.fn))
			st.defers = st.defers[:30]
		}
	case *ssa.Go, *ssa.Send, *ssa.MapUpdate:
	default:
		if val, ok := in.(ssa.Value); ok {
			st.env[val] = e.sym(fr, st, in, "")
		}
	}
}

func (e *Engine) depth(fr *Frame, st *State, in ssa.Instruction, t *Term) *Term {
	if t.depth > 24 {
		return e.sym(fr, st, in, "d")
	}
	return t
}

func (e *Engine) fval(fr *Frame, st *State, c *ssa.CallCommon) *Term {
	return e.Eval(fr, st, c.Value)
}

// targets resolves the callees of a call on this path.
func (e *Engine) targets(fr *Frame, st *State, ci ssa.CallInstruction, c *ssa.CallCommon, fv *Term) []*ssa.Function {
	if sc := c.StaticCallee(); sc != nil {
		return []*ssa.Function{sc}
	}
	if !c.IsInvoke() {
		if fv.kind == KFunc || fv.kind == KClos {
			return []*ssa.Function{fv.fn}
		}
	} else if fv.kind == KApp && strings.HasPrefix(fv.op, "iface:") {
		tn := fv.op[len("iface:"):]
		for _, f := range e.P.Callees(ci) {
			if f.Signature.Recv() != nil && qualName(f.Signature.Recv().Type()) == tn {
				return []*ssa.Function{f}
			}
		}
	}
	return e.P.Callees(ci)
}

func (e *Engine) call(fr *Frame, st *State, ci ssa.CallInstruction, c *ssa.CallCommon) []Out {
	fv := e.fval(fr, st, c)
	var args []*Term
	if c.IsInvoke() {
		args = append(args, fv)
	}
	for _, a := range c.Args {
		args = append(args, e.Eval(fr, st, a))
	}
	return e.callWith(fr, st, ci, c, e.targets(fr, st, ci, c, fv), fv, args)
}

func (e *Engine) callWith(fr *Frame, st *State, ci ssa.CallInstruction, c *ssa.CallCommon, fns []*ssa.Function, fv *Term, args []*Term) []Out {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, ci, b, args)
	}
	if len(fns) == 0 {
		if e.R.Call != nil {
			if outs, ok := e.R.Call(e, fr, st, ci, nil, args); ok {
				return outs
			}
		}
		return []Out{{Kind: ORet, Res: e.opaqueResult(fr, st, ci, c.Signature()), St: st}}
	}
	var outs []Out
	opaqueDone := false
	for i, f := range fns {
		s := st
		if i < len(fns)-1 {
			s = st.Clone()
		}
		a := args
		f2 := f
		// bound method / wrapper: run the source function
		if f.Synthetic != "" {
			if u := unwrap(f); u != f && u != nil {
				f2 = u
				if fv != nil && fv.kind == KClos && strings.HasSuffix(f.Name(), "$bound") {
					a = append(append([]*Term(nil), fv.args...), args...)
				} else if c.IsInvoke() && len(a) > 0 && a[0].kind == KApp && strings.HasPrefix(a[0].op, "iface:") {
					a = append([]*Term{a[0].args[0]}, a[1:]...)
				}
			}
		} else if c.IsInvoke() && len(a) > 0 && a[0].kind == KApp && strings.HasPrefix(a[0].op, "iface:") {
			a = append([]*Term{a[0].args[0]}, a[1:]...)
		} else if c.IsInvoke() && len(a) > 0 && e.P.InRepo(f2) {
			a = append([]*Term{App("dyn", a[0])}, a[1:]...)
		}
		if e.R.Call != nil {
			if o, ok := e.R.Call(e, fr, s, ci, f2, a); ok {
				outs = append(outs, o...)
				continue
			}
		}
		if e.wouldInline(f2) && !e.onStack(f2) && fr.depth < 40 {
			outs = append(outs, e.inlineCall(fr, s, ci, f2, fv, a)...)
			continue
		}
		if e.onStack(f2) && e.inl[f2] {
			e.Undecided("recursion through " + FullName(f2) + " which contains events")
		}
		if opaqueDone && len(fns) > 8 {
			continue
		}
		opaqueDone = true
		outs = append(outs, e.opaque(fr, s, ci, c, f2, a)...)
	}
	return outs
}

func (e *Engine) onStack(f *ssa.Function) bool {
	for _, s := range e.stack {
		if s == f {
			return true
		}
	}
	return false
}

func (e *Engine) inlineCall(fr *Frame, st *State, ci ssa.CallInstruction, f *ssa.Function, fv *Term, args []*Term) []Out {
	ctx := fr.ctx + "/" + fr.li.inum[ci] + ":" + f.Name()
	loopy := fr.loopy || fr.li.inLoop[ci.Block()]
	if loopy {
		e.stale(st, func(t *Term) bool { return t.ctx == ctx || strings.HasPrefix(t.ctx, ctx+"/") }, fr)
	}
	saved := st.env
	savedDefers := st.defers
	nf := &Frame{ctx: ctx, fn: f, parent: fr, site: ci, loopy: loopy, li: e.P.Loop(f), depth: fr.depth + 1}
	nf.future = append(append([]map[string]bool(nil), fr.future...), e.futureOf(fr.fn, ci.Block()))
	nf.held = map[*Term]bool{}
	for t := range fr.held {
		nf.held[t] = true
	}
	for _, v := range saved {
		addSub(nf.held, v)
	}
	ns := st
	ns.env = map[ssa.Value]*Term{}
	ns.defers = nil
	if fv != nil && fv.kind == KClos && fv.fn == f {
		for i, x := range f.FreeVars {
			if i < len(fv.args) {
				ns.env[x] = fv.args[i]
			}
		}
	} else {
		for _, x := range f.FreeVars {
			ns.env[x] = Sym(ctx, "fv:"+x.Name())
		}
	}
	outs := e.runFunc(nf, ns, args)
	for i := range outs {
		if outs[i].Kind == OExit {
			continue
		}
		env := make(map[ssa.Value]*Term, len(saved)+1)
		for k, v := range saved {
			env[k] = v
		}
		outs[i].St.env = env
		outs[i].St.defers = append([]deferRec(nil), savedDefers...)
	}
	return outs
}

// sliceLen: length of a part of a slice or array.
func (e *Engine) sliceLen(a *Term) *Term {
	x, lo, hi := a.args[0], a.args[1], a.args[2]
	it := types.Typ[types.Int]
	if hi == Nil() {
		switch {
		case x.kind == KApp && x.op == "sl2":
			hi = e.sliceLen(x)
		case x.typ != nil && (x.kind == KAlloc || x.kind == KField || x.kind == KGlobal):
			if at, ok := x.typ.Underlying().(*types.Array); ok {
				hi = ConstI(at.Len())
			} else if x.kind == KAlloc && len(x.args) == 1 {
				hi = x.args[0]
			} else {
				return nil
			}
		case x.kind == KConst || x.kind == KNil:
			return nil
		default:
			hi = App("len", x)
		}
	}
	if hi == nil || lo == Nil() {
		return hi
	}
	return BinTerm(token.SUB, hi, lo, it, it)
}

func (e *Engine) opaqueResult(fr *Frame, st *State, ci ssa.CallInstruction, sig *types.Signature) *Term {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	if n == 1 {
		return e.sym(fr, st, ci, "")
	}
	var a []*Term
	for i := 0; i < n; i++ {
		a = append(a, e.sym(fr, st, ci, "r"+itoa(i)))
	}
	return Tuple(a...)
}

// valuePure library functions: result is a function of the argument values.
func valuePure(n string) bool {
	switch n {
	case "path/filepath.Dir", "path/filepath.Base", "path/filepath.Ext", "path/filepath.Join", "path/filepath.IsAbs", "path/filepath.Abs",
		"encoding/binary.Size", "errors.Is", "strings.HasPrefix", "strings.HasSuffix", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace":
		return true
	}
	return false
}

func (e *Engine) opaque(fr *Frame, st *State, ci ssa.CallInstruction, c *ssa.CallCommon, f *ssa.Function, args []*Term) []Out {
	name := FullName(f)
	p := e.P
	if libNoReturn(f) {
		if strings.Contains(name, "anic") || name == "runtime.Goexit" {
			return []Out{{Kind: OPanic, St: st, Site: ci}}
		}
		return []Out{{Kind: OExit, St: st, Site: ci}}
	}
	site := e.killSite(fr, st, ci, "k")
	if m := p.ModSets()[f]; m != nil {
		passed := map[*Term]bool{}
		for _, a := range args {
			for _, l := range a.leafs {
				passed[l] = true
			}
		}
		safe := func(root *Term) bool {
			if root.kind != KAlloc || passed[root] {
				return false
			}
			al, ok := root.site.(*ssa.Alloc)
			return ok && !p.leaks(al)
		}
		for _, cls := range sortedKeys(m.ext) {
			e.kill(fr, st, cls, site, nil, safe)
		}
	} else if !libPure(f) {
		e.clobber(fr, st, c, args, site)
	}
	var outs []Out
	if p.noret[f] {
		if e.mayExit == nil || !e.mayExit[f] || e.mayPanic[f] {
			outs = append(outs, Out{Kind: OPanic, St: st.Clone(), Site: ci})
		}
		if e.mayExit != nil && e.mayExit[f] {
			outs = append(outs, Out{Kind: OExit, St: st.Clone(), Site: ci})
		}
		return outs
	}
	if e.R.Aborts {
		if e.mayPanic[f] {
			outs = append(outs, Out{Kind: OPanic, St: st.Clone(), Site: ci})
		}
		if e.mayExit[f] {
			outs = append(outs, Out{Kind: OExit, St: st.Clone(), Site: ci})
		}
	}
	var res *Term
	if name == "errors.New" || name == "fmt.Errorf" {
		res = App("nonnil", site)
	} else if name == "encoding/binary.Size" {
		res = e.binSizeTerm(fr, st, c.Args[0], args[0])
	} else if valuePure(name) && c.Signature().Results().Len() == 1 {
		res = App("call:"+name, args...)
	} else {
		res = e.knownResult(f, e.opaqueResult(fr, st, ci, c.Signature()))
	}
	return append(outs, Out{Kind: ORet, Res: res, St: st})
}

// knownResult refines the unknown result of a function.
func (e *Engine) knownResult(f *ssa.Function, t *Term) *Term {
	one := func(i int, t *Term) *Term {
		if c := e.P.constResult(f, i); c != nil {
			if c.Value == nil {
				return ZeroOf(c.Type())
			}
			return Const(c.Value)
		}
		if e.P.nonNilResult(f, i) {
			return App("nonnil", t)
		}
		return t
	}
	if t == nil || !e.P.InRepo(f) {
		return t
	}
	if f.Signature.Results().Len() == 1 {
		return one(0, t)
	}
	a := append([]*Term(nil), t.args...)
	for i := range a {
		a[i] = one(i, a[i])
	}
	return Tuple(a...)
}

// killRel kills a class if anything tracked could be affected.
func (e *Engine) killRel(fr *Frame, st *State, cls string, site *Term) {
	e.Kill(fr, st, cls, site, nil)
}

func (e *Engine) builtin(fr *Frame, st *State, ci ssa.CallInstruction, b *ssa.Builtin, args []*Term) []Out {
	if e.R.Call != nil {
		if o, ok := e.R.Call(e, fr, st, ci, nil, args); ok {
			return o
		}
	}
	ret := func(t *Term) []Out { return []Out{{Kind: ORet, Res: t, St: st}} }
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		switch a.kind {
		case KNil:
			return ret(ConstI(0))
		case KAlloc:
			if len(a.args) == 1 && b.Name() == "len" {
				return ret(a.args[0])
			}
		case KConst:
			if s, ok := a.Str(); ok {
				return ret(ConstI(int64(len(s))))
			}
		case KApp:
			if a.op == "sl2" && b.Name() == "len" {
				if t := e.sliceLen(a); t != nil {
					return ret(t)
				}
			}
			if a.op == "sl" {
				if at, ok := deref(ci.Common().Args[0].Type()).Underlying().(*types.Array); ok {
					return ret(ConstI(at.Len()))
				}
				if a.args[0].typ != nil {
					if at, ok := a.args[0].typ.Underlying().(*types.Array); ok {
						return ret(ConstI(at.Len()))
					}
				}
			}
		}
		return ret(App(b.Name(), a))
	case "copy", "append", "clear":
		cl := map[string]bool{}
		argClasses(ci.Common().Args[0], cl)
		site := e.killSite(fr, st, ci, "k")
		if b.Name() != "append" {
			for _, c := range sortedKeys(cl) {
				e.Kill(fr, st, c, site, nil)
			}
			return ret(e.sym(fr, st, ci, ""))
		}
		return ret(e.sym(fr, st, ci, ""))
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "panic":
		return []Out{{Kind: OPanic, St: st, Site: ci}}
	}
	if ci.Common().Signature().Results().Len() == 0 {
		return ret(nil)
	}
	return ret(e.sym(fr, st, ci, ""))
}

// clobber: library code may have changed what the arguments point to.
func (e *Engine) clobber(fr *Frame, st *State, c *ssa.CallCommon, args []*Term, site *Term) {
	cl := map[string]bool{}
	for _, a := range c.Args {
		argClasses(a, cl)
	}
	for _, cls := range sortedKeys(cl) {
		e.killRel(fr, st, cls, site)
	}
	// locals whose address is passed
	for _, a := range args {
		t := a
		if t.kind == KApp && strings.HasPrefix(t.op, "iface:") {
			t = t.args[0]
		}
		if t.root().kind == KAlloc {
			var ks []*Term
			for k := range st.mem {
				if k.root() == t.root() {
					ks = append(ks, k)
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			for _, k := range ks {
				if k.typ != nil && isComposite(k.typ) && k.kind != KAlloc {
					delete(st.mem, k)
				} else {
					st.mem[k] = App("kill", site, k)
				}
			}
		}
	}
}

// ReadInto: the call fills its arguments from outside.
func (e *Engine) ReadInto(fr *Frame, st *State, ci ssa.CallInstruction, args []*Term) {
	site := e.killSite(fr, st, ci, "k")
	e.clobber(fr, st, ci.Common(), args, site)
}
