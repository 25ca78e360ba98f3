package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// B01: no blockmap with offsets that do not fit 16 bits is delivered.

const (
	bmVanillaLimit = 32768
	bmPortLimit    = 65536
)

func isBlockmapPtr(t types.Type) bool {
	return isPtr(t) && namedName(deref(t)) == "Blockmap"
}

// lumpMethod: a method that lays out the bytes of a blockmap.
func lumpMethod(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() == nil || !isBlockmapPtr(s.Recv().Type()) || s.Results().Len() != 1 {
		return false
	}
	return types.TypeString(s.Results().At(0).Type(), nil) == "[]byte"
}

func ruleBlockmapLimits(c *Ctx) {
	p := c.P
	const rn = "blockmap-limits"
	c.Rule("blockmap-limits: in the methods that lay out a blockmap, every value put into the table of offsets was found to be below 65536, or the blockmap was marked as too big, on that path; the mark is never taken back; bytes and blockmap are kept together where both are passed on; bytes of a blockmap are delivered only on paths on which that same blockmap was found not to be marked")
	bmT := p.Named("Blockmap")
	outT := p.Named("BlockmapBeeOutput")
	if bmT == nil || outT == nil || fieldIndex(bmT, "tooBigForUint16") < 0 || fieldIndex(outT, "data") < 0 || fieldIndex(outT, "blockmap") < 0 {
		c.Undecided(rn, "Blockmap or BlockmapBeeOutput, or their fields, are gone")
		return
	}
	bigCls, bigT := fieldClass(bmT, fieldIndex(bmT, "tooBigForUint16"))
	vanCls := ""
	var vanT types.Type
	if i := fieldIndex(bmT, "tooBigForVanilla"); i >= 0 {
		vanCls, vanT = fieldClass(bmT, i)
	}
	// the marks are only ever set
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				cls, _ := addrClass(s.Addr)
				if cls == "" || cls != bigCls && cls != vanCls {
					continue
				}
				c.Count(rn+": mark of a blockmap set", 1)
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						continue // of a new blockmap
					}
				}
				c.Viol(rn, "B01|mark of a blockmap taken back ["+fn.Name()+"]", p.InstrPos(in), FullName(fn)+" may reset the mark that a blockmap is too big ("+cls+")")
			}
		}
	}
	n := 0
	for _, fn := range p.Funcs {
		if lumpMethod(fn) && fn.Blocks != nil {
			blockOffsetsChecked(c, rn, fn, bigCls, bigT, vanCls, vanT)
			n++
		}
	}
	if n == 0 {
		c.Undecided(rn, "no method lays out the bytes of a blockmap")
	}
	blockmapPairs(c, rn, outT)
	for _, f := range goTargets(p, "BlockmapInput") {
		for _, pr := range f.Params {
			if isBytesChan(pr.Type()) {
				blockmapDelivery(c, rn, f, outT, bigCls, bigT, vanCls, vanT)
			}
		}
	}
	c.Min(rn, rn+": mark of a blockmap set", 2)
	c.Min(rn, rn+": offset put into the table", 3)
	c.Min(rn, rn+": bytes and blockmap passed on together", 2)
	c.Min(rn, rn+": blockmap delivered", 2)
}

// tables: slices of uint16 handed, as a whole, to something that writes them.
func tables(fn *ssa.Function) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if out[v] {
			return
		}
		out[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.Slice:
			add(x.X)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok && types.TypeString(mi.X.Type(), nil) == "[]uint16" {
				add(mi.X)
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci.Common().Signature().Recv() == nil {
				continue
			}
			rt := ci.Common().Signature().Recv().Type()
			if o, _, _ := types.LookupFieldOrMethod(rt, true, fn.Pkg.Pkg, "Write"); o == nil {
				continue
			}
			for _, a := range ci.Common().Args {
				if types.TypeString(a.Type(), nil) == "[]uint16" {
					add(a)
				}
			}
		}
	}
	return out
}

// passesOn: all the method gives is what other methods of the kind give for the
// same blockmap.
func passesOn(fn *ssa.Function) bool {
	var ok func(v ssa.Value, seen map[ssa.Value]bool) bool
	ok = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			f := x.Common().StaticCallee()
			return f != nil && f != fn && lumpMethod(f) && x.Common().Args[0] == ssa.Value(fn.Params[0])
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !ok(e, seen) {
					return false
				}
			}
			return true
		}
		return isNilConst(v)
	}
	vs := resultVals(fn, 0)
	for _, v := range vs {
		if !ok(v, map[ssa.Value]bool{}) {
			return false
		}
	}
	return len(vs) > 0
}

func blockOffsetsChecked(c *Ctx, rn string, root *ssa.Function, bigCls string, bigT types.Type, vanCls string, vanT types.Type) {
	p := c.P
	tabs := tables(root)
	if len(tabs) == 0 && passesOn(root) {
		return
	}
	if len(tabs) == 0 {
		c.Undecided(rn, "no table of offsets is written in "+FullName(root))
		return
	}
	bmT := p.Named("Blockmap")
	intT := types.Typ[types.Int]
	sets := func(fn *ssa.Function, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		cls, _ := addrClass(s.Addr)
		return cls == bigCls
	}
	// helpers that fill a table given to them
	fills := func(fn *ssa.Function) bool {
		if fn.Pkg != root.Pkg || fn.Blocks == nil {
			return false
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.(*ssa.Parameter); ok && types.TypeString(ia.X.Type(), nil) == "[]uint16" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	r := &Rule{Name: rn, Cap: 60, CoarseKill: true}
	var recv *Term
	r.Eventful = sets
	eventful := p.Reach(false, sets)
	r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) || !eventful[fn] && !fills(fn) }
	r.ForceInline = fills
	r.KeepFact = func(cls string) bool { return strings.Contains(cls, "address") || strings.Contains(cls, "offset") }
	r.Keep = func(cls string) bool { return cls == bigCls }
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		s, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok || types.TypeString(ia.X.Type().Underlying(), nil) != "[]uint16" {
			return
		}
		tab, tfr := callerValue(fr, ia.X)
		if tfr.parent != nil || !tabs[tab] {
			return
		}
		e.Ev("offset put into the table", i)
		// a value that was put into the table before, or a constant
		v, vfr := callerValue(fr, s.Val)
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia2, ok := u.X.(*ssa.IndexAddr); ok {
				if t2, f2 := callerValue(vfr, ia2.X); f2.parent == nil && tabs[t2] {
					return
				}
			}
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		cv, ok := v.(*ssa.Convert)
		if !ok {
			e.Violate("B01|offset of unknown origin ["+root.Name()+"]", p.InstrPos(i), "the table of offsets gets a value whose range is not known in "+FullName(root))
			return
		}
		if bt, ok := cv.X.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Int && bt.Kind() != types.Int32 && bt.Kind() != types.Int64 && bt.Kind() != types.Uint32 && bt.Kind() != types.Uint && bt.Kind() != types.Uint64 {
			e.Violate("B01|offset computed in too few bits ["+root.Name()+"]", p.InstrPos(i), "the table of offsets gets a value computed in "+cv.X.Type().String()+" in "+FullName(root))
			return
		}
		var x *Term
		if vfr == fr {
			x = e.Eval(fr, st, cv.X)
		} else {
			if a := e.Eval(fr, st, s.Val); a.kind == KApp && len(a.args) > 0 {
				x = a.args[0]
			} else {
				x = a
			}
		}
		if e.Truth(st, Less(x, ConstI(bmPortLimit), intT)) == 1 || e.Truth(st, Less(x, ConstI(bmVanillaLimit), intT)) == 1 {
			return
		}
		b, _ := e.loadField(fr, st, recv, bmT, "tooBigForUint16")
		if b != nil && e.Truth(st, b) == 1 {
			return
		}
		if debugEngine {
			debugState("offset "+x.String(), root.Name(), st)
		}
		e.Violate("B01|offset not checked ["+root.Name()+"]", p.InstrPos(i), "an offset ("+x.String()+") is put into the table on a path on which it was neither found to be below 65536 nor the blockmap marked as too big, in "+FullName(root)+": "+st.Path())
	}
	e := NewEngine(p, r)
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for i, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+pr.Name())
			if i == 0 {
				t = App("nonnil", t)
				recv = t
			}
			a = append(a, t)
		}
		return a
	})
	c.Take(e)
}

// callerValue: what a parameter of an inlined helper is at the caller.
func callerValue(fr *Frame, v ssa.Value) (ssa.Value, *Frame) {
	for fr.parent != nil {
		pr, ok := v.(*ssa.Parameter)
		if !ok {
			break
		}
		idx := -1
		for k, q := range fr.fn.Params {
			if q == pr {
				idx = k
			}
		}
		ci, ok := fr.site.(ssa.CallInstruction)
		if !ok || idx < 0 || ci.Common().IsInvoke() || idx >= len(ci.Common().Args) {
			break
		}
		v, fr = ci.Common().Args[idx], fr.parent
	}
	return v, fr
}

// blockmapPairs: wherever bytes and blockmap are put into one value to be
// passed on, the bytes are nil or were laid out by that blockmap.
func blockmapPairs(c *Ctx, rn string, outT *types.Named) {
	p := c.P
	iData, iBm := fieldIndex(outT, "data"), fieldIndex(outT, "blockmap")
	for _, fn := range p.Funcs {
		type pr struct{ d, b *ssa.Store }
		at := map[ssa.Value]*pr{}
		var order []ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), outT) || fa.Field != iData && fa.Field != iBm {
					continue
				}
				if at[fa.X] == nil {
					at[fa.X] = &pr{}
					order = append(order, fa.X)
				}
				q := at[fa.X]
				if fa.Field == iData {
					if isNilConst(s.Val) {
						continue
					}
					q.d = s
				} else {
					q.b = s
				}
			}
		}
		for _, x := range order {
			q := at[x]
			if q.d == nil && q.b == nil {
				continue
			}
			pos := ""
			if q.d != nil {
				pos = p.InstrPos(q.d)
			} else {
				pos = p.InstrPos(q.b)
			}
			c.Count(rn+": bytes and blockmap passed on together", 1)
			if q.d == nil {
				if _, ok := x.(*ssa.Alloc); ok {
					continue // a new value without bytes
				}
			}
			if q.d == nil || q.b == nil || !pairOf(p, q.d.Val, q.b.Val, 0) {
				c.Viol(rn, "B01|bytes kept with another blockmap ["+fn.Name()+"]", pos, FullName(fn)+" puts bytes together with a blockmap that did not lay them out, so the check of that blockmap says nothing about them")
			}
		}
	}
}

// pairOf: bytes d are nil or were laid out by blockmap b.
func pairOf(p *Prog, d, b ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	if isNilConst(d) {
		return true
	}
	switch x := d.(type) {
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil {
			return false
		}
		if lumpMethod(f) {
			return sameValue(x.Common().Args[0], b)
		}
		// bytes of a blockmap given to it
		for k, pr := range f.Params {
			if isBlockmapPtr(pr.Type()) && k < len(x.Common().Args) && sameValue(x.Common().Args[k], b) && f.Signature.Results().Len() == 1 {
				ok := true
				for _, v := range resultVals(f, 0) {
					ok = ok && pairOf(p, v, pr, depth+1)
				}
				return ok && len(resultVals(f, 0)) > 0
			}
		}
		return false
	case *ssa.Phi:
		for i, e := range x.Edges {
			bb := b
			if pb, ok := b.(*ssa.Phi); ok && pb.Block() == x.Block() {
				bb = pb.Edges[i]
			}
			if e != d && !pairOf(p, e, bb, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		if !ok || y.Tuple != x.Tuple {
			return false
		}
		ci, ok := x.Tuple.(*ssa.Call)
		if !ok || ci.Common().StaticCallee() == nil {
			return false
		}
		f := ci.Common().StaticCallee()
		vd, vb := resultVals(f, x.Index), resultVals(f, y.Index)
		if len(vd) == 0 || len(vd) != len(vb) {
			return false
		}
		for i := range vd {
			if !pairOf(p, vd[i], vb[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != token.MUL || y.Op != token.MUL {
			return false
		}
		fx, ok1 := x.X.(*ssa.FieldAddr)
		fy, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && sameValue(fx.X, fy.X) && types.Identical(fx.X.Type(), fy.X.Type()) && namedName(deref(fx.X.Type())) == "BlockmapBeeOutput"
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.X == y.X
	case *ssa.Parameter:
		y, ok := b.(*ssa.Parameter)
		if !ok || x.Parent() != y.Parent() {
			return false
		}
		f := x.Parent()
		ix, iy := -1, -1
		for i, q := range f.Params {
			if q == x {
				ix = i
			}
			if q == y {
				iy = i
			}
		}
		n := 0
		for _, g := range p.Funcs {
			for _, bl := range g.Blocks {
				for _, in := range bl.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f {
						continue
					}
					n++
					a := ci.Common().Args
					if !pairOf(p, a[ix], a[iy], depth+1) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if al, ok := x.X.(*ssa.Alloc); ok && x.X == y.X {
			// a variable assigned once
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					n++
				}
			}
			return n <= 1
		}
	}
	return false
}

func blockmapDelivery(c *Ctx, rn string, root *ssa.Function, outT *types.Named, bigCls string, bigT types.Type, vanCls string, vanT types.Type) {
	p := c.P
	isSend := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Send)
		return ok && isBytesChan(s.Chan.Type())
	}
	isData := func(t types.Type) bool {
		s := types.TypeString(t, nil)
		return s == "[]byte" || s == "*[]byte" || types.Identical(t, outT) || isPtr(t) && types.Identical(deref(t), outT)
	}
	handles := func(fn *ssa.Function) bool {
		if fn.Blocks == nil || fn.Pkg != root.Pkg || fn.Signature.Recv() != nil || lumpMethod(fn) {
			return false
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if t := fn.Signature.Params().At(i).Type(); isPtr(t) && isData(t) {
				return true
			}
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isData(fn.Signature.Results().At(i).Type()) {
				return true
			}
		}
		return false
	}
	event := func(fn *ssa.Function, in ssa.Instruction) bool { return isSend(in) }
	eventful := p.Reach(false, event)
	r := &Rule{Name: rn, Cap: 80, CoarseKill: true}
	r.Eventful = event
	r.NoInline = func(fn *ssa.Function) bool { return isLogFn(fn) || lumpMethod(fn) || !eventful[fn] && !handles(fn) }
	r.ForceInline = func(fn *ssa.Function) bool { return !isLogFn(fn) && handles(fn) }
	outName := outT.Obj().Name()
	keep := func(cls string) bool {
		return cls == bigCls || cls == vanCls || strings.HasPrefix(cls, "F:"+outName+".data") || strings.HasPrefix(cls, "F:"+outName+".blockmap")
	}
	r.Forget = p.forgetAllBut(func(o, f string) bool {
		return o == "Blockmap" && (strings.HasPrefix(f, "tooBig")) || o == outName && (f == "data" || f == "blockmap")
	})
	r.FactFilter = func(t *Term) bool { return mentionsField(t, "tooBigForUint16", "tooBigForVanilla") || mentionsBytes(t) }
	r.KeepFact = keep
	small := func(e *Engine, st *State, b *Term) bool {
		if b == nil {
			return false
		}
		if e.Truth(st, e.Load(nil, st, FieldOf(b, bigCls, bigT), bigT)) == 0 {
			return true
		}
		return vanCls != "" && e.Truth(st, e.Load(nil, st, FieldOf(b, vanCls, vanT), vanT)) == 0
	}
	settle := func(e *Engine, fr *Frame, st *State) {
		for m, b := range st.mon {
			if strings.HasPrefix(m, "pair:") && st.M("ok:"+m[5:]) == "" && small(e, st, b) {
				st.SetM("ok:"+m[5:], "1")
			}
		}
	}
	r.Branch = settle
	names := map[*Term]string{}
	nm := func(t *Term) string {
		if names[t] == "" {
			names[t] = t.String()
		}
		return names[t]
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if callee == nil || !lumpMethod(callee) || len(args) == 0 {
			return nil, false
		}
		outs := e.opaque(fr, st, ci, ci.Common(), callee, args)
		for i := range outs {
			if outs[i].Kind == ORet {
				outs[i].Res = App("bytes", args[0])
			}
		}
		return outs, true
	}
	iData := fieldIndex(outT, "data")
	bmIdx := fieldIndex(outT, "blockmap")
	bmCls, bmFT := fieldClass(outT, bmIdx)
	r.Instr = func(e *Engine, fr *Frame, st *State, i ssa.Instruction) {
		switch v := i.(type) {
		case *ssa.UnOp:
			fa, ok := v.X.(*ssa.FieldAddr)
			if v.Op != token.MUL || !ok || fa.Field != iData || !types.Identical(deref(fa.X.Type()), outT) {
				return
			}
			leaves := false
			for _, u := range *v.Referrers() {
				switch u.(type) {
				case *ssa.Return, *ssa.Send, *ssa.Phi, *ssa.Store:
					leaves = true
				}
			}
			if !leaves {
				return
			}
			d := e.Load(fr, st, e.Eval(fr, st, v.X), v.Type())
			b := e.Load(fr, st, FieldOf(e.Eval(fr, st, fa.X), bmCls, bmFT), bmFT)
			if d.kind != KNil && d.kind != KConst {
				st.mon["pair:"+nm(d)] = b
			}
		case *ssa.Send:
			if !isSend(i) {
				return
			}
			e.Ev("blockmap delivered", i)
			d := e.Eval(fr, st, v.X)
			settle(e, fr, st)
			if e.Truth(st, Eq(d, Nil())) == 1 || st.M("ok:"+nm(d)) != "" {
				return
			}
			if x := stripAt(d); x.kind == KApp && x.op == "bytes" && small(e, st, x.args[0]) {
				return
			}
			if debugEngine {
				debugState("delivery "+d.String(), root.Name(), st)
			}
			e.Violate("B01|blockmap delivered unchecked ["+fr.fn.Name()+"]", p.InstrPos(i), "bytes of a blockmap ("+d.String()+") are delivered on a path on which that blockmap was not found to be within the limit, in "+FullName(fr.fn)+": "+st.Path())
		}
	}
	e := NewEngine(p, r)
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for _, pr := range root.Params {
			a = append(a, Sym(fr.ctx, "p:"+pr.Name()))
		}
		return a
	})
	c.Take(e)
}

func mentionsBytes(t *Term) bool {
	if t == nil {
		return false
	}
	if t.kind == KApp && t.op == "bytes" {
		return true
	}
	for _, a := range t.args {
		if mentionsBytes(a) {
			return true
		}
	}
	return false
}
