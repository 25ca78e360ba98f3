package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Numbers taken from RMB options are checked before they select anything.

// allGuards: the conditions known to hold wherever block b runs, with the
// conditions implied by a combined one (x && y stored in a variable).
func allGuards(b *ssa.BasicBlock) []guard {
	r := guards(b)
	for i := 0; i < len(r) && i < 200; i++ {
		r = append(r, implied(r[i])...)
	}
	return r
}

// edgeGuards: the conditions that hold when control goes from a to b.
func edgeGuards(a, b *ssa.BasicBlock) []guard {
	r := guards(a)
	if iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If); ok && a.Succs[0] != a.Succs[1] {
		r = append(r, normGuard(iff.Cond, a.Succs[0] == b, a))
	}
	for i := 0; i < len(r) && i < 200; i++ {
		r = append(r, implied(r[i])...)
	}
	return r
}

func implied(g guard) []guard {
	ph, ok := g.cond.(*ssa.Phi)
	if !ok {
		return nil
	}
	one := -1
	for i, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != g.val {
			continue
		}
		if one >= 0 {
			return nil
		}
		one = i
	}
	if one < 0 {
		return nil
	}
	pred := ph.Block().Preds[one]
	r := edgeGuardsFlat(pred, ph.Block())
	if _, ok := ph.Edges[one].(*ssa.Const); !ok {
		r = append(r, normGuard(ph.Edges[one], g.val, pred))
	}
	return r
}

func edgeGuardsFlat(a, b *ssa.BasicBlock) []guard {
	r := guards(a)
	if iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If); ok && a.Succs[0] != a.Succs[1] {
		r = append(r, normGuard(iff.Cond, a.Succs[0] == b, a))
	}
	return r
}

// sameVal: two values are the same: the same register, or loads of the same
// place that is not written in between.
func sameVal(a, b ssa.Value) bool {
	a, b = onceStored(a), onceStored(b)
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && sameVal(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op == token.MUL && samePlace(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameVal(x.X, y.X)
	case *ssa.Index:
		y, ok := b.(*ssa.Index)
		return ok && sameVal(x.X, y.X) && sameVal(x.Index, y.Index)
	}
	return false
}

func onceStored(v ssa.Value) ssa.Value {
	for i := 0; i < 5; i++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return v
		}
		al, ok := u.X.(*ssa.Alloc)
		if !ok {
			return v
		}
		s := onlyStore(al)
		if s == nil {
			return v
		}
		v = s.Val
	}
	return v
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && (samePlace(x.X, y.X) || sameVal(x.X, y.X))
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && (samePlace(x.X, y.X) || sameVal(x.X, y.X)) && sameVal(x.Index, y.Index)
	case *ssa.UnOp:
		return sameVal(a, b)
	}
	return false
}

// numRange: bounds known about a number.
// fits: bounded above by a constant only.
type numRange struct{ lo, hi, fits bool }

func (r *numRange) by(level int) {
	switch level {
	case 2:
		r.lo, r.hi = true, true
	case 1:
		r.lo, r.fits = true, true
	}
}

type rmbNums struct {
	c  *Ctx
	p  *Prog
	rn string
	// the parameters an unchecked number is passed in
	vals   map[ssa.Value]string // tainted number -> where it comes from
	lists  map[ssa.Value]string
	work   []ssa.Value
	narrow map[ssa.Value]bool
	valid  map[*ssa.Function]map[int]int // validators: param -> 1 yes, -1 no
}

// upperBound: y is a count of things: a length, or a field or variable that
// holds one.
func (a *rmbNums) countLike(y ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	y = onceStored(bare(y))
	if isLen(y) {
		// not of the list the numbers come from
		l := y.(*ssa.Call).Common().Args[0]
		_, own := a.lists[l]
		return !own && elemSource(onceStored(l)) == ""
	}
	switch x := y.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL
	case *ssa.Field:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.countLike(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		idx := paramIndex(x)
		n := 0
		for _, ci := range a.p.callers[fn] {
			args := ci.Common().Args
			if ci.Common().IsInvoke() || idx >= len(args) {
				return false
			}
			if args[idx] == ssa.Value(x) {
				continue
			}
			n++
			if !a.countLike(args[idx], depth+1) {
				return false
			}
		}
		return n > 0
	}
	return false
}

func paramIndex(x *ssa.Parameter) int {
	for i, p := range x.Parent().Params {
		if p == x {
			return i
		}
	}
	return -1
}

// bounded: what the conditions say about number v.
func (a *rmbNums) bounded(v ssa.Value, gs []guard) numRange {
	var r numRange
	for _, g := range gs {
		if x, op, y, ok := g.cmp(); ok {
			if sameVal(bare(y), bare(v)) {
				x, y, op = y, x, flip(op)
			}
			if sameVal(bare(x), bare(v)) && !narrower(x, v) {
				k, isK := int64(0), false
				if c, ok := bare(y).(*ssa.Const); ok {
					k, isK = constInt(c.Value)
				}
				switch op {
				case token.GEQ:
					r.lo = r.lo || isK && k >= 0
				case token.GTR:
					r.lo = r.lo || isK && k >= -1
				case token.LSS:
					if isK || a.countLike(y, 0) {
						r.hi = r.hi || !isK
						r.fits = true
						if isUnsigned(x.Type()) {
							r.lo = true
						}
					}
				case token.LEQ:
					if isK {
						r.fits = true
					} else if b, ok := bare(y).(*ssa.BinOp); ok && b.Op == token.SUB && a.countLike(b.X, 0) {
						if c, ok := b.Y.(*ssa.Const); ok {
							if n, ok := constInt(c.Value); ok && n >= 1 {
								r.hi = true
							}
						}
					}
				case token.EQL:
					if isK && k >= 0 {
						r.lo, r.fits = true, true
					}
					// int(uint16(v)) == v
					if cv, ok := y.(*ssa.Convert); ok {
						if narrower(cv.X, v) || narrower(cv, v) {
							r.lo, r.fits = true, true
						}
					}
				}
				if op == token.EQL {
					if cv, ok := x.(*ssa.Convert); ok && sameVal(bare(y), bare(v)) {
						if narrower(cv.X, v) {
							r.lo, r.fits = true, true
						}
					}
				}
				continue
			}
			// both sides are the number, one of them narrowed
			if op == token.EQL && sameVal(bare(x), bare(v)) && sameVal(bare(y), bare(v)) {
				r.lo, r.fits = true, true
			}
			// validator answering something that is not nil
			if op == token.NEQ && isNilConst(y) {
				r.by(a.validator(x, v, true))
			}
			if op == token.NEQ && isNilConst(x) {
				r.by(a.validator(y, v, true))
			}
			continue
		}
		// validator answering true
		r.by(a.validator(g.cond, v, g.val))
	}
	return r
}

// narrower: the type of a holds fewer bits than that of b.
func narrower(a, b ssa.Value) bool {
	x, ok := a.Type().Underlying().(*types.Basic)
	y, ok2 := b.Type().Underlying().(*types.Basic)
	if !ok || !ok2 {
		return false
	}
	return basicBits(x) < basicBits(y)
}

func basicBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// validator: res is the result of a function that was given v, and answers
// the value ok (or something not nil) only when v is within bounds.
func (a *rmbNums) validator(res, v ssa.Value, ok bool) int {
	idx := 0
	if ex, is := res.(*ssa.Extract); is {
		idx = ex.Index
		res = ex.Tuple
	}
	ci, is := onceStored(res).(*ssa.Call)
	if !is {
		return 0
	}
	f := ci.Common().StaticCallee()
	if f == nil || f.Blocks == nil {
		return 0
	}
	for i, arg := range ci.Common().Args {
		if sameVal(bare(arg), bare(v)) && !narrower(arg, v) && i < len(f.Params) && a.isValidator(f, i, idx, ok) > 0 {
			return a.isValidator(f, i, idx, ok)
		}
	}
	return 0
}

// isValidator: 2 when v is below a count, 1 when it is below a constant.
func (a *rmbNums) isValidator(f *ssa.Function, param, result int, ok bool) int {
	key := param*16 + result*2
	if ok {
		key++
	}
	m := a.valid[f]
	if m == nil {
		m = map[int]int{}
		a.valid[f] = m
	}
	if m[key] != 0 {
		return m[key]
	}
	m[key] = -1
	v := f.Params[param]
	good, fits, any := true, true, false
	var check func(x ssa.Value, gs []guard)
	seen := map[ssa.Value]bool{}
	check = func(x ssa.Value, gs []guard) {
		if k, isC := x.(*ssa.Const); isC {
			if k.IsNil() || k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != ok {
				return
			}
		}
		if ph, isP := x.(*ssa.Phi); isP && !seen[x] {
			seen[x] = true
			for i, e := range ph.Edges {
				check(e, edgeGuards(ph.Block().Preds[i], ph.Block()))
			}
			return
		}
		any = true
		if isBool(x.Type()) {
			g := normGuard(x, ok, nil)
			gs = append(append([]guard{}, gs...), g)
			gs = append(gs, implied(g)...)
		}
		b := a.bounded(v, gs)
		if !b.lo || !b.hi {
			good = false
		}
		if !b.lo || !b.hi && !b.fits {
			fits = false
		}
	}
	for _, b := range f.Blocks {
		ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR || result >= len(ret.Results) {
			continue
		}
		if seen[ret.Results[result]] {
			continue
		}
		check(ret.Results[result], allGuards(b))
	}
	if good && any {
		m[key] = 2
	} else if fits && any {
		m[key] = 1
	}
	return m[key]
}

func ruleRMBNumbers(c *Ctx) {
	p := c.P
	const rn = "rmb-numbers"
	c.Rule("rmb-numbers: from every place that takes a number out of an RMB command's list or a command's own number, through calls, variables and conversions: before it is used as an index or narrowed into one, or put into another list, conditions on the way (or a function that answers only for numbers in range) bound it from below by zero and from above by a count of things")
	a := &rmbNums{c: c, p: p, rn: rn, vals: map[ssa.Value]string{}, lists: map[ssa.Value]string{}, valid: map[*ssa.Function]map[int]int{}}
	loader := rmbLoader(p)
	gen := p.Func("RejectGenerator")
	if loader == nil || gen == nil {
		c.Viol(rn, "R04|anchors", "", "reject builder or RMB loader not found")
		return
	}
	below := p.below([]*ssa.Function{gen})
	var fns []*ssa.Function
	for f := range below {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return FullName(fns[i]) < FullName(fns[j]) })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch elemSource(v) {
				case "List":
					a.list(v, FullName(fn))
				case "Data":
					a.num(v, "own")
				}
			}
		}
	}
	for len(a.work) > 0 {
		v := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.follow(v)
	}
	c.Min(rn, rn+": numbers followed", 10)
	c.Min(rn, rn+": uses within bounds", 6)
}

// elemSource: v reads one element of a command's Data or List.
func elemSource(v ssa.Value) string {
	field := func(x ssa.Value, i int) string {
		f, ok := structField(x, i)
		if !ok || f.st.Obj().Name() != "RMBCommand" {
			return ""
		}
		if f.name == "List" || f.name == "Data" {
			return f.name
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if fa, ok := ia.X.(*ssa.FieldAddr); ok {
				return field(fa.X, fa.Field)
			}
		}
	case *ssa.Index:
		if f, ok := x.X.(*ssa.Field); ok {
			return field(f.X, f.Field)
		}
		// the array copied as a whole
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return field(fa.X, fa.Field)
			}
		}
	}
	return ""
}

func (a *rmbNums) list(v ssa.Value, from string) {
	if _, ok := a.lists[v]; ok {
		return
	}
	a.lists[v] = from
	a.work = append(a.work, v)
}

func (a *rmbNums) num(v ssa.Value, from string) {
	if _, ok := a.vals[v]; ok {
		return
	}
	a.vals[v] = from
	a.c.Count(a.rn+": numbers followed", 1)
	a.work = append(a.work, v)
}

func (a *rmbNums) follow(v ssa.Value) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	if from, ok := a.lists[v]; ok {
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if x.X == v {
					for _, u := range *x.Referrers() {
						if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
							a.num(l, from)
						}
					}
				}
			case *ssa.Slice:
				a.list(x, from)
			case *ssa.Phi:
				a.list(x, from)
			case *ssa.ChangeType:
				a.list(x, from)
			case ssa.CallInstruction:
				a.toParams(x, v, func(pr ssa.Value) { a.list(pr, from) })
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					a.loads(al, func(l ssa.Value) { a.list(l, from) })
				}
			}
		}
		return
	}
	from := a.vals[v]
	own := from == "own" // a command's own number may be a distance
	fn := v.Parent()
	for _, in := range *refs {
		b := in.Block()
		ok := func() bool {
			r := a.bounded(v, allGuards(b))
			if r.lo && r.hi {
				a.c.Count(a.rn+": uses within bounds", 1)
			}
			return r.lo && r.hi
		}
		bad := func(what string) {
			r := a.bounded(v, allGuards(b))
			end := "is not known to be within the range"
			if r.lo {
				end = "is not known to be below the number of things there are"
			} else if r.hi {
				end = "is not known not to be negative"
			}
			a.c.Site(FullName(fn), a.p.InstrPos(in))
			a.c.Viol(a.rn, "R04|"+what+" ["+fn.Name()+"]", a.p.InstrPos(in), what+": a number from an RMB option "+end+" in "+FullName(fn))
		}
		switch x := in.(type) {
		case *ssa.IndexAddr:
			if x.Index == v {
				if !ok() {
					bad("unchecked number used as index")
				}
			}
		case *ssa.Index:
			if x.Index == v && !ok() {
				bad("unchecked number used as index")
			}
		case *ssa.Lookup:
			if x.Index == v && a.truncated(v) {
				bad("truncated number used as index")
			}
		case *ssa.MapUpdate:
			if x.Key == v && a.truncated(v) {
				bad("truncated number used as index")
			}
		case *ssa.Convert:
			if narrower(x, v) {
				r := a.bounded(v, allGuards(b))
				if r.lo && (r.hi || r.fits) {
					a.c.Count(a.rn+": uses within bounds", 1)
					continue
				}
				if onlyCompared(x) {
					continue
				}
			}
			if !ok() {
				a.num(x, from)
			}
		case *ssa.ChangeType:
			a.num(x, from)
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.SHL, token.SHR, token.OR:
				if !ok() {
					a.num(x, from)
				}
			}
		case *ssa.Phi:
			for i, e := range x.Edges {
				if e != v {
					continue
				}
				r := a.bounded(v, edgeGuards(x.Block().Preds[i], x.Block()))
				if !r.lo || !r.hi {
					a.num(x, from)
				}
			}
		case ssa.CallInstruction:
			if isLogFn(x.Common().StaticCallee()) || ok() {
				continue
			}
			a.toParams(x, v, func(pr ssa.Value) { a.num(pr, from) })
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if al, isA := x.Addr.(*ssa.Alloc); isA {
				if !ok() {
					a.loads(al, func(l ssa.Value) { a.num(l, from) })
				}
				continue
			}
			if own {
				continue
			}
			if !ok() {
				bad("unchecked number kept")
			}
		}
	}
}

// truncated: v is the result of a narrowing conversion.
func (a *rmbNums) truncated(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		v = onceStored(v)
		cv, ok := v.(*ssa.Convert)
		if !ok {
			return false
		}
		if narrower(cv, cv.X) {
			return true
		}
		v = cv.X
	}
	return false
}

// onlyCompared: a conversion that only serves to see whether the number fits.
func onlyCompared(v ssa.Value) bool {
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.Convert:
			if !onlyCompared(x) {
				return false
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (a *rmbNums) loads(al *ssa.Alloc, f func(ssa.Value)) {
	for _, in := range *al.Referrers() {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			f(u)
		}
	}
}

func (a *rmbNums) toParams(ci ssa.CallInstruction, v ssa.Value, f func(ssa.Value)) {
	for _, g := range a.p.Callees(ci) {
		if g == nil || g.Blocks == nil || !a.p.InRepo(g) || isLogFn(g) {
			continue
		}
		off := 0
		if ci.Common().IsInvoke() {
			off = 1
		}
		for i, arg := range ci.Common().Args {
			if arg == v && i+off < len(g.Params) {
				f(g.Params[i+off])
			}
		}
	}
}
