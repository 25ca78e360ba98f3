package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conditional constant propagation over the whole program: which blocks can
// run, and which constants (or functions) each value, field and parameter can
// be, given that some locations or results are pinned to a constant.
// Field contents are kept per type and field, without regard to order.

// aval: any value (top) or a small set of constants ("i:5", "b:true", "f:Name", "nil").
type aval struct {
	top bool
	m   map[string]ssa.Value // constant or function; nil for folded ones
}

const avalMax = 12

func (a *aval) bottom() bool { return a == nil || (!a.top && len(a.m) == 0) }

func (a *aval) has(k string) bool {
	if a == nil {
		return false
	}
	if a.top {
		return true
	}
	_, ok := a.m[k]
	return ok
}

func (a *aval) String() string {
	if a == nil {
		return "{}"
	}
	if a.top {
		return "any"
	}
	var r []string
	for k := range a.m {
		r = append(r, k)
	}
	sort.Strings(r)
	return "{" + strings.Join(r, " ") + "}"
}

var avTop = &aval{top: true}

func avOne(k string, v ssa.Value) *aval { return &aval{m: map[string]ssa.Value{k: v}} }
func avInt(n int64) *aval               { return avOne("i:"+strconv.FormatInt(n, 10), nil) }
func avBool(b bool) *aval {
	if b {
		return avOne("b:true", nil)
	}
	return avOne("b:false", nil)
}

func avInts(a *aval) (r []int64) {
	for k := range a.m {
		if strings.HasPrefix(k, "i:") {
			n, _ := strconv.ParseInt(k[2:], 10, 64)
			r = append(r, n)
		}
	}
	return
}

func cpTyped(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *types.Signature:
		return true
	}
	return false
}

func zeroAval(t types.Type) *aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return avBool(false)
		}
		return avInt(0)
	case *types.Signature:
		return avOne("nil", nil)
	}
	return avTop
}

// cpIndex: what does not depend on a run.
type cpIndex struct {
	p       *Prog
	cls     map[ssa.Instruction]string // loads, stores, field reads of tracked locations
	loads   map[string][]ssa.Instruction
	typ     map[string]types.Type
	zero    map[string]bool // class may hold the zero value
	always  map[string]bool // class may hold anything
	noret   map[ssa.Instruction]bool
	callees map[ssa.CallInstruction][]*ssa.Function
}

func (p *Prog) cpIdx() *cpIndex {
	p.NoReturn()
	taken := p.AddrTaken()
	x := &cpIndex{p: p, cls: map[ssa.Instruction]string{}, loads: map[string][]ssa.Instruction{}, typ: map[string]types.Type{}, zero: map[string]bool{}, always: map[string]bool{}, noret: map[ssa.Instruction]bool{}, callees: p.callees}
	local := map[*ssa.Alloc]bool{}
	var simple func(v ssa.Value, depth int) bool
	simple = func(v ssa.Value, depth int) bool { // only loaded, stored to and captured
		if depth > 5 {
			return false
		}
		for _, ref := range *v.Referrers() {
			switch u := ref.(type) {
			case *ssa.Store:
				if u.Val == v {
					return false
				}
			case *ssa.UnOp:
				if u.Op != token.MUL {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b == v && !simple(u.Fn.(*ssa.Function).FreeVars[i], depth+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	freeOf := map[*ssa.FreeVar]*ssa.Alloc{}
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		a, ok := in.(*ssa.Alloc)
		if !ok || !cpTyped(deref(a.Type())) || !simple(a, 0) {
			return
		}
		local[a] = true
		var bind func(v ssa.Value)
		bind = func(v ssa.Value) {
			for _, ref := range *v.Referrers() {
				if u, ok := ref.(*ssa.MakeClosure); ok {
					for i, b := range u.Bindings {
						if b == v {
							fv := u.Fn.(*ssa.Function).FreeVars[i]
							if freeOf[fv] == nil {
								freeOf[fv] = a
								bind(fv)
							}
						}
					}
				}
			}
		}
		bind(a)
	})
	allocID := map[*ssa.Alloc]string{}
	classOf := func(a ssa.Value) (string, types.Type) {
		t := deref(a.Type())
		switch v := a.(type) {
		case *ssa.FieldAddr:
			c, _ := fieldClass(v.X.Type(), v.Field)
			if taken[c] {
				return "", nil
			}
			return c, t
		case *ssa.Global:
			return "G:" + v.Name(), t
		case *ssa.Alloc, *ssa.FreeVar:
			al, _ := a.(*ssa.Alloc)
			if f, ok := a.(*ssa.FreeVar); ok {
				al = freeOf[f]
			}
			if al == nil || !local[al] {
				return "", nil
			}
			if allocID[al] == "" {
				allocID[al] = "A:" + strconv.Itoa(len(allocID)) + ":" + al.Name()
				x.zero[allocID[al]] = true
			}
			return allocID[al], t
		}
		return "", nil
	}
	globalTaken := map[string]bool{}
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			g, ok := (*op).(*ssa.Global)
			if !ok || !cpTyped(deref(g.Type())) {
				continue
			}
			switch u := in.(type) {
			case *ssa.UnOp:
				continue
			case *ssa.Store:
				if u.Val != g {
					continue
				}
			}
			globalTaken["G:"+g.Name()] = true
		}
	})
	// zero values of freshly made objects
	var zeroOf func(t types.Type, depth int)
	zeroOf = func(t types.Type, depth int) {
		if depth > 6 {
			return
		}
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				c, ft := fieldClass(t, i)
				x.zero[c] = true
				zeroOf(ft, depth+1)
			}
		case *types.Array:
			zeroOf(u.Elem(), depth+1)
		}
	}
	any := func(t types.Type) {
		m := map[string]bool{}
		typeClasses(deref(t), m, 0)
		for k := range m {
			x.always[k] = true
		}
	}
	// one object seen as two types: their fields are the same locations
	other := func(a, b types.Type) {
		for _, t := range []types.Type{a, b} {
			if _, ok := deref(t).Underlying().(*types.Struct); ok {
				any(t)
			}
		}
	}
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		switch v := in.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL && cpTyped(v.Type()) {
				if c, t := classOf(v.X); c != "" && !globalTaken[c] {
					x.cls[v], x.typ[c] = c, t
					x.loads[c] = append(x.loads[c], v)
				}
			}
		case *ssa.Field:
			if cpTyped(v.Type()) {
				c, t := fieldClass(v.X.Type(), v.Field)
				if !taken[c] {
					x.cls[v], x.typ[c] = c, t
					x.loads[c] = append(x.loads[c], v)
				}
			}
		case *ssa.Store:
			if cpTyped(v.Val.Type()) {
				if c, t := classOf(v.Addr); c != "" {
					x.cls[v], x.typ[c] = c, t
				}
			} else if k, ok := v.Val.(*ssa.Const); ok && k.Value == nil {
				zeroOf(v.Val.Type(), 0)
			}
		case *ssa.Alloc:
			t := deref(v.Type())
			st, ok := types.Unalias(t).Underlying().(*types.Struct)
			if !ok {
				zeroOf(t, 0)
				return
			}
			whole := false
			set := map[int]bool{}
			for _, ref := range *v.Referrers() {
				switch u := ref.(type) {
				case *ssa.Store:
					if u.Addr == v {
						whole = true
					}
				case *ssa.FieldAddr:
					for _, r2 := range *u.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == u {
							set[u.Field] = true
						}
					}
				}
			}
			if whole {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				if !set[i] {
					c, ft := fieldClass(t, i)
					x.zero[c] = true
					zeroOf(ft, 0)
				}
			}
		case *ssa.MakeInterface:
			// may be filled in by encoding/binary
			t := v.X.Type()
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			} else if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
				if s, ok := t.Underlying().(*types.Slice); ok {
					t = s.Elem()
				}
			} else {
				return
			}
			if _, ok := binSize(t); ok {
				any(t)
			}
		case *ssa.Convert:
			other(v.Type(), v.X.Type())
		case *ssa.ChangeType:
			other(v.Type(), v.X.Type())
		case *ssa.MakeSlice:
			zeroOf(v.Type().Underlying().(*types.Slice).Elem(), 0)
		case *ssa.MakeMap:
			zeroOf(v.Type().Underlying().(*types.Map).Elem(), 0)
		case *ssa.MakeChan:
			zeroOf(v.Type().Underlying().(*types.Chan).Elem(), 0)
		}
		if _, ok := in.(ssa.CallInstruction); ok && p.isNoReturnCall(in) {
			x.noret[in] = true
		}
	})
	for _, m := range p.Main.Members {
		if g, ok := m.(*ssa.Global); ok {
			x.zero["G:"+g.Name()] = true
			zeroOf(deref(g.Type()), 0)
		}
	}
	return x
}

// cpRun is one propagation.
type cpRun struct {
	x      *cpIndex
	pin    map[string]*aval // class → value of every load
	pinVal func(v ssa.Value) *aval
	skip   func(st *ssa.Store) bool // stores that do not count
	noZero map[string]bool          // classes whose unset value does not count

	vals   map[ssa.Value]*aval
	tup    map[*ssa.Call][]*aval
	cls    map[string]*aval
	res    map[*ssa.Function][]*aval
	sites  map[*ssa.Function]map[ssa.CallInstruction]bool
	reach  map[*ssa.BasicBlock]bool
	edges  map[[2]*ssa.BasicBlock]bool
	dead   map[*ssa.BasicBlock]bool // runs into a call that does not return
	queue  []*ssa.BasicBlock
	queued map[*ssa.BasicBlock]bool
}

func (x *cpIndex) run(pin map[string]*aval, pinVal func(ssa.Value) *aval, skip func(*ssa.Store) bool, roots []*ssa.Function) *cpRun {
	return x.runNZ(pin, pinVal, skip, nil, roots)
}

func (x *cpIndex) runNZ(pin map[string]*aval, pinVal func(ssa.Value) *aval, skip func(*ssa.Store) bool, noZero map[string]bool, roots []*ssa.Function) *cpRun {
	r := &cpRun{x: x, pin: pin, pinVal: pinVal, skip: skip, noZero: noZero,
		vals: map[ssa.Value]*aval{}, tup: map[*ssa.Call][]*aval{}, cls: map[string]*aval{}, res: map[*ssa.Function][]*aval{},
		sites: map[*ssa.Function]map[ssa.CallInstruction]bool{}, reach: map[*ssa.BasicBlock]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}, dead: map[*ssa.BasicBlock]bool{}, queued: map[*ssa.BasicBlock]bool{}}
	for c := range x.typ {
		if x.zero[c] && !noZero[c] {
			r.cls[c] = zeroAval(x.typ[c])
		}
		if x.always[c] {
			r.cls[c] = avTop
		}
	}
	for _, f := range roots {
		for _, pa := range f.Params {
			r.vals[pa] = avTop
		}
		r.enterFn(f)
	}
	for len(r.queue) > 0 {
		b := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.queued[b] = false
		r.block(b)
	}
	return r
}

func (r *cpRun) push(b *ssa.BasicBlock) {
	if b != nil && r.reach[b] && !r.queued[b] {
		r.queued[b] = true
		r.queue = append(r.queue, b)
	}
}

func (r *cpRun) enterFn(f *ssa.Function) {
	if f.Blocks == nil || r.reach[f.Blocks[0]] {
		return
	}
	r.reach[f.Blocks[0]] = true
	r.push(f.Blocks[0])
	if f.Recover != nil && !r.reach[f.Recover] {
		r.reach[f.Recover] = true
		r.push(f.Recover)
	}
}

func merge(a, b *aval) (*aval, bool) {
	if b.bottom() {
		return a, false
	}
	if a == nil {
		return b, true
	}
	if a.top {
		return a, false
	}
	if b.top {
		return avTop, true
	}
	var add []string
	for k := range b.m {
		if _, ok := a.m[k]; !ok {
			add = append(add, k)
		}
	}
	if len(add) == 0 {
		return a, false
	}
	if len(a.m)+len(add) > avalMax {
		return avTop, true
	}
	n := &aval{m: map[string]ssa.Value{}}
	for k, v := range a.m {
		n.m[k] = v
	}
	for _, k := range add {
		n.m[k] = b.m[k]
	}
	return n, true
}

func (r *cpRun) set(v ssa.Value, a *aval) {
	n, ch := merge(r.vals[v], a)
	if !ch {
		return
	}
	r.vals[v] = n
	if refs := v.Referrers(); refs != nil {
		for _, ref := range *refs {
			r.push(ref.Block())
		}
	}
}

func (r *cpRun) setClass(c string, a *aval) {
	n, ch := merge(r.cls[c], a)
	if !ch {
		return
	}
	r.cls[c] = n
	for _, in := range r.x.loads[c] {
		r.push(in.Block())
	}
}

func (r *cpRun) val(v ssa.Value) *aval {
	switch u := v.(type) {
	case *ssa.Const:
		return constAval(u)
	case *ssa.Function:
		return avOne("f:"+FullName(u), u)
	case *ssa.Builtin, *ssa.Global:
		return avTop
	}
	return r.vals[v]
}

func constAval(k *ssa.Const) *aval {
	if k.Value == nil {
		if _, ok := k.Type().Underlying().(*types.Signature); ok {
			return avOne("nil", nil)
		}
		return avTop
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return avBool(constant.BoolVal(k.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(k.Value); ok {
			return avInt(n)
		}
	}
	return avTop
}

func wrapInt(n int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func (r *cpRun) binop(u *ssa.BinOp) *aval {
	a, b := r.val(u.X), r.val(u.Y)
	if a.bottom() || b.bottom() {
		if (a.bottom() && r.tracked(u.X)) || (b.bottom() && r.tracked(u.Y)) {
			return nil
		}
		return avTop
	}
	if a.top || b.top {
		return avTop
	}
	res := (*aval)(nil)
	for ka := range a.m {
		for kb := range b.m {
			var one *aval
			switch {
			case strings.HasPrefix(ka, "i:") && strings.HasPrefix(kb, "i:"):
				n, _ := strconv.ParseInt(ka[2:], 10, 64)
				m, _ := strconv.ParseInt(kb[2:], 10, 64)
				one = foldInt(u.Op, n, m, u.Type())
			default:
				switch u.Op {
				case token.EQL:
					if strings.HasPrefix(ka, "f:") && strings.HasPrefix(kb, "f:") {
						return avTop
					}
					one = avBool(ka == kb)
				case token.NEQ:
					if strings.HasPrefix(ka, "f:") && strings.HasPrefix(kb, "f:") {
						return avTop
					}
					one = avBool(ka != kb)
				default:
					return avTop
				}
			}
			res, _ = merge(res, one)
		}
	}
	return res
}

func foldInt(op token.Token, a, b int64, t types.Type) *aval {
	switch op {
	case token.EQL:
		return avBool(a == b)
	case token.NEQ:
		return avBool(a != b)
	case token.LSS:
		return avBool(a < b)
	case token.LEQ:
		return avBool(a <= b)
	case token.GTR:
		return avBool(a > b)
	case token.GEQ:
		return avBool(a >= b)
	case token.ADD:
		return avInt(wrapInt(a+b, t))
	case token.SUB:
		return avInt(wrapInt(a-b, t))
	case token.MUL:
		return avInt(wrapInt(a*b, t))
	case token.AND:
		return avInt(wrapInt(a&b, t))
	case token.OR:
		return avInt(wrapInt(a|b, t))
	case token.XOR:
		return avInt(wrapInt(a^b, t))
	case token.AND_NOT:
		return avInt(wrapInt(a&^b, t))
	case token.SHL:
		if b >= 0 && b < 62 {
			return avInt(wrapInt(a<<uint(b), t))
		}
	case token.SHR:
		if b >= 0 && b < 64 && a >= 0 {
			return avInt(a >> uint(b))
		}
	}
	return avTop
}

// tracked: values whose absence means "not computed yet"
func (r *cpRun) tracked(v ssa.Value) bool { return cpTyped(v.Type()) }

func (r *cpRun) block(b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		if v, ok := in.(ssa.Value); ok && r.pinVal != nil {
			if a := r.pinVal(v); a != nil {
				r.set(v, a)
				if _, isCall := in.(*ssa.Call); !isCall {
					continue
				}
			}
		}
		switch u := in.(type) {
		case *ssa.Phi:
			if !cpTyped(u.Type()) {
				continue
			}
			for i, e := range u.Edges {
				if r.edges[[2]*ssa.BasicBlock{b.Preds[i], b}] {
					r.set(u, r.val(e))
				}
			}
		case *ssa.BinOp:
			r.set(u, r.binop(u))
		case *ssa.UnOp:
			switch {
			case !cpTyped(u.Type()):
			case u.Op == token.MUL:
				c := r.x.cls[u]
				if c == "" {
					r.set(u, avTop)
				} else if a := r.pin[c]; a != nil {
					r.set(u, a)
				} else {
					r.set(u, r.cls[c])
				}
			case u.Op == token.NOT:
				a := r.val(u.X)
				if a == nil {
					continue
				}
				if a.top {
					r.set(u, avTop)
					continue
				}
				if a.has("b:true") {
					r.set(u, avBool(false))
				}
				if a.has("b:false") {
					r.set(u, avBool(true))
				}
			case u.Op == token.SUB:
				a := r.val(u.X)
				if a == nil {
					continue
				}
				if a.top {
					r.set(u, avTop)
					continue
				}
				for _, n := range avInts(a) {
					r.set(u, avInt(wrapInt(-n, u.Type())))
				}
			default:
				r.set(u, avTop)
			}
		case *ssa.Convert:
			a := r.val(u.X)
			bt, ok := u.Type().Underlying().(*types.Basic)
			sb, ok2 := u.X.Type().Underlying().(*types.Basic)
			if ok && ok2 && bt.Info()&types.IsInteger != 0 && sb.Info()&types.IsInteger != 0 {
				if a == nil {
					continue
				}
				if !a.top {
					for _, n := range avInts(a) {
						r.set(u, avInt(wrapInt(n, u.Type())))
					}
					continue
				}
			}
			r.set(u, avTop)
		case *ssa.ChangeType:
			r.set(u, r.val(u.X))
		case *ssa.Field:
			if c := r.x.cls[u]; c != "" {
				if a := r.pin[c]; a != nil {
					r.set(u, a)
				} else {
					r.set(u, r.cls[c])
				}
			} else {
				r.set(u, avTop)
			}
		case *ssa.MakeClosure:
			f := u.Fn.(*ssa.Function)
			for i, bi := range u.Bindings {
				r.set(f.FreeVars[i], r.val(bi))
			}
			r.set(u, avOne("f:"+FullName(f), f))
		case *ssa.Extract:
			if c, ok := u.Tuple.(*ssa.Call); ok {
				if t := r.tup[c]; t != nil {
					if u.Index < len(t) {
						r.set(u, t[u.Index])
					}
				}
			} else {
				r.set(u, avTop)
			}
		case *ssa.Store:
			if c := r.x.cls[u]; c != "" && (r.skip == nil || !r.skip(u)) {
				r.setClass(c, r.val(u.Val))
			}
		case *ssa.Call:
			if !r.call(u, u) {
				r.dead[b] = true
				return
			}
		case *ssa.Go:
			r.call(u, nil)
		case *ssa.Defer:
			r.call(u, nil)
		case *ssa.Return:
			f := b.Parent()
			if r.res[f] == nil {
				r.res[f] = make([]*aval, len(u.Results))
			}
			ch := false
			if len(u.Results) == 0 && !r.returned(f) {
				r.res[f] = append(r.res[f], avTop)
				ch = true
			}
			for i, v := range u.Results {
				a := r.val(v)
				if !cpTyped(v.Type()) {
					a = avTop
				}
				n, c := merge(r.res[f][i], a)
				r.res[f][i] = n
				ch = ch || c
			}
			if ch {
				for s := range r.sites[f] {
					r.push(s.Block())
				}
			}
		case *ssa.If:
			a := r.val(u.Cond)
			if a.has("b:true") {
				r.edge(b, b.Succs[0])
			}
			if a.has("b:false") {
				r.edge(b, b.Succs[1])
			}
		case *ssa.Jump:
			r.edge(b, b.Succs[0])
		default:
			if v, ok := in.(ssa.Value); ok && cpTyped(v.Type()) {
				r.set(v, avTop)
			}
		}
	}
}

func (r *cpRun) returned(f *ssa.Function) bool {
	for _, a := range r.res[f] {
		if !a.bottom() {
			return true
		}
	}
	return false
}

func (r *cpRun) edge(a, b *ssa.BasicBlock) {
	e := [2]*ssa.BasicBlock{a, b}
	if r.edges[e] && r.reach[b] {
		return
	}
	r.edges[e] = true
	r.reach[b] = true
	r.push(b)
}

// call passes arguments on and takes results; false: cannot return (yet).
func (r *cpRun) call(ci ssa.CallInstruction, out *ssa.Call) bool {
	com := ci.Common()
	if _, ok := com.Value.(*ssa.Builtin); ok {
		if out != nil {
			r.set(out, avTop)
		}
		return true
	}
	cs := r.x.callees[ci]
	if !com.IsInvoke() && com.StaticCallee() == nil {
		if a := r.val(com.Value); a != nil && !a.top {
			cs = nil
			for _, v := range a.m {
				if f, ok := v.(*ssa.Function); ok {
					cs = append(cs, f)
				}
			}
			if len(cs) == 0 {
				return false
			}
		}
	}
	ret := len(cs) == 0
	var n int
	if out != nil {
		n = 1
		if t, ok := out.Type().(*types.Tuple); ok {
			n = t.Len()
		}
	}
	res := make([]*aval, n)
	for _, f := range cs {
		if f.Blocks == nil || !r.x.p.InRepo(f) {
			w := unwrap(f)
			if w != nil && w != f && w.Blocks != nil && r.x.p.InRepo(w) {
				for _, pa := range w.Params {
					r.set(pa, avTop)
				}
				r.enterFn(w)
			}
			if !libNoReturn(f) {
				ret = true
				for i := range res {
					res[i] = avTop
				}
			}
			continue
		}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		if r.x.p.InRepo(f) && len(args) == len(f.Params) && directCallee(com, f) {
			for i, a := range args {
				if cpTyped(f.Params[i].Type()) {
					r.set(f.Params[i], r.val(a))
				} else {
					r.set(f.Params[i], avTop)
				}
			}
		} else {
			for _, pa := range f.Params {
				r.set(pa, avTop)
			}
			for i := range res {
				res[i] = avTop
			}
			ret = true
		}
		if r.sites[f] == nil {
			r.sites[f] = map[ssa.CallInstruction]bool{}
		}
		r.sites[f][ci] = true
		r.enterFn(f)
		if r.returned(f) {
			ret = true
		}
		for i := range res {
			if i < len(r.res[f]) {
				res[i], _ = merge(res[i], r.res[f][i])
			}
		}
	}
	if len(cs) == 0 {
		for i := range res {
			res[i] = avTop
		}
	}
	if out != nil {
		if r.pinVal != nil && r.pinVal(out) != nil {
			ret = true
		} else if _, ok := out.Type().(*types.Tuple); ok {
			old := r.tup[out]
			if old == nil {
				old = make([]*aval, n)
			}
			ch := false
			for i := range old {
				v, c := merge(old[i], res[i])
				old[i] = v
				ch = ch || c
			}
			r.tup[out] = old
			if ch {
				for _, ref := range *out.Referrers() {
					r.push(ref.Block())
				}
			}
		} else if n == 1 {
			r.set(out, res[0])
		}
	}
	return ret
}

// directCallee: f is called by this instruction itself, not back from a library
func directCallee(com *ssa.CallCommon, f *ssa.Function) bool {
	if com.IsInvoke() {
		return f.Name() == com.Method.Name()
	}
	if sc := com.StaticCallee(); sc != nil {
		return sc == f
	}
	return types.Identical(com.Value.Type().Underlying(), f.Signature)
}
