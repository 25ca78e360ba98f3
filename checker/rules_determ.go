package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- map order

// mapLoop is a loop over the entries of a map.
type mapLoop struct {
	fn     *ssa.Function
	rng    *ssa.Range
	next   *ssa.Next
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	vars   map[ssa.Value]bool // key and value of the entry
}

func mapLoops(fn *ssa.Function) []*mapLoop {
	var out []*mapLoop
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok || n.IsString {
				continue
			}
			rg, ok := n.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			l := &mapLoop{fn: fn, rng: rg, next: n, header: b, blocks: map[*ssa.BasicBlock]bool{b: true}, vars: map[ssa.Value]bool{}}
			for _, x := range fn.Blocks {
				if x != b && b.Dominates(x) && reaches(x, b) {
					l.blocks[x] = true
				}
			}
			for _, r := range *n.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index > 0 {
					l.vars[e] = true
				}
			}
			out = append(out, l)
		}
	}
	return out
}

// from: the value is computed from one of the sources.
func computedVia(v ssa.Value, src map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	if src[v] {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Alloc); ok {
		// a variable: what it is set to
		for _, x := range storedIn(v.(*ssa.Alloc), -1) {
			if computedVia(x, src, seen) {
				return true
			}
		}
		return false
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && computedVia(*op, src, seen) {
			return true
		}
	}
	return false
}

// sortArg: the call sorts its argument; the value sorted.
func sortArg(in ssa.Instruction) ssa.Value {
	ci, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	f := ci.Common().StaticCallee()
	if f == nil || len(ci.Common().Args) == 0 {
		return nil
	}
	pk := ""
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	}
	if pk != "sort" && pk != "slices" || !strings.HasPrefix(f.Name(), "Sort") && f.Name() != "Stable" && f.Name() != "Slice" && f.Name() != "SliceStable" && f.Name() != "Ints" && f.Name() != "Strings" {
		return nil
	}
	return under(ci.Common().Args[0])
}

func under(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

func loadedClass(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			c, _ := fieldClass(fa.X.Type(), fa.Field)
			return c
		}
	}
	return ""
}

// sortedLater: on every way on from in, what field cls holds is sorted.
func (p *Prog) sortedLater(in ssa.Instruction, cls string, depth int) bool {
	fn := in.Parent()
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if v := sortArg(x); v != nil && loadedClass(v) == cls && instrReach(in, x) && !instrReach(x, in) && p.always(in, x) {
				return true
			}
		}
	}
	cs := p.callers[fn]
	if depth == 0 || len(cs) == 0 {
		return false
	}
	for _, ci := range cs {
		if ci.Parent() != fn && !p.sortedLater(ci, cls, depth-1) {
			return false
		}
	}
	return true
}

func isBool01(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// ruleMapOrder: L06 and L05: map iteration order.
func ruleMapOrder(c *Ctx) {
	p := c.P
	const rn = "map-order"
	c.Rule("map-order: what a loop over a map does is the same in whatever order the entries come: it writes to places named by the entry, constants, sums, or lists that are sorted afterwards on every way on; it leaves early only to fail or to answer a constant; only log text may depend on the order")
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || isLogFn(fn) || strings.HasPrefix(fn.Name(), "ReadZen") {
			continue
		}
		for _, l := range mapLoops(fn) {
			c.Count(rn+": loops over a map", 1)
			c.Site(rn+": loops over a map", p.InstrPos(l.rng))
			l.check(c, rn)
		}
	}
	c.Min(rn, rn+": loops over a map", 8)
}

func (l *mapLoop) check(c *Ctx, rn string) {
	p := c.P
	fn := l.fn
	viol := func(key string, in ssa.Instruction, msg string) {
		c.Viol(rn, "L06|"+key+" ["+fn.Name()+"]", p.InstrPos(in), msg+" in "+FullName(fn)+"; the order of a map's entries differs from run to run")
	}
	first := l.header.Instrs[0]
	fresh := map[ssa.Value]bool{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(*ssa.Alloc); ok {
				fresh[v] = true
			}
		}
	}
	named := func(v ssa.Value) bool { return computedVia(v, l.vars, map[ssa.Value]bool{}) }
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && l.blocks[i.Block()]
	}
	logOnly := func(v ssa.Value) bool { return flowsToLogOnly(p, v, map[ssa.Value]bool{}, 8) }
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store:
				c.Count(rn+": effects of such loops", 1)
				if isBool01(v.Val) || named(v.Addr) {
					continue
				}
				if ownLoop(v.Addr, fresh) {
					continue
				}
				if fa, ok := v.Addr.(*ssa.FieldAddr); ok {
					cls, _ := fieldClass(fa.X.Type(), fa.Field)
					if p.sortedLater(first, cls, 3) || sumOf(v.Val, cls) {
						continue
					}
				}
				viol("write that depends on map order", in, "what is written last depends on the order of the entries")
			case *ssa.MapUpdate:
				c.Count(rn+": effects of such loops", 1)
				if !named(v.Key) && !isBool01(v.Value) {
					viol("write that depends on map order", in, "which entry is written last depends on the order of the entries")
				}
			case *ssa.Send, *ssa.Go:
				viol("message that depends on map order", in, "messages are sent in the order of the entries")
			case *ssa.Phi:
				if b != l.header {
					continue
				}
				c.Count(rn+": variables carried through such loops", 1)
				for i, e := range v.Edges {
					if !l.blocks[v.Block().Preds[i]] || e == v {
						continue
					}
					if !orderless(v, e, l, map[ssa.Value]bool{}) && !logOnly(v) && !l.sortedValue(p, v) {
						viol("value that depends on map order", in, "variable "+v.Comment+" depends on the order of the entries")
					}
				}
			case *ssa.Return:
				for _, r := range v.Results {
					if _, ok := r.(*ssa.Const); !ok {
						viol("answer that depends on map order", in, "the answer given is that for whichever entry comes first")
					}
				}
			case ssa.CallInstruction:
				if _, ok := v.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				for _, f := range p.Callees(v) {
					if isLogFn(f) || !p.InRepo(f) {
						continue
					}
					l.callee(c, rn, v, f, first, viol)
				}
			}
			_ = inLoop
		}
		// other ways out of the loop
		for _, s := range b.Succs {
			if l.blocks[s] || b == l.header {
				continue
			}
			if p.deadEnd(fn, s) {
				continue
			}
			// values chosen by leaving early
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range ph.Edges {
					if s.Preds[i] == b && named(e) {
						viol("value that depends on map order", in, "the value kept when the loop is left is that of whichever entry comes first")
					}
				}
			}
			if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				for _, r := range ret.Results {
					if named(r) {
						viol("answer that depends on map order", ret, "the answer given is that for whichever entry comes first")
					}
				}
			}
		}
	}
}

// ownLoop: the address lies in memory allocated within the loop.
func ownLoop(v ssa.Value, fresh map[ssa.Value]bool) bool {
	for i := 0; i < 20; i++ {
		if fresh[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// sumOf: the value is the field's old value plus something.
func sumOf(v ssa.Value, cls string) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.ADD, token.OR, token.AND, token.XOR:
		return !isString(b.Type()) && (loadedClass(b.X) == cls || loadedClass(b.Y) == cls)
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// orderless: e, the next value of ph, does not depend on the order of the rounds.
func orderless(ph *ssa.Phi, e ssa.Value, l *mapLoop, seen map[ssa.Value]bool) bool {
	if e == ph || seen[e] {
		return true
	}
	seen[e] = true
	switch x := e.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		if !l.blocks[x.Block()] {
			return true
		}
		// least and greatest: a choice between the old value and another, which the
		// two were compared for
		for _, y := range x.Edges {
			if orderless(ph, y, l, seen) {
				continue
			}
			cmp := false
			for _, r := range *ph.Referrers() {
				if b, ok := r.(*ssa.BinOp); ok && (b.X == y || b.Y == y) {
					switch b.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						cmp = true
					}
				}
			}
			if !cmp {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL, token.SUB:
			if isString(x.Type()) || x.Op == token.SUB && x.X != ph {
				return false
			}
			o := x.X
			if o == ssa.Value(ph) {
				o = x.Y
			} else if x.Y != ssa.Value(ph) {
				// the old value reached through a choice
				return orderless(ph, x.X, l, seen) && !computedVia(x.Y, map[ssa.Value]bool{ph: true}, map[ssa.Value]bool{}) ||
					orderless(ph, x.Y, l, seen) && !computedVia(x.X, map[ssa.Value]bool{ph: true}, map[ssa.Value]bool{})
			}
			return !computedVia(o, map[ssa.Value]bool{ph: true}, map[ssa.Value]bool{})
		}
	}
	return !l.blocksHas(e)
}

func (l *mapLoop) blocksHas(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && l.blocks[i.Block()]
}

// sortedValue: the list gathered is sorted on every way on after the loop.
func (l *mapLoop) sortedValue(p *Prog, v *ssa.Phi) bool {
	for _, b := range l.fn.Blocks {
		if l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if x := sortArg(in); x != nil && x == ssa.Value(v) && p.always(l.header.Instrs[0], in) {
				return true
			}
		}
	}
	return false
}

// callee: effects of a call made for every entry.
func (l *mapLoop) callee(c *Ctx, rn string, ci ssa.CallInstruction, f *ssa.Function, first ssa.Instruction, viol func(string, ssa.Instruction, string)) {
	p := c.P
	below := p.below([]*ssa.Function{f})
	for g := range below {
		if isLogFn(g) {
			continue
		}
		c.Count(rn+": functions run for entries of a map", 1)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Store:
					if isBool01(v.Val) || freshBelow(p, v.Addr) || rootAlloc(v.Addr) || passing(p, v.Addr, below) {
						continue
					}
					addr := v.Addr
					if ia, ok := addr.(*ssa.IndexAddr); ok {
						if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL {
							addr = u.X
						}
					}
					if fa, ok := addr.(*ssa.FieldAddr); ok {
						cls, _ := fieldClass(fa.X.Type(), fa.Field)
						if p.sortedLater(first, cls, 3) || sumOf(v.Val, cls) || loggerClass(cls) {
							continue
						}
					}
					if _, ok := addr.(*ssa.Global); !ok {
						if _, ok := addr.(*ssa.FieldAddr); !ok {
							continue // memory of the callers, not told apart
						}
					}
					viol("call with effects that depend on map order", ci.(ssa.Instruction), "what "+FullName(g)+" writes ("+p.InstrPos(in)+") depends on the order of the entries")
				case *ssa.MapUpdate:
					if _, ok := under(v.Key).(*ssa.Parameter); ok || isBool01(v.Value) || freshBelow(p, v.Map) {
						continue
					}
					viol("call with effects that depend on map order", ci.(ssa.Instruction), "what "+FullName(g)+" puts into a map ("+p.InstrPos(in)+") depends on the order of the entries")
				case *ssa.Send:
					viol("message that depends on map order", ci.(ssa.Instruction), FullName(g)+" sends messages in the order of the entries")
				}
			}
		}
	}
}

// passing: the address lies in an object of a type whose objects are made within the
// functions given and are kept nowhere.
func passing(p *Prog, v ssa.Value, below map[*ssa.Function]*ssa.Function) bool {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			if n, ok := deref(x.X.Type()).(*types.Named); ok && madeWithin(p, n, below) {
				return true
			}
			v = x.X
		default:
			return false
		}
	}
	return false
}

func madeWithin(p *Prog, n *types.Named, below map[*ssa.Function]*ssa.Function) bool {
	var holds func(t types.Type, d int) bool
	holds = func(t types.Type, d int) bool {
		if types.Identical(t, n) {
			return true
		}
		if d == 0 {
			return false
		}
		switch u := t.(type) {
		case *types.Pointer:
			return holds(u.Elem(), d-1)
		case *types.Slice:
			return holds(u.Elem(), d-1)
		case *types.Array:
			return holds(u.Elem(), d-1)
		case *types.Map:
			return holds(u.Elem(), d-1) || holds(u.Key(), d-1)
		case *types.Chan:
			return holds(u.Elem(), d-1)
		}
		return false
	}
	for _, m := range p.Main.Members {
		switch x := m.(type) {
		case *ssa.Global:
			if holds(deref(x.Type()), 5) {
				return false
			}
		case *ssa.Type:
			if st, ok := x.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if holds(st.Field(i).Type(), 5) {
						return false
					}
				}
			}
		}
	}
	any := false
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				switch v := in.(type) {
				case *ssa.Alloc:
					t = deref(v.Type())
				case *ssa.MakeSlice:
					t = v.Type()
				default:
					continue
				}
				if holds(t, 3) {
					if _, ok := below[fn]; !ok && !copies(in) {
						return false
					}
					any = true
				}
			}
		}
	}
	return any
}

// copies: a local variable that only takes whole values made elsewhere.
func copies(in ssa.Instruction) bool {
	al, ok := in.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, v := range storedIn(al, -1) {
		switch v.(type) {
		case *ssa.Parameter, *ssa.UnOp, *ssa.Call, *ssa.Extract:
		default:
			return false
		}
	}
	return true
}

func loggerClass(cls string) bool {
	switch classOwner(cls) {
	case "MyLogger", "MiniLogger", "ZExt_MiniLogger":
		return true
	}
	return false
}

func rootAlloc(v ssa.Value) bool {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// flowsToLogOnly: every use of the value ends in a call of the log.
func flowsToLogOnly(p *Prog, v ssa.Value, seen map[ssa.Value]bool, depth int) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if depth == 0 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi, *ssa.BinOp, *ssa.Slice, *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.Extract:
			if b, ok := r.(*ssa.BinOp); ok {
				switch b.Op {
				case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
					o := b.Y
					if o == v {
						o = b.X
					}
					if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" {
						continue // whether anything was gathered at all
					}
				}
			}
			if !flowsToLogOnly(p, r.(ssa.Value), seen, depth-1) {
				return false
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok && flowsToLogOnly(p, al, seen, depth-1) {
					continue
				}
			}
			return false
		case *ssa.IndexAddr:
		case ssa.CallInstruction:
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if cv, ok := r.(ssa.Value); ok && onlyZeroTested(cv) {
					continue
				}
			}
			fs := p.Callees(x)
			if len(fs) == 0 {
				return false
			}
			for _, f := range fs {
				if isLogFn(f) {
					continue
				}
				n := FullName(f)
				if n == "fmt.Sprintf" || strings.HasPrefix(n, "strconv.") {
					if cv, ok := r.(ssa.Value); ok && flowsToLogOnly(p, cv, seen, depth-1) {
						continue
					}
				}
				return false
			}
		default:
			return false
		}
	}
	return true
}

// onlyZeroTested: a length of which only is asked whether it is zero.
func onlyZeroTested(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok {
			return false
		}
		o := b.Y
		if o == v {
			o = b.X
		}
		k, ok := o.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		n, ok := constInt(k.Value)
		if !ok || n != 0 {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- sources

// nondeterministic: functions whose answers differ from run to run.
func nondeterministic(n string) bool {
	switch n {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getenv", "os.LookupEnv", "os.Environ",
		"runtime.NumGoroutine", "runtime.ReadMemStats", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "os.Getwd":
		return true
	}
	return strings.HasPrefix(n, "math/rand.") || strings.HasPrefix(n, "math/rand/v2.") || strings.HasPrefix(n, "(*math/rand.") || strings.HasPrefix(n, "crypto/rand.") || strings.HasPrefix(n, "hash/maphash.") || strings.HasPrefix(n, "(*hash/maphash.") || strings.HasPrefix(n, "(hash/maphash.")
}

// ruleSources: clock, random numbers, addresses never reach anything but the log.
func ruleSources(c *Ctx) {
	p := c.P
	const rn = "sources"
	c.Rule("sources: a value read from the clock, a random number, the process's surroundings or a memory address flows into the log only: it is never compared, stored outside the timers it is kept in, sent, or used as an index or size; addresses are at most compared for equality; the number of processors only decides how many workers are started")
	type item struct {
		v   ssa.Value
		src string
	}
	var work []item
	seen := map[ssa.Value]bool{}
	cls := map[string]string{}
	push := func(v ssa.Value, src string) {
		if !seen[v] {
			seen[v] = true
			work = append(work, item{v, src})
		}
	}
	loads := map[string][]ssa.Value{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Call:
					for _, f := range p.Callees(v) {
						if nondeterministic(FullName(f)) {
							c.Count(rn+": sources", 1)
							c.Site(rn+": sources", p.InstrPos(in))
							push(v, FullName(f))
						}
					}
				case *ssa.Convert:
					if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if xt, ok := v.X.Type().Underlying().(*types.Basic); ok && xt.Kind() == types.UnsafePointer {
							c.Count(rn+": sources", 1)
							c.Site(rn+": sources", p.InstrPos(in))
							push(v, "memory address")
						}
					}
				case *ssa.UnOp:
					if cl := loadedClass(v); cl != "" {
						loads[cl] = append(loads[cl], v)
					}
				case *ssa.Field:
					cl, _ := fieldClass(v.X.Type(), v.Field)
					loads[cl] = append(loads[cl], v)
				}
			}
		}
	}
	viol := func(in ssa.Instruction, it item, what string) {
		fn := in.Parent()
		c.Viol(rn, "L06|"+it.src+" reaches results ["+fn.Name()+"]", p.InstrPos(in), "a value from "+it.src+" is "+what+" in "+FullName(fn)+", so the result may differ from run to run")
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.v.Referrers() == nil {
			continue
		}
		for _, r := range *it.v.Referrers() {
			c.Count(rn+": uses of such values", 1)
			fn := r.Parent()
			if isLogFn(fn) {
				continue
			}
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if it.src == "memory address" && (x.Op == token.EQL || x.Op == token.NEQ) {
					continue
				}
				push(x, it.src)
			case *ssa.If:
				viol(r, it, "decided on")
			case *ssa.Store:
				if x.Val != it.v {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.Alloc:
					push(a, it.src)
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						push(al, it.src)
					} else {
						viol(r, it, "stored")
					}
				case *ssa.FieldAddr:
					cl, ft := fieldClass(a.X.Type(), a.Field)
					n := types.TypeString(ft, nil)
					if n != "time.Time" && n != "time.Duration" {
						viol(r, it, "stored in "+strings.TrimPrefix(cl, "F:"))
						continue
					}
					if cls[cl] == "" {
						cls[cl] = it.src
						for _, l := range loads[cl] {
							push(l, it.src)
						}
					}
				default:
					viol(r, it, "stored")
				}
			case *ssa.Return:
				for i, res := range x.Results {
					if res != it.v {
						continue
					}
					for _, ci := range p.callers[fn] {
						cv, ok := ci.(*ssa.Call)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							push(cv, it.src)
							continue
						}
						for _, rr := range *cv.Referrers() {
							if e, ok := rr.(*ssa.Extract); ok && e.Index == i {
								push(e, it.src)
							}
						}
					}
				}
			case *ssa.Send:
				viol(r, it, "sent")
			case *ssa.MapUpdate, *ssa.MakeSlice, *ssa.Lookup:
				viol(r, it, "used as key or size")
			case *ssa.IndexAddr:
				if x.Index == it.v {
					viol(r, it, "used as an index")
				} else {
					push(x, it.src)
				}
			case *ssa.MakeClosure:
				for i, bnd := range x.Bindings {
					if bnd == it.v {
						push(x.Fn.(*ssa.Function).FreeVars[i], it.src)
					}
				}
			case ssa.CallInstruction:
				for _, f := range p.Callees(x) {
					switch {
					case isLogFn(f):
						c.Count(rn+": values that end in the log", 1)
					case p.InRepo(f) && f.Blocks != nil:
						for i, a := range x.Common().Args {
							if a == it.v && i < len(f.Params) {
								push(f.Params[i], it.src)
							}
						}
					default:
						if v, ok := r.(ssa.Value); ok {
							push(v, it.src)
						}
					}
				}
			default:
				if v, ok := r.(ssa.Value); ok {
					push(v, it.src)
				}
			}
		}
	}
	c.Min(rn, rn+": sources", 5)
	c.Min(rn, rn+": values that end in the log", 3)
}

// ---------------------------------------------------------------- collectors

// decider: a function that decides whether one candidate replaces another.
type decider struct {
	fn   *ssa.Function
	swap map[*Term]*Term // old for new and new for old
	pre  map[*Term]*Term // names replaced before that
	id   func(t *Term) bool
}

// mirror: the term with the two candidates exchanged.
func (d *decider) mirror(t *Term) *Term {
	return subst(t, func(x *Term) *Term {
		if y := d.swap[x]; y != nil {
			return y
		}
		return x
	}, map[*Term]*Term{})
}

func (d *decider) norm(t *Term) *Term {
	return subst(t, func(x *Term) *Term {
		if y := d.pre[x]; y != nil {
			return y
		}
		return x
	}, map[*Term]*Term{})
}

// parts: the term and everything in it.
func parts(t *Term, f func(*Term)) {
	f(t)
	for _, a := range t.args {
		parts(a, f)
	}
}

func deciderOf(fn *ssa.Function) *decider {
	s := fn.Signature
	if fn.Blocks == nil || s.Recv() != nil || s.Results().Len() != 1 || !isBool(s.Results().At(0).Type()) {
		return nil
	}
	d := &decider{fn: fn, swap: map[*Term]*Term{}}
	sym := func(i int) *Term { return Sym(fn.Name(), "p:"+fn.Params[i].Name()) }
	var ptr, ints, bytes []int
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			ptr = append(ptr, i)
		case *types.Slice:
			bytes = append(bytes, i)
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				ints = append(ints, i)
			}
		}
	}
	put := func(a, b *Term) { d.swap[a] = b; d.swap[b] = a }
	switch {
	case len(ptr) == 2 && types.Identical(s.Params().At(ptr[0]).Type(), s.Params().At(ptr[1]).Type()):
		put(sym(ptr[0]), sym(ptr[1]))
		if len(bytes) == 1 && len(ints) == 1 {
			// the size of what was kept stands for the bytes themselves
			other := Sym(fn.Name(), "p:other bytes")
			put(sym(bytes[0]), other)
			d.pre = map[*Term]*Term{sym(ints[0]): App("len", other)}
		}
		if len(bytes) == 2 {
			put(sym(bytes[0]), sym(bytes[1]))
		}
		if len(ints) == 2 {
			put(sym(ints[0]), sym(ints[1]))
		}
		d.id = func(t *Term) bool {
			cl, _ := ldOf(t)
			switch fieldLeaf(cl) {
			case "id", "XMin", "YMin", "XOffset", "YOffset":
				return true
			}
			return false
		}
		return d
	case len(ptr) == 0 && len(bytes) == 0 && len(ints) == 4 && s.Params().Len() == 4:
		put(sym(0), sym(2))
		put(sym(1), sym(3))
		d.id = func(t *Term) bool { return d.swap[stripConv(t)] != nil }
		return d
	}
	return nil
}

// ruleCollectors: L06.
func ruleCollectors(c *Ctx) {
	p := c.P
	const rn = "collectors"
	c.Rule("collectors: where results of several workers are awaited together, a result takes the place of the one kept only if it is the first or a comparison prefers it; with deterministic mode on, that comparison never prefers each of two results over the other, and never neither of them unless they are the same candidate (same id, same offset)")
	var cols []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || isLogFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok && ci.Common().StaticCallee() != nil && FullName(ci.Common().StaticCallee()) == "reflect.Select" {
					if len(cols) == 0 || cols[len(cols)-1] != fn {
						cols = append(cols, fn)
					}
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, fn := range cols {
		if r := fn.Signature.Recv(); r != nil && namedName(deref(r.Type())) == "Level" {
			continue // the level itself: rule wait-level
		}
		c.Count(rn+": functions that collect results", 1)
		c.Site(rn+": functions that collect results", p.Pos(fn.Pos()))
		for _, d := range collectorCheck(c, rn, fn) {
			if !done[d.fn] {
				done[d.fn] = true
				antisymmetric(c, rn, d)
			}
		}
	}
	c.Min(rn, rn+": functions that collect results", 2)
	c.Min(rn, rn+": comparisons that decide", 2)
	c.Min(rn, rn+": places where a result is kept", 3)
	c.Min(rn, rn+": pairs of paths compared", 20)
}

// collectorCheck: every place where a variable kept across rounds is given (part
// of) the result received lies behind a decision.
func collectorCheck(c *Ctx, rn string, fn *ssa.Function) []*decider {
	p := c.P
	var sel []*ssa.Call
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok && ci.Common().StaticCallee() != nil && FullName(ci.Common().StaticCallee()) == "reflect.Select" {
				sel = append(sel, ci)
			}
		}
	}
	ds := map[*ssa.Function]*decider{}
	for _, s := range sel {
		loop := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			if b == s.Block() || reaches(s.Block(), b) && reaches(b, s.Block()) {
				loop[b] = true
			}
		}
		src := map[ssa.Value]bool{}
		for _, r := range *s.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
				src[e] = true
			}
		}
		msg := func(v ssa.Value) bool { return computedVia(v, src, map[ssa.Value]bool{}) || copiedFrom(v, src) }
		// edges on which a decision was taken
		var decided func(from *ssa.BasicBlock, to *ssa.BasicBlock) bool
		undecided := map[*ssa.BasicBlock]bool{s.Block(): true}
		var decidedBy func(cond ssa.Value, val bool, seen map[ssa.Value]bool) bool
		decided = func(from *ssa.BasicBlock, to *ssa.BasicBlock) bool {
			iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
			if !ok || len(from.Succs) != 2 {
				return false
			}
			return decidedBy(iff.Cond, from.Succs[0] == to, map[ssa.Value]bool{})
		}
		decidedBy = func(cond ssa.Value, val bool, seen map[ssa.Value]bool) bool {
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, val = u.X, !val
			}
			if ci, ok := cond.(*ssa.Call); ok && ci.Common().StaticCallee() != nil {
				if d := deciderOf(ci.Common().StaticCallee()); d != nil && val {
					ds[d.fn] = d
					return true
				}
				return false
			}
			if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (isNilConst(b.X) || isNilConst(b.Y)) {
				o := b.X
				if isNilConst(o) {
					o = b.Y
				}
				return val == (b.Op == token.EQL) && carried(o, loop)
			}
			ph, ok := cond.(*ssa.Phi)
			if !ok || seen[ph] {
				return false
			}
			// a flag that says whether there was a result before
			if !val && carried(ph, loop) && onlySet(ph, loop) {
				return true
			}
			if !loop[ph.Block()] || carriedPhi(ph, loop) {
				return false
			}
			// conditions joined in a variable: whichever of them gave it its
			// value decided, or the way to it did
			seen[ph] = true
			for i, e := range ph.Edges {
				pr := ph.Block().Preds[i]
				if !undecided[pr] {
					continue
				}
				if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) == val && !decided(pr, ph.Block()) {
						return false
					}
					continue
				}
				if !decided(pr, ph.Block()) && !decidedBy(e, val, seen) {
					return false
				}
			}
			return true
		}
		for again := true; again; {
			again = false
			for b := range undecided {
				for _, t := range b.Succs {
					if !undecided[t] && loop[t] && t != s.Block() && !decided(b, t) {
						undecided[t] = true
						again = true
					}
				}
			}
		}
		// loop headers only take over what was kept in this round
		for b := range loop {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Phi:
					if !carriedPhi(v, loop) {
						continue
					}
					for i, e := range v.Edges {
						pr := b.Preds[i]
						if !loop[pr] || e == ssa.Value(v) || !msg(e) {
							continue
						}
						if _, isPhi := e.(*ssa.Phi); isPhi {
							continue // looked at where it is made
						}
						if isIndexOrChan(e) {
							continue
						}
						c.Count(rn+": places where a result is kept", 1)
						if undecided[pr] && !decided(pr, b) {
							c.Viol(rn, "L06|result kept without a comparison ["+fn.Name()+"]", p.InstrPos(in), "variable "+v.Comment+" of "+FullName(fn)+" takes a worker's result without comparing it with the one kept: the result depends on which worker finishes last")
						}
					}
				case *ssa.Store:
					al, ok := v.Addr.(*ssa.Alloc)
					if !ok || loop[al.Block()] || !msg(v.Val) {
						continue
					}
					c.Count(rn+": places where a result is kept", 1)
					if undecided[b] {
						c.Viol(rn, "L06|result kept without a comparison ["+fn.Name()+"]", p.InstrPos(in), "variable "+al.Comment+" of "+FullName(fn)+" takes a worker's result without comparing it with the one kept: the result depends on which worker finishes last")
					}
				}
			}
		}
	}
	var names []*decider
	for _, d := range ds {
		names = append(names, d)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].fn.Name() < names[j].fn.Name() })
	return names
}

func isIndexOrChan(v ssa.Value) bool {
	_, ok := v.Type().Underlying().(*types.Chan)
	return ok
}

// copiedFrom: v points to an object made to hold (part of) the message.
func copiedFrom(v ssa.Value, src map[ssa.Value]bool) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, x := range storedIn(al, -1) {
		if computedVia(x, src, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// carriedPhi: the variable keeps a value over the rounds of the loop, or is on the
// way to one that does.
func carriedPhi(ph *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v *ssa.Phi) bool
	walk = func(v *ssa.Phi) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for i := range v.Edges {
			if !loop[v.Block().Preds[i]] && loop[v.Block()] {
				return true
			}
		}
		for _, r := range *v.Referrers() {
			if q, ok := r.(*ssa.Phi); ok && loop[q.Block()] && walk(q) {
				return true
			}
		}
		return false
	}
	return walk(ph)
}

func carried(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return carriedPhi(x, loop) || true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return !loop[al.Block()]
		}
	}
	return false
}

// onlySet: a flag that starts false and is only ever set.
func onlySet(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	start := false
	var walk func(v ssa.Value, outside bool) bool
	walk = func(v ssa.Value, outside bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.Bool {
				return false
			}
			seen[v] = false
			if !constant.BoolVal(x.Value) {
				start = start || outside
				return outside
			}
			return !outside
		case *ssa.Phi:
			for i, e := range x.Edges {
				if !walk(e, !loop[x.Block().Preds[i]]) {
					return false
				}
			}
			return true
		}
		return false
	}
	return walk(v, false) && start
}

// antisymmetric: the comparison as a table of paths, each compared with the mirror
// image of every other.
func antisymmetric(c *Ctx, rn string, d *decider) {
	p := c.P
	fn := d.fn
	c.Count(rn+": comparisons that decide", 1)
	c.Site(rn+": comparisons that decide", p.Pos(fn.Pos()))
	type row struct {
		facts map[*Term]bool
		res   bool
		pos   string
	}
	var rows []row
	r := &Rule{Name: rn, Cap: 2000, JoinBools: true}
	r.Keep = func(cls string) bool { return true }
	r.KeepFact = r.Keep
	r.ForceInline = func(f *ssa.Function) bool { return f != fn && compares(f) }
	r.LoadHook = func(e *Engine, fr *Frame, st *State, loc *Term) *Term {
		if loc.kind == KField && fieldLeaf(loc.op) == "Deterministic" {
			return ConstB(true)
		}
		return nil
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		if callee == nil || !p.InRepo(callee) || compares(callee) && !loopy(callee) {
			return nil, false
		}
		// a measure of a candidate: the same for the same arguments
		n := callee.Signature.Results().Len()
		t := App("fn:"+FullName(callee), args...)
		if n == 1 {
			return []Out{{Kind: ORet, Res: t, St: st}}, true
		}
		var rs []*Term
		for i := 0; i < n; i++ {
			rs = append(rs, App("fn:"+FullName(callee)+"#"+itoa(i), args...))
		}
		return []Out{{Kind: ORet, Res: Tuple(rs...), St: st}}, true
	}
	// a value chosen by a small condition (an absolute value, the greater of two) is
	// one value, whichever way was taken
	r.Phi = func(e *Engine, fr *Frame, st *State, ph *ssa.Phi) *Term {
		b, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || len(ph.Edges) != 2 {
			return nil
		}
		d := ph.Block().Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		yes := -1
		for i, pr := range ph.Block().Preds {
			if d.Succs[0] == ph.Block() && pr == d || d.Succs[0] != ph.Block() && d.Succs[0].Dominates(pr) {
				yes = i
			}
			if pr != d && pr.Idom() != d {
				return nil
			}
		}
		if yes < 0 {
			return nil
		}
		c := structEval(e, fr, st, iff.Cond, 4)
		x := structEval(e, fr, st, ph.Edges[yes], 4)
		y := structEval(e, fr, st, ph.Edges[1-yes], 4)
		if c == nil || x == nil || y == nil {
			return nil
		}
		if c.kind == KApp && c.op == "!" {
			c, x, y = c.args[0], y, x
		}
		return App("choice", c, x, y)
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) {
		for f, v := range st.facts {
			st.mon["f:"+f.String()] = App("fact", f, ConstB(v))
		}
	}
	undecided := false
	r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		v, ok := in.(*ssa.Return)
		if !ok || fr.parent != nil {
			return
		}
		e.Paths++
		t := d.norm(e.Eval(fr, st, v.Results[0]))
		facts := map[*Term]bool{}
		for k, m := range st.mon {
			if strings.HasPrefix(k, "f:") {
				facts[d.norm(m.args[0])] = m.args[1] == ConstB(true)
			}
		}
		add := func(f map[*Term]bool, res bool) {
			rows = append(rows, row{f, res, p.InstrPos(in)})
		}
		switch e.Truth(st, t) {
		case 1:
			add(facts, true)
		case 0:
			add(facts, false)
		default:
			g := map[*Term]bool{}
			for k, x := range facts {
				g[k] = x
			}
			g[t] = true
			add(g, true)
			h := map[*Term]bool{}
			for k, x := range facts {
				h[k] = x
			}
			h[t] = false
			add(h, false)
		}
	}
	e := NewEngine(p, r)
	e.Run(fn, keepParams(fn))
	c.Take(e)
	_ = undecided
	mirror := func(t *Term) *Term {
		return d.mirror(t)
	}
	if os.Getenv("VB_DBG") != "" {
		for _, q := range rows {
			println("ROW", fn.Name(), q.pos, q.res)
			for f, v := range q.facts {
				println("     ", v, f.String())
			}
		}
	}
	for _, q := range rows {
		qm := map[*Term]bool{}
		for f, v := range q.facts {
			qm[mirror(f)] = v
		}
		for _, a := range rows {
			c.Count(rn+": pairs of paths compared", 1)
			if !compatible(a.facts, qm) || againstFlags(c, rn, a.facts, qm) {
				continue
			}
			switch {
			case a.res && q.res:
				c.Viol(rn, "L06|comparison prefers both ["+fn.Name()+"]", a.pos, FullName(fn)+" may prefer each of two results over the other (see also "+q.pos+"): which is kept depends on the order they arrive in")
			case !a.res && !q.res:
				all := map[*Term]bool{}
				for f, v := range a.facts {
					all[f] = v
				}
				for f, v := range qm {
					all[f] = v
				}
				if !sameCandidate(d, all, mirror) {
					c.Viol(rn, "L06|comparison prefers neither ["+fn.Name()+"]", a.pos, FullName(fn)+" may prefer neither of two different results (see also "+q.pos+"): which is kept depends on the order they arrive in, also with deterministic mode on")
				}
			}
		}
	}
}

// compares: a function with branches that is given two of something.
func compares(f *ssa.Function) bool {
	ps := f.Signature.Params()
	two := false
	for i := 0; i < ps.Len(); i++ {
		for j := 0; j < i; j++ {
			two = two || types.Identical(ps.At(i).Type(), ps.At(j).Type())
		}
	}
	if !two {
		return false
	}
	for _, b := range f.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				return true
			}
		}
	}
	return false
}

// structEval: the term of a value that may lie on a way not taken.
func structEval(e *Engine, fr *Frame, st *State, v ssa.Value, depth int) *Term {
	if st.env[v] != nil {
		return st.env[v]
	}
	if depth == 0 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return e.Eval(fr, st, v)
	case *ssa.BinOp:
		a, b := structEval(e, fr, st, x.X, depth-1), structEval(e, fr, st, x.Y, depth-1)
		if a == nil || b == nil {
			return nil
		}
		return BinTerm(x.Op, a, b, x.X.Type(), x.Type())
	case *ssa.UnOp:
		if x.Op != token.SUB {
			return nil
		}
		a := structEval(e, fr, st, x.X, depth-1)
		if a == nil {
			return nil
		}
		return BinTerm(token.SUB, ConstI(0), a, x.Type(), x.Type())
	}
	return nil
}

func loopy(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

// lessOf: the fact says a < b (strict) or a <= b.
func lessOf(t *Term, v bool) (a, b *Term, strict, ok bool) {
	if t.kind != KApp || len(t.args) != 2 || !strings.HasPrefix(t.op, "<") {
		return nil, nil, false, false
	}
	if v {
		return t.args[0], t.args[1], true, true
	}
	return t.args[1], t.args[0], false, true
}

// compatible: both sets of facts can hold at once, as far as orders tell.
func compatible(x, y map[*Term]bool) bool {
	for f, v := range y {
		if w, ok := x[f]; ok && v != w {
			return false
		}
	}
	type edge struct {
		to     *Term
		strict bool
	}
	g := map[*Term][]edge{}
	var ne [][2]*Term
	for _, m := range []map[*Term]bool{x, y} {
		for f, v := range m {
			if a, b, s, ok := lessOf(f, v); ok {
				g[a] = append(g[a], edge{b, s})
			}
			if f.kind == KApp && f.op == "==" && len(f.args) == 2 {
				a, b := f.args[0], f.args[1]
				if v {
					g[a] = append(g[a], edge{b, false})
					g[b] = append(g[b], edge{a, false})
				} else {
					ne = append(ne, [2]*Term{a, b})
				}
			}
		}
	}
	// reach: whether there is a way from a to b, and whether a strict one
	reach := func(a, b *Term) (bool, bool) {
		type st struct {
			t *Term
			s bool
		}
		seen := map[st]bool{}
		w := []st{{a, false}}
		any, strict := false, false
		for len(w) > 0 {
			k := w[len(w)-1]
			w = w[:len(w)-1]
			for _, e := range g[k.t] {
				n := st{e.to, k.s || e.strict}
				if n.t == b {
					any = true
					strict = strict || n.s
				}
				if !seen[n] {
					seen[n] = true
					w = append(w, n)
				}
			}
		}
		return any, strict
	}
	var cs []*Term
	for _, m := range []map[*Term]bool{x, y} {
		for f := range m {
			parts(f, func(t *Term) {
				if _, ok := t.Int(); ok {
					cs = append(cs, t)
				}
			})
		}
	}
	for _, a := range cs {
		for _, b := range cs {
			i, _ := a.Int()
			if j, _ := b.Int(); i < j {
				g[a] = append(g[a], edge{b, true})
			}
		}
	}
	for a := range g {
		if _, s := reach(a, a); s {
			return false
		}
	}
	for _, q := range ne {
		ab, _ := reach(q[0], q[1])
		ba, _ := reach(q[1], q[0])
		if ab && ba {
			return false
		}
	}
	return true
}

// againstFlags: the facts contradict what is known of flags that are only set
// together.
func againstFlags(c *Ctx, rn string, x, y map[*Term]bool) bool {
	on, off := map[*Term][]string{}, map[*Term][]string{}
	for _, m := range []map[*Term]bool{x, y} {
		for f, v := range m {
			if cl, base := ldOf(f); cl != "" {
				if v {
					on[base] = append(on[base], cl)
				} else {
					off[base] = append(off[base], cl)
				}
			}
		}
	}
	for base, fs := range on {
		for _, f := range fs {
			for _, g := range off[base] {
				if setTogether(c, rn, f, g) {
					return true
				}
			}
		}
	}
	return false
}

var togetherMemo = map[[2]string]bool{}

// setTogether: wherever flag f of an object is set, flag g of it is set too, and g is
// never cleared but where the object is made.
func setTogether(c *Ctx, rn, f, g string) bool {
	k := [2]string{f, g}
	if r, ok := togetherMemo[k]; ok {
		return r
	}
	p := c.P
	ok := true
	n := 0
	for _, fn := range p.Funcs {
		sets := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, isS := in.(*ssa.Store)
				if !isS {
					continue
				}
				fa, isF := s.Addr.(*ssa.FieldAddr)
				if !isF {
					continue
				}
				cl, _ := fieldClass(fa.X.Type(), fa.Field)
				cl = strings.TrimPrefix(cl, "F:")
				if isFalse(s.Val) {
					if cl == g && !inTheMakingOf(fa.X) {
						ok = false
					}
					continue
				}
				sets = sets || cl == f
			}
		}
		if !sets || !ok {
			continue
		}
		r := &Rule{Name: rn, Cap: 400}
		r.Keep = func(string) bool { return true }
		r.KeepFact = r.Keep
		r.Branch = func(e *Engine, fr *Frame, st *State) {
			for x, v := range st.facts {
				st.mon["f:"+x.String()] = App("fact", x, ConstB(v))
			}
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.Store:
				fa, isF := v.Addr.(*ssa.FieldAddr)
				if !isF {
					return
				}
				cl, _ := fieldClass(fa.X.Type(), fa.Field)
				cl = strings.TrimPrefix(cl, "F:")
				if cl == f || cl == g {
					st.mon["set:"+cl+e.Eval(fr, st, fa.X).String()] = App("pair", e.Eval(fr, st, fa.X), e.Eval(fr, st, v.Val))
				}
			case *ssa.Return:
				if fr.parent != nil {
					return
				}
				for key, m := range st.mon {
					if !strings.HasPrefix(key, "set:"+f) {
						continue
					}
					n++
					facts := map[*Term]bool{}
					for k2, x := range st.mon {
						if strings.HasPrefix(k2, "f:") {
							facts[x.args[0]] = x.args[1] == ConstB(true)
						}
					}
					if m.args[1].kind != KConst {
						facts[m.args[1]] = true
					} else if m.args[1] != ConstB(true) {
						continue
					}
					w := st.mon["set:"+g+m.args[0].String()]
					switch {
					case w == nil:
						ok = ok && !compatible(facts, map[*Term]bool{})
					case w.args[1] == ConstB(true):
					case w.args[1].kind == KConst:
						ok = ok && !compatible(facts, map[*Term]bool{})
					default:
						ok = ok && !compatible(facts, map[*Term]bool{w.args[1]: false})
					}
				}
			}
		}
		e := NewEngine(p, r)
		e.Run(fn, keepParams(fn))
	}
	togetherMemo[k] = ok && n > 0
	if ok && n > 0 {
		c.Count(rn+": flags set only together", 1)
	}
	return ok && n > 0
}

func isFalse(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)
}

func inTheMakingOf(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// sameCandidate: the facts say that what identifies the two is equal.
func sameCandidate(d *decider, facts map[*Term]bool, mirror func(*Term) *Term) bool {
	ids := map[*Term]bool{}
	for f := range facts {
		parts(f, func(x *Term) {
			if d.id(x) {
				ids[x] = true
			}
		})
	}
	if len(ids) == 0 {
		return false
	}
	for x := range ids {
		m := mirror(x)
		if m == x {
			continue
		}
		neq := map[*Term]bool{Eq(x, m): false}
		lt := map[*Term]bool{Less(x, m, types.Typ[types.Int]): true}
		gt := map[*Term]bool{Less(m, x, types.Typ[types.Int]): true}
		if compatible(facts, lt) || compatible(facts, gt) {
			return false
		}
		_ = neq
	}
	return true
}
