package main

// The log is shared by all stages that run at the same time. What it guards
// with its lock is only touched while the lock is held.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockFacts: at an instruction, is the lock held on all (must) or on some
// (may) of the paths, and is its release already deferred on all of them
type lockFacts struct {
	must, may bool
	deferred  bool
}

func (a lockFacts) join(b lockFacts) lockFacts {
	return lockFacts{a.must && b.must, a.may || b.may, a.deferred && b.deferred}
}

// lockedType: the struct type, with a mutex among its fields, of a
// package-level variable through which the program logs
func lockedType(p *Prog) (*types.Named, map[int]bool) {
	for _, m := range p.Main.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		n, ok := deref(deref(g.Type())).(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || p.Method(n.Obj().Name(), "Printf") == nil {
			continue
		}
		mus := map[int]bool{}
		for i := 0; i < st.NumFields(); i++ {
			if q := qualName(st.Field(i).Type()); q == "sync.Mutex" || q == "sync.RWMutex" {
				mus[i] = true
			}
		}
		if len(mus) > 0 {
			return n, mus
		}
	}
	return nil, nil
}

func ruleLogLock(c *Ctx) {
	p := c.P
	const rn = "log-lock"
	c.Rule("log-lock: every use of the log's output writers and buffered slots, and every other output to the terminal, lies where the log's lock is held on every path from the start of the function or where every caller holds it; the lock is not taken by a function, or one it calls, that already holds it, is given back on every way out of the function that takes it, and is never given back twice")
	typ, mus := lockedType(p)
	if typ == nil {
		c.Undecided(rn, "no package-level log with a lock was found")
		return
	}
	isMu := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && types.Identical(deref(fa.X.Type()), typ) && mus[fa.Field]
	}
	// what a call does to the lock
	const (
		none = iota
		lock
		unlock
	)
	effect := func(cc *ssa.CallCommon) int {
		f := cc.StaticCallee()
		if f == nil || len(cc.Args) == 0 || !isMu(cc.Args[0]) {
			return none
		}
		switch f.Name() {
		case "Lock":
			return lock
		case "Unlock":
			return unlock
		}
		return none
	}
	// functions that take the lock, themselves or below
	takes := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			if takes[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					hit := effect(call.Common()) == lock
					for _, f := range p.Callees(call) {
						hit = hit || takes[f]
					}
					if hit && !takes[fn] {
						takes[fn] = true
						ch = true
					}
				}
			}
		}
	}
	// uses of what the lock guards
	guarded := func(in ssa.Instruction) string {
		if fa, ok := in.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), typ) && !mus[fa.Field] {
			f := typ.Underlying().(*types.Struct).Field(fa.Field)
			if qualName(f.Type()) == "bytes.Buffer" {
				return "" // the segment dump, filled by the one tree builder
			}
			return typ.Obj().Name() + "." + f.Name()
		}
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Global); ok {
				if g.Pkg == p.Main && qualName(deref(deref(g.Type()))) == "log.Logger" {
					return g.Name()
				}
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
					return "os." + g.Name()
				}
			}
		}
		if call, ok := in.(ssa.CallInstruction); ok {
			if f := call.Common().StaticCallee(); f != nil && f.Pkg != nil {
				pk := f.Pkg.Pkg.Path()
				if pk == "fmt" && strings.HasPrefix(f.Name(), "Print") || pk == "log" && f.Signature.Recv() == nil && (strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fatal")) {
					return pk + "." + f.Name()
				}
			}
			if b, ok := call.Common().Value.(*ssa.Builtin); ok && strings.HasPrefix(b.Name(), "print") {
				return b.Name()
			}
		}
		return ""
	}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	taken := map[*ssa.Function]bool{} // used other than by calling
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					for _, f := range p.Callees(call) {
						callers[f] = append(callers[f], call)
					}
				}
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						for _, r := range *mc.Referrers() {
							if !handedOn(p, r) && !calledAt(r, mc) {
								taken[f] = true
							}
						}
						continue
					}
					if !handedOn(p, in) && !calledAt(in, *op) {
						taken[f] = true
					}
				}
			}
		}
	}
	// functions worth a look
	rel := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && effect(call.Common()) != none {
					rel[fn] = true
				}
				if guarded(in) != "" {
					rel[fn] = true
				}
			}
		}
	}
	if f := p.Main.Func("init"); f != nil {
		delete(rel, f)
	}
	entry := map[*ssa.Function]lockFacts{}
	at := map[ssa.Instruction]lockFacts{}
	flow := func(fn *ssa.Function) {
		in := map[*ssa.BasicBlock]lockFacts{fn.Blocks[0]: entry[fn]}
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			st := in[b]
			for _, i := range b.Instrs {
				at[i] = st
				switch x := i.(type) {
				case *ssa.Call:
					switch effect(x.Common()) {
					case lock:
						st.must, st.may = true, true
					case unlock:
						st.must, st.may = false, false
					}
				case *ssa.Defer:
					if effect(x.Common()) == unlock {
						st.deferred = true
					}
					if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
						if f, ok := mc.Fn.(*ssa.Function); ok {
							for _, fb := range f.Blocks {
								for _, fi := range fb.Instrs {
									if call, ok := fi.(*ssa.Call); ok && effect(call.Common()) == unlock {
										st.deferred = true
									}
								}
							}
						}
					}
				case *ssa.RunDefers:
					if st.deferred {
						st.must, st.may = false, false
					}
				}
			}
			for _, s := range b.Succs {
				old, ok := in[s]
				nw := st
				if ok {
					nw = old.join(st)
				}
				if !ok || nw != old {
					in[s] = nw
					work = append(work, s)
				}
			}
		}
	}
	var fns []*ssa.Function
	for f := range rel {
		fns = append(fns, f)
		entry[f] = lockFacts{must: true}
	}
	sort.Slice(fns, func(i, j int) bool { return FullName(fns[i]) < FullName(fns[j]) })
	// a function is entered with the lock held when all its callers hold it
	for ch := true; ch; {
		ch = false
		at = map[ssa.Instruction]lockFacts{}
		for _, f := range fns {
			flow(f)
		}
		for _, f := range fns {
			e := lockFacts{must: len(callers[f]) > 0 && !taken[f]}
			for _, call := range callers[f] {
				if _, isGo := call.(*ssa.Go); isGo {
					e.must = false
					continue
				}
				a := at[call]
				if _, isD := call.(*ssa.Defer); isD {
					a = lockFacts{}
				}
				e.must = e.must && a.must
				e.may = e.may || a.may
			}
			// may be held on entry: only taken up where it must
			e.may = e.must
			if e != entry[f] {
				entry[f] = e
				ch = true
			}
		}
	}
	for _, f := range fns {
		holds := entry[f].must
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, reached := at[in]
				if !reached {
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok && types.Identical(u.Type(), typ) {
					c.Viol(rn, "L07|log copied in "+FullName(f), p.InstrPos(in), "the log is copied with its lock in "+FullName(f))
				}
				if g := guarded(in); g != "" {
					c.Count(rn+": uses of what the lock guards", 1)
					if !st.must {
						c.Viol(rn, "L07|"+g+" in "+FullName(f), p.InstrPos(in), g+" is used in "+FullName(f)+" where the log's lock is not held on every path")
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if ok {
					_, isCall := in.(*ssa.Call)
					switch effect(call.Common()) {
					case lock:
						if isCall {
							c.Count(rn+": takings of the lock", 1)
							if st.may {
								c.Viol(rn, "L07|lock taken twice in "+FullName(f), p.InstrPos(in), FullName(f)+" takes the log's lock where it may hold it already")
							}
						}
					case unlock:
						if isCall && !st.must && !closureOfHolder(f) {
							c.Viol(rn, "L07|lock given back twice in "+FullName(f), p.InstrPos(in), FullName(f)+" gives back the log's lock where it may not hold it")
						}
						if !isCall && st.deferred {
							c.Viol(rn, "L07|lock given back twice in "+FullName(f), p.InstrPos(in), FullName(f)+" defers giving back the log's lock twice")
						}
					default:
						if isCall && st.may {
							for _, g := range p.Callees(call) {
								if takes[g] {
									c.Viol(rn, "L07|lock taken twice in "+FullName(f), p.InstrPos(in), FullName(f)+" calls "+FullName(g)+", which takes the log's lock, while it may hold it")
								}
							}
						}
					}
				}
				if _, ok := in.(*ssa.RunDefers); ok && st.deferred && !st.must {
					c.Viol(rn, "L07|lock given back twice in "+FullName(f), p.InstrPos(in), FullName(f)+" gives back the log's lock at its end where it may not hold it")
				}
				if r, ok := in.(*ssa.Return); ok {
					c.Count(rn+": ways out of functions", 1)
					if st.may && !holds && at[r].may {
						c.Viol(rn, "L07|lock kept by "+FullName(f), p.InstrPos(in), FullName(f)+" returns without giving back the log's lock")
					}
					if holds && !st.must {
						c.Viol(rn, "L07|lock given back by "+FullName(f), p.InstrPos(in), FullName(f)+" gives back the log's lock its callers count on")
					}
				}
			}
		}
	}
	c.Min(rn, rn+": uses of what the lock guards", 6)
	c.Min(rn, rn+": takings of the lock", 5)
}

// handedOn: the function is only given to a call of a function of the
// repository, where calls of it are known
func handedOn(p *Prog, in ssa.Instruction) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Common().StaticCallee()
	return f != nil && p.InRepo(f) && f.Blocks != nil
}

func calledAt(in ssa.Instruction, v ssa.Value) bool {
	call, ok := in.(ssa.CallInstruction)
	return ok && call.Common().Value == v
}

// closureOfHolder: a function literal run at the end of the function it is in
func closureOfHolder(f *ssa.Function) bool {
	return f.Parent() != nil
}
