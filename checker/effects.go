package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Effects of a function on objects that existed before it was called. What it
// writes into objects it made itself (or got freshly made from what it calls)
// is left out.

const otherRoot = uint64(1) << 63

type rootFinder struct {
	p     *Prog
	fresh map[*ssa.Function][]bool // results that are always newly made objects
}

// root: the parameters the object v points into may come from; 0: newly made.
func (r *rootFinder) root(v ssa.Value, seen map[ssa.Value]bool) uint64 {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Const:
		return 0
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x && i < 60 {
				return 1 << uint(i)
			}
		}
		return otherRoot
	case *ssa.FieldAddr:
		return r.root(x.X, seen)
	case *ssa.IndexAddr:
		return r.root(x.X, seen)
	case *ssa.Slice:
		return r.root(x.X, seen)
	case *ssa.ChangeType:
		return r.root(x.X, seen)
	case *ssa.MakeInterface:
		if _, ok := types.Unalias(x.X.Type()).Underlying().(*types.Struct); ok {
			return otherRoot
		}
		return r.root(x.X, seen)
	case *ssa.TypeAssert:
		if x.CommaOk {
			return otherRoot
		}
		return r.root(x.X, seen)
	case *ssa.ChangeInterface:
		return r.root(x.X, seen)
	case *ssa.Phi:
		m := uint64(0)
		for _, e := range x.Edges {
			m |= r.root(e, seen)
		}
		return m
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return r.root(x.Call.Args[0], seen)
			}
			return otherRoot
		}
		return r.callRes(x, 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return r.callRes(c, x.Index)
		}
	}
	return otherRoot
}

func (r *rootFinder) callRes(c *ssa.Call, i int) uint64 {
	cs := r.p.Callees(c)
	if len(cs) == 0 {
		return otherRoot
	}
	for _, f := range cs {
		fr := r.fresh[f]
		if i >= len(fr) || !fr[i] {
			return otherRoot
		}
	}
	return 0
}

func (r *rootFinder) of(v ssa.Value) uint64 { return r.root(v, map[ssa.Value]bool{}) }

func (p *Prog) freshResults() *rootFinder {
	r := &rootFinder{p: p, fresh: map[*ssa.Function][]bool{}}
	for _, fn := range p.Funcs {
		b := make([]bool, fn.Signature.Results().Len())
		for i := range b {
			b[i] = fn.Blocks != nil && fn.Recover == nil
		}
		r.fresh[fn] = b
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ret, ok := in.(*ssa.Return)
					if !ok {
						continue
					}
					for i, v := range ret.Results {
						if r.fresh[fn][i] && r.of(v) != 0 {
							r.fresh[fn][i] = false
							ch = true
						}
					}
				}
			}
		}
	}
	return r
}

// fillEffects computes ModSet.ext.
func (p *Prog) fillEffects() {
	r := p.freshResults()
	eff := map[*ssa.Function]map[string]uint64{}
	for _, fn := range p.Funcs {
		m := map[string]uint64{}
		eff[fn] = m
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				p.directRoots(in, r, m)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			m := eff[fn]
			add := func(k string, v uint64) {
				if m[k]|v != m[k] {
					m[k] |= v
					ch = true
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					var args []ssa.Value
					if c.Common().IsInvoke() {
						args = append(args, c.Common().Value)
					}
					args = append(args, c.Common().Args...)
					var roots []uint64
					for _, cal := range p.Callees(c) {
						ce := eff[cal]
						if ce == nil || len(ce) == 0 {
							continue
						}
						if roots == nil {
							for _, a := range args {
								roots = append(roots, r.of(a))
							}
						}
						for k, v := range ce {
							if len(args) != len(cal.Params) {
								if v != 0 {
									add(k, otherRoot)
								}
								continue
							}
							n := v & otherRoot
							for i := range args {
								if i < 60 && v&(1<<uint(i)) != 0 {
									n |= roots[i]
								}
							}
							if n != 0 {
								add(k, n)
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		m := p.mod[fn]
		m.ext = map[string]bool{}
		for k, v := range eff[fn] {
			if v != 0 {
				m.ext[k] = true
			}
		}
	}
}

func (p *Prog) directRoots(in ssa.Instruction, r *rootFinder, out map[string]uint64) {
	put := func(root uint64, f func(m map[string]bool)) {
		if root == 0 {
			return
		}
		m := map[string]bool{}
		f(m)
		for k := range m {
			out[k] |= root
		}
	}
	switch v := in.(type) {
	case *ssa.Store:
		c, t := addrClass(v.Addr)
		if c != "" {
			put(r.of(v.Addr), func(m map[string]bool) {
				m[c] = true
				if isComposite(t) {
					typeClasses(t, m, 0)
				}
			})
		}
	case ssa.CallInstruction:
		cm := v.Common()
		if b, ok := cm.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "append":
				put(r.of(cm.Args[0]), func(m map[string]bool) { p.direct(in, m) })
			}
			return
		}
		for _, c := range p.Callees(v) {
			if c.Blocks != nil && p.InRepo(c) || libPure(c) {
				continue
			}
			for _, a := range cm.Args {
				a := a
				put(r.of(a), func(m map[string]bool) { argClasses(a, m) })
			}
		}
	}
}
