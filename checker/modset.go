package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ModSet is the set of location classes a call may modify:
// F:T.f (field), I:T (slice/array element), G:x (global), D:T (anything of
// type T reached through a plain pointer).
type ModSet struct {
	cls map[string]bool
	ext map[string]bool // on objects that existed before the call
}

func fieldClass(st types.Type, i int) (string, types.Type) {
	d := deref(st)
	s := d.Underlying().(*types.Struct)
	n := qualName(d)
	return "F:" + n + "." + s.Field(i).Name(), s.Field(i).Type()
}

// typeClasses adds every class that storing a whole value of type t changes.
func typeClasses(t types.Type, out map[string]bool, depth int) {
	if depth > 6 {
		return
	}
	out["D:"+qualName(t)] = true
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			c, ft := fieldClass(t, i)
			out[c] = true
			if isComposite(ft) {
				typeClasses(ft, out, depth+1)
			}
		}
	case *types.Array:
		out["I:"+qualName(u.Elem())] = true
		if isComposite(u.Elem()) {
			typeClasses(u.Elem(), out, depth+1)
		}
	}
}

func isComposite(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// addrClass is the class of a location denoted by an SSA address.
func addrClass(a ssa.Value) (string, types.Type) {
	switch v := a.(type) {
	case *ssa.FieldAddr:
		return fieldClass(v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		e := deref(v.Type())
		return "I:" + qualName(e), e
	case *ssa.Global:
		return "G:" + v.Name(), deref(v.Type())
	case *ssa.Alloc:
		if !allocEscapes(v) {
			return "", deref(v.Type())
		}
	}
	e := deref(a.Type())
	return "D:" + qualName(e), e
}

var escMemo = map[*ssa.Alloc]bool{}

// allocEscapes: the address is used for something other than direct
// load/store/field/element access.
func allocEscapes(a *ssa.Alloc) bool {
	if r, ok := escMemo[a]; ok {
		return r
	}
	escMemo[a] = true
	r := addrEscapes(a)
	escMemo[a] = r
	return r
}

func addrEscapes(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Val == v {
				return true
			}
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return true
			}
		case *ssa.FieldAddr:
			if addrEscapes(u) {
				return true
			}
		case *ssa.IndexAddr:
			if addrEscapes(u) {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// libPure: library calls that do not write through their arguments.
func libPure(fn *ssa.Function) bool {
	n := FullName(fn)
	for _, p := range []string{"fmt.", "strings.", "strconv.", "math.", "math/bits.", "errors.", "unicode", "path/filepath.", "time.", "(time.", "encoding/binary.Size", "encoding/binary.Write", "crypto/", "encoding/base64", "(*encoding/base64", "os.Exit", "os.Stat", "os.SameFile", "os.Remove", "os.Open", "os.Create", "(*os.File)", "runtime.", "runtime/", "(*log.", "log.", "(*sync.", "sync.", "(*compress/zlib", "(encoding/binary", "reflect.", "(reflect.", "math/rand", "(*math/rand", "bytes."} {
		if strings.HasPrefix(n, p) {
			if n == "(*os.File).Read" || n == "(*os.File).ReadAt" || n == "fmt.Sscanf" || n == "fmt.Sscan" {
				return false
			}
			return true
		}
	}
	return false
}

func argClasses(a ssa.Value, out map[string]bool) {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	switch u := types.Unalias(a.Type()).Underlying().(type) {
	case *types.Pointer:
		typeClasses(u.Elem(), out, 0)
	case *types.Slice:
		out["I:"+qualName(u.Elem())] = true
		if isComposite(u.Elem()) {
			typeClasses(u.Elem(), out, 0)
		}
	}
}

func (p *Prog) direct(in ssa.Instruction, out map[string]bool) {
	switch v := in.(type) {
	case *ssa.Store:
		c, t := addrClass(v.Addr)
		if c != "" {
			out[c] = true
			if isComposite(t) {
				typeClasses(t, out, 0)
			}
		}
	case ssa.CallInstruction:
		cm := v.Common()
		if b, ok := cm.Value.(*ssa.Builtin); ok {
			if b.Name() == "copy" {
				argClasses(cm.Args[0], out)
			} else if b.Name() == "append" {
				if s, ok := types.Unalias(cm.Args[0].Type()).Underlying().(*types.Slice); ok {
					out["I:"+qualName(s.Elem())] = true
					if isComposite(s.Elem()) {
						typeClasses(s.Elem(), out, 0)
					}
				}
			}
			return
		}
		for _, c := range p.Callees(v) {
			if c.Blocks != nil && p.InRepo(c) {
				continue
			}
			if libPure(c) {
				continue
			}
			for _, a := range cm.Args {
				argClasses(a, out)
			}
		}
	}
}

// ModSets computes, for every repo function, the classes it or its callees
// (goroutines it starts included) may modify.
func (p *Prog) ModSets() map[*ssa.Function]*ModSet {
	if p.mod != nil {
		return p.mod
	}
	p.mod = map[*ssa.Function]*ModSet{}
	for _, fn := range p.Funcs {
		m := &ModSet{cls: map[string]bool{}}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				p.direct(in, m.cls)
			}
		}
		p.mod[fn] = m
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			m := p.mod[fn]
			n := len(m.cls)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, cal := range p.Callees(c) {
							if cm := p.mod[cal]; cm != nil && cm != m {
								for k := range cm.cls {
									m.cls[k] = true
								}
							}
						}
					}
				}
			}
			if len(m.cls) != n {
				ch = true
			}
		}
	}
	p.fillEffects()
	return p.mod
}

// AddrTaken: field classes whose address is used as a plain pointer somewhere.
func (p *Prog) AddrTaken() map[string]bool {
	if p.addrTake != nil {
		return p.addrTake
	}
	p.addrTake = map[string]bool{}
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		switch v := in.(type) {
		case *ssa.FieldAddr:
			if addrEscapes(v) {
				c, _ := addrClass(v)
				p.addrTake[c] = true
			}
		case *ssa.IndexAddr:
			if addrEscapes(v) {
				c, _ := addrClass(v)
				p.addrTake[c] = true
			}
		}
	})
	return p.addrTake
}

// NoReturn: functions no path of which returns.
func (p *Prog) NoReturn() map[*ssa.Function]bool {
	if p.noret != nil {
		return p.noret
	}
	p.noret = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			if p.noret[fn] {
				continue
			}
			if !p.canReturn(fn) {
				p.noret[fn] = true
				ch = true
			}
		}
	}
	return p.noret
}

func (p *Prog) isNoReturnCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	cs := p.Callees(c)
	if len(cs) == 0 {
		return false
	}
	for _, f := range cs {
		if !p.noret[f] && !libNoReturn(f) {
			return false
		}
	}
	return true
}

func libNoReturn(f *ssa.Function) bool {
	switch FullName(f) {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "syscall.Exit",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
		return true
	}
	return false
}

func (p *Prog) canReturn(fn *ssa.Function) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	st = append(st, fn.Blocks[0])
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		stop := false
		for _, in := range b.Instrs {
			if p.isNoReturnCall(in) {
				stop = true
				break
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		if !stop {
			st = append(st, b.Succs...)
		}
	}
	return false
}

// Reach: repo functions that transitively (same goroutine unless withGo)
// contain an instruction satisfying pred.
func (p *Prog) Reach(withGo bool, pred func(fn *ssa.Function, in ssa.Instruction) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, fn := range p.Funcs {
	scan:
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if pred(fn, in) {
					r[fn] = true
					work = append(work, fn)
					break scan
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range p.callers[f] {
			if _, isGo := c.(*ssa.Go); isGo && !withGo {
				continue
			}
			g := c.Parent()
			if !r[g] {
				r[g] = true
				work = append(work, g)
			}
		}
	}
	return r
}

// ---- loops -----------------------------------------------------------------

type LoopInfo struct {
	inLoop map[*ssa.BasicBlock]bool
	rpo    map[*ssa.BasicBlock]int
	back   map[[2]int]bool // from,to block index
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	num    map[ssa.Value]int
	inum   map[ssa.Instruction]string
	reach  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (p *Prog) Loop(fn *ssa.Function) *LoopInfo {
	if p.loops == nil {
		p.loops = map[*ssa.Function]*LoopInfo{}
	}
	if l := p.loops[fn]; l != nil {
		return l
	}
	l := &LoopInfo{inLoop: map[*ssa.BasicBlock]bool{}, rpo: map[*ssa.BasicBlock]int{}, back: map[[2]int]bool{},
		live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, num: map[ssa.Value]int{}, inum: map[ssa.Instruction]string{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	p.loops[fn] = l
	// postorder
	var post []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 0 {
				dfs(s)
			} else if state[s] == 1 {
				l.back[[2]int{b.Index, s.Index}] = true
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && state[fn.Recover] == 0 {
		dfs(fn.Recover)
	}
	for i, b := range post {
		l.rpo[b] = len(post) - 1 - i
	}
	for _, b := range fn.Blocks {
		r := map[*ssa.BasicBlock]bool{}
		var st []*ssa.BasicBlock
		st = append(st, b.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if r[x] {
				continue
			}
			r[x] = true
			st = append(st, x.Succs...)
		}
		l.reach[b] = r
		if r[b] {
			l.inLoop[b] = true
		}
	}
	n := 0
	add := func(v ssa.Value) { n++; l.num[v] = n }
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			l.inum[in] = itoa(b.Index) + "." + itoa(i)
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		l.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				pi := -1
				for i, pr := range s.Preds {
					if pr == b {
						pi = i
						for _, in := range s.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							if l.live[s][ph] && trackable(ph.Edges[pi]) {
								cur[ph.Edges[pi]] = true
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue // phis are part of live-in (evaluated on the edge)
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && trackable(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(l.live[b]) {
				l.live[b] = cur
				ch = true
			}
		}
	}
	return l
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var leakMemo = map[ssa.Value]int{}

// leaks: a pointer to v may be kept somewhere (stored, captured, returned or
// handed to another goroutine), so that code it is not passed to can change it.
func (p *Prog) leaks(v ssa.Value) bool {
	if r, ok := leakMemo[v]; ok {
		return r == 1
	}
	leakMemo[v] = 0
	r := p.leaks1(v)
	if r {
		leakMemo[v] = 1
	}
	return r
}

func (p *Prog) leaks1(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, ref := range *refs {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Val == v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.FieldAddr:
			if p.leaks(u) {
				return true
			}
		case *ssa.IndexAddr:
			if p.leaks(u) {
				return true
			}
		case *ssa.Slice:
			if p.leaks(u) {
				return true
			}
		case *ssa.Phi:
			if p.leaks(u) {
				return true
			}
		case *ssa.MakeInterface:
			if p.leaks(u) {
				return true
			}
		case *ssa.ChangeType:
			if p.leaks(u) {
				return true
			}
		case *ssa.Call, *ssa.Defer:
			c := u.(ssa.CallInstruction)
			if _, ok := c.Common().Value.(*ssa.Builtin); ok {
				if c.Common().Value.Name() == "append" {
					return true
				}
				continue
			}
			cs := p.Callees(c)
			if len(cs) == 0 {
				return true
			}
			for _, f := range cs {
				if f.Blocks == nil || !p.InRepo(f) {
					continue
				}
				off := 0
				if c.Common().IsInvoke() {
					if c.Common().Value == v {
						if p.leaks(f.Params[0]) {
							return true
						}
					}
					off = 1
				}
				for i, a := range c.Common().Args {
					if a == v && i+off < len(f.Params) && p.leaks(f.Params[i+off]) {
						return true
					}
				}
			}
		default:
			return true
		}
	}
	return false
}
