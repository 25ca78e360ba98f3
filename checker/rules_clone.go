package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N01: what trees built in parallel share.

// hasRefs: values of the type lead to memory that others may hold too.
func hasRefs(t types.Type) bool { return hasRefs1(t, 0) }

func hasRefs1(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	case *types.Array:
		return hasRefs1(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs1(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs1(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	}
	return nil
}

// sharing: the cells of a copy that hold what the original holds too. The key
// is the path of the cell from the memory it lies in, the value the class of
// the field (empty if unknown).
type sharing map[string]string

func (s sharing) clone() sharing {
	r := sharing{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

func (s sharing) same(o sharing) bool {
	if len(s) != len(o) {
		return false
	}
	for k, v := range o {
		if s[k] != v {
			return false
		}
	}
	return true
}

// under: the state says the cell at the path, or one above it, is shared
func (s sharing) under(path string) bool {
	if _, ok := s[path]; ok {
		return true
	}
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '.' || path[i] == '[' {
			if _, ok := s[path[:i]]; ok {
				return true
			}
		}
	}
	return false
}

func (s sharing) drop(path string) {
	for k := range s {
		if k == path || strings.HasPrefix(k, path+".") || strings.HasPrefix(k, path+"[") {
			delete(s, k)
		}
	}
}

// cloneFn analyses one function that makes a copy.
type cloneFn struct {
	p      *Prog
	fn     *ssa.Function
	own    map[ssa.Value]string // parameters that are the caller's own memory
	depth  int
	paths  map[ssa.Value]string
	alias  map[ssa.Value]string
	in     map[*ssa.BasicBlock]sharing
	ret    []sharing // by result: shared cells below it
	retBad []bool
	exit   sharing
	leaks  map[string]token.Pos // classes of others' cells given own memory that is not exactly full
	stack  map[*ssa.Function]bool
	calls  int
	cut    bool
	quiet  bool // do not note what is kept by others
}

func newCloneFn(p *Prog, fn *ssa.Function, own map[ssa.Value]string, depth int, leaks map[string]token.Pos, stack map[*ssa.Function]bool) *cloneFn {
	st := map[*ssa.Function]bool{fn: true}
	for k := range stack {
		st[k] = true
	}
	return &cloneFn{p: p, fn: fn, own: own, depth: depth, paths: map[ssa.Value]string{}, alias: map[ssa.Value]string{}, leaks: leaks, stack: st}
}

// path of the memory a value points to, from own memory; "" if it is not own
func (c *cloneFn) path(v ssa.Value) string {
	if s, ok := c.paths[v]; ok {
		if s == "busy" {
			c.cut = true
			return ""
		}
		return s
	}
	c.paths[v] = "busy"
	old := c.cut
	c.cut = false
	s := c.path1(v)
	if s == "" && c.cut {
		// known no better while something above is looked at
		delete(c.paths, v)
	} else {
		c.paths[v] = s
		c.cut = false
	}
	c.cut = c.cut || old
	return s
}

func (c *cloneFn) path1(v ssa.Value) string {
	if s, ok := c.own[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Call, *ssa.Extract:
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Common().Value.(*ssa.Builtin); ok {
				if b.Name() != "append" {
					return ""
				}
				if s := c.path(call.Common().Args[0]); s != "" {
					return s
				}
			}
		}
		// what is kept in a cell of own memory is known by the cell
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				s, ok := r.(*ssa.Store)
				if ok && s.Val == v && s.Addr != v {
					if _, isA := s.Addr.(*ssa.Alloc); isA {
						continue
					}
					if q := c.path(s.Addr); q != "" {
						return q
					}
				}
			}
		}
		switch v.(type) {
		case *ssa.Call, *ssa.Extract:
			return fmt.Sprintf("%s@%p", v.Name(), c.fn)
		}
		return fmt.Sprintf("%s@%p", v.Name(), c.fn)
	case *ssa.FieldAddr:
		if s := c.path(x.X); s != "" {
			return s + "." + fieldNameOf(x)
		}
	case *ssa.IndexAddr:
		if s := c.path(x.X); s != "" {
			return s + "[*]"
		}
	case *ssa.Slice:
		return c.path(x.X)
	case *ssa.ChangeType:
		return c.path(x.X)
	case *ssa.MakeInterface:
		return c.path(x.X)
	case *ssa.ChangeInterface:
		return c.path(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a variable
				if st := onlyStore(al); st != nil {
					return c.path(st.Val)
				}
				if _, isS := deref(al.Type()).Underlying().(*types.Struct); !isS {
					return ""
				}
			}
			return c.path(x.X)
		}
	case *ssa.Phi:
		s := ""
		for _, e := range x.Edges {
			if isNilConst(e) || e == v {
				continue
			}
			q := c.path(e)
			if q == "" {
				// a list grown in a loop
				if a, ok := e.(*ssa.Call); ok {
					if b, ok := a.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && a.Common().Args[0] == v {
						continue
					}
				}
				return ""
			}
			if s != "" && q != s {
				if strings.Contains(s, "@") && !strings.Contains(q, "@") {
					s = q
					continue
				}
				if strings.Contains(q, "@") && !strings.Contains(s, "@") {
					continue
				}
				return ""
			}
			s = q
		}
		return s
	}
	return ""
}

func fieldNameOf(x *ssa.FieldAddr) string {
	if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok {
		return st.Field(x.Field).Name()
	}
	return "?"
}

// cells of a struct that hold references, by name
func refCells(t types.Type) map[string]string {
	r := map[string]string{}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, isF := ft.Underlying().(*types.Signature); isF || !hasRefs(ft) {
			continue
		}
		cls, _ := fieldClass(t, i)
		if _, isS := ft.Underlying().(*types.Struct); isS {
			for k, v := range refCells(ft) {
				r["."+st.Field(i).Name()+k] = v
			}
			continue
		}
		r["."+st.Field(i).Name()] = cls
	}
	return r
}

// value: is the value memory of its own (ok), and which cells below it are
// shared with others
func (c *cloneFn) value(v ssa.Value, st sharing, seen map[ssa.Value]bool) (bool, sharing) {
	none := sharing{}
	if !hasRefs(v.Type()) {
		return true, none
	}
	if seen[v] {
		return true, none
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return true, none
	case *ssa.MakeClosure:
		return true, none
	case *ssa.Parameter:
		_, ok := c.own[v]
		return ok, none
	case *ssa.Phi:
		all := sharing{}
		for _, e := range x.Edges {
			ok, s := c.value(e, st, seen)
			if !ok {
				return false, none
			}
			for k, w := range s {
				all[k] = w
			}
		}
		return true, all
	case *ssa.Slice:
		return c.value(x.X, st, seen)
	case *ssa.ChangeType:
		return c.value(x.X, st, seen)
	case *ssa.Convert:
		return c.value(x.X, st, seen)
	case *ssa.MakeInterface:
		return c.value(x.X, st, seen)
	case *ssa.ChangeInterface:
		return c.value(x.X, st, seen)
	case *ssa.TypeAssert:
		return c.value(x.X, st, seen)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		q := c.path(v)
		return q != "" && !st.under(q), none
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false, none
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := onlyStore(al); s != nil {
				return c.value(s.Val, st, seen)
			}
		}
		q := c.path(x.X)
		return q != "" && !st.under(q), none
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.callValue(call, x.Index, st)
		}
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			if b.Name() != "append" {
				return b.Name() != "recover", none
			}
			a := x.Common().Args
			ok, s := c.value(a[0], st, seen)
			if !ok {
				return false, none
			}
			if el := elemOf(x.Type()); el != nil && hasRefs(el) && len(a) > 1 {
				// the elements are put in as they are
				if ok2, _ := c.value(a[1], st, seen); !ok2 {
					return false, none
				}
			}
			return true, s
		}
		return c.callValue(x, 0, st)
	}
	return false, none
}

// callValue: result i of the call
func (c *cloneFn) callValue(x *ssa.Call, i int, st sharing) (bool, sharing) {
	all := sharing{}
	fs := c.p.Callees(x)
	if len(fs) == 0 {
		f := x.Common().StaticCallee()
		if f != nil {
			n := FullName(f)
			if strings.HasPrefix(n, "slices.Clone") || strings.HasPrefix(n, "maps.Clone") || strings.HasPrefix(n, "bytes.Clone") {
				el := elemOf(x.Type())
				return el != nil && !hasRefs(el), all
			}
		}
		return false, all
	}
	for _, f := range fs {
		if f.Blocks == nil || !c.p.InRepo(f) {
			n := FullName(f)
			if strings.HasPrefix(n, "slices.Clone") || strings.HasPrefix(n, "maps.Clone") || strings.HasPrefix(n, "bytes.Clone") {
				el := elemOf(x.Type())
				if el == nil || hasRefs(el) {
					return false, all
				}
				continue
			}
			return false, all
		}
		if c.depth > 6 || c.stack[f] {
			return false, all
		}
		sub := c.callee(x, f, st)
		if i >= len(sub.ret) || sub.retBad[i] {
			return false, all
		}
		for k, v := range sub.ret[i] {
			all[k] = v
		}
	}
	return true, all
}

func callArgs(x *ssa.Call) []ssa.Value {
	cc := x.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// callee analyses a function called with what the caller has
func (c *cloneFn) callee(x *ssa.Call, f *ssa.Function, st sharing) *cloneFn {
	own := map[ssa.Value]string{}
	in := sharing{}
	for k, a := range callArgs(x) {
		if k >= len(f.Params) || !hasRefs(a.Type()) {
			continue
		}
		q := c.path(a)
		if q == "" || st.under(q) {
			continue
		}
		if ok, _ := c.value(a, st, map[ssa.Value]bool{}); !ok {
			continue
		}
		own[f.Params[k]] = q
		for w, cl := range st {
			in[w] = cl
		}
	}
	sub := newCloneFn(c.p, f, own, c.depth+1, c.leaks, c.stack)
	sub.quiet = c.quiet
	sub.run(in)
	c.calls += 1 + sub.calls
	return sub
}

// loopOver: the block is the head of a loop that passes over all elements
// from the first to the last; the value that counts
func loopOver(h *ssa.BasicBlock) (idx map[ssa.Value]bool, body *ssa.BasicBlock, over ssa.Value) {
	if len(h.Instrs) == 0 {
		return nil, nil, nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.NEQ && cmp.Op != token.GTR {
		return nil, nil, nil
	}
	x, y := cmp.X, cmp.Y
	if cmp.Op == token.GTR {
		x, y = y, x
	}
	l, ok := y.(*ssa.Call)
	if !ok {
		return nil, nil, nil
	}
	if b, ok := l.Common().Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil, nil, nil
	}
	if !fromZero(x) || loopStride(x) != 1 {
		return nil, nil, nil
	}
	idx = map[ssa.Value]bool{x: true}
	return idx, h.Succs[0], l.Common().Args[0]
}

// nilBranch: taking the edge, the field named is known to be nil
func nilBranch(b *ssa.BasicBlock, succ int) (cell ssa.Value, ok bool) {
	if len(b.Instrs) == 0 {
		return nil, false
	}
	iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	cmp, isB := iff.Cond.(*ssa.BinOp)
	if !isB {
		return nil, false
	}
	x := cmp.X
	if isNilConst(x) {
		x = cmp.Y
	} else if !isNilConst(cmp.Y) {
		return nil, false
	}
	if cmp.Op == token.EQL && succ == 0 || cmp.Op == token.NEQ && succ == 1 {
		return x, true
	}
	return nil, false
}

// lastField: the class of the field a value was loaded from
func loadedField(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			cls, _ := fieldClass(deref(fa.X.Type()), fa.Field)
			return cls
		}
	}
	return ""
}

func (c *cloneFn) run(in sharing) {
	fn := c.fn
	n := fn.Signature.Results().Len()
	c.ret = make([]sharing, n)
	c.retBad = make([]bool, n)
	for i := range c.ret {
		c.ret[i] = sharing{}
	}
	c.exit = sharing{}
	c.in = map[*ssa.BasicBlock]sharing{}
	c.in[fn.Blocks[0]] = in.clone()
	// what the back edges of loops bring
	back := map[*ssa.BasicBlock]sharing{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	steps := 0
	for len(work) > 0 && steps < 4000 {
		steps++
		b := work[0]
		work = work[1:]
		st := c.in[b].clone()
		for _, i := range b.Instrs {
			c.step(i, st)
		}
		for k, s := range b.Succs {
			out := st.clone()
			if v, ok := nilBranch(b, k); ok {
				if cl := loadedField(v); cl != "" {
					for cell, w := range out {
						if w == cl && c.sameCell(v, cell) {
							delete(out, cell)
						}
					}
				}
			}
			if k == 1 {
				_, body, _ := loopOver(b)
				if body != nil && back[b] == nil && comesBack(b) {
					continue // once it is known what the turns do
				}
				if body != nil && back[b] != nil {
					// the loop went over all elements: what every turn of
					// it settles is settled for all
					for cell := range out {
						if !strings.Contains(cell, "[*]") {
							continue
						}
						if _, left := back[b][cell]; !left && c.settledBy(b, cell) {
							delete(out, cell)
						}
					}
				}
			}
			if s.Dominates(b) {
				ch := back[s] == nil
				if ch {
					back[s] = sharing{}
				}
				for cell, w := range out {
					if _, ok := back[s][cell]; !ok {
						back[s][cell] = w
						ch = true
					}
				}
				c.merge(s, out, &work, ch)
				continue
			}
			c.merge(s, out, &work, false)
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for cell, w := range st {
				c.exit[cell] = w
			}
			for i, v := range r.Results {
				if !hasRefs(v.Type()) {
					continue
				}
				ok, sub := c.value(v, st, map[ssa.Value]bool{})
				if !ok {
					c.retBad[i] = true
					continue
				}
				for k, w := range sub {
					c.ret[i][k] = w
				}
				if q := c.path(v); q != "" {
					for cell, w := range st {
						if strings.HasPrefix(cell, q) && cell != q {
							c.ret[i][cell[len(q):]] = w
						}
					}
				}
			}
		}
	}
}

// at: what is shared when the instruction is reached
func (c *cloneFn) at(in ssa.Instruction) sharing {
	st := c.in[in.Block()].clone()
	old := c.quiet
	c.quiet = true
	defer func() { c.quiet = old }()
	for _, i := range in.Block().Instrs {
		if i == in {
			break
		}
		c.step(i, st)
	}
	return st
}

// sameCell: the value tested is the cell's own content or the original's
func (c *cloneFn) sameCell(v ssa.Value, cell string) bool {
	u := v.(*ssa.UnOp)
	fa := u.X.(*ssa.FieldAddr)
	if q := c.path(fa); q != "" {
		return q == cell
	}
	return true // the original's cell of the same class, copied as a whole
}

// settledBy: the stores into the cell that lie in the loop go by its counter
// and the loop is over that list
func (c *cloneFn) settledBy(h *ssa.BasicBlock, cell string) bool {
	idx, _, over := loopOver(h)
	root := cell[:strings.LastIndex(cell, "[*]")]
	if q := c.path(over); q != "" && q != root {
		return false
	}
	if c.path(over) == "" {
		// the original's list
		a, b := elemOf(over.Type()), ""
		_ = b
		if a == nil {
			return false
		}
	}
	n := 0
	for _, b := range c.fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			q := c.path(s.Addr)
			if q == "" || q != cell {
				continue
			}
			if ix := indexOn(s.Addr, c); ix != nil && !idx[ix] {
				return false
			}
			n++
		}
	}
	return true
}

// indexOn: the index by which an address was reached
func indexOn(v ssa.Value, c *cloneFn) ssa.Value {
	for k := 0; k < 20; k++ {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			return x.Index
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			// memory kept in a list
			if rs := v.Referrers(); rs != nil {
				for _, r := range *rs {
					if s, ok := r.(*ssa.Store); ok && s.Val == v {
						if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
							return ia.Index
						}
					}
				}
			}
			return nil
		}
	}
	return nil
}

func (c *cloneFn) merge(s *ssa.BasicBlock, out sharing, work *[]*ssa.BasicBlock, isBack bool) {
	cur, ok := c.in[s]
	if !ok {
		c.in[s] = out
		*work = append(*work, s)
		return
	}
	ch := isBack
	for k, v := range out {
		if _, ok := cur[k]; !ok {
			cur[k] = v
			ch = true
		}
	}
	if ch {
		*work = append(*work, s)
	}
}

// comesBack: the block is the head of a loop
func comesBack(h *ssa.BasicBlock) bool {
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			return true
		}
	}
	return false
}

func (c *cloneFn) step(in ssa.Instruction, st sharing) {
	switch x := in.(type) {
	case *ssa.Store:
		if !hasRefs(x.Val.Type()) {
			return
		}
		q := c.path(x.Addr)
		if q == "" {
			c.leak(x.Addr, x.Val, x.Pos())
			return
		}
		if al, ok := x.Addr.(*ssa.Alloc); ok {
			if _, isS := deref(al.Type()).Underlying().(*types.Struct); !isS && onlyStore(al) != nil {
				return // a variable, known by its content
			}
		}
		if a, ok := x.Val.(*ssa.Call); ok {
			if b, ok := a.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && c.path(a.Common().Args[0]) == q {
				return // a list grown: what was appended has been noted
			}
		}
		st.drop(q)
		if _, isS := x.Val.Type().Underlying().(*types.Struct); isS {
			if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				r := c.path(u.X)
				if r != "" && !st.under(r) {
					for k, w := range st.clone() {
						if strings.HasPrefix(k, r+".") {
							st[q+k[len(r):]] = w
						}
					}
					return
				}
			} else if ok, _ := c.value(x.Val, st, map[ssa.Value]bool{}); ok {
				return
			}
			for k, w := range refCells(x.Val.Type()) {
				st[q+k] = w
			}
			return
		}
		ok, sub := c.value(x.Val, st, map[ssa.Value]bool{})
		if !ok {
			cls, _ := addrClass(x.Addr)
			st[q] = cls
			return
		}
		for k, w := range sub {
			st[q+k] = w
		}
	case *ssa.MapUpdate:
		q := c.path(x.Map)
		if q == "" || !hasRefs(x.Value.Type()) {
			return
		}
		if ok, _ := c.value(x.Value, st, map[ssa.Value]bool{}); !ok {
			st[q+"[*]"] = "I:" + namedName(deref(x.Value.Type()))
		}
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				q := c.path(x.Common().Args[0])
				if el := elemOf(x.Common().Args[0].Type()); q != "" && el != nil && hasRefs(el) {
					if ok, _ := c.value(x.Common().Args[1], st, map[ssa.Value]bool{}); !ok {
						c.elements(q, el, st)
					}
				}
			case "append":
				// appended elements that are others'
				a := x.Common().Args
				el := elemOf(x.Type())
				if q := c.path(x); q != "" && el != nil && hasRefs(el) && len(a) > 1 {
					if sl, ok := a[1].(*ssa.Slice); ok {
						if al, ok := sl.X.(*ssa.Alloc); ok {
							for _, r := range *al.Referrers() {
								ia, ok := r.(*ssa.IndexAddr)
								if !ok {
									continue
								}
								for _, s := range *ia.Referrers() {
									s, ok := s.(*ssa.Store)
									if !ok {
										continue
									}
									ok2, sub := c.value(s.Val, st, map[ssa.Value]bool{})
									if !ok2 {
										c.elements(q, el, st)
										continue
									}
									for k, w := range sub {
										st[q+"[*]"+k] = w
									}
									if r := c.path(s.Val); r != "" {
										for k, w := range st.clone() {
											if strings.HasPrefix(k, r) && k != r {
												st[q+"[*]"+k[len(r):]] = w
											}
										}
									}
								}
							}
							return
						}
					}
					if ok, _ := c.value(a[1], st, map[ssa.Value]bool{}); !ok {
						c.elements(q, el, st)
					}
				}
			}
			return
		}
		if isLog(x) || c.depth > 6 {
			return
		}
		for _, f := range c.p.Callees(x) {
			if f.Blocks == nil || !c.p.InRepo(f) || c.stack[f] || isLogFn(f) {
				continue
			}
			sub := c.callee(x, f, st)
			if len(sub.own) == 0 {
				continue
			}
			for _, q := range sub.own {
				for cell := range st {
					if strings.HasPrefix(cell, q) {
						if _, left := sub.exit[cell]; !left {
							delete(st, cell)
						}
					}
				}
				for cell, w := range sub.exit {
					if strings.HasPrefix(cell, q) {
						st[cell] = w
					}
				}
			}
		}
	}
}

func isLog(x *ssa.Call) bool {
	f := x.Common().StaticCallee()
	return f != nil && isLogFn(f)
}

// elements of a list that are others' memory
func (c *cloneFn) elements(q string, el types.Type, st sharing) {
	if cells := refCells(el); len(cells) > 0 {
		for k, w := range cells {
			st[q+"[*]"+k] = w
		}
		return
	}
	st[q+"[*]"] = "E:" + namedName(deref(el))
}

// leak: own memory is put where others find it
func (c *cloneFn) leak(addr, val ssa.Value, pos token.Pos) {
	if c.quiet || c.path(val) == "" {
		return
	}
	cls, _ := addrClass(addr)
	if cls == "" || strings.HasPrefix(cls, "A:") {
		return
	}
	mode := ""
	if ms, ok := val.(*ssa.MakeSlice); ok && ms.Len == ms.Cap {
		mode = "full " // nothing can be appended in place
	}
	c.leaks[mode+cls] = pos
}

// mutations of memory reached from the fields, in the functions given
type shareTaint struct {
	p      *Prog
	fns    map[*ssa.Function]*ssa.Function
	callIn map[*ssa.Function][]*ssa.Call
	byCls  map[string][]*ssa.FieldAddr
}

type mutation struct {
	fn  *ssa.Function
	pos string
	how string
}

func newShareTaint(p *Prog, fns map[*ssa.Function]*ssa.Function) *shareTaint {
	t := &shareTaint{p: p, fns: fns, callIn: map[*ssa.Function][]*ssa.Call{}, byCls: map[string][]*ssa.FieldAddr{}}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					for _, g := range p.Callees(x) {
						t.callIn[g] = append(t.callIn[g], x)
					}
				case *ssa.FieldAddr:
					cls, _ := fieldClass(deref(x.X.Type()), x.Field)
					t.byCls[cls] = append(t.byCls[cls], x)
				}
			}
		}
	}
	return t
}

// find: the mutations, appends counted unless told otherwise. The fields with
// the numbers in empty are nil in what the classes and values given hold.
func (t *shareTaint) find(classes []string, start []ssa.Value, appendOK bool, empty map[int]bool) []mutation {
	type item struct {
		v    ssa.Value
		self bool // the thing itself, not something it leads to
	}
	type clsItem struct {
		cls  string
		self bool
	}
	var res []mutation
	seen := map[item]bool{}
	clsSeen := map[clsItem]bool{}
	var work []item
	var cur item
	why := map[item]item{}
	never := func(in ssa.Instruction) bool {
		if len(empty) == 0 || !cur.self {
			return false
		}
		for _, g := range guards(in.Block()) {
			x, op, y, ok := g.cmp()
			if ok && isNilConst(x) {
				x, y = y, x
			}
			if !ok || op != token.NEQ || !isNilConst(y) {
				continue
			}
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && empty[fa.Field] && seen[item{fa.X, true}] {
					return true
				}
			}
		}
		return false
	}
	add := func(v ssa.Value, self bool) {
		if v == nil || !hasRefs(v.Type()) {
			return
		}
		it := item{v, self}
		if seen[it] {
			return
		}
		if f := v.Parent(); f != nil {
			if _, ok := t.fns[f]; !ok || isLogFn(f) {
				return
			}
		}
		seen[it] = true
		work = append(work, it)
		if debugEngine {
			why[it] = cur
		}
	}
	addCls := func(cls string, self bool) {
		if clsSeen[clsItem{cls, self}] {
			return
		}
		clsSeen[clsItem{cls, self}] = true
		for _, fa := range t.byCls[cls] {
			for _, r := range *fa.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					add(u, self)
				}
			}
		}
	}
	for _, c := range classes {
		addCls(c, true)
	}
	for _, v := range start {
		add(v, true)
	}
	hit := func(in ssa.Instruction, how string) {
		if never(in) {
			return
		}
		if debugEngine {
			fmt.Println("mutation", t.p.InstrPos(in), how)
			for w := cur; w.v != nil; w = why[w] {
				fmt.Println("   ", w.v.Parent(), w.v.Name(), w.v, w.self, t.p.Pos(w.v.Pos()))
			}
		}
		res = append(res, mutation{in.Parent(), t.p.InstrPos(in), how})
	}
	for len(work) > 0 {
		cur = work[0]
		work = work[1:]
		v, self := cur.v, cur.self
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, r := range *rs {
			if never(r) {
				continue
			}
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if _, none := empty[x.Field]; self && none {
					// nothing to be found there, but it may be filled in
					for _, q := range *x.Referrers() {
						switch w := q.(type) {
						case *ssa.Store:
							if w.Addr == x {
								hit(w, "stores")
							}
						case *ssa.IndexAddr:
							for _, q2 := range *w.Referrers() {
								if w2, ok := q2.(*ssa.Store); ok && w2.Addr == w {
									hit(w2, "stores")
								}
							}
						}
					}
					continue
				}
				add(x, false)
			case *ssa.IndexAddr:
				if x.X == v {
					add(x, false)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					add(x, false)
				}
			case *ssa.Field:
				add(x, false)
			case *ssa.Index:
				add(x, false)
			case *ssa.Lookup:
				if x.X == v {
					add(x, false)
				}
			case *ssa.Range:
				for _, n := range *x.Referrers() {
					if nx, ok := n.(*ssa.Next); ok {
						for _, e := range *nx.Referrers() {
							if ex, ok := e.(*ssa.Extract); ok {
								add(ex, false)
							}
						}
					}
				}
			case *ssa.Phi:
				add(x, self)
			case *ssa.Slice:
				add(x, self)
			case *ssa.ChangeType:
				add(x, self)
			case *ssa.Convert:
				add(x, self)
			case *ssa.MakeInterface:
				add(x, self)
			case *ssa.ChangeInterface:
				add(x, self)
			case *ssa.TypeAssert:
				add(x, self)
			case *ssa.Extract:
				add(x, self)
			case *ssa.MapUpdate:
				if x.Map == v {
					hit(x, "sets an entry of a map")
				}
			case *ssa.Store:
				if x.Addr == v {
					if _, ok := x.Addr.(*ssa.Alloc); !ok {
						hit(x, "stores")
					}
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					if cls, _ := fieldClass(deref(a.X.Type()), a.Field); cls != "" {
						addCls(cls, self)
					}
				case *ssa.Alloc:
					for _, q := range *a.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok {
							add(u, self)
						}
					}
				case *ssa.IndexAddr:
					add(a.X, false)
				}
			case *ssa.MakeClosure:
				if f, ok := x.Fn.(*ssa.Function); ok {
					for k, bv := range x.Bindings {
						if bv == v && k < len(f.FreeVars) {
							add(f.FreeVars[k], self)
						}
					}
				}
			case *ssa.Return:
				f := x.Parent()
				for k, rv := range x.Results {
					if rv != v {
						continue
					}
					for _, call := range t.callIn[f] {
						if len(x.Results) == 1 {
							add(call, self)
							continue
						}
						for _, e := range *call.Referrers() {
							if ex, ok := e.(*ssa.Extract); ok && ex.Index == k {
								add(ex, self)
							}
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						if cc.Args[0] == v {
							_, cut := v.(*ssa.Slice)
							if !appendOK || cut {
								hit(x, "appends in place")
							}
							if val, ok := x.(ssa.Value); ok && !appendOK {
								add(val, false)
							}
						} else if val, ok := x.(ssa.Value); ok {
							if el := elemOf(val.Type()); el != nil && hasRefs(el) {
								add(val, false)
							}
						}
					case "copy":
						if cc.Args[0] == v {
							hit(x, "copies over elements")
						}
					case "delete", "clear":
						if cc.Args[0] == v {
							hit(x, "deletes from a map")
						}
					}
					continue
				}
				off := 0
				if cc.IsInvoke() {
					off = 1
				}
				for _, f := range t.p.Callees(x) {
					if f.Blocks == nil || !t.p.InRepo(f) {
						continue
					}
					if cc.IsInvoke() && cc.Value == v && len(f.Params) > 0 {
						add(f.Params[0], self)
					}
					for k, a := range cc.Args {
						if a == v && k+off < len(f.Params) {
							add(f.Params[k+off], self)
						}
					}
				}
				if f := cc.StaticCallee(); f != nil && !t.p.InRepo(f) {
					n := FullName(f)
					if strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "sort.Search") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") {
						hit(x, "sorts")
					}
				}
			}
		}
	}
	sort.Slice(res, func(i, j int) bool {
		return FullName(res[i].fn)+res[i].pos < FullName(res[j].fn)+res[j].pos
	})
	return res
}

// storedBefore: fields of the work type given something before the copy is
// made
func storedBefore(p *Prog, work *types.Named, copies map[*ssa.Function]bool) map[string]bool {
	// functions from which the copy is reached
	reach := p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, f := range p.Callees(call) {
			if copies[f] {
				return true
			}
		}
		return false
	})
	stored := map[string]bool{}
	note := func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || isNilConst(s.Val) {
			return
		}
		if types.Identical(s.Val.Type(), work) {
			if u, ok := s.Val.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok {
							cls, _ := fieldClass(work, fa.Field)
							stored[cls] = true
						}
					}
				}
			}
		}
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), work) {
			cls, _ := fieldClass(work, fa.Field)
			stored[cls] = true
		}
	}
	var roots []*ssa.Function
	for f := range reach {
		if f.Blocks == nil || copies[f] {
			continue
		}
		// blocks from which a call that leads to the copy is reached
		can := map[*ssa.BasicBlock]int{} // the last such call in the block; blocks before it: all
		for _, b := range f.Blocks {
			for k, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				for _, g := range p.Callees(call) {
					if copies[g] || reach[g] {
						can[b] = k
					}
				}
			}
		}
		full := map[*ssa.BasicBlock]bool{}
		var q []*ssa.BasicBlock
		for b := range can {
			q = append(q, b)
		}
		for len(q) > 0 {
			b := q[0]
			q = q[1:]
			for _, pr := range b.Preds {
				if !full[pr] {
					full[pr] = true
					q = append(q, pr)
				}
			}
		}
		for _, b := range f.Blocks {
			lim := -1
			if full[b] {
				lim = len(b.Instrs)
			} else if k, ok := can[b]; ok {
				lim = k
			}
			for k, in := range b.Instrs {
				if k >= lim {
					break
				}
				note(in)
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if otherWork(call, work) {
						continue
					}
					for _, g := range p.Callees(call) {
						if !copies[g] && !reach[g] {
							roots = append(roots, g)
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for len(roots) > 0 {
		f := roots[0]
		roots = roots[1:]
		if seen[f] || f.Blocks == nil || !p.InRepo(f) {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				note(in)
				if call, ok := in.(ssa.CallInstruction); ok {
					roots = append(roots, p.Callees(call)...)
				}
			}
		}
	}
	return stored
}

// otherWork: the call is about working data found in a field, such as that of
// a reply, and not about the function's own
func otherWork(call ssa.CallInstruction, work *types.Named) bool {
	n, other := 0, 0
	for _, a := range call.Common().Args {
		if !types.Identical(deref(a.Type()), work) {
			continue
		}
		n++
		if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.FieldAddr); ok {
				other++
			}
		}
	}
	return n > 0 && n == other
}

func ruleTreeShare(c *Ctx) {
	p := c.P
	const rn = "tree-share"
	c.Rule("tree-share: in every task handed to a worker that builds trees, each reference is to memory made for that task since the task before it, or to memory that no function below the workers stores into; the same for every reference in the working data a task leads to, followed through the functions that copy it (whole copies, lists copied element by element, nested copies, clone methods), unless the field is still empty when the copy is made; and no function below the workers stores into package-level variables")
	type task struct {
		elem    *types.Named
		workers []*ssa.Function
		starter *ssa.Function
	}
	tasks := map[string]*task{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, f := range p.Callees(g) {
					if f.Blocks == nil {
						continue
					}
					for _, pr := range f.Params {
						ch, ok := pr.Type().Underlying().(*types.Chan)
						if !ok || ch.Dir() == types.SendOnly {
							continue
						}
						n, ok := deref(ch.Elem()).(*types.Named)
						if !ok {
							continue
						}
						s, ok := n.Underlying().(*types.Struct)
						if !ok {
							continue
						}
						for i := 0; i < s.NumFields(); i++ {
							if strings.HasSuffix(namedName(deref(s.Field(i).Type())), "NodesWork") {
								t := tasks[n.Obj().Name()]
								if t == nil {
									t = &task{elem: n}
									tasks[n.Obj().Name()] = t
								}
								t.workers = append(t.workers, f)
								t.starter = fn
							}
						}
					}
				}
			}
		}
	}
	var names []string
	for k := range tasks {
		names = append(names, k)
	}
	sort.Strings(names)
	if len(names) < 2 {
		c.Undecided(rn, "the workers that build trees were not found")
		return
	}
	for _, tn := range names {
		t := tasks[tn]
		c.Count(rn+": kinds of task", 1)
		from := p.below(t.workers)
		c.Count(rn+": functions below the workers", len(from))
		taint := newShareTaint(p, from)
		est := t.elem.Underlying().(*types.Struct)
		fam := strings.HasPrefix(tn, "ZExt_")
		lbl := func(s string) string {
			if fam {
				return "ZExt " + s
			}
			return s
		}
		mutates := func(key, what string, classes []string, appendOK bool, empty map[int]bool) bool {
			m := taint.find(classes, nil, appendOK, empty)
			if len(m) == 0 {
				return false
			}
			c.Viol(rn, "N01|"+lbl(key), m[0].pos, what+", and "+FullName(m[0].fn)+" "+m[0].how+" there while other trees are built: "+via(from, m[0].fn))
			return true
		}
		// the sends
		sends := 0
		leaks := map[string]token.Pos{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Send)
					if !ok {
						continue
					}
					ch := s.Chan.Type().Underlying().(*types.Chan)
					if !types.Identical(deref(ch.Elem()), t.elem) {
						continue
					}
					sends++
					c.Count(rn+": tasks handed out", 1)
					// fields of the message
					var al *ssa.Alloc
					switch u := s.X.(type) {
					case *ssa.UnOp:
						al, _ = u.X.(*ssa.Alloc)
					case *ssa.Alloc:
						al = u
					}
					vals := map[int]ssa.Value{}
					cf := newCloneFn(p, fn, nil, 0, leaks, nil)
					var mk *ssa.Call // makes the message as a whole
					if al != nil {
						for _, r := range *al.Referrers() {
							if fa, ok := r.(*ssa.FieldAddr); ok {
								for _, q := range *fa.Referrers() {
									if w, ok := q.(*ssa.Store); ok && w.Addr == fa {
										vals[fa.Field] = w.Val
									}
								}
							}
							if w, ok := r.(*ssa.Store); ok && w.Addr == al {
								mk, _ = w.Val.(*ssa.Call)
							}
						}
					} else {
						mk, _ = s.X.(*ssa.Call)
					}
					wcf := cf
					if mk != nil {
						if f := mk.Common().StaticCallee(); f != nil && f.Blocks != nil {
							wcf = newCloneFn(p, f, nil, 1, leaks, nil)
							for _, rv := range resultVals(f, 0) {
								var ra *ssa.Alloc
								switch u := rv.(type) {
								case *ssa.UnOp:
									ra, _ = u.X.(*ssa.Alloc)
								case *ssa.Alloc:
									ra = u
								}
								if ra == nil {
									continue
								}
								for _, r := range *ra.Referrers() {
									if fa, ok := r.(*ssa.FieldAddr); ok {
										for _, q := range *fa.Referrers() {
											if w, ok := q.(*ssa.Store); ok && w.Addr == fa {
												vals[fa.Field] = w.Val
											}
										}
									}
								}
							}
						}
					}
					wcf.quiet = true
					wcf.run(sharing{})
					wcf.quiet = false
					for i := 0; i < est.NumFields(); i++ {
						ft := est.Field(i).Type()
						if !hasRefs(ft) {
							continue
						}
						if _, isF := ft.Underlying().(*types.Signature); isF {
							continue
						}
						c.Count(rn+": references in tasks", 1)
						name := est.Field(i).Name()
						cls, _ := fieldClass(t.elem, i)
						v := vals[i]
						if v == nil && (al != nil || mk != nil) && len(vals) > 0 {
							continue // left empty
						}
						if v == nil {
							c.Viol(rn, "N01|"+lbl(tn+"."+name+" unknown"), p.InstrPos(s), "what is handed to a worker in "+name+" could not be made out")
							continue
						}
						// made since the task before
						held := sharing{}
						if wcf == cf {
							held = wcf.at(s)
						}
						fresh, sub := wcf.value(v, held, map[ssa.Value]bool{})
						if fresh && wcf == cf {
							if d := origin(v); d == nil || !remade(d, s) {
								fresh = false
							}
						}
						if fresh && wcf != cf && !remade(mk, s) {
							fresh = false
						}
						if !fresh {
							mutates(tn+"."+name+" shared", "what tasks hold in "+name+" is not made anew for each of them", []string{cls}, false, emptyFields(p, v))
							continue
						}
						// cells of what was made
						q := wcf.path(v)
						left := sharing{}
						for k, w := range sub {
							left[k] = w
						}
						_ = q
						var work *types.Named
						if n, ok := deref(ft).(*types.Named); ok {
							work = n
						}
						var cells []string
						for k := range left {
							cells = append(cells, k)
						}
						sort.Strings(cells)
						var before map[string]bool
						for _, k := range cells {
							w := left[k]
							c.Count(rn+": references a copy shares with the original", 1)
							if work != nil && strings.HasPrefix(w, "F:"+work.Obj().Name()+".") {
								if before == nil {
									before = storedBefore(p, work, copiesOf(p, work))
								}
								if !before[w] {
									c.Count(rn+": of these, empty when copied", 1)
									continue
								}
							}
							if strings.HasPrefix(w, "E:") || strings.HasPrefix(w, "I:") || w == "" {
								// elements: by the list they are in
								if par := parentCls(k, work); par != "" {
									mutates(work.Obj().Name()+k+" shared", "elements of "+par+" are the original's", []string{par}, false, nil)
									continue
								}
								c.Viol(rn, "N01|"+lbl(name+k+" shared"), p.InstrPos(s), "the elements "+k+" of what a task holds are the original's")
								continue
							}
							if !mutates(strings.TrimPrefix(w, "F:")+" shared", "copies made for tasks hold in "+strings.TrimPrefix(w, "F:")+" what the original and the other copies hold", []string{w}, false, nil) {
								c.Site(rn+": shared and only read", strings.TrimPrefix(w, "F:"))
							}
						}
					}
				}
			}
		}
		if sends == 0 {
			c.Undecided(rn, "no task of type "+tn+" is handed out")
			continue
		}
		var lk []string
		for k := range leaks {
			lk = append(lk, k)
		}
		sort.Strings(lk)
		for _, k := range lk {
			full := strings.HasPrefix(k, "full ")
			cls := strings.TrimPrefix(k, "full ")
			c.Count(rn+": copies also kept by the original", 1)
			mutates(strings.TrimPrefix(cls, "F:")+" kept by the original", "what a copy holds in "+strings.TrimPrefix(cls, "F:")+" is kept by the original too", []string{cls}, full, nil)
		}
		// package-level variables
		var fns []*ssa.Function
		for f := range from {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return FullName(fns[i]) < FullName(fns[j]) })
		for _, f := range fns {
			if isLogFn(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || g.Pkg != p.Main {
							continue
						}
						c.Count(rn+": uses of package-level variables looked at", 1)
						if w, ok := in.(*ssa.Store); ok && w.Addr == g {
							c.Viol(rn, "N01|"+lbl("variable "+g.Name()), p.InstrPos(in), FullName(f)+" stores into the package-level variable "+g.Name()+" while other trees are built: "+via(from, f))
							continue
						}
						v, ok := in.(ssa.Value)
						if !ok || !hasRefs(v.Type()) || logVar(g) {
							continue
						}
						if m := taint.find(nil, []ssa.Value{v}, false, nil); len(m) > 0 {
							c.Viol(rn, "N01|"+lbl("variable "+g.Name()), m[0].pos, FullName(m[0].fn)+" "+m[0].how+" into what the package-level variable "+g.Name()+" holds while other trees are built: "+via(from, f))
						}
					}
				}
			}
		}
	}
	c.Min(rn, rn+": kinds of task", 2)
	c.Min(rn, rn+": tasks handed out", 4)
	c.Min(rn, rn+": references in tasks", 8)
	c.Min(rn, rn+": functions below the workers", 150)
	c.Min(rn, rn+": references a copy shares with the original", 4)
}

func logVar(g *ssa.Global) bool {
	n := namedName(deref(deref(g.Type())))
	return strings.HasSuffix(n, "Logger") || n == "Pool"
}

// parentCls: the class of the list whose elements the cell names
func parentCls(cell string, work *types.Named) string {
	if work == nil || !strings.HasSuffix(cell, "[*]") {
		return ""
	}
	name := strings.TrimPrefix(strings.TrimSuffix(cell, "[*]"), ".")
	if i := fieldIndex(work, name); i >= 0 {
		cls, _ := fieldClass(work, i)
		return cls
	}
	return ""
}

// copiesOf: functions that copy a value of the type as a whole into a new one
func copiesOf(p *Prog, work *types.Named) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !types.Identical(s.Val.Type(), work) {
					continue
				}
				al, ok := s.Addr.(*ssa.Alloc)
				if !ok || !al.Heap {
					continue
				}
				u, ok := s.Val.(*ssa.UnOp)
				if !ok {
					continue
				}
				if _, ok := u.X.(*ssa.Parameter); ok {
					r[fn] = true
				}
			}
		}
	}
	return r
}

// origin: the instruction that made the memory a value leads to
func origin(v ssa.Value) ssa.Instruction {
	for k := 0; k < 30; k++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Alloc:
			if !isStructPtr(x) {
				if s := onlyStore(x); s != nil {
					v = s.Val
					continue
				}
			}
			return x
		case ssa.Instruction:
			if _, ok := v.(*ssa.Phi); ok {
				return nil
			}
			return x
		default:
			return nil
		}
	}
	return nil
}

func isStructPtr(a *ssa.Alloc) bool {
	_, ok := deref(a.Type()).Underlying().(*types.Struct)
	return ok
}

// remade: from one run of the send to the next, the memory is made again
func remade(d ssa.Instruction, send ssa.Instruction) bool {
	if d == nil {
		return false
	}
	if d.Block() == send.Block() {
		return before(d, send)
	}
	if !d.Block().Dominates(send.Block()) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{d.Block(): true}
	work := append([]*ssa.BasicBlock(nil), send.Block().Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == send.Block() {
			return false
		}
		work = append(work, b.Succs...)
	}
	return true
}

// emptyFields: fields of what a call made that were left nil
func emptyFields(p *Prog, v ssa.Value) map[int]bool {
	r := map[int]bool{}
	st, ok := deref(v.Type()).Underlying().(*types.Struct)
	if !ok {
		return r
	}
	set := map[int]bool{}
	zero := map[int]bool{} // lists made empty, without room
	var stores func(v ssa.Value, d int) bool
	stores = func(v ssa.Value, d int) bool {
		if d > 5 || v.Referrers() == nil {
			return false
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.FieldAddr:
				for _, q := range *x.Referrers() {
					switch w := q.(type) {
					case *ssa.Store:
						if w.Addr == x && !isNilConst(w.Val) && !nilArray(w.Val) {
							if hollow(w.Val) {
								zero[x.Field] = true
							} else {
								set[x.Field] = true
							}
						}
					case *ssa.IndexAddr:
						for _, q2 := range *w.Referrers() {
							if w2, ok := q2.(*ssa.Store); ok && !isNilConst(w2.Val) {
								set[x.Field] = true
							}
						}
					}
				}
			case *ssa.Store:
				if x.Addr == v {
					return false
				}
				// kept in the task
				if fa, ok := x.Addr.(*ssa.FieldAddr); !ok || d > 0 && fa == nil {
					if _, ok := x.Addr.(*ssa.Alloc); !ok {
						return false
					}
				}
			case ssa.CallInstruction:
				for _, f := range p.Callees(x) {
					for k, a := range x.Common().Args {
						if a == v && k < len(f.Params) && f.Blocks != nil {
							if !stores(f.Params[k], d+1) {
								return false
							}
						}
					}
				}
			case *ssa.Return, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
			case *ssa.Phi:
				return false
			}
		}
		return true
	}
	var makes func(v ssa.Value, d int) bool
	makes = func(v ssa.Value, d int) bool {
		if !stores(v, 0) {
			return false
		}
		switch x := v.(type) {
		case *ssa.Alloc:
			return x.Heap
		case *ssa.Call:
			f := x.Common().StaticCallee()
			if f == nil || f.Blocks == nil || d > 4 {
				return false
			}
			vs := resultVals(f, 0)
			for _, w := range vs {
				if !makes(w, d+1) {
					return false
				}
			}
			return len(vs) > 0
		}
		return false
	}
	if !makes(v, 0) {
		return r
	}
	for i := 0; i < st.NumFields(); i++ {
		if !set[i] {
			r[i] = !zero[i]
		}
	}
	return r
}

func hollow(v ssa.Value) bool {
	zero := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.String() == "0"
	}
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return zero(x.Len) && zero(x.Cap)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			a, ok := deref(al.Type()).Underlying().(*types.Array)
			return ok && a.Len() == 0
		}
	}
	return false
}

// nilArray: an array of nothing but nil
func nilArray(v ssa.Value) bool {
	if k, ok := v.(*ssa.Const); ok {
		return k.Value == nil
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); !ok || !isNilConst(s.Val) {
					return false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
