package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N02: what builders may modify of the data of a level.

// below: the functions that may run because of fn: called, started, deferred,
// made closures of, or reached through the interfaces of sorting and heaps.
// The value is the caller through which it was found.
func (p *Prog) below(roots []*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	add := func(f, by *ssa.Function) {
		if f == nil || f.Blocks == nil || !p.InRepo(f) {
			return
		}
		if _, ok := from[f]; ok {
			return
		}
		from[f] = by
		work = append(work, f)
	}
	for _, r := range roots {
		add(r, nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if isLogFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(c) {
						add(g, f)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					for _, m := range []string{"Len", "Less", "Swap", "Push", "Pop", "Write", "Read"} {
						if o, _, _ := types.LookupFieldOrMethod(mi.X.Type(), true, p.Main.Pkg, m); o != nil {
							if fo, ok := o.(*types.Func); ok {
								add(p.Main.Prog.FuncValue(fo), f)
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, f)
					}
				}
			}
		}
	}
	return from
}

func via(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var a []string
	for g := f; g != nil && len(a) < 8; g = from[g] {
		a = append(a, g.Name())
	}
	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
		a[i], a[j] = a[j], a[i]
	}
	return strings.Join(a, " -> ")
}

// ownMemory: the address lies in memory the function itself made.
func ownMemory(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return ownMemory(x.X, seen)
	case *ssa.IndexAddr:
		return ownMemory(x.X, seen)
	case *ssa.Slice:
		return ownMemory(x.X, seen)
	case *ssa.ChangeType:
		return ownMemory(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isNilConst(e) && !ownMemory(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a field that was given memory of its own before
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return false
		}
		for _, b := range x.Parent().Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fb, ok := s.Addr.(*ssa.FieldAddr)
				if ok && fb.X == fa.X && fb.Field == fa.Field && before(s, x) && ownMemory(s.Val, seen) {
					return true
				}
			}
		}
		return false
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return isNilConst(x.Common().Args[0]) || ownMemory(x.Common().Args[0], seen)
		}
	}
	return false
}

// before: a runs before b whenever b runs.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func implementers(p *Prog, iface string) []*types.Named {
	it := p.Named(iface)
	if it == nil {
		return nil
	}
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*types.Named
	sc := p.Main.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(types.NewPointer(nt), i) {
			r = append(r, nt)
		}
	}
	return r
}

func ruleMapData(c *Ctx) {
	p := c.P
	const rn = "map-data"
	c.Rule("map-data: no function that may run because of a reject or blockmap builder (or the shared blockmap) stores into vertices, lines, sidedefs, sectors or things it did not make itself; none that may run because of a node builder stores into sidedefs, sectors or things, or into vertices and lines other than inside the type that holds them; detaching gives the holder fresh copies of all the lines and vertices its methods store into, on every path; a clone gets copies too")
	holders := implementers(p, "WriteableLines")
	if len(holders) == 0 {
		c.Undecided(rn, "no type implements WriteableLines")
		return
	}
	isHolder := map[string]bool{}
	for _, h := range holders {
		isHolder[h.Obj().Name()] = true
	}
	var readers, writers []*ssa.Function
	readers = append(readers, goTargets(p, "RejectInput")...)
	readers = append(readers, goTargets(p, "BlockmapInput")...)
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					for _, f := range p.Callees(g) {
						if f.Blocks == nil {
							continue
						}
						if rc := f.Signature.Recv(); rc != nil {
							switch namedName(deref(rc.Type())) {
							case "BlockmapInput", "SolidBlocks_Input":
								readers = append(readers, f)
							}
						}
						for _, pr := range f.Params {
							if n := namedName(deref(pr.Type())); strings.HasSuffix(n, "NodesInput") {
								writers = append(writers, f)
							}
						}
					}
				}
			}
		}
	}
	if len(readers) < 3 || len(writers) < 2 {
		c.Undecided(rn, "the goroutines of the builders were not found")
		return
	}
	check := func(roots []*ssa.Function, what string, lines bool) {
		from := p.below(roots)
		var fns []*ssa.Function
		for f := range from {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return FullName(fns[i]) < FullName(fns[j]) })
		for _, f := range fns {
			c.Count(rn+": functions that may run because of "+what, 1)
			inHolder := f.Signature.Recv() != nil && isHolder[namedName(deref(f.Signature.Recv().Type()))]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var addr ssa.Value
					cls := ""
					switch x := in.(type) {
					case *ssa.Store:
						addr = x.Addr
						cls, _ = addrClass(x.Addr)
						for a := addr; !levelData(cls); {
							// the class of an enclosing record
							fa, ok := a.(*ssa.FieldAddr)
							if !ok {
								break
							}
							a = fa.X
							cls, _ = addrClass(a)
						}
					case *ssa.Call:
						bi, ok := x.Common().Value.(*ssa.Builtin)
						if !ok || bi.Name() != "copy" && bi.Name() != "append" {
							continue
						}
						s, ok := x.Common().Args[0].Type().Underlying().(*types.Slice)
						if !ok {
							continue
						}
						cls = "I:" + namedName(s.Elem())
						addr = x.Common().Args[0]
						if bi.Name() == "append" {
							sl, ok := addr.(*ssa.Slice)
							if !ok || sl.High == nil {
								continue // grows behind the end of what others see
							}
						}
					default:
						continue
					}
					if !levelData(cls) {
						continue
					}
					c.Count(rn+": stores into vertices, lines, sidedefs, sectors or things looked at", 1)
					if ownMemory(addr, map[ssa.Value]bool{}) {
						continue
					}
					el := strings.TrimPrefix(cls, "I:")
					if !strings.HasPrefix(cls, "I:") {
						el = classOwner(cls)
					}
					if lines && inHolder && (el == "Vertex" || el == "Linedef" || el == "HexenLinedef") {
						continue
					}
					c.Viol(rn, "N02|"+what+" stores into map data: "+el+" ["+f.Name()+"]", p.InstrPos(in), FullName(f)+" stores into data of type "+el+" that it did not make itself and that other builders read at the same time; it may run because of "+what+": "+via(from, f))
				}
			}
		}
	}
	check(readers, "a reject or blockmap builder", false)
	check(writers, "a node builder", true)
	// detaching
	for _, h := range holders {
		st, ok := h.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		mut := map[int]string{}
		for _, fn := range p.Funcs {
			if fn.Signature.Recv() == nil || namedName(deref(fn.Signature.Recv().Type())) != h.Obj().Name() || fn.Blocks == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					a := s.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					ia, ok := a.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if i, ok := holderField(ia.X, h, fn); ok && levelData("I:"+namedName(deref(ia.Type()))) {
						mut[i] = fn.Name()
					}
				}
			}
		}
		// all lists of lines and vertices count, stored into now or not
		for i := 0; i < st.NumFields(); i++ {
			if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				switch namedName(s.Elem()) {
				case "Vertex", "Linedef", "HexenLinedef":
					if mut[i] == "" {
						mut[i] = "AddVertex"
					}
				}
			}
		}
		un := p.Method(h.Obj().Name(), "UnshareData")
		if un == nil || un.Blocks == nil {
			c.Undecided(rn, "UnshareData of "+h.Obj().Name()+" not found")
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if mut[i] == "" {
				continue
			}
			c.Count(rn+": lists detached", 1)
			if !detaches(p, un, h, i, 0) {
				c.Viol(rn, "N02|"+h.Obj().Name()+"."+st.Field(i).Name()+" not detached", p.Pos(un.Pos()), FullName(un)+" may return without having replaced "+st.Field(i).Name()+" by a full copy of its own, though "+mut[i]+" modifies it while other builders read the original")
			}
		}
		cl := p.Method(h.Obj().Name(), "Clone")
		if cl == nil || cl.Blocks == nil {
			c.Undecided(rn, "Clone of "+h.Obj().Name()+" not found")
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if mut[i] == "" {
				continue
			}
			c.Count(rn+": lists cloned", 1)
			if !clones(p, cl, h, i) {
				c.Viol(rn, "N02|"+h.Obj().Name()+"."+st.Field(i).Name()+" not cloned", p.Pos(cl.Pos()), FullName(cl)+" may return a clone whose "+st.Field(i).Name()+" is not a copy made for it, though "+mut[i]+" modifies it while others read the original")
			}
		}
	}
	c.Min(rn, rn+": lists detached", 4)
	c.Min(rn, rn+": lists cloned", 4)
	c.Min(rn, rn+": functions that may run because of a reject or blockmap builder", 50)
	c.Min(rn, rn+": functions that may run because of a node builder", 100)
	c.Min(rn, rn+": stores into vertices, lines, sidedefs, sectors or things looked at", 4)
}

// holderField: v is the content of a field of the receiver.
func holderField(v ssa.Value, h *types.Named, fn *ssa.Function) (int, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && types.Identical(deref(fa.X.Type()), h) {
			return fa.Field, true
		}
	case *ssa.Slice:
		return holderField(x.X, h, fn)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if i, ok := holderField(e, h, fn); ok {
				return i, true
			}
		}
	}
	return 0, false
}

// detaches: on every path through fn, field i of its receiver is replaced by a
// full copy of what it was.
func detaches(p *Prog, fn *ssa.Function, h *types.Named, i, depth int) bool {
	if depth > 4 || len(fn.Params) == 0 {
		return false
	}
	recv := fn.Params[0]
	var dom []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != i || fa.X != recv {
					continue
				}
				if !fullCopy(p, x.Val, func(v ssa.Value) bool { return fieldOfRecv(v, recv, i) }, 0) {
					return false
				}
				dom = append(dom, b)
			case *ssa.Call:
				if f := x.Common().StaticCallee(); f != nil && f.Blocks != nil && len(x.Common().Args) > 0 && x.Common().Args[0] == recv && f.Signature.Recv() != nil && detaches(p, f, h, i, depth+1) {
					dom = append(dom, b)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		ok := false
		for _, d := range dom {
			ok = ok || d.Dominates(b)
		}
		if !ok {
			return false
		}
	}
	return len(dom) > 0
}

func fieldOfRecv(v, recv ssa.Value, i int) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fa.Field == i && fa.X == recv
}

// fullCopy: v is a new list with all the elements of src.
func fullCopy(p *Prog, v ssa.Value, src func(ssa.Value) bool, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeSlice:
		l, ok := x.Len.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := l.Common().Value.(*ssa.Builtin); !ok || b.Name() != "len" || !src(l.Common().Args[0]) {
			return false
		}
		for _, r := range *x.Referrers() {
			cp, ok := r.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := cp.Common().Value.(*ssa.Builtin); ok && b.Name() == "copy" && cp.Common().Args[0] == x && src(cp.Common().Args[1]) {
				return true
			}
		}
		// or element by element
		for _, r := range *x.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != ia || loopStride(ia.Index) != 1 {
					continue
				}
				if u, ok := s.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ib, ok := u.X.(*ssa.IndexAddr); ok && ib.Index == ia.Index && src(ib.X) {
						return true
					}
				}
			}
		}
		return false
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			if b.Name() != "append" || len(x.Common().Args) < 2 || !src(x.Common().Args[1]) {
				return false
			}
			switch a := x.Common().Args[0].(type) {
			case *ssa.Const:
				return a.IsNil()
			case *ssa.MakeSlice:
				k, ok := a.Len.(*ssa.Const)
				return ok && k.Value != nil && k.Value.String() == "0"
			case *ssa.Slice:
				_, ok := a.X.(*ssa.Alloc) // an empty literal
				return ok
			}
			return false
		}
		f := x.Common().StaticCallee()
		if f == nil {
			return false
		}
		if n := FullName(f); strings.HasPrefix(n, "slices.Clone") {
			return src(x.Common().Args[0])
		}
		for k, a := range x.Common().Args {
			if !src(a) || f.Blocks == nil || k >= len(f.Params) {
				continue
			}
			vs := resultVals(f, 0)
			if len(vs) == 0 {
				return false
			}
			for _, w := range vs {
				if !fullCopy(p, w, func(y ssa.Value) bool { return y == ssa.Value(f.Params[k]) }, depth+1) {
					return false
				}
			}
			return true
		}
	case *ssa.ChangeType:
		return fullCopy(p, x.X, src, depth)
	}
	return false
}

// clones: what fn returns has in field i a full copy of the receiver's.
func clones(p *Prog, fn *ssa.Function, h *types.Named, i int) bool {
	recv := fn.Params[0]
	src := func(v ssa.Value) bool { return fieldOfRecv(v, recv, i) }
	n := 0
	for _, v := range resultVals(fn, 0) {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		al, ok := v.(*ssa.Alloc)
		if !ok {
			return false
		}
		n++
		good := false
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || fa.Field != i {
				continue
			}
			for _, q := range *fa.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
					good = fullCopy(p, s.Val, src, 0)
					if u, ok := s.Val.(*ssa.UnOp); ok && !good && src(u) {
						// the receiver was given the copy just before
						good = detaches(p, fn, h, i, 0)
					}
				}
			}
		}
		if !good {
			// the copy is detached as a whole
			for _, r := range *al.Referrers() {
				if ci, ok := r.(*ssa.Call); ok {
					if f := ci.Common().StaticCallee(); f != nil && len(ci.Common().Args) > 0 && ci.Common().Args[0] == al && f.Blocks != nil && detaches(p, f, h, i, 0) {
						good = true
					}
				}
			}
		}
		if !good {
			return false
		}
	}
	return n > 0
}
