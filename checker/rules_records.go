package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Records of node data: built from the tree and converted from one format to
// another, every field keeps its meaning.

// opposite: fields that mirror each other.
var opposite = map[string]string{
	"LChild": "R", "nextL": "R", "nextStkL": "R", "Lbox": "R",
	"RChild": "L", "nextR": "L", "nextStkR": "L", "Rbox": "L",
	"StartVertex": "E", "EndVertex": "S",
}

func mirrored(f, g string) bool {
	side := map[string]string{"L": "R", "R": "L", "E": "S", "S": "E"}
	a, b := opposite[f], opposite[g]
	return a != "" && b != "" && side[a] == b
}

// fieldRef: a field of a struct something was read from.
type fieldRef struct {
	st   *types.Named
	name string
	base ssa.Value
}

func structField(x ssa.Value, i int) (fieldRef, bool) {
	t := deref(x.Type())
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return fieldRef{}, false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return fieldRef{}, false
	}
	return fieldRef{n, s.Field(i).Name(), x}, true
}

// readsField: v is the (possibly converted) value of a field, nothing else.
func readsField(v ssa.Value) (fieldRef, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Field:
			return structField(x.X, x.Field)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return fieldRef{}, false
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return structField(fa.X, fa.Field)
			}
			// a variable assigned once
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					v = s.Val
					continue
				}
			}
		}
		return fieldRef{}, false
	}
}

func onlyStore(al *ssa.Alloc) *ssa.Store {
	var r *ssa.Store
	for _, ref := range *al.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Addr != al || r != nil {
				return nil
			}
			r = u
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return r
}

// ingredients: the fields, variables and constants v is computed from within
// its function, through operators and the arguments of calls.
type ingredients struct {
	fields []fieldRef
	vars   map[*ssa.Alloc]bool
	consts map[int64]bool
	calls  []*ssa.Call
}

func computedFrom(v ssa.Value) *ingredients {
	r := &ingredients{vars: map[*ssa.Alloc]bool{}, consts: map[int64]bool{}}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if f, ok := readsField(v); ok {
			r.fields = append(r.fields, f)
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				if k, ok := constant.Int64Val(x.Value); ok {
					r.consts[k] = true
				}
			}
		case *ssa.Convert:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Index:
			walk(x.X)
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if s := onlyStore(al); s != nil {
					walk(s.Val)
				} else {
					r.vars[al] = true
				}
				return
			}
			walk(x.X)
		case *ssa.FieldAddr:
			if f, ok := structField(x.X, x.Field); ok {
				r.fields = append(r.fields, f)
			}
		case *ssa.Call:
			r.calls = append(r.calls, x)
			for _, a := range x.Common().Args {
				walk(a)
			}
		}
	}
	walk(v)
	return r
}

// destKey identifies the record an address belongs to within a function.
func destKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		s := destKey(x.X)
		if c, ok := x.Index.(*ssa.Const); ok {
			return s + "[" + c.String() + "]"
		}
		return s + "[" + x.Index.Name() + "]"
	case *ssa.FieldAddr:
		return destKey(x.X) + fmt.Sprintf(".%d", x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + destKey(x.X)
		}
	}
	return v.Name()
}

func isRecord(n *types.Named) bool {
	_, ok := recordSpec[n.Obj().Name()]
	return ok || family(n.Obj().Name()) == "NodeInProcess"
}

// family: the name of a type without the prefix code generation gives to the
// variant for extended nodes.
func family(n string) string { return strings.TrimPrefix(n, "ZExt_") }

func ruleRecordCopy(c *Ctx) {
	p := c.P
	const rn = "record-copy"
	c.Rule("record-copy: a field of a node or map record given the value of another record's field gets it from the field of the same name; nothing given to a left (right) child, box or subtree, or to a start (end) vertex, comes from a right (left) one, an end (start) one, or from the list of segs of the other side; a record filled in from another leaves out none of the fields they share; bounding box entries hold the bound they stand for; a child that is a subsector carries the subsector flag, translated to the one of 16-bit nodes when put there")
	type group struct {
		rec    *types.Named
		fn     *ssa.Function
		pos    string
		stored map[string]bool
		from   map[string]int // source type -> fields copied
		src    map[string]*types.Named
	}
	hasF := func(n *types.Named, f string) (types.Type, bool) {
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return s.Field(i).Type(), true
			}
			if s.Field(i).Embedded() {
				if e, ok := deref(s.Field(i).Type()).(*types.Named); ok {
					if es, ok := e.Underlying().(*types.Struct); ok {
						for j := 0; j < es.NumFields(); j++ {
							if es.Field(j).Name() == f {
								return es.Field(j).Type(), true
							}
						}
					}
				}
			}
		}
		return nil, false
	}
	bound := map[int64]string{}
	for n, f := range map[string]string{"BB_TOP": "Ymax", "BB_BOTTOM": "Ymin", "BB_LEFT": "Xmin", "BB_RIGHT": "Xmax"} {
		if k, ok := p.ConstInt(n); ok {
			bound[k] = f
		}
	}
	deep, okD := p.ConstInt("SSECTOR_DEEP_MASK")
	if !okD {
		c.Undecided(rn, "constant SSECTOR_DEEP_MASK is gone")
		return
	}
	for _, fn := range p.Funcs {
		groups := map[string]*group{}
		sides := map[*ssa.Alloc]map[string]token.Pos{} // list of segs -> side
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				// an entry of a bounding box
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					if fa, ok := ia.X.(*ssa.FieldAddr); ok {
						f, ok := structField(fa.X, fa.Field)
						k, isC := ia.Index.(*ssa.Const)
						if ok && isC && strings.HasSuffix(f.name, "box") && opposite[f.name] != "" {
							ing := computedFrom(s.Val)
							c.Count(rn+": bounding box entries", 1)
							for _, g := range ing.fields {
								if w := bound[k.Int64()]; g.name != w && strings.Contains("Ymax Ymin Xmax Xmin", g.name) {
									c.Viol(rn, "N06|bounding box entry from "+g.name+" ["+fn.Name()+"]", p.Pos(s.Pos()), fmt.Sprintf("entry %d of %s, which stands for %s, gets %s in %s", k.Int64(), f.name, w, g.name, FullName(fn)))
								}
								for al := range computedFrom(g.base).vars {
									noteSide(sides, al, f.name, s.Pos())
								}
							}
						}
					}
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f, ok := structField(fa.X, fa.Field)
				if !ok {
					continue
				}
				if opposite[f.name] != "" {
					// sides
					ing := computedFrom(s.Val)
					c.Count(rn+": fields with a side", 1)
					for _, g := range ing.fields {
						if mirrored(f.name, g.name) {
							if f.st != g.st && !isRecord(f.st) && !isRecord(g.st) {
								continue
							}
							if strings.HasSuffix(f.name, "Vertex") && !isRecord(f.st) {
								continue // segs in the making do run both ways
							}
							c.Viol(rn, "N06|"+f.name+" from "+g.name+" ["+fn.Name()+"]", p.Pos(s.Pos()), f.name+" of "+f.st.Obj().Name()+" is computed from "+g.name+" of "+g.st.Obj().Name()+" in "+FullName(fn))
						}
					}
					if !strings.HasSuffix(f.name, "Vertex") {
						for al := range ing.vars {
							noteSide(sides, al, f.name, s.Pos())
						}
					}
					if strings.HasSuffix(f.name, "Child") {
						childFlag(c, rn, fn, s, f, ing, deep)
					}
				}
				if !isRecord(f.st) {
					continue
				}
				g, ok := readsField(s.Val)
				if !ok || g.st == f.st && destKey(g.base) == destKey(fa.X) {
					g = fieldRef{}
				}
				k := f.st.Obj().Name() + " " + destKey(fa.X)
				gr := groups[k]
				if gr == nil {
					gr = &group{rec: f.st, fn: fn, pos: p.Pos(s.Pos()), stored: map[string]bool{}, from: map[string]int{}, src: map[string]*types.Named{}}
					groups[k] = gr
				}
				gr.stored[f.name] = true
				if g.st == nil {
					continue
				}
				t1, ok1 := hasF(f.st, g.name)
				_, ok2 := hasF(g.st, f.name)
				ft, _ := hasF(f.st, f.name)
				if g.name != f.name && ok1 && ok2 && types.Identical(t1, ft) {
					c.Viol(rn, "N06|"+f.name+" of "+f.st.Obj().Name()+" from "+g.name+" ["+fn.Name()+"]", p.Pos(s.Pos()), f.name+" of a "+f.st.Obj().Name()+" gets the value of "+g.name+" of a "+g.st.Obj().Name()+", which has a "+f.name+", in "+FullName(fn))
				}
				if g.name == f.name {
					c.Count(rn+": fields carried over", 1)
					gr.from[g.st.Obj().Name()]++
					gr.src[g.st.Obj().Name()] = g.st
				}
			}
		}
		var ks []string
		for k := range groups {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			gr := groups[k]
			for n, cnt := range gr.from {
				if cnt < 2 || gr.src[n] == gr.rec {
					continue
				}
				c.Count(rn+": records filled in from another", 1)
				st := gr.rec.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i).Name()
					if _, ok := hasF(gr.src[n], f); ok && !gr.stored[f] {
						c.Viol(rn, "N06|"+f+" of "+gr.rec.Obj().Name()+" left out ["+fn.Name()+"]", gr.pos, "a "+gr.rec.Obj().Name()+" is filled in from a "+n+" without its "+f+" in "+FullName(fn))
					}
				}
			}
		}
		var als []*ssa.Alloc
		for al := range sides {
			als = append(als, al)
		}
		sort.Slice(als, func(i, j int) bool { return als[i].Pos() < als[j].Pos() })
		for _, al := range als {
			if family(namedName(deref(deref(al.Type())))) != "NodeSeg" {
				continue
			}
			c.Count(rn+": lists of segs given a side", 1)
			println(fn.Name(), al.Comment, len(sides[al]))
			if len(sides[al]) > 1 {
				c.Viol(rn, "N06|one list of segs for both sides ["+fn.Name()+"]", p.Pos(sides[al]["L"]), "the same list of segs ("+al.Comment+") is used for the left and the right side of a node in "+FullName(fn))
				continue
			}
			want := ""
			for sd := range sides[al] {
				want = sd
			}
			// the division of segs gives first the right, then the left ones
			for _, ref := range *al.Referrers() {
				ci, ok := ref.(*ssa.Call)
				if !ok {
					continue
				}
				var lists []ssa.Value
				for _, a := range ci.Common().Args {
					if family(namedName(deref(deref(a.Type())))) == "NodeSeg" && isPtr(a.Type()) && isPtr(deref(a.Type())) {
						lists = append(lists, a)
					}
				}
				if len(lists) != 2 {
					continue
				}
				c.Count(rn+": divisions of segs", 1)
				if lists[0] == ssa.Value(al) && want == "L" || lists[1] == ssa.Value(al) && want == "R" {
					c.Viol(rn, "N06|sides swapped ["+fn.Name()+"]", p.Pos(ci.Pos()), "the segs of one side of the partition line become the other side of the node in "+FullName(fn))
				}
			}
		}
	}
	for _, k := range []string{"bounding box entries", "fields with a side", "fields carried over", "records filled in from another", "lists of segs given a side", "divisions of segs", "children checked for the subsector flag"} {
		c.Min(rn, rn+": "+k, 1)
	}
}

func noteSide(m map[*ssa.Alloc]map[string]token.Pos, al *ssa.Alloc, f string, pos token.Pos) {
	if m[al] == nil {
		m[al] = map[string]token.Pos{}
	}
	side := "L"
	if opposite[f] == "L" {
		side = "R"
	}
	m[al][side] = pos
}

// childFlag: a child made of segs is marked as a subsector, one that is a node
// is not; the mark is translated for nodes with 16-bit children.
func childFlag(c *Ctx, rn string, fn *ssa.Function, s *ssa.Store, f fieldRef, ing *ingredients, deep int64) {
	p := c.P
	if !ing.anyCallWith("NodeSeg") && !ing.anyCallWith("NodeInProcess") && len(ing.fields) == 0 {
		return
	}
	c.Count(rn+": children checked for the subsector flag", 1)
	if b, ok := deref(s.Addr.Type()).Underlying().(*types.Basic); ok && b.Kind() == types.Int16 {
		if g, ok := readsField(s.Val); ok && g.st.Obj().Name() != f.st.Obj().Name() {
			c.Viol(rn, "N06|subsector flag lost ["+fn.Name()+"]", p.Pos(s.Pos()), f.name+" of a node with 16-bit children is cut from the "+g.name+" of a "+g.st.Obj().Name()+" without translating the subsector flag in "+FullName(fn))
		}
		return
	}
	if family(f.st.Obj().Name()) != "NodeInProcess" {
		return
	}
	flagged := ing.consts[deep]
	if ing.anyCallWith("NodeSeg") && !flagged {
		c.Viol(rn, "N06|subsector not flagged ["+fn.Name()+"]", p.Pos(s.Pos()), f.name+" is given the number of a subsector without the subsector flag in "+FullName(fn))
	}
	if ing.anyCallWith("NodeInProcess") && !ing.anyCallWith("NodeSeg") && flagged {
		c.Viol(rn, "N06|node flagged as subsector ["+fn.Name()+"]", p.Pos(s.Pos()), f.name+" is given the number of a node with the subsector flag in "+FullName(fn))
	}
}

// anyCallWith: some call takes a pointer to the type named and gives an integer.
func (g *ingredients) anyCallWith(name string) bool {
	for _, ci := range g.calls {
		b, ok := ci.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		for i, a := range ci.Common().Args {
			if i == 0 && ci.Common().Signature().Recv() != nil {
				continue
			}
			if isPtr(a.Type()) && family(namedName(deref(a.Type()))) == name {
				return true
			}
		}
	}
	return false
}

// ruleNodeIndex: the number a node is known by to its parent is the index it
// was put at.
func ruleNodeIndex(c *Ctx) {
	p := c.P
	const rn = "node-index"
	c.Rule("node-index: a function that puts a tree node into the table of nodes and answers a number answers the very index it put the node at, on every path, and puts it there exactly once")
	puts := func(in ssa.Instruction) *ssa.IndexAddr {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		a := s.Addr
		if fa, ok := a.(*ssa.FieldAddr); ok {
			a = fa.X
		}
		ia, ok := a.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		switch namedName(deref(ia.Type())) {
		case "Node", "DeepNode":
			return ia
		}
		return nil
	}
	event := func(fn *ssa.Function, in ssa.Instruction) bool { return puts(in) != nil }
	for _, fn := range p.Funcs {
		if fn.Signature.Results().Len() != 1 || fn.Blocks == nil {
			continue
		}
		if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		takes := false
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			t := fn.Signature.Params().At(i).Type()
			takes = takes || isPtr(t) && (namedName(deref(t)) == "NodeInProcess" || namedName(deref(t)) == "StkNode")
		}
		if !takes {
			continue
		}
		any := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				any = any || puts(in) != nil
			}
		}
		if !any {
			continue
		}
		c.Count(rn+": functions that number nodes", 1)
		r := &Rule{Name: rn, Cap: 60}
		r.Eventful = event
		r.NoInline = func(f *ssa.Function) bool {
			return f == fn || isLogFn(f) || f.Signature.Results().Len() == 1 && f != fn && sameTakes(f)
		}
		r.Keep = func(cls string) bool { return strings.HasSuffix(cls, ".nreverse") }
		root := fn
		viol := func(e *Engine, key, in, msg string, st *State) {
			e.Violate("N06|"+key+" ["+root.Name()+"]", in, msg+" in "+FullName(root))
		}
		r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
			if callee == nil || !sameTakes(callee) {
				return nil, false
			}
			return e.opaque(fr, st, ci, ci.Common(), callee, args), true
		}
		r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
			if ia := puts(in); ia != nil {
				idx := e.Eval(fr, st, ia.Index)
				e.Ev("node put into the table", in)
				if o := st.mon["at"]; o != nil && e.Truth(st, Eq(stripConv(o), stripConv(idx))) != 1 {
					viol(e, "node put twice", p.InstrPos(in), "a node is put at two different indices", st)
				}
				st.mon["at"] = idx
				return
			}
			ret, ok := in.(*ssa.Return)
			if !ok || fr.parent != nil {
				return
			}
			o := st.mon["at"]
			if o == nil {
				// left to another function of this kind
				if ci, ok := ret.Results[0].(*ssa.Call); ok && ci.Common().StaticCallee() != nil && sameTakes(ci.Common().StaticCallee()) {
					e.Ev("numbering left to another function", in)
					return
				}
				viol(e, "number of a node not put", p.InstrPos(in), "a number is answered for a node that was not put into the table", st)
				return
			}
			e.Ev("number of a node answered", in)
			if e.Truth(st, Eq(stripConv(o), stripConv(e.Eval(fr, st, ret.Results[0])))) != 1 {
				viol(e, "wrong number of a node", p.InstrPos(in), "the number answered for a node is not known to be the index it was put at", st)
			}
		}
		e := NewEngine(p, r)
		e.Run(fn, nil)
		c.Take(e)
	}
	c.Min(rn, rn+": number of a node answered", 1)
	c.Min(rn, rn+": node put into the table", 1)
}

func sameTakes(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		if isPtr(t) && (namedName(deref(t)) == "NodeInProcess" || namedName(deref(t)) == "StkNode") {
			return true
		}
	}
	return false
}
