package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// One level from the first of its lumps to the wait for the builders, for one
// combination of options and level format.

type levelCase struct {
	nodes, blockmap bool
	reject          string // REJECT_NORMAL, REJECT_ZEROFILLED, REJECT_DONTTOUCH
	format          string // FORMAT_DOOM, FORMAT_HEXEN, FORMAT_UDMF
}

func (lc levelCase) String() string {
	return fmt.Sprintf("rebuild nodes=%v, blockmap=%v, reject=%s, format=%s", lc.nodes, lc.blockmap, strings.TrimPrefix(lc.reject, "REJECT_"), strings.TrimPrefix(lc.format, "FORMAT_"))
}

var specialLumps = []string{"REJECT", "BLOCKMAP", "SSECTORS", "SEGS", "NODES", "LINEDEFS", "VERTEXES"}

// mapDataTypes: element types of the map data builders read.
var mapDataTypes = map[string]string{"Linedef": "LINEDEFS", "HexenLinedef": "LINEDEFS", "Vertex": "VERTEXES", "Sidedef": "SIDEDEFS", "Sector": "SECTORS", "HexenThing": "THINGS"}

func (lc levelCase) rebuilt(lump string) bool {
	if lc.format == "FORMAT_UDMF" {
		return false
	}
	switch lump {
	case "REJECT":
		return lc.reject != "REJECT_DONTTOUCH"
	case "BLOCKMAP":
		return lc.blockmap
	case "SSECTORS", "SEGS", "NODES", "LINEDEFS", "VERTEXES":
		return lc.nodes
	}
	return false
}

func (lc levelCase) need() []string {
	if lc.format == "FORMAT_HEXEN" {
		return []string{"HexenLinedef", "Vertex", "Sidedef", "Sector", "HexenThing"}
	}
	return []string{"Linedef", "Vertex", "Sidedef", "Sector"}
}

// sliceElem: name of the element type if t is a slice (possibly in an interface).
func sliceElemName(t types.Type) string {
	if s, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
		return namedName(s.Elem())
	}
	return ""
}

// nameOfEntry: t is the name bytes of a directory entry; returns the name term.
func nameOfEntry(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.kind == KApp && t.op == "name" {
		return t
	}
	if t.kind == KApp && (t.op == "sl" || t.op == "sl2") && t.args[0].kind == KField && t.args[0].op == "F:LumpEntry.Name" {
		return App("name", t.args[0].args[0])
	}
	return nil
}

// innerLoopExits: edges leaving the innermost loop around b.
func (p *Prog) loopExits(fn *ssa.Function, b *ssa.BasicBlock) [][2]*ssa.BasicBlock {
	li := p.Loop(fn)
	in := map[*ssa.BasicBlock]bool{}
	// strongly connected component of b
	for _, x := range fn.Blocks {
		if x == b || li.reach[b][x] && li.reach[x][b] {
			in[x] = true
		}
	}
	if !li.reach[b][b] {
		return nil
	}
	var r [][2]*ssa.BasicBlock
	for _, x := range fn.Blocks {
		if !in[x] {
			continue
		}
		for _, s := range x.Succs {
			if !in[s] {
				r = append(r, [2]*ssa.BasicBlock{x, s})
			}
		}
	}
	return r
}

// deadEnd: no return of fn is reached from b.
func (p *Prog) deadEnd(fn *ssa.Function, b *ssa.BasicBlock) bool {
	p.NoReturn()
	li := p.Loop(fn)
	stops := func(x *ssa.BasicBlock) bool {
		for _, in := range x.Instrs {
			if p.isNoReturnCall(in) {
				return true
			}
			if _, ok := in.(*ssa.Panic); ok {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool // true: may reach a return
	rec = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if stops(x) {
			return false
		}
		if len(x.Succs) == 0 {
			return true
		}
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	_ = li
	return !rec(b)
}

// lenBound: the branch condition compares with the length of a slice of elem.
func lenBound(v ssa.Value, elem string) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if c, ok := o.(*ssa.Call); ok {
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && sliceElemName2(c.Common().Args[0].Type()) == elem {
				return true
			}
		}
	}
	return false
}

func sliceElemName2(t types.Type) string {
	if s, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
		return namedName(deref(s.Elem()))
	}
	return ""
}

// doLevelFlow runs one of two analyses: of what happens to each lump (lumps),
// or of what builders are started with (not lumps).
func doLevelFlow(c *Ctx, root *ssa.Function, lc levelCase, lumps bool) *Engine {
	p := c.P
	rn := "level-builders"
	if lumps {
		rn = "level-lumps"
	}
	udmf := lc.format == "FORMAT_UDMF"
	recvT := namedName(deref(root.Params[0].Type()))
	var lvlT *types.Named = p.Named(recvT)
	ai := paramOf(root, "ScheduledLump")
	li := -1
	for i, pr := range root.Params {
		if sliceElemName(pr.Type()) == "LumpEntry" {
			li = i
		}
	}
	var rsz, rstart, fin *Term
	rejC, _ := p.ConstInt(lc.reject)
	fmtC, _ := p.ConstInt(lc.format)
	deliver := map[*ssa.Function]bool{}
	for _, f := range nodeDeliverers(p) {
		deliver[f] = true
	}
	wait := p.Method(recvT, "WaitForAndWriteData")
	r := &Rule{Name: rn, Cap: 20, JoinBools: !lumps}
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		if _, ok := isBusSend(in); ok {
			return true
		}
		switch v := in.(type) {
		case *ssa.Go:
			return fn.Signature.Recv() != nil && namedName(deref(fn.Signature.Recv().Type())) == recvT
		case *ssa.Store:
			cl, _ := addrClass(v.Addr)
			return strings.HasPrefix(cl, "F:LumpEntry.") || strings.HasPrefix(cl, "F:"+recvT+".") && fn.Signature.Recv() != nil
		case ssa.CallInstruction:
			for _, f := range p.Callees(v) {
				n := FullName(f)
				if f == wait || deliver[f] || strings.HasPrefix(n, "(*os.File).Read") || strings.HasPrefix(n, "(*os.File).Seek") || n == "io.ReadFull" {
					return true
				}
				if n == "encoding/binary.Read" && len(v.Common().Args) > 0 {
					if mi, ok := v.Common().Args[0].(*ssa.MakeInterface); ok && qualName(mi.X.Type()) == "*os.File" {
						return true
					}
				}
			}
		}
		return false
	}
	r.NoInline = func(fn *ssa.Function) bool {
		n := FullName(fn)
		return strings.HasPrefix(n, "(*MiniLogger).") || strings.HasPrefix(n, "(*Troll).") || fn == wait || deliver[fn] || fn.Name() == "NodesGenerator" || fn.Name() == "BlockmapGenerator"
	}
	r.Immutable = func(cls string) bool {
		return strings.HasPrefix(cls, "F:ProgramConfig.") || cls == "G:config" || strings.HasPrefix(cls, "F:ScheduledLump.") || cls == "F:LumpEntry.Name"
	}
	r.KeepFact = func(cls string) bool { return strings.HasPrefix(cls, "F:ProgramConfig.") }
	r.Keep = func(cls string) bool {
		if strings.HasPrefix(cls, "F:"+recvT+".") {
			return true
		}
		t := strings.TrimPrefix(cls, "F:")
		if i := strings.IndexByte(t, '.'); i > 0 && !lumps {
			t = t[:i]
			return strings.HasSuffix(t, "Linedefs") || strings.HasSuffix(t, "Input") || t == "SolidBlocks_Input"
		}
		return false
	}
	viol := func(e *Engine, key, pos, msg string, st *State) {
		e.Violate(key, pos, msg+" (with "+lc.String()+"): "+st.Path())
	}
	lvlField := func(e *Engine, fr *Frame, st *State, name string) *Term {
		t, _ := e.loadField(fr, st, st.mon["l"], lvlT, name)
		return orT(t)
	}
	curIdx := func(e *Engine, fr *Frame, st *State) *Term {
		if st.mon["cur"] == nil || st.mon["cur"] == Nil() {
			return nil
		}
		sl := p.Named("ScheduledLump")
		t, _ := e.loadField(fr, st, st.mon["cur"], sl, "DirIndex")
		return t
	}
	// mon "name": name of the lump at hand where known, "not:X" where known not
	var watch []string
	for _, n := range append([]string{"SIDEDEFS", "SECTORS", "THINGS"}, specialLumps...) {
		isData := false
		for _, d := range mapDataTypes {
			isData = isData || d == n
		}
		if lumps || isData {
			watch = append(watch, n)
		}
	}
	syncName := func(e *Engine, fr *Frame, st *State) {
		if st.mon["cur"] == nil || st.M("name") != "" {
			return
		}
		i := curIdx(e, fr, st)
		if i == nil {
			return
		}
		t := App("name", IndexOf(st.mon["le"], i, p.Named("LumpEntry")))
		for _, n := range watch {
			if st.M("not:"+n) != "" {
				continue
			}
			switch e.Truth(st, Eq(t, ConstS(n))) {
			case 1:
				for _, n2 := range watch {
					delete(st.mon, "not:"+n2)
				}
				st.SetM("name", n)
				return
			case 0:
				if lumps && lc.rebuilt(n) {
					st.SetM("not:"+n, "1")
				}
			}
		}
	}
	entSize := func(e *Engine, fr *Frame, st *State) *Term {
		i := curIdx(e, fr, st)
		if i == nil {
			return nil
		}
		t, _ := e.loadField(fr, st, IndexOf(st.mon["le"], i, p.Named("LumpEntry")), p.Named("LumpEntry"), "Size")
		return t
	}
	// complete: all lumps of a UDMF level were taken up
	complete := func(e *Engine, fr *Frame, st *State) bool {
		n := int64(0)
		if st.mon["n"] != nil {
			n, _ = st.mon["n"].Int()
		}
		lv, _ := e.loadField(fr, st, st.mon["action"], p.Named("ScheduledLump"), "Level")
		return e.Truth(st, Less(ConstI(n), App("len", lv), types.Typ[types.Int])) == 0
	}
	r.Branch = func(e *Engine, fr *Frame, st *State) {
		syncName(e, fr, st)
		if !lumps {
			return
		}
		if st.M("empty") == "" {
			if sz := entSize(e, fr, st); sz != nil && e.Truth(st, Eq(sz, ConstI(0))) == 1 {
				st.SetM("empty", "1")
			}
		}
		if udmf && st.M("sym") == "" && st.M("all") == "" && complete(e, fr, st) {
			st.SetM("all", "1")
		}
	}
	r.Stable = func(t *Term) bool {
		return t.kind == KApp && (t.op == "bounds" || t.op == "derived" || t.op == "nonnil" && len(t.leafs) == 0)
	}
	nameIs := func(e *Engine, fr *Frame, st *State, n string) int {
		syncName(e, fr, st)
		switch {
		case st.M("name") == n:
			return 1
		case st.M("name") != "" || st.M("not:"+n) != "":
			return 0
		}
		return -1
	}
	knownName := func(e *Engine, fr *Frame, st *State) string {
		syncName(e, fr, st)
		return st.M("name")
	}
	// endItem: the current lump has been dealt with exactly once
	endItem := func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		if st.mon["cur"] == nil {
			return
		}
		defer func() {
			for _, k := range []string{"cur", "name", "raw", "reg", "zsize", "zpos", "fill", "pos", "pop", "now", "empty"} {
				delete(st.mon, k)
			}
			for k := range st.mon {
				if strings.HasPrefix(k, "now:") || strings.HasPrefix(k, "not:") {
					delete(st.mon, k)
				}
			}
		}()
		if !lumps {
			return
		}
		pos := p.InstrPos(in)
		n := knownName(e, fr, st)
		what := orStr(n, "other lump")
		raw, reg, zero := st.M("raw") != "", st.M("reg") != "", st.M("zsize") != ""
		switch {
		case n == "REJECT" && lc.rebuilt(n) && lc.reject == "REJECT_ZEROFILLED":
			if !zero || st.M("zpos") == "" {
				viol(e, "W11|zero-filled reject without size or offset", pos, "the directory entry of REJECT does not get both size and offset though it is to be zero-filled", st)
			}
			if raw {
				viol(e, "W09|REJECT both copied and zero-filled", pos, "REJECT is copied though it is to be zero-filled", st)
			}
		case n != "" && lc.rebuilt(n):
			if !reg || st.M("reg") != n {
				viol(e, "W09|"+n+" neither rebuilt nor copied", pos, n+" is to be rebuilt, but the index of its entry is not recorded where it is delivered from", st)
			}
			if raw {
				viol(e, "W09|"+n+" both copied and rebuilt", pos, n+" is copied though it is going to be rebuilt", st)
			}
		default:
			if !raw {
				viol(e, "W09|"+what+" not copied", pos, "a lump of the level that is not rebuilt ("+what+") is not copied", st)
			}
		}
		if zero && n != "REJECT" || zero && lc.reject != "REJECT_ZEROFILLED" {
			viol(e, "W11|size of "+what+" overwritten", pos, "the directory entry of a lump that is no zero-filled REJECT gets a new size", st)
		}
	}
	isEntry := func(st *State, loc *Term, idx *Term) bool {
		return loc.kind == KIndex && idx != nil && loc.args[1] == idx && loc.args[0] == st.mon["le"]
	}
	entField := func(e *Engine, fr *Frame, st *State, name string) *Term {
		i := curIdx(e, fr, st)
		if i == nil {
			return nil
		}
		t, _ := e.loadField(fr, st, IndexOf(st.mon["le"], i, p.Named("LumpEntry")), p.Named("LumpEntry"), name)
		return t
	}
	r.LoadHook = func(e *Engine, fr *Frame, st *State, loc *Term) *Term {
		if loc.kind != KField {
			return nil
		}
		if strings.HasPrefix(loc.op, "F:ProgramConfig.") {
			switch fieldLeaf(loc.op) {
			case "RebuildNodes":
				return ConstB(lc.nodes)
			case "RebuildBlockmap":
				return ConstB(lc.blockmap)
			case "Reject":
				return ConstI(rejC)
			}
		}
		if loc.op == "F:ScheduledLump.LevelFormat" && loc.args[0] == st.mon["action"] {
			return ConstI(fmtC)
		}
		return nil
	}
	r.Value = func(e *Engine, fr *Frame, st *State, v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.MakeSlice:
			// names are unique within a level: one value per type of data
			el := sliceElemName(v.Type())
			if lumps || mapDataTypes[el] == "" {
				return nil
			}
			n, ok := binSize(p.Named(el))
			sz := entField(e, fr, st, "Size")
			if !ok || sz == nil {
				return nil
			}
			u32 := types.Typ[types.Uint32]
			ln := e.Eval(fr, st, v.Len)
			if ln == BinTerm(quoTok, sz, ConstI(n), u32, u32) || ln == BinTerm(shrTok, sz, ConstI(log2(n)), u32, u32) {
				return mapData(el)
			}
			return nil
		case *ssa.Convert:
			if n := nameOfEntry(e.Eval(fr, st, v.X)); n != nil {
				return n
			}
		case *ssa.Lookup:
			if _, ok := types.Unalias(v.X.Type()).Underlying().(*types.Map); ok {
				val := App("map", e.Eval(fr, st, v.X), e.Eval(fr, st, v.Index))
				if v.CommaOk {
					return Tuple(val, App("has", val))
				}
				return val
			}
		case *ssa.UnOp:
			// next lump of the level
			if v.Op.String() != "*" {
				return nil
			}
			loc := e.Eval(fr, st, v.X)
			if loc.kind != KIndex || namedName(deref(v.Type())) != "ScheduledLump" {
				return nil
			}
			t := e.Load(fr, st, loc, v.Type())
			base := loc.args[0]
			off := int64(0)
			if base.kind == KApp && base.op == "sl2" {
				o, ok := base.args[1].Int()
				if !ok && base.args[1] != Nil() || base.args[2] != Nil() {
					e.Undecided("lumps of a level taken from a part of their list at " + p.InstrPos(v))
				}
				off = o
				base = base.args[0]
			}
			if ldField(base) != "F:ScheduledLump.Level" || base.args[0].args[0] != st.mon["action"] {
				return nil
			}
			// the same element whether read through the list or a part of it
			if off != 0 {
				l := IndexOf(base, BinTerm(plusTok, loc.args[1], ConstI(off), types.Typ[types.Int], types.Typ[types.Int]), loc.typ)
				t = e.Load(fr, st, l, v.Type())
				loc = l
			}
			if st.mon["cur"] == t {
				return t
			}
			e.Ev("lump of a level taken up", v)
			endItem(e, fr, st, v)
			if !lumps {
				st.mon["cur"] = t
				return t
			}
			delete(st.mon, "all")
			if i, ok := loc.args[1].Int(); ok && st.M("sym") == "" {
				want := int64(0)
				if st.mon["n"] != nil {
					want, _ = st.mon["n"].Int()
				}
				if i != want {
					viol(e, "W09|lumps of a level skipped", p.InstrPos(v), fmt.Sprintf("lump number %d of the level is taken up after %d lumps", i, want), st)
				}
				if want < 3 {
					st.mon["n"] = ConstI(want + 1)
				}
			} else {
				st.SetM("sym", "1")
			}
			if fr.loopy || fr.li.inLoop[v.Block()] {
				st.SetM("sym", "1") // the loops are checked by themselves
			}
			st.mon["cur"] = t
			return t
		}
		return nil
	}
	ret := func(st *State, t *Term) ([]Out, bool) { return []Out{{Kind: ORet, Res: t, St: st}}, true }
	// filled: a buffer was read completely from position pos
	filled := func(e *Engine, fr *Frame, s *State, ci ssa.CallInstruction, buf *Term, bt types.Type, at *Term) bool {
		pos := p.InstrPos(ci)
		buf, _ = unIface(buf)
		el := sliceElemName(bt)
		want := entField(e, fr, s, "FilePos")
		if want == nil || at == nil {
			return true
		}
		e.Ev("read of a lump of the level", fr.rootSite(ci))
		if at != want {
			viol(e, "W09|lump read from elsewhere", pos, "a lump is read from "+at.String()+" instead of the offset in its directory entry", s)
			return true
		}
		if mapDataTypes[el] != "" {
			if lumps {
				return true
			}
			if nameIs(e, fr, s, mapDataTypes[el]) != 1 {
				viol(e, "L04|"+mapDataTypes[el]+" read from another lump", pos, "map data of type "+el+" is read from a lump that is not known to be "+mapDataTypes[el], s)
			}
			if buf != mapData(el) {
				viol(e, "L04|number of records of "+mapDataTypes[el], pos, "the buffer "+mapDataTypes[el]+" is read into is not made for as many records as the size of the lump divided by the size of a record", s)
			}
			s.SetM("have:"+el, "1")
			s.SetM("now", "1")
			s.mon["cur"] = Nil()
			delete(s.mon, "name")
			s.Note(mapDataTypes[el] + " read")
			return true
		}
		if lumps {
			s.mon["fill"] = buf
		}
		return true
	}
	r.Call = func(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		pos := p.InstrPos(ci)
		if callee == nil {
			return nil, false
		}
		name := FullName(callee)
		sig := callee.Signature
		switch name {
		case "(*os.File).Seek":
			if args[0] == fin {
				t := args[1]
				return e.forkErr(fr, st, ci, nil, func(s *State) {
					if k, ok := args[2].Int(); ok && k == 0 {
						s.mon["pos"] = t
					}
				}, func(s *State) { delete(s.mon, "pos"); s.Note("seek failed"); s.SetM("rdfail", "1") }), true
			}
		case "encoding/binary.Read", "io.ReadFull":
			f, _ := unIface(args[0])
			if f != fin {
				return nil, false
			}
			b := ci.Common().Args[len(ci.Common().Args)-1]
			bt := b.Type()
			if mi, ok := b.(*ssa.MakeInterface); ok {
				bt = mi.X.Type()
			} else if _, tn := unIface(args[len(args)-1]); tn != "" {
				bt = p.typeByQual(tn)
			}
			if name == "encoding/binary.Read" && !littleEndian(args[1]) {
				viol(e, "W10|lump read in wrong byte order", pos, "a lump is read in another byte order than little-endian", st)
			}
			at := st.mon["pos"]
			delete(st.mon, "pos")
			drop := false
			outs := e.forkErr(fr, st, ci, nil, func(s *State) { drop = !filled(e, fr, s, ci, args[len(args)-1], bt, at) }, func(s *State) { s.Note("read failed"); s.SetM("rdfail", "1") })
			if drop {
				outs = outs[1:]
			}
			return outs, true
		case "(*os.File).ReadAt":
			if args[0] == fin {
				drop := false
				outs := e.forkErr(fr, st, ci, nil, func(s *State) { drop = !filled(e, fr, s, ci, args[1], ci.Common().Args[1].Type(), args[2]) }, func(s *State) { s.Note("read failed"); s.SetM("rdfail", "1") })
				if drop {
					outs = outs[1:]
				}
				return outs, true
			}
		case "bytes.Equal":
			for i := 0; i < 2; i++ {
				n, k := nameOfEntry(args[i]), args[1-i]
				if n != nil && k.kind == KApp && k.op == "conv:[]byte" {
					return ret(st, Eq(n, k.args[0]))
				}
			}
		case "(*Troll).PopOffset":
			if !lumps {
				return nil, false
			}
			e.Ev("offset for a zero-filled reject taken", ci)
			t := e.sym(fr, st, ci, "")
			if st.mon["pop"] != nil {
				viol(e, "W11|two offsets taken for one reject", pos, "two offsets are taken for one zero-filled REJECT", st)
			}
			st.mon["pop"] = Tuple(t, args[len(args)-1])
			return ret(st, t)
		}
		for _, a := range args {
			if n := nameOfEntry(a); n != nil && sig.Results().Len() == 1 && len(args) == 1 {
				return ret(st, n)
			}
		}
		if deliver[callee] && lumps {
			return ret(st, nil)
		}
		if deliver[callee] {
			if st.M("wnodes") != "" || st.M("go:NodesInput") != "" {
				viol(e, "L01|nodes delivered twice", pos, "node lumps are delivered twice for a level", st)
			}
			st.SetM("wnodes", "1")
			return ret(st, nil)
		}
		if callee == wait {
			endItem(e, fr, st, ci)
			e.Ev("wait for builders of a level", ci)
			if !lumps {
				levelAtWait(e, fr, st, ci, lc, lvlField, viol)
			}
			return ret(st, nil)
		}
		// values derived from map data
		if sig.Results().Len() >= 1 && len(args) > 0 {
			for i, a := range args {
				if i >= len(ci.Common().Args) && !ci.Common().IsInvoke() {
					break
				}
				for _, el := range []string{"Linedef", "HexenLinedef"} {
					if a == mapData(el) && sliceElemName(sig.Results().At(0).Type()) == el {
						res := []*Term{App("derived", a)}
						for j := 1; j < sig.Results().Len(); j++ {
							res = append(res, e.sym(fr, st, ci, "r"+itoa(j)))
						}
						if len(res) == 1 {
							return ret(st, res[0])
						}
						return ret(st, Tuple(res...))
					}
				}
				if sig.Results().Len() == 1 && namedName(sig.Results().At(0).Type()) == "LevelBounds" && a == mapData("Vertex") {
					return ret(st, App("bounds", a))
				}
			}
		}
		return nil, false
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		pos := p.InstrPos(in)
		switch v := in.(type) {
		case *ssa.Store:
			loc := e.Eval(fr, st, v.Addr)
			val := e.Eval(fr, st, v.Val)
			if loc.kind == KField && loc.args[0] == st.mon["l"] {
				f := fieldLeaf(loc.op)
				if !lumps {
					st.SetM("set:"+f, "1")
					return
				}
				if lump := levelIdxField[f]; lump != "" {
					if k, ok := val.Int(); ok && k == 0 {
						return
					}
					if val != curIdx(e, fr, st) {
						viol(e, "W09|index of another lump recorded for "+lump, pos, "the entry recorded for "+lump+" is "+val.String()+", not that of the lump at hand", st)
						return
					}
					if nameIs(e, fr, st, lump) != 1 {
						viol(e, "W09|lump recorded as "+lump+" without being it", pos, "a lump is recorded as "+lump+" on a path on which it is not known to have that name", st)
						return
					}
					e.Ev("entry recorded for "+lump, in)
					st.SetM("reg", lump)
				}
				return
			}
			if lumps && loc.kind == KField && strings.HasPrefix(loc.op, "F:LumpEntry.") {
				if !isEntry(st, loc.args[0], curIdx(e, fr, st)) {
					viol(e, "W11|foreign entry modified", pos, "a directory entry other than that of the lump at hand is modified", st)
					return
				}
				switch fieldLeaf(loc.op) {
				case "Size":
					st.SetM("zsize", "1")
					want := App("map", orT(rsz), orT(func() *Term { t, _ := e.loadField(fr, st, st.mon["action"], p.Named("ScheduledLump"), "id"); return t }()))
					if val != want {
						viol(e, "W11|size is not that computed for the level", pos, "the size of the zero-filled REJECT is set to "+val.String()+", not to the size computed for this level", st)
					}
				case "FilePos":
					st.SetM("zpos", "1")
					ok := false
					if pp := st.mon["pop"]; pp != nil && rstart != nil {
						ok = e.ProveEq(st, val, BinTerm(plusTok, rstart, pp.args[0], types.Typ[types.Uint32], types.Typ[types.Uint32]))
						want := App("map", orT(rsz), orT(func() *Term { t, _ := e.loadField(fr, st, st.mon["action"], p.Named("ScheduledLump"), "id"); return t }()))
						if pp.args[1] != want {
							viol(e, "W11|offset taken for another size", pos, "the offset is taken for size "+pp.args[1].String()+", not the size computed for this level", st)
						}
					}
					if !ok {
						viol(e, "W11|offset outside the zero area", pos, "the offset of the zero-filled REJECT is "+val.String()+", not the start of the zero area plus its registered offset", st)
					}
				default:
					viol(e, "W09|entry renamed", pos, "the name in a directory entry is changed while the level is processed", st)
				}
				return
			}
			if lumps && loc.kind == KIndex && namedName(v.Val.Type()) == "LumpEntry" {
				viol(e, "W11|entry replaced", pos, "a directory entry is replaced while the level is processed", st)
			}
		case *ssa.UnOp:
			if v.Op.String() != "*" {
				return
			}
			loc := e.Eval(fr, st, v.X)
			if loc.kind == KField && loc.args[0] == st.mon["l"] {
				f := fieldLeaf(loc.op)
				if !lumps && st.M("set:"+f) == "" && !levelShared(lvlT, f) {
					viol(e, "L05|"+f+" read before it is reset", pos, "field "+f+" of the reused level processor is read before it is set for this level", st)
				}
			}
			if lumps && loc.kind == KField && (loc.op == "F:LumpEntry.FilePos" || loc.op == "F:LumpEntry.Size") && st.M("raw") != "" && isEntry(st, loc.args[0], curIdx(e, fr, st)) {
				viol(e, "W09|entry read after its lump was passed on", pos, "a directory entry is read again after its lump was passed to the writer, which changes it", st)
			}
		case *ssa.Send:
			if s, ok := isBusSend(in); ok {
				rq, ok := e.busRequestOf(fr, st, s)
				if !ok {
					e.Undecided("request to the writer of unknown kind at " + pos)
					return
				}
				if rq.data == Nil() && !udmf && rq.idx == lvlField(e, fr, st, "RejectLumpIdx") && (lumps || st.M("empty:REJECT") == "" && st.M("go:RejectInput") == "") {
					if lumps {
						return
					}
					e.Ev("empty reject delivered", fr.rootSite(in))
					st.SetM("empty:REJECT", "1")
					if !lc.rebuilt("REJECT") || lc.reject == "REJECT_ZEROFILLED" {
						viol(e, "W09|REJECT emptied", pos, "REJECT is delivered empty though it is not being rebuilt", st)
					}
					return
				}
				if !lumps {
					return
				}
				ci := curIdx(e, fr, st)
				if ci == nil {
					viol(e, "W09|data delivered outside of any lump", pos, "data is passed to the writer while no lump of the level is at hand", st)
					return
				}
				e.Ev("lump of a level copied", fr.rootSite(in))
				if rq.idx != ci {
					viol(e, "W09|lump delivered to another entry", pos, "the lump at hand is delivered under entry "+rq.idx.String(), st)
				}
				if st.M("raw") != "" {
					viol(e, "W09|lump copied twice", pos, "a lump of the level is copied twice", st)
				}
				st.SetM("raw", "1")
				st.Note("lump copied")
				if rq.field != "bData" {
					viol(e, "W09|lump copied in another form", pos, "a lump is copied as "+orStr(rq.field, "nothing")+" instead of its bytes", st)
				}
				for _, l := range specialLumps {
					if lc.rebuilt(l) && nameIs(e, fr, st, l) != 0 {
						viol(e, "W09|"+l+" copied though rebuilt", pos, "a lump that may be "+l+" is copied though it is rebuilt", st)
					}
				}
				sz := entField(e, fr, st, "Size")
				rq.data = unSlice(rq.data)
				empty := rq.data.kind == KAlloc && len(rq.data.args) == 1 && rq.data.args[0] == ConstI(0) || rq.data == Nil()
				switch {
				case empty && (st.M("empty") != "" || e.Truth(st, Eq(sz, ConstI(0))) == 1):
				case st.mon["fill"] != rq.data:
					viol(e, "W09|lump copied without having been read", pos, "data passed on for a lump ("+rq.data.String()+") is not known to have been read successfully from its place in the input", st)
				case rq.data.kind != KAlloc || len(rq.data.args) != 1 || rq.data.args[0] != sz:
					viol(e, "W09|lump not copied in full", pos, "the data passed on for a lump does not have the size recorded in its directory entry", st)
				}
				return
			}
			// requests to the controller of the shared blockmap
			if lumps {
				return
			}
			ch := e.Eval(fr, st, v.Chan)
			if ct, ok := types.Unalias(v.Chan.Type()).Underlying().(*types.Chan); ok && namedName(ct.Elem()) == "BconRequest" {
				x := e.Eval(fr, st, v.X)
				bt := p.Named("BconRequest")
				snd, _ := orT(e.sfield(x, bt, "Sender")).Int()
				msg, _ := orT(e.sfield(x, bt, "Message")).Int()
				nn, _ := p.ConstInt("BCON_NONEED_SOLID_BLOCKMAP")
				sn, _ := p.ConstInt("SOLIDBLOCKS_NODES")
				sr, _ := p.ConstInt("SOLIDBLOCKS_REJECT")
				who := map[int64]string{sn: "NodesInput", sr: "RejectInput"}[snd]
				e.Ev("request on behalf of a user of the shared blockmap", in)
				if ch != st.mon["bcontrol"] || msg != nn || who == "" {
					viol(e, "L03|unexpected request to the shared blockmap", pos, "an unexpected request is sent to the controller of the shared blockmap", st)
					return
				}
				if st.M("noneed:"+who) != "" || st.M("go:"+who) != "" {
					viol(e, "L03|user of shared blockmap speaks twice ("+who+")", pos, "the shared blockmap is declined on behalf of a user that was started or that declined already", st)
				}
				st.SetM("noneed:"+who, "1")
			}
		case *ssa.Go:
			if !lumps {
				levelGo(e, fr, st, v, lc, lvlField, viol)
			}
		case *ssa.Return:
			if fr.parent != nil {
				return
			}
			e.Paths++
			endItem(e, fr, st, in)
			if udmf {
				if lumps && st.M("sym") == "" && st.M("all") == "" && !complete(e, fr, st) {
					viol(e, "W09|lumps of a UDMF level left out", pos, "processing of a level ends though it may have more than the "+orT(st.mon["n"]).String()+" lumps that were copied", st)
				}
				return
			}
			if !lumps && st.M("waited") == "" {
				viol(e, "L02|builders not waited for", pos, "processing of a level ends without waiting for its builders", st)
			}
		}
	}
	e := NewEngine(p, r)
	e.Run(root, func(fr *Frame, st *State) []*Term {
		var a []*Term
		for i, pr := range root.Params {
			t := Sym(fr.ctx, "p:"+pr.Name())
			switch {
			case i == 0:
				st.mon["l"] = t
			case i == ai:
				st.mon["action"] = t
			case i == li:
				st.mon["le"] = t
			}
			if _, ok := types.Unalias(pr.Type()).Underlying().(*types.Map); ok {
				rsz = t
			}
			if pr.Type().String() == "uint32" {
				rstart = t
			}
			if qualName(pr.Type()) == "*os.File" {
				fin = t
			}
			a = append(a, t)
		}
		return a
	})
	return e
}

// mapData: what was read of the level's records of a type.
func mapData(el string) *Term { return App("nonnil", App("data:"+el)) }

// unSlice: make([]T, 0) and the like with constant size are slices of arrays.
func unSlice(t *Term) *Term {
	if t.kind == KApp && t.op == "sl2" && t.args[1] == Nil() && t.args[0].kind == KAlloc {
		if k, ok := t.args[2].Int(); ok && k == 0 {
			return Nil()
		}
	}
	return t
}

// loopStride: by how much index v advances with each iteration (0: unknown).
func loopStride(v ssa.Value) int64 {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if _, ok := b.Y.(*ssa.Const); ok {
			v = b.X
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return 0
	}
	r := int64(0)
	for _, ed := range ph.Edges {
		if b, ok := ed.(*ssa.BinOp); ok && b.X == ph {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
				k := c.Int64()
				if b.Op == token.SUB {
					k = -k
				}
				if b.Op == token.ADD || b.Op == token.SUB {
					if r != 0 && r != k {
						return 0
					}
					r = k
				}
			}
		}
	}
	return r
}

// levelShared: fields that are the same for all levels.
func levelShared(t *types.Named, f string) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			n := namedName(deref(s.Field(i).Type()))
			return n == "FileControl" || n == "WriteBusControl"
		}
	}
	return false
}

type violFn func(e *Engine, key, pos, msg string, st *State)

// levelGo: a builder is started.
func levelGo(e *Engine, fr *Frame, st *State, g *ssa.Go, lc levelCase, lvlField func(*Engine, *Frame, *State, string) *Term, viol violFn) {
	p := e.P
	pos := p.InstrPos(g)
	fns := p.Callees(g)
	if len(fns) != 1 {
		return
	}
	callee := fns[0]
	kind, pi := "", -1
	for _, k := range []string{"SolidBlocks_Input", "BlockmapInput", "RejectInput", "NodesInput"} {
		if i := paramOf(callee, k); i >= 0 {
			kind, pi = k, i
		}
	}
	if kind == "" {
		return
	}
	e.Ev("builder started: "+kind, g)
	c := g.Common()
	if pi >= len(c.Args) {
		return
	}
	inT := deref(c.Args[pi].Type())
	arg := e.Eval(fr, st, c.Args[pi])
	field := func(name string) *Term {
		if _, ok := types.Unalias(c.Args[pi].Type()).Underlying().(*types.Pointer); ok {
			t, _ := e.loadField(fr, st, arg, inT, name)
			return orT(t)
		}
		return orT(e.sfield(arg, inT, name))
	}
	if st.M("go:"+kind) != "" {
		viol(e, "L04|"+kind+" builder started twice", pos, "the builder taking "+kind+" is started twice for a level", st)
	}
	st.SetM("go:"+kind, "1")
	st.SetM("started", "1")
	st.Note("builder taking " + kind + " started")
	ln := "Linedef"
	lineType := "Doom"
	if lc.format == "FORMAT_HEXEN" {
		ln = "HexenLinedef"
		lineType = "Hexen"
	}
	have := func(el string) *Term {
		if st.mon["have:"+el] == nil {
			return nil
		}
		return mapData(el)
	}
	// lines
	lo, lt := unIface(field("lines"))
	lt = strings.TrimPrefix(lt, "*")
	if lo.kind == KApp && lo.op == "dyn" {
		lo = lo.args[0]
	}
	nt := p.Named(lt)
	if nt == nil || !strings.HasPrefix(lt, lineType) {
		viol(e, "L04|"+kind+" without lines", pos, "the builder taking "+kind+" is started with lines "+field("lines").String()+", not with the lines of the level", st)
		return
	}
	ldT, _ := e.loadField(fr, st, lo, nt, "linedefs")
	vT, _ := e.loadField(fr, st, lo, nt, "vertices")
	okL := have(ln) != nil && (ldT == have(ln) || ldT == App("derived", have(ln)))
	if !okL {
		viol(e, "L04|"+kind+" builder started without linedefs", pos, "the builder taking "+kind+" is started on a path on which the linedefs of the level have not been read into what it is given ("+orT(ldT).String()+", read: "+orT(have(ln)).String()+")", st)
	}
	if have("Vertex") == nil || vT != have("Vertex") {
		viol(e, "L04|"+kind+" builder started without vertices", pos, "the builder taking "+kind+" is started on a path on which the vertices of the level have not been read into what it is given ("+orT(vT).String()+", read: "+orT(have("Vertex")).String()+")", st)
	}
	if w := st.mon["lines"]; w == nil {
		st.mon["lines"] = orT(ldT)
	} else if okL && w != ldT {
		viol(e, "L04|builders given different linedefs", pos, "the builder taking "+kind+" is given other linedefs than builders started before", st)
	}
	st.mon["obj:"+kind] = lo
	if b := field("bounds"); (kind == "SolidBlocks_Input" || kind == "BlockmapInput" || kind == "RejectInput") && have("Vertex") != nil && b != App("bounds", have("Vertex")) {
		viol(e, "L04|"+kind+" builder started without bounds", pos, "the builder taking "+kind+" is given bounds "+b.String()+" that are not computed from the vertices of the level", st)
	}
	buf := func(name, el string, t *Term) {
		if have(el) == nil || t != have(el) {
			viol(e, "L04|"+kind+" builder started without "+name, pos, "the builder taking "+kind+" is started on a path on which the "+name+" of the level have not been read into what it is given ("+t.String()+", read: "+orT(have(el)).String()+")", st)
		}
	}
	switch kind {
	case "SolidBlocks_Input":
		st.mon["bcontrol"] = field("control")
		st.mon["bgen"] = field("genworker")
		if !(field("control").kind == KAlloc) || !(field("genworker").kind == KAlloc) || field("control") == field("genworker") {
			viol(e, "L03|shared blockmap without own channels", pos, "the controller of the shared blockmap is not given channels made for this level", st)
		}
	case "BlockmapInput":
		ch := lvlField(e, fr, st, "BlockmapLumpChannel")
		ok := false
		for _, a := range c.Args {
			if e.Eval(fr, st, a) == ch {
				ok = true
			}
			if x := e.Eval(fr, st, a); sliceElemName(a.Type()) == "Sector" || sliceElemName(a.Type()) == "Sidedef" {
				el := sliceElemName(a.Type())
				cfg := p.Main.Var("config")
				need := true
				if cfg != nil {
					base := e.Load(fr, st, GlobalT(cfg), deref(cfg.Type()))
					if t, _ := e.loadField(fr, st, base, deref(cfg.Type()), "RemoveNonCollideable"); t != nil && e.Truth(st, t) == 0 {
						need = false
					}
				}
				if need || have(el) != nil && x != have(el) && x != Nil() {
					buf(map[string]string{"Sector": "sectors", "Sidedef": "sidedefs"}[el], el, x)
				}
			}
		}
		if !ok || ch == Nil() {
			viol(e, "L02|blockmap builder without the channel waited on", pos, "the blockmap builder is not given the channel its result is waited for on", st)
		}
		st.mon["chan:BlockmapLumpChannel"] = ch
		if !lc.blockmap {
			viol(e, "W09|blockmap built though not requested", pos, "a blockmap is built though it is not to be rebuilt", st)
		}
	case "RejectInput":
		buf("sectors", "Sector", field("sectors"))
		buf("sidedefs", "Sidedef", field("sidedefs"))
		ch := field("rejectChan")
		if ch != lvlField(e, fr, st, "RejectChan") || ch == Nil() {
			viol(e, "L02|reject builder without the channel waited on", pos, "the reject builder is not given the channel its result is waited for on", st)
		}
		st.mon["chan:RejectChan"] = ch
		fr2, _ := e.loadField(fr, st, st.mon["action"], p.Named("ScheduledLump"), "RMBOptions")
		if field("rmbFrame") != fr2 {
			viol(e, "R06|reject builder without the options of its map", pos, "the reject builder is given RMB options "+field("rmbFrame").String()+", not those in effect for the level", st)
		}
		if field("mapName") != lvlField(e, fr, st, "mapName") {
			viol(e, "R06|reject builder with the name of another map", pos, "the reject builder is given map name "+field("mapName").String()+", not that of the level", st)
		}
		if lc.reject != "REJECT_NORMAL" {
			viol(e, "W09|reject built though not requested", pos, "a reject is built though it is not to be rebuilt", st)
		}
	case "NodesInput":
		buf("sectors", "Sector", field("sectors"))
		buf("sidedefs", "Sidedef", field("sidedefs"))
		ch := field("nodesChan")
		if ch != lvlField(e, fr, st, "NodesChan") || ch == Nil() {
			viol(e, "L02|node builder without the channel waited on", pos, "the node builder is not given the channel its result is waited for on", st)
		}
		st.mon["chan:NodesChan"] = ch
		if lc.format == "FORMAT_HEXEN" {
			th, _ := e.loadField(fr, st, lo, nt, "things")
			buf("things", "HexenThing", orT(th))
			sd, _ := e.loadField(fr, st, lo, nt, "sidedefs")
			buf("sidedefs (of lines)", "Sidedef", orT(sd))
		}
		nl, _ := unIface(lvlField(e, fr, st, "newLines"))
		if nl.kind == KApp && nl.op == "dyn" {
			nl = nl.args[0]
		}
		if nl != lo {
			viol(e, "L01|lines delivered are not those of the node builder", pos, "the lines the node builder edits are not the ones that are delivered with its result", st)
		}
		if !lc.nodes {
			viol(e, "W09|nodes built though not requested", pos, "nodes are built though they are not to be rebuilt", st)
		}
		nodesOptions(e, fr, st, pos, field, viol)
	}
	if kind == "RejectInput" || kind == "NodesInput" {
		if st.mon["bcontrol"] == nil || field("bcontrol") != st.mon["bcontrol"] || field("bgenerator") != st.mon["bgen"] {
			viol(e, "L03|"+kind+" builder without the channels of the shared blockmap", pos, "the builder taking "+kind+" is not given the channels of the level's shared blockmap", st)
		}
		if st.M("noneed:"+kind) != "" {
			viol(e, "L03|user of shared blockmap speaks twice ("+kind+")", pos, "the shared blockmap was declined on behalf of a builder that is started now", st)
		}
	}
	// the node builder edits its lines: nobody else may have the same object
	objs := []string{"SolidBlocks_Input", "BlockmapInput", "RejectInput"}
	if kind == "NodesInput" {
		for _, o := range objs {
			if st.mon["obj:"+o] == lo {
				viol(e, "N02|node builder shares its lines with "+o, pos, "the node builder is given the same lines object as the builder taking "+o+", so that its editing is seen there", st)
			}
		}
	} else if w := st.mon["obj:NodesInput"]; w == lo {
		viol(e, "N02|node builder shares its lines with "+kind, pos, "the builder taking "+kind+" is given the same lines object as the node builder, which edits it", st)
	}
}

// nodesOptions: options that reach the node builder unchanged.
func nodesOptions(e *Engine, fr *Frame, st *State, pos string, field func(string) *Term, viol violFn) {
	p := e.P
	cfg := p.Main.Var("config")
	if cfg == nil {
		return
	}
	base := e.Load(fr, st, GlobalT(cfg), deref(cfg.Type()))
	for _, o := range [][2]string{{"pickNodeUser", "PickNodeUser"}, {"pickNodeFactor", "PickNodeFactor"}, {"minorIsBetterUser", "MinorCmpUser"}, {"nodeType", "NodeType"}, {"multiTreeMode", "MultiTreeMode"}, {"specialRootMode", "SpecialRootMode"}, {"detailFriendliness", "NodeDetailFriendliness"}, {"depthArtifacts", "DepthArtifacts"}} {
		t, _ := e.loadField(fr, st, base, deref(cfg.Type()), o[1])
		if t == nil {
			continue
		}
		if field(o[0]) != t {
			viol(e, "N05|option "+o[1]+" not passed to the node builder", pos, "the node builder is given "+field(o[0]).String()+" as "+o[0]+" instead of the option selected by the user", st)
		}
	}
}

// levelAtWait: what must hold when all lumps of the level were dealt with.
func levelAtWait(e *Engine, fr *Frame, st *State, ci ssa.CallInstruction, lc levelCase, lvlField func(*Engine, *Frame, *State, string) *Term, viol violFn) {
	p := e.P
	pos := p.InstrPos(ci)
	if st.M("waited") != "" {
		viol(e, "L02|builders waited for twice", pos, "the results of the builders are waited for twice", st)
	}
	st.SetM("waited", "1")
	for _, t := range lc.need() {
		if st.mon["have:"+t] == nil {
			return // not a level that is rebuilt
		}
	}
	if st.M("rdfail") != "" {
		viol(e, "W03|level built from data that could not be read", pos, "processing of a level goes on although a lump could not be read", st)
	}
	e.Ev("level with all mandatory lumps", ci)
	st1 := st
	if lc.nodes {
		if (st.M("go:NodesInput") != "") == (st.M("wnodes") != "") {
			viol(e, "L01|node lumps delivered not exactly once", pos, "for a level whose nodes are rebuilt, not exactly one of node builder and direct delivery is used", st1)
		}
	} else if st.M("go:NodesInput") != "" || st.M("wnodes") != "" {
		viol(e, "L01|node lumps delivered though copied", pos, "node lumps are delivered though they are not rebuilt", st1)
	}
	if lc.reject == "REJECT_NORMAL" {
		if (st.M("go:RejectInput") != "") == (st.M("empty:REJECT") != "") {
			viol(e, "L01|REJECT delivered not exactly once", pos, "for a level whose reject is rebuilt, not exactly one of reject builder and direct delivery is used", st1)
		}
	}
	if lc.blockmap && st.M("go:BlockmapInput") == "" {
		viol(e, "L01|BLOCKMAP never built", pos, "the blockmap builder is not started for a level whose blockmap is rebuilt", st1)
	}
	if st.M("go:SolidBlocks_Input") != "" {
		for _, u := range []string{"NodesInput", "RejectInput"} {
			if (st.M("go:"+u) != "") == (st.M("noneed:"+u) != "") {
				viol(e, "L03|user of shared blockmap not heard ("+u+")", pos, "neither is the builder taking "+u+" started nor is the shared blockmap declined on its behalf", st1)
			}
		}
	}
	for _, x := range [][2]string{{"NodesChan", "NodesInput"}, {"RejectChan", "RejectInput"}, {"BlockmapLumpChannel", "BlockmapInput"}} {
		t := lvlField(e, fr, st, x[0])
		if st.M("go:"+x[1]) != "" {
			if t != st.mon["chan:"+x[0]] {
				viol(e, "L02|result of "+x[1]+" builder not waited for", pos, "the level does not wait on the channel the builder taking "+x[1]+" was given", st1)
			}
		} else if t != Nil() {
			viol(e, "L02|level waits for a builder that was not started ("+x[1]+")", pos, "the level waits for a result of the builder taking "+x[1]+", which was not started", st1)
		}
	}
	lt := p.Named("Level")
	if s, ok := lt.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i).Name()
			if st.M("set:"+f) == "" && !levelShared(lt, f) {
				viol(e, "L05|"+f+" not reset", pos, "field "+f+" of the reused level processor still has the value it got for the previous level", st1)
			}
		}
	}
}

func sortedVals(m map[string]string) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedKeys(x)
}

func log2(n int64) int64 {
	for i := int64(0); i < 40; i++ {
		if 1<<i == n {
			return i
		}
	}
	return 63
}

// littleEndian: the byte order argument is binary.LittleEndian.
func littleEndian(t *Term) bool {
	return strings.Contains(t.String(), "LittleEndian") || strings.Contains(t.op, "littleEndian")
}

// typeByQual finds a slice type by the name used in interface terms.
func (p *Prog) typeByQual(n string) types.Type {
	if strings.HasPrefix(n, "[]") {
		if t := p.Named(n[2:]); t != nil {
			return types.NewSlice(t)
		}
		if n == "[]byte" || n == "[]uint8" {
			return types.NewSlice(types.Typ[types.Uint8])
		}
	}
	return types.Typ[types.Int]
}

func levelCases() []levelCase {
	var r []levelCase
	for _, f := range []string{"FORMAT_DOOM", "FORMAT_HEXEN"} {
		for _, rj := range []string{"REJECT_NORMAL", "REJECT_ZEROFILLED", "REJECT_DONTTOUCH"} {
			for _, n := range []bool{true, false} {
				for _, b := range []bool{true, false} {
					r = append(r, levelCase{n, b, rj, f})
				}
			}
		}
	}
	return r
}

func ruleLevelBuilders(c *Ctx) {
	const rn = "level-builders"
	c.Rule("level-builders: for each combination of rebuild options and level format, on every path of DoLevel the builders are started at most once, with the data read for this level and its own channels, and by the time the level waits every result to be waited for has a builder, every user of the shared blockmap was heard, and every field of the level processor was set")
	root := c.P.Method("Level", "DoLevel")
	if root == nil {
		c.Undecided(rn, "no method Level.DoLevel")
		return
	}
	for _, lc := range levelCases() {
		c.Take(doLevelMemo(c, root, lc, false))
	}
	for _, k := range []string{"builder started: NodesInput", "builder started: RejectInput", "builder started: BlockmapInput", "builder started: SolidBlocks_Input", "level with all mandatory lumps"} {
		c.Min(rn, rn+": "+k, 1)
	}
}

func ruleLevelLumps(c *Ctx) {
	p := c.P
	const rn = "level-lumps"
	c.Rule("level-lumps: for each combination of rebuild options and level format, on every path of DoLevel each lump of the level is either read in full and copied under its own entry, or recorded for delivery where it is rebuilt, or given a registered zero-filled slot; the loops over the lumps run to their end")
	root := p.Method("Level", "DoLevel")
	if root == nil {
		c.Undecided(rn, "no method Level.DoLevel")
		return
	}
	for _, lc := range levelCases() {
		c.Take(doLevelMemo(c, root, lc, true))
	}
	u := p.Method("UDMF_Level", "DoLevel")
	if u == nil {
		c.Undecided(rn, "no method UDMF_Level.DoLevel")
		return
	}
	c.Take(doLevelMemo(c, u, levelCase{true, true, "REJECT_NORMAL", "FORMAT_UDMF"}, true))
	for _, k := range []string{"lump of a level copied", "lump of a level taken up", "offset for a zero-filled reject taken", "read of a lump of the level", "entry recorded for REJECT", "entry recorded for BLOCKMAP", "entry recorded for NODES", "entry recorded for SEGS", "entry recorded for SSECTORS", "entry recorded for LINEDEFS", "entry recorded for VERTEXES"} {
		c.Min(rn, rn+": "+k, 1)
	}
	// loops over the lumps of a level run to their end
	n := 0
	for _, rt := range []*ssa.Function{root, u} {
		reach := map[*ssa.Function]bool{rt: true}
		for _, fn := range p.Funcs {
			if fn.Parent() == nil && fn.Signature.Recv() != nil && namedName(deref(fn.Signature.Recv().Type())) == namedName(deref(rt.Params[0].Type())) {
				reach[fn] = true
			}
		}
		for _, fn := range p.Funcs {
			if !reach[fn] {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					uo, ok := in.(*ssa.UnOp)
					if !ok || uo.Op.String() != "*" || namedName(deref(uo.Type())) != "ScheduledLump" {
						continue
					}
					if _, ok := uo.X.(*ssa.IndexAddr); !ok || seen[b] {
						continue
					}
					seen[b] = true
					n++
					if k := loopStride(uo.X.(*ssa.IndexAddr).Index); k != 0 && k != 1 && c.Prop == "W09" {
						c.Viol(rn, "loop over lumps of a level skips lumps in "+FullName(fn), p.InstrPos(uo), fmt.Sprintf("the loop over the lumps of a level advances by %d lumps", k))
					}
					for _, ex := range p.loopExits(fn, b) {
						if p.deadEnd(fn, ex[1]) {
							continue
						}
						iff, ok := ex[0].Instrs[len(ex[0].Instrs)-1].(*ssa.If)
						if ok && lenBound(iff.Cond, "ScheduledLump") {
							continue
						}
						if c.Prop == "W09" {
							c.Viol(rn, "loop over lumps of a level left early in "+FullName(fn), p.InstrPos(ex[0].Instrs[len(ex[0].Instrs)-1]), "the loop over the lumps of a level can be left before its last lump, so that the rest is neither copied nor rebuilt")
						}
					}
				}
			}
		}
	}
	c.Count(rn+": loops over the lumps of a level", n)
}

var doLevelRuns = map[string]*Engine{}

func doLevelMemo(c *Ctx, root *ssa.Function, lc levelCase, lumps bool) *Engine {
	k := fmt.Sprint(FullName(root), lc, lumps)
	if e := doLevelRuns[k]; e != nil {
		return e
	}
	e := doLevelFlow(c, root, lc, lumps)
	doLevelRuns[k] = e
	return e
}
