package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- byte order ------------------------------------------------------------------

func isByteOrder(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/binary" && strings.HasSuffix(n.Obj().Name(), "ByteOrder")
}

// orderKind: "" if v is the little-endian order (or a parameter whose callers
// are checked in their own right).
func orderKind(v ssa.Value, depth int) string {
	if depth > 8 {
		return "an unknown byte order"
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if s := qualName(x.X.Type()); s != "binary.littleEndian" {
			return s
		}
		return ""
	case *ssa.ChangeInterface:
		return orderKind(x.X, depth+1)
	case *ssa.Parameter:
		return ""
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if s := orderKind(e, depth+1); s != "" {
				return s
			}
		}
		return ""
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" && g.Name() == "LittleEndian" {
			return ""
		}
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg == v.Parent().Pkg {
			// package variable: every store to it is checked
			return ""
		}
	}
	return "an unknown byte order (" + v.String() + ")"
}

func ruleEndian(c *Ctx) {
	const rn = "byte-order"
	c.Rule("byte-order: every byte order handed to a function, stored or called in the program is the little-endian one; the big-endian and native orders are never mentioned")
	p := c.P
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		var rands [12]*ssa.Value
		for _, op := range in.Operands(rands[:0]) {
			if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" && (g.Name() == "BigEndian" || g.Name() == "NativeEndian") {
				c.Viol(rn, g.Name()+" used in "+FullName(fn), p.InstrPos(in), "data is encoded or decoded with byte order "+g.Name()+"; all wad structures are little-endian")
			}
		}
		switch x := in.(type) {
		case ssa.CallInstruction:
			sig := x.Common().Signature()
			args := x.Common().Args
			off := 0
			if sig.Recv() != nil && !x.Common().IsInvoke() {
				off = 1
			}
			for i := 0; i < sig.Params().Len(); i++ {
				if isByteOrder(sig.Params().At(i).Type()) && i+off < len(args) {
					c.Site("byte-order: calls with a byte order", p.InstrPos(in))
					if s := orderKind(args[i+off], 0); s != "" {
						c.Viol(rn, "byte order "+s+" in "+FullName(fn), p.InstrPos(in), "a call is given "+s+" instead of the little-endian byte order")
					}
				}
			}
			if x.Common().IsInvoke() && isByteOrder(x.Common().Value.Type()) {
				c.Site("byte-order: calls of a byte order", p.InstrPos(in))
				if s := orderKind(x.Common().Value, 0); s != "" {
					c.Viol(rn, "byte order "+s+" in "+FullName(fn), p.InstrPos(in), "a value is encoded with "+s)
				}
			}
			if sc := x.Common().StaticCallee(); sc != nil && strings.HasPrefix(FullName(sc), "(encoding/binary.") {
				c.Site("byte-order: calls of a byte order", p.InstrPos(in))
			}
		case *ssa.Store:
			if isByteOrder(x.Val.Type()) {
				if s := orderKind(x.Val, 0); s != "" {
					c.Viol(rn, "byte order "+s+" in "+FullName(fn), p.InstrPos(in), s+" is stored as byte order")
				}
			}
		}
	})
	c.Min(rn, "byte-order: calls with a byte order", 15)
	c.Min(rn, "byte-order: calls of a byte order", 3)
}

// ---- record layouts ----------------------------------------------------------------

// recordSpec: the layout of every record type of the formats handled, from the
// Doom, Hexen, DeePBSP and ZDoom specifications.
var recordSpec = map[string]string{
	"WadHeader":              "MagicSig:4 LumpCount:4 DirectoryStart:4",
	"LumpEntry":              "FilePos:4 Size:4 Name:1x8",
	"Thing":                  "XPos:2 YPos:2 Angle:2 Type:2 Flags:2",
	"HexenThing":             "TID:2 XPos:2 YPos:2 StartingHeight:2 Angle:2 Type:2 Flags:2 Action:1 Args:1x5",
	"Linedef":                "StartVertex:2 EndVertex:2 Flags:2 Action:2 Tag:2 FrontSdef:2 BackSdef:2",
	"HexenLinedef":           "StartVertex:2 EndVertex:2 Flags:2 Action:1 Arg1:1 Arg2:1 Arg3:1 Arg4:1 Arg5:1 FrontSdef:2 BackSdef:2",
	"Sidedef":                "XOffset:2 YOffset:2 UpName:1x8 LoName:1x8 MidName:1x8 Sector:2",
	"Vertex":                 "XPos:2 YPos:2",
	"Seg":                    "StartVertex:2 EndVertex:2 Angle:2 Linedef:2 Flip:2 Offset:2",
	"DeepSeg":                "StartVertex:4 EndVertex:4 Angle:2 Linedef:2 Flip:2 Offset:2",
	"SubSector":              "SegCount:2 FirstSeg:2",
	"DeepSubSector":          "SegCount:2 FirstSeg:4",
	"Node":                   "X:2 Y:2 Dx:2 Dy:2 Rbox:2x4 Lbox:2x4 RChild:2 LChild:2",
	"DeepNode":               "X:2 Y:2 Dx:2 Dy:2 Rbox:2x4 Lbox:2x4 RChild:4 LChild:4",
	"Sector":                 "FloorHeight:2 CeilHeight:2 FloorName:1x8 CeilName:1x8 LightLevel:2 Special:2 Tag:2",
	"BlockMapHeader":         "XMin:2 YMin:2 XBlocks:2 YBlocks:2",
	"ZdoomNode_VertexHeader": "ReusedOriginalVertices:4 NumExtendedVertices:4",
	"ZdoomNode_Vertex":       "X:4 Y:4",
	"ZdoomNode_Seg":          "StartVertex:4 EndVertex:4 Linedef:2 Flip:1",
}

func fieldWidth(t types.Type) string {
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		n, ok := binSize(a.Elem())
		if !ok {
			return "?"
		}
		return fmt.Sprintf("%dx%d", n, a.Len())
	}
	n, ok := binSize(t)
	if !ok {
		return "?"
	}
	return fmt.Sprint(n)
}

func layoutOf(s *types.Struct) (names, widths []string) {
	for i := 0; i < s.NumFields(); i++ {
		names = append(names, s.Field(i).Name())
		widths = append(widths, fieldWidth(s.Field(i).Type()))
	}
	return
}

func specOf(n string) (names, widths []string) {
	for _, f := range strings.Fields(recordSpec[n]) {
		a, b, _ := strings.Cut(f, ":")
		names = append(names, a)
		widths = append(widths, b)
	}
	return
}

func sameSet(a, b []string) bool {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, " ") == strings.Join(y, " ")
}

// checkRecord compares a record type with the layout its format prescribes.
func checkRecord(c *Ctx, rn, name string, s *types.Struct, pos string) {
	names, widths := layoutOf(s)
	c.Site(rn+": record types checked", name)
	if _, ok := recordSpec[name]; ok {
		sn, sw := specOf(name)
		if sameSet(names, sn) {
			for i := range sn {
				if names[i] != sn[i] {
					c.Viol(rn, "field order of "+name, pos, fmt.Sprintf("field %d of record %s is %s; the format prescribes %s", i, name, names[i], sn[i]))
					return
				}
				if widths[i] != sw[i] {
					c.Viol(rn, "field "+sn[i]+" of "+name, pos, fmt.Sprintf("field %s of record %s takes %s bytes; the format prescribes %s", sn[i], name, widths[i], sw[i]))
				}
			}
			return
		}
		if strings.Join(widths, " ") != strings.Join(sw, " ") {
			c.Viol(rn, "layout of "+name, pos, fmt.Sprintf("record %s has fields of %v bytes; the format prescribes %v", name, widths, sw))
		}
		return
	}
	for k := range recordSpec {
		if _, sw := specOf(k); strings.Join(widths, " ") == strings.Join(sw, " ") {
			return
		}
	}
	c.Viol(rn, "layout of unknown record "+name, pos, fmt.Sprintf("record %s with fields of %v bytes is read from or written to a wad but has the layout of no known record", name, widths))
}

// ifaceTypes: concrete types an interface value can hold, traced through
// parameters, fields and package variables; ok=false if it escapes the trace.
func (p *Prog) ifaceTypes(v ssa.Value) (map[types.Type]bool, bool) {
	res := map[types.Type]bool{}
	seen := map[ssa.Value]bool{}
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.MakeInterface:
			res[x.X.Type()] = true
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Parameter:
			fn := x.Parent()
			for i, q := range fn.Params {
				if q != x {
					continue
				}
				for _, cs := range p.callers[fn] {
					args := cs.Common().Args
					if cs.Common().IsInvoke() {
						if i > 0 && i-1 < len(args) {
							walk(args[i-1])
						}
					} else if i < len(args) && cs.Common().StaticCallee() == fn {
						walk(args[i])
					} else if i < len(args) {
						walk(args[i])
					}
				}
			}
		case *ssa.UnOp:
			fa, isF := x.X.(*ssa.FieldAddr)
			if !isF {
				ok = false
				return
			}
			walkField(p, fa.X.Type(), fa.Field, walk)
		case *ssa.Field:
			walkField(p, x.X.Type(), x.Field, walk)
		case *ssa.Call:
			walkRet(p, x, 0, walk, &ok)
		case *ssa.Extract:
			if call, isC := x.Tuple.(*ssa.Call); isC {
				walkRet(p, call, x.Index, walk, &ok)
			} else {
				ok = false
			}
		default:
			ok = false
		}
	}
	walk(v)
	return res, ok
}

func walkRet(p *Prog, c *ssa.Call, i int, walk func(ssa.Value), ok *bool) {
	cs := p.Callees(c)
	if len(cs) == 0 {
		*ok = false
	}
	for _, f := range cs {
		if f.Blocks == nil {
			*ok = false
			continue
		}
		for _, b := range f.Blocks {
			if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && i < len(r.Results) {
				walk(r.Results[i])
			}
		}
	}
}

func walkField(p *Prog, t types.Type, field int, walk func(ssa.Value)) {
	n := deref(t)
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if ok && fa.Field == field && types.Identical(deref(fa.X.Type()), n) {
			walk(st.Val)
		}
	})
}

func recordElem(t types.Type) (string, *types.Struct) {
	for {
		t = types.Unalias(t)
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Array:
			t = u.Elem()
			continue
		case *types.Struct:
			n := "unnamed struct"
			if nt, ok := t.(*types.Named); ok {
				n = nt.Obj().Name()
			}
			return n, u
		}
		return "", nil
	}
}

func ruleRecords(c *Ctx) {
	const rn = "record-layout"
	c.Rule("record-layout: every structure type that reaches encoding/binary, and every record type of the formats, has the field order and widths its format prescribes")
	p := c.P
	done := map[string]bool{}
	scope := p.Main.Pkg.Scope()
	for n := range recordSpec {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if s, ok := tn.Type().Underlying().(*types.Struct); ok {
			done[n] = true
			checkRecord(c, rn, n, s, p.Pos(tn.Pos()))
		}
	}
	p.EachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		sc := ci.Common().StaticCallee()
		if sc == nil {
			return
		}
		var a ssa.Value
		switch FullName(sc) {
		case "encoding/binary.Read", "encoding/binary.Write":
			a = ci.Common().Args[2]
		case "encoding/binary.Size":
			a = ci.Common().Args[0]
		default:
			return
		}
		c.Site(rn+": encoding/binary calls", p.InstrPos(in))
		ts, ok := p.ifaceTypes(a)
		if !ok {
			c.Viol(rn, "untraceable data in "+FullName(fn), p.InstrPos(in), "what is encoded or decoded here cannot be traced to its type")
		}
		for t := range ts {
			n, s := recordElem(t)
			if s == nil {
				if n, ok := binSize(elemBasic(t)); !ok || n == 0 {
					c.Viol(rn, "data of no fixed size in "+FullName(fn), p.InstrPos(in), "type "+qualName(t)+" has no fixed binary size")
				}
				continue
			}
			if !done[n] {
				done[n] = true
				checkRecord(c, rn, n, s, p.InstrPos(in))
			}
		}
	})
	c.Min(rn, rn+": record types checked", 15)
	c.Min(rn, rn+": encoding/binary calls", 10)
}

func elemBasic(t types.Type) types.Type {
	for {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		default:
			return t
		}
	}
}

// ---- signatures ---------------------------------------------------------------------

// globalBytes: the bytes a package-level byte array is initialised with; ok is
// false if it is written anywhere else or by something that is not a constant.
func (p *Prog) globalBytes(g *ssa.Global) ([]byte, bool) {
	at, ok := deref(g.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	b := make([]byte, at.Len())
	good := true
	check := func(fn *ssa.Function) {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == g {
						// whole value stored
						if u, ok := x.Val.(*ssa.UnOp); ok && fn.Name() == "init" {
							if al, ok := u.X.(*ssa.Alloc); ok {
								for _, r := range *al.Referrers() {
									ia, ok := r.(*ssa.IndexAddr)
									if !ok {
										continue
									}
									setByte(b, ia, &good)
								}
								continue
							}
						}
						good = false
					}
				case *ssa.IndexAddr:
					if x.X != g {
						continue
					}
					for _, r := range *x.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == x {
							if fn.Name() != "init" {
								good = false
							}
						}
					}
					if fn.Name() == "init" {
						setByte(b, x, &good)
					}
				}
			}
		}
	}
	if f := g.Pkg.Func("init"); f != nil {
		check(f)
	}
	for _, fn := range p.Funcs {
		if fn.Name() != "init" {
			check(fn)
		}
	}
	return b, good
}

func setByte(b []byte, ia *ssa.IndexAddr, good *bool) {
	k, ok := ia.Index.(*ssa.Const)
	if !ok {
		*good = false
		return
	}
	i, _ := constInt(k.Value)
	for _, r := range *ia.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != ia {
			continue
		}
		v, ok := st.Val.(*ssa.Const)
		if !ok || v.Value == nil || v.Value.Kind() != constant.Int {
			*good = false
			continue
		}
		n, _ := constInt(v.Value)
		if int(i) < len(b) {
			b[i] = byte(n)
		}
	}
}
