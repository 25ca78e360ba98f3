package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers shared by rules ---------------------------------------------------

func calleeName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return FullName(f)
}

// forkErr: outcomes of a call whose last result is an error; the other results
// on success are given, on failure they are unknown.
func (e *Engine) forkErr(fr *Frame, st *State, c ssa.CallInstruction, ok []*Term, onOK, onErr func(*State)) []Out {
	n := c.Common().Signature().Results().Len()
	mk := func(s *State, vals []*Term, errT *Term, suf string) Out {
		var a []*Term
		for i := 0; i < n-1; i++ {
			if i < len(vals) && vals[i] != nil {
				a = append(a, vals[i])
			} else {
				a = append(a, e.sym(fr, s, c, suf+itoa(i)))
			}
		}
		a = append(a, errT)
		if n == 1 {
			return Out{Kind: ORet, Res: errT, St: s}
		}
		return Out{Kind: ORet, Res: Tuple(a...), St: s}
	}
	// names of values produced here are renewed on both paths
	for i := 0; i < n; i++ {
		e.sym(fr, st, c, "o"+itoa(i))
		e.sym(fr, st, c, "f"+itoa(i))
	}
	es := e.sym(fr, st, c, "err")
	bad := st.Clone()
	if onOK != nil {
		onOK(st)
	}
	if onErr != nil {
		onErr(bad)
	}
	return []Out{mk(st, ok, Nil(), "o"), mk(bad, nil, App("nonnil", es), "f")}
}

// sfield projects a field of a struct value by name.
func (e *Engine) sfield(t *Term, typ types.Type, name string) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			switch t.kind {
			case KStruct:
				return t.args[i]
			case KZero:
				return ZeroOf(st.Field(i).Type())
			}
			return App("fld:"+itoa(i), t)
		}
	}
	return nil
}

// loadField reads base.<path of fields> in state st.
func (e *Engine) loadField(fr *Frame, st *State, base *Term, typ types.Type, path ...string) (*Term, types.Type) {
	loc := base
	for _, n := range path {
		s, ok := deref(typ).Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				cls, ft := fieldClass(typ, i)
				loc = FieldOf(loc, cls, ft)
				typ = ft
				found = true
				break
			}
		}
		if !found {
			return nil, nil
		}
	}
	return e.Load(fr, st, loc, typ), typ
}

// ptrOf: pointer term inside an interface.
func unIface(t *Term) (*Term, string) {
	if t.kind == KApp && strings.HasPrefix(t.op, "iface:") {
		return t.args[0], t.op[len("iface:"):]
	}
	return t, ""
}

// constStrings are the constant strings among the operands of a call
func constStringArgs(c ssa.CallInstruction) []string {
	var r []string
	for _, a := range c.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			r = append(r, constant.StringVal(k.Value))
		}
	}
	return r
}

// binSize is binary.Size of a value of type t (0,false if variable).
func binSize(t types.Type) (int64, bool) {
	if u, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = u.Elem()
	}
	return binSizeIn(t)
}

// binSizeIn: inside a value there are no pointers to follow.
func binSizeIn(t types.Type) (int64, bool) {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1, true
		case types.Int16, types.Uint16:
			return 2, true
		case types.Int32, types.Uint32, types.Float32:
			return 4, true
		case types.Int64, types.Uint64, types.Float64:
			return 8, true
		}
	case *types.Array:
		if n, ok := binSizeIn(u.Elem()); ok {
			return n * u.Len(), true
		}
	case *types.Struct:
		var s int64
		for i := 0; i < u.NumFields(); i++ {
			n, ok := binSizeIn(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

// binSizeTerm: number of bytes binary.Write produces for the interface value a.
func (e *Engine) binSizeTerm(fr *Frame, st *State, v ssa.Value, a *Term) *Term {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		if n, ok := binSize(mi.X.Type()); ok {
			return ConstI(n)
		}
		if sl, ok := types.Unalias(mi.X.Type()).Underlying().(*types.Slice); ok {
			if n, ok := binSize(sl.Elem()); ok {
				x, _ := unIface(a)
				l := App("len", x)
				if x.kind == KAlloc && len(x.args) == 1 {
					l = x.args[0]
				} else if x.kind == KNil {
					l = ConstI(0)
				}
				m, c := linOf(l)
				for k := range m {
					m[k] *= n
				}
				return mkLin(m, c*n)
			}
		}
	}
	return App("call:encoding/binary.Size", a)
}
