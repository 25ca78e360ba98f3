package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed symbolic values: two registers or locations that hold
// the same term hold the same value on that path.
type Kind uint8

const (
	KConst  Kind = iota
	KNil         // nil of any type
	KZero        // zero value of a composite type
	KSym         // unknown value, named after where it was produced
	KApp         // operator application
	KField       // address of field op of the struct at args[0]
	KIndex       // address of element args[1] of args[0]
	KGlobal      // address of a global
	KAlloc       // address of an object allocated at a site (or made slice/chan/map)
	KFunc        // function value
	KClos        // closure, args are bindings
	KTuple       // multiple results
	KStruct      // struct value, args are the fields
)

type Term struct {
	id    int
	kind  Kind
	op    string
	args  []*Term
	val   constant.Value
	fn    *ssa.Function
	typ   types.Type
	ctx   string
	site  ssa.Instruction
	leafs []*Term // distinct KSym/KAlloc leaves
	depth int
	esc   bool // KAlloc: address used for more than load/store/field access
}

type Terms struct {
	m map[string]*Term
	n int
}

func NewTerms() *Terms { return &Terms{m: map[string]*Term{}} }

func (ts *Terms) intern(key string, mk func() *Term) *Term {
	if t := ts.m[key]; t != nil {
		return t
	}
	t := mk()
	ts.n++
	t.id = ts.n
	seen := map[*Term]bool{}
	if t.kind == KSym || t.kind == KAlloc {
		t.leafs = append(t.leafs, t)
		seen[t] = true
	}
	for _, a := range t.args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		for _, l := range a.leafs {
			if !seen[l] {
				seen[l] = true
				t.leafs = append(t.leafs, l)
			}
		}
	}
	sort.Slice(t.leafs, func(i, j int) bool { return t.leafs[i].id < t.leafs[j].id })
	ts.m[key] = t
	return t
}

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

var TS = NewTerms()

func Const(v constant.Value) *Term {
	if v == nil {
		return Nil()
	}
	if v.Kind() == constant.Float {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			v = iv
		}
	}
	return TS.intern("c"+strconv.Itoa(int(v.Kind()))+":"+v.ExactString(), func() *Term { return &Term{kind: KConst, val: v} })
}
func ConstI(i int64) *Term  { return Const(constant.MakeInt64(i)) }
func ConstS(s string) *Term { return Const(constant.MakeString(s)) }
func ConstB(b bool) *Term   { return Const(constant.MakeBool(b)) }
func Nil() *Term            { return TS.intern("nil", func() *Term { return &Term{kind: KNil} }) }
func Sym(ctx, n string) *Term {
	return TS.intern("s"+ctx+"|"+n, func() *Term { return &Term{kind: KSym, op: n, ctx: ctx} })
}
func App(op string, args ...*Term) *Term {
	return TS.intern("a"+op+argKey(args), func() *Term { return &Term{kind: KApp, op: op, args: args} })
}
func FieldOf(base *Term, cls string, typ types.Type) *Term {
	return TS.intern("f"+cls+","+strconv.Itoa(base.id), func() *Term { return &Term{kind: KField, op: cls, args: []*Term{base}, typ: typ} })
}
func IndexOf(base, idx *Term, elem types.Type) *Term {
	if base.kind == KApp && base.op == "sl" {
		base = base.args[0]
	}
	return TS.intern("i"+argKey([]*Term{base, idx})+":"+types.TypeString(elem, nil), func() *Term { return &Term{kind: KIndex, args: []*Term{base, idx}, typ: elem} })
}
func GlobalT(g *ssa.Global) *Term {
	return TS.intern("g"+g.String(), func() *Term { return &Term{kind: KGlobal, op: g.Name(), typ: deref(g.Type())} })
}
func AllocT(ctx, n string, typ types.Type, esc bool, args ...*Term) *Term {
	return TS.intern("A"+ctx+"|"+n+argKey(args), func() *Term { return &Term{kind: KAlloc, op: n, ctx: ctx, typ: typ, esc: esc, args: args} })
}
func FuncT(f *ssa.Function) *Term {
	return TS.intern(fmt.Sprintf("F%p", f), func() *Term { return &Term{kind: KFunc, fn: f, op: f.Name()} })
}
func ClosT(f *ssa.Function, b []*Term) *Term {
	return TS.intern(fmt.Sprintf("C%p", f)+argKey(b), func() *Term { return &Term{kind: KClos, fn: f, op: f.Name(), args: b} })
}
func Tuple(a ...*Term) *Term {
	return TS.intern("t"+argKey(a), func() *Term { return &Term{kind: KTuple, args: a} })
}
func StructT(typ types.Type, a []*Term) *Term {
	return TS.intern("S"+types.TypeString(typ, nil)+argKey(a), func() *Term { return &Term{kind: KStruct, typ: typ, args: a} })
}

// ZeroOf is the zero value of a type.
func ZeroOf(t types.Type) *Term {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ConstB(false)
		case u.Info()&types.IsString != 0:
			return ConstS("")
		case u.Info()&types.IsNumeric != 0:
			return ConstI(0)
		}
		return Nil()
	case *types.Struct, *types.Array:
		return TS.intern("z"+types.TypeString(t, nil), func() *Term { return &Term{kind: KZero, typ: t} })
	}
	return Nil()
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	switch t.kind {
	case KConst:
		return t.val.ExactString()
	case KNil:
		return "nil"
	case KZero:
		return "zero(" + qualName(t.typ) + ")"
	case KSym:
		return "$" + t.op
	case KAlloc:
		return "&" + t.op
	case KGlobal:
		return "&" + t.op
	case KFunc, KClos:
		return "func " + t.op
	case KField:
		return t.args[0].String() + "." + t.op[strings.LastIndex(t.op, ".")+1:]
	case KIndex:
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.String())
	}
	switch {
	case t.kind == KTuple:
		return "(" + strings.Join(s, ", ") + ")"
	case t.kind == KStruct:
		return qualName(t.typ) + "{" + strings.Join(s, ", ") + "}"
	case t.op == "ld":
		return "*" + s[0]
	}
	return t.op + "(" + strings.Join(s, ", ") + ")"
}

func (t *Term) IsNonNil() bool {
	switch t.kind {
	case KAlloc, KGlobal, KFunc, KClos, KField, KIndex:
		return true
	case KConst:
		return true
	case KApp:
		if t.op == "sl" && len(t.args) > 0 {
			// slice of an array or of a made slice
			switch k := t.args[0]; k.kind {
			case KAlloc, KGlobal, KField, KIndex:
				return true
			}
		}
		if strings.HasPrefix(t.op, "conv:*") || t.op == "conv:unsafe.Pointer" {
			return t.args[0].IsNonNil()
		}
		return strings.HasPrefix(t.op, "iface:") || t.op == "nonnil"
	}
	return false
}

func constInt(v constant.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

func (t *Term) Int() (int64, bool) {
	if t.kind != KConst {
		return 0, false
	}
	return constInt(t.val)
}

func (t *Term) Str() (string, bool) {
	if t.kind == KConst && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

// ---- arithmetic ------------------------------------------------------------

// lin decomposes t into a linear combination.
func linOf(t *Term) (map[*Term]int64, int64) {
	m := map[*Term]int64{}
	if c, ok := t.Int(); ok {
		return m, c
	}
	if t.kind == KApp && strings.HasPrefix(t.op, "lin:") {
		parts := strings.Split(t.op[4:], ",")
		c, _ := strconv.ParseInt(parts[len(parts)-1], 10, 64)
		for i, a := range t.args {
			k, _ := strconv.ParseInt(parts[i], 10, 64)
			m[a] += k
		}
		return m, c
	}
	m[t] = 1
	return m, 0
}

func mkLin(m map[*Term]int64, c int64) *Term {
	var ks []*Term
	for k, v := range m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return ConstI(c)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && m[ks[0]] == 1 && c == 0 {
		return ks[0]
	}
	var sb strings.Builder
	sb.WriteString("lin:")
	for _, k := range ks {
		sb.WriteString(strconv.FormatInt(m[k], 10) + ",")
	}
	sb.WriteString(strconv.FormatInt(c, 10))
	return App(sb.String(), ks...)
}

func isInt(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func intWidth(t types.Type) int {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func Not(t *Term) *Term {
	if t.kind == KConst && t.val.Kind() == constant.Bool {
		return ConstB(!constant.BoolVal(t.val))
	}
	if t.kind == KApp && t.op == "!" {
		return t.args[0]
	}
	return App("!", t)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return ConstB(true)
	}
	if a.kind == KConst && b.kind == KConst {
		if a.val.Kind() == b.val.Kind() {
			return ConstB(constant.Compare(a.val, token.EQL, b.val))
		}
	}
	if a.kind == KNil && b.IsNonNil() || b.kind == KNil && a.IsNonNil() {
		return ConstB(false)
	}
	// bool == const
	for i := 0; i < 2; i++ {
		if b.kind == KConst && b.val.Kind() == constant.Bool {
			if constant.BoolVal(b.val) {
				return a
			}
			return Not(a)
		}
		a, b = b, a
	}
	// move constants of linear terms to one side
	if _, ok := b.Int(); ok {
		a, b = b, a
	}
	if ca, ok := a.Int(); ok && b.kind == KApp && strings.HasPrefix(b.op, "lin:") && len(b.args) == 1 {
		m, c := linOf(b)
		if m[b.args[0]] == 1 {
			return Eq(ConstI(ca-c), b.args[0])
		}
	}
	if isLin(a) || isLin(b) {
		l, r, c := linSplit(a, b)
		lz, lc := l.Int()
		rz, rc := r.Int()
		if lc && rc {
			return ConstB(lz == rz+c)
		}
		if lc {
			a, b = ConstI(-c), r
		} else if rc {
			a, b = l, ConstI(c)
		} else {
			// the side with the smallest id gets the constant
			if l.id > r.id {
				l, r, c = r, l, -c
			}
			m, k := linOf(r)
			a, b = l, mkLin(m, k+c)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("==", a, b)
}

func Less(a, b *Term, t types.Type) *Term {
	if a.kind == KConst && b.kind == KConst {
		if a.val.Kind() == b.val.Kind() {
			return ConstB(constant.Compare(a.val, token.LSS, b.val))
		}
	}
	if t != nil && isFloat(t) {
		return App("<f", a, b)
	}
	if a == b {
		return ConstB(false)
	}
	nonneg := func(x *Term) bool {
		return x.kind == KApp && (x.op == "len" || x.op == "cap") || t != nil && isUnsigned(t)
	}
	if c, ok := a.Int(); ok && nonneg(b) {
		if c == 0 {
			return Not(Eq(b, ConstI(0)))
		}
		if c < 0 {
			return ConstB(true)
		}
	}
	if c, ok := b.Int(); ok && nonneg(a) {
		if c == 1 {
			return Eq(a, ConstI(0))
		}
		if c <= 0 {
			return ConstB(false)
		}
	}
	if t == nil || isInt(t) {
		return linLess(a, b)
	}
	return App("<", a, b)
}

func isLin(t *Term) bool { return t.kind == KApp && strings.HasPrefix(t.op, "lin:") }

// linSplit writes b-a as R + c - L with positive coefficients.
func linSplit(a, b *Term) (l, r *Term, c int64) {
	mb, cb := linOf(b)
	ma, ca := linOf(a)
	for k, v := range ma {
		mb[k] -= v
	}
	lm, rm := map[*Term]int64{}, map[*Term]int64{}
	for k, v := range mb {
		if v > 0 {
			rm[k] = v
		} else if v < 0 {
			lm[k] = -v
		}
	}
	c = cb - ca
	return mkLin(lm, 0), mkLin(rm, 0), c
}

func linLess(a, b *Term) *Term {
	if !isLin(a) && !isLin(b) {
		return App("<", a, b)
	}
	l, r, c := linSplit(a, b)
	lz, lc := l.Int()
	rz, rc := r.Int()
	if lc && rc {
		return ConstB(lz < rz+c)
	}
	if lc {
		return App("<", ConstI(-c), r)
	}
	if rc {
		return App("<", l, ConstI(c))
	}
	m, k := linOf(r)
	return App("<", l, mkLin(m, k+c))
}

func BinTerm(op token.Token, a, b *Term, ot types.Type, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		return Less(a, b, ot)
	case token.GTR:
		return Less(b, a, ot)
	case token.LEQ:
		if isFloat(ot) {
			return App("<=f", a, b)
		}
		return Not(Less(b, a, ot))
	case token.GEQ:
		if isFloat(ot) {
			return App("<=f", b, a)
		}
		return Not(Less(a, b, ot))
	}
	if a.kind == KConst && b.kind == KConst && a.val.Kind() == b.val.Kind() {
		switch op {
		case token.SHL, token.SHR:
			if s, ok := b.Int(); ok && s >= 0 && s < 64 {
				if v := constant.Shift(a.val, op, uint(s)); fits(v) {
					return Const(v)
				}
			}
		case token.QUO, token.REM:
			if s, ok := b.Int(); ok && s != 0 && isInt(rt) {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return Const(constant.BinaryOp(a.val, o, b.val))
			}
		case token.AND_NOT, token.AND, token.OR, token.XOR, token.ADD, token.SUB, token.MUL:
			if !(op == token.XOR && isUnsigned(rt)) {
				v := constant.BinaryOp(a.val, op, b.val)
				if fits(v) {
					return Const(v)
				}
			}
		}
	}
	if isInt(rt) && (op == token.ADD || op == token.SUB) {
		ma, ca := linOf(a)
		mb, cb := linOf(b)
		s := int64(1)
		if op == token.SUB {
			s = -1
		}
		for k, v := range mb {
			ma[k] += s * v
		}
		if len(ma) <= 8 {
			return mkLin(ma, ca+s*cb)
		}
	}
	if isInt(rt) && op == token.MUL {
		if c, ok := a.Int(); ok {
			a, b = b, a
			_ = c
		}
		if c, ok := b.Int(); ok {
			m, k := linOf(a)
			for x := range m {
				m[x] *= c
			}
			return mkLin(m, k*c)
		}
	}
	switch op {
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return App(op.String(), a, b)
}

func fits(v constant.Value) bool {
	if v.Kind() != constant.Int {
		return v.Kind() == constant.String || v.Kind() == constant.Bool || v.Kind() == constant.Float
	}
	_, ok := constant.Int64Val(v)
	return ok
}

// Conv models a conversion. Integer conversions to at least 32 bits are taken
// to be value preserving.
func Conv(a *Term, from, to types.Type) *Term {
	if isInt(from) && isInt(to) {
		if intWidth(to) >= 32 || intWidth(to) >= intWidth(from) && isUnsigned(from) == isUnsigned(to) {
			return a
		}
		if c, ok := a.Int(); ok {
			lo, hi := int64(0), int64(1)<<uint(intWidth(to))-1
			if !isUnsigned(to) {
				lo, hi = -(int64(1) << uint(intWidth(to)-1)), int64(1)<<uint(intWidth(to)-1)-1
			}
			if c >= lo && c <= hi {
				return a
			}
		}
		return App("conv:"+qualName(to.Underlying()), a)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return a
	}
	return App("conv:"+qualName(to), a)
}

// subst rewrites leaves of t.
func subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.kind {
	case KSym, KAlloc:
		r = f(t)
	default:
		if len(t.leafs) == 0 || len(t.args) == 0 {
			r = t
			break
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = subst(a, f, memo)
			if na[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
			break
		}
		switch t.kind {
		case KApp:
			if t.op == "==" {
				r = Eq(na[0], na[1])
			} else if t.op == "<" {
				r = linLess(na[0], na[1])
				if na[0] == na[1] {
					r = ConstB(false)
				} else if na[0].kind == KConst && na[1].kind == KConst {
					r = Less(na[0], na[1], nil)
				}
			} else if strings.HasPrefix(t.op, "lin:") {
				m, c := linOf(t)
				mm := map[*Term]int64{}
				for i, a := range t.args {
					mm[na[i]] += m[a]
				}
				r = mkLin(mm, c)
			} else {
				r = App(t.op, na...)
			}
		case KField:
			r = FieldOf(na[0], t.op, t.typ)
		case KIndex:
			r = IndexOf(na[0], na[1], t.typ)
		case KClos:
			r = ClosT(t.fn, na)
		case KTuple:
			r = Tuple(na...)
		case KStruct:
			r = StructT(t.typ, na)
		default:
			r = t
		}
	}
	memo[t] = r
	return r
}

// root is the base object an address term points into.
func (t *Term) root() *Term {
	for t.kind == KField || t.kind == KIndex {
		t = t.args[0]
	}
	return t
}
