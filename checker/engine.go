package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

type OutKind int

const (
	ORet OutKind = iota
	OPanic
	OExit
)

func (k OutKind) String() string { return []string{"return", "panic", "exit"}[k] }

// Out is one way a (possibly inlined) call can end.
type Out struct {
	Kind OutKind
	Res  *Term // result value, a KTuple for several results
	St   *State
	Site ssa.Instruction
}

type Trace struct {
	prev *Trace
	msg  string
}

type deferRec struct {
	call *ssa.Defer
	fns  []*ssa.Function
	fval *Term
	args []*Term
}

// State is the abstract state of one set of paths.
type State struct {
	mon    map[string]*Term // state of the rule's automaton
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	ver    map[string]*Term
	facts  map[*Term]bool
	defers []deferRec
	trace  *Trace
}

func NewState() *State {
	return &State{mon: map[string]*Term{}, env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, ver: map[string]*Term{}, facts: map[*Term]bool{}}
}

func (s *State) Clone() *State {
	n := &State{mon: make(map[string]*Term, len(s.mon)), env: make(map[ssa.Value]*Term, len(s.env)), mem: make(map[*Term]*Term, len(s.mem)),
		ver: make(map[string]*Term, len(s.ver)), facts: make(map[*Term]bool, len(s.facts)), trace: s.trace}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	return n
}

func (s *State) Note(msg string) { s.trace = &Trace{s.trace, msg} }

// M/SetM access string-valued monitor entries.
func (s *State) M(k string) string {
	if t := s.mon[k]; t != nil {
		if v, ok := t.Str(); ok {
			return v
		}
	}
	return ""
}
func (s *State) SetM(k, v string) {
	if v == "" {
		delete(s.mon, k)
	} else {
		s.mon[k] = ConstS(v)
	}
}

func (s *State) Path() string {
	var a []string
	for t := s.trace; t != nil; t = t.prev {
		a = append(a, t.msg)
		if len(a) > 14 {
			a = append(a, "...")
			break
		}
	}
	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
		a[i], a[j] = a[j], a[i]
	}
	return strings.Join(a, " -> ")
}

type Frame struct {
	ctx    string
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	loopy  bool
	li     *LoopInfo
	depth  int
	future []map[string]bool // classes that may be loaded after return
	held   map[*Term]bool    // subterms of the callers' live values
}

func (fr *Frame) heldOuter(t *Term) bool { return fr.held != nil && fr.held[t] }

func addSub(m map[*Term]bool, t *Term) {
	if t == nil || m[t] {
		return
	}
	m[t] = true
	for _, a := range t.args {
		addSub(m, a)
	}
}

// Rule parameterises the engine.
type Rule struct {
	Name string
	// Eventful: the instruction is an event by itself (decides what is inlined)
	Eventful func(fn *ssa.Function, in ssa.Instruction) bool
	// Call models a call; handled=false falls back to inlining/opaque call.
	Call func(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool)
	// Instr sees every other instruction before it is executed and may change st.mon.
	Instr func(e *Engine, fr *Frame, st *State, in ssa.Instruction)
	// Value overrides the value an instruction produces (nil: default).
	Value func(e *Engine, fr *Frame, st *State, v ssa.Value) *Term
	// NoInline forces a function to be opaque.
	NoInline func(fn *ssa.Function) bool
	// ForceInline forces a function to be inlined though it has no events.
	ForceInline func(fn *ssa.Function) bool
	// Recv models the value received from a channel (nil: unknown)
	Recv func(e *Engine, fr *Frame, st *State, in ssa.Instruction, ch *Term) *Term
	// Aborts: opaque calls that may panic/exit get that outcome too.
	Aborts bool
	// ConstField: fields/globals treated as immutable (never killed)
	Immutable func(cls string) bool
	// FactFilter: conditions worth remembering (nil: all)
	FactFilter func(t *Term) bool
	// Forget: classes whose contents do not matter: loads give unknown values
	Forget func(cls string) bool
	// DropPhi: variables whose value is not followed through joins
	DropPhi func(ph *ssa.Phi) bool
	// Phi gives a merged value a term of its own (nil: the value of the edge taken).
	Phi func(e *Engine, fr *Frame, st *State, ph *ssa.Phi) *Term
	// CoarseKill: states do not differ in which call or store changed memory
	CoarseKill bool
	// Branch: a condition was assumed on a path
	Branch func(e *Engine, fr *Frame, st *State)
	// JoinBools: states that differ in a boolean variable are not joined
	JoinBools bool
	// Stable: values of this form are kept across the iterations of a loop
	Stable func(t *Term) bool
	// KeepFact: facts about these classes are kept though never loaded again
	KeepFact func(cls string) bool
	// Keep: the contents of these classes are looked at by the rule
	Keep func(cls string) bool
	// Cap: states per block before joining
	Cap int
	// Split: monitor keys that must be equal for states to be joined (nil: all)
	LoadHook func(e *Engine, fr *Frame, st *State, loc *Term) *Term
}

type Engine struct {
	P        *Prog
	R        *Rule
	inl      map[*ssa.Function]bool
	mayPanic map[*ssa.Function]bool
	mayExit  map[*ssa.Function]bool
	Viol     []Finding
	violSeen map[string]bool
	Undec    []string
	steps    int
	MaxSteps int
	inlined  map[*ssa.Function]bool
	visited  map[ssa.Instruction]bool
	Events   map[string]int // label -> distinct sites
	evSites  map[string]map[string]bool
	future   map[*ssa.Function]map[*ssa.BasicBlock]map[string]bool
	loads    map[*ssa.Function]map[string]bool
	stack    []*ssa.Function
	Paths    int
}

// Finding is a reported violation.
type Finding struct {
	Rule string
	Key  string // rule + construct, position independent
	Pos  string
	Msg  string
}

func NewEngine(p *Prog, r *Rule) *Engine {
	e := &Engine{P: p, R: r, violSeen: map[string]bool{}, MaxSteps: 30_000_000, inlined: map[*ssa.Function]bool{}, visited: map[ssa.Instruction]bool{},
		Events: map[string]int{}, evSites: map[string]map[string]bool{}, future: map[*ssa.Function]map[*ssa.BasicBlock]map[string]bool{}, loads: map[*ssa.Function]map[string]bool{}}
	if r.Cap == 0 {
		r.Cap = 96
	}
	p.NoReturn()
	e.inl = p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool { return r.Eventful != nil && r.Eventful(fn, in) })
	if r.Aborts {
		e.mayPanic = p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool {
			if _, ok := in.(*ssa.Panic); ok {
				return true
			}
			return false
		})
		e.mayExit = p.Reach(false, func(fn *ssa.Function, in ssa.Instruction) bool {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, f := range p.Callees(c) {
					if libNoReturn(f) && FullName(f) != "runtime.Goexit" && !strings.HasPrefix(FullName(f), "log.Panic") && !strings.HasPrefix(FullName(f), "(*log.Logger).Panic") {
						return true
					}
				}
			}
			return false
		})
	}
	return e
}

func (e *Engine) Violate(key, pos, msg string) {
	if e.violSeen[key] {
		return
	}
	e.violSeen[key] = true
	e.Viol = append(e.Viol, Finding{Rule: e.R.Name, Key: key, Pos: pos, Msg: msg})
}

func (e *Engine) Undecided(msg string) {
	for _, m := range e.Undec {
		if m == msg {
			return
		}
	}
	e.Undec = append(e.Undec, msg)
}

// Ev records that an event of a kind was seen at a program point.
func (e *Engine) Ev(kind string, in ssa.Instruction) {
	m := e.evSites[kind]
	if m == nil {
		m = map[string]bool{}
		e.evSites[kind] = m
	}
	m[e.P.InstrPos(in)] = true
	e.Events[kind] = len(m)
}

// ---- future loads ------------------------------------------------------------

func (e *Engine) loadClasses(in ssa.Instruction, out map[string]bool, seen map[*ssa.Function]bool) {
	switch v := in.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			c, t := addrClass(v.X)
			if c != "" {
				out[c] = true
			}
			if isComposite(t) {
				typeClasses(t, out, 0)
			}
		}
	case ssa.CallInstruction:
		for _, f := range e.P.Callees(v) {
			if f.Blocks != nil && e.P.InRepo(f) && !seen[f] && e.wouldInline(f) {
				seen[f] = true
				for _, b := range f.Blocks {
					for _, i2 := range b.Instrs {
						e.loadClasses(i2, out, seen)
					}
				}
			}
		}
	}
}

func (e *Engine) futureOf(fn *ssa.Function, b *ssa.BasicBlock) map[string]bool {
	m := e.future[fn]
	if m == nil {
		m = map[*ssa.BasicBlock]map[string]bool{}
		e.future[fn] = m
		own := map[*ssa.BasicBlock]map[string]bool{}
		for _, x := range fn.Blocks {
			o := map[string]bool{}
			for _, in := range x.Instrs {
				e.loadClasses(in, o, map[*ssa.Function]bool{fn: true})
			}
			own[x] = o
		}
		li := e.P.Loop(fn)
		// deferred closures may load anything they load, at the end: covered because
		// Defer instructions are call instructions of some block; add to all
		dl := map[string]bool{}
		for _, x := range fn.Blocks {
			for _, in := range x.Instrs {
				if d, ok := in.(*ssa.Defer); ok {
					e.loadClasses(d, dl, map[*ssa.Function]bool{fn: true})
				}
			}
		}
		for _, x := range fn.Blocks {
			s := map[string]bool{}
			for k := range own[x] {
				s[k] = true
			}
			for y := range li.reach[x] {
				for k := range own[y] {
					s[k] = true
				}
			}
			for k := range dl {
				s[k] = true
			}
			m[x] = s
		}
	}
	return m[b]
}

// wouldInline: static part of the inlining decision.
func (e *Engine) wouldInline(f *ssa.Function) bool {
	if f.Blocks == nil || !e.P.InRepo(f) {
		return false
	}
	if e.R.NoInline != nil && e.R.NoInline(f) {
		return false
	}
	if e.inl[f] {
		return true
	}
	if e.R.ForceInline != nil && e.R.ForceInline(f) {
		return true
	}
	return e.smallHelper(f)
}

var smallMemo = map[*ssa.Function]int{}

// smallHelper: loop-free short function without events: inlined for precision,
// so that moving an expression into a helper changes nothing.
func (e *Engine) smallHelper(f *ssa.Function) bool {
	if r, ok := smallMemo[f]; ok {
		return r == 1
	}
	smallMemo[f] = 0
	n := 0
	li := e.P.Loop(f)
	for _, b := range f.Blocks {
		if li.inLoop[b] {
			return false
		}
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Select:
				return false
			}
		}
	}
	if n > 70 || len(f.Blocks) > 14 {
		return false
	}
	smallMemo[f] = 1
	return true
}

// ---- values ------------------------------------------------------------------

func (e *Engine) sym(fr *Frame, st *State, in ssa.Instruction, suf string) *Term {
	s := Sym(fr.ctx, fr.li.inum[in]+suf)
	s.site = in
	if fr.loopy || fr.li.inLoop[in.Block()] {
		e.stale(st, func(t *Term) bool { return t == s }, fr)
	}
	return s
}

// stale renames leaves that are about to be redefined.
func (e *Engine) stale(st *State, match func(*Term) bool, fr *Frame) {
	oldName := func(t *Term) *Term {
		if strings.HasSuffix(t.op, "~old") {
			g := Sym(t.ctx, strings.TrimSuffix(t.op, "~old")+"~gone")
			return g
		}
		if strings.HasSuffix(t.op, "~gone") {
			return t
		}
		return nil
	}
	// which leaves match (base or ~old)
	f := func(t *Term) *Term {
		if match(t) && !strings.HasSuffix(t.op, "~old") && !strings.HasSuffix(t.op, "~gone") {
			if t.kind == KAlloc {
				return AllocT(t.ctx, t.op+"~old", t.typ, t.esc)
			}
			o := Sym(t.ctx, t.op+"~old")
			o.site = t.site
			return o
		}
		if strings.HasSuffix(t.op, "~old") {
			base := strings.TrimSuffix(t.op, "~old")
			bt := TS.m["s"+t.ctx+"|"+base]
			if bt != nil && match(bt) {
				return oldName(t)
			}
		}
		return t
	}
	hit := func(t *Term) bool {
		if t == nil {
			return false
		}
		for _, l := range t.leafs {
			if f(l) != l {
				return true
			}
		}
		return false
	}
	memo := map[*Term]*Term{}
	for k, v := range st.env {
		if hit(v) {
			st.env[k] = subst(v, f, memo)
		}
	}
	for k, v := range st.mon {
		if hit(v) {
			st.mon[k] = subst(v, f, memo)
		}
	}
	for k, v := range st.ver {
		if hit(v) {
			st.ver[k] = subst(v, f, memo)
		}
	}
	var chg []*Term
	for k, v := range st.mem {
		if hit(k) || hit(v) {
			chg = append(chg, k)
		}
	}
	sort.Slice(chg, func(i, j int) bool { return chg[i].id < chg[j].id })
	type kv struct{ k, v *Term }
	var add []kv
	for _, k := range chg {
		v := st.mem[k]
		delete(st.mem, k)
		add = append(add, kv{subst(k, f, memo), subst(v, f, memo)})
	}
	for _, a := range add {
		if o, ok := st.mem[a.k]; ok && o != a.v {
			st.mem[a.k] = Sym("dup", strconv.Itoa(a.k.id))
			continue
		}
		st.mem[a.k] = a.v
	}
	for k, v := range st.facts {
		if hit(k) {
			delete(st.facts, k)
			nk := subst(k, f, memo)
			gone := false
			for _, l := range nk.leafs {
				if strings.HasSuffix(l.op, "~gone") {
					gone = true
				}
			}
			if !gone && nk.kind != KConst {
				st.facts[nk] = v
			}
		}
	}
	for i := range st.defers {
		for j, a := range st.defers[i].args {
			if hit(a) {
				na := append([]*Term(nil), st.defers[i].args...)
				na[j] = subst(a, f, memo)
				st.defers[i].args = na
			}
		}
	}
}

func (e *Engine) Eval(fr *Frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return ZeroOf(x.Type())
		}
		return Const(x.Value)
	case *ssa.Global:
		return GlobalT(x)
	case *ssa.Function:
		return FuncT(x)
	case *ssa.Builtin:
		return ConstS("builtin " + x.Name())
	}
	if t := st.env[v]; t != nil {
		return t
	}
	return Sym(fr.ctx, "v"+itoa(fr.li.num[v]))
}

func (e *Engine) locClass(loc *Term) string {
	switch loc.kind {
	case KField:
		return loc.op
	case KIndex:
		return "I:" + qualName(loc.typ)
	case KGlobal:
		return "G:" + loc.op
	case KAlloc:
		if loc.typ != nil && loc.esc {
			return "D:" + qualName(loc.typ)
		}
		return ""
	}
	if loc.typ != nil {
		return "D:" + qualName(loc.typ)
	}
	return "D:?"
}

func (e *Engine) verOf(st *State, cls string, typ types.Type) *Term {
	v := st.ver[cls]
	if v == nil {
		v = ConstI(0)
	}
	if strings.HasPrefix(cls, "D:") || e.P.AddrTaken()[cls] {
		if w := st.ver["D:"+qualName(typ)]; w != nil && w != v {
			v = Tuple(v, w)
		}
	}
	return v
}

// Load reads location loc of type typ.
func (e *Engine) Load(fr *Frame, st *State, loc *Term, typ types.Type) *Term {
	if e.R.Forget != nil && !isComposite(typ) {
		if c := e.locClass(loc); c != "" && e.R.Forget(c) {
			if e.R.LoadHook != nil {
				if v := e.R.LoadHook(e, fr, st, loc); v != nil {
					return v
				}
			}
			return App("forgot", loc)
		}
	}
	if v, ok := st.mem[loc]; ok {
		if isComposite(typ) {
			if s, ok := typ.Underlying().(*types.Struct); ok && e.hasSub(st, loc) {
				return e.loadStruct(fr, st, loc, typ, s)
			}
		}
		return v
	}
	if e.R.LoadHook != nil {
		if v := e.R.LoadHook(e, fr, st, loc); v != nil {
			return v
		}
	}
	// part of a location whose whole value is known
	if (loc.kind == KField || loc.kind == KIndex) && !isComposite(typ) || loc.kind == KField {
		if w := e.wholeOf(st, loc); w != nil {
			return w
		}
	}
	if s, ok := typ.Underlying().(*types.Struct); ok && s.NumFields() <= 40 {
		return e.loadStruct(fr, st, loc, typ, s)
	}
	cls := e.locClass(loc)
	if cls == "" || cls == "D:?" {
		cls = "D:" + qualName(typ)
	}
	return App("ld", loc, e.verOf(st, cls, typ))
}

func (e *Engine) hasSub(st *State, loc *Term) bool {
	for k := range st.mem {
		for b := k; b.kind == KField || b.kind == KIndex; {
			b = b.args[0]
			if b == loc {
				return true
			}
		}
	}
	return false
}

func (e *Engine) loadStruct(fr *Frame, st *State, loc *Term, typ types.Type, s *types.Struct) *Term {
	var a []*Term
	for i := 0; i < s.NumFields(); i++ {
		cls, ft := fieldClass(typ, i)
		a = append(a, e.Load(fr, st, FieldOf(loc, cls, ft), ft))
	}
	// re-assembling the fields of one struct value gives that value
	if len(a) > 0 && a[0].kind == KApp && a[0].op == "fld:0" {
		src := a[0].args[0]
		same := true
		for i, x := range a {
			if !(x.kind == KApp && x.op == "fld:"+itoa(i) && x.args[0] == src) {
				same = false
			}
		}
		if same {
			return src
		}
	}
	return StructT(typ, a)
}

// wholeOf finds loc's value from a whole-struct/array value stored at a base.
func (e *Engine) wholeOf(st *State, loc *Term) *Term {
	base := loc.args[0]
	var bv *Term
	if v, ok := st.mem[base]; ok {
		bv = v
	} else if base.kind == KField || base.kind == KIndex {
		bv = e.wholeOf(st, base)
	}
	if bv == nil {
		return nil
	}
	switch loc.kind {
	case KField:
		if bv.typ == nil && bv.kind != KSym && bv.kind != KApp {
			return nil
		}
		return projField(bv, loc)
	case KIndex:
		if bv.kind == KZero {
			return ZeroOf(loc.typ)
		}
	}
	return nil
}

func projField(bv, loc *Term) *Term {
	bt := bv.typ
	if bv.kind == KZero {
		return ZeroOf(loc.typ)
	}
	if bv.kind == KStruct {
		s := bt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if c, _ := fieldClass(bt, i); c == loc.op {
				return bv.args[i]
			}
		}
		// same struct reached under another name: match on field name
		nm := loc.op[strings.LastIndex(loc.op, ".")+1:]
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == nm {
				return bv.args[i]
			}
		}
		return nil
	}
	if (bv.kind == KSym || bv.kind == KApp) && loc.args[0].typ != nil {
		bt = loc.args[0].typ
		if s, ok := bt.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if c, _ := fieldClass(bt, i); c == loc.op {
					return App("fld:"+itoa(i), bv)
				}
			}
		}
	}
	return nil
}

// killSite names the change an instruction makes.
func (e *Engine) killSite(fr *Frame, st *State, in ssa.Instruction, pre string) *Term {
	t := Sym(fr.ctx, pre+fr.li.inum[in])
	if fr.loopy || fr.li.inLoop[in.Block()] {
		e.stale(st, func(x *Term) bool { return x == t }, fr)
	}
	return t
}

// Kill invalidates a class of locations.
func (e *Engine) Kill(fr *Frame, st *State, cls string, site *Term, except *Term) {
	e.kill(fr, st, cls, site, except, nil)
}

func (e *Engine) kill(fr *Frame, st *State, cls string, site *Term, except *Term, safe func(root *Term) bool) {
	if e.R.Immutable != nil && e.R.Immutable(cls) || e.R.Forget != nil && e.R.Forget(cls) {
		return
	}
	if e.R.CoarseKill {
		t := Sym("#", cls)
		e.stale(st, func(x *Term) bool { return x == t }, fr)
		site = t
	}
	var ks []*Term
	for k := range st.mem {
		ks = append(ks, k)
	}
	at := e.P.AddrTaken()
	for _, k := range ks {
		if except != nil && (k == except || provDistinct(k, except)) {
			continue
		}
		kc := e.locClass(k)
		if kc == "" || safe != nil && safe(k.root()) {
			continue
		}
		if kc == cls || k.typ != nil && "D:"+qualName(k.typ) == cls && (at[kc] || k.kind == KAlloc) {
			if isComposite(orInt(k.typ)) {
				continue
			}
			st.mem[k] = App("kill", site, k)
			continue
		}
		// whole struct values containing the field
		if k.typ != nil && strings.HasPrefix(cls, "F:"+qualName(k.typ)+".") {
			if s, ok := k.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					c, ft := fieldClass(k.typ, i)
					if c == cls {
						l := FieldOf(k, c, ft)
						if _, ok := st.mem[l]; !ok {
							st.mem[l] = App("kill", site, l)
						}
					}
				}
			}
		}
		if strings.HasPrefix(cls, "I:") && k.typ != nil {
			if a, ok := k.typ.Underlying().(*types.Array); ok && "I:"+qualName(a.Elem()) == cls {
				if k.kind == KAlloc {
					st.mem[k] = App("kill", site, k)
					continue
				}
				delete(st.mem, k)
			}
		}
	}
	st.ver[cls] = site
}

func orInt(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

func provDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	ra, rb := a.root(), b.root()
	if ra != rb {
		if ra.kind == KAlloc && rb.kind == KAlloc || ra.kind == KGlobal && rb.kind == KGlobal || ra.kind == KAlloc && rb.kind == KGlobal || ra.kind == KGlobal && rb.kind == KAlloc {
			return true
		}
		return false
	}
	// same root: compare paths
	pa, pb := addrPath(a), addrPath(b)
	for i := 0; i < len(pa) && i < len(pb); i++ {
		x, y := pa[i], pb[i]
		if x.kind != y.kind {
			return false
		}
		if x.kind == KField && x.op != y.op {
			return true
		}
		if x.kind == KIndex && x.args[1] != y.args[1] {
			_, ok1 := x.args[1].Int()
			_, ok2 := y.args[1].Int()
			return ok1 && ok2
		}
	}
	return false
}

func addrPath(a *Term) []*Term {
	var p []*Term
	for a.kind == KField || a.kind == KIndex {
		p = append(p, a)
		a = a.args[0]
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (e *Engine) Store(fr *Frame, st *State, in ssa.Instruction, loc, val *Term, typ types.Type) {
	if loc.typ == nil && loc.kind != KField && loc.kind != KIndex {
		// plain pointer of unknown origin: remember the pointee type
	}
	cls := e.locClass(loc)
	if cls == "D:?" {
		cls = "D:" + qualName(typ)
	}
	if cls != "" && e.R.Immutable != nil && e.R.Immutable(cls) {
		st.mem[loc] = val
		return
	}
	if cls != "" && e.R.Forget != nil && !isComposite(typ) && e.R.Forget(cls) {
		return
	}
	site := e.killSite(fr, st, in, "w")
	if isComposite(typ) {
		for k := range st.mem {
			for b := k; b.kind == KField || b.kind == KIndex; {
				b = b.args[0]
				if b == loc {
					delete(st.mem, k)
					break
				}
			}
		}
		if cls != "" && loc.root().kind != KAlloc {
			m := map[string]bool{}
			typeClasses(typ, m, 0)
			for _, c := range sortedKeys(m) {
				e.Kill(fr, st, c, site, loc)
			}
		}
	} else if cls != "" {
		e.Kill(fr, st, cls, site, loc)
		if loc.typ == nil || e.P.AddrTaken()[cls] {
			e.Kill(fr, st, "D:"+qualName(typ), site, loc)
		}
	}
	if s, ok := types.Unalias(typ).Underlying().(*types.Struct); ok && e.R.Forget != nil {
		e.storeFields(st, loc, val, typ, s)
		return
	}
	st.mem[loc] = val
}

// storeFields stores a struct field by field, as far as fields are followed.
func (e *Engine) storeFields(st *State, loc, val *Term, typ types.Type, s *types.Struct) {
	for i := 0; i < s.NumFields(); i++ {
		cls, ft := fieldClass(typ, i)
		if e.R.Forget(cls) && !isComposite(ft) {
			continue
		}
		l := FieldOf(loc, cls, ft)
		var v *Term
		switch val.kind {
		case KStruct:
			v = val.args[i]
		case KZero:
			v = ZeroOf(ft)
		default:
			v = App("fld:"+itoa(i), val)
		}
		if !isComposite(ft) && v.kind != KConst && v.kind != KNil && v.kind != KAlloc && v.kind != KZero && !v.IsNonNil() && !strings.HasPrefix(v.op, "at:") && !(e.R.Immutable != nil && e.R.Immutable(cls)) {
			v = App("at:"+cls, v)
		}
		st.mem[l] = v
	}
	st.mem[loc] = Sym("#", "struct")
}

// ---- facts -------------------------------------------------------------------

func (e *Engine) Truth(st *State, t *Term) int {
	if t.kind == KConst && t.val.Kind() == constant.Bool {
		if constant.BoolVal(t.val) {
			return 1
		}
		return 0
	}
	if t.kind != KApp {
		return factOf(st, t)
	}
	switch t.op {
	case "!":
		r := e.Truth(st, t.args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	case "==":
		if r := factOf(st, t); r >= 0 {
			return r
		}
		a, b := t.args[0], t.args[1]
		for i := 0; i < 2; i++ {
			if isConstish(b) {
				if v := eqConst(st, a); v != nil {
					x := Eq(v, b)
					if x.kind == KConst {
						return e.Truth(st, x)
					}
				}
				if bi, ok := b.Int(); ok {
					// a < c or c < a facts
					for f, v := range st.facts {
						if f.kind == KApp && f.op == "<" {
							if f.args[0] == a {
								if c, ok := f.args[1].Int(); ok && (v && bi >= c || !v && bi < c) {
									return 0
								}
							}
							if f.args[1] == a {
								if c, ok := f.args[0].Int(); ok && (v && bi <= c || !v && bi > c) {
									return 0
								}
							}
						}
					}
				}
			}
			a, b = b, a
		}
		// through equalities with constants of both sides
		if va, vb := eqConst(st, a), eqConst(st, b); va != nil && vb != nil {
			if x := Eq(va, vb); x.kind == KConst {
				return e.Truth(st, x)
			}
		}
		// strict order implies difference
		if st.facts[App("<", a, b)] || st.facts[App("<", b, a)] {
			return 0
		}
		return -1
	case "<":
		if r := factOf(st, t); r >= 0 {
			return r
		}
		a, b := t.args[0], t.args[1]
		if v := eqConst(st, a); v != nil {
			a = v
		}
		if v := eqConst(st, b); v != nil {
			b = v
		}
		if x := Less(a, b, nil); x.kind == KConst {
			return e.Truth(st, x)
		}
		if st.facts[App("<", t.args[1], t.args[0])] {
			return 0
		}
		// bounds
		if c, ok := b.Int(); ok {
			for f, v := range st.facts {
				if f.kind == KApp && f.op == "<" && f.args[0] == t.args[0] {
					if d, ok := f.args[1].Int(); ok {
						if v && d <= c {
							return 1
						}
						if !v && d >= c {
							return 0
						}
					}
				}
				if f.kind == KApp && f.op == "<" && f.args[1] == t.args[0] {
					if d, ok := f.args[0].Int(); ok {
						if v && d >= c-1 {
							return 0
						}
						if !v && d < c {
							return 1
						}
					}
				}
			}
		}
		if c, ok := a.Int(); ok {
			for f, v := range st.facts {
				if f.kind == KApp && f.op == "<" && f.args[1] == t.args[1] {
					if d, ok := f.args[0].Int(); ok {
						if v && d >= c {
							return 1
						}
						if !v && d <= c {
							return 0
						}
					}
				}
				if f.kind == KApp && f.op == "<" && f.args[0] == t.args[1] {
					if d, ok := f.args[1].Int(); ok {
						if v && d <= c+1 {
							return 0
						}
						if !v && d > c {
							return 1
						}
					}
				}
			}
		}
		return -1
	}
	return factOf(st, t)
}

func factOf(st *State, t *Term) int {
	if v, ok := st.facts[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	return -1
}

func isConstish(t *Term) bool { return t.kind == KConst || t.kind == KNil }

func eqConst(st *State, a *Term) *Term {
	if isConstish(a) {
		return a
	}
	for f, v := range st.facts {
		if v && f.kind == KApp && f.op == "==" {
			if f.args[0] == a && isConstish(f.args[1]) {
				return f.args[1]
			}
			if f.args[1] == a && isConstish(f.args[0]) {
				return f.args[0]
			}
		}
	}
	return nil
}

// Assume adds t=val; false if contradictory.
func (e *Engine) Assume(st *State, t *Term, val bool) bool {
	r := e.Truth(st, t)
	if r >= 0 {
		return (r == 1) == val
	}
	for t.kind == KApp && t.op == "!" {
		t = t.args[0]
		val = !val
	}
	if e.R.FactFilter != nil && !e.R.FactFilter(t) {
		return true
	}
	st.facts[t] = val
	if !val && t.kind == KApp && t.op == "<" {
		if w, ok := st.facts[App("<", t.args[1], t.args[0])]; ok && !w {
			if eq := Eq(t.args[0], t.args[1]); eq.kind == KApp && eq.op == "==" {
				st.facts[eq] = true
			}
		}
	}
	if val && t.kind == KApp && t.op == "==" {
		// inequalities with other constants are now implied
		for i := 0; i < 2; i++ {
			x, c := t.args[i], t.args[1-i]
			if !isConstish(c) {
				continue
			}
			for f, v := range st.facts {
				if !v && f != t && f.kind == KApp && f.op == "==" && (f.args[0] == x && isConstish(f.args[1]) || f.args[1] == x && isConstish(f.args[0])) {
					delete(st.facts, f)
				}
			}
		}
	}
	return true
}

// assumeAlways adds t as a fact, whatever facts the rule keeps.
func (e *Engine) assumeAlways(st *State, t *Term) { st.facts[t] = true }

// ProveEq decides a == b from the facts (linear integer terms, equalities).
func (e *Engine) ProveEq(st *State, a, b *Term) bool {
	if a == b || e.Truth(st, Eq(a, b)) == 1 {
		return true
	}
	m, c := linOf(BinTerm(token.SUB, a, b, types.Typ[types.Int], types.Typ[types.Int]))
	// constants
	for k, v := range m {
		if kc := eqConst(st, k); kc != nil && v != 0 {
			if i, ok := kc.Int(); ok {
				c += v * i
				m[k] = 0
			}
		}
		if v != 0 && k.kind == KApp && k.op == "len" && e.Truth(st, Eq(k.args[0], Nil())) == 1 {
			m[k] = 0
		}
	}
	zero := func(m map[*Term]int64, c int64) bool {
		for _, v := range m {
			if v != 0 {
				return false
			}
		}
		return c == 0
	}
	if zero(m, c) {
		return true
	}
	for f, v := range st.facts {
		if !v || f.kind != KApp || f.op != "==" {
			continue
		}
		fm, fc := linOf(BinTerm(token.SUB, f.args[0], f.args[1], types.Typ[types.Int], types.Typ[types.Int]))
		for k, w := range fm {
			if w == 0 || m[k] == 0 || m[k]%w != 0 {
				continue
			}
			q := m[k] / w
			n := map[*Term]int64{}
			for x, y := range m {
				n[x] = y
			}
			for x, y := range fm {
				n[x] -= q * y
			}
			if zero(n, c-q*fc) {
				return true
			}
		}
	}
	return false
}

// ---- state sets --------------------------------------------------------------

// stKey identifies a state up to (vanishingly unlikely) collisions; it does not
// depend on the order in which maps are walked.
type stKey [2]uint64

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func (k *stKey) add(tag, x, y uint64) {
	h := mix(tag*0x9e3779b97f4a7c15 + mix(x+0x632be59bd9b4e019)*3 + mix(y+0x8cb92ba72f3d8dd7)*7)
	k[0] += h
	k[1] += mix(h ^ 0xd6e8feb86659fd93)
}

var strIDs = map[string]uint64{}

func strID(s string) uint64 {
	n, ok := strIDs[s]
	if !ok {
		n = uint64(len(strIDs) + 1)
		strIDs[s] = n
	}
	return n
}

func (e *Engine) key(fr *Frame, st *State, withFacts bool) stKey {
	var k stKey
	for n, v := range st.mon {
		k.add(1, strID(n), uint64(v.id))
	}
	for n, v := range st.env {
		k.add(2, uint64(int64(fr.li.num[n])), uint64(v.id))
	}
	for n, v := range st.mem {
		k.add(3, uint64(n.id), uint64(v.id))
	}
	for n, v := range st.ver {
		k.add(4, strID(n), uint64(v.id))
	}
	for i, d := range st.defers {
		k.add(5, uint64(i), strID(fr.li.inum[d.call]))
		for j, a := range d.args {
			k.add(6, uint64(i*1000+j), uint64(a.id))
		}
	}
	if withFacts {
		f := factKey(st.facts)
		k.add(7, f[0], f[1])
	}
	return k
}

func factKey(facts map[*Term]bool) stKey {
	var k stKey
	for f, v := range facts {
		b := uint64(0)
		if v {
			b = 1
		}
		k.add(8, uint64(f.id), b)
	}
	return k
}

// stateSet keeps pending states with exact merging of complementary facts.
type stateSet struct {
	base  map[stKey]*bucket // key without facts
	order []*bucket
	n     int
}

type bucket struct {
	keys []stKey // of the facts
	sts  []*State
}

func (b *bucket) remove(i int) {
	b.keys = append(b.keys[:i:i], b.keys[i+1:]...)
	b.sts = append(b.sts[:i:i], b.sts[i+1:]...)
}

func newSet() *stateSet { return &stateSet{base: map[stKey]*bucket{}} }

func (s *stateSet) add(key stKey, st *State) bool {
	m := s.base[key]
	if m == nil {
		m = &bucket{}
		s.base[key] = m
		s.order = append(s.order, m)
	}
	for {
		fk := factKey(st.facts)
		for _, k := range m.keys {
			if k == fk {
				return false
			}
		}
		// subsumption by a weaker state
		for _, o := range m.sts {
			if len(o.facts) <= len(st.facts) && factSubset(o.facts, st.facts) {
				return false
			}
		}
		merged := false
		for i, o := range m.sts {
			if len(o.facts) == len(st.facts) {
				if d := oneDiff(o.facts, st.facts); d != nil {
					m.remove(i)
					s.n--
					n := st.Clone()
					delete(n.facts, d)
					st = n
					merged = true
					break
				}
			}
		}
		if merged {
			continue
		}
		for i := len(m.sts) - 1; i >= 0; i-- {
			if o := m.sts[i]; len(o.facts) > len(st.facts) && factSubset(st.facts, o.facts) {
				m.remove(i)
				s.n--
			}
		}
		m.keys = append(m.keys, fk)
		m.sts = append(m.sts, st)
		s.n++
		return true
	}
}

func factSubset(a, b map[*Term]bool) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func oneDiff(a, b map[*Term]bool) *Term {
	var d *Term
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return nil
		}
		if v != w {
			if d != nil {
				return nil
			}
			d = k
		}
	}
	return d
}

func (s *stateSet) all() []*State {
	var r []*State
	for _, b := range s.order {
		r = append(r, b.sts...)
	}
	return r
}

func (e *Engine) monKey(st *State) string {
	var ms []string
	for k, v := range st.mon {
		ms = append(ms, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ms)
	return strings.Join(ms, ";")
}

// boolKey: the boolean variables with known value.
func (e *Engine) boolKey(fr *Frame, st *State) string {
	var ms []string
	add := func(n int, v *Term) {
		if v.kind == KConst && v.val.Kind() == constant.Bool {
			ms = append(ms, strconv.Itoa(n)+":"+v.val.String())
		}
	}
	for k, v := range st.env {
		add(fr.li.num[k], v)
	}
	for k, v := range st.mem {
		add(-k.id, v)
	}
	sort.Strings(ms)
	return "|" + strings.Join(ms, ",")
}

// normalise replaces values the facts of a state decide by constants, so that
// joining does not lose what both states know about them.
func (e *Engine) normalise(st *State) {
	n := func(t *Term) *Term {
		if t.kind == KApp && t.op == "ld" && e.R.Immutable != nil && e.R.Immutable(e.locClass(t.args[0])) {
			return t // the same on all paths
		}
		if t.kind == KApp && (t.op == "!" || t.op == "==" || t.op == "<") || factOf(st, t) >= 0 {
			switch e.Truth(st, t) {
			case 1:
				return ConstB(true)
			case 0:
				return ConstB(false)
			}
		}
		return t
	}
	for k, v := range st.env {
		if w := n(v); w != v {
			st.env[k] = w
		}
	}
	for k, v := range st.mem {
		if w := n(v); w != v {
			st.mem[k] = w
		}
	}
}

// join over-approximates a and b (same monitor state).
func (e *Engine) join(fr *Frame, b *ssa.BasicBlock, x, y *State) *State {
	r := x.Clone()
	jn := func(what string) *Term { return Sym(fr.ctx, "j"+itoa(b.Index)+"."+what) }
	nn := func(st *State, t *Term) bool {
		return t.kind != KConst && t.IsNonNil() || factOf(st, Eq(t, Nil())) == 0
	}
	for k, v := range x.env {
		if w, ok := y.env[k]; !ok || w != v {
			r.env[k] = jn("e" + itoa(fr.li.num[k]))
			if ok && nn(x, v) && nn(y, w) {
				r.env[k] = App("nonnil", r.env[k])
			}
		}
	}
	val := func(st *State, k *Term) *Term {
		if v, ok := st.mem[k]; ok {
			return v
		}
		if k.kind == KField || k.kind == KIndex {
			return e.wholeOf(st, k)
		}
		return nil
	}
	joinLoc := func(k *Term) {
		v, w := val(x, k), val(y, k)
		if v == nil {
			v, w = w, v
		}
		switch {
		case w == nil:
			if rt := k.root(); rt.kind == KAlloc && (!rt.esc || (x.mem[rt] == nil) != (y.mem[rt] == nil)) {
				r.mem[k] = v // the other state has no such object
				return
			}
			delete(r.mem, k)
			if k.kind == KField || k.kind == KIndex {
				if e.wholeOf(r, k) != nil {
					r.mem[k] = jn("m" + itoa(k.id))
				}
			}
			if c := e.locClass(k); c != "" {
				r.ver[c] = jn("v" + c)
			}
		case v == w:
			r.mem[k] = v
		default:
			r.mem[k] = jn("m" + itoa(k.id) + "@" + e.locClass(k))
			if vx, vy := val(x, k), val(y, k); nn(x, vx) && nn(y, vy) {
				r.mem[k] = App("nonnil", r.mem[k])
			}
		}
	}
	locs := map[*Term]bool{}
	for k := range x.mem {
		locs[k] = true
	}
	for k := range y.mem {
		locs[k] = true
	}
	var ks []*Term
	for k := range locs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].depth < ks[j].depth || ks[i].depth == ks[j].depth && ks[i].id < ks[j].id
	})
	for _, k := range ks {
		joinLoc(k)
	}
	for c, v := range x.ver {
		if y.ver[c] != v {
			r.ver[c] = jn("v" + c)
		}
	}
	for c, v := range y.ver {
		if x.ver[c] != v {
			r.ver[c] = jn("v" + c)
		}
	}
	for f, v := range x.facts {
		if w, ok := y.facts[f]; !ok || w != v {
			delete(r.facts, f)
		}
	}
	// facts about rebuilt join symbols are void
	for f := range r.facts {
		for _, l := range f.leafs {
			if l.ctx == fr.ctx && strings.HasPrefix(l.op, "j"+itoa(b.Index)+".") {
				delete(r.facts, f)
				break
			}
		}
	}
	return r
}

// prune drops what can no longer influence anything.
func (e *Engine) prune(fr *Frame, b *ssa.BasicBlock, st *State) {
	live := fr.li.live[b]
	for k := range st.env {
		if !live[k] {
			delete(st.env, k)
		}
	}
	e.gc(fr, st, e.futureOf(fr.fn, b), nil)
}

func (e *Engine) wanted(fr *Frame, cls string, typ types.Type, own map[string]bool) bool {
	if cls == "" {
		return true
	}
	if e.R.KeepFact != nil && e.R.KeepFact(cls) || e.R.Keep != nil && e.R.Keep(cls) {
		return true
	}
	chk := func(m map[string]bool) bool {
		if m[cls] {
			return true
		}
		if typ != nil && m["D:"+qualName(typ)] {
			return true
		}
		return false
	}
	if own != nil && chk(own) {
		return true
	}
	for _, m := range fr.future {
		if chk(m) {
			return true
		}
	}
	return false
}

func (e *Engine) gc(fr *Frame, st *State, own map[string]bool, extra []*Term) {
	// classes
	for k := range st.mem {
		c := e.locClass(k)
		if c == "" || isComposite(orInt(k.typ)) {
			continue
		}
		if !e.wanted(fr, c, k.typ, own) {
			delete(st.mem, k)
		}
	}
	for c := range st.ver {
		if !e.wanted(fr, c, nil, own) {
			delete(st.ver, c)
		}
	}
	// reachability of leaves created in this frame or below
	mine := func(l *Term) bool { return l.ctx == fr.ctx || strings.HasPrefix(l.ctx, fr.ctx+"/") }
	reach := map[*Term]bool{}
	var work []*Term
	push := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leafs {
			if !reach[l] {
				reach[l] = true
				work = append(work, l)
			}
		}
	}
	for _, v := range st.env {
		push(v)
	}
	for _, v := range st.mon {
		push(v)
	}
	for _, v := range extra {
		push(v)
	}
	for _, v := range st.ver {
		push(v)
	}
	for _, d := range st.defers {
		push(d.fval)
		for _, a := range d.args {
			push(a)
		}
	}
	// memory reachable from live roots
	type ent struct{ k, v *Term }
	var es []ent
	for k, v := range st.mem {
		es = append(es, ent{k, v})
	}
	done := make([]bool, len(es))
	for ch := true; ch; {
		ch = false
		for i, x := range es {
			if done[i] {
				continue
			}
			r := x.k.root()
			ok := true
			for _, l := range x.k.leafs {
				if (l == r || r.kind != KAlloc) && mine(l) && !reach[l] {
					ok = false
				}
			}
			if r.kind == KAlloc && mine(r) && !reach[r] {
				ok = false
			}
			if ok {
				done[i] = true
				ch = true
				push(x.k)
				push(x.v)
			}
		}
	}
	for i, x := range es {
		if !done[i] {
			delete(st.mem, x.k)
		}
	}
	held := map[*Term]bool{}
	if len(st.facts) > 0 {
		for _, v := range st.env {
			addSub(held, v)
		}
		for _, v := range st.mem {
			addSub(held, v)
		}
		for _, v := range st.mon {
			addSub(held, v)
		}
		for _, v := range extra {
			addSub(held, v)
		}
	}
	for f := range st.facts {
		drop := false
		for _, l := range f.leafs {
			if mine(l) && !reach[l] {
				drop = true
				break
			}
		}
		if !drop {
			// facts purely about memory that will not be loaded again
			drop = !e.factWanted(fr, f, own, held)
		}
		if drop {
			delete(st.facts, f)
		}
	}
}

// factWanted: every "ld" in f may be loaded again, or f's ld terms are held live.
func (e *Engine) factWanted(fr *Frame, f *Term, own map[string]bool, held map[*Term]bool) bool {
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if !ok || t == nil {
			return
		}
		if t.kind == KApp && t.op == "ld" {
			loc := t.args[0]
			if e.R.KeepFact != nil && (loc.kind == KField || loc.kind == KGlobal) && e.R.KeepFact(loc.op) {
				return
			}
			if loc.kind == KField || loc.kind == KGlobal {
				c := e.locClass(loc)
				if !e.wanted(fr, c, loc.typ, own) && !held[t] && !fr.heldOuter(t) {
					ok = false
					return
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(f)
	return ok
}

var debugEngine bool

// dumpWide explains why a block has many states (debugging aid).
func (e *Engine) dumpWide(fr *Frame, b *ssa.BasicBlock, sts []*State) {
	mons := map[string]int{}
	vary := map[string]map[string]bool{}
	add := func(k, v string) {
		if vary[k] == nil {
			vary[k] = map[string]bool{}
		}
		vary[k][v] = true
	}
	for _, s := range sts {
		mons[e.monKey(s)]++
		for k, v := range s.mon {
			add("mon "+k, v.String())
		}
		for k, v := range s.env {
			add("env "+k.Name(), v.String())
		}
		for k, v := range s.mem {
			add("mem "+k.String(), v.String())
		}
		for k, v := range s.ver {
			add("ver "+k, v.String())
		}
		for k, v := range s.facts {
			add("fact "+k.String(), strconv.FormatBool(v))
		}
	}
	println("WIDE", FullName(fr.fn), "block", b.Index, b.Comment, "states", len(sts), "monitors", len(mons))
	var ks []string
	cnt := map[string]int{}
	for _, s := range sts {
		for k := range s.facts {
			cnt["fact "+k.String()]++
		}
		for k := range s.mem {
			cnt["mem "+k.String()]++
		}
		for k := range s.mon {
			cnt["mon "+k]++
		}
	}
	for k, m := range vary {
		if len(m) > 1 || cnt[k] > 0 && cnt[k] < len(sts) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := sortedKeys(vary[k])
		if len(v) > 6 {
			v = append(v[:6], "...")
		}
		j := strings.Join(v, " | ")
		if len(j) > 300 {
			j = j[:300]
		}
		println("   ", k, len(vary[k]), cnt[k], ":", j)
	}
}
