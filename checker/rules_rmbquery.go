package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Queries on the options of a frame, decided for every combination of option
// kinds in the map's own and the global frame. Commands are abstracted to
// their kind; a scan over the commands of a frame visits every kind the frame
// has, in any order and number.

type rmbModel struct {
	own, par map[int64]bool
	hasPar   bool
}

func (m rmbModel) of(f string) map[int64]bool {
	switch f {
	case "fr:own":
		return m.own
	case "fr:par":
		return m.par
	}
	return nil
}

func (m rmbModel) String() string { return fmt.Sprint(keysI(m.own), keysI(m.par), m.hasPar) }

func keysI(m map[int64]bool) []int64 {
	var r []int64
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

type rmbEval struct {
	p     *Prog
	m     rmbModel
	memo  map[string]map[string]bool
	busy  map[string]bool
	steps int
	makes map[*ssa.Global][]*ssa.Function
	// onInvoke is told of calls of interface methods on a known value
	onInvoke func(ci ssa.CallInstruction, recv string, st *rmbState)
	// for reachability: the functions in which a command of kind hitKind was
	// told apart
	apply   *rmbApply
	touch   map[*ssa.Function]bool
	hit     map[*ssa.Function]bool
	hitKind int64
	probe   func(in ssa.Instruction, st *rmbState)
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	heads   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type rmbState struct {
	b, prev *ssa.BasicBlock
	env     map[ssa.Value]string
	field   string // value last stored to the frame field of the input
	cur     string // kind of the command at hand
	curIdx  ssa.Value
	seen    map[string]bool // "header index:kind"
	notes   map[string]bool
}

func (s *rmbState) copy() *rmbState {
	n := &rmbState{b: s.b, prev: s.prev, env: map[ssa.Value]string{}, field: s.field, cur: s.cur, curIdx: s.curIdx, seen: map[string]bool{}, notes: map[string]bool{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k := range s.seen {
		n.seen[k] = true
	}
	for k := range s.notes {
		n.notes[k] = true
	}
	return n
}

func (s *rmbState) key() string {
	var r []string
	for k, v := range s.env {
		r = append(r, k.Name()+"="+v)
	}
	sort.Strings(r)
	pi := -1
	if s.prev != nil {
		pi = s.prev.Index
	}
	ci := ""
	if s.curIdx != nil {
		ci = s.curIdx.Name()
	}
	return fmt.Sprint(s.b.Index, pi, r, s.cur, ci, s.field, sortedKeys(s.seen), sortedKeys(s.notes))
}

// liveOf: the values still used from the start of each block on (those merged
// there included).
func (e *rmbEval) liveOf(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m, ok := e.live[fn]; ok {
		return m
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range x.Operands(nil) {
					if op == nil {
						continue
					}
					for v := *op; v != nil; {
						cur[v] = true
						if fa, ok := v.(*ssa.FieldAddr); ok {
							v = fa.X
							continue
						}
						break
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	e.live[fn] = in
	return in
}

// loopsOf: loop headers with the blocks of their loops.
func (e *rmbEval) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := e.heads[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, h := range fn.Blocks {
		for _, pr := range h.Preds {
			if !h.Dominates(pr) {
				continue
			}
			body := m[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				m[h] = body
			}
			work := []*ssa.BasicBlock{pr}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if body[b] {
					continue
				}
				body[b] = true
				work = append(work, b.Preds...)
			}
		}
	}
	e.heads[fn] = m
	return m
}

func (e *rmbEval) val(s *rmbState, v ssa.Value) string {
	if r, ok := s.env[v]; ok {
		return r
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if namedName(deref(x.Type())) == "RMBFrame" {
				return "fr:nil"
			}
			return ""
		}
		if x.Value.Kind() == constant.Bool {
			return fmt.Sprint("b:", constant.BoolVal(x.Value))
		}
		if n, ok := constInt(x.Value); ok {
			return fmt.Sprint("i:", n)
		}
		return ""
	case *ssa.ChangeType:
		return e.val(s, x.X)
	case *ssa.Convert:
		return e.val(s, x.X)
	case *ssa.MakeInterface:
		t := deref(x.X.Type())
		if n, ok := t.(*types.Named); ok {
			return "mk:" + n.Obj().Name()
		}
	case *ssa.Function:
		return "g:" + FullName(x)
	}
	if r, ok := readsField(v); ok {
		switch {
		case r.name == "Type" && r.st.Obj().Name() == "RMBCommand":
			return s.cur
		case r.name == "Parent" && r.st.Obj().Name() == "RMBFrame":
			switch e.val(s, r.base) {
			case "fr:own":
				if e.m.hasPar {
					return "fr:par"
				}
				return "fr:nil"
			case "fr:par":
				return "fr:nil"
			}
			return ""
		case r.name == "Commands" && r.st.Obj().Name() == "RMBFrame":
			if f := e.val(s, r.base); f == "fr:own" || f == "fr:par" {
				return "cmds:" + f
			}
			return ""
		}
		if namedName(deref(v.Type())) == "RMBFrame" {
			return s.field
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			if _, isF := g.Type().(*types.Pointer).Elem().Underlying().(*types.Signature); isF {
				return "G:" + g.Name()
			}
		}
	}
	return ""
}

func (e *rmbEval) bin(s *rmbState, x *ssa.BinOp) string {
	l, r := e.val(s, x.X), e.val(s, x.Y)
	op := x.Op
	tf := func(b bool) string { return fmt.Sprint("b:", b) }
	if strings.HasPrefix(r, "len:") {
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if strings.HasPrefix(l, "len:") {
		n := len(e.m.of(l[4:]))
		c, known := int64(0), false
		if strings.HasPrefix(r, "i:") {
			fmt.Sscan(r[2:], &c)
			known = true
		}
		if !known {
			// an index of a frame without commands
			if n == 0 && op == token.GTR {
				return ""
			}
			return ""
		}
		switch {
		case n == 0:
			switch op {
			case token.EQL:
				return tf(c == 0)
			case token.NEQ:
				return tf(c != 0)
			case token.GTR:
				return tf(0 > c)
			case token.GEQ:
				return tf(0 >= c)
			case token.LSS:
				return tf(0 < c)
			case token.LEQ:
				return tf(0 <= c)
			}
		case c <= 0 && (op == token.EQL || op == token.LEQ):
			return tf(false)
		case c <= 0 && (op == token.NEQ || op == token.GTR || op == token.GEQ):
			return tf(true)
		case c <= 1 && op == token.LSS:
			return tf(false)
		case c <= 1 && op == token.GEQ:
			return tf(true)
		}
		return ""
	}
	if l == "" || r == "" {
		return ""
	}
	if strings.HasPrefix(l, "i:") && strings.HasPrefix(r, "i:") {
		var a, b int64
		fmt.Sscan(l[2:], &a)
		fmt.Sscan(r[2:], &b)
		switch op {
		case token.EQL:
			return tf(a == b)
		case token.NEQ:
			return tf(a != b)
		case token.LSS:
			return tf(a < b)
		case token.LEQ:
			return tf(a <= b)
		case token.GTR:
			return tf(a > b)
		case token.GEQ:
			return tf(a >= b)
		case token.OR:
			return fmt.Sprint("i:", a|b)
		case token.AND:
			return fmt.Sprint("i:", a&b)
		}
		return ""
	}
	same := l[:2] == r[:2] && (l[:2] == "b:" || l[:2] == "fr")
	if same {
		switch op {
		case token.EQL:
			return tf(l == r)
		case token.NEQ:
			return tf(l != r)
		}
	}
	return ""
}

// results: what fn can return, as texts of its results joined by ','.
func (e *rmbEval) results(fn *ssa.Function, args []string, cur string, field string, depth int) map[string]bool {
	key := FullName(fn) + "(" + strings.Join(args, ",") + ")" + cur + field
	if r, ok := e.memo[key]; ok {
		return r
	}
	n := fn.Signature.Results().Len()
	unknown := map[string]bool{strings.Join(make([]string, n), ","): true}
	if e.busy[key] || depth > 14 {
		return unknown
	}
	e.busy[key] = true
	defer delete(e.busy, key)
	out := map[string]bool{}
	if !e.run(fn, args, cur, field, depth, out) {
		out = unknown
	}
	e.memo[key] = out
	return out
}

func (e *rmbEval) run(fn *ssa.Function, args []string, cur, field string, depth int, out map[string]bool) bool {
	st := &rmbState{b: fn.Blocks[0], env: map[ssa.Value]string{}, seen: map[string]bool{}, notes: map[string]bool{}, cur: cur, field: field}
	for i, pr := range fn.Params {
		if i < len(args) && args[i] != "" {
			st.env[pr] = args[i]
		}
	}
	heads := e.loopsOf(fn)
	visited := map[string]bool{}
	work := []*rmbState{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		live := e.liveOf(fn)[s.b]
		for v := range s.env {
			if !live[v] {
				delete(s.env, v)
			}
		}
		k := s.key()
		if visited[k] {
			continue
		}
		visited[k] = true
		if len(visited) > 20000 {
			return false
		}
		// entering a loop anew: nothing seen in it yet
		if body, ok := heads[s.b]; ok && (s.prev == nil || !body[s.prev]) {
			for x := range s.seen {
				if strings.HasPrefix(x, fmt.Sprint(s.b.Index, ":")) {
					delete(s.seen, x)
				}
			}
		}
		work = append(work, e.block(fn, s, depth, out)...)
	}
	return true
}

func (e *rmbEval) block(fn *ssa.Function, s *rmbState, depth int, out map[string]bool) []*rmbState {
	cur := []*rmbState{s}
	if e.hit != nil && s.cur == fmt.Sprint("i:", e.hitKind) {
		if e.apply.enabled[fn][e.apply.names[e.hitKind]][s.b] {
			e.hit[fn] = true
		}
	}
	// phis first, together
	if s.prev != nil {
		vals := map[*ssa.Phi]string{}
		for _, in := range s.b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range s.b.Preds {
				if pr == s.prev {
					vals[ph] = e.val(s, ph.Edges[i])
				}
			}
		}
		for ph, v := range vals {
			if ssa.Value(ph) == s.curIdx {
				s.cur, s.curIdx = "", nil
			}
			set(s.env, ph, v)
		}
	}
	for _, in := range s.b.Instrs {
		var next []*rmbState
		for _, st := range cur {
			next = append(next, e.instr(fn, st, in, depth, out)...)
		}
		cur = next
	}
	return cur
}

func set(env map[ssa.Value]string, v ssa.Value, x string) {
	if x == "" {
		delete(env, v)
	} else {
		env[v] = x
	}
}

func (e *rmbEval) instr(fn *ssa.Function, s *rmbState, in ssa.Instruction, depth int, out map[string]bool) []*rmbState {
	if v, ok := in.(ssa.Value); ok && v == s.curIdx {
		s.cur, s.curIdx = "", nil
	}
	one := []*rmbState{s}
	if e.probe != nil {
		e.probe(in, s)
	}
	switch x := in.(type) {
	case *ssa.Phi:
		return one
	case *ssa.BinOp:
		set(s.env, x, e.bin(s, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			switch e.val(s, x.X) {
			case "b:true":
				set(s.env, x, "b:false")
			case "b:false":
				set(s.env, x, "b:true")
			default:
				delete(s.env, x)
			}
		case token.MUL:
			delete(s.env, x)
			set(s.env, x, e.val(s, x))
		default:
			delete(s.env, x)
		}
	case *ssa.Field:
		delete(s.env, x)
		set(s.env, x, e.val(s, x))
	case *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface:
		v := in.(ssa.Value)
		delete(s.env, v)
		set(s.env, v, e.val(s, v))
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			set(s.env, x, e.val(s, x.X))
		}
	case *ssa.IndexAddr:
		c := e.val(s, x.X)
		if !strings.HasPrefix(c, "cmds:") {
			return one
		}
		if s.curIdx == x.Index && s.cur != "" {
			return one
		}
		kinds := keysI(e.m.of(c[5:]))
		var r []*rmbState
		for _, k := range kinds {
			n := s.copy()
			n.cur = fmt.Sprint("i:", k)
			n.curIdx = x.Index
			for h, body := range e.loopsOf(fn) {
				if body[x.Block()] && e.countedBy(h, body, x.Index) {
					n.seen[fmt.Sprint(h.Index, ":", c[5:], ":", k)] = true
				}
			}
			r = append(r, n)
		}
		return r
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		v := ""
		if strings.HasPrefix(t, "t:") {
			if p := strings.Split(t[2:], ","); x.Index < len(p) {
				v = p[x.Index]
			}
		}
		set(s.env, x, v)
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			if namedName(deref(x.Val.Type())) == "RMBFrame" && faName(fa) != "Parent" {
				s.field = e.val(s, x.Val)
			}
		}
	case *ssa.Call:
		return e.call(fn, s, x, depth)
	case *ssa.Return:
		var r []string
		for _, v := range x.Results {
			r = append(r, e.val(s, v))
		}
		out[strings.Join(r, ",")] = true
		return nil
	case *ssa.Panic:
		return nil
	case *ssa.Jump:
		s.prev, s.b = s.b, s.b.Succs[0]
		return one
	case *ssa.If:
		c := e.val(s, x.Cond)
		var r []*rmbState
		for i, to := range s.b.Succs {
			if c == "b:true" && i == 1 || c == "b:false" && i == 0 {
				continue
			}
			if body, ok := e.loopsOf(fn)[s.b]; ok && !body[to] && !e.allSeen(fn, s, body) {
				continue
			}
			n := s
			if len(s.b.Succs) > 1 {
				n = s.copy()
			}
			if c == "" {
				n.env[x.Cond] = fmt.Sprint("b:", i == 0)
			}
			n.prev, n.b = s.b, to
			r = append(r, n)
		}
		return r
	}
	return one
}

func faName(fa *ssa.FieldAddr) string {
	if r, ok := structField(fa.X, fa.Field); ok {
		return r.name
	}
	return ""
}

// countedBy: the index is the counter of the loop with header h.
func (e *rmbEval) countedBy(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, idx ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := idx.(type) {
		case *ssa.Convert:
			idx = x.X
			continue
		case *ssa.BinOp:
			if x.Block() == h {
				return true
			}
			if _, ok := x.X.(*ssa.Const); ok {
				idx = x.Y
			} else {
				idx = x.X
				if k, ok := idx.(*ssa.Call); ok && k.Block() != h {
					idx = x.Y
				}
			}
			continue
		case *ssa.Phi:
			return x.Block() == h
		}
		break
	}
	return false
}

// allSeen: a finished scan has met every kind of command there is.
func (e *rmbEval) allSeen(fn *ssa.Function, s *rmbState, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c := e.val(s, ia.X)
			if !strings.HasPrefix(c, "cmds:") || !e.countedBy(s.b, body, ia.Index) {
				continue
			}
			for k := range e.m.of(c[5:]) {
				if !s.seen[fmt.Sprint(s.b.Index, ":", c[5:], ":", k)] {
					return false
				}
			}
		}
	}
	return true
}

func (e *rmbEval) call(fn *ssa.Function, s *rmbState, x *ssa.Call, depth int) []*rmbState {
	com := x.Common()
	one := []*rmbState{s}
	delete(s.env, x)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			if c := e.val(s, com.Args[0]); strings.HasPrefix(c, "cmds:") {
				set(s.env, x, "len:"+c[5:])
			}
		}
		return one
	}
	if com.IsInvoke() {
		if e.onInvoke != nil {
			if r := e.val(s, com.Value); r != "" {
				e.onInvoke(x, r, s)
			}
		}
		return one
	}
	f := com.StaticCallee()
	if f == nil {
		// a maker of working tables, through a variable
		v := e.val(s, com.Value)
		if strings.HasPrefix(v, "G:") {
			for g, fs := range e.makes {
				if g.Name() == v[2:] && len(fs) == 1 {
					f = fs[0]
				}
			}
		} else if strings.HasPrefix(v, "g:") {
			for _, g := range e.p.Funcs {
				if "g:"+FullName(g) == v {
					f = g
				}
			}
		}
		if f == nil {
			return one
		}
	}
	if f.Blocks == nil || !e.p.InRepo(f) || isLogFn(f) || f.Signature.Results().Len() == 0 && !e.touch[f] {
		return one
	}
	var args []string
	useful := e.touch[f]
	for _, a := range com.Args {
		v := e.val(s, a)
		args = append(args, v)
		if strings.HasPrefix(v, "fr:") || v != "" && v == s.cur || namedName(deref(a.Type())) == "RMBCommand" {
			useful = true
		}
	}
	if len(com.Args) == 0 {
		useful = f.Signature.Results().Len() == 1 && types.IsInterface(f.Signature.Results().At(0).Type())
	}
	if f.Signature.Results().Len() == 1 && namedName(deref(f.Signature.Results().At(0).Type())) == "RMBFrame" {
		// a copy of a frame with the same options
		if len(args) > 0 && strings.HasPrefix(args[0], "fr:") {
			set(s.env, x, args[0])
			if e.touch[f] {
				e.results(f, args, "", s.field, depth+1)
			}
		}
		return one
	}
	if !useful {
		return one
	}
	cur := ""
	if s.cur != "" {
		for _, a := range com.Args {
			if namedName(deref(a.Type())) == "RMBCommand" {
				cur = s.cur
			}
		}
	}
	var r []*rmbState
	var res []string
	for t := range e.results(f, args, cur, s.field, depth+1) {
		res = append(res, t)
	}
	sort.Strings(res)
	nres := f.Signature.Results().Len()
	for _, t := range res {
		n := s.copy()
		if nres == 0 {
		} else if nres == 1 {
			set(n.env, x, t)
		} else {
			set(n.env, x, "t:"+t)
		}
		r = append(r, n)
	}
	return r
}

func newRMBEval(p *Prog) *rmbEval {
	e := &rmbEval{p: p, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, heads: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, makes: map[*ssa.Global][]*ssa.Function{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						v := st.Val
						if ct, ok := v.(*ssa.ChangeType); ok {
							v = ct.X
						}
						if f, ok := v.(*ssa.Function); ok {
							e.makes[g] = append(e.makes[g], f)
						}
					}
				}
			}
		}
	}
	return e
}

func (e *rmbEval) model(own, par []int64, hasPar bool) {
	e.m = rmbModel{own: map[int64]bool{}, par: map[int64]bool{}, hasPar: hasPar}
	for _, k := range own {
		e.m.own[k] = true
	}
	for _, k := range par {
		e.m.par[k] = true
	}
	e.memo = map[string]map[string]bool{}
	e.busy = map[string]bool{}
}

var rmbOneWay = []string{"BLIND", "SAFE", "SIMPLE_BLIND", "SIMPLE_SAFE", "INCLUDE", "EXCLUDE", "LEFT", "RIGHT", "ONE"}
var rmbGroupTricky = []string{"DISTANCE", "LINE"}

func ruleRMBSymmetry(c *Ctx) {
	p := c.P
	const rn = "rmb-symmetry"
	c.Rule("rmb-symmetry: the selection of the working table is followed abstractly for every combination of up to two kinds of options of the map and up to two global ones (options are reduced to their kind; scans meet every kind in any order): with an option that makes visibility one-way in effect, or NOPROCESS with any other option, the builder for symmetric tables is never the one run; with groups and an option that needs them taken together, only the general builder is")
	gen := p.Func("RejectGenerator")
	types := p.rmbTypes()
	if gen == nil || len(types) == 0 || len(gen.Params) == 0 {
		c.Viol(rn, "R02|anchors", "", "reject builder not found")
		return
	}
	var all []int64
	names := map[int64]string{}
	for n, k := range types {
		if names[k] == "" {
			all = append(all, k)
		}
		names[k] = n
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	oneWay := map[int64]bool{}
	for _, n := range rmbOneWay {
		k, ok := types[n]
		if !ok {
			c.Viol(rn, "R02|anchors", "", "option "+n+" not found")
			return
		}
		oneWay[k] = true
	}
	tricky := map[int64]bool{}
	for _, n := range rmbGroupTricky {
		tricky[types[n]] = true
	}
	nop := types["NOPROCESS"]
	e := newRMBEval(p)
	c.Site(FullName(gen), p.Pos(gen.Pos()))
	ran := map[string]bool{}
	say := func(ms []int64) string {
		var r []string
		for _, k := range ms {
			r = append(r, names[k])
		}
		return strings.Join(r, "+")
	}
	check := func(own, par []int64, hasPar bool) {
		e.model(own, par, hasPar)
		one, hasNop, other, trick := "", false, false, ""
		for _, k := range append(append([]int64{}, own...), par...) {
			if oneWay[k] {
				one = names[k]
			}
			if tricky[k] {
				trick = names[k]
			}
			if k == nop {
				hasNop = true
			} else {
				other = true
			}
		}
		used := false
		e.onInvoke = func(ci ssa.CallInstruction, recv string, s *rmbState) {
			used = true
			if !strings.HasPrefix(recv, "mk:") {
				return
			}
			t := recv[3:]
			ran[t] = true
			symm := strings.HasPrefix(t, "Symm")
			if symm && s.field != "fr:own" {
				c.Viol(rn, "R02|another frame is used", p.InstrPos(ci), "the options given to the symmetric builder are not those that were looked at")
			}
			where := "options [" + say(own) + "], global [" + say(par) + "]"
			if symm && one != "" {
				c.Viol(rn, "R02|symmetric builder with "+one, p.InstrPos(ci), "the symmetric builder can be run with option "+one+" in effect: "+where)
			}
			if symm && hasNop && other {
				c.Viol(rn, "R02|symmetric builder with NOPROCESS and other options", p.InstrPos(ci), "the symmetric builder can be run with a sourced reject and other options: "+where)
			}
			if t != "RejectWork" && trick != "" && e.grouped(s) {
				c.Viol(rn, "R02|groups with "+trick+" not in the general builder", p.InstrPos(ci), t+" can be run with groups and option "+trick+": "+where)
			}
		}
		out := map[string]bool{}
		if !e.run(gen, nil, "", "fr:own", 0, out) || !used {
			c.Viol(rn, "R02|selection not followed", p.Pos(gen.Pos()), "could not follow how the reject builder is selected")
		}
		c.Count(rn+": combinations of options", 1)
	}
	for i, a := range all {
		check([]int64{a}, nil, false)
		for _, b := range all[i+1:] {
			check([]int64{a, b}, nil, false)
			check(nil, []int64{a, b}, true)
		}
		check(nil, []int64{a}, true)
		for _, b := range all {
			check([]int64{a}, []int64{b}, true)
		}
	}
	for _, k := range all {
		check([]int64{k, nop}, []int64{nop}, true)
		check([]int64{nop}, []int64{nop, k}, true)
	}
	// one-way and tricky options among two others
	line, vortex := types["LINE"], types["VORTEX"]
	for _, k := range all {
		if !oneWay[k] && !tricky[k] && k != nop {
			continue
		}
		check([]int64{line, vortex, k}, nil, false)
		check([]int64{line, vortex}, []int64{k}, true)
		check([]int64{line}, []int64{vortex, k}, true)
		check([]int64{k}, []int64{line, vortex}, true)
		check([]int64{line, k, types["GROUP"]}, nil, false)
	}
	check(nil, nil, false)
	for t := range ran {
		c.Count(rn+": builder "+t+" selected", 1)
	}
	c.Min(rn, rn+": combinations of options", 1000)
}

// grouped: groups were found on the way to here.
func (e *rmbEval) grouped(s *rmbState) bool {
	for v, x := range s.env {
		ex, ok := v.(*ssa.Extract)
		if !ok || !isBool(ex.Type()) || x != "b:true" {
			continue
		}
		if call, ok := ex.Tuple.(*ssa.Call); ok {
			res := call.Common().Signature().Results()
			for i := 0; i < res.Len(); i++ {
				if sl, ok := res.At(i).Type().Underlying().(*types.Slice); ok && namedName(sl.Elem()) == "RejGroup" {
					return true
				}
			}
		}
	}
	return false
}
