package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// optionField: an enumerated option, its accepted values, and what they select.
type optionField struct {
	field  string
	consts []string // names of the constants a user can select; empty: a switch
	// refs: under exactly these values code referring to the function (or to
	// the call of it with the given constant argument) can run
	refs []optionRef
}

type optionRef struct {
	// "F": the function is handed on as a value, "call F", "go F": started as a
	// goroutine, "call F(3)": called with a constant argument; a leading "?":
	// must be possible with the values listed, may be with others
	fn   string
	when []string
}

var optionTable = []optionField{
	{"PickNodeUser", []string{"PICKNODE_TRADITIONAL", "PICKNODE_VISPLANE", "PICKNODE_VISPLANE_ADV", "PICKNODE_MAELSTROM", "PICKNODE_ZENLIKE"}, []optionRef{
		{"PickNode_traditional", []string{"PICKNODE_TRADITIONAL"}},
		{"PickNode_visplaneKillough", []string{"PICKNODE_VISPLANE"}},
		{"PickNode_visplaneVigilant", []string{"PICKNODE_VISPLANE_ADV"}},
		{"PickNode_maelstrom", []string{"PICKNODE_MAELSTROM"}},
		{"PickNode_ZennodeDepth", []string{"PICKNODE_ZENLIKE"}},
		{"CreateNodeForSingleSector", []string{"PICKNODE_VISPLANE_ADV"}},
		{"StkCreateNodeForSingleSector", []string{"PICKNODE_VISPLANE_ADV"}},
		{"VigilantSingleSectorDivisor", []string{"PICKNODE_VISPLANE_ADV"}},
	}},
	{"SecondaryPriority", []string{"SECONDARY_PRIORITY_SEGS", "SECONDARY_PRIORITY_SUBSECTORS", "SECONDARY_PRIORITY_BALANCE"}, []optionRef{
		{"minorIsBetter_Balanced", []string{"SECONDARY_PRIORITY_SEGS", "SECONDARY_PRIORITY_SUBSECTORS"}},
		{"minorIsBetter_Always", []string{"SECONDARY_PRIORITY_BALANCE"}},
	}},
	{"NodeType", []string{"NODETYPE_VANILLA", "NODETYPE_DEEP", "NODETYPE_ZDOOM_EXTENDED", "NODETYPE_ZDOOM_COMPRESSED", "NODETYPE_VANILLA_OR_DEEP", "NODETYPE_VANILLA_OR_ZEXTENDED", "NODETYPE_VANILLA_OR_ZCOMPRESSED", "NODETYPE_VANILLA_RELAXED"}, []optionRef{
		{"go NodesGenerator", []string{"NODETYPE_VANILLA", "NODETYPE_DEEP", "NODETYPE_VANILLA_OR_DEEP", "NODETYPE_VANILLA_OR_ZEXTENDED", "NODETYPE_VANILLA_OR_ZCOMPRESSED", "NODETYPE_VANILLA_RELAXED"}},
		{"go ZExt_NodesGenerator", []string{"NODETYPE_ZDOOM_EXTENDED", "NODETYPE_ZDOOM_COMPRESSED", "NODETYPE_VANILLA_OR_ZEXTENDED", "NODETYPE_VANILLA_OR_ZCOMPRESSED"}},
		{"call (*NodesWork).upgradeToDeep", []string{"NODETYPE_VANILLA_OR_DEEP"}},
		{"call VanillaOrZdoomFormat_Create", []string{"NODETYPE_VANILLA_OR_ZEXTENDED", "NODETYPE_VANILLA_OR_ZCOMPRESSED"}},
		{"call CreateZStream(true)", []string{"NODETYPE_ZDOOM_COMPRESSED", "NODETYPE_VANILLA_OR_ZCOMPRESSED"}},
		{"?call CreateZStream(false)", []string{"NODETYPE_ZDOOM_EXTENDED", "NODETYPE_VANILLA_OR_ZEXTENDED"}},
	}},
	{"MultiTreeMode", []string{"MULTITREE_NOTUSED", "MULTITREE_ROOT_ONLY"}, []optionRef{
		{"call MTPSentinel_MakeBestBSPTree", []string{"MULTITREE_ROOT_ONLY"}},
		{"call StkTestEntryPoint", []string{"MULTITREE_NOTUSED"}},
	}},
	{"SpecialRootMode", []string{"MROOT_ONESIDED", "MROOT_TWOSIDED", "MROOT_EVERY"}, []optionRef{
		{"call MTPSentinel_GetRootSegCandidates(1)", []string{"MROOT_ONESIDED"}},
		{"call MTPSentinel_GetRootSegCandidates(2)", []string{"MROOT_TWOSIDED"}},
		{"call MTPSentinel_GetRootSegCandidates(3)", []string{"MROOT_EVERY"}},
	}},
	{"Reject", []string{"REJECT_ZEROFILLED", "REJECT_NORMAL", "REJECT_DONTTOUCH"}, []optionRef{
		{"go RejectGenerator", []string{"REJECT_NORMAL"}},
	}},
	{"RejectSelfRefMode", []string{"REJ_SELFREF_TRIVIAL", "REJ_SELFREF_CHECK", "REJ_SELFREF_PEDANTIC", "REJ_SELFREF_IGNORE_ALWAYS"}, []optionRef{
		{"call (*RejectWork).traceSelfRefLines", []string{"REJ_SELFREF_TRIVIAL", "REJ_SELFREF_CHECK", "REJ_SELFREF_PEDANTIC"}},
		{"call (*FastRejectWork).traceSelfRefLines", []string{"REJ_SELFREF_TRIVIAL", "REJ_SELFREF_CHECK", "REJ_SELFREF_PEDANTIC"}},
		{"call (*SymmetricRejectWork).traceSelfRefLines", []string{"REJ_SELFREF_TRIVIAL", "REJ_SELFREF_CHECK", "REJ_SELFREF_PEDANTIC"}},
	}},
	{"BlockmapOffsetMode", []string{"BM_OFFSET_FIXED", "BM_OFFSET_THIRTYSIX", "BM_OFFSET_BRUTEFORCE", "BM_OFFSET_HEURISTIC"}, []optionRef{
		{"call BlockmapQueen", []string{"BM_OFFSET_THIRTYSIX", "BM_OFFSET_BRUTEFORCE", "BM_OFFSET_HEURISTIC"}},
	}},
	{"BlockmapSearchAbortion", []string{"BM_OFFSET_NOABORT", "BM_OFFSET_FITS_VANILLA", "BM_OFFSET_FITS_ANYPORT"}, []optionRef{
		{"call BlockmapHoleChaser", []string{"BM_OFFSET_FITS_VANILLA", "BM_OFFSET_FITS_ANYPORT"}},
	}},
	{"CullInvisibleSegs", []string{"CULL_SEGS_DONT", "CULL_SEGS_SLOPPY", "CULL_SEGS_PROPER"}, []optionRef{
		{"call (*Culler).addLineForSloppySegs", []string{"CULL_SEGS_SLOPPY"}},
		{"call (*Culler).SetMode(0)", []string{"CULL_SEGS_PROPER"}},
		{"call (*Culler).SetMode(1)", []string{"CULL_SEGS_SLOPPY"}},
	}},
	{"NodeDetailFriendliness", []string{"NODE_DETAIL_AUTO", "NODE_DETAIL_SUPPRESS", "NODE_DETAIL_ALWAYS", "NODE_DETAIL_HEURISTIC"}, []optionRef{
		{"doLinesIntersectDetail", []string{"NODE_DETAIL_AUTO", "NODE_DETAIL_ALWAYS", "NODE_DETAIL_HEURISTIC"}},
		{"call IsTooDetailed", []string{"NODE_DETAIL_AUTO", "NODE_DETAIL_HEURISTIC"}},
	}},
	{"CacheSideness", []string{"CACHE_SIDENESS_AUTO", "CACHE_SIDENESS_NEVER", "CACHE_SIDENESS_ALWAYS"}, []optionRef{
		{"call (*NodesWork).buildSidenessCache", []string{"CACHE_SIDENESS_AUTO", "CACHE_SIDENESS_ALWAYS"}},
	}},
	{"PenalizeDiagonality", []string{"PENALIZE_DIAGONALITY_HEXEN", "PENALIZE_DIAGONALITY_ALWAYS", "PENALIZE_DIAGONALITY_NEVER"}, nil},
}

// optionSwitches: two-valued options
var optionSwitches = []string{"RebuildNodes", "RebuildBlockmap", "UseZeroHeader", "ZeroHeaderIsZero", "SubsetCompressBlockmap", "AggressiveSubsets", "RemoveNonCollideable",
	"UseGraphsForLOS", "UseRMB", "StraightNodes", "Deterministic", "StkNode", "SpeedTree", "Eject", "HashLumps", "Ableist", "NoSymm", "DisableUDMF", "PenalizeSectorSplits", "DepthArtifacts", "FilterProhibitsLevels", "Profile", "MemProfile"}

var switchSelects = map[string][]optionRef{
	"RebuildNodes":         {{"go NodesGenerator", []string{"on"}}, {"go ZExt_NodesGenerator", []string{"on"}}},
	"RebuildBlockmap":      {{"go BlockmapGenerator", []string{"on"}}},
	"UseRMB":               {{"call (*FileControl).OpenRMBOptionsFile", []string{"on"}}},
	"UseGraphsForLOS":      {{"call (*RejectWork).InitializeGraphs", []string{"on"}}, {"call (*FastRejectWork).InitializeGraphs", []string{"on"}}, {"call (*SymmetricRejectWork).InitializeGraphs", []string{"on"}}},
	"RemoveNonCollideable": {{"call RemoveLinesFromBlockmap", []string{"on"}}},
	"UseZeroHeader":        {{"call FindEligibleAsZero", []string{"on"}}},
	"ZeroHeaderIsZero":     {{"call FindEligibleAsZero", []string{"off"}}},
	"HashLumps":            {{"call Hash", []string{"on"}}},
	"SpeedTree":            {{"go MTPWorker_GenerateBSPTrees", []string{"off"}}, {"go MTPWorker_SpeedGenerateBSPTrees", []string{"on"}}},
	"StkNode":              {{"call StkTestEntryPoint", []string{"on"}}},
	"StraightNodes":        {{"call (*NodesWork).convertNodesStraight", []string{"on"}}, {"call (*NodesWork).convertDeepNodesStraight", []string{"on"}}},
	"NoSymm":               {{"call (*RMBFrame).CompatibleWithSymmetry", []string{"off"}}},
}

// mustBeSet: fields of the configuration stored on every path of the command
// line parser to a successful return; earlier stores do not matter.
func mustBeSet(fn *ssa.Function, holder string) map[string]bool {
	fields := map[string]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || namedName(fa.X.Type()) != holder {
				continue
			}
			c, _ := addrClass(fa)
			if fields[c] == nil {
				fields[c] = map[*ssa.BasicBlock]bool{}
			}
			fields[c][b] = true
		}
	}
	r := map[string]bool{}
	for c, at := range fields {
		seen := map[*ssa.BasicBlock]bool{}
		open := false
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] || at[b] {
				return
			}
			seen[b] = true
			for _, in := range b.Instrs {
				if ca, ok := in.(*ssa.Call); ok {
					if f := ca.Call.StaticCallee(); f != nil && (libNoReturn(f) || f.Name() == "Panic") {
						return
					}
				}
			}
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) > 0 {
					if k, ok := ret.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
						return
					}
				}
				open = true
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(fn.Blocks[0])
		if !open {
			r[c] = true
		}
	}
	return r
}

func optionParsers(p *Prog) (top *ssa.Function, all []*ssa.Function) {
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() != nil && namedName(fn.Signature.Recv().Type()) == "ProgramConfig" {
			all = append(all, fn)
			if fn.Name() == "FromCommandLine" {
				top = fn
			}
		}
	}
	return
}

type optionRun struct {
	name string
	run  *cpRun
	sig  map[string]bool
	refs map[string]bool
}

func ruleOptions(c *Ctx) {
	p := c.P
	const rule = "options"
	c.Rule("conditional constant propagation over the whole program, once per accepted value of each option: no value may run into an abort decided by that value; different values must enable different code; the code selected for a value must be the one documented for it")
	top, _ := optionParsers(p)
	if top == nil || p.Func("main") == nil {
		c.Undecided(rule, "command line parser or main not found")
		return
	}
	x := p.cpIdx()
	derived := mustBeSet(top, "ProgramConfig")
	var roots []*ssa.Function
	roots = append(roots, p.Func("main"))
	if f := p.Func("init"); f != nil {
		roots = append(roots, f)
	}
	skip := func(s *ssa.Store) bool {
		return derived[x.cls[s]] && s.Parent() != top
	}
	base := x.run(nil, nil, skip, roots)
	if !base.reach[p.Func("main").Blocks[0]] || len(base.reach) < 1000 {
		c.Undecided(rule, fmt.Sprintf("only %d blocks reachable from main", len(base.reach)))
		return
	}
	c.Count("options: blocks reachable", len(base.reach))
	type job struct {
		o    *optionField
		name string
		val  *aval
		out  *optionRun
	}
	var jobs []*job
	cfg := p.Named("ProgramConfig")
	for i := range optionTable {
		o := &optionTable[i]
		if fieldIndex(cfg, o.field) < 0 {
			c.Undecided(rule, "option field "+o.field+" not found")
			continue
		}
		for _, k := range o.consts {
			n, ok := p.ConstInt(k)
			if !ok {
				c.Undecided(rule, "constant "+k+" not found")
				continue
			}
			jobs = append(jobs, &job{o: o, name: k, val: avInt(n)})
		}
	}
	for _, s := range optionSwitches {
		if fieldIndex(cfg, s) < 0 {
			c.Undecided(rule, "option field "+s+" not found")
			continue
		}
		o := &optionField{field: s, refs: switchSelects[s]}
		jobs = append(jobs, &job{o: o, name: "off", val: avBool(false)}, &job{o: o, name: "on", val: avBool(true)})
	}
	_, baseRefs := optionSig(base)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j *job) {
			defer func() { <-sem; wg.Done() }()
			cls := "F:ProgramConfig." + j.o.field
			j.out = &optionRun{name: j.name, run: x.run(map[string]*aval{cls: j.val}, nil, skip, roots)}
			j.out.sig, j.out.refs = optionSig(j.out.run)
		}(j)
	}
	wg.Wait()
	by := map[string][]*job{}
	var order []string
	for _, j := range jobs {
		if by[j.o.field] == nil {
			order = append(order, j.o.field)
		}
		by[j.o.field] = append(by[j.o.field], j)
	}
	for _, f := range order {
		js := by[f]
		dep := x.dependents("F:ProgramConfig."+f, base.reach)
		c.Count("options: values computed from options", len(dep))
		for i, j := range js {
			c.Site("options: accepted values analysed", f+"="+j.name)
			for _, a := range optionAborts(p, base, j.out.run, dep) {
				c.Viol(rule, "abort:"+f+"="+j.name+":"+a.fn, a.pos, fmt.Sprintf("with option %s=%s the program runs into an abort of %s, decided by the option's value", f, j.name, a.fn))
			}
			for _, k := range js[:i] {
				if d := sigDiff(j.out.sig, k.out.sig); d == "" && !toldApart(j.out.run, k.out.run, j.val, k.val, dep) {
					c.Viol(rule, "same:"+f+"="+k.name+","+j.name, "config.go", fmt.Sprintf("option %s: values %s and %s enable exactly the same code: the choice has no effect", f, k.name, j.name))
				} else if debugEngine {
					fmt.Fprintln(os.Stderr, "differ", f, k.name, j.name, d)
				}
			}
		}
		if debugEngine {
			all := map[string][]string{}
			for _, j := range js {
				for k := range j.out.refs {
					all[k] = append(all[k], j.name)
				}
			}
			for _, k := range sortedKeys2(all) {
				if len(all[k]) < len(js) {
					fmt.Fprintln(os.Stderr, "ref", f, k, all[k])
				}
			}
		}
		for _, r := range js[0].o.refs {
			must := strings.HasPrefix(r.fn, "?")
			for _, pre := range []string{"", "ZExt_"} {
				if pre != "" && strings.HasPrefix(r.fn, "go ") {
					continue
				}
				name := refName(strings.TrimPrefix(r.fn, "?"), pre)
				if !baseRefs[name] {
					continue
				}
				c.Site("options: selections checked", f+" selects "+name)
				want := map[string]bool{}
				for _, w := range r.when {
					want[w] = true
				}
				for _, j := range js {
					if !must && j.out.refs[name] && !want[j.name] {
						c.Viol(rule, "selects:"+f+"="+j.name+":"+name, "?", fmt.Sprintf("option %s=%s can use %s, which implements %s", f, j.name, name, strings.Join(r.when, "/")))
					}
					if !j.out.refs[name] && want[j.name] {
						c.Viol(rule, "not selected:"+f+"="+j.name+":"+name, "?", fmt.Sprintf("option %s=%s never uses %s, which implements it", f, j.name, name))
					}
				}
			}
		}
	}
	c.Min(rule, "options: accepted values analysed", 80)
	c.Min(rule, "options: selections checked", 30)
}

func refName(n, pre string) string {
	if pre == "" {
		return n
	}
	if strings.HasPrefix(n, "call ") {
		return "call " + refName(n[5:], pre)
	}
	if strings.HasPrefix(n, "(*") {
		return "(*" + pre + n[2:]
	}
	return pre + n
}

// optionSig: what can run, and which functions are referred to from there.
func optionSig(r *cpRun) (sig, refs map[string]bool) {
	sig, refs = map[string]bool{}, map[string]bool{}
	note := func(v ssa.Value) {
		if f, ok := v.(*ssa.Function); ok {
			refs[FullName(f)] = true
		}
	}
	for e := range r.edges {
		sig[fmt.Sprintf("%s#%d-%d", FullName(e[0].Parent()), e[0].Index, e[1].Index)] = true
	}
	for b := range r.reach {
		sig[fmt.Sprintf("%s#%d", FullName(b.Parent()), b.Index)] = true
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					if r.edges[[2]*ssa.BasicBlock{b.Preds[i], b}] {
						note(e)
					}
				}
				continue
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				for _, op := range in.Operands(nil) {
					note(*op)
				}
				continue
			}
			for _, a := range ci.Common().Args {
				note(a)
			}
			if g, ok := in.(*ssa.Go); ok {
				for _, f := range r.x.callees[g] {
					refs["go "+FullName(f)] = true
				}
				continue
			}
			if f := ci.Common().StaticCallee(); f != nil {
				n := "call " + FullName(f)
				refs[n] = true
				for _, a := range ci.Common().Args {
					if !cpTyped(a.Type()) {
						continue
					}
					av := r.val(a)
					if av == nil || av.top {
						continue
					}
					for k := range av.m {
						if _, k, ok := strings.Cut(k, ":"); ok {
							refs[n+"("+k+")"] = true
						}
					}
				}
			}
			if r.dead[b] && r.x.noret[in] {
				break
			}
		}
	}
	return
}

func sigDiff(a, b map[string]bool) string {
	var r []string
	for k := range a {
		if !b[k] {
			r = append(r, "+"+k)
		}
	}
	for k := range b {
		if !a[k] {
			r = append(r, "-"+k)
		}
	}
	sort.Strings(r)
	if len(r) > 6 {
		r = r[:6]
	}
	return strings.Join(r, " ")
}

type abortAt struct{ fn, pos string }

// optionAborts: aborts that run because a branch on the option's value goes
// one way for this value only.
func optionAborts(p *Prog, base, r *cpRun, dep map[ssa.Value]bool) (out []abortAt) {
	for b := range r.reach {
		abort := false
		var at ssa.Instruction
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Panic); ok || r.x.noret[in] {
				abort, at = true, in
				break
			}
		}
		if !abort {
			continue
		}
		for _, pr := range b.Preds {
			if !r.edges[[2]*ssa.BasicBlock{pr, b}] {
				continue
			}
			iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok || !dep[iff.Cond] {
				continue
			}
			now, was := r.val(iff.Cond), base.val(iff.Cond)
			if now != nil && !now.top && len(now.m) == 1 && (was == nil || was.top || len(was.m) > 1) {
				out = append(out, abortAt{FullName(b.Parent()), p.InstrPos(at)})
			}
		}
	}
	return
}

// dependents: values computed from what is loaded from a class, along
// assignments, arithmetic, calls and fields.
func (x *cpIndex) dependents(cls string, reach map[*ssa.BasicBlock]bool) map[ssa.Value]bool {
	dep := map[ssa.Value]bool{}
	classes := map[string]bool{cls: true}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !dep[v] && v.Parent() != nil {
			dep[v] = true
			work = append(work, v)
		}
	}
	addClass := func(c string) {
		for _, in := range x.loads[c] {
			if reach[in.Block()] {
				add(in.(ssa.Value))
			}
		}
	}
	addClass(cls)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			switch u := ref.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Extract:
				add(u.(ssa.Value))
			case *ssa.UnOp:
				if u.Op != token.MUL {
					add(u)
				}
			case *ssa.If:
				for _, s := range u.Block().Succs {
					for _, in := range s.Instrs {
						if ph, ok := in.(*ssa.Phi); ok && ph.Block().Idom() == u.Block() {
							add(ph)
						}
					}
					for _, s2 := range s.Succs {
						if s2.Idom() == u.Block() {
							for _, in := range s2.Instrs {
								if ph, ok := in.(*ssa.Phi); ok {
									add(ph)
								}
							}
						}
					}
				}
			case *ssa.Store:
				if c := x.cls[u]; c != "" && u.Val == v && !classes[c] {
					classes[c] = true
					addClass(c)
				}
			case *ssa.Return:
				f := u.Parent()
				for i, r := range u.Results {
					if r != v {
						continue
					}
					for _, ci := range x.p.callers[f] {
						if ca, ok := ci.(*ssa.Call); ok {
							if len(u.Results) == 1 {
								add(ca)
							} else {
								for _, r2 := range *ca.Referrers() {
									if e, ok := r2.(*ssa.Extract); ok && e.Index == i {
										add(e)
									}
								}
							}
						}
					}
				}
			}
			if ci, ok := ref.(ssa.CallInstruction); ok {
				com := ci.Common()
				for _, f := range x.callees[ci] {
					args := com.Args
					if com.IsInvoke() {
						args = append([]ssa.Value{com.Value}, args...)
					}
					if f.Blocks == nil || len(args) != len(f.Params) || !directCallee(com, f) {
						continue
					}
					for i, a := range args {
						if a == v {
							add(f.Params[i])
						}
					}
				}
			}
		}
	}
	return dep
}

// toldApart: some comparison on a value that differs between the two runs by
// the option's value alone comes out differently.
func toldApart(a, b *cpRun, va, vb *aval, dep map[ssa.Value]bool) bool {
	for v := range dep {
		bo, ok := v.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, k := bo.X, bo.Y
		if _, ok := x.(*ssa.Const); ok {
			x, k = k, x
		}
		kc, ok := k.(*ssa.Const)
		if !ok || !dep[x] || !a.reach[bo.Block()] || !b.reach[bo.Block()] {
			continue
		}
		xa, xb := a.val(x), b.val(x)
		if xa == nil || xb == nil || xa.top || xb.top {
			continue
		}
		n, ok := constInt(kc.Value)
		if !ok {
			continue
		}
		for _, p := range avInts(va) {
			for _, q := range avInts(vb) {
				if !xa.has("i:"+fmt.Sprint(p)) || !xb.has("i:"+fmt.Sprint(q)) {
					continue
				}
				var ra, rb *aval
				if x == bo.X {
					ra, rb = foldInt(bo.Op, p, n, bo.Type()), foldInt(bo.Op, q, n, bo.Type())
				} else {
					ra, rb = foldInt(bo.Op, n, p, bo.Type()), foldInt(bo.Op, n, q, bo.Type())
				}
				if ra.String() != rb.String() {
					return true
				}
			}
		}
	}
	return false
}

func sortedKeys2(m map[string][]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
