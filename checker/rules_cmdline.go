package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// optionInputs: documented spellings and what each sets. Spelled exactly as
// on the command line; values are constants of the program.
var optionInputs = []string{
	"-b RebuildBlockmap=true", "-b- RebuildBlockmap=false",
	"-n RebuildNodes=true", "-n- RebuildNodes=false",
	"-r-  Reject=REJECT_DONTTOUCH",
	"-d Deterministic=true", "-d- Deterministic=false",
	"-bs SubsetCompressBlockmap=true", "-bs- SubsetCompressBlockmap=false",
	"-bs? BlockmapTryConditionally=BM_TRYCOND_PROPER_SUBSET_COMPRESSION ~SubsetCompressBlockmap",
	"-ba AggressiveSubsets=true SubsetCompressBlockmap=true", "-ba- AggressiveSubsets=false",
	"-ba? BlockmapTryConditionally=BM_TRYCOND_AGGRESSIVE_SUBSET_ELIMINATION ~AggressiveSubsets ~SubsetCompressBlockmap",
	"-bz=0 UseZeroHeader=false", "-bz=1 UseZeroHeader=true ZeroHeaderIsZero=false", "-bz=2 UseZeroHeader=true ZeroHeaderIsZero=true",
	"-bz+ UseZeroHeader=true ZeroHeaderIsZero=false", "-bz- UseZeroHeader=false",
	"-bt=3 BlockmapThreads=3", "-bt- BlockmapThreads=1", "-bt+ BlockmapThreads=0",
	"-be=0 BlockmapSearchAbortion=BM_OFFSET_NOABORT", "-be=1 BlockmapSearchAbortion=BM_OFFSET_FITS_VANILLA", "-be=2 BlockmapSearchAbortion=BM_OFFSET_FITS_ANYPORT",
	"-be+ BlockmapSearchAbortion=BM_OFFSET_FITS_VANILLA", "-be- BlockmapSearchAbortion=BM_OFFSET_NOABORT",
	"-bo=0 BlockmapOffsetMode=BM_OFFSET_FIXED BlockmapXOffset=0 BlockmapYOffset=0", "-bo=1 BlockmapOffsetMode=BM_OFFSET_FIXED BlockmapXOffset=8 BlockmapYOffset=8",
	"-bo=2 BlockmapOffsetMode=BM_OFFSET_THIRTYSIX", "-bo=3 BlockmapOffsetMode=BM_OFFSET_HEURISTIC", "-bo=4 BlockmapOffsetMode=BM_OFFSET_BRUTEFORCE",
	"-bo=5,7 BlockmapOffsetMode=BM_OFFSET_FIXED BlockmapXOffset=5 BlockmapYOffset=7",
	"-br RemoveNonCollideable=true", "-br- RemoveNonCollideable=false",
	"-na=0 PickNodeUser=PICKNODE_TRADITIONAL", "-na=1 PickNodeUser=PICKNODE_VISPLANE", "-na=2 PickNodeUser=PICKNODE_VISPLANE_ADV",
	"-na=3 PickNodeUser=PICKNODE_MAELSTROM", "-na=4 PickNodeUser=PICKNODE_ZENLIKE",
	"-np=0 SecondaryPriority=SECONDARY_PRIORITY_SEGS", "-np=1 SecondaryPriority=SECONDARY_PRIORITY_SUBSECTORS", "-np=2 SecondaryPriority=SECONDARY_PRIORITY_BALANCE",
	"-ni=0 CullInvisibleSegs=CULL_SEGS_DONT", "-ni=1 CullInvisibleSegs=CULL_SEGS_SLOPPY", "-ni=2 CullInvisibleSegs=CULL_SEGS_PROPER",
	"-ni CullInvisibleSegs=CULL_SEGS_PROPER", "-ni- CullInvisibleSegs=CULL_SEGS_DONT",
	"-nc=v NodeType=NODETYPE_VANILLA", "-nc=d NodeType=NODETYPE_DEEP", "-nc=x NodeType=NODETYPE_ZDOOM_EXTENDED", "-nc=z NodeType=NODETYPE_ZDOOM_COMPRESSED",
	"-nc=D NodeType=NODETYPE_VANILLA_OR_DEEP", "-nc=X NodeType=NODETYPE_VANILLA_OR_ZEXTENDED", "-nc=Z NodeType=NODETYPE_VANILLA_OR_ZCOMPRESSED", "-nc=V NodeType=NODETYPE_VANILLA_RELAXED",
	"-nc=z5 NodeType=NODETYPE_ZDOOM_COMPRESSED ZdoomCompression=5", "-nc=Z9 NodeType=NODETYPE_VANILLA_OR_ZCOMPRESSED ZdoomCompression=9",
	"-nf=7 PickNodeFactor=7",
	"-nd PenalizeDiagonality=PENALIZE_DIAGONALITY_ALWAYS", "-nd- PenalizeDiagonality=PENALIZE_DIAGONALITY_NEVER",
	"-nd=5 PenalizeDiagonality=PENALIZE_DIAGONALITY_ALWAYS DiagonalPenalty=5", "-nd=0 PenalizeDiagonality=PENALIZE_DIAGONALITY_NEVER DiagonalPenalty=0",
	"-nm=0 MultiTreeMode=MULTITREE_NOTUSED", "-nm=1 MultiTreeMode=MULTITREE_ROOT_ONLY SpecialRootMode=MROOT_ONESIDED",
	"-nm=2 MultiTreeMode=MULTITREE_ROOT_ONLY SpecialRootMode=MROOT_TWOSIDED", "-nm=3 MultiTreeMode=MULTITREE_ROOT_ONLY SpecialRootMode=MROOT_EVERY",
	"-nt=3 NodeThreads=3", "-nt- NodeThreads=1", "-nt+ NodeThreads=0",
	"-nw=3 TreeWidth=3", "-nr=4 TreeReach=4",
	"-rz Reject=REJECT_ZEROFILLED", "-rz- Reject=REJECT_NORMAL",
	"-rg UseGraphsForLOS=true", "-rg- UseGraphsForLOS=false", "-rm UseRMB=true", "-rm- UseRMB=false",
	"-rs=0 RejectSelfRefMode=REJ_SELFREF_TRIVIAL", "-rs=1 RejectSelfRefMode=REJ_SELFREF_CHECK", "-rs=2 RejectSelfRefMode=REJ_SELFREF_PEDANTIC", "-rs=3 RejectSelfRefMode=REJ_SELFREF_IGNORE_ALWAYS",
	"-rs RejectSelfRefMode=REJ_SELFREF_CHECK", "-rs- RejectSelfRefMode=REJ_SELFREF_TRIVIAL",
	"-m:MAP01 ", "-!m:MAP01 FilterProhibitsLevels=true",
	"--unreversenodes StraightNodes=true", "--disableudmf DisableUDMF=true", "--hashlump HashLumps=true", "--eject Eject=true", "--ableist Ableist=true", "--nosymm NoSymm=true",
	"--cpuprofile Profile=true", "--memprofile MemProfile=true",
	"--detailnodes=0 NodeDetailFriendliness=NODE_DETAIL_AUTO", "--detailnodes=1 NodeDetailFriendliness=NODE_DETAIL_SUPPRESS", "--detailnodes=2 NodeDetailFriendliness=NODE_DETAIL_ALWAYS", "--detailnodes=3 NodeDetailFriendliness=NODE_DETAIL_HEURISTIC",
	"--detailnodes+ NodeDetailFriendliness=NODE_DETAIL_ALWAYS", "--detailnodes- NodeDetailFriendliness=NODE_DETAIL_SUPPRESS",
	"--sidecache=0 CacheSideness=CACHE_SIDENESS_AUTO", "--sidecache=1 CacheSideness=CACHE_SIDENESS_NEVER", "--sidecache=2 CacheSideness=CACHE_SIDENESS_ALWAYS",
	"--sidecache+ CacheSideness=CACHE_SIDENESS_ALWAYS", "--sidecache- CacheSideness=CACHE_SIDENESS_NEVER",
	"--stknode+ StkNode=true", "--stknode- StkNode=false", "--stknode=0 StkNode=false", "--stknode=1 StkNode=true",
	"--speedtree+ SpeedTree=true SpeedTreeExplicit=true", "--speedtree- SpeedTree=false SpeedTreeExplicit=true",
	"--speedtree=0 SpeedTree=false SpeedTreeExplicit=true", "--speedtree=1 SpeedTree=true SpeedTreeExplicit=true",
	"--roots=5 Roots=5 RootsReadPending=false", "--roots+ RootsReadPending=true", "--roots- Roots=0 RootsReadPending=false",
}

// optionDerived: settled from other options once all arguments are read
var optionDerived = map[string]bool{"EffectiveSecondary": true, "MinorCmpUser": true, "PenalizeSectorSplits": true, "SpeedTree": true, "UseRMB": true, "Roots": true}

// optionPins: what is known about the values inside the parser when the
// argument is the given text.
type optionPins struct {
	p       *Prog
	top     *ssa.Function
	methods map[*ssa.Function]bool
	text    string
	long    bool
	letter  byte // the parameter letter after -b, -n, -r
	next    byte // the character after it
	on      bool
	second  *aval
	hits    map[string]bool
	mu      sync.Mutex
}

func constText(v ssa.Value) (string, bool) {
	for {
		switch u := v.(type) {
		case *ssa.Convert:
			v = u.X
			continue
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.Const:
			if u.Value != nil && u.Value.Kind() == constant.String {
				return constant.StringVal(u.Value), true
			}
		}
		return "", false
	}
}

// ownBytes: v is the function's byte slice parameter, or what the parser loop
// makes of it.
func ownBytes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Phi:
		for _, e := range u.Edges {
			if ownBytes(e, seen) {
				return true
			}
		}
	}
	return false
}

func byteAval(b byte) *aval { return avInt(int64(b)) }

func (o *optionPins) hit(k string) {
	o.mu.Lock()
	o.hits[k] = true
	o.mu.Unlock()
}

func (o *optionPins) equal(s string) bool {
	if s == o.text {
		return true
	}
	return !o.long && len(o.text) > 3 && strings.HasPrefix(s, "=") && strings.HasPrefix(o.text[3:], s)
}

func (o *optionPins) pin(v ssa.Value) *aval {
	f := v.Parent()
	if f == nil || !o.methods[f] {
		return nil
	}
	char := func(i int64) *aval {
		if i < int64(len(o.text)) {
			return byteAval(o.text[i])
		}
		return byteAval(0)
	}
	switch u := v.(type) {
	case *ssa.Lookup:
		if b, ok := u.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && f == o.top {
			if n, ok := constInt(constOf(u.Index)); ok {
				o.hit("arg")
				return char(n)
			}
		}
	case *ssa.Index:
		if b, ok := u.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && f == o.top {
			if n, ok := constInt(constOf(u.Index)); ok {
				o.hit("arg")
				return char(n)
			}
		}
	case *ssa.UnOp:
		if u.Op != token.MUL || f == o.top {
			return nil
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		if b, ok := u.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return nil
		}
		n, ok := constInt(constOf(ia.Index))
		if !ok {
			return nil
		}
		if ownBytes(ia.X, map[ssa.Value]bool{}) {
			if n == 0 {
				o.hit("letter")
				return byteAval(o.letter)
			}
			if n == 1 {
				return byteAval(o.next)
			}
			return nil
		}
		if n == 0 {
			if o.second != nil {
				return byteAval(',')
			}
			return byteAval(0)
		}
	case *ssa.Extract:
		ca, ok := u.Tuple.(*ssa.Call)
		if !ok {
			return nil
		}
		t := ca.Call.Signature().Results()
		isB := func(i int) bool {
			b, ok := t.At(i).Type().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Bool
		}
		switch {
		case t.Len() == 2 && isB(0) && u.Index == 0 && isBytes(t.At(1).Type()):
			o.hit("state")
			if f == o.top && o.letter != 0 {
				return avBool(true)
			}
			return avBool(o.on)
		case t.Len() == 3 && isB(0) && isBytes(t.At(2).Type()):
			if u.Index == 0 {
				return avBool(o.second != nil)
			}
			if u.Index == 1 && o.second != nil {
				return o.second
			}
		}
	case *ssa.Call:
		sc := u.Call.StaticCallee()
		if sc == nil || len(u.Call.Args) != 2 || sc.Pkg == nil {
			return nil
		}
		if pk := sc.Pkg.Pkg.Path(); pk != "bytes" && pk != "strings" {
			return nil
		}
		s, ok := constText(u.Call.Args[1])
		if !ok {
			s, ok = constText(u.Call.Args[0])
		}
		if !ok {
			return nil
		}
		switch sc.Name() {
		case "Equal":
			o.hit("text")
			return avBool(o.equal(s))
		case "HasPrefix":
			o.hit("text")
			return avBool(strings.HasPrefix(o.text, s))
		}
	case *ssa.BinOp:
		if u.Op != token.EQL && u.Op != token.NEQ {
			return nil
		}
		s, ok := constText(u.Y)
		if !ok {
			s, ok = constText(u.X)
		}
		if !ok || s == "" {
			return nil
		}
		o.hit("text")
		return avBool(o.equal(s) == (u.Op == token.EQL))
	}
	return nil
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func constOf(v ssa.Value) constant.Value {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		return k.Value
	}
	return nil
}

func ruleOptionParser(c *Ctx) {
	p := c.P
	const rule = "cmdline"
	c.Rule("conditional constant propagation through the command line parser, once per documented spelling of an option with what is known of the argument's characters: the reachable assignments to the configuration must be exactly those documented for it")
	top, all := optionParsers(p)
	if top == nil || p.Named("ProgramConfig") == nil || p.Named("NumericOrState") == nil {
		c.Undecided(rule, "command line parser not found")
		return
	}
	x := p.cpIdx()
	methods := map[*ssa.Function]bool{}
	for _, f := range all {
		methods[f] = true
	}
	for ch := true; ch; { // helpers handed the configuration
		ch = false
		for f := range methods {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ca, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := ca.Call.StaticCallee()
					if g == nil || !p.InRepo(g) || methods[g] {
						continue
					}
					for _, a := range ca.Call.Args {
						if namedName(a.Type()) == "ProgramConfig" {
							methods[g] = true
							ch = true
						}
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	roots = append(roots, top)
	if f := p.Func("init"); f != nil {
		roots = append(roots, f)
	}
	num, isNum := p.ConstInt("ARG_IS_NUMBER")
	en, ok1 := p.ConstInt("ARG_ENABLED")
	dis, ok2 := p.ConstInt("ARG_DISABLED")
	if !isNum || !ok1 || !ok2 {
		c.Undecided(rule, "argument kinds not found")
		return
	}
	kindC, valC := "F:NumericOrState.whichType", "F:NumericOrState.value"
	skip := func(s *ssa.Store) bool { return x.cls[s] == valC && !methods[s.Parent()] }
	type result struct {
		sets map[string]map[string]string // field → value → position
		pins *optionPins
	}
	analyse := func(text string) *result {
		o := &optionPins{p: p, top: top, methods: methods, text: text, long: strings.HasPrefix(text, "--"), on: true, hits: map[string]bool{}}
		pin := map[string]*aval{}
		noZero := map[string]bool{valC: true}
		rest := ""
		if o.long {
			if i := strings.IndexAny(text[2:], "+-="); i >= 0 {
				rest = text[2+i:]
			}
		} else if len(text) > 2 {
			if strings.IndexByte("bnr", text[1]) >= 0 && text[2] != '-' && text[2] != '+' {
				o.letter = text[2]
				if len(text) > 3 {
					o.next = text[3]
				}
				rest = text[3:]
			} else {
				rest = text[2:]
				if i := strings.IndexByte(text, ':'); i > 0 {
					o.letter = ':'
				}
			}
		}
		pin[kindC] = avInt(en)
		switch {
		case rest == "":
		case rest[0] == '-':
			pin[kindC] = avInt(dis)
			o.on = false
		case rest[0] == '=':
			pin[kindC] = avInt(num)
			a, b, two := strings.Cut(rest[1:], ",")
			if n, err := strconv.Atoi(a); err == nil {
				pin[valC] = avInt(int64(n))
			} else if len(a) > 1 {
				if n, err := strconv.Atoi(a[1:]); err == nil {
					o.second = avInt(int64(n))
				}
			}
			if two {
				n, _ := strconv.Atoi(b)
				o.second = avInt(int64(n))
			}
		}
		r := x.runNZ(pin, o.pin, skip, noZero, roots)
		res := &result{sets: map[string]map[string]string{}, pins: o}
		for b := range r.reach {
			if !methods[b.Parent()] {
				continue
			}
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				cl := x.cls[s]
				if !strings.HasPrefix(cl, "F:ProgramConfig.") || r.overwritten(s) {
					continue
				}
				f := strings.TrimPrefix(cl, "F:ProgramConfig.")
				if res.sets[f] == nil {
					res.sets[f] = map[string]string{}
				}
				a := r.val(s.Val)
				switch {
				case a == nil:
				case a.top:
					res.sets[f]["?"] = p.InstrPos(s)
				default:
					for k := range a.m {
						if _, v, ok := strings.Cut(k, ":"); ok {
							res.sets[f][v] = p.InstrPos(s)
						}
					}
				}
			}
		}
		return res
	}
	results := make([]*result, len(optionInputs))
	var base *result
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := -1; i < len(optionInputs); i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			if i < 0 {
				base = analyse("-\x01")
				return
			}
			results[i] = analyse(strings.Fields(optionInputs[i])[0])
		}(i)
	}
	wg.Wait()
	for i, in := range optionInputs {
		w := strings.Fields(in)
		r := results[i]
		c.Site("cmdline: spellings analysed", w[0])
		if debugEngine {
			fmt.Fprintln(os.Stderr, "cmdline", in, r.sets)
		}
		want := map[string]string{}
		may := map[string]bool{}
		if strings.HasPrefix(w[0], "-b") && w[0] != "-b-" {
			want["RebuildBlockmap"] = "true"
		}
		if strings.HasPrefix(w[0], "-n") && w[0] != "-n-" {
			want["RebuildNodes"] = "true"
		}
		for _, a := range w[1:] {
			if a[0] == '~' { // only told apart by the length of the argument
				may[a[1:]] = true
				continue
			}
			f, v, _ := strings.Cut(a, "=")
			if n, ok := p.ConstInt(v); ok {
				v = fmt.Sprint(n)
			} else if _, err := strconv.Atoi(v); err != nil && v != "true" && v != "false" {
				c.Undecided(rule, "constant "+v+" not found")
			}
			want[f] = v
		}
		var fs []string
		for f := range r.sets {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for f, v := range want {
			got := r.sets[f]
			_, has := got[v]
			_, any := got["?"]
			if !has && !any {
				c.Viol(rule, w[0]+":"+f, p.Pos(top.Pos()), fmt.Sprintf("%s must set %s to %s, but that assignment cannot be reached with it (reachable values: %s)", w[0], f, v, strings.Join(keysOf(got), ",")))
			} else if has {
				c.Site("cmdline: assignments confirmed", w[0]+" "+f)
			}
		}
		for _, f := range fs {
			for v, pos := range r.sets[f] {
				if _, ok := base.sets[f][v]; ok || want[f] == v || (want[f] == "" && optionDerived[f]) {
					continue
				}
				if w0, ok := want[f]; ok {
					if v != "?" {
						c.Viol(rule, w[0]+":"+f+"="+v, pos, fmt.Sprintf("%s is documented to set %s to %s, but can set it to %s", w[0], f, w0, v))
					}
					continue
				}
				if may[f] || v == "?" && optionCounters[f] {
					continue
				}
				c.Viol(rule, w[0]+":"+f, pos, fmt.Sprintf("%s can also set %s (to %s), which it is not documented to change", w[0], f, v))
			}
		}
	}
	c.Min(rule, "cmdline: spellings analysed", 90)
	c.Min(rule, "cmdline: assignments confirmed", 70)
}

var optionCounters = map[string]bool{"VerbosityLevel": true}

func keysOf(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// overwritten: whatever way the function goes on from the store, the field is
// stored into again before anything looks at it.
func (r *cpRun) overwritten(s *ssa.Store) bool {
	cl := r.x.cls[s]
	seen := map[*ssa.BasicBlock]bool{}
	var from func(b *ssa.BasicBlock, k int) bool
	from = func(b *ssa.BasicBlock, k int) bool {
		for _, in := range b.Instrs[k:] {
			if q, ok := in.(*ssa.Store); ok && r.x.cls[q] == cl {
				return true
			}
			switch in.(type) {
			case *ssa.UnOp:
				if r.x.cls[in] == cl {
					return false
				}
			case *ssa.Return, *ssa.Panic, ssa.CallInstruction:
				return false
			}
		}
		n := 0
		for _, q := range b.Succs {
			if !r.edges[[2]*ssa.BasicBlock{b, q}] {
				continue
			}
			n++
			if seen[q] {
				continue
			}
			seen[q] = true
			if !from(q, 0) {
				return false
			}
		}
		return n > 0
	}
	for i, in := range s.Block().Instrs {
		if in == ssa.Instruction(s) {
			return from(s.Block(), i+1)
		}
	}
	return false
}
