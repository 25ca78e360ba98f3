package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program of /repo in SSA form together with indexes
// the rules use. It is rebuilt from the current working tree on every run.
type Prog struct {
	Repo  string
	Notes []string // what normalisation did
	Fset  *token.FileSet
	Pkg   *packages.Package
	SSA   *ssa.Program
	Main  *ssa.Package
	Funcs []*ssa.Function // every function with a body defined in the root package, incl. closures, instances
	CG    *callgraph.Graph

	callees map[ssa.CallInstruction][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction

	noret    map[*ssa.Function]bool
	mod      map[*ssa.Function]*ModSet
	nnDepth  int
	addrTake map[string]bool
	loops    map[*ssa.Function]*LoopInfo
}

func Load(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedDeps | packages.NeedModule,
		Dir:   repo,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one root package, got %d", len(pkgs))
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package error: %v", e)
		}
	}
	over, notes := normalise(pkgs[0], os.ReadFile)
	if len(over) > 0 {
		cfg.Overlay = over
		npkgs, err := packages.Load(cfg, ".")
		if err == nil && len(npkgs) == 1 && len(npkgs[0].Errors) == 0 {
			pkgs = npkgs
		} else {
			notes = append(notes, "the rewritten tree did not load, analysed as it is")
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Notes: notes, Repo: repo, Fset: pkgs[0].Fset, Pkg: pkgs[0], SSA: prog, Main: spkgs[0]}
	if p.Main == nil {
		return nil, fmt.Errorf("no SSA package")
	}
	all := ssautil.AllFunctions(prog)
	// AllFunctions only reaches what is reachable from package members; that is
	// all functions, methods of all named types and closures.
	for fn := range all {
		if fn.Blocks == nil {
			continue
		}
		if p.InRepo(fn) && !isGeneric(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	if len(p.Funcs) < 300 {
		return nil, fmt.Errorf("only %d functions found: load incomplete", len(p.Funcs))
	}
	p.CG = vta.CallGraph(all, cha.CallGraph(prog))
	p.index()
	return p, nil
}

// isGeneric: a function with type parameters; only its instances are code.
func isGeneric(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0
}

// InRepo reports whether fn's body is source of the root package.
func (p *Prog) InRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg == p.Main
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg() == p.Main.Pkg
	}
	return false
}

func (p *Prog) index() {
	p.callees = map[ssa.CallInstruction][]*ssa.Function{}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range p.Funcs {
		n := p.CG.Nodes[fn]
		dyn := map[ssa.CallInstruction][]*ssa.Function{}
		if n != nil {
			for _, e := range n.Out {
				if e.Site != nil {
					dyn[e.Site] = append(dyn[e.Site], e.Callee.Func)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var cs []*ssa.Function
				if sc := c.Common().StaticCallee(); sc != nil {
					cs = []*ssa.Function{sc}
				} else {
					cs = dyn[c]
					sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
				}
				p.callees[c] = cs
				for _, f := range cs {
					p.callers[f] = append(p.callers[f], c)
				}
				// values with methods handed to library code in an interface
				// (sort.Sort, heap.Init, io.Writer...) are called back by it
				if len(cs) == 0 || !p.InRepo(cs[0]) {
					for _, a := range c.Common().Args {
						mi, ok := a.(*ssa.MakeInterface)
						if !ok {
							continue
						}
						ms := p.SSA.MethodSets.MethodSet(mi.X.Type())
						for i := 0; i < ms.Len(); i++ {
							m := p.SSA.MethodValue(ms.At(i))
							if m == nil {
								continue
							}
							if u := unwrap(m); u != nil && p.InRepo(u) && u.Blocks != nil {
								p.callees[c] = append(p.callees[c], u)
								p.callers[u] = append(p.callers[u], c)
							}
						}
					}
					for _, a := range c.Common().Args {
						switch v := a.(type) {
						case *ssa.Function:
							p.callees[c] = append(p.callees[c], v)
						case *ssa.MakeClosure:
							p.callees[c] = append(p.callees[c], v.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
	}
}

// unwrap maps synthetic wrappers (bound methods, promoted methods) to the
// wrapped source function.
func unwrap(fn *ssa.Function) *ssa.Function {
	for fn != nil && fn.Synthetic != "" && fn.Object() != nil && fn.Origin() == nil {
		if o, ok := fn.Object().(*types.Func); ok {
			g := fn.Prog.FuncValue(o)
			if g == nil || g == fn {
				return fn
			}
			fn = g
			continue
		}
		break
	}
	return fn
}

func (p *Prog) Callees(c ssa.CallInstruction) []*ssa.Function { return p.callees[c] }

// Func finds a package-level function by name.
func (p *Prog) Func(name string) *ssa.Function { return p.Main.Func(name) }

// Method finds method name of named type typ (pointer or value receiver).
func (p *Prog) Method(typ, name string) *ssa.Function {
	for _, fn := range p.Funcs {
		if fn.Name() == name && fn.Signature.Recv() != nil && fn.Parent() == nil && namedName(fn.Signature.Recv().Type()) == typ && fn.Synthetic == "" {
			return fn
		}
	}
	return nil
}

func (p *Prog) Named(name string) *types.Named {
	o := p.Main.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Prog) ConstInt(name string) (int64, bool) {
	o := p.Main.Pkg.Scope().Lookup(name)
	c, ok := o.(*types.Const)
	if !ok {
		return 0, false
	}
	return constInt(c.Val())
}

func deref(t types.Type) types.Type {
	t = types.Unalias(t)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return types.Unalias(pt.Elem())
	}
	return t
}

// namedName is the bare name of the (pointed-to) named type, "" if unnamed.
func namedName(t types.Type) string {
	t = deref(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// qualName is like "os.File" for library types and "Level" for repo types.
var qualMemo = map[types.Type]string{}

func qualName(t types.Type) string {
	if s, ok := qualMemo[t]; ok {
		return s
	}
	s := qualName1(t)
	qualMemo[t] = s
	return s
}

func qualName1(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "main" {
			return ""
		}
		return p.Name()
	})
}

// FullName names a function as "os.OpenFile", "(*os.File).Close",
// "DoLevel" style: library functions with package, repo functions without.
func FullName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "command-line-arguments.", "")
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
		s = fn.RelString(fn.Pkg.Pkg)
	} else if fn.Parent() != nil {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg != nil {
			s = fn.RelString(top.Pkg.Pkg)
		}
	}
	return s
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// InstrPos is the best position for an instruction.
func (p *Prog) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	switch v := in.(type) {
	case *ssa.Store:
		if v.Addr.Pos().IsValid() {
			return p.Pos(v.Addr.Pos())
		}
	case *ssa.If:
		if v.Cond.Pos().IsValid() {
			return p.Pos(v.Cond.Pos())
		}
	}
	b := in.Block()
	if b != nil {
		for _, i2 := range b.Instrs {
			if i2.Pos().IsValid() {
				return p.Pos(i2.Pos())
			}
		}
		if b.Parent() != nil {
			return p.Pos(b.Parent().Pos()) + "(in " + b.Parent().Name() + ")"
		}
	}
	return "?"
}

func (p *Prog) EachInstr(f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}
