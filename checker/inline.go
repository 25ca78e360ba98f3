package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Normalisation: functions that the reviewed tree did not have are helpers
// somebody extracted (or bugs hidden in one); their bodies are written into
// the places that call them before anything is analysed. The rewriting keeps
// behaviour, so that what was decided about the caller is decided about the
// same code whether or not it was moved into a helper.

//go:embed reviewed_funcs.txt
var reviewedFuncs string

func sigText(pkg *types.Package, f *types.Func) string {
	return types.TypeString(f.Type(), func(q *types.Package) string {
		if q == pkg {
			return ""
		}
		return q.Name()
	})
}

func funcKey(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return fd.Name.Name
	}
	t := fd.Recv.List[0].Type
	for {
		switch x := t.(type) {
		case *ast.StarExpr:
			t = x.X
			continue
		case *ast.ParenExpr:
			t = x.X
			continue
		case *ast.IndexExpr:
			t = x.X
			continue
		case *ast.Ident:
			return x.Name + "." + fd.Name.Name
		}
		return "?." + fd.Name.Name
	}
}

// listFuncs gives the content of reviewed_funcs.txt for the tree.
func listFuncs(pk *packages.Package) string {
	var ls []string
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
				ls = append(ls, funcKey(fd)+"\t"+sigText(pk.Types, o))
			}
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n") + "\n"
}

// src is one state of the package's source.
type src struct {
	fset  *token.FileSet
	names []string
	text  map[string][]byte
	files map[string]*ast.File
	info  *types.Info
	pkg   *types.Package
}

type pkgImporter map[string]*types.Package

func (m pkgImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s not loaded", path)
}

func checkSrc(path string, imp types.Importer, goVersion string, names []string, text map[string][]byte) (*src, error) {
	s := &src{fset: token.NewFileSet(), names: names, text: text, files: map[string]*ast.File{}}
	var fs []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(s.fset, n, text[n], parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		s.files[n] = f
		fs = append(fs, f)
	}
	s.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	cfg := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), GoVersion: goVersion}
	var err error
	s.pkg, err = cfg.Check(path, s.fset, fs, s.info)
	return s, err
}

// normalise returns what to load instead of the files on disk, or nil if the
// tree has no new functions. The second result says what was done.
func normalise(pk *packages.Package, read func(string) ([]byte, error)) (over map[string][]byte, notes []string) {
	defer func() {
		if r := recover(); r != nil {
			over, notes = nil, append(notes, fmt.Sprint("not normalised: ", r))
		}
	}()
	known := map[string]string{}
	for _, l := range strings.Split(reviewedFuncs, "\n") {
		if k, v, ok := strings.Cut(l, "\t"); ok {
			known[k] = v
		}
	}
	if len(known) == 0 {
		return nil, nil
	}
	have := map[string]bool{}
	fresh := map[string]string{}
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			k := funcKey(fd)
			have[k] = true
			if _, ok := known[k]; ok || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Name.Name == "_" {
				continue
			}
			if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
				fresh[k] = sigText(pk.Types, o)
			}
		}
	}
	// a reviewed function that is gone may have been renamed
	gone := map[string]int{}
	for k, sg := range known {
		if !have[k] {
			gone[sg]++
		}
	}
	var fk []string
	for k := range fresh {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		if gone[fresh[k]] > 0 {
			gone[fresh[k]]--
			delete(fresh, k)
			notes = append(notes, "taken for a renamed function: "+k)
		}
	}
	if len(fresh) == 0 {
		return nil, notes
	}
	imp := pkgImporter{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if imp[p.Path()] != nil {
			return
		}
		imp[p.Path()] = p
		for _, q := range p.Imports() {
			add(q)
		}
	}
	for _, p := range pk.Types.Imports() {
		add(p)
	}
	gv := ""
	if pk.Module != nil && pk.Module.GoVersion != "" {
		gv = "go" + pk.Module.GoVersion
	}
	text := map[string][]byte{}
	var names []string
	for _, n := range pk.CompiledGoFiles {
		b, err := read(n)
		if err != nil {
			return nil, append(notes, "not normalised: "+err.Error())
		}
		text[n] = b
		names = append(names, n)
	}
	cur, err := checkSrc(pk.PkgPath, imp, gv, names, text)
	if err != nil {
		return nil, append(notes, "not normalised: "+err.Error())
	}
	in := &inliner{fresh: fresh, skip: map[string]bool{}}
	done := 0
	for round := 0; round < 40; round++ {
		in.s = cur
		in.start()
		if len(in.edits) == 0 {
			break
		}
		next, err := checkSrc(pk.PkgPath, imp, gv, names, in.apply(in.edits))
		if err == nil {
			done += in.n
			cur = next
			continue
		}
		// one of the edits does not compile: try the helpers one by one
		ok := false
		for _, k := range in.used() {
			if in.skip[k] {
				continue
			}
			in.only = k
			in.s = cur
			in.start()
			if len(in.edits) > 0 {
				if next, err := checkSrc(pk.PkgPath, imp, gv, names, in.apply(in.edits)); err == nil {
					cur = next
					done += in.n
					ok = true
				} else {
					if d := os.Getenv("VB_NORM"); d != "" {
						for n, b := range in.apply(in.edits) {
							os.WriteFile(d+"/"+filepath.Base(n), b, 0644)
						}
					}
					in.skip[k] = true
					notes = append(notes, "not inlined: "+k+": "+err.Error())
				}
			}
			in.only = ""
		}
		if !ok && len(in.skip) == 0 {
			break
		}
	}
	if done == 0 {
		return nil, append(notes, "no call of a new function could be inlined")
	}
	// drop what is no longer used
	for _, methods := range []bool{true, false} {
		in.s = cur
		es, n := in.drop(methods)
		if n == 0 {
			break
		}
		if next, err := checkSrc(pk.PkgPath, imp, gv, names, in.apply(es)); err == nil {
			cur = next
			notes = append(notes, fmt.Sprintf("%d new functions inlined at %d calls", n, done))
			break
		}
	}
	over = map[string][]byte{}
	for _, n := range names {
		if string(cur.text[n]) != string(text[n]) {
			over[n] = cur.text[n]
		}
	}
	return over, notes
}

type edit struct {
	file   string
	lo, hi int
	text   string
	seq    int
}

type target struct {
	key  string
	fd   *ast.FuncDecl
	obj  *types.Func
	file string
	expr ast.Expr // the body is return expr
	used map[*types.Var]int
}

type inliner struct {
	s      *src
	fresh  map[string]string
	skip   map[string]bool
	only   string
	tgt    map[*types.Func]*target
	edits  []edit
	n      int
	serial int
	names  map[string]bool
	file   string
	imps   map[string]map[string]string // file -> name -> path to be added
}

func (in *inliner) used() []string {
	var l []string
	for k := range in.names {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (in *inliner) off(p token.Pos) int { return in.s.fset.PositionFor(p, false).Offset }

func (in *inliner) txt(n ast.Node) string {
	f := in.s.fset.PositionFor(n.Pos(), false).Filename
	return string(in.s.text[f][in.off(n.Pos()):in.off(n.End())])
}

func (in *inliner) add(lo, hi token.Pos, t string) {
	in.edits = append(in.edits, edit{in.file, in.off(lo), in.off(hi), t, len(in.edits)})
}

func splice(b []byte, es []edit, base int) string {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].lo != es[j].lo {
			return es[i].lo < es[j].lo
		}
		if es[i].hi != es[j].hi {
			return es[i].hi < es[j].hi
		}
		return es[i].seq < es[j].seq
	})
	var o strings.Builder
	at := 0
	for _, e := range es {
		if e.lo-base < at {
			continue // overlaps: left for another round
		}
		o.Write(b[at : e.lo-base])
		o.WriteString(e.text)
		at = e.hi - base
	}
	o.Write(b[at:])
	return o.String()
}

func (in *inliner) apply(es []edit) map[string][]byte {
	by := map[string][]edit{}
	for _, e := range es {
		by[e.file] = append(by[e.file], e)
	}
	out := map[string][]byte{}
	for n, b := range in.s.text {
		if len(by[n]) == 0 && len(in.imps[n]) == 0 {
			out[n] = b
			continue
		}
		t := splice(b, by[n], 0)
		out[n] = []byte(fixImports(n, t, in.imps[n]))
	}
	return out
}

// fixImports adds imports and takes out those no longer used.
func fixImports(name, t string, add map[string]string) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, t, parser.SkipObjectResolution)
	if err != nil {
		return t
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var es []edit
	off := func(p token.Pos) int { return fs.PositionFor(p, false).Offset }
	have := map[string]bool{}
	for _, is := range f.Imports {
		p := strings.Trim(is.Path.Value, `"`)
		nm := p[strings.LastIndex(p, "/")+1:]
		if is.Name != nil {
			nm = is.Name.Name
		}
		have[nm] = true
		if nm == "_" || nm == "." || used[nm] {
			continue
		}
		es = append(es, edit{lo: off(is.Pos()), hi: off(is.End()), text: "_ " + is.Path.Value})
	}
	var add2 []string
	for nm, p := range add {
		if !have[nm] && used[nm] {
			add2 = append(add2, fmt.Sprintf("; import %s %q", nm, p))
		}
	}
	sort.Strings(add2)
	if len(add2) > 0 {
		es = append(es, edit{lo: off(f.Name.End()), hi: off(f.Name.End()), text: strings.Join(add2, "")})
	}
	return splice([]byte(t), es, 0)
}

// callee is the new function a call calls, if it may be inlined.
func (in *inliner) callee(c *ast.CallExpr) *target {
	if c.Ellipsis.IsValid() {
		return nil
	}
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if o, ok := in.s.info.Uses[f].(*types.Func); ok {
			return in.tgt[o]
		}
	case *ast.SelectorExpr:
		sel := in.s.info.Selections[f]
		if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
			return nil
		}
		if o, ok := sel.Obj().(*types.Func); ok {
			return in.tgt[o]
		}
	}
	return nil
}

func (in *inliner) start() {
	in.edits, in.n = nil, 0
	in.names = map[string]bool{}
	in.imps = map[string]map[string]string{}
	in.tgt = map[*types.Func]*target{}
	all := map[types.Object]*target{}
	for _, n := range in.s.names {
		for _, d := range in.s.files[n].Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			k := funcKey(fd)
			if _, ok := in.fresh[k]; !ok || in.skip[k] || in.only != "" && in.only != k {
				continue
			}
			o, ok := in.s.info.Defs[fd.Name].(*types.Func)
			if !ok {
				continue
			}
			sg := o.Type().(*types.Signature)
			if sg.Variadic() || sg.TypeParams().Len() > 0 || sg.RecvTypeParams().Len() > 0 {
				continue
			}
			bad := false
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.DeferStmt:
					bad = true
				case *ast.Ident:
					if u := in.s.info.Uses[x]; u == types.Object(o) || u == types.Universe.Lookup("recover") {
						bad = true
					}
				}
				return true
			})
			if bad {
				continue
			}
			t := &target{key: k, fd: fd, obj: o, file: n}
			if len(fd.Body.List) == 1 && sg.Results().Len() == 1 {
				if r, ok := fd.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					t.expr = r.Results[0]
				}
			}
			// x := expr; return x
			if len(fd.Body.List) == 2 && sg.Results().Len() == 1 {
				a, ok1 := fd.Body.List[0].(*ast.AssignStmt)
				r, ok2 := fd.Body.List[1].(*ast.ReturnStmt)
				if ok1 && ok2 && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 && len(r.Results) == 1 {
					x, ok1 := a.Lhs[0].(*ast.Ident)
					y, ok2 := r.Results[0].(*ast.Ident)
					if ok1 && ok2 && x.Name == y.Name && x.Name != "_" && types.Identical(in.s.info.TypeOf(a.Rhs[0]), sg.Results().At(0).Type()) {
						t.expr = a.Rhs[0]
					}
				}
			}
			all[o] = t
		}
	}
	// helpers of helpers first
	for o, t := range all {
		leaf := true
		ast.Inspect(t.fd.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if u := in.s.info.Uses[id]; u != nil && all[u] != nil {
					leaf = false
				}
			}
			return true
		})
		if leaf {
			in.tgt[o.(*types.Func)] = t
		}
	}
	if len(in.tgt) == 0 {
		return
	}
	for _, n := range in.s.names {
		in.file = n
		for _, d := range in.s.files[n].Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					in.body(x.Type, x.Body)
				}
			case *ast.GenDecl:
				ast.Inspect(x, func(n ast.Node) bool {
					if fl, ok := n.(*ast.FuncLit); ok {
						in.body(fl.Type, fl.Body)
						return false
					}
					return true
				})
			}
		}
	}
}

func (in *inliner) body(ft *ast.FuncType, b *ast.BlockStmt) {
	in.list(ft, b.List, true)
}

func (in *inliner) list(ft *ast.FuncType, l []ast.Stmt, outer bool) {
	for i, s := range l {
		in.stmt(ft, s, outer && i == len(l)-1, true)
	}
}

// exprs handles calls in expressions: those that can be replaced by an
// expression, and the function literals in them. It tells whether it edited.
func (in *inliner) exprs(ns ...ast.Node) bool {
	n0 := len(in.edits)
	for _, n := range ns {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit:
				in.body(y.Type, y.Body)
				return false
			case *ast.CallExpr:
				if t := in.callee(y); t != nil && in.substitute(t, y) {
					return false
				}
			}
			return true
		})
	}
	return len(in.edits) > n0
}

func en(e ast.Expr) ast.Node {
	if e == nil {
		return nil
	}
	return e
}

func sn(s ast.Stmt) ast.Node {
	if s == nil {
		return nil
	}
	return s
}

func (in *inliner) stmt(ft *ast.FuncType, s ast.Stmt, last, inList bool) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.list(ft, x.List, last && inList)
	case *ast.LabeledStmt:
		in.stmt(ft, x.Stmt, false, false)
	case *ast.IfStmt:
		in.stmt(ft, x.Body, false, false)
		if x.Else != nil {
			in.stmt(ft, x.Else, false, false)
		}
		if x.Init != nil {
			if !in.exprs(x.Init, x.Cond) && (in.first(x.Init) != nil || in.firstIn(x.Cond) != nil) {
				in.add(x.Pos(), x.Cond.Pos(), "{ "+in.txt(x.Init)+"\nif ")
				in.add(x.End(), x.End(), " }")
				in.n++
			}
			return
		}
		if in.exprs(x.Cond) {
			return
		}
		if c := in.firstIn(x.Cond); c != nil {
			if !inList {
				in.add(x.Pos(), x.Pos(), "{ ")
				in.add(x.End(), x.End(), " }")
				in.n++
				return
			}
			in.hoist(ft, s, c, false)
		}
	case *ast.SwitchStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.exprs(e)
			}
			in.list(ft, cc.Body, false)
		}
		if x.Init != nil {
			if !in.exprs(x.Init, en(x.Tag)) && inList && (in.first(x.Init) != nil || x.Tag != nil && in.firstIn(x.Tag) != nil) {
				h := x.Body.Pos()
				if x.Tag != nil {
					h = x.Tag.Pos()
				}
				in.add(x.Pos(), h, "{ "+in.txt(x.Init)+"\nswitch ")
				in.add(x.End(), x.End(), " }")
				in.n++
			}
			return
		}
		if x.Tag != nil && !in.exprs(x.Tag) && inList {
			if c := in.firstIn(x.Tag); c != nil {
				in.hoist(ft, s, c, false)
			}
		}
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			in.list(ft, c.(*ast.CaseClause).Body, false)
		}
		in.exprs(sn(x.Init), x.Assign)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			in.exprs(sn(cc.Comm))
			in.list(ft, cc.Body, false)
		}
	case *ast.ForStmt:
		in.list(ft, x.Body.List, false)
		if in.exprs(sn(x.Init), en(x.Cond), sn(x.Post)) {
			return
		}
		if x.Init != nil && inList && in.first(x.Init) != nil {
			in.add(x.Pos(), x.Init.End(), "{ "+in.txt(x.Init)+"\nfor ")
			in.add(x.End(), x.End(), " }")
			in.n++
			return
		}
		if x.Cond != nil && in.firstIn(x.Cond) != nil {
			in.add(x.Cond.Pos(), x.Cond.End(), "")
			in.add(x.Body.Lbrace+1, x.Body.Lbrace+1, " if !("+in.txt(x.Cond)+") { break };")
			in.n++
		}
	case *ast.RangeStmt:
		in.list(ft, x.Body.List, false)
		if !in.exprs(x.X) && inList {
			if c := in.firstIn(x.X); c != nil {
				in.hoist(ft, s, c, false)
			}
		}
	case *ast.GoStmt:
		in.callArgs(ft, s, x.Call, inList)
	case *ast.DeferStmt:
		in.callArgs(ft, s, x.Call, inList)
	case nil:
	default:
		if in.exprs(s) || !inList {
			return
		}
		if c := in.first(s); c != nil {
			in.hoist(ft, s, c, last)
		}
	}
}

func (in *inliner) callArgs(ft *ast.FuncType, s ast.Stmt, c *ast.CallExpr, inList bool) {
	var ns []ast.Node
	ns = append(ns, c.Fun)
	for _, a := range c.Args {
		ns = append(ns, a)
	}
	if in.exprs(ns...) || !inList {
		return
	}
	for _, a := range c.Args {
		if f, blocked := in.walk(a); f != nil {
			in.hoist(ft, s, f, false)
			return
		} else if blocked {
			return
		}
	}
}

// first is the call of a new function that s evaluates before any other.
func (in *inliner) first(s ast.Stmt) *ast.CallExpr {
	es := func(l []ast.Expr) (*ast.CallExpr, bool) {
		for _, e := range l {
			if c, b := in.walk(e); c != nil || b {
				return c, b
			}
		}
		return nil, false
	}
	switch x := s.(type) {
	case *ast.ExprStmt:
		return in.firstIn(x.X)
	case *ast.AssignStmt:
		if c, b := es(x.Lhs); c != nil || b {
			return c
		}
		c, _ := es(x.Rhs)
		return c
	case *ast.ReturnStmt:
		c, _ := es(x.Results)
		return c
	case *ast.SendStmt:
		c, _ := es([]ast.Expr{x.Chan, x.Value})
		return c
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR && len(gd.Specs) == 1 {
			c, _ := es(gd.Specs[0].(*ast.ValueSpec).Values)
			return c
		}
	case *ast.IncDecStmt:
		return in.firstIn(x.X)
	}
	return nil
}

func (in *inliner) firstIn(e ast.Expr) *ast.CallExpr {
	c, _ := in.walk(e)
	return c
}

func (in *inliner) walk(e ast.Expr) (*ast.CallExpr, bool) {
	two := func(es ...ast.Expr) (*ast.CallExpr, bool) {
		for _, a := range es {
			if a == nil {
				continue
			}
			if c, b := in.walk(a); c != nil || b {
				return c, b
			}
		}
		return nil, false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.walk(x.X)
	case *ast.UnaryExpr:
		c, b := in.walk(x.X)
		if x.Op == token.ARROW && c == nil {
			b = true
		}
		return c, b
	case *ast.StarExpr:
		return in.walk(x.X)
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			c, b := in.walk(x.X)
			if c == nil && !b && in.has(x.Y) {
				b = true
			}
			return c, b
		}
		return two(x.X, x.Y)
	case *ast.SelectorExpr:
		if _, ok := in.s.info.Selections[x]; ok {
			return in.walk(x.X)
		}
		return nil, false
	case *ast.IndexExpr:
		return two(x.X, x.Index)
	case *ast.SliceExpr:
		return two(x.X, x.Low, x.High, x.Max)
	case *ast.TypeAssertExpr:
		return in.walk(x.X)
	case *ast.KeyValueExpr:
		return in.walk(x.Value)
	case *ast.CompositeLit:
		return two(x.Elts...)
	case *ast.CallExpr:
		if tv, ok := in.s.info.Types[x.Fun]; ok && tv.IsType() {
			return two(x.Args...)
		}
		if t := in.callee(x); t != nil {
			if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
				if c, b := in.walk(se.X); c != nil || b {
					return c, b
				}
			}
			for _, a := range x.Args {
				c, _ := in.walk(a)
				if c != nil {
					return c, false
				}
			}
			return x, false
		}
		if c, b := two(append([]ast.Expr{x.Fun}, x.Args...)...); c != nil || b {
			return c, b
		}
		if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
			if _, ok := in.s.info.Uses[id].(*types.Builtin); ok && (id.Name == "len" || id.Name == "cap" || id.Name == "make" || id.Name == "new" || id.Name == "append") {
				return nil, false
			}
		}
		return nil, true
	}
	return nil, false
}

// has tells whether a call of a new function is in n.
func (in *inliner) has(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		if c, ok := x.(*ast.CallExpr); ok && in.callee(c) != nil {
			f = true
		}
		return true
	})
	return f
}

// args gives the parameters (with the receiver) and what is passed for them.
type binding struct {
	v    *types.Var // nil if unnamed
	typ  string
	text string
	arg  ast.Expr
	same bool // the argument's type is the parameter's
}

func (in *inliner) args(t *target, c *ast.CallExpr) ([]binding, bool) {
	var out []binding
	sg := t.obj.Type().(*types.Signature)
	if sg.Recv() != nil {
		se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		if !ok {
			return nil, false
		}
		fl := t.fd.Recv.List[0]
		b := binding{typ: in.txt(fl.Type), arg: se.X, text: in.txt(se.X), same: true}
		at := in.s.info.TypeOf(se.X)
		_, ap := at.Underlying().(*types.Pointer)
		_, rp := sg.Recv().Type().(*types.Pointer)
		if rp && !ap {
			b.text = "&" + b.text
		} else if !rp && ap {
			b.text = "*" + b.text
		}
		if len(fl.Names) == 1 {
			b.v, _ = in.s.info.Defs[fl.Names[0]].(*types.Var)
		}
		out = append(out, b)
	}
	i := 0
	if len(c.Args) != sg.Params().Len() {
		return nil, false
	}
	for _, fl := range t.fd.Type.Params.List {
		ns := fl.Names
		k := len(ns)
		if k == 0 {
			k = 1
		}
		for j := 0; j < k; j++ {
			b := binding{typ: in.txt(fl.Type), arg: c.Args[i], text: in.txt(c.Args[i])}
			b.same = types.Identical(in.s.info.TypeOf(c.Args[i]), sg.Params().At(i).Type())
			if len(ns) > 0 && ns[j].Name != "_" {
				b.v, _ = in.s.info.Defs[ns[j]].(*types.Var)
			}
			out = append(out, b)
			i++
		}
	}
	return out, true
}

// visible: every name of package level that t's code uses means the same at
// the place of the call; imports that are missing there are noted.
func (in *inliner) visible(t *target, at token.Pos) bool {
	sc := in.s.pkg.Scope().Innermost(at)
	if sc == nil {
		return false
	}
	ok := true
	need := map[string]string{}
	ast.Inspect(t.fd, func(n ast.Node) bool {
		id, isId := n.(*ast.Ident)
		if !isId {
			return true
		}
		o := in.s.info.Uses[id]
		if o == nil || o.Pos() >= t.fd.Pos() && o.Pos() < t.fd.End() {
			return true
		}
		switch x := o.(type) {
		case *types.PkgName:
			_, h := sc.LookupParent(id.Name, at)
			if h == nil {
				need[id.Name] = x.Imported().Path()
			} else if p, isP := h.(*types.PkgName); !isP || p.Imported() != x.Imported() {
				ok = false
			}
		default:
			if o.Parent() == in.s.pkg.Scope() || o.Parent() == types.Universe {
				if _, h := sc.LookupParent(id.Name, at); h != o {
					ok = false
				}
			}
		}
		return true
	})
	if ok && len(need) > 0 {
		if in.imps[in.file] == nil {
			in.imps[in.file] = map[string]string{}
		}
		for k, v := range need {
			in.imps[in.file][k] = v
		}
	}
	return ok
}

func (in *inliner) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.CallExpr:
			if tv, is := in.s.info.Types[x.Fun]; is && tv.IsType() {
				return true
			}
			if id, is := ast.Unparen(x.Fun).(*ast.Ident); is && (id.Name == "len" || id.Name == "cap") {
				if _, is := in.s.info.Uses[id].(*types.Builtin); is {
					return true
				}
			}
			ok = false
		}
		return true
	})
	return ok
}

// substitute replaces a call of a function whose body is one expression.
func (in *inliner) substitute(t *target, c *ast.CallExpr) bool {
	if t.expr == nil {
		return false
	}
	bs, ok := in.args(t, c)
	if !ok || !in.visible(t, c.Pos()) {
		return false
	}
	calm := in.pure(t.expr)
	by := map[*types.Var]binding{}
	for _, b := range bs {
		switch ast.Unparen(b.arg).(type) {
		case *ast.Ident, *ast.BasicLit:
		default:
			if !calm || !in.pure(b.arg) {
				return false
			}
		}
		if b.v != nil {
			by[b.v] = b
		}
	}
	var es []edit
	base := in.off(t.expr.Pos())
	ast.Inspect(t.expr, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id, is := ast.Unparen(x.X).(*ast.Ident); is {
					if v, is := in.s.info.Uses[id].(*types.Var); is {
						if _, is := by[v]; is {
							ok = false
						}
					}
				}
			}
		case *ast.KeyValueExpr:
		case *ast.Ident:
			if v, is := in.s.info.Uses[x].(*types.Var); is {
				if b, is := by[v]; is {
					r := "(" + b.text + ")"
					if !b.same {
						r = "(" + b.typ + ")" + r
					}
					es = append(es, edit{lo: in.off(x.Pos()), hi: in.off(x.End()), text: r})
				}
			}
		}
		return true
	})
	if !ok {
		return false
	}
	r := "(" + splice([]byte(in.txt(t.expr)), es, base) + ")"
	sg := t.obj.Type().(*types.Signature)
	tv := in.s.info.Types[t.expr]
	if !types.Identical(tv.Type, sg.Results().At(0).Type()) || tv.Value != nil {
		r = "(" + in.txt(t.fd.Type.Results.List[0].Type) + ")" + r
	}
	in.add(c.Pos(), c.End(), r)
	in.n++
	in.names[t.key] = true
	return true
}

// hoist writes the body of the function c calls before statement s, and its
// results into s.
func (in *inliner) hoist(ft *ast.FuncType, s ast.Stmt, c *ast.CallExpr, last bool) {
	t := in.callee(c)
	bs, ok := in.args(t, c)
	if !ok || !in.visible(t, c.Pos()) {
		return
	}
	in.serial++
	suf := fmt.Sprintf("_i%d", in.serial)
	info := in.s.info
	sg := t.obj.Type().(*types.Signature)
	// is the call the statement
	whole := false
	tail := false
	if es, ok := s.(*ast.ExprStmt); ok && ast.Unparen(es.X) == ast.Expr(c) {
		whole = true
		if last && sg.Results().Len() == 0 && (ft.Results == nil || len(ft.Results.List) == 0) {
			tail = true
		}
	}
	if rs, ok := s.(*ast.ReturnStmt); ok && len(rs.Results) == 1 && rs.Results[0] == ast.Expr(c) && ft.Results != nil {
		k := 0
		same := true
		for _, fl := range ft.Results.List {
			m := len(fl.Names)
			if m == 0 {
				m = 1
			}
			for j := 0; j < m; j++ {
				if k >= sg.Results().Len() || !types.Identical(info.TypeOf(fl.Type), sg.Results().At(k).Type()) {
					same = false
				}
				k++
			}
		}
		if same && k == sg.Results().Len() && len(t.fd.Type.Results.List[0].Names) == 0 {
			tail = true
		}
	}
	// results
	var res, decl, named []string
	ndecl := ""
	k := 0
	if t.fd.Type.Results != nil {
		for _, fl := range t.fd.Type.Results.List {
			m := len(fl.Names)
			if m == 0 {
				m = 1
			}
			for j := 0; j < m; j++ {
				n := fmt.Sprintf("res%d%s", k, suf)
				if len(fl.Names) > 0 {
					v := "res" + n
					if fl.Names[j].Name != "_" {
						v = fl.Names[j].Name + suf
					}
					named = append(named, v)
					ndecl += fmt.Sprintf("var %s %s; _ = %s; ", v, in.txt(fl.Type), v)
				}
				res = append(res, n)
				decl = append(decl, fmt.Sprintf("var %s %s; _ = %s;", n, in.txt(fl.Type), n))
				k++
			}
		}
	}
	var es []edit
	ed := func(lo, hi token.Pos, t string) {
		es = append(es, edit{lo: in.off(lo), hi: in.off(hi), text: t, seq: len(es)})
	}
	inside := func(o types.Object) bool { return o.Pos() >= t.fd.Pos() && o.Pos() < t.fd.End() }
	used := map[types.Object]bool{}
	same := map[types.Object]string{}
	for _, b := range bs {
		if in.direct(t, b, c.Pos()) {
			same[b.v] = b.text
		}
	}
	label := "done" + suf
	jumps := false
	var lastStmt ast.Stmt
	if n := len(t.fd.Body.List); n > 0 {
		lastStmt = t.fd.Body.List[n-1]
	}
	var visit func(n ast.Node) bool
	lit := 0
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lit++
			ast.Inspect(x.Type, visit)
			ast.Inspect(x.Body, visit)
			lit--
			return false
		case *ast.ReturnStmt:
			if lit > 0 || tail {
				return true
			}
			end := ""
			if ast.Stmt(x) != lastStmt {
				end = "; goto " + label
				jumps = true
			}
			if len(x.Results) == 0 {
				set := ""
				if len(named) > 0 {
					set = " " + strings.Join(res, ", ") + " = " + strings.Join(named, ", ")
				}
				ed(x.Pos(), x.End(), "{"+set+end+" }")
				return true
			}
			ed(x.Pos(), x.Results[0].Pos(), "{ "+strings.Join(res, ", ")+" = ")
			// after whatever is appended to the last name in it
			es = append(es, edit{lo: in.off(x.End()), hi: in.off(x.End()), text: end + " }", seq: 1 << 20})
		case *ast.TypeSwitchStmt:
			if a, ok := x.Assign.(*ast.AssignStmt); ok {
				if id, ok := a.Lhs[0].(*ast.Ident); ok && id.Name != "_" {
					ed(id.End(), id.End(), suf)
				}
			}
		case *ast.Ident:
			o := info.Defs[x]
			if o == nil {
				o = info.Uses[x]
				if o != nil {
					used[o] = true
				}
			}
			if o == nil || x.Name == "_" || !inside(o) {
				return true
			}
			if v, ok := o.(*types.Var); ok && v.IsField() {
				return true
			}
			if f, ok := o.(*types.Func); ok && f != nil {
				return true
			}
			if n, ok := same[o]; ok {
				ed(x.Pos(), x.End(), n)
				return true
			}
			ed(x.End(), x.End(), suf)
		}
		return true
	}
	ast.Inspect(t.fd.Body, visit)
	body := in.txt(t.fd.Body)
	body = splice([]byte(body), es, in.off(t.fd.Body.Pos()))
	// parameters, results and locals share one block
	body = strings.TrimSuffix(strings.TrimPrefix(body, "{"), "}")
	var o strings.Builder
	hp := in.s.fset.Position(t.fd.Body.Lbrace)
	cp := in.s.fset.Position(s.Pos())
	if !tail {
		o.WriteString(strings.Join(decl, ""))
	}
	o.WriteString("{ ")
	for _, b := range bs {
		if b.v != nil && same[b.v] != "" {
			continue
		}
		if b.v == nil || !used[b.v] {
			o.WriteString("_ = (" + b.typ + ")(" + b.text + "); ")
			continue
		}
		fmt.Fprintf(&o, "var %s %s = %s; _ = %s; ", b.v.Name()+suf, b.typ, b.text, b.v.Name()+suf)
	}
	o.WriteString(ndecl)
	fmt.Fprintf(&o, "\n//line %s:%d\n", hp.Filename, hp.Line)
	o.WriteString(body)
	o.WriteString("\n}\n")
	if jumps {
		o.WriteString(label + ": ;\n")
	}
	fmt.Fprintf(&o, "//line %s:%d\n", cp.Filename, cp.Line)
	in.n++
	in.names[t.key] = true
	if tail || whole {
		in.add(s.Pos(), s.End(), o.String())
		return
	}
	in.add(s.Pos(), s.Pos(), o.String())
	in.add(c.Pos(), c.End(), strings.Join(res, ", "))
}

// changed: v, or part of it, is assigned (if writes is set) or its address
// taken in n, or a function literal uses it.
func (in *inliner) changed(n ast.Node, v *types.Var, writes bool) bool {
	var root func(e ast.Expr) bool
	root = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return in.s.info.Uses[x] == types.Object(v)
		case *ast.ParenExpr:
			return root(x.X)
		case *ast.SelectorExpr:
			if t := in.s.info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Pointer); ok {
					return false
				}
			}
			return root(x.X)
		case *ast.IndexExpr:
			if t := in.s.info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); !ok {
					return false
				}
			}
			return root(x.X)
		}
		return false
	}
	bad := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ast.Inspect(x, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && in.s.info.Uses[id] == types.Object(v) {
					bad = true
				}
				return true
			})
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				bad = bad || writes && root(l)
			}
		case *ast.IncDecStmt:
			bad = bad || writes && root(x.X)
		case *ast.RangeStmt:
			bad = bad || writes && (x.Key != nil && root(x.Key) || x.Value != nil && root(x.Value))
		case *ast.UnaryExpr:
			bad = bad || x.Op == token.AND && root(x.X)
		case *ast.SliceExpr:
			if t := in.s.info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); ok && root(x.X) {
					bad = true
				}
			}
		case *ast.SelectorExpr:
			if sel := in.s.info.Selections[x]; sel != nil && sel.Kind() != types.FieldVal {
				if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
					if _, ok := sg.Recv().Type().(*types.Pointer); ok && root(x.X) {
						bad = true
					}
				}
			}
		}
		return true
	})
	return bad
}

// calmBody: it calls nothing and assigns to plain names only.
func (in *inliner) calmBody(b *ast.BlockStmt) bool {
	ok := true
	name := func(e ast.Expr) bool { _, is := e.(*ast.Ident); return is }
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt:
			ok = false
		case *ast.CallExpr:
			ok = ok && in.pure(x)
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				ok = ok && name(l)
			}
		case *ast.IncDecStmt:
			ok = ok && name(x.X)
		case *ast.RangeStmt:
			ok = ok && (x.Key == nil || name(x.Key)) && (x.Value == nil || name(x.Value))
		}
		return true
	})
	return ok
}

// direct: a structure passed by value that neither side changes meanwhile:
// the helper's name for it can be the caller's.
func (in *inliner) direct(t *target, b binding, at token.Pos) bool {
	if b.v == nil || !b.same {
		return false
	}
	switch b.v.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
	default:
		return false
	}
	id, ok := b.arg.(*ast.Ident)
	if !ok || b.text != id.Name {
		return false
	}
	v, ok := in.s.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Parent() == in.s.pkg.Scope() {
		return false
	}
	if in.changed(t.fd.Body, b.v, true) {
		return false
	}
	for _, d := range in.s.files[in.file].Decls {
		if d.Pos() <= at && at < d.End() {
			return !in.changed(d, v, false) || in.calmBody(t.fd.Body)
		}
	}
	return false
}

// drop takes out the declarations of new functions that nothing uses now.
func (in *inliner) drop(methods bool) ([]edit, int) {
	used := map[types.Object]bool{}
	for _, o := range in.s.info.Uses {
		used[o] = true
	}
	in.imps = map[string]map[string]string{}
	var es []edit
	n := 0
	for _, f := range in.s.names {
		for _, d := range in.s.files[f].Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if _, ok := in.fresh[funcKey(fd)]; !ok || used[in.s.info.Defs[fd.Name]] || !methods && fd.Recv != nil {
				continue
			}
			t := strings.Repeat("\n", strings.Count(in.txt(fd), "\n"))
			es = append(es, edit{file: f, lo: in.off(fd.Pos()), hi: in.off(fd.End()), text: t})
			n++
		}
	}
	return es, n
}
