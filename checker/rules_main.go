package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The main flow: typestate of input, output and temporary file, write position,
// header and directory over all paths of main() with the methods it calls.

type mainFlow struct {
	e   *Engine
	out []Out
}

var mainFlowMemo = map[string]*mainFlow{}

func isFileCall(n string) bool {
	switch n {
	case "os.Open", "os.OpenFile", "os.Create", "os.CreateTemp", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.WriteFile", "os.ReadFile", "os.Link", "os.Symlink", "os.Chmod", "os.MkdirTemp",
		"os.Stat", "os.SameFile", "io.Copy", "io.CopyN", "io.CopyBuffer", "io.ReadFull", "io.WriteString",
		"encoding/binary.Write", "encoding/binary.Read", "os.Lstat":
		return true
	}
	return strings.HasPrefix(n, "(*os.File).") && n != "(*os.File).Name"
}

// busChan: the value is a channel of write bus requests.
func busChan(v ssa.Value) bool {
	ch, ok := types.Unalias(v.Type()).Underlying().(*types.Chan)
	return ok && namedName(ch.Elem()) == "WriteBusRequest"
}

// mode "pre" follows main up to the opening of the output (W02, W05); mode "io"
// looks at what happens to the files (W01, W03, W04, W07, W08).
func newMainFlow(p *Prog, mode string) *mainFlow {
	if m := mainFlowMemo[mode]; m != nil {
		return m
	}
	m := &mainFlow{}
	mainFlowMemo[mode] = m
	pre := mode == "pre"
	cfgG := p.Main.Var("config")
	r := &Rule{Name: "main-flow-" + mode, Aborts: true, Cap: 400}
	r.Eventful = func(fn *ssa.Function, in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, f := range p.Callees(c) {
			if isFileCall(FullName(f)) {
				return true
			}
		}
		if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && busChan(c.Common().Args[0]) {
			return true
		}
		for _, s := range constStringArgs(c) {
			if strings.Contains(s, "successfully written") {
				return true
			}
		}
		return false
	}
	r.NoInline = func(fn *ssa.Function) bool {
		n := FullName(fn)
		if !pre && (fn.Name() == "LoadAssociatedRMB" || fn.Name() == "TryReadWadDirectory") {
			return true
		}
		return fn.Name() == "Configure" || fn.Name() == "DoLevel" || fn.Name() == "LoadWadDirectory" || strings.HasPrefix(n, "(*MiniLogger).")
	}
	r.KeepFact = func(cls string) bool { return pre && strings.HasSuffix(cls, ".UseRMB") }
	r.Keep = func(cls string) bool {
		return cls == "G:config" || strings.HasSuffix(cls, ".InputFileName") || strings.HasSuffix(cls, ".OutputFileName") || strings.HasPrefix(cls, "F:WadHeader.")
	}
	var cfgT types.Type
	if cfgG != nil {
		cfgT = deref(cfgG.Type())
	}
	cfgField := func(e *Engine, fr *Frame, st *State, name string) *Term {
		if cfgG == nil {
			return nil
		}
		base := e.Load(fr, st, GlobalT(cfgG), cfgT)
		t, _ := e.loadField(fr, st, base, cfgT, name)
		return t
	}
	const (
		IN  = "in"
		OUT = "out"
	)
	// pathKind tells what file a path argument names.
	pathKind := func(e *Engine, fr *Frame, st *State, t *Term) string {
		if x := st.mon["tmpname"]; x != nil && x == t {
			return "tmp"
		}
		if x := cfgField(e, fr, st, "InputFileName"); x != nil && x == t {
			return IN
		}
		if x := cfgField(e, fr, st, "OutputFileName"); x != nil && x == t {
			return OUT
		}
		for _, n := range []string{"SegDumpFile", "MemProfilePath", "ProfilePath"} {
			if x := cfgField(e, fr, st, n); x != nil && x == t {
				return "debug"
			}
		}
		return "other"
	}
	pos := func(e *Engine, c ssa.Instruction) string { return e.P.InstrPos(c) }
	setFail := func(s *State, why string) {
		if s.M("fail") == "" {
			s.SetM("fail", why)
		}
		for _, k := range []string{"hdrdir", "hdrcnt", "pos", "busdir", "busle", "prevpos", "lastn"} {
			delete(s.mon, k)
		}
		s.Note(why)
	}
	fileKind := func(st *State, f *Term) string {
		if f == nil {
			return ""
		}
		f, _ = unIface(f)
		for _, k := range []string{IN, OUT, "tmpin", "inout", "rmb", "dbg", "ext"} {
			if st.mon["file:"+k] == f {
				return k
			}
		}
		return ""
	}
	fileTerm := func(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, kind string) *Term {
		return App("nonnil", App("file:"+kind, e.sym(fr, st, c, "file")))
	}
	// beforeOutput: what must hold when an output or temporary file is opened (W05)
	beforeOutput := func(e *Engine, fr *Frame, st *State, c ssa.Instruction) {
		p := pos(e, c)
		e.Ev("opening of output", c)
		if st.M("inopen") != "ok" {
			e.Violate("W05|output opened before the input file", p, "output is opened on a path on which the input wad was not opened successfully: "+st.Path())
		}
		if st.M("rdfail") != "" {
			e.Violate("W05|output opened after failed read", p, "output is opened although reading the input failed: "+st.Path())
		}
		if st.M("hdrread") == "" || st.M("dirread") == "" {
			e.Violate("W05|output opened before header and directory are read", p, "output is opened on a path on which header and directory of the input were not both read: "+st.Path())
		}
		lv := st.mon["lvls"]
		if lv == nil {
			e.Violate("W05|no level count", p, "output is opened on a path on which the valid levels were not counted: "+st.Path())
		} else if e.Truth(st, Eq(lv, ConstI(0))) != 0 && e.Truth(st, Less(ConstI(0), lv, nil)) != 1 {
			e.Violate("W05|output opened without valid levels", p, "output is opened on a path on which the number of levels to rebuild may be zero: "+st.Path())
		}
		use := cfgField(e, fr, st, "UseRMB")
		if use != nil && e.Truth(st, use) != 0 {
			switch st.M("rmb") {
			case "loaded":
			case "openfail":
				x := st.mon["rmberr"]
				ne := App("call:errors.Is", x, st.mon["enoent"])
				if st.mon["enoent"] == nil || e.Truth(st, ne) != 1 {
					e.Violate("W05|output opened although RMB file could not be opened", p, "output is opened on a path on which opening the RMB file failed for another reason than that it does not exist: "+st.Path())
				}
			default:
				if st.M("rmb") == "parse error" {
					e.Violate("R01|file with errors used", p, "output is opened on a path on which the RMB options file was found to have errors: "+st.Path())
				}
				e.Violate("W05|output opened although RMB options were not loaded", p, "output is opened on a path on which RMB options are in use and were not loaded (state "+st.M("rmb")+"): "+st.Path())
			}
		}
	}
	r.Call = func(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Out, bool) {
		name := calleeName(callee)
		p := pos(e, c)
		plain := func() ([]Out, bool) {
			return []Out{{Kind: ORet, Res: e.opaqueResult(fr, st, c, c.Common().Signature()), St: st}}, true
		}
		if callee == nil {
			if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && busChan(c.Common().Args[0]) {
				e.Ev("end of requests to writer", c)
				if st.M("phase") == "bus" {
					st.SetM("phase", "closing")
				}
				return []Out{{Kind: ORet, St: st}}, true
			}
			return nil, false
		}
		for _, s := range constStringArgs(c) {
			if strings.Contains(s, "successfully written") {
				e.Ev("success report", c)
				if f := st.M("fail"); f != "" {
					e.Violate("W03|success reported after: "+f, p, "the wad is reported as successfully written after "+f+": "+st.Path())
				}
				for _, k := range []string{"header", "dirwritten", "outclosed"} {
					if st.M(k) == "" {
						e.Violate("W03|success reported without "+k, p, "the wad is reported as successfully written on a path without step '"+k+"': "+st.Path())
					}
				}
				if st.M("tmp") != "" && st.M("copied") == "" {
					e.Violate("W03|success reported without copying", p, "success is reported though the temporary file was not copied over the input: "+st.Path())
				}
				return plain()
			}
		}
		switch name {
		case "FindValidLevels":
			if !pre {
				break
			}
			t := e.sym(fr, st, c, "")
			st.mon["lvls"] = t
			e.Ev("level count", c)
			return []Out{{Kind: ORet, Res: t, St: st}}, true
		case "LoadRMB":
			if !pre {
				break
			}
			e.Ev("RMB parse", c)
			if n, w := st.mon["rmbn"], st.mon["rmbwant"]; n != nil && (w == nil || !e.ProveEq(st, n, w)) {
				e.Violate("W05|RMB file parsed after short read", p, "RMB options are parsed on a path on which the whole file was not read: "+st.Path())
			}
			res := e.sym(fr, st, c, "v")
			st.SetM("rmb", "parse error")
			okS := st.Clone()
			okS.SetM("rmb", "loaded")
			okS.Note("RMB parsed")
			st.Note("RMB has errors at " + p)
			return []Out{{Kind: ORet, Res: Tuple(ConstB(true), res), St: okS}, {Kind: ORet, Res: Tuple(ConstB(false), res), St: st}}, true
		case "os.Open":
			k := pathKind(e, fr, st, args[0])
			switch {
			case k == IN:
				f := fileTerm(e, fr, st, c, IN)
				e.Ev("opening of input for reading", c)
				return e.forkErr(fr, st, c, []*Term{f}, func(s *State) {
					s.mon["file:"+IN] = f
					s.SetM("inopen", "ok")
				}, func(s *State) { s.SetM("inopen", "failed"); s.Note("opening input failed") }), true
			case k == "tmp":
				f := fileTerm(e, fr, st, c, "tmpin")
				e.Ev("reopening of temporary file", c)
				return e.forkErr(fr, st, c, []*Term{f}, func(s *State) { s.mon["file:tmpin"] = f }, func(s *State) { setFail(s, "failure to reopen the temporary file") }), true
			default:
				f := fileTerm(e, fr, st, c, "rmb")
				if pre && st.M("inopen") == "" {
					e.Ev("opening of RMB file", c)
					st.SetM("rmb", "")
					outs := e.forkErr(fr, st, c, []*Term{f}, func(s *State) { s.mon["file:rmb"] = f; s.SetM("rmb", "open") }, func(s *State) { s.SetM("rmb", "openfail"); s.Note("opening RMB file failed") })
					outs[1].St.mon["rmberr"] = outs[1].Res.args[1]
					return outs, true
				}
				return e.forkErr(fr, st, c, []*Term{f}, nil, nil), true
			}
		case "os.CreateTemp":
			e.Ev("creation of temporary file", c)
			out := cfgField(e, fr, st, "OutputFileName")
			if out == nil || e.Truth(st, Eq(out, ConstS(""))) != 1 {
				e.Violate("W01|temporary file though output is named", p, "a temporary file that will replace the input is created on a path on which no output file name may still be given: "+st.Path())
			}
			if pre {
				beforeOutput(e, fr, st, c)
				return nil, true
			}
			f := fileTerm(e, fr, st, c, OUT)
			nm := App("call:(*os.File).Name", f)
			return e.forkErr(fr, st, c, []*Term{f}, func(s *State) {
				s.mon["file:"+OUT] = f
				s.mon["tmpname"] = nm
				s.SetM("tmp", "exists")
				s.mon["pos"] = ConstI(0)
				s.Note("temporary file created at " + p)
			}, nil), true
		case "(*os.File).Name":
			return []Out{{Kind: ORet, Res: App("call:(*os.File).Name", args[0]), St: st}}, true
		case "os.OpenFile", "os.Create":
			k := pathKind(e, fr, st, args[0])
			writing := true
			if name == "os.OpenFile" {
				if fl, ok := args[1].Int(); ok && fl&3 == 0 && fl&0o3100 == 0 {
					writing = false
				}
			}
			if !writing {
				return e.forkErr(fr, st, c, []*Term{fileTerm(e, fr, st, c, "ro")}, nil, nil), true
			}
			switch k {
			case IN:
				e.Ev("opening of input for writing", c)
				if st.M("tmp") == "" {
					e.Violate("W01|input opened for writing without temporary file", p, "the input file is opened for writing on a path on which the result is not in a temporary file: "+st.Path())
				}
				if f := st.M("fail"); f != "" {
					e.Violate("W01|input opened for writing after: "+f, p, "the input file is opened for writing after "+f+": "+st.Path())
					e.Violate("W03|input opened for writing after: "+f, p, "the input file is overwritten after "+f+": "+st.Path())
				}
				for _, s := range []string{"header", "dirwritten", "outclosed"} {
					if st.M(s) == "" {
						e.Violate("W01|input opened for writing before "+s, p, "the input file is opened for writing before step '"+s+"' is known to have succeeded: "+st.Path())
					}
				}
				f := fileTerm(e, fr, st, c, "inout")
				return e.forkErr(fr, st, c, []*Term{f}, func(s *State) { s.mon["file:inout"] = f; s.SetM("trunc", "1"); s.Note("input being overwritten") }, func(s *State) { setFail(s, "failure to open the input for overwriting") }), true
			case OUT:
				e.Ev("opening of named output", c)
				if pre {
					beforeOutput(e, fr, st, c)
				}
				if pre && st.M("same") != "no" && st.M("statfail") == "" {
					e.Violate("W02|output opened without same-file check", p, "the named output is opened for writing on a path on which it was not established that it is a different file than the input (or does not exist): "+st.Path())
				}
				if pre {
					return nil, true
				}
				f := fileTerm(e, fr, st, c, OUT)
				return e.forkErr(fr, st, c, []*Term{f}, func(s *State) {
					s.mon["file:"+OUT] = f
					s.mon["pos"] = ConstI(0)
				}, nil), true
			case "tmp":
				e.Violate("W01|temporary file reopened for writing", p, "the temporary file is opened for writing again: "+st.Path())
			default:
				e.Ev("opening of other file for writing", c)
				if k == "debug" {
					f := fileTerm(e, fr, st, c, "dbg")
					return e.forkErr(fr, st, c, []*Term{f}, nil, nil), true
				}
			}
			return e.forkErr(fr, st, c, []*Term{fileTerm(e, fr, st, c, "o")}, nil, nil), true
		case "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.WriteFile", "os.Chmod", "os.Link", "os.Symlink":
			k := pathKind(e, fr, st, args[0])
			e.Ev("deletion/replacement of a file", c)
			if name == "os.Rename" && k == "tmp" && pathKind(e, fr, st, args[1]) == IN {
				// atomic replacement
				for _, s := range []string{"header", "dirwritten", "outclosed"} {
					if st.M(s) == "" || st.M("fail") != "" {
						e.Violate("W01|input replaced before "+s, p, "the input file is replaced before step '"+s+"' is known to have succeeded: "+st.Path())
					}
				}
				return e.forkErr(fr, st, c, nil, func(s *State) { s.SetM("tmp", "gone"); s.SetM("copied", "1"); s.SetM("trunc", "1") }, func(s *State) { setFail(s, "failure to rename the temporary file") }), true
			}
			if name == "os.Remove" && k == "tmp" {
				if st.M("copyfail") != "" {
					e.Violate("W04|temporary file deleted after failed overwrite", p, "the temporary file is deleted although overwriting the input from it failed: "+st.Path())
				}
				if st.M("trunc") != "" && st.M("copied") == "" {
					e.Violate("W04|temporary file deleted before overwrite is complete", p, "the temporary file is deleted while the input is being overwritten from it: "+st.Path())
				}
				return e.forkErr(fr, st, c, nil, func(s *State) { s.SetM("tmp", "gone") }, func(s *State) { s.SetM("tmp", "remove tried") }), true
			}
			e.Violate("W01|"+name+" on "+k, p, name+" is applied to a file ("+k+") other than the temporary file: "+st.Path())
			return plain()
		case "os.Stat", "os.Lstat":
			k := pathKind(e, fr, st, args[0])
			if pre && name == "os.Stat" && (k == IN || k == OUT) {
				e.Ev("stat for same-file check", c)
				t := App("nonnil", App("finfo:"+k))
				return e.forkErr(fr, st, c, []*Term{t}, nil, func(s *State) { s.SetM("statfail", k) }), true
			}
			return e.forkErr(fr, st, c, []*Term{App("nonnil", e.sym(fr, st, c, "fi"))}, nil, nil), true
		case "os.SameFile":
			a, b := App("nonnil", App("finfo:"+IN)), App("nonnil", App("finfo:"+OUT))
			if args[0] == a && args[1] == b || args[0] == b && args[1] == a {
				e.Ev("same-file check", c)
				y := st.Clone()
				y.SetM("same", "yes")
				y.Note("output is the same file as input")
				st.SetM("same", "no")
				return []Out{{Kind: ORet, Res: ConstB(true), St: y}, {Kind: ORet, Res: ConstB(false), St: st}}, true
			}
			return plain()
		case "encoding/binary.Write":
			k := fileKind(st, args[0])
			if k == "" {
				return plain()
			}
			if k != OUT {
				e.Violate("W01|write to "+k, p, "data is written to the "+k+" file: "+st.Path())
			}
			sz := e.binSizeTerm(fr, st, c.Common().Args[2], args[2])
			m.write(e, fr, st, c, args[2], sz)
			x, tn := unIface(args[2])
			what := "writing " + tn
			return e.forkErr(fr, st, c, nil, func(s *State) {
				if strings.HasSuffix(tn, "WadHeader") {
					s.SetM("header", "1")
				}
				if tn == "[]LumpEntry" {
					s.SetM("dirwritten", "1")
				}
				_ = x
			}, func(s *State) { setFail(s, what+" failed at "+p) }), true
		case "encoding/binary.Read":
			k := fileKind(st, args[0])
			_, tn := unIface(args[2])
			e.ReadInto(fr, st, c, args)
			if pre && (k == IN || st.M("inopen") == "ok" && k == "") {
				e.Ev("read of input header/directory", c)
				return e.forkErr(fr, st, c, nil, func(s *State) {
					if strings.HasSuffix(tn, "WadHeader") {
						s.SetM("hdrread", "1")
					}
					if tn == "[]LumpEntry" {
						s.SetM("dirread", "1")
					}
				}, func(s *State) {
					s.SetM("rdfail", "1")
					s.Note("reading " + tn + " failed")
				}), true
			}
			return e.forkErr(fr, st, c, nil, nil, nil), true
		case "io.Copy", "io.CopyBuffer", "io.CopyN":
			d, s := fileKind(st, args[0]), fileKind(st, args[1])
			if d == "inout" {
				e.Ev("copy of temporary file over input", c)
				if s != "tmpin" || name == "io.CopyN" {
					e.Violate("W01|input overwritten from another source", p, "the input file is overwritten from something else than the reopened temporary file: "+st.Path())
				}
				return e.forkErr(fr, st, c, nil, func(s *State) { s.SetM("copied", "1") }, func(s *State) {
					s.SetM("copyfail", "1")
					setFail(s, "failure to copy the temporary file over the input")
				}), true
			}
			return e.forkErr(fr, st, c, nil, nil, nil), true
		case "WriteNZerosOrFail":
			if fileKind(st, args[0]) == OUT {
				e.Ev("reservation of space", c)
				m.advance(e, st, c, args[1], "zeros")
				return []Out{{Kind: ORet, St: st}, {Kind: OPanic, St: func() *State { s := st.Clone(); setFail(s, "writing zeros failed"); return s }(), Site: c}}, true
			}
		case "StartWriteBus":
			e.Ev("start of writer", c)
			m.startBus(e, fr, st, c, args)
			st.SetM("phase", "bus")
			return []Out{{Kind: ORet, Res: App("nonnil", e.sym(fr, st, c, "bus")), St: st}}, true
		case "(*WriteBusControl).Shutdown":
			e.Ev("end of writer", c)
			if st.M("phase") == "bus" {
				st.SetM("phase", "done")
			}
			if c.Common().Signature().Results().Len() == 1 {
				return e.forkErr(fr, st, c, nil, nil, func(s *State) { setFail(s, "a lump could not be written") }), true
			}
			return plain()
		}
		if strings.HasPrefix(name, "(*os.File).") {
			k := fileKind(st, args[0])
			switch meth := strings.TrimPrefix(name, "(*os.File)."); meth {
			case "Close":
				switch k {
				case OUT:
					e.Ev("close of output", c)
					if st.M("outclosed") != "" {
						return plain()
					}
					return e.forkErr(fr, st, c, nil, func(s *State) {
						if s.M("dirwritten") != "" {
							s.SetM("outclosed", "1")
						}
					}, func(s *State) { s.SetM("closefail", "1"); setFail(s, "closing the output failed") }), true
				case "inout":
					e.Ev("close of overwritten input", c)
					return e.forkErr(fr, st, c, nil, nil, func(s *State) { s.SetM("copyfail", "1"); setFail(s, "closing the overwritten input failed") }), true
				}
				return e.forkErr(fr, st, c, nil, nil, nil), true
			case "Seek":
				if k == OUT {
					e.Ev("seek in output", c)
					m.seek(e, fr, st, c, args)
					return e.forkErr(fr, st, c, nil, nil, func(s *State) { setFail(s, "seeking in the output failed") }), true
				}
				if pre && (k == IN || k == "") {
					return e.forkErr(fr, st, c, nil, nil, func(s *State) {
						if s.M("phase") == "" && s.M("inopen") == "ok" {
							s.SetM("rdfail", "1")
							s.Note("seeking in input failed")
						}
					}), true
				}
			case "Write", "WriteString", "WriteAt", "Truncate", "ReadFrom":
				if k == OUT {
					m.write(e, fr, st, c, args[1], App("len", args[1]))
					return e.forkErr(fr, st, c, nil, nil, func(s *State) { setFail(s, meth+" on the output failed") }), true
				}
				if k != "" && k != "dbg" {
					e.Violate("W01|"+meth+" on "+k, p, meth+" is applied to the "+k+" file: "+st.Path())
				}
			case "Read":
				e.ReadInto(fr, st, c, args)
				if pre && k == "rmb" {
					e.Ev("read of RMB file", c)
					n := e.sym(fr, st, c, "n")
					var want *Term = App("len", args[1])
					if args[1].kind == KAlloc && len(args[1].args) == 1 {
						want = args[1].args[0]
					}
					outs := e.forkErr(fr, st, c, []*Term{n}, func(s *State) { s.mon["rmbn"] = n; s.mon["rmbwant"] = want }, nil)
					b := outs[1].St
					b.mon["rmbn"] = outs[1].Res.args[0]
					b.mon["rmbwant"] = want
					return outs, true
				}
			case "ReadAt":
				e.ReadInto(fr, st, c, args)
				if k == IN {
					e.Ev("read of lump in main", c)
					return e.forkErr(fr, st, c, nil, nil, func(s *State) { setFail(s, "reading a lump of the input failed at "+p) }), true
				}
			}
			if n := c.Common().Signature().Results().Len(); n > 0 && types.Identical(c.Common().Signature().Results().At(n-1).Type(), types.Universe.Lookup("error").Type()) {
				return e.forkErr(fr, st, c, nil, nil, nil), true
			}
			return plain()
		}
		if name == "errors.Is" {
			t := App("call:errors.Is", args...)
			if g, ok := c.Common().Args[1].(*ssa.UnOp); ok {
				if gl, ok := g.X.(*ssa.Global); ok && gl.Name() == "ErrNotExist" {
					st.mon["enoent"] = args[1]
				}
			}
			return []Out{{Kind: ORet, Res: t, St: st}}, true
		}
		if name == "os.Exit" {
			st.SetM("exit", args[0].String())
		}
		return nil, false
	}
	r.Instr = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) {
		// receiving from the writer's finisher ends its activity
		if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" && st.M("phase") == "closing" {
			st.SetM("phase", "done")
		}
	}
	e := NewEngine(p, r)
	m.e = e
	mainFn := p.Func("main")
	if mainFn == nil {
		e.Undecided("no function main")
		return m
	}
	m.out = e.Run(mainFn, nil)
	for _, o := range m.out {
		st := o.St
		pp := "?"
		if o.Site != nil {
			pp = p.InstrPos(o.Site)
		}
		e.Paths++
		tmp := st.M("tmp")
		if tmp == "exists" && st.M("closefail") == "" && st.M("copyfail") == "" {
			e.Violate("W04|temporary file left: "+o.Kind.String()+" after "+orStr(st.M("fail"), "abort"), pp, "the program ends ("+o.Kind.String()+") leaving the temporary file behind: "+st.Path())
		}
		if st.M("same") == "yes" {
			if o.Kind == ORet || o.Kind == OExit && st.M("exit") == "0" {
				e.Violate("W02|no failure status", pp, "the program ends with status zero though output and input are the same file: "+st.Path())
			}
		}
	}
	return m
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// write: bytes written to the output by the main flow.
func (m *mainFlow) write(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, data *Term, sz *Term) {
	p := e.P.InstrPos(c)
	x, tn := unIface(data)
	switch st.M("phase") {
	case "bus", "closing":
		e.Violate("W08|write while writer runs", p, "the output is written by the main flow while the lump writer may still be running: "+st.Path())
	}
	switch {
	case strings.HasSuffix(tn, "WadHeader"):
		e.Ev("write of header", c)
		if st.M("fail") != "" {
			return
		}
		if z, ok := orT(st.mon["pos"]).Int(); !ok || z != 0 {
			e.Violate("W07|header not at start", p, "the header is not written at the start of the output: "+st.Path())
		}
		ht := e.P.Named("WadHeader")
		if ht == nil {
			e.Undecided("no type WadHeader")
			return
		}
		if tn == "*WadHeader" || strings.HasPrefix(tn, "*") {
			d, _ := e.loadField(fr, st, x, ht, "DirectoryStart")
			n, _ := e.loadField(fr, st, x, ht, "LumpCount")
			st.mon["hdrdir"], st.mon["hdrcnt"] = d, n
		} else {
			st.mon["hdrdir"] = e.sfield(x, ht, "DirectoryStart")
			st.mon["hdrcnt"] = e.sfield(x, ht, "LumpCount")
		}
		if st.mon["hdrdir"] == nil || st.mon["hdrcnt"] == nil {
			e.Undecided("WadHeader fields not found")
		}
		m.advance(e, st, c, sz, "header")
	case tn == "[]LumpEntry":
		e.Ev("write of directory", c)
		if st.M("phase") != "done" {
			e.Violate("W08|directory before writer is finished", p, "the directory is written on a path on which the lump writer has not finished: "+st.Path())
		}
		if st.M("fail") != "" {
			return // the failure is remembered and prevents the success report
		}
		if !e.ProveEq(st, orT(st.mon["pos"]), orT(st.mon["hdrdir"])) {
			e.Violate("W07|directory not where header says", p, "the directory is written at "+orT(st.mon["pos"]).String()+" but the header says "+orT(st.mon["hdrdir"]).String()+": "+st.Path())
		}
		n := App("len", x)
		if !e.ProveEq(st, n, orT(st.mon["hdrcnt"])) {
			e.Violate("W07|directory length differs from header", p, "the directory written has "+n.String()+" entries but the header says "+orT(st.mon["hdrcnt"]).String()+": "+st.Path())
		}
		if st.mon["busle"] != nil && st.mon["busle"] != x {
			e.Violate("W07|directory is not the one the writer fills", p, "the directory written ("+x.String()+") is not the one given to the lump writer ("+st.mon["busle"].String()+"): "+st.Path())
		}
		delete(st.mon, "pos")
	default:
		e.Ev("other write by main flow", c)
		if pt := st.mon["pos"]; pt != nil {
			m.advance(e, st, c, sz, "data")
		}
	}
}

func orT(t *Term) *Term {
	if t == nil {
		return ConstS("unknown")
	}
	return t
}

func (m *mainFlow) advance(e *Engine, st *State, c ssa.CallInstruction, n *Term, what string) {
	pt := st.mon["pos"]
	if pt == nil {
		return
	}
	st.mon["prevpos"] = pt
	st.mon["lastn"] = n
	st.mon["pos"] = BinTerm(plusTok, pt, n, types.Typ[types.Int], types.Typ[types.Int])
	switch st.M("phase") {
	case "bus", "closing":
		e.Violate("W08|write while writer runs", e.P.InstrPos(c), "the output is written by the main flow while the lump writer may still be running: "+st.Path())
	}
}

func (m *mainFlow) startBus(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, args []*Term) {
	p := e.P.InstrPos(c)
	fn := c.Common().StaticCallee()
	var fout, le, cur *Term
	for i, pr := range fn.Params {
		switch {
		case qualName(pr.Type()) == "*os.File":
			fout = args[i]
		case qualName(pr.Type()) == "[]LumpEntry":
			le = args[i]
		case isInt(pr.Type()):
			cur = args[i]
		}
	}
	if fout == nil || le == nil || cur == nil {
		e.Undecided("StartWriteBus has no file, directory and position parameters")
		return
	}
	if st.mon["file:out"] != fout {
		e.Violate("W07|writer gets another file", p, "the lump writer is started on something else than the opened output: "+st.Path())
	}
	if st.M("header") == "" && st.M("fail") == "" {
		e.Violate("W07|writer started before header", p, "the lump writer is started before the header was written: "+st.Path())
	}
	if st.M("fail") != "" {
		return
	}
	if !e.ProveEq(st, cur, orT(st.mon["pos"])) {
		e.Violate("W07|lump data does not start at write position", p, "the writer is told position "+cur.String()+" but the output is at "+orT(st.mon["pos"]).String()+": "+st.Path())
	}
	// last reservation is the directory
	want := e.lenTimes(le, 16)
	if n := st.mon["lastn"]; n == nil || !(n == want || n == App("call:encoding/binary.Size", App("iface:[]LumpEntry", le)) || e.ProveEq(st, n, want)) {
		e.Violate("W07|space reserved is not the directory", p, "the space reserved before the lump data is "+orT(st.mon["lastn"]).String()+" bytes, not the size of the directory: "+st.Path())
	}
	st.mon["busle"] = le
	// the directory must be exactly what was reserved between zero area and lump data
	if d := st.mon["prevpos"]; d == nil || !e.ProveEq(st, d, orT(st.mon["hdrdir"])) {
		e.Violate("W07|reserved directory elsewhere", p, "the space reserved for the directory begins at "+orT(d).String()+" but the header says "+orT(st.mon["hdrdir"]).String()+": "+st.Path())
	}
	delete(st.mon, "prevpos")
	delete(st.mon, "lastn")
	delete(st.mon, "pos")
}

func (e *Engine) lenTimes(x *Term, n int64) *Term {
	m, c := linOf(App("len", x))
	for k := range m {
		m[k] *= n
	}
	return mkLin(m, c*n)
}

func (m *mainFlow) seek(e *Engine, fr *Frame, st *State, c ssa.CallInstruction, args []*Term) {
	p := e.P.InstrPos(c)
	switch st.M("phase") {
	case "bus", "closing":
		e.Violate("W08|seek while writer runs", p, "the output is repositioned while the lump writer may still be running: "+st.Path())
	}
	if w, ok := args[2].Int(); ok && w == 0 {
		st.mon["pos"] = args[1]
	} else {
		delete(st.mon, "pos")
	}
}
