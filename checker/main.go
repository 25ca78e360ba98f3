package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Ctx collects what the rules of one property did.
type Ctx struct {
	P     *Prog
	Prop  string
	Tier  string
	Finds []Finding
	Cnt   map[string]int
	Sites map[string][]string
	Rules []string
	seen  map[string]bool
}

func (c *Ctx) Rule(text string) {
	for _, r := range c.Rules {
		if r == text {
			return
		}
	}
	c.Rules = append(c.Rules, text)
}

// Viol reports a violation; key names rule and construct independent of position.
func (c *Ctx) Viol(rule, key, pos, msg string) {
	k := rule + ":" + key
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Finds = append(c.Finds, Finding{Rule: rule, Key: k, Pos: pos, Msg: msg})
}

// Undecided: the rule's anchors or its analysis do not fit the current source;
// the property is then not shown to hold.
func (c *Ctx) Undecided(rule, msg string) {
	c.Viol(rule, "undecided:"+msg, "?", "cannot be decided: "+msg)
}

func (c *Ctx) Count(name string, n int) { c.Cnt[name] += n }

// Site counts a distinct analysed construct.
func (c *Ctx) Site(name, pos string) {
	for _, s := range c.Sites[name] {
		if s == pos {
			return
		}
	}
	c.Sites[name] = append(c.Sites[name], pos)
	c.Cnt[name] = len(c.Sites[name])
}

// Min requires at least n instances of what a rule quantifies over: a rule that
// finds nothing to check must not pass.
func (c *Ctx) Min(rule, name string, n int) {
	if c.Cnt[name] < n {
		c.Undecided(rule, fmt.Sprintf("only %d instances of %q found, expected at least %d", c.Cnt[name], name, n))
	}
}

// Take merges an engine run: findings whose key starts with "<prop>|" of this
// property, undecided conditions, event counts.
func (c *Ctx) Take(e *Engine) {
	for _, f := range e.Viol {
		pr, rest, ok := strings.Cut(f.Key, "|")
		if ok && pr != c.Prop {
			continue
		}
		if !ok {
			rest = f.Key
		}
		c.Viol(e.R.Name, rest, f.Pos, f.Msg)
	}
	for _, u := range e.Undec {
		c.Undecided(e.R.Name, u)
	}
	var ks []string
	for k := range e.evSites {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, s := range sortedKeys(e.evSites[k]) {
			c.Site(e.R.Name+": "+k, s)
		}
	}
	for f := range e.inlined {
		c.Site(e.R.Name+": functions analysed path-sensitively", FullName(f))
	}
	c.Count(e.R.Name+": abstract instructions executed", e.steps)
}

type known struct{ prop, key, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		r = append(r, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return r
}

func main() {
	debug.SetGCPercent(400)
	list := flag.Bool("listfuncs", false, "print what reviewed_funcs.txt should hold")
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", "quick", "")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	noev := flag.Bool("noevidence", false, "")
	verbose := flag.Bool("v", false, "")
	prof := flag.String("cpuprofile", "", "")
	flag.BoolVar(&debugEngine, "debug", false, "")
	flag.Parse()
	start := time.Now()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var ids []string
	if *prop == "all" {
		for k := range properties {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	p, err := loadSafe(*repo)
	if *list && err == nil {
		fmt.Print(listFuncs(p.Pkg))
		return
	}
	if p != nil {
		for _, n := range p.Notes {
			fmt.Fprintln(os.Stderr, "normalise:", n)
		}
	}
	for _, id := range ids {
		t0 := time.Now()
		c := &Ctx{P: p, Prop: id, Tier: *tier, Cnt: map[string]int{}, Sites: map[string][]string{}, seen: map[string]bool{}}
		if err != nil {
			c.Undecided("load", err.Error())
		} else {
			run(c)
		}
		wall := time.Since(t0).Seconds()
		if len(ids) == 1 {
			wall = time.Since(start).Seconds()
		}
		if report(c, *verif, wall, *noev, *verbose) {
			code = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func loadSafe(repo string) (p *Prog, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic while loading: %v\n%s", r, debug.Stack())
		}
	}()
	return Load(repo)
}

func run(c *Ctx) {
	pr, ok := properties[c.Prop]
	if !ok {
		c.Undecided("driver", "no rules registered for "+c.Prop)
		return
	}
	for _, r := range pr.Rules {
		func() {
			defer func() {
				if x := recover(); x != nil {
					c.Undecided("internal", fmt.Sprintf("panic in checker: %v\n%s", x, debug.Stack()))
				}
			}()
			r(c)
		}()
	}
}

func report(c *Ctx, verif string, wall float64, noev, verbose bool) bool {
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	type vrec struct {
		Rule, Key, Pos, Msg string
	}
	var viol []vrec
	nk := 0
	for _, f := range c.Finds {
		hit := false
		for _, k := range kn {
			if k.prop == c.Prop && k.key == strings.ReplaceAll(f.Key, " ", "_") {
				hit = true
				nk++
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.Prop, k.text, f.Pos)
			}
		}
		if !hit {
			viol = append(viol, vrec{f.Rule, f.Key, f.Pos, f.Msg})
		}
	}
	dir := filepath.Join(verif, "evidence")
	replay := filepath.Join(dir, c.Prop+".violation.txt")
	if !noev {
		os.MkdirAll(dir, 0o755)
		os.Remove(replay)
	}
	if len(viol) > 0 {
		var b strings.Builder
		for _, v := range viol {
			fmt.Fprintf(&b, "%s: [%s] %s\n    construct: %s\n", v.Pos, v.Rule, v.Msg, v.Key)
		}
		fmt.Print(b.String())
		if !noev {
			os.WriteFile(replay, []byte(b.String()), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	}
	pr := properties[c.Prop]
	cov := map[string]any{"known_findings": nk, "counts": c.Cnt, "rules": c.Rules, "explanation": explanation(verif, c.Prop, pr.Expl)}
	if c.P != nil {
		cov["functions_in_program"] = len(c.P.Funcs)
	}
	smp := map[string][]string{}
	for k, v := range c.Sites {
		s := append([]string(nil), v...)
		sort.Strings(s)
		if len(s) > 40 {
			s = append(s[:40], fmt.Sprintf("... %d more", len(v)-40))
		}
		smp[k] = s
	}
	cov["sites"] = smp
	if !noev {
		ev := map[string]any{"property": c.Prop, "tier": c.Tier, "seed": 1, "level": "other", "coverage": cov, "wall_s": wall, "violations": len(viol)}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(dir, c.Prop+".json"), b, 0o644)
	}
	if verbose {
		var ks []string
		for k := range c.Cnt {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %6d %s %v\n", c.Cnt[k], k, smp[k])
		}
	}
	fmt.Printf("%s: %d violations, %d known findings, %.1fs\n", c.Prop, len(viol), nk, wall)
	return len(viol) > 0
}

// explanation of what the check of a property does, from the manifest
func explanation(verif, prop, def string) string {
	b, err := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct {
				Property, Technique string
				Level_note          string
			}
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == prop {
					return "Decided by " + c.Technique + ". " + c.Level_note
				}
			}
		}
	}
	if def == "" {
		def = "static analysis of the current source"
	}
	return def
}

type Property struct {
	Expl  string
	Rules []func(*Ctx)
}
