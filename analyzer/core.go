package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation. Its identity is Rule + Key, never a line.
type Finding struct {
	Rule, Key, Msg string
	Pos            token.Pos
}

func (f *Finding) ID() string { return f.Rule + " " + f.Key }

type ruleStat struct {
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Samples     []string `json:"samples"`
	Desc        string   `json:"rule"`
}

// Ctx is what one check works with.
type Ctx struct {
	*Program
	Check      string
	Findings   []*Finding
	seen       map[string]bool
	rules      map[string]*ruleStat
	Notes      map[string]any
	Assume     []string
	siteMemo   map[*ssa.Function][]ssa.CallInstruction
	nilReports map[*ssa.Function]map[int]bool
}

func newCtx(p *Program, id string) *Ctx {
	return &Ctx{Program: p, Check: id, seen: map[string]bool{}, rules: map[string]*ruleStat{}, Notes: map[string]any{}}
}

// Rule declares a rule and its text for the evidence.
func (c *Ctx) Rule(rule, desc string) { c.stat(rule).Desc = desc }

func (c *Ctx) stat(rule string) *ruleStat {
	s := c.rules[rule]
	if s == nil {
		s = &ruleStat{}
		c.rules[rule] = s
	}
	return s
}

// Ok records a discharged obligation.
func (c *Ctx) Ok(rule, key string, pos token.Pos) {
	s := c.stat(rule)
	s.Obligations++
	s.Discharged++
	if len(s.Samples) < 6 {
		s.Samples = append(s.Samples, key+" @ "+c.at(pos))
	}
}

// Bad records a violated obligation.
func (c *Ctx) Bad(rule, key string, pos token.Pos, format string, args ...any) {
	s := c.stat(rule)
	s.Obligations++
	f := &Finding{Rule: rule, Key: key, Pos: pos, Msg: fmt.Sprintf(format, args...)}
	if c.seen[f.ID()] {
		return
	}
	c.seen[f.ID()] = true
	c.Findings = append(c.Findings, f)
}

// Decide records an obligation either way.
func (c *Ctx) Decide(ok bool, rule, key string, pos token.Pos, format string, args ...any) {
	if ok {
		c.Ok(rule, key, pos)
	} else {
		c.Bad(rule, key, pos, format, args...)
	}
}

// Floor fails when a rule matched fewer instances than it must on any sane tree.
func (c *Ctx) Floor(rule string, min int) {
	s := c.stat(rule)
	if s.Obligations < min {
		c.Bad(rule, "floor", token.NoPos, "rule matched %d instances, expected at least %d: the construct it analyses is gone or unrecognised", s.Obligations, min)
	}
}

func (c *Ctx) at(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	p := c.Fset.Position(pos)
	rel, err := filepath.Rel(c.Root, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	return fmt.Sprintf("%s:%d", rel, p.Line)
}

// ---------------------------------------------------------------- main

type checkDef struct {
	id  string
	run func(*Ctx)
}

var checks []checkDef

func register(id string, run func(*Ctx)) { checks = append(checks, checkDef{id, run}) }

func main() {
	var id, repo, verif string
	var verbose bool
	args := os.Args[1:]
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-check":
			i++
			id = args[i]
		case "-repo":
			i++
			repo = args[i]
		case "-verif":
			i++
			verif = args[i]
		case "-v":
			verbose = true
		}
	}
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	start := time.Now()
	p, err := load(repo)
	if err != nil {
		if id == "all" || id == "" {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		c := newCtx(nil, id)
		c.Program = &Program{Root: repo, Fset: token.NewFileSet()}
		c.Bad("load", "typecheck", token.NoPos, "the current source cannot be loaded: %v", err)
		os.Exit(finish(c, verif, start, verbose))
	}
	sort.Slice(checks, func(i, j int) bool { return checks[i].id < checks[j].id })
	rc := 0
	found := false
	for _, ck := range checks {
		if id != "all" && ck.id != id {
			continue
		}
		found = true
		c := newCtx(p, ck.id)
		t := time.Now()
		if id != "all" {
			t = start
		}
		runGuarded(c, ck.run)
		if r := finish(c, verif, t, verbose); r != 0 {
			rc = r
		}
	}
	if !found {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	os.Exit(rc)
}

func runGuarded(c *Ctx, run func(*Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(r)
			}
			c.Bad("internal", "panic", token.NoPos, "the analysis could not interpret the current source: %v", r)
		}
	}()
	run(c)
}

// known findings: lines "finding: property=<id> <rule> <key> -- text" and
// "fixed: property=<id> <commit> text" (the latter suppress nothing).
func loadKnown(verif, id string) map[string]string {
	known := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return known
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	prefix := "finding: property=" + id + " "
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, prefix) {
			continue
		}
		rest := line[len(prefix):]
		key, text, _ := strings.Cut(rest, " -- ")
		known[strings.TrimSpace(key)] = text
	}
	return known
}

func finish(c *Ctx, verif string, start time.Time, verbose bool) int {
	known := loadKnown(verif, c.Check)
	sort.SliceStable(c.Findings, func(i, j int) bool { return c.Findings[i].ID() < c.Findings[j].ID() })
	var bad []*Finding
	var knownHit []string
	for _, f := range c.Findings {
		if text, ok := known[f.ID()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", c.Check, f.ID(), c.at(f.Pos), text)
			knownHit = append(knownHit, f.ID())
			continue
		}
		bad = append(bad, f)
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join(verif, "evidence", "replay-"+c.Check+".txt")
	if len(bad) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d violated obligation(s); reproduce with: %s/check.sh %s\n", c.Check, len(bad), verif, c.Check)
		for _, f := range bad {
			fmt.Fprintf(&sb, "\n[%s] %s\n  at %s\n  %s\n", f.Rule, f.Key, c.at(f.Pos), f.Msg)
		}
		_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, f := range bad {
			if i == 40 {
				fmt.Printf("  ... %d more in %s\n", len(bad)-i, replay)
				break
			}
			fmt.Printf("  [%s] %s at %s: %s\n", f.Rule, f.Key, c.at(f.Pos), f.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check, replay)
	} else {
		_ = os.Remove(replay)
	}
	// evidence
	obl, dis := 0, 0
	var samples []string
	names := []string{}
	for n, s := range c.rules {
		obl += s.Obligations
		dis += s.Discharged
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for i, s := range c.rules[n].Samples {
			if i < 3 {
				samples = append(samples, n+": "+s)
			}
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	files := 0
	nf := 0
	if c.Ecore != nil {
		files = len(c.Ecore.Syntax)
		nf = len(c.Funcs)
	}
	ruleDesc := map[string]string{}
	for n, s := range c.rules {
		ruleDesc[n] = s.Desc
	}
	ev := map[string]any{
		"property": c.Check, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":        "static analysis of the type-checked and SSA-lowered current source of /repo/ecore; each obligation is one construct (function, path, call site, field or table entry) the rule was applied to",
			"files_loaded":       files,
			"functions_analysed": nf,
			"obligations":        obl,
			"discharged":         dis,
			"known_findings":     knownHit,
			"rules":              c.rules,
			"samples":            samples,
			"notes":              c.Notes,
		},
		"assumptions": append([]string{"go/types and x/tools SSA model the Go program faithfully; reflection, unsafe and code outside /repo/ecore are not analysed"}, c.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.Check+".json"), b, 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 1
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violations (%.1fs)\n", c.Check, obl, dis, len(knownHit), len(bad), time.Since(start).Seconds())
	if verbose {
		for _, n := range names {
			s := c.rules[n]
			fmt.Printf("   %-28s %d/%d\n", n, s.Discharged, s.Obligations)
		}
	}
	if len(bad) > 0 {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- program model

// buildSSA lowers ecore and collects its functions.
func (p *Program) buildSSA() {
	prog := ssa.NewProgram(p.Fset, ssa.InstantiateGenerics|ssa.BuildSerially)
	packages.Visit(p.Pkgs, nil, func(x *packages.Package) {
		if x.Types == nil {
			return
		}
		if x == p.Ecore {
			p.EcoreSSA = prog.CreatePackage(x.Types, x.Syntax, x.TypesInfo, true)
		} else {
			prog.CreatePackage(x.Types, nil, nil, true)
		}
	})
	p.EcoreSSA.Build()
	p.SSA = prog
	p.collect()
}

func (p *Program) isMockFile(pos token.Pos) bool {
	if !pos.IsValid() {
		return false
	}
	return strings.HasSuffix(p.Fset.Position(pos).Filename, "_mock.go")
}

func (p *Program) collect() {
	p.Decls = map[*types.Func]*ast.FuncDecl{}
	p.byObj = map[*types.Func]*ssa.Function{}
	for _, f := range p.Ecore.Syntax {
		if p.isMockFile(f.Pos()) {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if o, ok := p.Ecore.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					p.Decls[o] = fd
				}
			}
		}
	}
	var add func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		p.Funcs = append(p.Funcs, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	scope := p.Ecore.Types.Scope()
	objs := []*types.Func{}
	for o := range p.Decls {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		fn := p.SSA.FuncValue(o)
		if fn == nil {
			continue
		}
		p.byObj[o] = fn
		add(fn)
	}
	if init := p.EcoreSSA.Func("init"); init != nil {
		p.Init = init
		add(init)
	}
	// package-level variable initialisers may hold closures
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || p.isMockFile(tn.Pos()) {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		p.Named = append(p.Named, named)
	}
	p.implCache = map[string][]*ssa.Function{}
}

// fname is the stable display name of a function: receiver type and name;
// closures carry the name of the function that declares them.
func fname(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fname(fn.Parent()) + "$func"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if r := fn.Signature.Recv(); r != nil {
		return recvTypeName(r.Type()) + "." + fn.Name()
	}
	return fn.Name()
}

func recvTypeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// topFn is the declared function a closure belongs to.
func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// include decides a rule of another property as part of this one: what it
// requires here rests on it.
func (c *Ctx) include(id, rule, as string) {
	o := newCtx(c.Program, id)
	for _, d := range checks {
		if d.id == id {
			d.run(o)
		}
	}
	from := o.stat(rule)
	to := c.stat(as)
	to.Desc = from.Desc
	to.Obligations += from.Obligations
	to.Discharged += from.Discharged
	to.Samples = append(to.Samples, from.Samples...)
	for _, f := range o.Findings {
		if f.Rule == rule {
			g := *f
			g.Rule = as
			if !c.seen[g.ID()] {
				c.seen[g.ID()] = true
				c.Findings = append(c.Findings, &g)
			}
		}
	}
}
