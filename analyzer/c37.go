package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C37", checkC37) }

// A kpath is one way through a classification function: what it found out about
// the feature and the kind it answers.
type kpath struct {
	cond map[string]bool
	res  constant.Value
}

// paths of a classification function: the questions it asks about its first
// parameter are the atoms, helpers are entered.
type classify struct {
	c       *Ctx
	fn      *ssa.Function
	out     []kpath
	tooMany bool
}

// a csym is what is known of a value: a constant, or the question it is the
// answer to.
type csym struct {
	k    constant.Value
	key  string // an accessor chain starting at the feature; "" with ok is the feature
	ok   bool
	neg  bool   // boolean atom negated
	atom string // boolean atom
}

type cenv struct {
	vals   map[ssa.Value]csym
	parent *cenv
}

func (e *cenv) get(v ssa.Value) (csym, bool) {
	s, ok := e.vals[v]
	return s, ok
}

func copyEnv(m map[ssa.Value]csym) map[ssa.Value]csym {
	n := make(map[ssa.Value]csym, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func copyCond(m map[string]bool) map[string]bool {
	n := make(map[string]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *classify) eval(v ssa.Value, env map[ssa.Value]csym) csym {
	if s, ok := env[v]; ok {
		return s
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value != nil {
			return csym{k: t.Value}
		}
		return csym{}
	case *ssa.ChangeInterface:
		return x.eval(t.X, env)
	case *ssa.MakeInterface:
		return x.eval(t.X, env)
	case *ssa.ChangeType:
		return x.eval(t.X, env)
	case *ssa.Convert:
		return x.eval(t.X, env)
	case *ssa.TypeAssert:
		return x.eval(t.X, env)
	case *ssa.UnOp:
		s := x.eval(t.X, env)
		if t.Op == token.NOT {
			if s.k != nil && s.k.Kind() == constant.Bool {
				return csym{k: constant.MakeBool(!constant.BoolVal(s.k))}
			}
			if s.atom != "" {
				s.neg = !s.neg
				return s
			}
		}
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok {
			s := x.eval(ta.X, env)
			if t.Index == 0 {
				return s
			}
			if s.ok {
				return csym{atom: "is:" + typeName(ta.AssertedType) + "(" + s.key + ")"}
			}
		}
	case *ssa.Call:
		if r := recvOf(&t.Call); r != nil && len(argsOf(&t.Call)) == 0 {
			if s := x.eval(r, env); s.ok {
				key := s.key + "." + calleeName(&t.Call)
				if isBool(t.Type()) {
					return csym{atom: key}
				}
				return csym{ok: true, key: key}
			}
		}
	case *ssa.BinOp:
		if t.Op != token.EQL && t.Op != token.NEQ {
			break
		}
		a, b := t.X, t.Y
		if _, isC := a.(*ssa.Const); isC {
			a, b = b, a
		}
		if isNilConst(b) {
			// an assertion without the comma form's ok: nil when of another type
			y := a
			for {
				if ci, ok := y.(*ssa.ChangeInterface); ok {
					y = ci.X
					continue
				}
				break
			}
			s := x.eval(y, env)
			if !s.ok {
				break
			}
			atom := "nonnil:" + s.key
			if ex, ok := y.(*ssa.Extract); ok {
				if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
					atom = "is:" + typeName(ta.AssertedType) + "(" + s.key + ")"
				}
			}
			return csym{atom: atom, neg: t.Op == token.EQL}
		}
		sa, sb := x.eval(a, env), x.eval(b, env)
		if sa.k != nil && sb.k != nil && sa.k.Kind() == sb.k.Kind() {
			return csym{k: constant.MakeBool(constant.Compare(sa.k, token.EQL, sb.k) == (t.Op == token.EQL))}
		}
		if sa.ok && sb.k != nil {
			return csym{atom: sa.key + "==" + sb.k.ExactString(), neg: t.Op == token.NEQ}
		}
	}
	return csym{}
}

type cframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]csym
	site   *ssa.Call
	blk    *ssa.BasicBlock // where to go on in the caller
	idx    int
	parent *cframe
}

func (x *classify) run(b, pred *ssa.BasicBlock, start int, f *cframe, cond map[string]bool, steps int) {
	if len(x.out) > 4000 || steps > 400 {
		x.tooMany = true
		return
	}
	env := copyEnv(f.env)
	f = &cframe{f.fn, env, f.site, f.blk, f.idx, f.parent}
	if pred != nil {
		joined := map[ssa.Value]csym{}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, q := range b.Preds {
				if q == pred {
					joined[p] = x.eval(p.Edges[i], env)
				}
			}
		}
		for k, v := range joined {
			env[k] = v
		}
	}
	for i := start; i < len(b.Instrs); i++ {
		switch t := b.Instrs[i].(type) {
		case *ssa.Call:
			g := t.Call.StaticCallee()
			if g == nil || t.Call.IsInvoke() {
				continue
			}
			g = x.c.unwrap(g)
			if len(g.Blocks) == 0 || pkgPath(g) != x.c.Ecore.PkgPath {
				continue
			}
			depth := 0
			for p := f; p != nil; p = p.parent {
				depth++
				if p.fn == g {
					depth = 99
				}
			}
			about := false
			for _, a := range t.Call.Args {
				if s := x.eval(a, env); s.ok || s.atom != "" {
					about = true
				}
			}
			if depth > 5 || !about {
				continue
			}
			n := map[ssa.Value]csym{}
			for j, p := range g.Params {
				if j < len(t.Call.Args) {
					n[p] = x.eval(t.Call.Args[j], env)
				}
			}
			x.run(g.Blocks[0], nil, 0, &cframe{g, n, t, b, i + 1, f}, cond, steps+1)
			return
		case *ssa.Return:
			var r csym
			if len(t.Results) > 0 {
				r = x.eval(t.Results[0], env)
			}
			if f.parent == nil {
				x.out = append(x.out, kpath{cond, r.k})
				return
			}
			up := f.parent
			n := copyEnv(up.env)
			n[f.site] = r
			x.run(f.blk, nil, f.idx, &cframe{up.fn, n, up.site, up.blk, up.idx, up.parent}, cond, steps+1)
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			s := x.eval(t.Cond, env)
			if s.k != nil && s.k.Kind() == constant.Bool {
				j := 1
				if constant.BoolVal(s.k) {
					j = 0
				}
				x.run(b.Succs[j], b, 0, f, cond, steps+1)
				return
			}
			if s.atom != "" {
				if v, known := cond[s.atom]; known {
					j := 1
					if v != s.neg {
						j = 0
					}
					x.run(b.Succs[j], b, 0, f, cond, steps+1)
					return
				}
			}
			for j, succ := range b.Succs {
				cc := cond
				if s.atom != "" {
					cc = copyCond(cond)
					cc[s.atom] = (j == 0) != s.neg
					if !consistent(cc, s.atom) {
						continue
					}
				}
				x.run(succ, b, 0, f, cc, steps+1)
			}
			return
		case *ssa.Jump:
			x.run(b.Succs[0], b, 0, f, cond, steps+1)
			return
		}
	}
}

// consistent: a text is equal to one constant at most, and what is told about an
// absent object does not hold.
func consistent(cond map[string]bool, atom string) bool {
	if i := strings.Index(atom, "=="); i > 0 && cond[atom] {
		for a, v := range cond {
			if v && a != atom && strings.HasPrefix(a, atom[:i+2]) {
				return false
			}
		}
	}
	return true
}

// classifierPaths enumerates a classification function.
func (c *Ctx) classifierPaths(fn *ssa.Function, feature *ssa.Parameter) ([]kpath, bool) {
	x := &classify{c: c, fn: fn}
	x.run(fn.Blocks[0], nil, 0, &cframe{fn: fn, env: map[ssa.Value]csym{feature: {ok: true}}}, map[string]bool{}, 0)
	return x.out, !x.tooMany
}

// A kindType is an enumeration of kinds of features with its classifications.
type kindType struct {
	named       *types.Named
	names       map[string]string // exact value -> constant name
	classifiers []*ssa.Function
	paths       []kpath
	domain      map[string]bool // the kinds the classification answers
	dropped     map[string]bool // the kinds of features that are not saved
}

// featureParam: the parameter that is a feature.
func featureParam(fn *ssa.Function) *ssa.Parameter {
	for _, p := range fn.Params {
		switch typeName(p.Type()) {
		case "EStructuralFeature", "EReference", "EAttribute":
			return p
		}
	}
	return nil
}

func (c *Ctx) kindTypes() []*kindType {
	by := map[*types.Named]*kindType{}
	for _, fn := range c.Funcs {
		if fn.Signature.Results().Len() != 1 || featureParam(fn) == nil || len(fn.Blocks) == 0 {
			continue
		}
		n, ok := fn.Signature.Results().At(0).Type().(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != c.Ecore.PkgPath || !isInt(n) {
			continue
		}
		k := by[n]
		if k == nil {
			k = &kindType{named: n, names: map[string]string{}, domain: map[string]bool{}, dropped: map[string]bool{}}
			by[n] = k
			sc := c.Ecore.Types.Scope()
			for _, name := range sc.Names() {
				if o, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(o.Type(), n) {
					k.names[o.Val().ExactString()] = name
				}
			}
		}
		if len(k.names) < 2 {
			continue
		}
		k.classifiers = append(k.classifiers, fn)
	}
	var out []*kindType
	for _, k := range by {
		// helpers of a classification answer for part of the features
		called := map[*ssa.Function]bool{}
		for _, fn := range k.classifiers {
			for _, ci := range calls(fn) {
				if g := ci.Common().StaticCallee(); g != nil {
					called[c.unwrap(g)] = true
				}
			}
		}
		var top []*ssa.Function
		for _, fn := range k.classifiers {
			if !called[fn] {
				top = append(top, fn)
			}
		}
		if len(top) > 0 {
			k.classifiers = top
		}
		if len(k.names) >= 2 && len(k.classifiers) > 0 {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].named.Obj().Name() < out[j].named.Obj().Name() })
	return out
}

func (k *kindType) name(v string) string {
	if n := k.names[v]; n != "" {
		return n
	}
	return v
}

// about: what a path found out, by the last accessor of the atom.
func (p kpath) about(suffix string) (val, known bool) {
	for a, v := range p.cond {
		if a == suffix {
			return v, true
		}
	}
	return false, false
}

func (p kpath) isReference() (val, known bool) {
	for _, a := range []string{"is:EReference()"} {
		if v, ok := p.cond[a]; ok {
			return v, true
		}
	}
	if v, ok := p.cond["is:EAttribute()"]; ok {
		return !v, true
	}
	for a, v := range p.cond {
		if strings.HasPrefix(a, "is:EDataType(") {
			return !v, true
		}
	}
	return false, false
}

func (k *kindType) load(c *Ctx) {
	cls := k.named.Obj().Name()
	for _, fn := range k.classifiers {
		paths, complete := c.classifierPaths(fn, featureParam(fn))
		key := fname(fn)
		if !complete || len(paths) == 0 {
			c.Bad("classification", key, fn.Pos(), "%s has too many paths to be enumerated", key)
			continue
		}
		k.paths = append(k.paths, paths...)
		many, single := map[string]string{}, map[string]string{}
		refs, attrs := map[string]bool{}, map[string]bool{}
		bad := false
		report := func(what string, args ...any) {
			if !bad {
				c.Bad("classification", key, fn.Pos(), "%s %s", key, fmt.Sprintf(what, args...))
			}
			bad = true
		}
		isDropped := map[string]bool{}
		for _, p := range paths {
			if v, known := p.about(".IsTransient"); known && v && p.res != nil {
				isDropped[p.res.ExactString()] = true
			}
		}
		for _, p := range paths {
			if p.res == nil {
				report("answers something that is not one of the kinds of %s", cls)
				continue
			}
			r := p.res.ExactString()
			isRef, refKnown := p.isReference()
			if k.names[r] == "" {
				if at, known := p.cond["is:EAttribute()"]; refKnown && (isRef && p.cond["is:EReference()"] || known && at) {
					report("answers %s, which no kind of %s has", r, cls)
				}
				continue // neither an attribute nor a reference
			}
			k.domain[r] = true
			if isDropped[r] {
				k.dropped[r] = true
				t, _ := p.about(".IsTransient")
				cont, _ := p.about(".IsContainer")
				ser, serKnown := p.about(".GetEType.IsSerializable")
				if !serKnown {
					ser, serKnown = p.about(".GetEAttributeType.IsSerializable")
				}
				opp, _ := p.about(".GetEOpposite.IsContainment")
				if !(t || cont || opp || serKnown && !ser) {
					report("answers %s for a feature that is neither transient nor saved elsewhere", k.name(r))
				}
				continue
			}
			if cont, _ := p.about(".IsContainer"); !cont {
				m, known := p.about(".IsMany")
				if !known || m {
					many[r] = "1"
				}
				if !known || !m {
					single[r] = "1"
				}
			}
			if refKnown {
				if isRef {
					refs[r] = true
				} else {
					attrs[r] = true
				}
			}
		}
		for _, r := range sortedKeys(many) {
			if single[r] != "" {
				report("answers %s for single-valued and for many-valued features alike", k.name(r))
			}
		}
		for _, r := range keysOf(refs) {
			if attrs[r] {
				report("answers %s for attributes and references alike", k.name(r))
			}
		}
		if !bad {
			c.Ok("classification", key, fn.Pos())
		}
	}
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// A kgroup is a place where a kind is compared with constants.
type kgroup struct {
	k     *kindType
	fn    *ssa.Function
	v     ssa.Value
	tests []*ssa.BinOp
	first *ssa.BasicBlock
}

func (k *kindType) is(t types.Type) bool { return types.Identical(t, k.named) }

func (k *kindType) groups(c *Ctx) []*kgroup {
	var out []*kgroup
	for _, fn := range c.Funcs {
		by := map[ssa.Value]*kgroup{}
		isClass := false
		for _, x := range k.classifiers {
			if x == fn {
				isClass = true
			}
		}
		if isClass {
			continue
		}
		for _, b := range fn.DomPreorder() {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				v, kc := bo.X, bo.Y
				if _, isC := v.(*ssa.Const); isC {
					v, kc = kc, v
				}
				if !k.is(v.Type()) {
					continue
				}
				if _, isC := kc.(*ssa.Const); !isC {
					continue
				}
				v = sameLoad(v)
				g := by[v]
				if g == nil {
					g = &kgroup{k: k, fn: fn, v: v, first: b}
					by[v] = g
					out = append(out, g)
				}
				g.tests = append(g.tests, bo)
			}
		}
	}
	return out
}

// sameLoad: loads of the same field of the same object are one value here.
var loadMemo = map[string]ssa.Value{}

func sameLoad(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	key := fname(u.Parent()) + " " + pathOf(u.X).String()
	if m, ok := loadMemo[key]; ok && m.Parent() == v.Parent() {
		return m
	}
	loadMemo[key] = v
	return v
}

// under: the function when every kind in it is the given one.
func (g *kgroup) under(val constant.Value) (map[*ssa.BasicBlock]bool, map[[2]int]bool) {
	vals := map[ssa.Value]constant.Value{}
	for _, p := range g.fn.Params {
		if g.k.is(p.Type()) {
			vals[p] = val
		}
	}
	for _, p := range g.fn.FreeVars {
		if g.k.is(p.Type()) {
			vals[p] = val
		}
	}
	for _, b := range g.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && g.k.is(v.Type()) {
				vals[v] = val
			}
		}
	}
	return specialised(g.fn, vals)
}

type kinds struct {
	c *Ctx
	x *progress
}

// acts: the instruction does something with the feature.
func (s *kinds) acts(in ssa.Instruction, stores bool) bool {
	switch t := in.(type) {
	case *ssa.Store:
		_, local := rootOfAddr(t.Addr).(*ssa.Alloc)
		return stores && !local
	case *ssa.MapUpdate:
		return stores
	case *ssa.Return:
		if len(t.Results) == 0 {
			return false
		}
		r := t.Results[0]
		if isErrorType(r.Type()) {
			// the error of the call that did it
			return false
		}
		if k, ok := r.(*ssa.Const); ok {
			return k.Value != nil && k.Value.Kind() == constant.Bool && len(t.Results) == 1
		}
		return true
	case *ssa.Call:
		if g := t.Call.StaticCallee(); g != nil && pkgPath(g) == "fmt" {
			return false
		}
		return !s.x.pure(&t.Call)
	}
	return false
}

// region: the instructions from the block on, up to the next round of the loop or
// the return, following the given edges. all: each way through acts.
func (s *kinds) region(g *kgroup, from *ssa.BasicBlock, edges map[[2]int]bool, stores bool) (some, all bool) {
	headers := map[*ssa.BasicBlock]bool{}
	bodyActs := map[*ssa.BasicBlock]bool{}
	for _, l := range naturalLoops(g.fn) {
		if l.body[from] && l.header != from {
			headers[l.header] = true
		} else {
			for b := range l.body {
				for _, in := range b.Instrs {
					if s.acts(in, stores) {
						bodyActs[l.header] = true
					}
				}
			}
		}
	}
	all = true
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if headers[b] {
			all = false
			return
		}
		for _, in := range b.Instrs {
			if s.acts(in, stores) {
				some = true
				return
			}
		}
		if bodyActs[b] {
			some = true
			return
		}
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			all = false
			return
		case *ssa.Panic:
			return
		}
		for _, n := range b.Succs {
			if edges[[2]int{b.Index, n.Index}] {
				visit(n)
			}
		}
	}
	visit(from)
	return
}

// entry: the block a test that succeeded for the kind leads to, nil if the kind is
// not tested for.
func (g *kgroup) entry(v string, blocks map[*ssa.BasicBlock]bool) (*ssa.BasicBlock, bool) {
	for _, t := range g.tests {
		kc, ok := t.Y.(*ssa.Const)
		if !ok {
			kc = t.X.(*ssa.Const)
		}
		if kc.Value.ExactString() != v || !blocks[t.Block()] {
			continue
		}
		return t.Block(), true
	}
	return nil, false
}

func scopeOf(fn *ssa.Function) string {
	fn = topFn(fn)
	if r := fn.Signature.Recv(); r != nil {
		return typeName(deref(r.Type()))
	}
	return fname(fn)
}

// Kinds a dispatch does not handle because the feature data says that such
// features are not saved; it reports them as an error should they turn up.
var c37Reported = map[string]string{
	"BinaryEncoder bfkObjectContainer": "newFeatureData makes non-resolving container references transient",
}

func checkC37(c *Ctx) {
	c.Rule("classification", "a classification of features answers a declared kind for every feature, drops only transient or otherwise saved features, and keeps single-valued and many-valued, attributes and references apart")
	c.Rule("handled", "each kind the classification answers is handled explicitly where kinds are told apart, or by a default that does the work")
	c.Rule("acts", "the handling of a kind does something with the feature")
	s := &kinds{c: c, x: &progress{c: c, pures: map[*ssa.Function]int{}, wr: map[*ssa.Function]map[*types.Var]bool{}}}
	loadMemo = map[string]ssa.Value{}
	c.Rule("apart", "data is not handled as objects nor objects as data, and what has one value is not handled as a list nor a list as one value")
	kts := c.kindTypes()
	unknown := constant.MakeInt64(-4242)
	for _, k := range kts {
		k.load(c)
		groups := k.groups(c)
		type gk struct {
			g *kgroup
			v string
		}
		explicit, done := map[gk]bool{}, map[string][]*kgroup{}
		exact := map[string]constant.Value{}
		for _, p := range k.paths {
			if p.res != nil {
				exact[p.res.ExactString()] = p.res
			}
		}
		for _, g := range groups {
			for v := range k.domain {
				blocks, edges := g.under(exact[v])
				if at, ok := g.entry(v, blocks); ok {
					explicit[gk{g, v}] = true
					for _, n := range at.Succs {
						if edges[[2]int{at.Index, n.Index}] {
							if _, all := s.region(g, n, edges, false); all && !s.leaves(g, at, edges) {
								done[scopeOf(g.fn)+" "+v] = append(done[scopeOf(g.fn)+" "+v], g)
							}
						}
					}
				}
			}
		}
		for _, g := range groups {
			ub, ue := g.under(unknown)
			_ = ub
			vs := keysOf(k.domain)
			for _, v := range vs {
				if k.dropped[v] {
					continue
				}
				key := fname(g.fn) + " " + k.name(v)
				if n := groupNumber(groups, g); n > 0 {
					key += fmt.Sprintf(" #%d", n+1)
				}
				pos := g.tests[0].Pos()
				if pos == token.NoPos {
					pos = g.fn.Pos()
				}
				blocks, edges := g.under(exact[v])
				at, ok := g.entry(v, blocks)
				if !ok {
					// the default
					all := true
					for _, n := range g.first.Succs {
						if edges[[2]int{g.first.Index, n.Index}] {
							_, a := s.region(g, n, edges, false)
							all = all && a
						}
					}
					switch {
					case all:
						c.Ok("handled", key, pos)
					case s.earlier(done[scopeOf(g.fn)+" "+v], g):
						c.Ok("handled", key, pos)
					case c37Reported[scopeOf(g.fn)+" "+k.name(v)] != "" && reports(g, edges):
						c.Ok("handled", key, pos)
					default:
						c.Bad("handled", key, pos, "%s does not handle the kind %s", fname(g.fn), k.name(v))
					}
					continue
				}
				c.Ok("handled", key, pos)
				some := false
				for _, n := range at.Succs {
					if edges[[2]int{at.Index, n.Index}] {
						sm, _ := s.region(g, n, edges, true)
						some = some || sm
					}
				}
				if p := s.ignored(g, at, edges); p != nil && some {
					c.Bad("acts", key+" for a position", pos, "%s ignores features of the kind %s when %s has a certain value", fname(g.fn), k.name(v), p.Name())
				}
				if !some && !s.earlier(done[scopeOf(g.fn)+" "+v], g) {
					c.Bad("acts", key, pos, "%s does nothing for a feature of the kind %s", fname(g.fn), k.name(v))
				} else {
					c.Ok("acts", key, pos)
				}
			}
			_ = ue
		}
		s.apart(k, groups, exact)
		// what one place leaves to a later one in the same function must get there
		for _, g := range groups {
			for _, h := range groups {
				if g == h || g.fn != h.fn || !s.earlier([]*kgroup{g}, h) {
					continue
				}
				for _, v := range keysOf(k.domain) {
					if k.dropped[v] || !explicit[gk{g, v}] || !explicit[gk{h, v}] {
						continue
					}
					_, edges := g.under(exact[v])
					blocks := map[*ssa.BasicBlock]bool{}
					for b := range mapBlocks(g.fn) {
						blocks[b] = true
					}
					at, ok := g.entry(v, blocks)
					if !ok {
						continue
					}
					key := fname(g.fn) + " " + k.name(v) + " left for later"
					if s.notes(g, at, edges) {
						c.Ok("handled", key, at.Instrs[0].Pos())
					} else {
						c.Bad("handled", key, g.tests[0].Pos(), "%s handles features of the kind %s in a second pass, but the first pass never leaves any for it", fname(g.fn), k.name(v))
					}
				}
			}
		}
	}
	c.Floor("classification", 5)
	c.Floor("handled", 100)
	c.Floor("acts", 90)
	c.Floor("apart", 80)
}

// ignored: there is a way from the test on that does nothing and was only chosen
// by comparing a number given to the function.
func (s *kinds) ignored(g *kgroup, at *ssa.BasicBlock, edges map[[2]int]bool) *ssa.Parameter {
	seen := map[*ssa.BasicBlock]bool{}
	var why *ssa.Parameter
	var visit func(b *ssa.BasicBlock, p *ssa.Parameter) bool
	visit = func(b *ssa.BasicBlock, p *ssa.Parameter) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if s.acts(in, true) {
				return false
			}
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			why = p
			return p != nil
		case *ssa.Panic:
			return false
		case *ssa.If:
			n := 0
			for _, x := range b.Succs {
				if edges[[2]int{b.Index, x.Index}] {
					n++
				}
			}
			if n == 2 {
				bo, ok := t.Cond.(*ssa.BinOp)
				if !ok {
					return false
				}
				q, ok := bo.X.(*ssa.Parameter)
				_, isC := bo.Y.(*ssa.Const)
				if !ok || !isC || !isInt(q.Type()) {
					return false
				}
				p = q
			}
		}
		for _, n := range b.Succs {
			if edges[[2]int{b.Index, n.Index}] && visit(n, p) {
				return true
			}
		}
		return false
	}
	for _, n := range at.Succs {
		if edges[[2]int{at.Index, n.Index}] && visit(n, nil) {
			return why
		}
	}
	return nil
}

// earlier: one of the places deals with the kind before the group is reached.
func (s *kinds) earlier(ds []*kgroup, g *kgroup) bool {
	type place struct {
		fn *ssa.Function
		b  *ssa.BasicBlock
	}
	lift := func(g *kgroup) []place {
		out := []place{{g.fn, g.first}}
		for i := 0; i < len(out) && len(out) < 30; i++ {
			for _, ci := range s.c.staticCalls(out[i].fn) {
				out = append(out, place{ci.Parent(), ci.Block()})
			}
		}
		return out
	}
	for _, d := range ds {
		for _, a := range lift(d) {
			for _, b := range lift(g) {
				if a.fn == b.fn && a.b != b.b && reachesBlock(a.b, b.b) && !reachesBlock(b.b, a.b) {
					return true
				}
			}
		}
	}
	return false
}

func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

func mapBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		m[b] = true
	}
	return m
}

// What the code for a kind may do.
type kindEffects struct {
	create, convert, set, list token.Pos
}

// apart: the code for a kind does not treat the feature as one of another nature.
func (s *kinds) apart(k *kindType, groups []*kgroup, exact map[string]constant.Value) {
	many, single := map[string]bool{}, map[string]bool{}
	refs, attrs := map[string]bool{}, map[string]bool{}
	for _, p := range k.paths {
		if p.res == nil {
			continue
		}
		r := p.res.ExactString()
		if cont, _ := p.about(".IsContainer"); !cont {
			m, known := p.about(".IsMany")
			if !known || m {
				many[r] = true
			}
			if !known || !m {
				single[r] = true
			}
		}
		isRef, known := p.isReference()
		if !known || isRef {
			refs[r] = true
		}
		if !known || !isRef {
			attrs[r] = true
		}
	}
	dispatch := map[*ssa.Function]bool{}
	for _, g := range groups {
		dispatch[topFn(g.fn)] = true
	}
	memo := map[*ssa.Function]*kindEffects{}
	var ofFn func(fn *ssa.Function) *kindEffects
	var ofInstr func(in ssa.Instruction, e *kindEffects)
	join := func(e, o *kindEffects, at token.Pos) {
		if o.create != 0 && e.create == 0 {
			e.create = at
		}
		if o.convert != 0 && e.convert == 0 {
			e.convert = at
		}
		if o.set != 0 && e.set == 0 {
			e.set = at
		}
		if o.list != 0 && e.list == 0 {
			e.list = at
		}
	}
	ofFn = func(fn *ssa.Function) *kindEffects {
		if e := memo[fn]; e != nil {
			return e
		}
		e := &kindEffects{}
		memo[fn] = e
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ofInstr(in, e)
			}
		}
		return e
	}
	ofInstr = func(in ssa.Instruction, e *kindEffects) {
		at := in.Pos()
		if at == 0 {
			at = in.Parent().Pos()
		}
		switch t := in.(type) {
		case *ssa.MakeClosure:
			join(e, ofFn(t.Fn.(*ssa.Function)), at)
		case *ssa.TypeAssert:
			if !t.CommaOk && typeName(t.AssertedType) == "EList" && e.list == 0 {
				e.list = at
			}
		case ssa.CallInstruction:
			cc := t.Common()
			if cc.IsInvoke() {
				switch n := cc.Method.Name(); {
				case n == "Create" && typeName(cc.Value.Type()) == "EFactory":
					e.create = at
				case n == "ConvertToString" || n == "CreateFromString":
					e.convert = at
				case n == "ESet" || n == "ESetFromID":
					e.set = at
				}
				return
			}
			g := cc.StaticCallee()
			if g == nil {
				return
			}
			g = s.c.unwrap(g)
			if pkgPath(g) != s.c.Ecore.PkgPath || len(g.Blocks) == 0 || dispatch[g] || scopeOf(g) != scopeOf(in.Parent()) {
				// what others do is not about this feature
				return
			}
			join(e, ofFn(g), at)
		}
	}
	done := map[string]bool{}
	for _, g := range groups {
		for _, v := range keysOf(k.domain) {
			if k.dropped[v] || many[v] && single[v] || refs[v] && attrs[v] {
				continue
			}
			key := fname(g.fn) + " " + k.name(v)
			if done[key] {
				continue
			}
			done[key] = true
			blocks, _ := g.under(exact[v])
			e := &kindEffects{}
			for _, b := range g.fn.Blocks {
				if !blocks[b] {
					continue
				}
				for _, in := range b.Instrs {
					ofInstr(in, e)
				}
			}
			bad, pos := "", token.NoPos
			switch {
			case attrs[v] && e.create != 0:
				bad, pos = "creates objects for data", e.create
			case refs[v] && e.convert != 0:
				bad, pos = "converts objects as if they were data", e.convert
			case many[v] && e.set != 0:
				bad, pos = "sets a many-valued feature as if it had one value", e.set
			case single[v] && e.list != 0:
				bad, pos = "takes the value of a single-valued feature for a list", e.list
			}
			if bad == "" {
				pos = g.tests[0].Pos()
			}
			s.c.Decide(bad == "", "apart", key, pos, "%s %s of the kind %s", fname(g.fn), bad, k.name(v))
		}
	}
}

// leaves: what the place does not deal with is recorded for later.
func (s *kinds) leaves(g *kgroup, at *ssa.BasicBlock, edges map[[2]int]bool) bool {
	for _, l := range naturalLoops(g.fn) {
		if l.body[at] {
			return s.notes(g, at, edges)
		}
	}
	return false
}

// notes: before the next round something is recorded (an element stored, an entry
// made, a slice grown).
func (s *kinds) notes(g *kgroup, at *ssa.BasicBlock, edges map[[2]int]bool) bool {
	stop := map[*ssa.BasicBlock]bool{}
	for _, l := range naturalLoops(g.fn) {
		if l.body[at] {
			stop[l.header] = true
		}
	}
	if len(stop) == 0 {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{at: true}
	work := []*ssa.BasicBlock{at}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, in := range b.Instrs {
			if b == at {
				break
			}
			switch t := in.(type) {
			case *ssa.Store:
				if _, local := rootOfAddr(t.Addr).(*ssa.Alloc); !local {
					return true
				}
			case *ssa.MapUpdate:
				return true
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					return true
				}
			}
		}
		for _, n := range b.Succs {
			if edges[[2]int{b.Index, n.Index}] && !seen[n] && !stop[n] {
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return false
}

func groupNumber(gs []*kgroup, g *kgroup) int {
	n := 0
	for _, x := range gs {
		if x == g {
			return n
		}
		if x.fn == g.fn {
			n++
		}
	}
	return 0
}

// reports: all ways end in a return with an error.
func reports(g *kgroup, edges map[[2]int]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			last := r.Results[len(r.Results)-1]
			return isErrorType(last.Type()) && !isNilConst(last)
		}
		for _, n := range b.Succs {
			if edges[[2]int{b.Index, n.Index}] && !visit(n) {
				return false
			}
		}
		return true
	}
	return visit(g.first)
}
