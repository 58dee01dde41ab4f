package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C42: fragment segments are decoded with the inverse of their encoding.

func init() {
	register("C42", checkC42)
}

var inverseCoding = map[string]string{
	"net/url.PathEscape": "net/url.PathUnescape", "net/url.QueryEscape": "net/url.QueryUnescape",
	"net/url.PathUnescape": "net/url.PathEscape", "net/url.QueryUnescape": "net/url.QueryEscape",
}

// segmentFlow follows strings from their sources: which codings they went through.
type segmentFlow struct {
	c    *Ctx
	vals map[ssa.Value]map[string]bool // codings applied, in order
	fns  map[*ssa.Function]bool
	rets map[*ssa.Function]map[int]map[string]bool
	ints map[ssa.Value]bool // numbers read in a segment
}

func newSegmentFlow(c *Ctx) *segmentFlow {
	return &segmentFlow{c: c, vals: map[ssa.Value]map[string]bool{}, fns: map[*ssa.Function]bool{}, rets: map[*ssa.Function]map[int]map[string]bool{}, ints: map[ssa.Value]bool{}}
}

func (s *segmentFlow) put(v ssa.Value, code string) bool {
	if strings.Count(code, ">") > 3 {
		return false
	}
	if s.vals[v] == nil {
		s.vals[v] = map[string]bool{}
	}
	if s.vals[v][code] {
		return false
	}
	s.vals[v][code] = true
	return true
}

func (s *segmentFlow) copy(to, from ssa.Value) bool {
	ch := false
	for k := range s.vals[from] {
		ch = s.put(to, k) || ch
	}
	if s.ints[from] && !s.ints[to] {
		s.ints[to] = true
		ch = true
	}
	return ch
}

func stringLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Byte || u.Kind() == types.Rune
	case *types.Slice:
		return stringLike(u.Elem())
	}
	return false
}

// run follows the values to a fixpoint in the functions they reach.
func (s *segmentFlow) run() {
	c := s.c
	for changed := true; changed; {
		changed = false
		set := func(b bool) { changed = changed || b }
		for _, fn := range c.Funcs {
			if !s.fns[fn] && !s.fns[topFn(fn)] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch t := in.(type) {
					case *ssa.Phi:
						for _, e := range t.Edges {
							set(s.copy(t, e))
						}
					case *ssa.Slice:
						set(s.copy(t, t.X))
					case *ssa.ChangeType:
						set(s.copy(t, t.X))
					case *ssa.Convert:
						set(s.copy(t, t.X))
					case *ssa.BinOp:
						if t.Op == token.ADD || t.Op == token.SUB {
							set(s.copy(t, t.X))
							set(s.copy(t, t.Y))
						}
					case *ssa.MakeInterface:
						if stringLike(t.X.Type()) {
							set(s.copy(t, t.X))
						}
					case *ssa.IndexAddr:
						set(s.copy(t, t.X))
					case *ssa.Index:
						if stringLike(t.Type()) {
							set(s.copy(t, t.X))
						}
					case *ssa.UnOp:
						if t.Op == token.MUL {
							if addr := cellAddr(t.X); addr != nil {
								set(s.copy(t, addr))
							}
							if _, ok := t.X.(*ssa.IndexAddr); ok {
								set(s.copy(t, t.X))
							}
						}
					case *ssa.Store:
						if addr := cellAddr(t.Addr); addr != nil {
							set(s.copy(addr, t.Val))
						}
						if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
							if al, ok := ia.X.(*ssa.Alloc); ok {
								set(s.copy(al, t.Val))
							}
						}
					case *ssa.Return:
						for i, r := range t.Results {
							for k := range s.vals[r] {
								if s.rets[fn] == nil {
									s.rets[fn] = map[int]map[string]bool{}
								}
								if s.rets[fn][i] == nil {
									s.rets[fn][i] = map[string]bool{}
								}
								if !s.rets[fn][i][k] {
									s.rets[fn][i][k] = true
									changed = true
								}
							}
						}
					case *ssa.Extract:
						call, ok := t.Tuple.(*ssa.Call)
						if !ok {
							continue
						}
						g := c.unwrap2(call.Call.StaticCallee())
						for k := range s.rets[g][t.Index] {
							set(s.put(t, k))
						}
						if s.ints[call] && intType(t.Type()) && !s.ints[t] {
							s.ints[t] = true
							changed = true
						}
						if stringLike(t.Type()) {
							set(s.copy(t, call))
						}
					case *ssa.Call:
						set(s.call(t))
					}
				}
			}
		}
	}
}

func cellAddr(addr ssa.Value) ssa.Value {
	if fv, ok := addr.(*ssa.FreeVar); ok {
		addr = rootBinding(fv)
	}
	if al, ok := addr.(*ssa.Alloc); ok {
		return al
	}
	return nil
}

func (s *segmentFlow) call(t *ssa.Call) bool {
	c, ch := s.c, false
	g := c.unwrap2(t.Call.StaticCallee())
	if g == nil || !c.isEcore(pkgPath(g)) {
		name := ""
		if g != nil {
			name = g.String()
		}
		for _, a := range t.Call.Args {
			if len(s.vals[a]) == 0 {
				continue
			}
			if inverseCoding[name] != "" {
				for k := range s.vals[a] {
					ch = s.put(t, k+">"+name) || ch
				}
				continue
			}
			if strings.HasPrefix(name, "strconv.") {
				if !s.ints[t] && g.Signature.Results().Len() > 1 {
					s.ints[t] = true
					ch = true
				}
				continue
			}
			// a part of it
			if g != nil && (strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "fmt.Sprint")) || t.Call.Value.Name() == "append" {
				if stringLike(t.Type()) || isTuple(t.Type()) {
					ch = s.copy(t, a) || ch
				}
			}
		}
		return ch
	}
	any := false
	for i, a := range t.Call.Args {
		if i < len(g.Params) && (len(s.vals[a]) > 0 && stringLike(g.Params[i].Type()) || s.ints[a]) {
			ch = s.copy(g.Params[i], a) || ch
			any = true
		}
	}
	if any && !s.fns[g] && len(g.Blocks) > 0 {
		s.fns[g] = true
		ch = true
	}
	if g.Signature.Results().Len() == 1 && g.Name() != "EURIFragmentSegment" {
		for k := range s.rets[g][0] {
			ch = s.put(t, k) || ch
		}
	}
	return ch
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

type fragments struct {
	c      *Ctx
	build  *segmentFlow
	found  map[ssa.Value]bool
	fields map[string]*types.Var
	flow   *segmentFlow
	// the codings of the names compared, path by path
	decoded map[string]map[string]bool
}

func checkC42(c *Ctx) {
	c.Rule("inverse", "what a segment is built from is compared, when it is resolved, with the segment decoded by the inverse of the encoding it was built with")
	c.Rule("position", "a position in a segment, in a path or found in a segment is known to be within what it is used on")
	c.Rule("absent", "what a segment names may be nothing: it is tested before it is used, and nothing crashes when it is")
	c.Rule("number", "a number in a segment is used only where it could be read")
	c.Rule("fragment", "the fragment of a URI is read the way it is written")
	c.Rule("count", "the elements counted when a segment is built are the ones skipped when it is resolved")
	m := &fragments{c: c, found: map[ssa.Value]bool{}, decoded: map[string]map[string]bool{}}
	build, res := newSegmentFlow(c), newSegmentFlow(c)
	m.build, m.flow = build, res
	var builders, resolvers []*ssa.Function
	for _, fn := range c.Funcs {
		if c.isMockFile(fn.Pos()) || fn.Synthetic != "" || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		sig := fn.Signature
		switch {
		case fn.Name() == "EURIFragmentSegment":
			builders = append(builders, fn)
			build.fns[fn] = true
		case fn.Name() == "EObjectForFragmentSegment":
			resolvers = append(resolvers, fn)
			res.fns[fn] = true
			res.put(fn.Params[len(fn.Params)-1], "")
		case fn.Name() == "GetEObject" && sig.Results().Len() == 1 && len(fn.Params) > 0 && isString(fn.Params[len(fn.Params)-1].Type()):
			res.fns[fn] = true
			res.put(fn.Params[len(fn.Params)-1], "")
		}
	}
	// a segment is built from what it asks of the object
	for _, fn := range c.Funcs {
		if build.fns[topFn(fn)] {
			for _, cl := range calls(fn) {
				v, ok := cl.(*ssa.Call)
				if ok && isString(v.Type()) && strings.HasPrefix(calleeName(&v.Call), "Get") && len(argsOf(&v.Call)) == 0 {
					build.put(v, calleeName(&v.Call))
				}
			}
		}
	}
	build.run()
	res.run()
	m.counts(builders, resolvers)
	m.inverse(builders, resolvers)
	for _, fn := range c.Funcs {
		if res.fns[fn] || res.fns[topFn(fn)] {
			m.findings(fn)
		}
	}
	for _, fn := range c.Funcs {
		if (res.fns[fn] || res.fns[topFn(fn)]) && len(fn.Blocks) > 0 && fn.Synthetic == "" && !c.isMockFile(fn.Pos()) {
			if fn.Parent() == nil {
				m.positions(fn)
			}
			m.absent(fn)
			m.numbers(fn)
		}
	}
	m.fragment()
	m.separators()
	c.Notes["builders"] = len(builders)
	c.Notes["resolving functions"] = len(res.fns)
	c.Floor("inverse", 3)
	c.Floor("position", 8)
	c.Floor("absent", 6)
	c.Floor("number", 3)
	c.Floor("fragment", 1)
}

func inverseOf(code string) string {
	parts := strings.Split(code, ">")
	r := ""
	for i := len(parts) - 1; i > 0; i-- {
		r += ">" + inverseCoding[parts[i]]
	}
	return r
}

func (m *fragments) inverse(builders, resolvers []*ssa.Function) {
	c := m.c
	for _, bf := range builders {
		recv := structOf(bf.Signature.Recv().Type())
		var rf *ssa.Function
		for _, fn := range resolvers {
			if structOf(fn.Signature.Recv().Type()) == recv {
				rf = fn
			}
		}
		if rf == nil {
			c.Bad("inverse", fname(bf), bf.Pos(), "%s builds segments that %s does not resolve itself", fname(bf), recv.Obj().Name())
			continue
		}
		want := map[string]map[string]bool{}
		for k := range m.build.rets[bf][0] {
			g, code, _ := strings.Cut(k, ">")
			if g == "" {
				continue
			}
			if code != "" {
				code = ">" + code
			}
			if want[g] == nil {
				want[g] = map[string]bool{}
			}
			want[g][inverseOf(code)] = true
		}
		for _, g := range keysOf2(want) {
			key := recv.Obj().Name() + " " + g
			if len(want[g]) != 1 {
				c.Bad("inverse", key, bf.Pos(), "a segment is built from %s with several encodings", g)
				continue
			}
			code := ""
			for k := range want[g] {
				code = k
			}
			n := 0
			for _, cmp := range m.compared(rf, g) {
				n++
				codes := m.flow.vals[cmp.v]
				if exact := m.decoded[key]; len(codes) > 1 && len(exact) > 0 {
					codes = exact
				}
				for got := range codes {
					c.Decide(got == code, "inverse", key, cmp.at, "%s compares %s with the segment decoded as '%s', built with its inverse '%s'", fname(rf), g, show(got), show(code))
				}
			}
			if n == 0 {
				c.Bad("inverse", key, rf.Pos(), "%s does not look for %s, which %s builds segments from", fname(rf), g, fname(bf))
			}
		}
	}
}

func show(code string) string {
	if code == "" {
		return "it is"
	}
	return strings.ReplaceAll(strings.TrimPrefix(code, ">"), "net/url.", "")
}

func keysOf2(m map[string]map[string]bool) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return keysOf(b)
}

type comparedWith struct {
	v  ssa.Value
	at token.Pos
}

// compared: the segment values a property of an element is compared with, in the
// routine and in what it uses.
func (m *fragments) compared(rf *ssa.Function, getter string) []comparedWith {
	c := m.c
	seen := map[*ssa.Function]bool{}
	var out []comparedWith
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, f := range withClosures(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch t := in.(type) {
					case *ssa.BinOp:
						if t.Op != token.EQL && t.Op != token.NEQ {
							continue
						}
						for _, p := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
							if len(m.flow.vals[p[0]]) > 0 && c.gets(p[1], getter, 0) {
								out = append(out, comparedWith{p[0], t.Pos()})
							}
						}
					case *ssa.Call:
						if getter == "GetName" && strings.HasSuffix(calleeName(&t.Call), "FromName") {
							for _, a := range argsOf(&t.Call) {
								if len(m.flow.vals[a]) > 0 {
									out = append(out, comparedWith{a, t.Pos()})
								}
							}
						}
						if g := c.unwrap2(t.Call.StaticCallee()); g != nil && m.flow.fns[g] && g.Name() != "EObjectForFragmentSegment" {
							visit(g)
						}
					}
				}
			}
		}
	}
	visit(rf)
	return out
}

// gets: the value is what the getter answers.
func (c *Ctx) gets(v ssa.Value, getter string, d int) bool {
	if d > 6 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Call:
		if calleeName(&t.Call) == getter {
			return true
		}
		// a function value that answers the property
		if g := c.unwrap2(t.Call.StaticCallee()); g != nil && c.isEcore(pkgPath(g)) && len(g.Blocks) > 0 {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, r := range ret.Results {
						if c.gets(r, getter, d+1) {
							return true
						}
					}
				}
			}
		} else if g == nil && !t.Call.IsInvoke() {
			return c.paramGets(t.Call.Value, getter, d)
		}
	case *ssa.Extract:
		return c.gets(t.Tuple, getter, d+1)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if c.gets(e, getter, d+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if s := singleStore(t.X); s != nil {
			return c.gets(s, getter, d+1)
		}
	}
	return false
}

// paramGets: a function handed in by some caller answers the property.
func (c *Ctx) paramGets(v ssa.Value, getter string, d int) bool {
	for _, s := range sources(v) {
		switch t := s.(type) {
		case *ssa.MakeClosure:
			for _, b := range t.Fn.(*ssa.Function).Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 && c.gets(ret.Results[0], getter, d+1) {
					return true
				}
			}
		case *ssa.Function:
			for _, b := range t.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 && c.gets(ret.Results[0], getter, d+1) {
					return true
				}
			}
		case *ssa.Parameter:
			for _, g := range c.Funcs {
				for _, cl := range calls(g) {
					if c.unwrap2(cl.Common().StaticCallee()) != t.Parent() {
						continue
					}
					for i, p := range t.Parent().Params {
						if p == t && i < len(cl.Common().Args) && c.paramGets(cl.Common().Args[i], getter, d+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// findings: values that depend on what a segment names.
func (m *fragments) findings(fn *ssa.Function) {
	is := func(v ssa.Value) bool {
		return m.found[v] || m.flow.ints[v] || len(m.flow.vals[v]) > 0
	}
	holds := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer:
			return !isErrorType(t)
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !m.found[v] {
				m.found[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Call:
					if !holds(t.Type()) {
						continue
					}
					for _, a := range t.Call.Args {
						if is(a) {
							mark(t)
						}
					}
					if t.Call.IsInvoke() && m.found[t.Call.Value] {
						mark(t)
					}
				case *ssa.TypeAssert:
					if m.found[t.X] {
						mark(t)
					}
				case *ssa.Extract:
					if m.found[t.Tuple] && holds(t.Type()) {
						mark(t)
					}
				case *ssa.Phi:
					for _, e := range t.Edges {
						if m.found[e] {
							mark(t)
						}
					}
				case *ssa.ChangeInterface:
					if m.found[t.X] {
						mark(t)
					}
				}
			}
		}
	}
}

func (m *fragments) absent(fn *ssa.Function) {
	c := m.c
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Panic:
				c.Bad("absent", fname(fn)+" panic", in.Pos(), "a segment that names nothing crashes here")
			case *ssa.TypeAssert:
				if m.found[t.X] {
					c.Decide(t.CommaOk, "absent", fname(fn)+" "+types.TypeString(t.AssertedType, noPkg), in.Pos(), "what a segment names is asserted without a way out")
				}
			case ssa.CallInstruction:
				cc := t.Common()
				if cc.IsInvoke() && m.found[cc.Value] {
					m.tested(fn, t, cc.Value)
				}
				for _, a := range argsOf(cc) {
					if m.found[a] && nonBool(a) && !isEqualish(cc) {
						m.tested(fn, t, a)
					}
				}
			}
		}
	}
}

func nonBool(v ssa.Value) bool { return !isBool(v.Type()) }

func isEqualish(cc *ssa.CallCommon) bool {
	_, ok := cc.Value.(*ssa.Builtin)
	return ok
}

func (m *fragments) tested(fn *ssa.Function, in ssa.CallInstruction, v ssa.Value) {
	c := m.c
	ok := provenNonNil(v, in.Block(), 0)
	c.Decide(ok, "absent", fname(fn)+" "+calleeName(in.Common()), in.Pos(), "what a segment names is used without knowing that it is there")
}

// provenNonNil: tested on the way, or it exists by the way it was made.
func provenNonNil(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	if d > 5 {
		return false
	}
	if nonNilAt(v, b) {
		return true
	}
	switch t := v.(type) {
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 0 {
			// the assertion succeeded
			for _, r := range *ta.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
					for _, blk := range b.Parent().Blocks {
						if iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If); ok {
							cond, want := iff.Cond, 0
							if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
								cond, want = u.X, 1
							}
							if cond == ssa.Value(e) && len(blk.Succs[want].Preds) == 1 && blk.Succs[want].Dominates(b) {
								return true
							}
						}
					}
				}
			}
		}
	case *ssa.ChangeInterface:
		return provenNonNil(t.X, b, d+1)
	case *ssa.MakeInterface:
		return provenNonNil(t.X, b, d+1)
	case *ssa.Alloc:
		return true
	case *ssa.TypeAssert:
		return !t.CommaOk
	case *ssa.Call:
		// collections and classes are always there
		switch calleeName(&t.Call) {
		case "EContents", "GetContents", "Iterator", "EClass", "AsEObject":
			return true
		}
	}
	return false
}

func (m *fragments) numbers(fn *ssa.Function) {
	c := m.c
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !m.flow.ints[call] || !isTuple(call.Type()) {
				continue
			}
			key := fname(fn) + " " + calleeName(&call.Call)
			var err ssa.Value
			var num *ssa.Extract
			for _, r := range *call.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if isErrorType(e.Type()) {
						err = e
					} else {
						num = e
					}
				}
			}
			tested := false
			if err != nil {
				for _, r := range *err.Referrers() {
					switch r.(type) {
					case *ssa.BinOp, *ssa.Phi, *ssa.Store, *ssa.Return:
						tested = true
					}
				}
			}
			if !tested {
				c.Bad("number", key, call.Pos(), "a segment without a number is taken for one with the number 0")
				continue
			}
			bad := false
			d := &decoding{c: c}
			if num != nil {
				for _, use := range d.uses(num) {
					if _, ok := use.in.(*ssa.Return); !ok && !d.succeeded(err, use.in.Block()) {
						bad = true
					}
				}
			}
			c.Decide(!bad, "number", key, call.Pos(), "a number that could not be read is used")
		}
	}
}

func (m *fragments) positions(fn *ssa.Function) {
	c := m.c
	d := &decoding{c: c, fields: map[string]*types.Var{}, tainted: map[ssa.Value]bool{}}
	m.fields = d.fields
	r := &zoneRules{p: c.Program}
	later := map[zkey]bool{}
	r.size = func(f *zframe, v ssa.Value) (zkey, bool) {
		if x, ok := lenOf(v); ok {
			return d.lenKey(f, x), true
		}
		if call, ok := v.(*ssa.Call); ok && calleeName(&call.Call) == "Size" && len(argsOf(&call.Call)) == 0 {
			if rv := recvOf(&call.Call); rv != nil {
				return zkey{s: "size:" + f.path(rv)}, true
			}
		}
		return zkey{}, false
	}
	r.enter = func(f *zframe, call ssa.CallInstruction, g *ssa.Function) bool {
		return g.Parent() != nil || d.small(g) && f.depth < 2
	}
	r.call = func(f *zframe, call ssa.CallInstruction, z *zone) bool {
		cc := call.Common()
		g := cc.StaticCallee()
		v, isCall := call.(*ssa.Call)
		if g == nil || !isCall || pkgPath(g) != "strings" {
			return false
		}
		n := strings.TrimPrefix(g.String(), "strings.")
		switch {
		case strings.HasPrefix(n, "Index") || strings.HasPrefix(n, "LastIndex"):
			k := zkey{f: f, v: v}
			e := zexpr{k, 0, true}
			z.forget(k)
			z.addLe(zexpr{zZero, -1, true}, e, 0)
			by := int64(1)
			if s, ok := constStr(cc.Args[1]); ok && (n == "Index" || n == "LastIndex") {
				by = int64(len(s))
			} else if n == "Index" || n == "LastIndex" {
				by = 0
			}
			kl := d.lenKey(f, cc.Args[0])
			z.add(zZero, kl, 0)
			if s, ok := constStr(cc.Args[1]); ok && len(s) == 1 {
				switch first, known := firstChar(cc.Args[0], v.Block(), s[0]); {
				case known && first:
					z.addLe(zexpr{zZero, 0, true}, e, 0)
				case known:
					later[k] = true
				}
			}
			if by <= 1 { // -1 is below every length
				z.addLe(e, zexpr{kl, 0, true}, by)
			}
		case n == "Split" || n == "SplitN" || n == "SplitAfter":
			z.addLe(zexpr{zZero, 1, true}, zexpr{d.lenKey(f, v), 0, true}, 0)
		}
		return true
	}
	r.instr = func(f *zframe, in ssa.Instruction, z *zone) {
		sl, ok := in.(*ssa.Slice)
		if !ok {
			return
		}
		k := d.lenKey(f, sl)
		z.forget(k)
		kx := zexpr{d.lenKey(f, sl.X), 0, true}
		lo := zexpr{zZero, 0, true}
		if sl.Low != nil {
			lo = f.expr(sl.Low)
		}
		hi := kx
		if sl.High != nil {
			hi = f.expr(sl.High)
		}
		if lo.ok && lo.k == zZero && hi.ok {
			hi.c -= lo.c
			z.addEq(zexpr{k, 0, true}, hi)
		}
		z.add(zZero, k, 0)
		z.addLe(zexpr{k, 0, true}, kx, 0)
	}
	// a position that is not the first one
	lift := func(z *zone, es ...zexpr) *zone {
		for _, e := range es {
			if later[e.k] && z.le(zexpr{zZero, 0, true}, zexpr{e.k, 0, true}, 0) {
				z = z.clone()
				z.addLe(zexpr{zZero, 1, true}, zexpr{e.k, 0, true}, 0)
			}
		}
		return z
	}
	in := func(f *zframe, z *zone, i ssa.Value, k zexpr, by int64) bool {
		e := f.expr(i)
		return e.ok && z.le(zexpr{zZero, 0, true}, e, 0) && z.le(e, k, by)
	}
	r.visit = func(f *zframe, ins ssa.Instruction, z *zone) {
		if z.bot {
			return
		}
		at := func(x, i ssa.Value, by int64, what string) {
			if i == nil || len(m.flow.vals[x]) == 0 && !m.flow.ints[i] {
				return
			}
			if _, ok := x.Type().Underlying().(*types.Map); ok {
				return
			}
			if p, ok := x.Type().Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Array); ok {
					return
				}
			}
			c.Decide(in(f, z, i, zexpr{d.lenKey(f, x), 0, true}, by), "position", fname(f.fn)+" "+what, ins.Pos(), "%s: the position is not known to be within the segment", fname(f.fn))
		}
		switch t := ins.(type) {
		case *ssa.IndexAddr:
			at(t.X, t.Index, 1, "index")
		case *ssa.Index:
			at(t.X, t.Index, 1, "index")
		case *ssa.Lookup:
			at(t.X, t.Index, 1, "index")
		case *ssa.Slice:
			at(t.X, t.Low, 0, "from")
			at(t.X, t.High, 0, "to")
			if t.Low != nil && t.High != nil && len(m.flow.vals[t.X]) > 0 {
				lo, hi := f.expr(t.Low), f.expr(t.High)
				c.Decide(lo.ok && hi.ok && lift(z, lo, hi).le(lo, hi, 0), "position", fname(f.fn)+" range", ins.Pos(), "%s: the part of the segment may end before it starts", fname(f.fn))
			}
		case *ssa.Call:
			if calleeName(&t.Call) == "Get" && len(argsOf(&t.Call)) == 1 && m.flow.ints[argsOf(&t.Call)[0]] {
				if rv := recvOf(&t.Call); rv != nil && d.listLike(rv.Type()) {
					c.Decide(in(f, z, argsOf(&t.Call)[0], zexpr{zkey{s: "size:" + f.path(rv)}, 0, true}, 1), "position", fname(f.fn)+" Get", ins.Pos(), "%s: the position found in a segment is not known to be within the list", fname(f.fn))
				}
			}
		}
	}
	r.frame(fn).run(newZone(), true)
}

// firstChar: what the tests made on the way say of the first character.
func firstChar(s ssa.Value, b *ssa.BasicBlock, ch byte) (is, known bool) {
	for _, blk := range b.Parent().Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, flip := iff.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, flip = u.X, !flip
		}
		for i, succ := range blk.Succs {
			if len(succ.Preds) != 1 || !succ.Dominates(b) {
				continue
			}
			holds := (i == 0) != flip
			switch t := cond.(type) {
			case *ssa.BinOp:
				x, y := t.X, t.Y
				k, ok := constInt(y)
				if !ok {
					x, y = y, x
					if k, ok = constInt(y); !ok {
						continue
					}
				}
				l, ok := x.(*ssa.Lookup)
				if !ok || l.X != s {
					if ix, ok2 := x.(*ssa.Index); !ok2 || ix.X != s {
						continue
					} else if n, c := constInt(ix.Index); !c || n != 0 {
						continue
					}
				} else if n, c := constInt(l.Index); !c || n != 0 {
					continue
				}
				eq := t.Op == token.EQL && holds || t.Op == token.NEQ && !holds
				if eq {
					return byte(k) == ch, true
				}
				if (t.Op == token.EQL || t.Op == token.NEQ) && byte(k) == ch {
					return false, true
				}
			case *ssa.Call:
				if g := t.Call.StaticCallee(); g != nil && g.String() == "strings.HasPrefix" && t.Call.Args[0] == s {
					if p, ok := constStr(t.Call.Args[1]); ok && len(p) > 0 {
						if holds {
							return p[0] == ch, true
						} else if len(p) == 1 && p[0] == ch {
							return false, true
						}
					}
				}
			}
		}
	}
	return false, false
}

// fragment: URIs are written with their fragment as it is; they have to be read so.
func (m *fragments) fragment() {
	c := m.c
	n := 0
	for _, fn := range c.Funcs {
		if c.isMockFile(fn.Pos()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fld := fieldOf(fa)
				o := structOf(fa.X.Type())
				if fld == nil || fld.Name() != "fragment" || o == nil || o.Obj().Name() != "URI" {
					continue
				}
				n++
				bad := false
				for _, s := range sources(st.Val) {
					if u, ok := s.(*ssa.UnOp); ok {
						if fa2, ok := u.X.(*ssa.FieldAddr); ok {
							if f2 := fieldOf(fa2); f2 != nil && f2.Name() == "Fragment" && f2.Pkg() != nil && f2.Pkg().Path() == "net/url" {
								bad = true
							}
						}
					}
					if call, ok := s.(*ssa.Extract); ok {
						if cl, ok := call.Tuple.(*ssa.Call); ok && strings.HasSuffix(calleeName(&cl.Call), "Unescape") {
							bad = true
						}
					}
				}
				c.Decide(!bad, "fragment", fname(fn), in.Pos(), "%s decodes the fragment of a URI, which is written as it is: escaped segments do not come back", fname(fn))
			}
		}
	}
	_ = fmt.Sprint
}
