package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C10", checkC10) }

// sources returns the values v may stand for, looking through phis, interface
// conversions and single-store cells.
func sources(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case *ssa.ChangeInterface:
			walk(x.X)
			return
		case *ssa.MakeInterface:
			walk(x.X)
			return
		case *ssa.ChangeType:
			walk(x.X)
			return
		case *ssa.TypeAssert:
			walk(x.X)
			return
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				walk(ta.X)
				return
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					var cell ssa.Value = a
					if fv, ok := a.(*ssa.FreeVar); ok {
						cell = rootBinding(fv)
					}
					if cell != nil {
						if s := singleStore(cell); s != nil {
							walk(s)
							return
						}
					}
				}
			}
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

// diagnosticList tells which diagnostics list v denotes: "errors", "warnings".
func diagnosticList(v ssa.Value) string {
	res := ""
	for _, s := range sources(v) {
		k := ""
		switch x := s.(type) {
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "GetErrors":
				k = "errors"
			case "GetWarnings":
				k = "warnings"
			}
		case *ssa.UnOp:
			if f := loadedField(x); f != nil && isDiagnosticField(f) {
				k = f.Name()
			}
		}
		if k == "" || res != "" && res != k {
			return ""
		}
		res = k
	}
	return res
}

func isDiagnosticField(f *types.Var) bool {
	return (f.Name() == "errors" || f.Name() == "warnings") && typeName(f.Type()) == "EList"
}

func isDiagnosticHandler(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Results().Len() == 0 && s.Params().Len() == 1 && typeName(s.Params().At(0).Type()) == "EDiagnostic"
}

// diagEvents: what an instruction does to the diagnostics.
func diagEvents(in ssa.Instruction, fn *ssa.Function) []string {
	if st, ok := in.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if f := fieldOf(fa); f != nil && isDiagnosticField(f) && isNilConst(st.Val) {
				return []string{"clear " + f.Name()}
			}
		}
		return nil
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := ci.Common()
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if u, ok := cc.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && isDiagnosticHandler(fieldOf(fa).Type()) {
				return []string{"diag"}
			}
		}
		return nil
	}
	switch calleeName(cc) {
	case "Add", "AddAll", "Insert", "InsertAll":
		if recvOf(cc) != nil && diagnosticList(recvOf(cc)) == "errors" {
			return []string{"diag"}
		}
	case "Clear":
		if r := recvOf(cc); r != nil {
			if l := diagnosticList(r); l != "" {
				return []string{"clear " + l}
			}
		}
	}
	return nil
}

func isEResource(t types.Type, p *Program) bool {
	return implementsNamed(p, t, "EResource")
}

func implementsNamed(p *Program, t types.Type, iface string) bool {
	o := p.Ecore.Types.Scope().Lookup(iface)
	if o == nil {
		return false
	}
	i, ok := o.Type().Underlying().(*types.Interface)
	return ok && types.Implements(t, i)
}

func (c *Ctx) diagMust() *mustEvents {
	m := newMust(c.Program, diagEvents)
	m.waive = func(br *ssa.If, taken bool, fn *ssa.Function) []string {
		// nothing to clear in a list that was never created
		b, ok := br.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil
		}
		v := b.X
		if isNilConst(v) {
			v = b.Y
		} else if !isNilConst(b.Y) {
			return nil
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if f := loadedField(u); f != nil && isDiagnosticField(f) && (b.Op == token.EQL) == taken {
				return []string{"clear " + f.Name()}
			}
		}
		return nil
	}
	return m
}

// diagState follows one fallible step: st "" before, "pending" after it, "failed"
// once the path knows it failed, then "reported".
type diagState struct {
	st, cell string
	defs     string // cells whose error a deferred call reports
}

func (s diagState) Key() string { return s.st + "|" + s.cell + "|" + s.defs }

func checkC10(c *Ctx) {
	c.Rule("failed-step", "in the operations that load or save a resource (of a resource, and the entry point of every codec), each path on which a step failed (its error is non-nil, or the codec, decoder or encoder it was to provide is nil) adds an error diagnostic before the operation returns, and the diagnostics are not cleared again afterwards")
	c.Rule("cleared", "the errors and warnings of the previous load or save have been cleared on every path that reaches the decoding or encoding of the resource, and are not cleared after it")
	c.Rule("loading-ends", "a loading flag that an operation raises is lowered again on every return of the operation")
	c.Rule("handler", "an error handler installed by a codec's resource entry point adds what it is given to the resource's errors on every path, and is installed before the codec does anything else")
	c.Rule("handler-used", "an error handler a codec keeps is called by that codec")
	c.Rule("reporter", "a function that only reports an error does so on every path")
	c.Rule("output-failures-visible", "a stream is not handed over to a writer that hides its failures unless the failures are recorded on the way")

	m := c.diagMust()
	codecs := map[*types.Named]bool{}
	for _, fn := range c.Funcs {
		if fn.Parent() != nil {
			continue
		}
		recv := fn.Signature.Recv()
		entry := false
		if recv != nil && (fn.Name() == "EncodeResource" || fn.Name() == "DecodeResource") {
			entry = true
			if n := namedStruct(recv.Type()); n != nil {
				codecs[n] = true
			}
		}
		isRes := recv != nil && isEResource(recv.Type(), c.Program)
		if entry {
			c.handlers(fn, m)
		}
		if entry || isRes {
			for _, f := range withClosures(fn) {
				if len(f.Params) > 0 || f == fn {
					c.diagSteps(f, fn, entry, m)
				}
			}
		}
		c.clearedBefore(fn, m)
		c.loadingEnds(fn)
		c.reporters(fn, m)
	}
	// handlers
	for n := range codecs {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !isDiagnosticHandler(f.Type()) {
				continue
			}
			used := false
			for _, fn := range c.Funcs {
				for _, ci := range calls(fn) {
					if u, ok := ci.Common().Value.(*ssa.UnOp); ok && !ci.Common().IsInvoke() {
						if loadedField(u) == f {
							used = true
						}
					}
				}
			}
			c.Decide(used, "handler-used", fieldSel(f), f.Pos(), "the handler is installed but no code ever calls it: the failures of %s never become diagnostics", n.Obj().Name())
		}
	}
	c.Rule("inside", "inside a codec that reports to its caller only through diagnostics, each path on which a step failed (other than by having come to the end of the input), or on which what was named in the document has not been found, adds an error diagnostic")
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Name() == "EncodeResource" || fn.Name() == "DecodeResource" || c.isMockFile(fn.Pos()) {
			continue
		}
		if n := namedStruct(fn.Signature.Recv().Type()); n == nil || !codecs[n] {
			continue
		}
		c.diagInside(fn, m)
	}
	c.Floor("inside", 6)
	c.hiddenOutputs()
	c.Floor("failed-step", 20)
	c.Floor("cleared", 2)
	c.Floor("loading-ends", 1)
	c.Floor("handler", 3)
	c.Floor("handler-used", 3)
	c.Floor("reporter", 4)
	c.Floor("output-failures-visible", 1)
	c.Notes["codec_types"] = len(codecs)
}

func withClosures(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withClosures(a)...)
	}
	return out
}

// providerCall: a call that is to provide a codec, decoder or encoder: a nil
// result is its failure.
func providerCall(call *ssa.Call) bool {
	switch typeName(call.Type()) {
	case "ECodec", "EDecoder", "EEncoder":
		return calleeName(&call.Call) != "GetCodecRegistry"
	}
	return false
}

func (c *Ctx) diagSteps(fn, top *ssa.Function, entry bool, m *mustEvents) {
	// operations that hand the error to their caller are C09's
	if n := top.Signature.Results().Len(); n > 0 {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			var ev ssa.Value
			if v, has := errorResult(call); has {
				ev = v
			} else if providerCall(call) {
				ev = call
			} else {
				continue
			}
			key := fname(fn) + " " + calleeName(&call.Call)
			if ev == nil {
				c.Bad("failed-step", key, call.Pos(), "the error of this call is not even looked at")
				continue
			}
			c.diagPaths(fn, call, ev, key, m)
		}
	}
}

// diagInside: the steps of a codec that fail, and what it looks up and does not
// find.
func (c *Ctx) diagInside(fn *ssa.Function, m *mustEvents) {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return // C09
		}
	}
	decodes := false
	for _, g := range c.Funcs {
		if g.Name() == "DecodeResource" && g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), fn.Signature.Recv().Type()) {
			decodes = true
		}
	}
	for _, ci := range calls(fn) {
		call, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		key := fname(fn) + " " + calleeName(&call.Call)
		if v, has := errorResult(call); has {
			if v != nil {
				c.diagPathsOf("inside", fn, call, v, key, m)
			}
		} else if decodes && c.looksUp(call) && !rootDocument(call) {
			c.diagPathsOf("inside", fn, call, call, key, m)
		}
	}
}

// looksUp: a routine of the codec, or the resource, is asked for what the
// document names, and does not itself report what it does not find.
func (c *Ctx) looksUp(call *ssa.Call) bool {
	switch typeName(call.Type()) {
	case "EFactory", "EPackage", "EStructuralFeature", "EObject":
	default:
		return false
	}
	if call.Call.IsInvoke() {
		// an identifier kept until everything is there: its last chance
		return calleeName(&call.Call) == "GetEObject" && isEResource(call.Call.Value.Type(), c.Program) &&
			len(call.Call.Args) == 1 && isKept(call.Call.Args[0])
	}
	g := call.Call.StaticCallee()
	if g == nil || sigRecv(g) == nil || call.Parent().Signature.Recv() == nil {
		return false
	}
	if !types.Identical(sigRecv(g), call.Parent().Signature.Recv().Type()) {
		return false
	}
	return !mayReport(g, map[*ssa.Function]bool{})
}

func isKept(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.Field:
		return true
	case *ssa.UnOp:
		_, ok := t.X.(*ssa.FieldAddr)
		return ok && t.Op == token.MUL
	}
	return false
}

func mayReport(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			for _, e := range diagEvents(in, g) {
				if e == "diag" {
					return true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && h.Pkg == g.Pkg && mayReport(h, seen) {
					return true
				}
			}
		}
	}
	return false
}

// rootDocument: a document root is made, which is not named in the document;
// what is looked for in it is.
func rootDocument(call *ssa.Call) bool {
	for _, a := range call.Call.Args {
		for _, s := range sources(a) {
			if cl, ok := s.(*ssa.Call); ok && calleeName(&cl.Call) == "GetDocumentRoot" {
				return true
			}
		}
	}
	return false
}

// ifNil: the parameters of a routine whose being nil (errors: not nil) it reports
// on every path.
func (c *Ctx) ifNil(g *ssa.Function, m *mustEvents) map[int]bool {
	if c.nilReports == nil {
		c.nilReports = map[*ssa.Function]map[int]bool{}
	}
	if r, ok := c.nilReports[g]; ok {
		return r
	}
	out := map[int]bool{}
	c.nilReports[g] = out
	if len(g.Blocks) == 0 || !c.isEcore(pkgPath(g)) || !mayReport(g, map[*ssa.Function]bool{}) {
		return out
	}
	for i, prm := range g.Params {
		if _, ok := prm.Type().Underlying().(*types.Interface); !ok {
			continue
		}
		good := prm.Referrers() != nil && len(*prm.Referrers()) > 0
		e := &Engine{Fn: g, InitFacts: map[string]bool{"n:" + vid(prm): true}}
		e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
			s := ps.U.(diagState)
			evs := append([]string{}, m.match(in, g)...)
			if ci, ok := in.(*ssa.Call); ok {
				evs = append(evs, m.callMust(&ci.Call, false)...)
			}
			for _, x := range evs {
				if x == "diag" {
					s.st = "reported"
				}
			}
			return []*PState{ps.With(s)}
		}
		if isErrorType(prm.Type()) {
			e.InitFacts["n:"+vid(prm)] = false
			e.Edge = func(from, to *ssa.BasicBlock, ps *PState) *PState {
				if endOfInput(from, to, map[ssa.Value]bool{prm: true}) {
					return ps.With(diagState{st: "reported"})
				}
				return ps
			}
		}
		e.Exit = func(in ssa.Instruction, ps *PState) {
			if _, ok := in.(*ssa.Return); !ok {
				return
			}
			if ps.U.(diagState).st != "reported" {
				good = false
			}
		}
		e.Run(diagState{})
		if good {
			out[i] = true
		}
	}
	return out
}

// nilEdge: on that edge one of the values is known to be nil, or not to be.
func nilEdge(from, to *ssa.BasicBlock, carry map[ssa.Value]bool) (known, isNil bool) {
	br, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || len(from.Succs) != 2 || from.Succs[0] == from.Succs[1] {
		return
	}
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return
	}
	if carry[b.X] && isNilConst(b.Y) || carry[b.Y] && isNilConst(b.X) {
		return true, (b.Op == token.EQL) == (from.Succs[0] == to)
	}
	return
}

// endOfInput: on that edge the error is found to be that of the end of the input.
func endOfInput(from, to *ssa.BasicBlock, carry map[ssa.Value]bool) bool {
	br, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || len(from.Succs) != 2 || from.Succs[0] == from.Succs[1] {
		return false
	}
	cond, taken := br.Cond, from.Succs[0] == to
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	eof := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Name() == "EOF" && g.Pkg != nil && g.Pkg.Pkg.Path() == "io"
	}
	switch t := cond.(type) {
	case *ssa.BinOp:
		if t.Op == token.NEQ {
			taken = !taken
		} else if t.Op != token.EQL {
			return false
		}
		return taken && (carry[t.X] && eof(t.Y) || carry[t.Y] && eof(t.X))
	case *ssa.Call:
		return taken && calleeName(&t.Call) == "Is" && len(t.Call.Args) == 2 && carry[t.Call.Args[0]] && eof(t.Call.Args[1])
	}
	return false
}

func (c *Ctx) diagPaths(fn *ssa.Function, call *ssa.Call, ev ssa.Value, key string, m *mustEvents) {
	c.diagPathsOf("failed-step", fn, call, ev, key, m)
}

func (c *Ctx) diagPathsOf(rule string, fn *ssa.Function, call *ssa.Call, ev ssa.Value, key string, m *mustEvents) {
	bad := token.NoPos
	isErr := isErrorType(ev.Type())
	carry, cells := carriers(fn, ev)
	failsIf := func(e *Engine, ps *PState) (known, failed bool) {
		for v := range carry {
			if k, n := e.Nil(ps, v); k {
				return true, n != isErr
			}
		}
		return false, false
	}
	e := &Engine{Fn: fn}
	upd := func(ps *PState) *PState {
		s := ps.U.(diagState)
		if s.st != "pending" && s.st != "pending+" {
			return ps
		}
		if k, f := failsIf(e, ps); k {
			switch {
			case !f:
				s.st = "ok"
			case s.st == "pending+":
				s.st = "reported"
			default:
				s.st = "failed"
			}
			return ps.With(s)
		}
		return ps
	}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(diagState)
		if in == ssa.Instruction(call) {
			if rule == "inside" && s.st == "failed" && bad == token.NoPos {
				bad = call.Pos()
			}
			s.st, s.cell = "pending", ""
			return []*PState{ps.With(s)}
		}
		if s.st != "" && s.st != "ok" {
			evs := m.match(in, fn)
			var cc *ssa.CallCommon
			if ci, ok := in.(*ssa.Call); ok {
				cc = &ci.Call
				evs = append(append([]string{}, evs...), m.callMust(cc, false)...)
				if g := cc.StaticCallee(); g != nil && rule == "inside" {
					for i := range c.ifNil(g, m) {
						if i < len(cc.Args) && carry[cc.Args[i]] {
							evs = append(evs, "diag")
						}
					}
				}
			}
			for _, x := range evs {
				if x == "diag" {
					switch s.st {
					case "failed":
						s.st = "reported"
					case "pending":
						s.st = "pending+"
					}
				}
				if x == "clear errors" && cc != nil {
					switch s.st {
					case "reported":
						s.st = "failed"
					case "pending+":
						s.st = "pending"
					}
				}
			}
			if st, ok := in.(*ssa.Store); ok {
				if cells[st.Addr] {
					if carry[st.Val] {
						s.cell = vid(st.Addr)
					} else if s.cell == vid(st.Addr) {
						s.cell = ""
					}
				}
			}
		} else if st, ok := in.(*ssa.Store); ok && cells[st.Addr] && !carry[st.Val] && s.cell == vid(st.Addr) {
			s.cell = ""
		}
		if d, ok := in.(*ssa.Defer); ok {
			for _, cell := range c.deferReports(d, m) {
				s.defs = evAdd(s.defs, vid(cell))
			}
		}
		return []*PState{ps.With(s)}
	}
	e.Edge = func(from, to *ssa.BasicBlock, ps *PState) *PState {
		// in a routine with too many paths only the branch itself is known
		if k, n := nilEdge(from, to, carry); k && rule == "inside" {
			s := ps.U.(diagState)
			if s.st == "pending" || s.st == "pending+" {
				switch {
				case n == isErr:
					s.st = "ok"
				case s.st == "pending+":
					s.st = "reported"
				default:
					s.st = "failed"
				}
				return ps.With(s)
			}
		}
		if rule == "inside" && endOfInput(from, to, carry) {
			s := ps.U.(diagState)
			s.st = "ok"
			return ps.With(s)
		}
		return upd(ps)
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		s := upd(ps).U.(diagState)
		if s.st == "failed" || s.st == "pending" {
			if s.cell != "" && evHas(s.defs, s.cell) {
				return
			}
			if isErr && s.st == "pending" {
				// a test the path cannot see through (or none at all)
				if kn, f := failsIf(e, ps); kn && !f {
					return
				}
			}
			if bad == token.NoPos {
				bad = posOf(ret)
			}
		}
	}
	e.Run(diagState{})
	if bad != token.NoPos && fn.Parent() != nil {
		return // the closure's own caller is the operation; its result is judged there
	}
	what := "failed"
	if !isErr {
		what = "provided nothing"
	}
	c.Decide(bad == token.NoPos, rule, key, call.Pos(), "the operation can end at %s although %s %s, without an error diagnostic in the resource", c.at(bad), calleeName(&call.Call), what)
}

// deferReports returns the error cells whose non-nil content a deferred call
// turns into a diagnostic.
func (c *Ctx) deferReports(d *ssa.Defer, m *mustEvents) []ssa.Value {
	var out []ssa.Value
	try := func(fn *ssa.Function, inner, outer ssa.Value) {
		pt, ok := inner.Type().(*types.Pointer)
		if !ok || !isErrorType(pt.Elem()) {
			return
		}
		m2 := newMust(c.Program, m.match)
		m2.waive = func(br *ssa.If, taken bool, f *ssa.Function) []string {
			if f != fn {
				return nil
			}
			b, ok := br.Cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return nil
			}
			v := b.X
			if isNilConst(v) {
				v = b.Y
			} else if !isNilConst(b.Y) {
				return nil
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == inner && (b.Op == token.EQL) == taken {
				return []string{"diag"}
			}
			return nil
		}
		if m2.of(fn, false)["diag"] {
			out = append(out, outer)
		}
	}
	if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		for i, fv := range fn.FreeVars {
			try(fn, fv, mc.Bindings[i])
		}
	}
	if f := d.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
		for i, a := range d.Call.Args {
			if i < len(f.Params) {
				try(f, f.Params[i], a)
			}
		}
	}
	return out
}

// clearedBefore judges the functions that run the decoding or encoding of a
// resource.
func (c *Ctx) clearedBefore(fn *ssa.Function, m *mustEvents) {
	isRun := func(in ssa.Instruction) string {
		ci, ok := in.(*ssa.Call)
		if !ok {
			return ""
		}
		if n := calleeName(&ci.Call); n == "DoLoad" || n == "DoSave" {
			return n
		}
		return ""
	}
	has := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if isRun(in) != "" {
				has = true
			}
		}
	}
	// overriding DoLoad/DoSave that delegate to their super are not entry points
	if !has || fn.Name() == "DoLoad" || fn.Name() == "DoSave" {
		return
	}
	missing := map[string]token.Pos{}
	seen := map[string]token.Pos{}
	late := token.NoPos
	e := m.run(fn, false, func(in ssa.Instruction, st evState) {
		if n := isRun(in); n != "" {
			seen[n] = in.Pos()
			for _, w := range []string{"errors", "warnings"} {
				if !evHas(st.done, "clear "+w) {
					missing[n+" "+w] = in.Pos()
				}
			}
		}
	}, func(ssa.Instruction, evState) {})
	_ = e
	// clearing after the run
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if isRun(in) == "" {
				continue
			}
			after := reachableAfter(in)
			for _, x := range after {
				for _, ev := range diagEvents(x, fn) {
					if strings.HasPrefix(ev, "clear ") {
						late = x.Pos()
					}
				}
			}
		}
	}
	for n, pos := range seen {
		for _, w := range []string{"errors", "warnings"} {
			_, bad := missing[n+" "+w]
			c.Decide(!bad, "cleared", fname(fn)+" "+n+" "+w, pos, "the %s of the previous run are still there on some path that reaches %s", w, n)
		}
		c.Decide(late == token.NoPos, "cleared", fname(fn)+" "+n+" after", late, "the diagnostics are cleared after %s: what it reported is lost", n)
	}
}

// reachableAfter returns the instructions that may execute after in.
func reachableAfter(in ssa.Instruction) []ssa.Instruction {
	b := in.Block()
	var out []ssa.Instruction
	found := false
	for _, x := range b.Instrs {
		if found {
			out = append(out, x)
		}
		if x == in {
			found = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x.Instrs...)
		work = append(work, x.Succs...)
	}
	return out
}

// loadingFlag: in stores a constant to a boolean loading flag, directly or
// through its setter.
func loadingFlag(in ssa.Instruction) (raise, ok bool) {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		fa, isF := x.Addr.(*ssa.FieldAddr)
		if !isF {
			return
		}
		f := fieldOf(fa)
		if f == nil || !strings.Contains(strings.ToLower(f.Name()), "loading") || f.Type().String() != "bool" {
			return
		}
		v = x.Val
	case ssa.CallInstruction:
		if calleeName(x.Common()) != "SetLoading" {
			return
		}
		a := argsOf(x.Common())
		if len(a) != 1 {
			return
		}
		v = a[0]
	default:
		return
	}
	k, isC := v.(*ssa.Const)
	if !isC || k.Value == nil {
		return
	}
	return k.Value.String() == "true", true
}

func (c *Ctx) loadingEnds(fn *ssa.Function) {
	raises := token.NoPos
	for _, f := range withClosures(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := loadingFlag(in); ok && r && f == fn {
					raises = in.Pos()
				}
			}
		}
	}
	if raises == token.NoPos {
		return
	}
	low := newMust(c.Program, func(in ssa.Instruction, f *ssa.Function) []string {
		if r, ok := loadingFlag(in); ok && !r {
			return []string{"low"}
		}
		return nil
	})
	e := &Engine{Fn: fn}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(evState)
		if r, ok := loadingFlag(in); ok {
			if d, isD := in.(*ssa.Defer); isD {
				_ = d
				s.deferred = "low"
			} else if r {
				s.done = "up"
			} else {
				s.done = ""
			}
			return []*PState{ps.With(s)}
		}
		switch x := in.(type) {
		case *ssa.Call:
			for _, ev := range low.callMust(&x.Call, false) {
				if ev == "low" {
					s.done = ""
				}
			}
		case *ssa.Defer:
			for _, ev := range low.callMust(&x.Call, false) {
				if ev == "low" {
					s.deferred = "low"
				}
			}
		}
		return []*PState{ps.With(s)}
	}
	bad := token.NoPos
	e.Exit = func(in ssa.Instruction, ps *PState) {
		s := ps.U.(evState)
		if _, ok := in.(*ssa.Return); ok && s.done == "up" && s.deferred != "low" {
			bad = posOf(in)
		}
	}
	e.Run(evState{})
	c.Decide(bad == token.NoPos, "loading-ends", fname(fn), raises, "the resource stays in the loading state when the operation returns at %s", c.at(bad))
}

// handlers judges the error handlers a codec's resource entry point installs.
func (c *Ctx) handlers(fn *ssa.Function, m *mustEvents) {
	n := namedStruct(fn.Signature.Recv().Type())
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !isDiagnosticHandler(f.Type()) {
			continue
		}
		ev := "install"
		im := newMust(c.Program, func(in ssa.Instruction, _ *ssa.Function) []string {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa) == f {
					fns, ext := c.funcValues(s.Val, map[ssa.Value]bool{})
					good := !ext && len(fns) > 0
					for _, h := range fns {
						if !m.of(h, false)["diag"] {
							good = false
						}
					}
					if good {
						return []string{ev}
					}
				}
			}
			return nil
		})
		bad := token.NoPos
		im.run(fn, false, func(in ssa.Instruction, s evState) {
			call, ok := in.(*ssa.Call)
			if !ok || evHas(s.done, ev) {
				return
			}
			// any call into the codec itself may report
			for _, a := range call.Call.Args {
				if len(fn.Params) > 0 && a == ssa.Value(fn.Params[0]) {
					if g := call.Call.StaticCallee(); g != nil && !im.of(c.unwrap(g), false)[ev] && bad == token.NoPos {
						bad = in.Pos()
					}
				}
			}
		}, func(in ssa.Instruction, s evState) {})
		ok := im.of(fn, false)[ev] && bad == token.NoPos
		c.Decide(ok, "handler", fname(fn)+" "+f.Name(), fn.Pos(), "no handler that adds to the resource's errors on each of its paths is installed in %s before the codec runs", fieldSel(f))
	}
}

// reporters: a function without results that takes an error or a diagnostic and
// may record it.
func (c *Ctx) reporters(fn *ssa.Function, m *mustEvents) {
	if fn.Signature.Results().Len() != 0 || fn.Signature.Params().Len() != 1 {
		return
	}
	t := fn.Signature.Params().At(0).Type()
	if !isErrorType(t) && typeName(t) != "EDiagnostic" {
		return
	}
	may := false
	for _, f := range withClosures(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, ev := range diagEvents(in, f) {
					if ev == "diag" {
						may = true
					}
				}
				if ci, ok := in.(*ssa.Call); ok {
					for _, ev := range m.callMust(&ci.Call, false) {
						if ev == "diag" {
							may = true
						}
					}
				}
			}
		}
	}
	named := fn.Name() == "addError" || fn.Name() == "error"
	if !may && !named {
		return
	}
	last := len(fn.Params) - 1
	c.Decide(m.of(fn, false)["diag"] || isErrorType(t) && c.ifNil(fn, m)[last], "reporter", fname(fn), fn.Pos(), "some path of %s returns without recording the error it was given", fname(fn))
}

// hiddenOutputs: a stream parameter handed to a foreign writer none of whose
// methods reports an error.
func (c *Ctx) hiddenOutputs() {
	for _, fn := range c.Funcs {
		for _, ci := range calls(fn) {
			cc := ci.Common()
			f := cc.StaticCallee()
			if f == nil || f.Object() == nil || f.Object().Pkg() == nil || c.isEcore(f.Object().Pkg().Path()) {
				continue
			}
			v := ci.Value()
			if v == nil {
				continue
			}
			if strings.HasPrefix(f.Object().Pkg().Path(), "bytes") || strings.HasPrefix(f.Object().Pkg().Path(), "strings") {
				continue
			}
			for _, a := range cc.Args {
				if it := ifaceOf(a.Type()); it == nil || qualTypeName(a.Type()) != "io.Writer" {
					continue
				}
				n := namedStruct(v.Type())
				if n == nil || reportsErrors(n) {
					continue
				}
				ok := true
				for _, s := range sources(a) {
					named := namedStruct(s.Type())
					if named == nil || !keepsWriteError(c.Program, named) {
						ok = false
					}
				}
				c.Decide(ok, "output-failures-visible", fname(fn)+" "+n.Obj().Name(), ci.Pos(), "%s never reports the failures of the stream it writes to, and nothing in between records them", typeName(v.Type()))
			}
		}
	}
}

func ifaceOf(t types.Type) *types.Interface {
	i, _ := t.Underlying().(*types.Interface)
	return i
}

func reportsErrors(n *types.Named) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		sig := ms.At(i).Type().(*types.Signature)
		for j := 0; j < sig.Results().Len(); j++ {
			if isErrorType(sig.Results().At(j).Type()) {
				return true
			}
		}
	}
	return false
}

// keepsWriteError: the Write method of n stores the error it got into n, and that
// field is read elsewhere.
func keepsWriteError(p *Program, n *types.Named) bool {
	for _, fn := range p.methodsOf(n) {
		if fn.Name() != "Write" {
			continue
		}
		var kept *types.Var
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isErrorType(st.Val.Type()) && !isNilConst(st.Val) {
						kept = fieldOf(fa)
					}
				}
			}
		}
		if kept == nil {
			return false
		}
		for _, g := range p.Funcs {
			if topFn(g) == fn {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && loadedField(u) == kept {
						return true
					}
				}
			}
		}
	}
	return false
}
