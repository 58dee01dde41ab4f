package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C08", checkC08) }

// errorResults: the values of the error-typed results of a call, nil when the
// result is never extracted.
func errorResult(call *ssa.Call) (v ssa.Value, has bool) {
	res := call.Call.Signature().Results()
	n := res.Len()
	if n == 0 || !isErrorType(res.At(n-1).Type()) {
		return nil, false
	}
	if n == 1 {
		return call, true
	}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == n-1 {
			return e, true
		}
	}
	return nil, true
}

// droppable: calls whose error may be ignored, with the reason.
func (c *Ctx) droppable(fn *ssa.Function, cc *ssa.CallCommon, onFailure bool) string {
	pkg, name := calleePkg(cc), calleeName(cc)
	switch {
	case pkg == "fmt" && strings.HasPrefix(name, "Print"):
		return "console output"
	case pkg == "strings" && strings.HasPrefix(name, "Write") || pkg == "bytes" && strings.HasPrefix(name, "Write"):
		return "in-memory builder, never fails"
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"):
		if len(cc.Args) > 0 {
			if t := qualTypeName(unwrapIface(cc.Args[0]).Type()); t == "strings.Builder" || t == "bytes.Buffer" {
				return "in-memory builder, never fails"
			}
		}
	case pkg == "os" && (name == "Remove" || name == "RemoveAll"):
		return "clean-up of a temporary file"
	case strings.HasSuffix(pkg, "ants/v2") && name == "NewPool":
		return "creation of an unbounded worker pool with constant options"
	case name == "NewURI" || name == "ParseURI":
		if v, ok := cc.Value.(*ssa.Function); ok && fn.Name() == "NewURI" && v.Name() == "ParseURI" {
			return "NewURI gives no URI for an invalid one"
		}
	case name == "WaitOperations":
		return operationLogged
	}
	if onFailure && cc.StaticCallee() == nil && !cc.IsInvoke() {
		for _, a := range cc.Args {
			if resourceKind(a.Type()) != "" {
				return "clean-up after another failure"
			}
		}
	}
	if name == "Close" {
		if onFailure {
			return "clean-up after another failure"
		}
		if recv := recvOf(cc); recv != nil && c.readOnlyResource(recv) {
			return "closing something that was only read"
		}
	}
	return ""
}

const operationLogged = "an operation logs its own failure when it settles (C05)"

// noPersistence: functions that are no part of saving, loading or storing a model.
// Helpers called only from them share their reason.
var noPersistence = map[string]string{
	"EObjectForFragmentSegment": "a fragment that names nothing resolves to no object (C42)",
	"getObjectForRootSegment":   "a fragment that names nothing resolves to no object (C42)",
	"GetEObject":                "an identifier that is none names no object",
	"RequireEqualDB":            "test helper",
	"MarshalLogObject":          "formatting of a log entry",
}

func (c *Ctx) outOfScope(fn *ssa.Function, d int) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if why := noPersistence[fn.Name()]; why != "" {
		return why
	}
	if strings.HasPrefix(fn.Name(), "RequireEqualDB") {
		return "test helper"
	}
	if d > 3 || token.IsExported(fn.Name()) {
		return ""
	}
	why := ""
	for _, f := range c.Funcs {
		for _, ci := range calls(f) {
			if ci.Common().StaticCallee() != fn {
				continue
			}
			w := ""
			if f != fn {
				w = c.outOfScope(f, d+1)
			}
			if w == "" {
				return ""
			}
			why = w
		}
	}
	return why
}

// onlyFrom: the function is called name, or is only called by such functions.
func (c *Ctx) onlyFrom(fn *ssa.Function, name string, d int) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Name() == name {
		return true
	}
	if d > 3 || token.IsExported(fn.Name()) {
		return false
	}
	found := false
	for _, f := range c.Funcs {
		for _, ci := range calls(f) {
			cc := ci.Common()
			if f == fn || f.Synthetic != "" || cc.StaticCallee() != fn && !(cc.IsInvoke() && cc.Method.Name() == fn.Name()) {
				continue
			}
			if !c.onlyFrom(f, name, d+1) {
				return false
			}
			found = true
		}
	}
	return found
}

// noFailure: calls whose error result is not the failure of a step, with the reason.
func noFailure(cc *ssa.CallCommon) string {
	name := calleeName(cc)
	recv := recvOf(cc)
	switch {
	case name == "Err" && recv != nil && qualTypeName(recv.Type()) == "context.Context":
		return "asks for the state of a context"
	case name == "Await" && recv != nil && strings.Contains(qualTypeName(recv.Type()), "promise.Promise") && fieldOwner(recv) == "operation":
		return operationLogged
	case name == "ParseStatement":
		return "a statement that cannot be classified locks every table (C05)"
	}
	return ""
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// readOnlyResource: a file opened for reading or a database connection that is
// only the source of a backup.
func (c *Ctx) readOnlyResource(v ssa.Value) bool {
	fn := v.Parent()
	if fn == nil {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	// resolve through the function that acquired it
	for f := v.Parent(); f != nil; f = f.Parent() {
		r := c.acquisitions(f)
		for id := range r.ids(v, map[ssa.Value]bool{}) {
			a := r.acqs[id]
			switch {
			case a.kind == "file" && calleeName(&a.call.Call) == "Open":
				return true
			case a.kind == "connection":
				return r.onlyBackupSource(a)
			}
		}
	}
	return false
}

// onlyBackupSource: the connection is used only as the source argument of a backup.
func (r *resFn) onlyBackupSource(a *acq) bool {
	src := false
	for _, f := range append([]*ssa.Function{r.fn}, r.fn.AnonFuncs...) {
		for _, ci := range calls(f) {
			cc := ci.Common()
			for i, arg := range cc.Args {
				if !r.ids(arg, map[ssa.Value]bool{})[a.id] {
					continue
				}
				if i == 0 && recvOf(cc) == arg {
					if calleeName(cc) != "Close" {
						return false
					}
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					return false
				}
				if !r.p.backupSourceParam(r.p.unwrap(g), i, 0) {
					return false
				}
				src = true
			}
		}
	}
	return src
}

func (p *Program) backupSourceParam(f *ssa.Function, i, d int) bool {
	if f.Name() == "NewBackup" && len(f.Blocks) == 0 || f.Name() == "NewBackup" && strings.HasSuffix(pkgPathOf(f), "sqlite") {
		return i == 2
	}
	if d > 2 || i >= len(f.Params) {
		return false
	}
	ok := false
	for _, ref := range *f.Params[i].Referrers() {
		switch x := ref.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return false
			}
			for j, a := range x.Call.Args {
				if a == ssa.Value(f.Params[i]) {
					if !p.backupSourceParam(p.unwrap(g), j, d+1) {
						return false
					}
					ok = true
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return ok
}

func pkgPathOf(f *ssa.Function) string {
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func checkC08(c *Ctx) {
	c.Rule("used", "every error returned by a call is looked at: compared, returned, stored where it outlives the call, or passed on")
	c.Rule("not-overwritten", "an error held in a variable is looked at before the variable is assigned again or goes out of scope")
	c.Rule("reported", "once an error is known to have occurred, it (or an error made in its place) is returned, recorded, handed to a handler or logged on the path that follows; comparing it with an expected condition counts as handling that condition")
	for _, fn := range c.Funcs {
		if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "range") {
			continue
		}
		if c.outOfScope(fn, 0) != "" {
			continue
		}
		n := map[string]int{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if _, isB := cc.Value.(*ssa.Builtin); isB {
					continue
				}
				res := cc.Signature().Results()
				if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
					continue
				}
				name := calleeName(cc)
				if name == "" {
					name = "func value"
				}
				key := fname(fn) + " " + name
				n[key]++
				if n[key] > 1 {
					key += fmt.Sprintf(" #%d", n[key])
				}
				call, isCall := in.(*ssa.Call)
				var ev ssa.Value
				if isCall {
					ev, _ = errorResult(call)
				}
				if ev == nil || len(liveRefs(ev)) == 0 {
					if why := c.droppable(fn, cc, c.onFailurePath(in)); why != "" {
						c.Ok("used", key+" ("+why+")", ci.Pos())
						continue
					}
					if newErrorCall(cc) {
						continue
					}
					if p := calleePkg(cc); (p == "strconv" || p == "time") && c.onlyFrom(fn, "CreateFromString", 0) {
						c.Bad("used", "conversions of EFactory.CreateFromString", ci.Pos(), "a text that does not denote a value of the data type is converted without an error")
						continue
					}
					c.Bad("used", key, ci.Pos(), "the error returned by %s is dropped", name)
					continue
				}
				c.Ok("used", key, ci.Pos())
				if noFailure(cc) != "" {
					continue
				}
				if newErrorCall(cc) || strings.HasPrefix(name, "Join") && calleePkg(cc) == "errors" {
					continue
				}
				c.trackError(fn, call, ev, key)
			}
		}
	}
	c.Floor("used", 150)
	c.Floor("reported", 100)
}

func liveRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

// onFailurePath: the instruction only runs when some error is known non-nil, or in
// a deferred closure that tests one.
func (c *Ctx) onFailurePath(in ssa.Instruction) bool {
	b := in.Block()
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || !isNilConst(cmp.Y) || !isErrorType(cmp.X.Type()) {
			continue
		}
		var side *ssa.BasicBlock
		if cmp.Op == token.NEQ {
			side = p.Succs[0]
		} else if cmp.Op == token.EQL {
			side = p.Succs[1]
		}
		if side != nil && len(side.Preds) == 1 && side.Dominates(b) {
			return true
		}
	}
	return false
}

type errState struct {
	st string // "" not yet, "pending" produced & unlooked, "failed" known non-nil & unreported, "done"
}

func (s errState) Key() string { return s.st }

// trackError follows one error from the call that produced it.
func (c *Ctx) trackError(fn *ssa.Function, call *ssa.Call, ev ssa.Value, key string) {
	badOver, badRep := token.NoPos, token.NoPos
	// values that carry the error: itself, cells it is stored in and loads of them,
	// phis merging it
	carry := map[ssa.Value]bool{ev: true}
	cells := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if carry[x.Val] && factCell(x.Addr) != nil && !cells[x.Addr] {
						cells[x.Addr] = true
						ch = true
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && cells[x.X] && !carry[x] {
						carry[x] = true
						ch = true
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if carry[e] && !carry[x] {
							carry[x] = true
							ch = true
						}
					}
				case *ssa.ChangeInterface:
					if carry[x.X] && !carry[x] {
						carry[x] = true
						ch = true
					}
				}
			}
		}
	}
	e := &Engine{Fn: fn, Recover: 1}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(errState)
		if in == ssa.Instruction(call) {
			if s.st == "pending" || s.st == "failed" {
				// next iteration of a loop without having reported
				if s.st == "failed" {
					badRep = in.Pos()
				} else {
					badOver = in.Pos()
				}
			}
			s.st = "pending"
			return []*PState{ps.With(s)}
		}
		if s.st == "" || s.st == "done" {
			return []*PState{ps}
		}
		switch x := in.(type) {
		case *ssa.Store:
			if cells[x.Addr] && !carry[x.Val] {
				if s.st == "pending" {
					if k, isNil := e.Nil(ps, x.Addr); !(k && isNil) {
						badOver = x.Pos()
					}
				}
				break
			}
			if carry[x.Val] && !cells[x.Addr] {
				s.st = "done" // kept in a field, a slice element, a captured result
			} else if carry[x.Val] && cells[x.Addr] && outlives(x.Addr) {
				s.st = "done"
			}
		case *ssa.If, *ssa.BinOp, *ssa.Phi, *ssa.UnOp, *ssa.DebugRef, *ssa.Extract, *ssa.ChangeInterface, *ssa.RunDefers:
		case *ssa.Return:
			for _, r := range x.Results {
				if carry[r] {
					s.st = "done"
				}
			}
		case *ssa.TypeAssert:
			if carry[x.X] {
				s.st = "done" // told apart by kind
			}
		default:
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if *o != nil && (carry[*o] || cells[*o]) {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if !closureReads(mc, *o) {
							continue
						}
					}
					s.st = "done"
				}
			}
			if s.st == "failed" {
				if ci, ok := in.(ssa.CallInstruction); ok && (c.reports(ci.Common()) || otherMeaning(call, ci.Common())) {
					s.st = "done"
				}
				if mi, ok := in.(*ssa.MakeInterface); ok && isErrorType(mi.Type()) {
					s.st = "done"
				}
			}
		case *ssa.Panic:
			s.st = "done"
		}
		return []*PState{ps.With(s)}
	}
	e.Branch = func(br *ssa.If, taken bool, ps *PState) *PState {
		s := ps.U.(errState)
		if s.st != "pending" && s.st != "failed" {
			return nil
		}
		// compared with something
		if b, ok := br.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if u, ok := b.X.(*ssa.UnOp); ok && s.st == "failed" && isNilConst(b.Y) && taken == (b.Op == token.NEQ) {
				// the variable of the enclosing function already holds an error: the first one is kept
				if fv, ok := u.X.(*ssa.FreeVar); ok && isErrorType(u.Type()) && fv != nil {
					s.st = "done"
					return ps.With(s)
				}
			}
			if carry[b.X] && isNilConst(b.Y) {
				if taken == (b.Op == token.NEQ) {
					s.st = "failed"
				} else {
					s.st = "done" // no error
				}
				return ps.With(s)
			}
			if carry[b.X] || carry[b.Y] {
				if taken == (b.Op == token.EQL) {
					s.st = "done" // the expected condition
					return ps.With(s)
				}
				return nil
			}
		}
		if callOn(br.Cond, carry) {
			s.st = "done"
			return ps.With(s)
		}
		return nil
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		s := ps.U.(errState)
		if s.st != "pending" && s.st != "failed" {
			return
		}
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		// a deferred function that reports what the variable holds
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				df, ok := in.(*ssa.Defer)
				if !ok || !b.Dominates(ret.Block()) {
					continue
				}
				if mc, ok := df.Call.Value.(*ssa.MakeClosure); ok {
					for cell := range cells {
						if c.closureReports(mc, cell) {
							return
						}
					}
				}
			}
		}
		// an error made in its place, or a result that tells failure
		for _, r := range ret.Results {
			if isErrorType(r.Type()) {
				if k, isNil := e.Nil(ps, r); !k || !isNil {
					return
				}
			}
		}
		if s.st == "failed" {
			badRep = posOf(in)
		} else if knownNil(e, ps, carry) {
			return
		} else {
			badOver = posOf(in)
		}
	}
	e.Run(errState{})
	c.Decide(badOver == token.NoPos, "not-overwritten", key, badOver, "the error returned at %s is overwritten or forgotten here before anybody looked at it", c.at(call.Pos()))
	c.Decide(badRep == token.NoPos, "reported", key, badRep, "the error returned at %s is known to have occurred, yet this path neither returns, records nor logs it", c.at(call.Pos()))
}

func knownNil(e *Engine, ps *PState, carry map[ssa.Value]bool) bool {
	for v := range carry {
		if k, isNil := e.Nil(ps, v); k && isNil {
			return true
		}
	}
	return false
}

// outlives: a variable whose content is seen after the function returns (named
// result, captured variable of an enclosing function).
func outlives(cell ssa.Value) bool {
	if _, ok := cell.(*ssa.FreeVar); ok {
		return true
	}
	return false
}

func closureReads(mc *ssa.MakeClosure, cell ssa.Value) bool {
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != cell {
			continue
		}
		for _, r := range *f.FreeVars[i].Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				return true
			}
		}
	}
	return false
}

// closureReports: the closure uses the content of the variable for more than a test.
func (c *Ctx) closureReports(mc *ssa.MakeClosure, cell ssa.Value) bool {
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != cell {
			continue
		}
		for _, r := range *f.FreeVars[i].Referrers() {
			u, ok := r.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			for _, r2 := range liveRefs(u) {
				switch r2.(type) {
				case *ssa.BinOp, *ssa.If:
				default:
					return true
				}
			}
		}
	}
	return false
}

// otherMeaning: a text that is no number is given its other meaning.
func otherMeaning(call *ssa.Call, cc *ssa.CallCommon) bool {
	if calleePkg(&call.Call) != "strconv" || len(call.Call.Args) == 0 {
		return false
	}
	for _, a := range cc.Args {
		if a == call.Call.Args[0] {
			return true
		}
	}
	return false
}

// callOn: a condition computed by a call on the error (errors.Is, os.IsExist...).
func callOn(v ssa.Value, carry map[ssa.Value]bool) bool {
	switch x := v.(type) {
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if carry[a] {
				return true
			}
		}
	case *ssa.UnOp:
		return callOn(x.X, carry)
	}
	return false
}

// reports: a call that records or logs a failure.
func (c *Ctx) reports(cc *ssa.CallCommon) bool {
	if newErrorCall(cc) {
		return true
	}
	name := calleeName(cc)
	if strings.HasSuffix(calleePkg(cc), "zap") {
		return name == "Error" || name == "Warn" || name == "Fatal" || name == "Panic"
	}
	for _, a := range cc.Args {
		if isErrorType(a.Type()) || typeName(a.Type()) == "EDiagnostic" {
			return true
		}
	}
	if f := cc.StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "NewEDiagnostic") {
		return true
	}
	return false
}

// fieldOwner: the struct whose field the value was read from.
func fieldOwner(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	return typeName(fa.X.Type())
}
