package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C05", checkC05) }

// promiseBody returns the executor closure handed to the promise library.
func promiseBody(cc *ssa.CallCommon) *ssa.Function {
	f := cc.StaticCallee()
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() == nil || f.Object().Pkg() == nil || !strings.HasSuffix(f.Object().Pkg().Path(), "chebyrash/promise") {
		return nil
	}
	if f.Name() != "NewWithPool" && f.Name() != "New" || len(cc.Args) == 0 {
		return nil
	}
	return closureArg(cc.Args[0])
}

// rootParam follows a value through captured variables and single-store cells to
// the parameter it denotes.
func rootParam(v ssa.Value) *ssa.Parameter {
	for d := 0; d < 12; d++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FreeVar:
			b := rootBinding(x)
			if b == nil {
				return nil
			}
			v = b
		case *ssa.Alloc:
			s := singleStore(x)
			if s == nil {
				return nil
			}
			v = s
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// hasPromise: t is (a pointer to) a struct holding a promise.
func hasPromise(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "Promise" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "promise") {
				return true
			}
		}
	}
	return false
}

// pendingTable: a map whose values (through nested maps and slices) are promise
// holders.
func pendingTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	e := m.Elem()
	for {
		switch u := e.Underlying().(type) {
		case *types.Map:
			e = u.Elem()
			continue
		case *types.Slice:
			e = u.Elem()
			continue
		}
		break
	}
	return hasPromise(e)
}

// tableField finds the struct field a (possibly nested) map or slice value was
// loaded from.
func tableField(v ssa.Value, seen map[ssa.Value]bool) *types.Var {
	if seen[v] || len(seen) > 60 {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldOf(fa)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					return tableField(s, seen)
				}
			}
		}
	case *ssa.Lookup:
		return tableField(x.X, seen)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return tableField(lk.X, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f := tableField(e, seen); f != nil {
				return f
			}
		}
	case *ssa.Slice:
		return tableField(x.X, seen)
	case *ssa.Call:
		if len(x.Call.Args) > 0 {
			return tableField(x.Call.Args[0], seen)
		}
	case *ssa.MakeMap:
		// a new inner map that is stored into a table
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Value == ssa.Value(x) {
				return tableField(mu.Map, seen)
			}
		}
	}
	return nil
}

// grows: the value stored is the previous collection with an element appended
func appended(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append" && len(c.Call.Args) == 2 && !viaSlice(c.Call.Args[0])
}

func viaSlice(v ssa.Value) bool {
	_, ok := v.(*ssa.Slice)
	return ok
}

// notFoundBranch: the branch on which a lookup found nothing.
func notFoundBranch(br *ssa.If, taken bool) bool {
	switch x := br.Cond.(type) {
	case *ssa.BinOp:
		k, okc := constInt(x.Y)
		call, isCall := x.X.(*ssa.Call)
		if okc && isCall {
			n := calleeName(&call.Call)
			if !strings.HasPrefix(n, "Index") {
				return false
			}
			switch {
			case x.Op == token.EQL && k == -1, x.Op == token.LSS && k == 0, x.Op == token.LEQ && k == -1:
				return taken
			case x.Op == token.NEQ && k == -1, x.Op == token.GEQ && k == 0, x.Op == token.GTR && k == -1:
				return !taken
			}
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			return !taken
		}
	}
	return false
}

func checkC05(c *Ctx) {
	c.Rule("settled", "the body of every promise resolves or rejects it on every normal exit (a panic is turned into a rejection by the promise library)")
	c.Rule("deregistered", "a promise body scheduled by a function that registers its operation in a pending table removes it from that table on every exit: normal returns, error returns and panics of the executed operation")
	c.Rule("removal", "the removal from a pending table happens on every path of the function that performs it, except where the operation was not in the table")
	c.Rule("emptied", "what the removal of the last operation leaves empty is itself removed from the pending table, and nothing else is")
	c.Rule("published", "an operation registered in a pending table has its promise before the lock protecting the table is released")
	c.Rule("goroutine-table", "an entry that a promise body adds to a table of its own store under its goroutine's identity is removed on every exit, panics included")
	c.Rule("every-table", "a loop that removes an operation from the tables it is registered in goes through all of them")
	c.Rule("supervised", "a scheduled operation is handed to the goroutine that unblocks stuck operations on every path")

	settle := newMust(c.Program, func(in ssa.Instruction, fn *ssa.Function) []string {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || ci.Common().IsInvoke() {
			return nil
		}
		if c.isSettler(ci.Common().Value, 0) {
			return []string{"settle"}
		}
		return nil
	})
	// removals from tables
	removal := func(in ssa.Instruction, fn *ssa.Function) []string {
		switch x := in.(type) {
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				if f := tableField(x.Common().Args[0], map[ssa.Value]bool{}); f != nil {
					return []string{"remove " + fieldSel(f)}
				}
			}
			if calleePkg(x.Common()) == "maps" && calleeName(x.Common()) == "DeleteFunc" {
				if f := tableField(x.Common().Args[0], map[ssa.Value]bool{}); f != nil {
					return []string{"remove " + fieldSel(f)}
				}
			}
		case *ssa.MapUpdate:
			if f := tableField(x.Map, map[ssa.Value]bool{}); f != nil && pendingTable(f.Type()) {
				if _, isMap := x.Value.Type().Underlying().(*types.Map); !isMap && !appended(x.Value) {
					return []string{"remove " + fieldSel(f)}
				}
			}
		}
		return nil
	}
	waive := func(br *ssa.If, taken bool, fn *ssa.Function) []string {
		if notFoundBranch(br, taken) {
			return c.waivable(fn, removal)
		}
		return nil
	}
	remove := newMust(c.Program, removal)
	remove.waive = waive

	nBodies := 0
	for _, fn := range c.Funcs {
		for _, ci := range calls(fn) {
			body := promiseBody(ci.Common())
			if body == nil {
				continue
			}
			nBodies++
			key := fname(topFn(fn)) + " promise"
			c.Decide(settle.of(body, false)["settle"], "settled", key, ci.Pos(), "some path through the promise body returns without resolving or rejecting it: whoever awaits it waits forever")

			// tables the scheduling function registers into
			for _, tbl := range c.registersIn(fn, body) {
				ev := "remove " + tbl
				tkey := key + " " + tbl
				c.Decide(remove.of(body, false)[ev], "deregistered", tkey+" on return", ci.Pos(), "some return of the operation leaves it registered in %s", tbl)
				ok, at := c.panicSafe(remove, body, ev)
				c.Decide(ok, "deregistered", tkey+" on panic", at, "a panic here leaves the operation registered in %s: no deferred call removes it", tbl)
			}
			c.publishedBeforeUnlock(fn, body, ci)
		}
		// goroutine tables
		if c.promiseBodies()[fn] {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					mu, ok := in.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					f := tableField(mu.Map, map[ssa.Value]bool{})
					if f == nil || pendingTable(f.Type()) {
						continue
					}
					ev := "remove " + fieldSel(f)
					key := fname(topFn(fn)) + " " + fieldSel(f)
					c.Decide(remove.of(fn, false)[ev], "goroutine-table", key+" on return", mu.Pos(), "the entry added to %s is not removed on every return", fieldSel(f))
					ok, at := c.panicSafe(remove, fn, ev)
					c.Decide(ok, "goroutine-table", key+" on panic", at, "a panic here leaves the entry in %s", fieldSel(f))
				}
			}
		}
	}
	// removal functions
	for _, fn := range c.Funcs {
		evs := map[string]bool{}
		add := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, e := range removal(in, fn) {
					evs[e] = true
				}
				if mu, ok := in.(*ssa.MapUpdate); ok && appended(mu.Value) {
					add = true
				}
			}
		}
		if add {
			continue
		}
		for _, e := range keysOf(evs) {
			if !c.isPending(strings.TrimPrefix(e, "remove ")) {
				continue
			}
			if fn.Parent() != nil && c.promiseBodies()[fn] {
				continue
			}
			got := remove.of(fn, false)[e]
			c.Decide(got, "removal", fname(fn)+" "+e, fn.Pos(), "some path of %s returns without removing the operation although it is in the table", fname(fn))
		}
	}
	c.everyTable(removal)
	c.emptied()
	c.supervised()
	c.Floor("settled", 3)
	c.Floor("deregistered", 4)
	c.Floor("goroutine-table", 2)
	c.Floor("published", 2)
	c.Floor("removal", 2)
	c.Floor("supervised", 1)
	c.Floor("emptied", 5)
	c.Notes["pending_tables"] = keysOf(c.memo["pendingFields"].(map[string]bool))
}

// everyTable: a loop over the registrations is left only when they are exhausted.
// A loop that looks for the operation itself stops when it has found it.
func (c *Ctx) everyTable(removal func(ssa.Instruction, *ssa.Function) []string) {
	removes := map[*ssa.Function]bool{}
	hits := func(in ssa.Instruction, fn *ssa.Function) bool {
		for _, e := range removal(in, fn) {
			if c.isPending(strings.TrimPrefix(e, "remove ")) {
				return true
			}
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g != nil && removes[originFunc(g)]
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if removes[fn] || c.promiseBodies()[fn] {
				continue
			}
			adds, rem := false, false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && appended(mu.Value) {
						adds = true
					}
					rem = rem || hits(in, fn)
				}
			}
			if rem && !adds {
				removes[fn] = true
				changed = true
			}
		}
	}
	for _, fn := range c.Funcs {
		for _, l := range naturalLoops(fn) {
			rem := false
			for b := range l.body {
				for _, in := range b.Instrs {
					rem = rem || hits(in, fn)
				}
			}
			if !rem {
				continue
			}
			adds := false
			for b := range l.body {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && appended(mu.Value) {
						adds = true
					}
				}
			}
			if adds {
				continue
			}
			var bad *ssa.BasicBlock
			for b := range l.body {
				if b == l.header || len(b.Succs) == 0 {
					continue
				}
				for _, s := range b.Succs {
					if !l.body[s] && !panics(s) && !c.foundBranch(b, l) {
						bad = b
					}
				}
			}
			pos := fn.Pos()
			if bad != nil {
				pos = bad.Instrs[len(bad.Instrs)-1].Pos()
			}
			c.Decide(bad == nil, "every-table", fname(fn)+" loop", pos, "the loop that removes the operation from its tables is left before it went through all of them")
		}
	}
}

func panics(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// foundBranch: b is only reached when the operation was found (two operations are
// equal) in this round of the loop.
func (c *Ctx) foundBranch(b *ssa.BasicBlock, l *loopInfo) bool {
	for x := b; x != nil && l.body[x]; x = x.Idom() {
		d := x.Idom()
		if d == nil || !l.body[d] {
			return false
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if op, ok := br.Cond.(*ssa.BinOp); ok && op.Op == token.EQL && hasPromise(op.X.Type()) && d.Succs[0] == x && len(x.Preds) == 1 {
			return true
		}
	}
	return false
}

// isSettler: v denotes the resolve or reject function of a promise body, possibly
// handed down to a helper.
func (c *Ctx) isSettler(v ssa.Value, d int) bool {
	p := rootParam(v)
	if p == nil || d > 4 {
		return false
	}
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	if c.promiseBodies()[fn] {
		return idx < 2
	}
	sites := c.staticSites(fn)
	if len(sites) == 0 {
		return false
	}
	for _, cc := range sites {
		if idx >= len(cc.Args) || !c.isSettler(cc.Args[idx], d+1) {
			return false
		}
	}
	return true
}

func (c *Ctx) waivable(fn *ssa.Function, removal func(ssa.Instruction, *ssa.Function) []string) []string {
	evs := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, e := range removal(in, fn) {
				evs[e] = true
			}
		}
	}
	return keysOf(evs)
}

func (p *Program) promiseBodies() map[*ssa.Function]bool {
	m, _ := p.memo["promiseBodies"].(map[*ssa.Function]bool)
	if m == nil {
		m = map[*ssa.Function]bool{}
		for _, fn := range p.Funcs {
			for _, ci := range calls(fn) {
				if b := promiseBody(ci.Common()); b != nil {
					m[b] = true
				}
			}
		}
		p.memo["promiseBodies"] = m
	}
	return m
}

func (c *Ctx) isPending(field string) bool {
	m, _ := c.memo["pendingFields"].(map[string]bool)
	if m == nil {
		m = map[string]bool{}
		for _, n := range c.Named {
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if pendingTable(st.Field(i).Type()) {
					m[fieldSel(st.Field(i))] = true
				}
			}
		}
		c.memo["pendingFields"] = m
	}
	return m[field]
}

// registersIn lists the pending tables fn adds an operation to, itself or through
// the in-package functions it calls (not inside the promise body).
func (c *Ctx) registersIn(fn, body *ssa.Function) []string {
	res := map[string]bool{}
	seen := map[*ssa.Function]bool{body: true}
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		if seen[f] || d > 4 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if tf := tableField(x.Map, map[ssa.Value]bool{}); tf != nil && pendingTable(tf.Type()) && appended(x.Value) {
						res[fieldSel(tf)] = true
					}
				case *ssa.Call:
					if fns, _ := c.callees(&x.Call); len(fns) == 1 && !x.Call.IsInvoke() {
						walk(c.unwrap(fns[0]), d+1)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			// range-over-func bodies
			if a.Synthetic != "" || strings.Contains(a.Name(), "-range") {
				walk(a, d)
			}
		}
	}
	walk(fn, 0)
	return keysOf(res)
}

// panicSafe: wherever the promise body runs foreign code (a function value it was
// given, or a function that may run one), a deferred call performing ev on a panic
// is already in place, or ev already happened.
func (c *Ctx) panicSafe(m *mustEvents, body *ssa.Function, ev string) (bool, token.Pos) {
	ok, at := true, body.Pos()
	m.run(body, false, func(in ssa.Instruction, st evState) {
		call, isCall := in.(*ssa.Call)
		if !isCall || call.Call.IsInvoke() || call.Call.StaticCallee() != nil {
			return
		}
		if _, isB := call.Call.Value.(*ssa.Builtin); isB {
			return
		}
		if c.isSettler(call.Call.Value, 0) {
			return // resolve / reject
		}
		if closureOf(call.Call.Value) {
			return // a local helper closure
		}
		if !evHas(st.done, ev) && !evHas(st.pdefer, ev) {
			ok, at = false, in.Pos()
		}
	}, func(ssa.Instruction, evState) {})
	return ok, at
}

func closureOf(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return true
	case *ssa.UnOp:
		if s := singleStore(x.X); s != nil {
			return closureOf(s)
		}
	}
	return false
}

// publishedBeforeUnlock: the promise is stored in the operation before the lock
// held while registering is released.
func (c *Ctx) publishedBeforeUnlock(fn, body *ssa.Function, site ssa.CallInstruction) {
	if len(c.registersIn(fn, body)) == 0 {
		return
	}
	key := fname(topFn(fn)) + " promise"
	regFns := map[*ssa.Function]bool{}
	var regs func(f *ssa.Function, d int) bool
	regs = func(f *ssa.Function, d int) bool {
		if r, ok := regFns[f]; ok {
			return r
		}
		regFns[f] = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if tf := tableField(x.Map, map[ssa.Value]bool{}); tf != nil && pendingTable(tf.Type()) && appended(x.Value) {
						regFns[f] = true
						return true
					}
				case *ssa.Call:
					if d < 4 && !x.Call.IsInvoke() {
						fns, _ := c.callees(&x.Call)
						for _, g := range fns {
							if g != body && regs(c.unwrap(g), d+1) {
								regFns[f] = true
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	// may-registered, not-yet-published at an unlock
	l := c.locks()
	bad := token.NoPos
	e := &Engine{Fn: fn}
	type st = evState
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(st)
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if tf := tableField(x.Map, map[ssa.Value]bool{}); tf != nil && pendingTable(tf.Type()) && appended(x.Value) {
				s.done = evAdd(s.done, "reg")
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if hasPromise(types.NewPointer(deref(fa.X.Type()))) {
					if f := fieldOf(fa); f != nil && strings.Contains(f.Type().String(), "promise.Promise") {
						s.done = evAdd(s.done, "pub")
					}
				}
			}
		case *ssa.Call:
			if x == site {
				break
			}
			if op, ok := c.primitiveLock(&x.Call); ok && op.delta < 0 {
				if evHas(s.done, "reg") && !evHas(s.done, "pub") {
					bad = x.Pos()
				}
				break
			}
			if !x.Call.IsInvoke() {
				fns, _ := c.callees(&x.Call)
				for _, g := range fns {
					if regs(c.unwrap(g), 0) {
						s.done = evAdd(s.done, "reg")
					}
				}
				for _, a := range x.Call.Args {
					if g := closureArg(a); g != nil && g != body && regs(g, 0) {
						s.done = evAdd(s.done, "reg")
					}
				}
			}
		}
		return []*PState{ps.With(s)}
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		s := ps.U.(st)
		if evHas(s.done, "reg") && !evHas(s.done, "pub") {
			bad = in.Pos()
		}
	}
	e.Run(st{})
	_ = l
	c.Decide(bad == token.NoPos, "published", key, bad, "the operation is visible in the pending table without its promise: another goroutine would wait on nil")
}

// supervised: operations whose execution can be cancelled are sent to the channel
// of the goroutine that cancels stuck ones.
func (c *Ctx) supervised() {
	for _, fn := range c.Funcs {
		var body *ssa.Function
		for _, ci := range calls(fn) {
			if b := promiseBody(ci.Common()); b != nil {
				body = b
			}
		}
		if body == nil {
			continue
		}
		// fn stores a cancel function into the operation
		cancels := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && hasPromise(types.NewPointer(deref(fa.X.Type()))) {
						if typeName(st.Val.Type()) == "CancelFunc" || strings.HasSuffix(st.Val.Type().String(), "CancelFunc") {
							cancels = true
						}
					}
				}
			}
		}
		if !cancels {
			continue
		}
		m := newMust(c.Program, func(in ssa.Instruction, f *ssa.Function) []string {
			if s, ok := in.(*ssa.Send); ok && hasPromise(s.X.Type()) {
				return []string{"sent"}
			}
			return nil
		})
		c.Decide(m.of(fn, false)["sent"], "supervised", fname(fn), fn.Pos(), "some path schedules a cancellable operation without handing it to the goroutine that cancels stuck operations")
	}
}

// tableLevel: 0 for a pending table itself, n for what n lookups in it give.
func (c *Ctx) tableLevel(v ssa.Value, seen map[ssa.Value]bool) (int, *types.Var) {
	if seen[v] || len(seen) > 60 {
		return 0, nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return 0, fieldOf(fa)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					return c.tableLevel(s, seen)
				}
			}
		}
	case *ssa.Lookup:
		if n, f := c.tableLevel(x.X, seen); f != nil {
			return n + 1, f
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return c.tableLevel(lk, seen)
		}
	case *ssa.Slice:
		return c.tableLevel(x.X, seen)
	case *ssa.Call:
		// slices.Delete and the like give back what they were given
		if len(x.Call.Args) > 0 {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return c.tableLevel(x.Call.Args[0], seen)
			}
		}
	case *ssa.Parameter:
		// the table of the only caller
		var n int
		var f *types.Var
		for _, s := range c.callerMap()[x.Parent()] {
			for i, p := range x.Parent().Params {
				if cc := s.ci.Common(); p == x && cc.StaticCallee() == x.Parent() && i < len(cc.Args) {
					if n2, f2 := c.tableLevel(cc.Args[i], seen); f2 != nil {
						n, f = n2, f2
					}
				}
			}
		}
		return n, f
	case *ssa.Phi:
		for _, e := range x.Edges {
			if n, f := c.tableLevel(e, seen); f != nil {
				return n, f
			}
		}
	}
	return 0, nil
}

// lenTest: the condition tells whether len(v) is zero.
func lenTest(cond ssa.Value, taken bool) (v ssa.Value, zero, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB {
		return nil, false, false
	}
	call, isC := b.X.(*ssa.Call)
	k, isK := constInt(b.Y)
	op := b.Op
	if !isC || !isK {
		call, isC = b.Y.(*ssa.Call)
		k, isK = constInt(b.X)
		if !isC || !isK {
			return nil, false, false
		}
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	bi, isBi := call.Call.Value.(*ssa.Builtin)
	if !isBi || bi.Name() != "len" {
		return nil, false, false
	}
	v = call.Call.Args[0]
	switch {
	case op == token.EQL && k == 0, op == token.LSS && k == 1, op == token.LEQ && k == 0:
		return v, taken, true
	case op == token.NEQ && k == 0, op == token.GTR && k == 0, op == token.GEQ && k == 1:
		return v, !taken, true
	}
	return nil, false, false
}

type emptyState struct{ s string }

func (s emptyState) Key() string { return s.s }

// emptied decides what the removal functions do with the containers they empty.
func (c *Ctx) emptied() {
	tables := map[*types.Var]token.Pos{}
	deletes := map[string]bool{}
	lv := func(v ssa.Value) (string, *types.Var) {
		n, f := c.tableLevel(v, map[ssa.Value]bool{})
		if f == nil || !pendingTable(f.Type()) {
			return "", nil
		}
		return fmt.Sprintf("%s/%d;", fieldSel(f), n), f
	}
	for _, fn := range c.Funcs {
		shrinks := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := deleteCall(in); ok {
					if k, f := lv(m); f != nil {
						deletes[k] = true
						tables[f] = in.Pos()
					}
				}
				if sl, ok := in.(*ssa.Slice); ok {
					if _, f := lv(sl.X); f != nil {
						shrinks = true
					}
				}
				if call, ok := in.(*ssa.Call); ok && strings.HasPrefix(calleeName(&call.Call), "Delete") && len(call.Call.Args) > 0 {
					if _, f := lv(call.Call.Args[0]); f != nil {
						shrinks = true
					}
				}
			}
		}
		if shrinks {
			c.emptiedPaths(fn)
		}
	}
	for f, pos := range tables {
		// every level keyed by an object is cleaned
		t, n := f.Type(), 0
		for {
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				break
			}
			switch m.Key().Underlying().(type) {
			case *types.Interface, *types.Pointer:
				c.Decide(deletes[fmt.Sprintf("%s/%d;", fieldSel(f), n)], "emptied", fmt.Sprintf("%s level %d", fieldSel(f), n), pos, "no entry of level %d of %s is ever deleted: the table keeps an entry for every object that had an operation", n, fieldSel(f))
			}
			t = m.Elem()
			n++
		}
	}
}

func deleteCall(in ssa.Instruction) (ssa.Value, bool) {
	ci, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	bi, ok := ci.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "delete" {
		return nil, false
	}
	return ci.Call.Args[0], true
}

func (c *Ctx) emptiedPaths(fn *ssa.Function) {
	var left, early token.Pos
	e := &Engine{Fn: fn}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(emptyState)
		if m, ok := deleteCall(in); ok {
			if n, f := c.tableLevel(m, map[ssa.Value]bool{}); f != nil && pendingTable(f.Type()) {
				inner := fmt.Sprintf("%s/%d;", fieldSel(f), n+1)
				if !strings.Contains(s.s, inner) {
					early = in.Pos()
				}
				s.s = strings.ReplaceAll(s.s, inner, "")
			}
		}
		return []*PState{ps.With(s)}
	}
	e.Branch = func(br *ssa.If, taken bool, ps *PState) *PState {
		v, zero, ok := lenTest(br.Cond, taken)
		if !ok || !zero {
			return nil
		}
		n, f := c.tableLevel(v, map[ssa.Value]bool{})
		if f == nil || !pendingTable(f.Type()) || n == 0 {
			return nil
		}
		s := ps.U.(emptyState)
		k := fmt.Sprintf("%s/%d;", fieldSel(f), n)
		if !strings.Contains(s.s, k) {
			s.s += k
		}
		return ps.With(s)
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		if _, ok := in.(*ssa.Return); ok && ps.U.(emptyState).s != "" {
			left = posOf(in)
		}
	}
	e.Run(emptyState{})
	c.Decide(left == token.NoPos, "emptied", fname(fn)+" empty", left, "a container found empty is left in the pending table")
	c.Decide(early == token.NoPos, "emptied", fname(fn)+" only empty", early, "a container is deleted from the pending table although it may still hold pending operations")
}
