package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// acquisition: a lock some call may take, seen from a function.
type acquisition struct {
	class string
	rec   bool
	path  Path // zero root when it cannot be named from the function
	chain string
}

type orderAnalysis struct {
	p    *Program
	l    *lockAnalysis
	acqs map[*ssa.Function]map[string]acquisition
}

// dispatch resolves a call for lock-order purposes. Static calls and local
// closures are followed. A call through an object's own public identity reaches
// the methods of lock-owning types that embed the caller's type. Calls through
// interfaces are followed only along the links that connect lock-owning
// components (class to class, map to its entry list, store to its managers);
// which object is behind any other model interface is not known statically.
func (p *Program) dispatch(cc *ssa.CallCommon) []*ssa.Function {
	fns, _ := p.callees(cc)
	if !cc.IsInvoke() {
		return fns
	}
	var out []*ssa.Function
	if base := identityBase(cc.Value, 0); base != nil {
		for _, f := range fns {
			r := f.Signature.Recv()
			if r == nil {
				continue
			}
			n, _ := types.Unalias(deref(r.Type())).(*types.Named)
			if n != nil && (n.Origin() == base.Origin() || (namedMutex(n) || namedMutex(base)) && embedsType(n, base, map[types.Type]bool{}) || embedsType(base, n, map[types.Type]bool{}) && namedMutex(n)) {
				out = append(out, f)
			}
		}
		return out
	}
	switch in := typeName(cc.Value.Type()); {
	case in == "EClass" || in == "EClassInternal":
		for _, f := range fns {
			if r := f.Signature.Recv(); r != nil && strings.HasPrefix(recvTypeName(r.Type()), "EClass") {
				out = append(out, f)
			}
		}
		return out
	case strings.HasPrefix(strings.ToLower(in), "sql") && len(fns) <= 3:
		return fns
	}
	if fa := embeddedLoad(cc.Value); fa != nil {
		// the entry list a map is built on: the list types that carry its callbacks
		if n := outerNamed(fa.X); n != nil && n.Origin().Obj().Name() == "BasicEMap" {
			for _, f := range fns {
				if r := f.Signature.Recv(); r != nil {
					switch recvTypeName(r.Type()) {
					case "EStoreList", "eStoreEMapList", "BasicEList", "basicEMapList", "AbstractEList":
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

// embeddedLoad returns the embedded interface field a value was read from.
func embeddedLoad(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldOf(fa) != nil && fieldOf(fa).Embedded() {
			return fa
		}
	}
	return nil
}

// identityBase returns the named struct whose `interfaces` field the value was
// read from, when it is reached from a receiver of that struct.
func identityBase(v ssa.Value, d int) *types.Named {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.TypeAssert:
		return identityBase(x.X, d+1)
	case *ssa.ChangeInterface:
		return identityBase(x.X, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return identityBase(ta.X, d+1)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fieldOf(fa) != nil && fieldOf(fa).Name() == "interfaces" {
			return outerNamed(fa.X)
		}
	case *ssa.Call:
		cc := x.Common()
		f := cc.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || len(cc.Args) != 1 || len(f.Blocks) == 0 {
			return nil
		}
		n := strings.ToLower(f.Name())
		if strings.HasPrefix(n, "as") || n == "getinterfaces" {
			return outerNamed(cc.Args[0])
		}
	}
	return nil
}

func outerNamed(v ssa.Value) *types.Named {
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || fieldOf(fa) == nil || !fieldOf(fa).Embedded() {
			break
		}
		v = fa.X
	}
	n, _ := types.Unalias(deref(v.Type())).(*types.Named)
	return n
}

func embedsType(t types.Type, base *types.Named, seen map[types.Type]bool) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || seen[n] {
		return false
	}
	seen[n] = true
	if n == base || n.Origin() == base.Origin() {
		return true
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && embedsType(st.Field(i).Type(), base, seen) {
			return true
		}
	}
	return false
}

func (o *orderAnalysis) run() {
	p := o.p
	o.acqs = map[*ssa.Function]map[string]acquisition{}
	key := func(a acquisition) string {
		if a.path.Root == nil {
			return a.class + "|?"
		}
		return a.class + "|" + a.path.String()
	}
	add := func(fn *ssa.Function, a acquisition) bool {
		m := o.acqs[fn]
		if m == nil {
			m = map[string]acquisition{}
			o.acqs[fn] = m
		}
		k := key(a)
		if _, ok := m[k]; ok {
			return false
		}
		// bound the paths per class
		n := 0
		for kk := range m {
			if strings.HasPrefix(kk, a.class+"|") {
				n++
			}
		}
		if n > 12 {
			a.path = Path{}
			k = key(a)
			if _, ok := m[k]; ok {
				return false
			}
		}
		m[k] = a
		return true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			for _, ci := range calls(fn) {
				if _, isGo := ci.(*ssa.Go); isGo {
					continue
				}
				cc := ci.Common()
				if op, ok := p.primitiveLock(cc); ok {
					if op.delta > 0 {
						if add(fn, acquisition{op.class, op.rec, nameable(op.key.path, fn), fname(fn)}) {
							changed = true
						}
					}
					continue
				}
				for _, t := range p.dispatch(cc) {
					if isPromiseBody(t) {
						continue
					}
					for _, a := range o.acqs[t] {
						na := a
						na.path = rebaseAcq(a.path, t, cc, fn)
						if len(na.chain) < 160 && t.Parent() == nil {
							na.chain = fname(fn) + " > " + a.chain
						}
						if add(fn, na) {
							changed = true
						}
					}
				}
				// closures passed to synchronous external iteration
				for _, a := range cc.Args {
					f := closureArg(a)
					if f == nil || isPromiseBody(f) {
						continue
					}
					fns, _ := p.callees(cc)
					if len(fns) == 0 && (syncExternal(cc) || strings.Contains(f.Synthetic, "range-over-func")) {
						for _, aq := range o.acqs[f] {
							na := aq
							na.path = nameable(aq.path, fn)
							if add(fn, na) {
								changed = true
							}
						}
					}
				}
			}
		}
	}
}

func closureArg(a ssa.Value) *ssa.Function {
	if ct, ok := a.(*ssa.ChangeType); ok {
		a = ct.X
	}
	if mc, ok := a.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}

// isPromiseBody: a closure handed to the promise library or a goroutine.
func isPromiseBody(fn *ssa.Function) bool {
	if fn.Parent() == nil || len(fn.Params) != 2 {
		return false
	}
	return fn.Params[0].Name() == "resolve" || fn.Params[1].Name() == "reject"
}

// nameable keeps a path only when it starts at a parameter, captured variable or global.
func nameable(p Path, fn *ssa.Function) Path {
	if strings.Count(p.Sel, ".") > 6 {
		return Path{}
	}
	switch r := p.Root.(type) {
	case *ssa.Global:
		return p
	case *ssa.Parameter:
		if r.Parent() == fn || fn.Parent() != nil {
			return p
		}
	}
	return Path{}
}

func rebaseAcq(p Path, callee *ssa.Function, cc *ssa.CallCommon, caller *ssa.Function) Path {
	if p.Root == nil {
		return p
	}
	np := canonPath(rebase(p, callee, cc))
	return nameable(np, caller)
}

// blocking operations: waiting for another goroutine.
func (p *Program) blockingCall(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Send:
		return "channel send"
	case *ssa.Select:
		if x.Blocking {
			return "select"
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "channel receive"
		}
	case *ssa.Call:
		cc := x.Common()
		if strings.Contains(calleePkg(cc), "promise") && calleeName(cc) == "Await" {
			return "promise Await"
		}
		if strings.HasSuffix(calleePkg(cc), "sqlitex") {
			switch calleeName(cc) {
			case "Take", "Execute", "ExecuteTransient", "ExecuteScript":
				return "database " + calleeName(cc)
			}
		}
		if calleePkg(cc) == "sync" && calleeName(cc) == "Wait" {
			return "Wait"
		}
	}
	return ""
}

// leafClasses: mutexes that protect bookkeeping only; nothing may wait while holding one.
func leafClass(c string) bool {
	switch c {
	case "sqlBase.sqliteMutex", "SQLStore.mutexOperations", "SQLStore.mutexQueries", "SQLStore.mutexGoRoutines",
		"sqlEncoderLockManager.mutex", "sqlStoreIDManagerImpl.mutex", "sqlDecoder.classDataMutex", "sqlEncoder.classDataMutex",
		"sqlSingleQueries.mutex", "sqlManyQueries.mutex", "sqlSchema.mutex", "UniqueIDManager.mutex":
		return true
	}
	return false
}

func init() { register("C03", checkC03) }

func checkC03(c *Ctx) {
	const rOrder, rSelf, rWait = "lock-order", "self-lock", "wait-under-lock"
	c.Rule(rOrder, "the acquired-while-held relation between lock classes, computed over the call graph with may-held sets, is acyclic; nested acquisitions of one class on different instances follow one direction")
	c.Rule(rSelf, "no non-reentrant mutex is acquired, directly or through callees, on the instance whose mutex is already held")
	c.Rule(rWait, "no internal bookkeeping mutex of the database layer is held while waiting for a promise, a channel or the database")
	l := c.locks()
	o := &orderAnalysis{p: c.Program, l: l}
	o.run()
	// blocking functions
	blocks := map[*ssa.Function]string{}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if blocks[fn] != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if w := c.blockingCall(in); w != "" {
						blocks[fn] = w + " in " + fname(fn)
						changed = true
						break
					}
					if call, ok := in.(*ssa.Call); ok {
						for _, t := range c.dispatch(&call.Call) {
							if w := blocks[t]; w != "" && !isPromiseBody(t) && blocks[fn] == "" {
								blocks[fn] = w
								changed = true
							}
						}
					}
				}
			}
		}
	}
	type edge struct {
		from, to string
		key      string
		pos      token.Pos
		msg      string
	}
	edges := map[string][]edge{}
	selfDirs := map[string]map[string]edge{}
	nested := 0
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				held := l.heldMay(fn, in)
				if len(held) == 0 {
					continue
				}
				// waiting
				w := c.blockingCall(in)
				var acq []acquisition
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := ci.(*ssa.Go); isGo {
						continue
					}
					cc := ci.Common()
					if op, ok := c.primitiveLock(cc); ok {
						if op.delta > 0 {
							acq = append(acq, acquisition{op.class, op.rec, op.key.path, fname(fn)})
						}
					} else if _, isDefer := ci.(*ssa.Defer); !isDefer {
						for _, t := range c.dispatch(cc) {
							if w == "" && !isPromiseBody(t) {
								w = blocks[t]
							}
							for _, a := range o.acqs[t] {
								na := a
								if a.path.Root != nil {
									na.path = canonPath(rebase(a.path, t, cc))
								}
								acq = append(acq, na)
							}
						}
					}
				}
				for _, h := range held {
					if leafClass(h.class) {
						c.Decide(w == "", rWait, h.class+" in "+fname(topFn(fn)), in.Pos(), "%s waits (%s) while %s is held", fname(fn), w, h.class)
					}
					for _, a := range acq {
						nested++
						if a.class != h.class && alreadyHeld(held, a) {
							continue // re-entering a lock this object already holds adds no order
						}
						if a.class == h.class {
							same := a.path.Root != nil && a.path.Root == h.key.path.Root && a.path.Sel == h.key.path.Sel
							if same {
								c.Decide(a.rec, rSelf, h.class+" in "+fname(topFn(fn)), in.Pos(), "%s acquires %s (%s) while already holding it", fname(fn), a.class, a.chain)
								continue
							}
							dir := "?"
							hb := strings.TrimSuffix(h.key.path.Sel, lastSel(h.key.path.Sel))
							if a.path.Root != nil && a.path.Root == h.key.path.Root && strings.HasPrefix(a.path.Sel, hb) {
								dir = strings.TrimSuffix(a.path.Sel[len(hb):], lastSel(a.path.Sel))
							}
							if perObjectClass(h.class) {
								continue
							}
							dir = collapseSteps(dir)
							if selfDirs[h.class] == nil {
								selfDirs[h.class] = map[string]edge{}
							}
							if _, ok := selfDirs[h.class][dir]; !ok {
								selfDirs[h.class][dir] = edge{h.class, a.class, fname(topFn(fn)), in.Pos(), a.chain}
							}
							continue
						}
						if perObjectClass(h.class) && perObjectClass(a.class) {
							continue // ordered by the object graph, not by class
						}
						dup := false
						for _, e := range edges[h.class] {
							if e.to == a.class && e.key == fname(topFn(fn)) {
								dup = true
							}
						}
						if !dup {
							edges[h.class] = append(edges[h.class], edge{h.class, a.class, fname(topFn(fn)), in.Pos(), a.chain})
						}
					}
				}
			}
		}
	}
	if os.Getenv("DUMP") != "" {
		for _, es := range edges {
			for _, e := range es {
				fmt.Println("EDGE", e.from, "->", e.to, "in", e.key, c.at(e.pos), "via", e.msg)
			}
		}
		for k, m := range selfDirs {
			for d, e := range m {
				fmt.Println("SELF", k, d, e.key, c.at(e.pos), e.msg)
			}
		}
	}
	// cycles
	reach := func(from, to string) []edge {
		type st struct {
			n string
			p []edge
		}
		seen := map[string]bool{from: true}
		q := []st{{from, nil}}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			if x.n == to && x.p != nil {
				return x.p
			}
			for _, e := range edges[x.n] {
				if e.to == to || !seen[e.to] {
					seen[e.to] = true
					q = append(q, st{e.to, append(append([]edge{}, x.p...), e)})
				}
			}
		}
		return nil
	}
	var names []string
	for n := range edges {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, e := range edges[n] {
			key := e.from + " -> " + e.to + " in " + e.key
			back := reach(e.to, e.from)
			if back == nil {
				c.Ok(rOrder, key, e.pos)
				continue
			}
			var d []string
			for _, b := range back {
				d = append(d, fmt.Sprintf("%s -> %s in %s (%s, %s)", b.from, b.to, b.key, c.at(b.pos), b.msg))
			}
			c.Bad(rOrder, key, e.pos, "%s is acquired (%s) while %s is held, but also: %s", e.to, e.msg, e.from, strings.Join(d, "; "))
		}
	}
	for k, m := range selfDirs {
		if u, ok := m["?"]; ok {
			// the far end of a recursion already followed step by step
			for d, e := range m {
				if d != "?" && e.key == u.key {
					delete(m, "?")
					break
				}
			}
		}
		if len(m) == 1 {
			for d, e := range m {
				c.Ok(rOrder, k+" nested "+d, e.pos)
			}
			continue
		}
		var ds []string
		for d := range m {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			c.Bad(rOrder, k+" nested "+d, m[d].pos, "instances of %s are locked in several directions: %s; in %s", k, strings.Join(ds, " and "), m[d].key)
		}
	}
	c.Notes["nested_acquisitions"] = nested
	c.Floor(rWait, 20)
}

// alreadyHeld: the recursive lock a is the own lock of an object whose lock is held.
func alreadyHeld(held map[string]heldLock, a acquisition) bool {
	if !a.rec || a.path.Root == nil {
		return false
	}
	own := strings.TrimSuffix(a.path.Sel, lastSel(a.path.Sel))
	for _, h := range held {
		if h.key.path.Root != a.path.Root {
			continue
		}
		if h.key.path.Sel == a.path.Sel || (h.class == "ELockProvider" && h.key.path.Sel == own) {
			return true
		}
	}
	return false
}

// perObjectClass: the locks taken per model object (the object's own lock and
// the encoder's per-object mutex); nesting follows the containment tree.
func perObjectClass(c string) bool { return c == "Mutex" || c == "ELockProvider" }

// collapseSteps reduces a path that repeats one step to that step.
func collapseSteps(dir string) string {
	for n := 1; n <= len(dir)/2; n++ {
		if len(dir)%n == 0 && strings.Repeat(dir[:n], len(dir)/n) == dir {
			return dir[:n]
		}
	}
	return dir
}

func lastSel(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i:]
	}
	return ""
}

// heldMay returns the locks possibly held at an instruction.
func (l *lockAnalysis) heldMay(fn *ssa.Function, in ssa.Instruction) map[string]heldLock {
	h := map[string]heldLock{}
	for k, v := range l.entries()[fn] {
		h[k] = v
	}
	for k, v := range l.mayAt[in] {
		h[k] = v
	}
	return h
}

func namedMutex(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	return ok && hasMutex(st)
}
