package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C04", checkC04) }

// globalUse is one access to a package-level variable.
type globalUse struct {
	fn    *ssa.Function
	in    ssa.Instruction
	write bool
	what  string
}

// globalUses lists the accesses to every in-package global, outside init.
func globalUses(c *Ctx) map[*ssa.Global][]globalUse {
	out := map[*ssa.Global][]globalUse{}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != c.EcoreSSA || strings.HasPrefix(g.Name(), "init$") || c.isMockFile(g.Pos()) {
						continue
					}
					collectGlobalUse(c, g, g, fn, in, out, 0)
				}
			}
		}
	}
	return out
}

// collectGlobalUse follows addresses derived from a global, and the maps and
// slices loaded from it, to the reads and writes they lead to.
func collectGlobalUse(c *Ctx, g *ssa.Global, v ssa.Value, fn *ssa.Function, in ssa.Instruction, out map[*ssa.Global][]globalUse, d int) {
	if d > 6 {
		return
	}
	add := func(w bool, what string) { out[g] = append(out[g], globalUse{fn, in, w, what}) }
	follow := func(r ssa.Value) {
		if refs := r.Referrers(); refs != nil {
			for _, u := range *refs {
				collectGlobalUse(c, g, r, fn, u, out, d+1)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		if x.Addr == v {
			add(true, "assigned")
		}
	case *ssa.UnOp:
		if x.X == v {
			add(false, "read")
			switch x.Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				follow(x)
			}
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		follow(in.(ssa.Value))
	case *ssa.MapUpdate:
		if x.Map == v {
			add(true, "map entry written")
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				if x.Call.Args[0] == v {
					add(true, "map entry deleted")
				}
			}
		}
	}
}

// onceDo recognises O.Do(f) on a package-level sync.Once.
func onceDo(cc *ssa.CallCommon) (*ssa.Global, ssa.Value) {
	f := cc.StaticCallee()
	if f == nil || f.Name() != "Do" || calleePkg(cc) != "sync" || len(cc.Args) != 2 {
		return nil, nil
	}
	g, _ := cc.Args[0].(*ssa.Global)
	return g, cc.Args[1]
}

func checkC04(c *Ctx) {
	const rW, rR, rP, rRe = "global-write", "global-read", "published-complete", "once-reentry"
	c.Rule(rW, "a package-level variable is assigned, and the map or slice it holds changed, only by package initialisation, inside the function of one package-level sync.Once, or under one package-level mutex")
	c.Rule(rR, "a package-level variable filled under a sync.Once (a mutex) is read only after that Once has run (under that mutex)")
	c.Rule(rP, "the function that runs the Once does nothing to the variable afterwards but hand it out: it is published complete")
	c.Rule(rRe, "the function of a Once does not reach that same Once again through static calls")
	// functions executed only during package initialisation
	callers := c.callerMap()
	initOnly := map[*ssa.Function]bool{}
	var isInit func(fn *ssa.Function, d int) bool
	isInit = func(fn *ssa.Function, d int) bool {
		if fn == c.Init || strings.HasPrefix(fn.Name(), "init#") || fn.Synthetic == "package initializer" {
			return true
		}
		if v, ok := initOnly[fn]; ok {
			return v
		}
		if d > 8 || exportedFn(fn) {
			return false
		}
		initOnly[fn] = false
		if fn.Parent() != nil {
			// a closure called on the spot by an initialiser
			ok := isInit(fn.Parent(), d+1) && calledOnly(fn)
			initOnly[fn] = ok
			return ok
		}
		sites := callers[fn]
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if !isInit(s.fn, d+1) {
				return false
			}
		}
		initOnly[fn] = true
		return true
	}
	// functions executed under a Once
	type doSite struct {
		fn   *ssa.Function
		call *ssa.Call
		once *ssa.Global
	}
	var dos []doSite
	under := map[*ssa.Function]*ssa.Global{}
	for _, fn := range c.Funcs {
		for _, ci := range calls(fn) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			if o, f := onceDo(call.Common()); o != nil {
				dos = append(dos, doSite{fn, call, o})
				fs, _ := c.funcValues(f, map[ssa.Value]bool{})
				for _, t := range fs {
					under[t] = o
				}
			}
		}
	}
	// an unexported function called only from functions under one Once runs under it too
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if under[fn] != nil || exportedFn(fn) {
				continue
			}
			var o *ssa.Global
			ok := len(callers[fn]) > 0
			for _, s := range callers[fn] {
				u := under[s.fn]
				if u == nil || (o != nil && o != u) {
					ok = false
					break
				}
				o = u
			}
			if ok && fn.Parent() == nil {
				under[fn] = o
				changed = true
			}
		}
	}
	l := c.locks()
	globalMutex := func(fn *ssa.Function, in ssa.Instruction) map[string]bool {
		r := map[string]bool{}
		for k, h := range l.heldMust(fn, in) {
			if _, ok := h.key.path.Root.(*ssa.Global); ok {
				r[k] = true
			}
		}
		return r
	}
	dominated := func(fn *ssa.Function, in ssa.Instruction, o *ssa.Global) bool {
		for f := fn; f != nil; f = f.Parent() {
			for _, d := range dos {
				if d.fn == f && d.once == o && f == fn {
					if d.call.Block() == in.Block() {
						for _, i := range in.Block().Instrs {
							if i == d.call {
								return true
							}
							if i == in {
								break
							}
						}
					} else if d.call.Block().Dominates(in.Block()) {
						return true
					}
				}
			}
		}
		return false
	}
	uses := globalUses(c)
	var gs []*ssa.Global
	for g := range uses {
		gs = append(gs, g)
	}
	for _, n := range c.EcoreSSA.Members {
		if g, ok := n.(*ssa.Global); ok && uses[g] == nil && !c.isMockFile(g.Pos()) && !strings.HasPrefix(g.Name(), "init$") {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	names := []string{}
	for _, g := range gs {
		names = append(names, g.Name())
		t := g.Type().(*types.Pointer).Elem()
		q := qualTypeName(t)
		if strings.HasPrefix(q, "sync.") || strings.HasPrefix(q, "sync/atomic.") {
			// assigning a synchronisation primitive would reset it
			for _, u := range uses[g] {
				if u.write && !isInit(u.fn, 0) {
					c.Bad(rW, g.Name()+" reset in "+fname(topFn(u.fn)), u.in.Pos(), "the synchronisation variable %s is overwritten", g.Name())
				}
			}
			c.Ok(rW, g.Name(), g.Pos())
			continue
		}
		var once *ssa.Global
		var mutex map[string]bool
		lazy, bad := false, false
		for _, u := range uses[g] {
			if !u.write || isInit(u.fn, 0) {
				continue
			}
			lazy = true
			if o := under[u.fn]; o != nil {
				if once != nil && once != o {
					bad = true
					c.Bad(rW, g.Name()+" in "+fname(topFn(u.fn)), u.in.Pos(), "%s is %s under %s here and under %s elsewhere", g.Name(), u.what, o.Name(), once.Name())
				}
				once = o
				continue
			}
			m := globalMutex(u.fn, u.in)
			if mutex != nil {
				for k := range mutex {
					if !m[k] {
						delete(mutex, k)
					}
				}
			} else {
				mutex = m
			}
			if len(mutex) == 0 {
				bad = true
				c.Bad(rW, g.Name()+" in "+fname(topFn(u.fn)), u.in.Pos(), "the package-level variable %s is %s in %s, outside package initialisation, without one-time or mutual-exclusion synchronisation", g.Name(), u.what, fname(topFn(u.fn)))
			}
		}
		if bad {
			continue
		}
		c.Ok(rW, g.Name(), g.Pos())
		if !lazy {
			continue
		}
		for _, u := range uses[g] {
			if u.write || isInit(u.fn, 0) {
				continue
			}
			key := g.Name() + " in " + fname(topFn(u.fn))
			switch {
			case once != nil:
				ok := under[u.fn] == once || dominated(u.fn, u.in, once)
				c.Decide(ok, rR, key, u.in.Pos(), "%s is read without running %s first", g.Name(), once.Name())
				if ok && under[u.fn] != once {
					if ld, isLoad := u.in.(*ssa.UnOp); isLoad {
						c.Decide(onlyHandedOut(ld), rP, key, u.in.Pos(), "%s is still being set up after %s has published it", g.Name(), once.Name())
					}
				}
			default:
				m := globalMutex(u.fn, u.in)
				ok := false
				for k := range mutex {
					if m[k] {
						ok = true
					}
				}
				c.Decide(ok, rR, key, u.in.Pos(), "%s is read without the mutex that guards its initialisation", g.Name())
			}
		}
	}
	// reentrancy
	for _, d := range dos {
		seen := map[*ssa.Function]bool{}
		var bad *ssa.Function
		var visit func(fn *ssa.Function)
		visit = func(fn *ssa.Function) {
			if seen[fn] || bad != nil {
				return
			}
			seen[fn] = true
			for _, ci := range calls(fn) {
				cc := ci.Common()
				if o, _ := onceDo(cc); o == d.once {
					bad = fn
					return
				}
				if t := cc.StaticCallee(); t != nil {
					if t = c.unwrap(t); t.Blocks != nil {
						visit(t)
					}
				}
			}
		}
		fs, _ := c.funcValues(d.call.Call.Args[1], map[ssa.Value]bool{})
		for _, f := range fs {
			visit(f)
		}
		who := ""
		if bad != nil {
			who = fname(bad)
		}
		c.Decide(bad == nil, rRe, d.once.Name(), d.call.Pos(), "the function run once by %s calls %s, which runs it again: deadlock", d.once.Name(), who)
	}
	c.Notes["globals"] = names
	c.Floor(rW, 15)
}

// calledOnly: a closure that is only called where it is written.
func calledOnly(fn *ssa.Function) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(fn) {
					ci, ok := in.(*ssa.Call)
					if !ok || ci.Call.Value != ssa.Value(fn) {
						return false
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				for _, r := range *mc.Referrers() {
					if ci, ok := r.(*ssa.Call); !ok || ci.Call.Value != ssa.Value(mc) {
						return false
					}
				}
			}
		}
	}
	return true
}

// onlyHandedOut: the loaded value is returned, compared, stored in a local or
// used as the receiver of a call that is not part of its construction.
func onlyHandedOut(ld *ssa.UnOp) bool {
	refs := ld.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Return, *ssa.BinOp, *ssa.Phi, *ssa.DebugRef, *ssa.ChangeInterface, *ssa.MakeInterface:
		case *ssa.MapUpdate:
			return false
		case *ssa.Call:
			if x.Call.IsInvoke() && x.Call.Value == ld && x.Call.Signature().Results().Len() == 0 {
				return false
			}
		case *ssa.Store:
			if x.Addr == ld {
				return false
			}
		}
	}
	return true
}
