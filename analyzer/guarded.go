package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- entry locksets

// entryLocks computes, for every function, the locks certainly held when it is
// entered, expressed in the function's own namespace.
type lockEntry map[string]heldLock

func (l *lockAnalysis) entries() map[*ssa.Function]lockEntry {
	p := l.p
	if m, ok := p.memo["entries"].(map[*ssa.Function]lockEntry); ok {
		return m
	}
	ent := map[*ssa.Function]lockEntry{} // absent = top
	type site struct {
		from *ssa.Function
		in   ssa.Instruction
		cc   *ssa.CallCommon
		bind func(held map[string]heldLock) lockEntry
	}
	sites := map[*ssa.Function][]site{}
	pinned := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Parent() == nil {
			if o := fn.Object(); o == nil || o.Exported() || fn == p.Init {
				pinned[fn] = true
			}
		}
	}
	identity := func(h map[string]heldLock) lockEntry { return lockEntry(h) }
	closureUsed := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, ci := range calls(fn) {
			cc := ci.Common()
			_, isGo := ci.(*ssa.Go)
			_, isDefer := ci.(*ssa.Defer)
			fns, ext := p.callees(cc)
			for _, t := range fns {
				if isGo {
					pinned[t] = true
					continue
				}
				if isDefer {
					// runs at exit; locks held there are unknown here
					if t.Parent() == nil {
						pinned[t] = true
					} else {
						sites[t] = append(sites[t], site{fn, ci, cc, func(map[string]heldLock) lockEntry { return lockEntry{} }})
					}
					continue
				}
				t := t
				sites[t] = append(sites[t], site{fn, ci, cc, func(h map[string]heldLock) lockEntry { return toCallee(h, t, cc) }})
			}
			// closures handed over as arguments
			for _, a := range cc.Args {
				if ct, ok := a.(*ssa.ChangeType); ok {
					a = ct.X
				}
				mc, ok := a.(*ssa.MakeClosure)
				var f *ssa.Function
				if ok {
					f = mc.Fn.(*ssa.Function)
				} else if ff, ok := a.(*ssa.Function); ok {
					f = ff
				} else {
					continue
				}
				closureUsed[f] = true
				if !isGo && !isDefer && (len(fns) > 0 && !ext || syncExternal(cc) || strings.Contains(f.Synthetic, "range-over-func")) && f.Parent() != nil {
					sites[f] = append(sites[f], site{fn, ci, cc, identity})
				} else {
					pinned[f] = true
				}
			}
		}
	}
	// closures that escape otherwise (stored, returned)
	for _, fn := range p.Funcs {
		if fn.Parent() != nil && len(sites[fn]) == 0 {
			pinned[fn] = true
		}
		if fn.Parent() != nil && !pinned[fn] && !strings.Contains(fn.Synthetic, "range-over-func") && escapes(fn) && !returnedAndCalled(p, fn) {
			pinned[fn] = true
		}
		if fn.Parent() == nil && len(sites[fn]) == 0 {
			pinned[fn] = true
		}
	}
	// a function that releases a lock it did not take is entered holding it
	negative := func(f *ssa.Function) lockEntry {
		e := lockEntry{}
		for _, ef := range l.summary(f).effects {
			if ef.delta < 0 {
				e[ef.key.String()] = heldLock{ef.key, 1, ef.class, ef.rec}
			}
		}
		return e
	}
	for f := range pinned {
		ent[f] = negative(f)
	}
	heldIn := func(fn *ssa.Function, in ssa.Instruction) (map[string]heldLock, bool) {
		e, ok := ent[fn]
		if !ok {
			return nil, false
		}
		h := map[string]heldLock{}
		for k, v := range e {
			h[k] = v
		}
		for k, v := range l.heldAt[in] {
			h[k] = v
		}
		return h, true
	}
	for changed, n := true, 0; changed && n < 60; n++ {
		changed = false
		for _, fn := range p.Funcs {
			if pinned[fn] {
				continue
			}
			var acc lockEntry
			for _, s := range sites[fn] {
				h, ok := heldIn(s.from, s.in)
				if !ok {
					continue // not reached yet: top
				}
				e := s.bind(h)
				if acc == nil {
					acc = lockEntry{}
					for k, v := range e {
						acc[k] = v
					}
				} else {
					for k := range acc {
						if _, ok := e[k]; !ok {
							delete(acc, k)
						}
					}
				}
			}
			if acc == nil {
				continue
			}
			for k, v := range negative(fn) {
				acc[k] = v
			}
			old, ok := ent[fn]
			if !ok || len(old) != len(acc) {
				ent[fn] = acc
				changed = true
			}
		}
	}
	for _, fn := range p.Funcs {
		if _, ok := ent[fn]; !ok {
			ent[fn] = lockEntry{}
		}
	}
	p.memo["entries"] = ent
	return ent
}

// toCallee translates held locks to the callee's parameter namespace. Locks
// on globals keep their name; a closure shares its parent's namespace.
func toCallee(h map[string]heldLock, callee *ssa.Function, cc *ssa.CallCommon) lockEntry {
	out := lockEntry{}
	if callee.Parent() != nil {
		if inner, ok := cc.Value.(*ssa.Call); ok && !cc.IsInvoke() {
			// closure returned by its parent: translate through the inner call
			return toCallee(h, callee.Parent(), &inner.Call)
		}
		for k, v := range h {
			out[k] = v
		}
	}
	for k, v := range h {
		if _, ok := v.key.path.Root.(*ssa.Global); ok {
			out[k] = v
		}
	}
	for i, par := range callee.Params {
		var arg ssa.Value
		if cc.IsInvoke() {
			if i == 0 {
				arg = cc.Value
			} else if i-1 < len(cc.Args) {
				arg = cc.Args[i-1]
			}
		} else if i < len(cc.Args) {
			arg = cc.Args[i]
		}
		if arg == nil {
			continue
		}
		a := canonPath(pathOf(arg))
		for _, v := range h {
			hp := v.key.path
			if hp.Root == a.Root && strings.HasPrefix(hp.Sel, a.Sel) {
				nk := lockKey{Path{par, hp.Sel[len(a.Sel):]}, v.key.read}
				nv := v
				nv.key = nk
				out[nk.String()] = nv
			}
		}
	}
	return out
}

// syncExternal: external functions that call their function argument before returning.
func syncExternal(cc *ssa.CallCommon) bool {
	switch calleePkg(cc) {
	case "slices", "sort", "maps", "iter", "strings", "sync":
		return true
	}
	return strings.Contains(calleePkg(cc), "gods-generic")
}

// escapes: a closure that is returned or stored in memory.
func escapes(fn *ssa.Function) bool {
	esc := false
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				for _, r := range *mc.Referrers() {
					switch r := r.(type) {
					case *ssa.Return:
						esc = true
					case *ssa.Store:
						if _, ok := r.Addr.(*ssa.Alloc); !ok {
							esc = true
						}
					case *ssa.MakeInterface, *ssa.ChangeType:
						esc = true
					}
				}
			}
		}
	}
	return esc
}

// returnedAndCalled: the closure is only returned, by an unexported function
// whose callers only ever call the result.
func returnedAndCalled(p *Program, fn *ssa.Function) bool {
	par := fn.Parent()
	if exportedFn(par) || par.Parent() != nil {
		return false
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				for _, r := range *mc.Referrers() {
					switch r := r.(type) {
					case *ssa.Return:
					case *ssa.ChangeType:
						for _, rr := range *r.Referrers() {
							if _, ok := rr.(*ssa.Return); !ok {
								return false
							}
						}
					default:
						return false
					}
				}
			}
		}
	}
	sites := p.callerMap()[par]
	if len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		call, ok := s.ci.(*ssa.Call)
		if !ok {
			return false
		}
		for _, r := range *call.Referrers() {
			c2, ok := r.(*ssa.Call)
			if !ok || c2.Call.Value != call {
				return false
			}
		}
	}
	return true
}

// heldMust returns the locks certainly held at an instruction.
func (l *lockAnalysis) heldMust(fn *ssa.Function, in ssa.Instruction) map[string]heldLock {
	h := map[string]heldLock{}
	for k, v := range l.entries()[fn] {
		h[k] = v
	}
	for k, v := range l.heldAt[in] {
		h[k] = v
	}
	return h
}

// ---------------------------------------------------------------- guarded fields

type fieldAccess struct {
	fn    *ssa.Function
	in    ssa.Instruction
	base  Path
	field *types.Var
	owner *types.Named
	write bool
	what  string
	fresh bool
	held  map[string]heldLock
}

func isMutexType(t types.Type) bool {
	q := qualTypeName(t)
	return q == "sync.Mutex" || q == "sync.RWMutex" || strings.HasSuffix(q, "rmx.RecursiveMutex")
}

// fieldAccesses lists every access to fields of the structs that own a mutex,
// including uses of map/slice contents loaded from them.
func (l *lockAnalysis) fieldAccesses() []*fieldAccess {
	p := l.p
	owners := map[*types.Var]*types.Named{}
	mutexOwner := map[string]*types.Named{}
	for _, n := range p.Named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		has := false
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				has = true
			}
		}
		if !has {
			continue
		}
		mutexOwner[n.Obj().Name()] = n
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !isMutexType(f.Type()) && !f.Embedded() {
				owners[originVar(f)] = n
			}
		}
	}
	var out []*fieldAccess
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := fieldOf(fa)
				owner := owners[f]
				if owner == nil {
					// field inherited by a struct that owns a mutex
					if f == nil || f.Embedded() || isMutexType(f.Type()) {
						continue
					}
					x := fa.X
					for {
						up, ok := x.(*ssa.FieldAddr)
						if !ok || fieldOf(up) == nil || !fieldOf(up).Embedded() {
							break
						}
						x = up.X
					}
					if x == fa.X {
						continue
					}
					owner = mutexOwner[typeName(x.Type())]
					if owner == nil {
						continue
					}
				}
				base := canonPath(pathOf(fa.X))
				fresh := p.isFresh(fa.X, fn, map[*ssa.Parameter]bool{})
				add := func(in ssa.Instruction, write bool, what string) {
					out = append(out, &fieldAccess{fn: in.Parent(), in: in, base: base, field: f, owner: owner, write: write, what: what, fresh: fresh, held: l.heldMust(in.Parent(), in)})
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							add(r, true, "write")
						}
					case *ssa.UnOp:
						add(r, false, "read")
						contentUses(r, add, 0)
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// part of a value field
						for _, rr := range *r.(ssa.Value).Referrers() {
							switch rr := rr.(type) {
							case *ssa.Store:
								add(rr, true, "write")
							case *ssa.UnOp:
								add(rr, false, "read")
							}
						}
					}
				}
			}
		}
	}
	return out
}

// contentUses reports operations on the map or slice v refers to.
func contentUses(v ssa.Value, add func(ssa.Instruction, bool, string), d int) {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return
	}
	if d > 4 {
		return
	}
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				add(r, true, "map update")
			}
		case *ssa.Lookup:
			if r.X == v {
				add(r, false, "map lookup")
				nested(r, add, d+1)
			}
		case *ssa.Range:
			add(r, false, "iteration")
			for _, n := range *r.Referrers() {
				if nx, ok := n.(*ssa.Next); ok {
					add(nx, false, "iteration")
					for _, e := range *nx.Referrers() {
						if e, ok := e.(*ssa.Extract); ok && e.Index == 2 {
							contentUses(e, add, d+1)
						}
					}
				}
			}
		case *ssa.IndexAddr:
			if r.X == v {
				for _, rr := range *r.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == r {
						add(st, true, "element write")
					} else if u, ok := rr.(*ssa.UnOp); ok {
						add(u, false, "element read")
						contentUses(u, add, d+1)
					}
				}
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear":
					if r.Call.Args[0] == v {
						add(r, true, b.Name())
					}
				case "len":
					if _, isMap := v.Type().Underlying().(*types.Map); isMap {
						add(r, false, "len")
					}
				case "append", "copy":
					add(r, false, b.Name())
				}
			}
		case *ssa.Phi:
			contentUses(r, add, d+1)
		}
	}
}

// nested: what a lookup answers is guarded as well when it is a map or slice.
func nested(r *ssa.Lookup, add func(ssa.Instruction, bool, string), d int) {
	if !r.CommaOk {
		contentUses(r, add, d)
		return
	}
	for _, e := range *r.Referrers() {
		if e, ok := e.(*ssa.Extract); ok && e.Index == 0 {
			contentUses(e, add, d)
		}
	}
}

// isFresh: the object was allocated by this very function, or by every in-package
// caller that passes it (construction).
func (p *Program) isFresh(v ssa.Value, fn *ssa.Function, seen map[*ssa.Parameter]bool) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					return p.isFresh(s, fn, seen)
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				_ = fv
				return false
			}
		}
	case *ssa.FieldAddr:
		if f := fieldOf(x); f != nil && f.Embedded() {
			return p.isFresh(x.X, fn, seen)
		}
	case *ssa.TypeAssert:
		return p.isFresh(x.X, fn, seen)
	case *ssa.MakeInterface:
		return p.isFresh(x.X, fn, seen)
	case *ssa.Parameter:
		if seen[x] {
			return true
		}
		seen[x] = true
		if fn.Parent() != nil {
			return false
		}
		idx := -1
		for i, q := range fn.Params {
			if q == x {
				idx = i
			}
		}
		sites := p.callerMap()[fn]
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			cc := s.ci.Common()
			if cc.IsInvoke() {
				return false
			}
			if idx >= len(cc.Args) || !p.isFresh(cc.Args[idx], s.fn, seen) {
				return false
			}
		}
		return true
	}
	return false
}
