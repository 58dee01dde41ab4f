package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C06", checkC06) }

// fieldRelease: the call gives back the resource held in a struct field.
func fieldRelease(cc *ssa.CallCommon) *types.Var {
	name := calleeName(cc)
	if recv := recvOf(cc); recv != nil && (name == "Close" || name == "Release") {
		return loadedField(recv)
	}
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		for _, a := range cc.Args {
			if resourceKind(a.Type()) != "" {
				if f := loadedField(a); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// loadedField: the non-embedded resource field a value was read from.
func loadedField(v ssa.Value) *types.Var {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				f := fieldOf(fa)
				if f.Embedded() {
					v = fa.X
					continue
				}
				return f
			}
			if s := singleStore(x.X); s != nil {
				v = s
				continue
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if b := rootBinding(fv); b != nil {
					if s := singleStore(b); s != nil {
						v = s
						continue
					}
				}
			}
			return nil
		case *ssa.FieldAddr:
			if f := fieldOf(x); f.Embedded() {
				v = x.X
				continue
			}
			return nil
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// alreadyClosed: the branch taken when an atomic "closed" flag was already set.
func alreadyClosed(br *ssa.If, taken bool) bool {
	v := br.Cond
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		v = u.X
		taken = !taken
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if calleePkg(&c.Call) != "sync/atomic" {
		return false
	}
	switch calleeName(&c.Call) {
	case "Swap", "Load":
		return taken
	case "CompareAndSwap":
		return !taken
	}
	return false
}

func checkC06(c *Ctx) {
	c.Rule("closer-releases", "every resource a constructor leaves in the structure it returns is released by a method of that structure on every one of its returns, failures included (except when it had already been closed)")
	c.Rule("constructor-failure", "a constructor or opening callback that fails has released what it acquired on that return")
	c.Rule("method-releases", "a resource that a method acquires into its receiver is released by that method on every return")
	c.Rule("drain-first", "a structure with pending operations waits for them before it releases any resource they use")
	c.Rule("goroutine-ends", "a goroutine that receives from a channel in a loop leaves the loop when the channel is closed, and closes the channel it feeds on every return if it does on one")

	rel := newMust(c.Program, func(in ssa.Instruction, fn *ssa.Function) []string {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		if f := fieldRelease(ci.Common()); f != nil {
			return []string{"release " + fieldSel(f)}
		}
		return nil
	})
	rel.waive = func(br *ssa.If, taken bool, fn *ssa.Function) []string {
		if alreadyClosed(br, taken) {
			var evs []string
			for _, n := range c.resourceFields() {
				evs = append(evs, "release "+n)
			}
			return evs
		}
		return nil
	}

	type held struct {
		owner *types.Named
		field *types.Var
		ctor  *ssa.Function
	}
	seen := map[string]bool{}
	var helds []held
	for _, fn := range c.Funcs {
		if fn.Synthetic != "" || fn.Parent() != nil && !strings.Contains(fname(fn), "$") {
			continue
		}
		r := c.acquisitions(fn)
		if len(r.acqs) == 0 {
			continue
		}
		for _, a := range r.acqs {
			if a.val == nil {
				continue
			}
			for _, f := range r.storedFields(a) {
				if f == nil {
					continue
				}
				recv := fn.Signature.Recv()
				if recv != nil {
					// acquired into the receiver by a method
					heldOut := token.NoPos
					r.run(resState{}, func(in ssa.Instruction, st resState, e *Engine, ps *PState) {
						if st.has(a.id) {
							heldOut = posOf(in)
						}
					}, nil)
					key := fname(fn) + " " + fieldSel(f)
					c.Decide(heldOut == token.NoPos, "method-releases", key, heldOut, "this return of %s leaves the %s it acquired in %s", fname(fn), a.kind, fieldSel(f))
					continue
				}
				res := fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					if n := namedStruct(res.At(i).Type()); n != nil {
						k := n.Obj().Name() + fieldSel(f)
						if !seen[k] {
							seen[k] = true
							helds = append(helds, held{n, f, fn})
						}
					}
				}
			}
			// failures of the constructor
			if fn.Signature.Recv() == nil && len(r.storedFields(a)) > 0 {
				bad := token.NoPos
				r.run(resState{}, func(in ssa.Instruction, st resState, e *Engine, ps *PState) {
					ret := in.(*ssa.Return)
					if st.has(a.id) && !r.returnedIDs(ret, e, ps)[a.id] && !r.kept(a, ret, e, ps) {
						bad = posOf(in)
					}
				}, nil)
				c.Decide(bad == token.NoPos, "constructor-failure", fname(fn)+" "+a.kind, bad, "this failing return of %s leaks the %s it acquired", fname(fn), a.kind)
			}
		}
	}
	for _, pr := range c.callbackPairs() {
		r := c.acquisitions(pr.open)
		for _, a := range r.acqs {
			if a.kind != "connection pool" || a.val == nil {
				continue
			}
			bad := token.NoPos
			r.run(resState{}, func(in ssa.Instruction, st resState, e *Engine, ps *PState) {
				if st.has(a.id) && !r.returnedIDs(in.(*ssa.Return), e, ps)[a.id] {
					bad = posOf(in)
				}
			}, nil)
			c.Decide(bad == token.NoPos, "constructor-failure", fname(pr.open)+" open pool", bad, "this failing return of the open callback leaks the pool it created")
		}
	}
	sort.Slice(helds, func(i, j int) bool {
		return helds[i].owner.Obj().Name()+helds[i].field.Name() < helds[j].owner.Obj().Name()+helds[j].field.Name()
	})
	for _, h := range helds {
		ev := "release " + fieldSel(h.field)
		key := h.owner.Obj().Name() + " " + fieldSel(h.field)
		var closer *ssa.Function
		may := ""
		for _, m := range c.methodsOf(h.owner) {
			if !c.mayRelease(m, h.field, 0, map[*ssa.Function]bool{}) {
				continue
			}
			may = fname(m)
			if rel.of(m, false)[ev] {
				closer = m
				break
			}
		}
		switch {
		case closer != nil:
			c.Ok("closer-releases", key+" by "+closer.Name(), closer.Pos())
			if c.hasPending(h.owner) {
				c.drainFirst(closer, h.field)
			}
		case may != "":
			c.Bad("closer-releases", key, h.ctor.Pos(), "%s releases %s on some of its returns only", may, fieldSel(h.field))
		default:
			c.Bad("closer-releases", key, h.ctor.Pos(), "no method of %s releases %s, which %s acquired", h.owner.Obj().Name(), fieldSel(h.field), fname(h.ctor))
		}
	}
	c.goroutinesEnd()
	c.Floor("closer-releases", 5)
	c.Floor("constructor-failure", 5)
	c.Floor("method-releases", 2)
	c.Floor("drain-first", 3)
	c.Floor("goroutine-ends", 2)
}

func namedStruct(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok || resourceKind(types.NewPointer(n)) != "" {
		return nil
	}
	return n
}

func (c *Ctx) resourceFields() []string {
	var out []string
	for _, n := range c.Named {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if resourceKind(st.Field(i).Type()) != "" {
					out = append(out, fieldSel(st.Field(i)))
				}
			}
		}
	}
	return out
}

// methodsOf lists the methods declared on *n, SSA-built.
func (p *Program) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if r := fn.Signature.Recv(); r != nil && fn.Synthetic == "" {
			if rn := namedStruct(r.Type()); rn != nil && rn.Obj() == n.Obj() {
				out = append(out, fn)
			}
		}
	}
	return out
}

func (c *Ctx) mayRelease(fn *ssa.Function, f *types.Var, d int, seen map[*ssa.Function]bool) bool {
	if d > 4 || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, ci := range calls(fn) {
		if g := fieldRelease(ci.Common()); g == f {
			return true
		}
		if ci.Common().IsInvoke() {
			continue
		}
		fns, _ := c.callees(ci.Common())
		for _, g := range fns {
			if c.mayRelease(c.unwrap(g), f, d+1, seen) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) hasPending(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if pendingTable(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// drainFirst: in closer, whenever f is released the pending operations have been
// waited for.
func (c *Ctx) drainFirst(closer *ssa.Function, f *types.Var) {
	waits := newMust(c.Program, func(in ssa.Instruction, fn *ssa.Function) []string {
		if call, ok := in.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && c.waitsPending(c.unwrap(g)) {
				return []string{"waited"}
			}
		}
		return nil
	})
	bad := token.NoPos
	waits.run(closer, false, func(in ssa.Instruction, st evState) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		rel := fieldRelease(&call.Call) == f
		if !rel && !call.Call.IsInvoke() {
			fns, _ := c.callees(&call.Call)
			for _, g := range fns {
				if c.mayRelease(c.unwrap(g), f, 0, map[*ssa.Function]bool{}) {
					rel = true
				}
			}
		}
		if rel && !evHas(st.done, "waited") {
			bad = in.Pos()
		}
	}, func(ssa.Instruction, evState) {})
	c.Decide(bad == token.NoPos, "drain-first", fname(closer)+" "+fieldSel(f), bad, "%s is released before the pending operations that use it were waited for", fieldSel(f))
}

// waitsPending: the function reads a pending table and awaits promises.
func (c *Ctx) waitsPending(fn *ssa.Function) bool {
	reads, awaits := false, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if f := fieldOf(fa); f != nil && pendingTable(f.Type()) {
					reads = true
				}
			}
			if call, ok := in.(*ssa.Call); ok && calleeName(&call.Call) == "Await" {
				awaits = true
			}
		}
	}
	for _, ci := range calls(fn) {
		if g := ci.Common().StaticCallee(); g != nil && !reads {
			for _, b := range c.unwrap(g).Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						if f := fieldOf(fa); f != nil && pendingTable(f.Type()) {
							reads = true
						}
					}
				}
			}
		}
	}
	return reads && awaits
}

// goroutinesEnd checks the loops of functions started with go.
func (c *Ctx) goroutinesEnd() {
	done := map[*ssa.Function]bool{}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				fns, _ := c.callees(&g.Call)
				for _, f := range fns {
					f = c.unwrap(f)
					if o := f.Origin(); o != nil && len(f.Blocks) == 0 {
						f = o
					}
					if done[f] {
						continue
					}
					done[f] = true
					c.goroutineEnds(f)
				}
			}
		}
	}
}

func (c *Ctx) goroutineEnds(f *ssa.Function) {
	recvs := 0
	bad := token.NoPos
	isRecvBlock := map[*ssa.BasicBlock]bool{}
	for _, l := range naturalLoops(f) {
		for b := range l.body {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					isRecvBlock[b] = true
				}
				if _, ok := in.(*ssa.Select); ok {
					isRecvBlock[b] = true
				}
			}
		}
	}
	for b := range isRecvBlock {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW {
				continue
			}
			recvs++
			if !u.CommaOk {
				bad = u.Pos()
				continue
			}
			// the not-ok branch must reach a return without receiving again
			ended := false
			for _, r := range *u.Referrers() {
				e, ok := r.(*ssa.Extract)
				if !ok || e.Index != 1 {
					continue
				}
				for _, r2 := range *e.Referrers() {
					switch y := r2.(type) {
					case *ssa.If:
						if reachesReturn(y.Block().Succs[1], isRecvBlock) {
							ended = true
						}
					case *ssa.UnOp:
						for _, r3 := range *y.Referrers() {
							if br, ok := r3.(*ssa.If); ok && reachesReturn(br.Block().Succs[0], isRecvBlock) {
								ended = true
							}
						}
					}
				}
			}
			if !ended {
				bad = u.Pos()
			}
		}
	}
	if recvs > 0 {
		c.Decide(bad == token.NoPos, "goroutine-ends", fname(f)+" receive", bad, "the goroutine keeps running after the channel it receives from is closed")
	}
	// channels closed on one return are closed on all
	m := newMust(c.Program, func(in ssa.Instruction, fn *ssa.Function) []string {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				return []string{"close " + pathOf(ci.Common().Args[0]).String()}
			}
		}
		return nil
	})
	evs := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, e := range m.match(in, f) {
				evs[e] = true
			}
		}
	}
	for _, e := range keysOf(evs) {
		c.Decide(m.of(f, false)[e], "goroutine-ends", fname(f)+" "+e, f.Pos(), "the goroutine returns on some path without closing the channel it feeds: its reader never ends")
	}
}

func reachesReturn(b *ssa.BasicBlock, avoid map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || avoid[x] {
			continue
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}
