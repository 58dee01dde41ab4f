package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C26", checkC26) }

// mutators: the operations of the collection interfaces that change a collection.
var mutators = map[string]bool{
	"Add": true, "AddAll": true, "Insert": true, "InsertAll": true, "MoveObject": true, "Move": true, "Set": true,
	"RemoveAt": true, "Remove": true, "RemoveAll": true, "RemoveRange": true, "Clear": true,
	"Put": true, "RemoveKey": true,
	"AddWithNotification": true, "RemoveWithNotification": true, "SetWithNotification": true,
}

// readOnlyTypes: confirmed instances; the rule finds them by what their operations do.
var readOnlyTypes = map[string]bool{"emptyImmutableEList": true, "immutableEList": true, "immutableEMap": true, "eContentsList": true}

type readOnly struct {
	c    *Ctx
	memo map[*ssa.Function]int
}

// fails: the function never returns.
func (r *readOnly) fails(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	switch r.memo[fn] {
	case 1:
		return false
	case 2:
		return true
	}
	r.memo[fn] = 1
	ok := true
	for _, b := range r.live(fn) {
		if _, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ret && !r.cut(b) {
			ok = false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, isDefer := in.(*ssa.Defer); isDefer && recovers(d) {
				ok = false
			}
		}
	}
	if ok {
		r.memo[fn] = 2
	}
	return ok
}

func recovers(d *ssa.Defer) bool {
	var fn *ssa.Function
	switch t := d.Call.Value.(type) {
	case *ssa.MakeClosure:
		fn = t.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = t
	}
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// cut: a call in the block does not return.
func (r *readOnly) cut(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if call, ok := in.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && r.c.isEcore(pkgPath(g)) && r.fails(r.c.unwrap(g)) {
				return true
			}
		}
	}
	return false
}

// live: the blocks reached before a failure.
func (r *readOnly) live(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		out = append(out, b)
		if r.cut(b) {
			return
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(fn.Blocks[0])
	return out
}

// changes: something that outlives the call is written before it fails.
func (r *readOnly) changes(fn *ssa.Function, d int) ssa.Instruction {
	if d > 5 {
		return nil
	}
	for _, b := range r.live(fn) {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store:
				root := pathOf(t.Addr).Root
				if _, fresh := root.(*ssa.Alloc); !fresh {
					return in
				}
			case *ssa.MapUpdate:
				if _, fresh := pathOf(t.Map).Root.(*ssa.MakeMap); !fresh {
					return in
				}
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
					return in
				}
				if t.Call.IsInvoke() && mutators[t.Call.Method.Name()] {
					return in
				}
				if g := t.Call.StaticCallee(); g != nil && r.c.isEcore(pkgPath(g)) {
					if x := r.changes(r.c.unwrap(g), d+1); x != nil {
						return x
					}
				}
			}
		}
	}
	return nil
}

func checkC26(c *Ctx) {
	c.Rule("fails", "every operation of the collection interfaces that would change a read-only collection ends in a panic on every path")
	c.Rule("unchanged", "such an operation has changed nothing when it fails")
	c.Rule("views", "the views a read-only collection hands out as lists are read-only")
	c.Rule("state", "no operation of a read-only collection writes the fields it keeps its contents in")
	c.Rule("derived", "the lists a class derives from its own features and super types, and the adapters of a notifier that keeps none, are read-only")
	r := &readOnly{c: c, memo: map[*ssa.Function]int{}}
	ro := map[*types.Named]bool{}
	for _, n := range c.Named {
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		if readOnlyTypes[n.Obj().Name()] {
			ro[n] = true
			continue
		}
		// a collection some of whose own mutators only fail
		ms := types.NewMethodSet(types.NewPointer(n))
		if ms.Lookup(c.Ecore.Types, "Size") == nil || ms.Lookup(c.Ecore.Types, "IndexOf") == nil {
			continue
		}
		if add := c.methodAnywhere(n, "Add"); add != nil && r.fails(add) {
			ro[n] = true
		}
	}
	for n := range ro {
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			key := n.Obj().Name() + "." + m.Name()
			fn := c.methodAnywhere(n, m.Name())
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			if mutators[m.Name()] {
				c.Decide(r.fails(fn), "fails", key, fn.Pos(), "%s of a read-only collection can succeed", key)
				x := r.changes(fn, 0)
				c.Decide(x == nil, "unchanged", key, fn.Pos(), "%s changes something before it fails", key)
				continue
			}
			// readers
			if own := structOf(fn.Signature.Recv().Type()); own != nil && ro[own] {
				var bad ssa.Instruction
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						switch t := in.(type) {
						case *ssa.Store:
							if p := pathOf(t.Addr); p.Root == ssa.Value(fn.Params[0]) && strings.Contains(p.Sel, ".") {
								bad = in
							}
						case *ssa.MapUpdate:
							if p := pathOf(t.Map); p.Root == ssa.Value(fn.Params[0]) {
								bad = in
							}
						}
					}
				}
				c.Decide(bad == nil, "state", key, fn.Pos(), "%s writes the contents of a read-only collection", key)
				res := fn.Signature.Results()
				if res.Len() == 1 && implementsNamed(c.Program, res.At(0).Type(), "EList") {
					c.Decide(r.view(fn, ro), "views", key, fn.Pos(), "%s hands out a list that is not read-only", key)
				}
			}
		}
	}
	// the lists handed out as derived information
	frozen := func(f *sframe, v ssa.Value) bool {
		ok := true
		f.dynamicTypes(v, func(t types.Type, x fval) {
			if k, isConst := x.v.(*ssa.Const); isConst && k.IsNil() {
				return
			}
			if t == nil {
				// a list read back from the derived fields themselves
				if u, isLoad := x.v.(*ssa.UnOp); isLoad {
					if fv := addrField(u.X); fv != nil && r.derived(fv, u.X) {
						return
					}
				}
				ok = false
				return
			}
			if n := structOf(t); n == nil || !ro[n] {
				ok = false
			}
		})
		return ok
	}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fv := addrField(st.Addr)
				if fv == nil || !r.derived(fv, st.Addr) {
					continue
				}
				f := c.specFrame(fn, nil, func(cc *ssa.CallCommon, g *ssa.Function) bool { return true })
				c.Decide(frozen(f, st.Val), "derived", fname(fn)+" "+fv.Name(), st.Pos(), "%s is given a list that can be modified", fv.Name())
			}
		}
	}
	if n := c.named("AbstractENotifier"); n != nil {
		if fn := c.methodOn(n, "EAdapters"); fn != nil {
			c.Decide(r.view(fn, ro), "derived", "AbstractENotifier.EAdapters", fn.Pos(), "the adapters of a notifier that keeps none can be modified")
		}
	}
	c.Notes["read-only collections"] = len(ro)
	c.Floor("derived", 10)
	c.Floor("fails", 30)
	c.Floor("views", 2)
	c.Floor("state", 12)
}

// derived: a field keeping a list a class derives from its features.
func (r *readOnly) derived(fv *types.Var, addr ssa.Value) bool {
	if n, ok := fv.Type().(*types.Named); !ok || n.Obj().Name() != "EList" {
		return false
	}
	n := structOf(pathOf(addr).Root.Type())
	return n != nil && n.Obj().Name() == "EClassExt"
}

// view: every list the function answers is read-only.
func (r *readOnly) view(fn *ssa.Function, ro map[*types.Named]bool) bool {
	f := r.c.specFrame(fn, nil, func(cc *ssa.CallCommon, g *ssa.Function) bool { return true })
	for _, ret := range f.returns() {
		for _, x := range f.expand(ret.Results[0]) {
			n := structOf(x.v.Type())
			if n == nil || !ro[n] {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) named(name string) *types.Named {
	for _, n := range c.Named {
		if n.Obj().Name() == name {
			return n
		}
	}
	return nil
}
