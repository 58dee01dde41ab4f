package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C25", checkC25) }

// insertingOps: operations a list is implemented with that bring in an element
// (or all those of a collection).
func insertingOp(name string) (bulk, ok bool) {
	for _, p := range []string{"do", "perform"} {
		if n, cut := strings.CutPrefix(name, p); cut {
			switch n {
			case "Add", "Insert", "Set":
				return false, true
			case "AddAll", "InsertAll":
				return true, true
			}
		}
	}
	return false, false
}

func checkC25(c *Ctx) {
	c.Rule("single", "an element already in a unique list is not brought in again by an operation that adds, inserts or replaces one")
	c.Rule("bulk", "an operation that brings in a collection hands a unique list only what remains of the collection without duplicates and without the elements already there")
	c.Rule("filtered", "what remains of a collection has each element once and none that is in the list")
	c.Rule("snapshot", "a set is not changed while it is iterated over with its own iterator")
	b := &boundsCheck{c: c, visited: map[*ssa.Function]bool{}}
	b.prepare()
	u := &uniqueCheck{c: c, b: b, filters: map[*ssa.Function]bool{}}
	for _, fn := range c.Funcs {
		r := fn.Signature.Recv()
		if r == nil || fn.Parent() != nil || len(fn.Blocks) == 0 || structOf(r.Type()) == nil || !b.lists[structOf(r.Type()).Origin()] {
			continue
		}
		if !publicListOp(c, fn.Name()) {
			continue
		}
		u.operation(fn)
	}
	u.snapshots()
	c.Floor("single", 4)
	c.Floor("bulk", 2)
	c.Floor("filtered", 1)
}

type uniqueCheck struct {
	c       *Ctx
	b       *boundsCheck
	filters map[*ssa.Function]bool
}

// publicListOp: an operation of the list interface.
func publicListOp(c *Ctx, name string) bool {
	o := c.Ecore.Types.Scope().Lookup("EList")
	if o == nil {
		return false
	}
	i, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == name {
			return true
		}
	}
	return false
}

// isUniqueFlag: the value says whether the list is unique.
func isUniqueFlag(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.UnOp:
		if fa, ok := t.X.(*ssa.FieldAddr); ok && t.Op == token.MUL {
			f := fieldOf(fa)
			return f != nil && f.Name() == "isUnique"
		}
	case *ssa.Call:
		n := calleeName(&t.Call)
		return n == "IsUnique" && isBool(t.Type())
	}
	return false
}

func (u *uniqueCheck) operation(fn *ssa.Function) {
	c, b := u.c, u.b
	// the element and the collection handed to the operation
	elems, colls := map[string]bool{}, map[string]bool{}
	rules := &zoneRules{p: c.Program, size: b.size, store: b.store}
	rules.enter = b.rules().enter
	self := rules.frame(fn)
	for _, p := range fn.Params[1:] {
		if i, ok := p.Type().Underlying().(*types.Interface); ok && i.Empty() {
			elems[self.path(p)] = true
		} else if ok {
			colls[self.path(p)] = true
		}
	}
	if len(elems)+len(colls) == 0 {
		return
	}
	n := zkey{s: "n:" + b.norm(self.path(fn.Params[0]))}
	// cases for where in the list the element already is
	type tcase struct {
		name string
		set  func(z *zone, r zexpr, idx zexpr)
	}
	var idx zexpr
	for _, p := range fn.Params[1:] {
		if isIntValue(p) {
			idx = self.expr(p)
		}
	}
	cases := []tcase{{"already in the list", func(z *zone, r, idx zexpr) {}}}
	if strings.HasPrefix(fn.Name(), "Set") && idx.ok {
		cases = []tcase{
			{"already in the list before the position", func(z *zone, r, idx zexpr) { z.addLe(r, idx, 1) }},
			{"already in the list after the position", func(z *zone, r, idx zexpr) { z.addLe(idx, r, 1) }},
		}
	}
	own := func(f *zframe, cc *ssa.CallCommon) bool {
		r := recvOf(cc)
		return r != nil && b.listType(r.Type()) && b.sizeOf(f, r) == n
	}
	for _, tc := range cases {
		bad := map[ssa.Instruction]string{}
		ops := 0
		rules.cond = func(f *zframe, v ssa.Value) *bool {
			yes := true
			if isUniqueFlag(v) {
				return &yes
			}
			if call, ok := v.(*ssa.Call); ok && own(f, &call.Call) && len(argsOf(&call.Call)) == 1 && elems[f.path(argsOf(&call.Call)[0])] {
				if calleeName(&call.Call) == "Contains" {
					return &yes
				}
			}
			return nil
		}
		rules.call = func(f *zframe, call ssa.CallInstruction, z *zone) bool {
			cc := call.Common()
			if own(f, cc) && calleeName(cc) == "IndexOf" && len(argsOf(cc)) == 1 {
				if v, ok := call.(ssa.Value); ok && elems[f.path(argsOf(cc)[0])] {
					r := zexpr{zkey{f: f, v: v}, 0, true}
					z.forget(r.k)
					z.addLe(zexpr{zZero, 0, true}, r, 0)
					z.addLe(r, zexpr{n, 0, true}, 1)
					tc.set(z, r, idx)
					return true
				}
			}
			if _, ok := insertingOp(calleeName(cc)); ok {
				return true
			}
			return b.call(f, call, z)
		}
		rules.visit = func(f *zframe, in ssa.Instruction, z *zone) {
			call, ok := in.(ssa.CallInstruction)
			if !ok || !own(f, call.Common()) {
				return
			}
			if bulk, ok := insertingOp(calleeName(call.Common())); ok && !bulk {
				for _, a := range argsOf(call.Common()) {
					if elems[f.path(a)] {
						ops++
						if !z.bot {
							bad[in] = fname(f.fn)
						}
					}
				}
			}
		}
		f := rules.frame(fn)
		idx = zexpr{}
		for _, p := range fn.Params[1:] {
			if isIntValue(p) {
				idx = f.expr(p)
			}
		}
		entry := newZone()
		entry.add(zZero, n, 0)
		b.frozen = false
		f.run(entry, true)
		// paths of the parameters do not depend on the frame
		if len(elems) > 0 && ops+len(bad) > 0 || u.inserts(fn, false) {
			key := fname(fn) + " element " + tc.name
			if len(bad) == 0 {
				c.Ok("single", key, fn.Pos())
			}
			for in := range bad {
				c.Bad("single", key, posOf(in), "%s stores an element that is %s", fname(fn), tc.name)
			}
		}
	}
	if len(colls) > 0 {
		u.bulk(fn)
	}
}

// inserts: the function (or a helper it calls) has a call of an inserting operation.
func (u *uniqueCheck) inserts(fn *ssa.Function, bulk bool) bool {
	found := false
	f := u.c.specFrame(fn, map[ssa.Value]constant.Value{}, u.enter)
	f.each(func(in ssa.Instruction, sf *sframe) {
		if call, ok := in.(ssa.CallInstruction); ok && recvOf(call.Common()) != nil && u.b.listType(recvOf(call.Common()).Type()) {
			if b, ok := insertingOp(calleeName(call.Common())); ok && b == bulk {
				found = true
			}
		}
	})
	return found
}

func (u *uniqueCheck) enter(cc *ssa.CallCommon, g *ssa.Function) bool {
	if _, ins := insertingOp(g.Name()); ins {
		return false
	}
	if g.Signature.Recv() == nil {
		for i := 0; i < g.Signature.Params().Len(); i++ {
			if isSet(g.Signature.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	return u.b.listType(g.Signature.Recv().Type())
}

// bulk: what is handed to the inserting operation when the list is unique.
func (u *uniqueCheck) bulk(fn *ssa.Function) {
	c := u.c
	f := c.specFrame(fn, map[ssa.Value]constant.Value{}, u.enter)
	f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
		if isUniqueFlag(v) {
			return constant.MakeBool(true)
		}
		return nil
	}
	f.decide()
	f.each(func(in ssa.Instruction, sf *sframe) {})
	f.each(func(in ssa.Instruction, sf *sframe) {
		call, ok := in.(ssa.CallInstruction)
		if !ok || recvOf(call.Common()) == nil || !u.b.listType(recvOf(call.Common()).Type()) {
			return
		}
		isBulk, ok := insertingOp(calleeName(call.Common()))
		if !ok || !isBulk {
			return
		}
		for _, a := range argsOf(call.Common()) {
			if !strings.Contains(typeName(a.Type()), "Collection") {
				if i, ok := a.Type().Underlying().(*types.Interface); !ok || i.Empty() {
					continue
				}
			}
			key := fname(fn) + " " + calleeName(call.Common())
			if why := u.deduped(sf, a); why != "" {
				c.Bad("bulk", key, in.Pos(), "%s adds to a unique list %s", fname(fn), why)
			} else {
				c.Ok("bulk", key, in.Pos())
			}
		}
	})
	// one by one through the operations for single elements is fine too: those are checked
}

// deduped: every value the collection can be has been filtered ("" when it has).
func (u *uniqueCheck) deduped(f *sframe, v ssa.Value) string {
	vs := f.expand(v)
	if len(vs) == 0 {
		return "a collection of unknown origin"
	}
	for _, x := range vs {
		if _, ok := x.v.(*ssa.Parameter); ok {
			return "a collection that has not been filtered"
		}
		fn := x.f.fn
		if why := u.filtered(x.f, x.v, fn); why != "" {
			return why
		}
	}
	return ""
}

// filtered checks how the collection was made.
func (u *uniqueCheck) filtered(f *sframe, v ssa.Value, fn *ssa.Function) string {
	c := u.c
	// a list around a slice
	var slice ssa.Value
	sf := f
	for i := 0; i < 6; i++ {
		switch t := v.(type) {
		case *ssa.Call:
			if g := t.Call.StaticCallee(); g != nil && c.isEcore(pkgPath(g)) {
				for _, a := range t.Call.Args {
					if _, ok := a.Type().Underlying().(*types.Slice); ok {
						slice = a
					}
				}
			} else {
				slice = t
			}
		case *ssa.Alloc:
			// the elements of a list literal
			if t.Referrers() != nil {
				for _, r := range *t.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fieldOf(fa) != nil && u.b.tables[fieldOf(fa).Name()] && fa.Referrers() != nil {
						for _, s := range *fa.Referrers() {
							if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
								slice = st.Val
							}
						}
					}
				}
			}
		}
		break
	}
	if slice == nil {
		return "a collection made some other way"
	}
	slices := sf.expand(slice)
	if len(slices) == 0 {
		return "a collection made some other way"
	}
	for _, s := range slices {
		if why := u.filteredSlice(s.f, s.v); why != "" {
			return why
		}
	}
	return ""
}

func pkgPath(g *ssa.Function) string {
	if g.Pkg != nil {
		return g.Pkg.Pkg.Path()
	}
	if g.Origin() != nil && g.Origin().Pkg != nil {
		return g.Origin().Pkg.Pkg.Path()
	}
	return ""
}

// isSet: a container that keeps each element once.
func isSet(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Set"
}

// filteredSlice: the slice holds what a filtered set holds, or was filled under guards.
func (u *uniqueCheck) filteredSlice(f *sframe, v ssa.Value) string {
	key := fname(f.fn)
	sets := map[ssa.Value]bool{}
	var guarded []*ssa.Call
	plain := false
	addSet := func(x ssa.Value, g *sframe) {
		if s := one(g.expand(x)); s != nil {
			sets[s] = true
		} else {
			plain = true
		}
	}
	// elements stored anywhere in the function's closures
	var from func(x ssa.Value, g *sframe, fn *ssa.Function)
	from = func(x ssa.Value, g *sframe, fn *ssa.Function) {
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		switch t := x.(type) {
		case *ssa.Parameter:
			// of a function the set calls for each element
			if mc := closureUse(t.Parent()); mc != nil && isSet(recvType(&mc.Call)) {
				addSet(recvOf(&mc.Call), g)
				return
			}
		case *ssa.Call:
			if r := recvOf(&t.Call); r != nil && calleeName(&t.Call) == "Value" {
				if it := one(g.expand(r)); it != nil {
					if ic, ok := it.(*ssa.Call); ok && recvOf(&ic.Call) != nil && isSet(recvOf(&ic.Call).Type()) {
						addSet(recvOf(&ic.Call), g)
						return
					}
				}
			}
		case *ssa.UnOp:
			if ia, ok := t.X.(*ssa.IndexAddr); ok {
				if call, ok := one(g.expand(ia.X)).(*ssa.Call); ok && calleeName(&call.Call) == "Values" && isSet(recvType(&call.Call)) {
					addSet(recvOf(&call.Call), g)
					return
				}
			}
		case *ssa.Extract:
			if nx, ok := t.Tuple.(*ssa.Next); ok && t.Index == 1 {
				if rg, ok := nx.Iter.(*ssa.Range); ok && isSet(rg.X.Type()) {
					addSet(rg.X, g)
					return
				}
			}
		}
		plain = true
	}
	switch t := v.(type) {
	case *ssa.Call:
		if calleeName(&t.Call) == "Values" && isSet(recvType(&t.Call)) {
			addSet(recvOf(&t.Call), f)
		} else if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			guarded = append(guarded, t)
		} else {
			return "a slice of unknown origin"
		}
	case *ssa.MakeSlice, *ssa.Slice, *ssa.Alloc:
		stores := 0
		for _, g := range withClosures(f.fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok || throughCell(f, ia.X) != v {
						continue
					}
					stores++
					from(st.Val, f, g)
				}
			}
		}
		if stores == 0 {
			return "" // nothing in it
		}
	case *ssa.Const:
		return ""
	default:
		return "a slice of unknown origin"
	}
	for _, a := range guarded {
		for _, e := range sliceElems(a.Call.Args[1]) {
			before := len(sets)
			from(e, f, f.fn)
			if len(sets) == before && plain {
				plain = false
				if why := u.guardedAppend(f, a, e); why != "" {
					return why
				}
				u.c.Ok("filtered", key+" by guards", a.Pos())
			}
		}
	}
	if plain {
		return "elements that do not come from a set"
	}
	for s := range sets {
		why := u.filteredSet(f, s, v)
		u.c.Decide(why == "", "filtered", key, s.Pos(), "%s: %s", key, why)
	}
	return ""
}

// throughCell sees through a captured variable.
func throughCell(f *sframe, v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fv, ok := u.X.(*ssa.FreeVar); ok {
			if al, ok := rootBinding(fv).(*ssa.Alloc); ok {
				if s := cellStores(al, 0); len(s) == 1 {
					v = s[0]
				}
			}
		}
	}
	return one(f.expand(v))
}

func recvType(cc *ssa.CallCommon) types.Type {
	if r := recvOf(cc); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// closureUse: the call a function literal is handed to.
func closureUse(fn *ssa.Function) *ssa.Call {
	if fn.Parent() == nil {
		return nil
	}
	var out *ssa.Call
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range call.Call.Args {
				if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) || a == ssa.Value(fn) {
					out = call
				}
			}
		}
	}
	return out
}

// selfContains: the call asks the receiver's list whether it has the element.
func (u *uniqueCheck) selfContains(f *sframe, call *ssa.Call) (ssa.Value, bool) {
	if calleeName(&call.Call) != "Contains" || len(argsOf(&call.Call)) != 1 {
		return nil, false
	}
	if !u.selfList(f, recvOf(&call.Call)) {
		return nil, false
	}
	return argsOf(&call.Call)[0], true
}

// selfList: the value is the list the operation is about.
func (u *uniqueCheck) selfList(f *sframe, v ssa.Value) bool {
	if v == nil {
		return false
	}
	vs := f.expand(v)
	if len(vs) == 0 {
		return false
	}
	for _, x := range vs {
		p := pathOf(x.v)
		par, ok := p.Root.(*ssa.Parameter)
		if !ok || len(par.Parent().Params) == 0 || par.Parent().Params[0] != par || par.Parent().Signature.Recv() == nil {
			return false
		}
		if q := u.b.norm("r" + p.Sel); q != "r" {
			return false
		}
	}
	return true
}

// already assumes that the list has the element.
func (u *uniqueCheck) already(v ssa.Value, sf *sframe, same func(ssa.Value) bool) constant.Value {
	call, ok := v.(*ssa.Call)
	if !ok || len(argsOf(&call.Call)) != 1 || !u.selfList(sf, recvOf(&call.Call)) || !same(argsOf(&call.Call)[0]) {
		return nil
	}
	switch calleeName(&call.Call) {
	case "Contains":
		return constant.MakeBool(true)
	case "IndexOf":
		return constant.MakeInt64(3)
	}
	return nil
}

func (u *uniqueCheck) guardedAppend(f *sframe, a *ssa.Call, e ssa.Value) string {
	elem := one(f.expand(e))
	same := func(x ssa.Value) bool { return elem != nil && one(f.expand(x)) == elem }
	reach := func(atom func(v ssa.Value, sf *sframe) constant.Value) bool {
		g := u.c.specFrame(a.Parent(), map[ssa.Value]constant.Value{}, u.enter)
		g.atoms = atom
		g.decide()
		return g.blocks[a.Block()]
	}
	if reach(func(v ssa.Value, sf *sframe) constant.Value {
		return u.already(v, sf, same)
	}) {
		return "elements that are already in it"
	}
	seen := func(v ssa.Value, sf *sframe) constant.Value {
		switch t := v.(type) {
		case *ssa.Call:
			if _, self := u.selfContains(sf, t); !self && calleeName(&t.Call) == "Contains" {
				return constant.MakeBool(true)
			}
		case *ssa.Lookup:
			if isBool(t.Type()) {
				return constant.MakeBool(true)
			}
		case *ssa.Extract:
			if lk, ok := t.Tuple.(*ssa.Lookup); ok && lk.CommaOk && t.Index == 1 {
				return constant.MakeBool(true)
			}
		}
		return nil
	}
	if reach(seen) {
		return "the same element several times"
	}
	return ""
}

// filteredSet: by the time the set is read for the result, the elements of the list
// have been taken out of it.
func (u *uniqueCheck) filteredSet(f *sframe, set ssa.Value, result ssa.Value) string {
	fn := f.fn
	isThis := func(x ssa.Value) bool { return x != nil && one(f.expand(x)) == set }
	// elements kept out when they are put in
	kept := true
	adds := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var elem ssa.Value
			switch t := in.(type) {
			case *ssa.Call:
				if calleeName(&t.Call) == "Add" && isThis(recvOf(&t.Call)) {
					elem = in.(*ssa.Call).Call.Args[len(t.Call.Args)-1]
				}
			case *ssa.MapUpdate:
				if isThis(t.Map) {
					elem = t.Key
				}
			}
			if elem == nil {
				continue
			}
			adds++
			g := u.c.specFrame(fn, map[ssa.Value]constant.Value{}, u.enter)
			g.atoms = func(v ssa.Value, sf *sframe) constant.Value {
				return u.already(v, sf, func(ssa.Value) bool { return true })
			}
			g.decide()
			if g.blocks[b] {
				kept = false
			}
		}
	}
	if adds > 0 && kept {
		return ""
	}
	// or taken out before it is read: every way from the last element put in to the
	// result goes through a loop that does
	good := u.takesOut(f, isThis, 0)
	resBlock := fn.Blocks[0]
	if in, ok := result.(ssa.Instruction); ok {
		resBlock = in.Block()
	}
	reach := func(b *ssa.BasicBlock) bool {
		return avoids(b, good, func(x *ssa.BasicBlock) bool { return x == resBlock })
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && calleeName(&call.Call) == "Add" && isThis(recvOf(&call.Call)) {
				if reach(b) {
					return "elements already in the list can remain"
				}
			}
		}
	}
	if reach(fn.Blocks[0]) {
		return "elements already in the list can remain"
	}
	return ""
}

// avoids: from the block some other that matches is reached around the good ones.
func avoids(b *ssa.BasicBlock, good map[*ssa.BasicBlock]bool, match func(*ssa.BasicBlock) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		if good[b] || seen[b] {
			return false
		}
		seen[b] = true
		if match(b) {
			return true
		}
		for _, s := range b.Succs {
			if reach(s) {
				return true
			}
		}
		return false
	}
	return reach(b)
}

// takesOut: the blocks that take the list's elements out of the set.
func (u *uniqueCheck) takesOut(f *sframe, isThis func(ssa.Value) bool, d int) map[*ssa.BasicBlock]bool {
	good := map[*ssa.BasicBlock]bool{}
	for _, l := range naturalLoops(f.fn) {
		if u.removes(f, l, isThis) {
			good[l.header] = true
			for _, p := range l.header.Preds {
				if !l.body[p] && skipsEmpty(p, l) {
					good[p] = true
				}
			}
		}
	}
	if d > 3 {
		return good
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			// for e := range list.All()
			if all, ok := call.Call.Value.(*ssa.Call); ok && calleeName(&all.Call) == "All" && u.selfList(f, recvOf(&all.Call)) {
				for _, a := range call.Call.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok && u.bodyRemoves(f, mc.Fn.(*ssa.Function), isThis) {
						good[b] = true
					}
				}
			}
			with := false
			for _, a := range call.Call.Args {
				with = with || isSet(a.Type()) && isThis(a)
			}
			if !with {
				continue
			}
			s := f.callee(call)
			if s == nil {
				continue
			}
			inner := u.takesOut(s, func(x ssa.Value) bool { return x != nil && isThis2(s, x, isThis) }, d+1)
			if !avoids(s.fn.Blocks[0], inner, func(x *ssa.BasicBlock) bool {
				_, ret := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
				return ret
			}) {
				good[b] = true
			}
		}
	}
	return good
}

// skipsEmpty: the block goes around the loop only when there is no round to do.
func skipsEmpty(p *ssa.BasicBlock, l *loopInfo) bool {
	br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	if _, k := constInt(c.X); !k {
		return false
	}
	for b := range l.body {
		if e, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if x, ok := e.Cond.(*ssa.BinOp); ok && x.Op == token.LSS && x.Y == c.Y {
				return true
			}
		}
	}
	return false
}

// bodyRemoves: the loop body takes every element it is given out of the set.
func (u *uniqueCheck) bodyRemoves(f *sframe, body *ssa.Function, isThis func(ssa.Value) bool) bool {
	good := map[*ssa.BasicBlock]bool{}
	for _, b := range body.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || calleeName(&call.Call) != "Remove" && calleeName(&call.Call) != "delete" {
				continue
			}
			var set, elem ssa.Value
			if r := recvOf(&call.Call); r != nil {
				set, elem = r, call.Call.Args[len(call.Call.Args)-1]
				if sl := sliceElems(elem); len(sl) == 1 {
					elem = sl[0]
				}
			}
			if set != nil && len(body.Params) > 0 && elem == ssa.Value(body.Params[0]) {
				x := throughCell(f, set)
				if x != nil && isThis(x) {
					good[b] = true
				}
			}
		}
	}
	return !avoids(body.Blocks[0], good, func(x *ssa.BasicBlock) bool {
		r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
		return ok && len(r.Results) == 1
	})
}

func isThis2(s *sframe, x ssa.Value, outer func(ssa.Value) bool) bool {
	vs := s.expand(x)
	return len(vs) == 1 && vs[0].f != s && outer(vs[0].v)
}

// removes: after the loop the set has no element of the list.
func (u *uniqueCheck) removes(f *sframe, l *loopInfo, isThis func(ssa.Value) bool) bool {
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] && !runsOut(b) {
				return false
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			var elem ssa.Value
			if call, ok := in.(*ssa.Call); ok {
				if calleeName(&call.Call) == "Remove" && isThis(recvOf(&call.Call)) {
					elem = call.Call.Args[len(call.Call.Args)-1]
					if sl := sliceElems(elem); len(sl) == 1 {
						elem = sl[0]
					}
				}
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && isThis(call.Call.Args[0]) {
					elem = call.Call.Args[1]
				}
			}
			if elem == nil {
				continue
			}
			src, kind := u.element(f, elem)
			switch {
			case kind == "list" && u.selfList(f, src):
				if everyRound(l, b) {
					return true
				}
			case kind == "snapshot" && isThis(src):
				// taken out whenever the list has it
				g := u.c.specFrame(f.fn, map[ssa.Value]constant.Value{}, u.enter)
				g.atoms = func(v ssa.Value, sf *sframe) constant.Value {
					return u.already(v, sf, func(x ssa.Value) bool { return one(sf.expand(x)) == one(sf.expand(elem)) })
				}
				g.decide()
				if u.everyRoundIn(g, l, b) {
					return true
				}
			}
		}
	}
	return false
}

// runsOut: the loop is left because its iterator or counter is at the end.
func runsOut(b *ssa.BasicBlock) bool {
	if !exhausts(b) {
		return false
	}
	v := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond
	if u, isNot := v.(*ssa.UnOp); isNot {
		v = u.X
	}
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return true
	}
	counter := func(x ssa.Value) bool {
		if a, ok := x.(*ssa.BinOp); ok {
			x = a.X
		}
		_, ok := x.(*ssa.Phi)
		return ok
	}
	return counter(bo.X) || counter(bo.Y)
}

func (u *uniqueCheck) everyRoundIn(g *sframe, l *loopInfo, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b || seen[x] || !l.body[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if !g.edges[[2]int{x.Index, s.Index}] {
				continue
			}
			if s == l.header || walk(s) {
				return true
			}
		}
		return false
	}
	return !walk(l.header)
}

// element: what the value is an element of: a list being iterated over, a copy of
// a set's elements, or a set by its own iterator.
func (u *uniqueCheck) element(f *sframe, v ssa.Value) (ssa.Value, string) {
	x := one(f.expand(v))
	switch t := x.(type) {
	case *ssa.Call:
		switch calleeName(&t.Call) {
		case "Next":
			if it, ok := one(f.expand(recvOf(&t.Call))).(*ssa.Call); ok && calleeName(&it.Call) == "Iterator" {
				return recvOf(&it.Call), "list"
			}
		case "Get", "doGet":
			return recvOf(&t.Call), "list"
		case "Value":
			if it := recvOf(&t.Call); it != nil {
				for _, s := range cellStoresOf(it) {
					if ic, ok := s.(*ssa.Call); ok && calleeName(&ic.Call) == "Iterator" {
						return recvOf(&ic.Call), "live"
					}
				}
			}
		}
	case *ssa.UnOp:
		if ia, ok := t.X.(*ssa.IndexAddr); ok {
			if call, ok := one(f.expand(ia.X)).(*ssa.Call); ok {
				switch calleeName(&call.Call) {
				case "Values":
					return recvOf(&call.Call), "snapshot"
				case "ToArray":
					return recvOf(&call.Call), "list"
				}
			}
		}
	case *ssa.Extract:
		if nx, ok := t.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return rg.X, "snapshot" // removing while ranging over a map is defined
			}
		}
	}
	return nil, ""
}

func cellStoresOf(v ssa.Value) []ssa.Value {
	if _, ok := v.(*ssa.Alloc); ok {
		return cellStores(v, 0)
	}
	return []ssa.Value{v}
}

// snapshots: loops over a set (or list of the containers library) with its iterator.
func (u *uniqueCheck) snapshots() {
	c := u.c
	for _, fn := range c.Funcs {
		f := (*sframe)(nil)
		for i, l := range naturalLoops(fn) {
			for b := range l.body {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || recvOf(&call.Call) == nil {
						continue
					}
					g := call.Call.StaticCallee()
					if g == nil || !strings.Contains(pkgPath(g), "gods") {
						continue
					}
					if f == nil {
						f = c.specFrame(fn, map[ssa.Value]constant.Value{}, nil)
					}
					switch calleeName(&call.Call) {
					case "Next":
						for _, s := range cellStoresOf(recvOf(&call.Call)) {
							ic, ok := s.(*ssa.Call)
							if !ok || calleeName(&ic.Call) != "Iterator" {
								continue
							}
							set := one(f.expand(recvOf(&ic.Call)))
							changed := false
							for b2 := range l.body {
								for _, in2 := range b2.Instrs {
									if c2, ok := in2.(*ssa.Call); ok && recvOf(&c2.Call) != nil {
										switch calleeName(&c2.Call) {
										case "Remove", "Add", "Put", "Clear":
											changed = changed || set != nil && one(f.expand(recvOf(&c2.Call))) == set
										}
									}
								}
							}
							c.Decide(!changed, "snapshot", fmt.Sprintf("%s loop %d", fname(fn), i), call.Pos(), "%s changes a set while iterating over it with its own iterator: elements are skipped", fname(fn))
						}
					}
				}
			}
		}
	}
}
