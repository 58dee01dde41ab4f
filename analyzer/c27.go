package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C27", checkC27) }

// itState: what is known about the iterators on a path.
//
//	r:K     the iterator K has a next element
//	b:V=K   V is true exactly when the iterator K has a next element
//	e:P     the collection P is not empty
type itState struct{ s string }

func (s itState) Key() string { return s.s }

func (s itState) has(f string) bool { return evHas(s.s, f) }

func (s itState) with(f string) itState { return itState{evAdd(s.s, f)} }

// keep the facts for which ok holds.
func (s itState) keep(ok func(f string) bool) itState {
	var l []string
	for _, f := range strings.Split(s.s, ";") {
		if f != "" && ok(f) {
			l = append(l, f)
		}
	}
	return itState{strings.Join(l, ";")}
}

// iterators checks the use of the iterators in one function.
type iterators struct {
	c *Ctx
	// needs: parameters (with a path below them) a function advances without asking
	needs map[*ssa.Function]map[string]Path
}

func isIterator(t types.Type) bool {
	ms := types.NewMethodSet(t)
	if ms.Len() == 0 {
		return false
	}
	has := func(name string, result func(types.Type) bool) bool {
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj()
			if f.Name() == name {
				s, ok := f.Type().(*types.Signature)
				return ok && s.Params().Len() == 0 && s.Results().Len() == 1 && result(s.Results().At(0).Type())
			}
		}
		return false
	}
	return has("HasNext", isBool) && has("Next", func(t types.Type) bool { return !isBool(t) })
}

// iteratorCall: a call of HasNext or Next on an iterator.
func iteratorCall(cc *ssa.CallCommon) (it ssa.Value, next, ok bool) {
	var name string
	if cc.IsInvoke() {
		it, name = cc.Value, cc.Method.Name()
	} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) == 1 {
		it, name = cc.Args[0], g.Name()
	} else {
		return nil, false, false
	}
	if name != "HasNext" && name != "Next" || !isIterator(it.Type()) {
		return nil, false, false
	}
	return it, name == "Next", true
}

// itKey identifies an iterator; the origin is the path it was loaded from.
func itKey(v ssa.Value) (key string, origin Path) {
	for {
		switch t := v.(type) {
		case *ssa.ChangeInterface:
			v = t.X
			continue
		case *ssa.MakeInterface:
			v = t.X
			continue
		case *ssa.TypeAssert:
			if !t.CommaOk {
				v = t.X
				continue
			}
		case *ssa.UnOp:
			if t.Op == token.MUL {
				switch a := t.X.(type) {
				case *ssa.Alloc:
					if s := singleStore(a); s != nil {
						v = s
						continue
					}
					return cellKey27(a), Path{a, ""}
				case *ssa.Phi:
					return cellKey27(a), Path{a, ""}
				case *ssa.FreeVar:
					if b := rootBinding(a); b != nil {
						if s := singleStore(b); s != nil {
							v = s
							continue
						}
						return cellKey27(b), Path{b, ""}
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					p := pathOf(v)
					return "path:" + p.String(), p
				}
			}
		case *ssa.FreeVar:
			if b := binding(t); b != nil {
				v = b
				continue
			}
		}
		break
	}
	n := v.Name()
	if p := v.Parent(); p != nil {
		n = fname(p) + "." + n
	}
	return n, Path{v, ""}
}

func cellKey27(v ssa.Value) string { return "cell:" + fname(v.Parent()) + "." + v.Name() }

// collKey identifies a collection by the path to it.
func collKey(v ssa.Value) string { return pathOf(v).String() }

func (x *iterators) analyse(fn *ssa.Function, report func(at ssa.Instruction, it ssa.Value, what string)) {
	c := x.c
	e := &Engine{Fn: fn, Recover: 1}
	consume := func(s itState, key string) itState {
		return s.keep(func(f string) bool {
			return f != "r:"+key && !(strings.HasPrefix(f, "b:") && strings.HasSuffix(f, "="+key))
		})
	}
	e.Transfer = func(in ssa.Instruction, st *PState) []*PState {
		s := st.U.(itState)
		switch t := in.(type) {
		case *ssa.Store:
			// the iterator of a variable is replaced
			var key string
			switch a := t.Addr.(type) {
			case *ssa.Alloc:
				key = cellKey27(a)
			case *ssa.FieldAddr, *ssa.IndexAddr:
				key = "path:" + pathOf(a).String()
			}
			if key != "" && isIterator(t.Val.Type()) {
				k, _ := itKey(t.Val)
				s = consume(s, key)
				if s.has("r:" + k) {
					s = s.with("r:" + key)
				}
			}
		case ssa.CallInstruction:
			if _, ok := in.(*ssa.Go); ok {
				break
			}
			cc := t.Common()
			v, isVal := in.(ssa.Value)
			if it, next, ok := iteratorCall(cc); ok {
				key, _ := itKey(it)
				if !next {
					if isVal {
						s = s.keep(func(f string) bool { return !strings.HasPrefix(f, "b:"+v.Name()+"=") }).with("b:" + v.Name() + "=" + key)
					}
					break
				}
				if !s.has("r:" + key) {
					report(in, it, "")
				}
				s = consume(s, key)
				break
			}
			if isVal && isIterator(v.Type()) {
				k, _ := itKey(v)
				s = consume(s, k)
				if calleeName(cc) == "Iterator" && recvOf(cc) != nil && s.has("e:"+collKey(recvOf(cc))) {
					s = s.with("r:" + k)
				}
			}
			fns, _ := c.callees(cc)
			for _, g := range fns {
				g = c.unwrap(g)
				if isVal {
					if p := asksFor(g); p != nil {
						if key, _ := argKey(*p, g, cc); key != "" {
							s = s.with("b:" + v.Name() + "=" + key)
						}
					}
				}
				if g.Parent() != nil {
					continue
				}
				var ks []string
				for k := range x.needs[g] {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					key, root := argKey(x.needs[g][k], g, cc)
					if key == "" || !s.has("r:"+key) {
						report(in, root, fname(g))
					}
					s = consume(s, key)
				}
			}
			for _, g := range closuresIn(cc) {
				// the closure runs (once) during the call
				var ks []string
				for k := range x.needs[g] {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if !s.has("r:" + k) {
						report(in, x.needs[g][k].Root, fname(g))
					}
					s = consume(s, k)
				}
			}
			for _, a := range cc.Args {
				if isIterator(a.Type()) && !cc.IsInvoke() {
					if g := cc.StaticCallee(); g != nil && len(g.Blocks) > 0 && pkgPath(g) == c.Ecore.PkgPath {
						continue
					}
					k, _ := itKey(a)
					s = consume(s, k)
				}
			}
		}
		return []*PState{st.With(s)}
	}
	e.Edge = func(from, to *ssa.BasicBlock, st *PState) *PState {
		s := st.U.(itState)
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		var add []string
		var drop []string
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ed := ph.Edges[pi]
			if p, ok := ph.Type().Underlying().(*types.Pointer); ok && isIterator(p.Elem()) {
				drop = append(drop, "r:"+cellKey27(ph))
			}
			if isIterator(ph.Type()) {
				k, _ := itKey(ed)
				n, _ := itKey(ph)
				if k != n {
					drop = append(drop, "r:"+n)
					if s.has("r:" + k) {
						add = append(add, "r:"+n)
					}
				}
			}
			if isBool(ph.Type()) {
				drop = append(drop, "b:"+ph.Name()+"=")
				for _, f := range strings.Split(s.s, ";") {
					if strings.HasPrefix(f, "b:"+ed.Name()+"=") {
						add = append(add, "b:"+ph.Name()+f[len("b:"+ed.Name()):])
					}
				}
			}
		}
		if len(add)+len(drop) == 0 {
			return st
		}
		s = s.keep(func(f string) bool {
			for _, d := range drop {
				if f == d || strings.HasSuffix(d, "=") && strings.HasPrefix(f, d) {
					return false
				}
			}
			return true
		})
		for _, a := range add {
			s = s.with(a)
		}
		return st.With(s)
	}
	e.Branch = func(br *ssa.If, taken bool, st *PState) *PState {
		s := st.U.(itState)
		cond := br.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, taken = u.X, !taken
		}
		if taken {
			for _, f := range strings.Split(s.s, ";") {
				if strings.HasPrefix(f, "b:"+cond.Name()+"=") {
					s = s.with("r:" + f[len("b:"+cond.Name()+"="):])
				}
			}
		}
		for _, k := range notEmptyColl(cond, taken) {
			s = s.with("e:" + k)
		}
		return st.With(s)
	}
	e.Run(itState{})
}

// closuresIn: the closures called, or handed to the called function.
func closuresIn(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	add := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = singleStore(u.X)
		}
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if m, ok := v.(*ssa.MakeClosure); ok {
			out = append(out, m.Fn.(*ssa.Function))
		}
	}
	add(cc.Value)
	for _, a := range cc.Args {
		add(a)
	}
	return out
}

// notEmptyColl: the collections a condition shows to have an element.
func notEmptyColl(cond ssa.Value, taken bool) []string {
	switch t := cond.(type) {
	case *ssa.Call:
		if calleeName(&t.Call) == "Empty" && recvOf(&t.Call) != nil && !taken {
			return []string{collKey(recvOf(&t.Call))}
		}
	case *ssa.BinOp:
		size := func(v ssa.Value) string {
			if c, ok := v.(*ssa.Call); ok && calleeName(&c.Call) == "Size" && recvOf(&c.Call) != nil {
				return collKey(recvOf(&c.Call))
			}
			return ""
		}
		op, a, b := t.Op, t.X, t.Y
		if size(a) == "" {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := constInt(b)
		if size(a) == "" || !ok {
			return nil
		}
		if !taken {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		if op == token.EQL && k >= 1 || op == token.NEQ && k == 0 || op == token.GTR && k >= 0 || op == token.GEQ && k >= 1 {
			return []string{size(a)}
		}
	}
	return nil
}

// argKey: the key, at a call, of the iterator at a path of the callee.
func argKey(p Path, g *ssa.Function, cc *ssa.CallCommon) (string, ssa.Value) {
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for i, q := range g.Params {
		if ssa.Value(q) == p.Root && i < len(args) {
			if p.Sel == "" {
				k, _ := itKey(args[i])
				return k, args[i]
			}
			b := pathOf(args[i])
			b.Sel += p.Sel
			return "path:" + b.String(), b.Root
		}
	}
	return "", nil
}

// asksFor: the function returns what HasNext of a parameter (or of something
// below it) says.
func asksFor(g *ssa.Function) *Path {
	if len(g.Blocks) != 1 {
		return nil
	}
	r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return nil
	}
	call, ok := r.Results[0].(*ssa.Call)
	if !ok {
		return nil
	}
	it, next, ok := iteratorCall(&call.Call)
	if !ok || next || isIteratorMethod(g) {
		return nil
	}
	_, p := itKey(it)
	if _, ok := p.Root.(*ssa.Parameter); !ok {
		return nil
	}
	return &p
}

func isIteratorMethod(fn *ssa.Function) bool {
	r := topFn(fn).Signature.Recv()
	return r != nil && isIterator(r.Type())
}

// delegated: in the Next of an iterator, the iterator it stands for, which its
// own HasNext asks.
func (x *iterators) delegated(fn *ssa.Function, it ssa.Value) bool {
	if fn.Name() != "Next" || !isIteratorMethod(fn) {
		return false
	}
	named, _ := types.Unalias(deref(fn.Signature.Recv().Type())).(*types.Named)
	if named == nil {
		return false
	}
	has := x.c.methodAnywhere(named, "HasNext")
	if has == nil {
		return false
	}
	asked := map[string]bool{}
	var collect func(g *ssa.Function, d int)
	collect = func(g *ssa.Function, d int) {
		if d > 4 {
			return
		}
		for _, ci := range calls(g) {
			if v, next, ok := iteratorCall(ci.Common()); ok && !next {
				for _, s := range sources(v) {
					if _, p := itKey(s); p.Sel != "" {
						asked[p.Sel] = true
					}
				}
			} else if h := ci.Common().StaticCallee(); h != nil && len(h.Blocks) > 0 && pkgPath(h) == x.c.Ecore.PkgPath {
				collect(x.c.unwrap(h), d+1)
			}
		}
	}
	collect(has, 0)
	src := sources(it)
	for _, s := range src {
		_, p := itKey(s)
		par, ok := p.Root.(*ssa.Parameter)
		if !ok || par != fn.Params[0] || !asked[p.Sel] {
			return false
		}
	}
	return len(src) > 0
}

// counted: the iterator belongs to a collection whose size has been compared with
// the number of elements taken.
func counted(at ssa.Instruction, it ssa.Value) bool {
	call, ok := it.(*ssa.Call)
	if !ok || calleeName(&call.Call) != "Iterator" || recvOf(&call.Call) == nil {
		return false
	}
	coll := collKey(recvOf(&call.Call))
	fn := at.Parent()
	isSize := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && calleeName(&c.Call) == "Size" && recvOf(&c.Call) != nil && collKey(recvOf(&c.Call)) == coll
	}
	checked := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(at.Block()) {
			continue
		}
		bo, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch {
		case isSize(bo.Y) && (bo.Op == token.GEQ && b.Succs[1].Dominates(at.Block()) || bo.Op == token.LSS && b.Succs[0].Dominates(at.Block())):
			checked[bo.X] = true
		case isSize(bo.X) && (bo.Op == token.LEQ && b.Succs[1].Dominates(at.Block()) || bo.Op == token.GTR && b.Succs[0].Dominates(at.Block())):
			checked[bo.Y] = true
		}
	}
	if len(checked) == 0 {
		return false
	}
	// inside a loop, the loop runs to a checked position
	for _, l := range naturalLoops(fn) {
		if !l.body[at.Block()] {
			continue
		}
		br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := br.Cond.(*ssa.BinOp)
		if !ok || !(bo.Op == token.LSS && checked[bo.Y] || bo.Op == token.GTR && (checked[bo.X] || countsDown(bo, checked))) {
			return false
		}
	}
	return true
}

// countsDown: i > 0 where i starts at a checked position.
func countsDown(bo *ssa.BinOp, checked map[ssa.Value]bool) bool {
	k, ok := constInt(bo.Y)
	ph, isPhi := bo.X.(*ssa.Phi)
	if !ok || k < 0 || !isPhi {
		return false
	}
	start := false
	for _, e := range ph.Edges {
		if checked[e] {
			start = true
			continue
		}
		d, ok := e.(*ssa.BinOp)
		if !ok || d.X != ssa.Value(ph) {
			return false
		}
		step, ok := constInt(d.Y)
		if !ok || !(d.Op == token.SUB && step >= 1 || d.Op == token.ADD && step <= -1) {
			return false
		}
	}
	return start
}

func checkC27(c *Ctx) {
	c.Rule("next", "every call of Next on an iterator is preceded, on every path, by a HasNext of the same iterator that answered true and has not been used for another Next")
	x := &iterators{c: c, needs: map[*ssa.Function]map[string]Path{}}
	var fns []*ssa.Function
	for _, fn := range c.Funcs {
		if len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	uses := func(fn *ssa.Function) bool {
		for _, ci := range calls(fn) {
			for _, g := range closuresIn(ci.Common()) {
				if len(x.needs[g]) > 0 {
					return true
				}
			}
			if _, next, ok := iteratorCall(ci.Common()); ok && next {
				return true
			}
			cs, _ := c.callees(ci.Common())
			for _, g := range cs {
				if len(x.needs[c.unwrap(g)]) > 0 {
					return true
				}
			}
		}
		return false
	}
	type site struct {
		in   ssa.Instruction
		it   ssa.Value
		what string
	}
	// functions that advance what they are given: the obligation is their callers'
	for round := 0; round < 4; round++ {
		changed := false
		for _, fn := range fns {
			if !uses(fn) || fn.Name() == "Next" && isIteratorMethod(fn) {
				continue
			}
			x.analyse(fn, func(at ssa.Instruction, it ssa.Value, what string) {
				if it == nil {
					return
				}
				k, p := itKey(it)
				par, ok := p.Root.(*ssa.Parameter)
				outer := fn.Parent() != nil && p.Root.Parent() != fn && closureUse(fn) != nil
				if !outer && (!ok || par.Parent() != fn || len(c.staticCalls(fn)) == 0 || c.usedAsValue(fn)) {
					return
				}
				if _, ok := x.needs[fn][k]; !ok {
					if x.needs[fn] == nil {
						x.needs[fn] = map[string]Path{}
					}
					x.needs[fn][k] = p
					changed = true
				}
			})
		}
		if !changed {
			break
		}
	}
	count := map[string]int{}
	for _, fn := range fns {
		if !uses(fn) {
			continue
		}
		bad := map[ssa.Instruction]site{}
		x.analyse(fn, func(at ssa.Instruction, it ssa.Value, what string) {
			if it != nil {
				if k, _ := itKey(it); x.needs[fn] != nil {
					if _, ok := x.needs[fn][k]; ok {
						return
					}
				}
				if x.delegated(fn, it) || counted(at, it) {
					return
				}
			}
			bad[at] = site{at, it, what}
		})
		for _, ci := range calls(fn) {
			_, next, ok := iteratorCall(ci.Common())
			_, isBad := bad[ci]
			if !(ok && next) && !isBad {
				continue
			}
			count[fname(fn)]++
			key := fmt.Sprintf("%s #%d", fname(fn), count[fname(fn)])
			if !isBad {
				c.Ok("next", key, ci.Pos())
				continue
			}
			via := ""
			if bad[ci].what != "" {
				via = " (in " + bad[ci].what + ")"
			}
			c.Bad("next", key, ci.Pos(), "%s advances an iterator%s on a path on which it has not just been asked whether there is a next element", fname(fn), via)
		}
	}
	c.Floor("next", 60)
}

// usedAsValue: the function is stored or passed somewhere, or reached through an
// interface.
func (c *Ctx) usedAsValue(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return true
	}
	refs := fn.Referrers()
	if refs == nil {
		// package-level functions have no referrers: look for uses as operands
		for _, g := range c.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, isCall := in.(ssa.CallInstruction)
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(fn) && !(isCall && ci.Common().Value == ssa.Value(fn)) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
