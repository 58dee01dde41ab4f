package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C39", checkC39) }

// roots follows the list of the root objects through an encoder.
type rootsUse struct {
	c    *Ctx
	busy map[ssa.Value]bool
	// all: a place where every element is saved; first: only one element is looked at
	all, first []ssa.Instruction
	partial    []string
}

// follow the uses of the list.
func (r *rootsUse) follow(v ssa.Value, d int) {
	if v == nil || r.busy[v] || d > 12 || v.Referrers() == nil {
		return
	}
	r.busy[v] = true
	for _, ref := range *v.Referrers() {
		switch t := ref.(type) {
		case *ssa.Phi:
			r.follow(t, d+1)
		case *ssa.ChangeInterface:
			r.follow(t, d+1)
		case *ssa.MakeInterface:
			r.follow(t, d+1)
		case *ssa.TypeAssert:
			r.follow(t, d+1)
		case *ssa.Extract:
			r.follow(t, d+1)
		case *ssa.Store:
			if t.Val == v {
				if al, ok := t.Addr.(*ssa.Alloc); ok {
					for _, u := range *al.Referrers() {
						switch k := u.(type) {
						case *ssa.UnOp:
							r.follow(k, d+1)
						case *ssa.MakeClosure:
							g := k.Fn.(*ssa.Function)
							for i, b := range k.Bindings {
								if b == ssa.Value(al) {
									for _, l := range *g.FreeVars[i].Referrers() {
										if ld, ok := l.(*ssa.UnOp); ok {
											r.follow(ld, d+1)
										}
									}
								}
							}
						}
					}
				}
			}
		case *ssa.MakeClosure:
			g := t.Fn.(*ssa.Function)
			for i, b := range t.Bindings {
				if b == v {
					r.follow(g.FreeVars[i], d+1)
				}
			}
		case *ssa.Call:
			r.call(t, v, d)
		case *ssa.Defer:
		}
	}
}

func (r *rootsUse) call(t *ssa.Call, v ssa.Value, d int) {
	cc := &t.Call
	fn := t.Parent()
	if recvOf(cc) == v {
		switch calleeName(cc) {
		case "Iterator":
			r.iterated(t, d)
		case "All":
			// range over the function: the body is a function literal
			for _, ref := range *t.Referrers() {
				call, ok := ref.(*ssa.Call)
				if !ok || call.Call.Value != ssa.Value(t) || len(call.Call.Args) != 1 {
					continue
				}
				if m, ok := call.Call.Args[0].(*ssa.MakeClosure); ok {
					body := m.Fn.(*ssa.Function)
					if len(body.Params) > 0 && always(body, func(in ssa.Instruction) bool { return r.saves(in, body.Params[len(body.Params)-1]) }) {
						r.all = append(r.all, t)
					} else {
						r.partial = append(r.partial, fname(fn))
					}
				}
			}
		case "ToArray":
			r.slice(t, d)
		case "Get":
			// a counted loop over all positions
			idx := argsOf(cc)[0]
			if l := loopOf(fn, t.Block()); l != nil && r.countsAll(l, idx, v) {
				r.loop(l, t, nil)
			} else {
				r.first = append(r.first, t)
			}
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		return
	}
	g = r.c.unwrap(g)
	if len(g.Blocks) == 0 || pkgPath(g) != r.c.Ecore.PkgPath {
		return
	}
	for i, a := range cc.Args {
		if a == v && i < len(g.Params) {
			r.follow(g.Params[i], d+1)
		}
	}
}

func loopOf(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	var best *loopInfo
	for _, l := range naturalLoops(fn) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// countsAll: idx goes up by one and the loop runs while it is less than the size
// of the list.
func (r *rootsUse) countsAll(l *loopInfo, idx, list ssa.Value) bool {
	for b := range l.body {
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && r.counting(br.Cond, list) {
			bo := br.Cond.(*ssa.BinOp)
			if bo.X == idx {
				return true
			}
			if inc, ok := bo.X.(*ssa.BinOp); ok && inc.Op == token.ADD && inc.X == idx {
				return true // a range over an integer tests the next position
			}
			if inc, ok := idx.(*ssa.BinOp); ok && inc.Op == token.ADD && inc.X == bo.X {
				return true
			}
		}
	}
	return false
}

// counting: a position is compared with the size of the list.
func (r *rootsUse) counting(v, list ssa.Value) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS && bo.Op != token.NEQ {
		return false
	}
	c, ok := bo.Y.(*ssa.Call)
	return ok && calleeName(&c.Call) == "Size" && (list == nil || collKey(recvOf(&c.Call)) == collKey(list))
}

func (r *rootsUse) slice(v ssa.Value, d int) {
	for _, ref := range *v.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			if l := loopOf(ia.Parent(), ia.Block()); l != nil {
				for _, u := range *ia.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok {
						r.loop(l, ld, nil)
					}
				}
			} else {
				r.first = append(r.first, ia)
			}
		}
	}
}

// iterated: an iterator over the list.
func (r *rootsUse) iterated(it ssa.Value, d int) {
	fn := it.(ssa.Instruction).Parent()
	key, _ := itKey(it)
	for _, ci := range calls(fn) {
		call, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		if x, next, ok := iteratorCall(&call.Call); ok && next {
			if k, _ := itKey(x); k == key {
				if l := loopOf(fn, call.Block()); l != nil {
					r.loop(l, call, it)
				} else {
					r.first = append(r.first, call)
				}
			}
		}
	}
	_ = d
}

// loop: every round saves the element; the loop is only left early when an error
// is reported.
func (r *rootsUse) loop(l *loopInfo, elem ssa.Value, it ssa.Value) {
	fn := elem.(ssa.Instruction).Parent()
	fail := func(s string) { r.partial = append(r.partial, fname(fn)+" "+s) }
	if !eachRoundBut(l, func(in ssa.Instruction) bool { return r.saves(in, elem) }, func(b *ssa.BasicBlock, i int) bool { return nilElement(b, i, elem) }) {
		fail("has rounds that save nothing")
		return
	}
	for b := range l.body {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			if l.body[s] || b == l.header {
				continue
			}
			if ok && (errorTest(br.Cond, i == 0) || hasNextTest(br.Cond) || r.counting(br.Cond, nil)) {
				continue
			}
			if p, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok && p != nil {
				continue
			}
			fail("is left before its end")
			return
		}
	}
	r.all = append(r.all, elem.(ssa.Instruction))
}

func hasNextTest(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	_, next, ok := iteratorCall(&c.Call)
	return ok && !next
}

// errorTest: the edge is taken when an error is not nil.
func errorTest(v ssa.Value, taken bool) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok || !(isErrorType(bo.X.Type()) || isErrorType(bo.Y.Type())) {
		return false
	}
	return bo.Op == token.NEQ && taken || bo.Op == token.EQL && !taken
}

// nilElement: the edge is taken when the element is nil or not an object.
func nilElement(b *ssa.BasicBlock, i int, elem ssa.Value) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	from := func(v ssa.Value) bool {
		for _, s := range sources(v) {
			if derivedFrom(s, elem, 0) {
				return true
			}
		}
		return derivedFrom(v, elem, 0)
	}
	switch t := br.Cond.(type) {
	case *ssa.BinOp:
		other := t.X
		if isNilConst(t.X) {
			other = t.Y
		} else if !isNilConst(t.Y) {
			return false
		}
		return from(other) && (t.Op == token.EQL && i == 0 || t.Op == token.NEQ && i == 1)
	case *ssa.Extract:
		ta, ok := t.Tuple.(*ssa.TypeAssert)
		return ok && i == 1 && from(ta.X)
	}
	return false
}

func derivedFrom(v, elem ssa.Value, d int) bool {
	if v == elem {
		return true
	}
	if d > 8 {
		return false
	}
	switch t := v.(type) {
	case *ssa.TypeAssert:
		return derivedFrom(t.X, elem, d+1)
	case *ssa.Extract:
		return derivedFrom(t.Tuple, elem, d+1)
	case *ssa.MakeInterface:
		return derivedFrom(t.X, elem, d+1)
	case *ssa.ChangeInterface:
		return derivedFrom(t.X, elem, d+1)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if derivedFrom(e, elem, d+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if s := singleStore(t.X); s != nil {
			return derivedFrom(s, elem, d+1)
		}
	case *ssa.FreeVar:
		if b := binding(t); b != nil {
			return derivedFrom(b, elem, d+1)
		}
	}
	return false
}

// saves: the instruction hands the element to a method of the encoder (or to a
// closure it runs).
func (r *rootsUse) saves(in ssa.Instruction, elem ssa.Value) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	if _, ok := call.Call.Value.(*ssa.Builtin); ok {
		return false
	}
	if calleePkg(&call.Call) != r.c.Ecore.PkgPath && !call.Call.IsInvoke() && call.Call.StaticCallee() != nil && len(closuresIn(&call.Call)) == 0 {
		return false
	}
	for _, a := range call.Call.Args {
		if derivedFrom(a, elem, 0) {
			return !asking.MatchString(calleeName(&call.Call))
		}
	}
	for _, g := range closuresIn(&call.Call) {
		if always(g, func(i ssa.Instruction) bool { return r.saves(i, elem) }) {
			return true
		}
	}
	return false
}

// eachRoundBut: as eachRound, rounds through an excused edge not counted.
func eachRoundBut(l *loopInfo, event func(ssa.Instruction) bool, excused func(b *ssa.BasicBlock, i int) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{l.header}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		hit := false
		for _, in := range b.Instrs {
			hit = hit || event(in)
		}
		if hit {
			continue
		}
		for i, s := range b.Succs {
			if !l.body[s] || excused(b, i) {
				continue
			}
			if s == l.header {
				return false
			}
			work = append(work, s)
		}
	}
	return true
}

func checkC39(c *Ctx) {
	c.Rule("roots", "an encoder goes over all root objects of the resource and saves each of them; it stops early only because of an error")
	iface := c.Ecore.Types.Scope().Lookup("EEncoder")
	if iface == nil {
		c.Bad("roots", "EEncoder", token.NoPos, "the encoder interface is gone")
		return
	}
	var types_ []*types.Named
	for _, n := range c.Named {
		if _, ok := n.Underlying().(*types.Interface); ok || !implementsNamed(c.Program, types.NewPointer(n), "EEncoder") {
			continue
		}
		types_ = append(types_, n)
	}
	sort.Slice(types_, func(i, j int) bool { return types_[i].Obj().Name() < types_[j].Obj().Name() })
	for _, n := range types_ {
		fn := c.methodOn(n, "EncodeResource")
		if fn == nil {
			continue // promoted: decided where it is declared
		}
		if len(fn.Blocks) == 1 && len(calls(fn)) == 0 {
			continue // an encoder that saves nothing at all
		}
		r := &rootsUse{c: c, busy: map[ssa.Value]bool{}}
		found := 0
		seen := map[*ssa.Function]bool{}
		var search func(g *ssa.Function, d int)
		search = func(g *ssa.Function, d int) {
			if seen[g] || d > 3 || len(g.Blocks) == 0 || pkgPath(topFn(g)) != c.Ecore.PkgPath {
				return
			}
			seen[g] = true
			for _, ci := range calls(g) {
				cc := ci.Common()
				if call, ok := ci.(*ssa.Call); ok && calleeName(cc) == "GetContents" && recvOf(cc) != nil && (isEResource(recvOf(cc).Type(), c.Program) || typeName(recvOf(cc).Type()) == "EResource") {
					found++
					r.follow(call, 0)
				} else if h := cc.StaticCallee(); h != nil && !cc.IsInvoke() && h.Signature.Recv() != nil && len(g.Params) > 0 && len(cc.Args) > 0 {
					search(c.unwrap(h), d+1)
				}
			}
			for _, a := range g.AnonFuncs {
				search(a, d)
			}
		}
		search(fn, 0)
		name := fname(fn)
		switch {
		case found == 0:
			c.Bad("roots", name, fn.Pos(), "%s does not look at the root objects of the resource", name)
		case len(r.partial) > 0:
			c.Bad("roots", name, fn.Pos(), "%s does not save every root object: the loop in %s", name, r.partial[0])
		case len(r.all) == 0 && len(r.first) > 0:
			c.Bad("roots", name+" first", r.first[0].Pos(), "%s only saves one of the root objects of the resource", name)
		case len(r.all) == 0:
			c.Bad("roots", name, fn.Pos(), "%s does not go over the root objects of the resource", name)
		default:
			c.Ok("roots", name, fn.Pos())
		}
	}
	c.Floor("roots", 4)
}
