package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C09", checkC09) }

// C09: a function with an error result whose step failed returns a non-nil error.
func checkC09(c *Ctx) {
	c.Rule("propagated", "on every path on which a step of a function with an error result is known to have failed, the error result is not nil, unless the failure was recognised as an expected condition")
	c.Rule("error-position", "an error is never returned as the ordinary result of a function that has an error result")
	c.Rule("no-object-on-failure", "a function that creates something returns no usable-looking pointer together with a non-nil error")
	c.Rule("typed-nil", "a constructor result that may be nil is not handed out as a non-nil interface value")
	for _, fn := range c.Funcs {
		if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "range") {
			continue
		}
		c.typedNil(fn)
		res := fn.Signature.Results()
		ei := -1
		for i := 0; i < res.Len(); i++ {
			if isErrorType(res.At(i).Type()) {
				ei = i
			}
		}
		if ei < 0 || c.outOfScope(fn, 0) != "" {
			continue
		}
		c.errorPositions(fn, ei)
		n := map[string]int{}
		for _, ci := range calls(fn) {
			cc := ci.Common()
			call, isCall := ci.(*ssa.Call)
			if !isCall || newErrorCall(cc) || noFailure(cc) != "" || calleePkg(cc) == "errors" {
				continue
			}
			if _, isB := cc.Value.(*ssa.Builtin); isB {
				continue
			}
			ev, has := errorResult(call)
			if !has || ev == nil || len(liveRefs(ev)) == 0 {
				continue // C08
			}
			name := calleeName(cc)
			if name == "" {
				name = "func value"
			}
			key := fname(fn) + " " + name
			n[key]++
			if n[key] > 1 {
				key += fmt.Sprintf(" #%d", n[key])
			}
			bad := c.claimsSuccess(fn, call, ev, ei)
			c.Decide(bad == token.NoPos, "propagated", key, bad, "the step at %s is known to have failed, yet the function reports success here", c.at(call.Pos()))
		}
	}
	c.Floor("propagated", 100)
	c.Floor("error-position", 100)
	c.Floor("no-object-on-failure", 5)
	c.Floor("typed-nil", 5)
}

// carriers: the values and local variables that hold the error.
func carriers(fn *ssa.Function, ev ssa.Value) (carry, cells map[ssa.Value]bool) {
	carry = map[ssa.Value]bool{ev: true}
	cells = map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if carry[x.Val] && factCell(x.Addr) != nil && !cells[x.Addr] {
						cells[x.Addr] = true
						ch = true
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && cells[x.X] && !carry[x] {
						carry[x] = true
						ch = true
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if carry[e] && !carry[x] {
							carry[x] = true
							ch = true
						}
					}
				case *ssa.ChangeInterface:
					if carry[x.X] && !carry[x] {
						carry[x] = true
						ch = true
					}
				}
			}
		}
	}
	return
}

func (c *Ctx) claimsSuccess(fn *ssa.Function, call *ssa.Call, ev ssa.Value, ei int) token.Pos {
	carry, cells := carriers(fn, ev)
	bad := token.NoPos
	e := &Engine{Fn: fn, Recover: 1}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(errState)
		if in == ssa.Instruction(call) {
			s.st = "pending"
			return []*PState{ps.With(s)}
		}
		if s.st != "pending" && s.st != "failed" {
			return []*PState{ps}
		}
		switch x := in.(type) {
		case *ssa.Store:
			if cells[x.Addr] && !carry[x.Val] {
				if k, isNil := e.Nil(ps, x.Val); !k || !isNil {
					s.st = "done" // another outcome takes its place
				}
			}
			if carry[x.Val] && (!cells[x.Addr] || outlives(x.Addr)) {
				s.st = "done" // kept for the caller to see
			}
		case *ssa.TypeAssert:
			if carry[x.X] {
				s.st = "done"
			}
		case ssa.CallInstruction:
			if s.st == "failed" && otherMeaning(call, x.Common()) {
				s.st = "done"
			}
			// handed to a function value of the caller (a callback that takes the error)
			cc := x.Common()
			if s.st == "failed" && cc.StaticCallee() == nil && !cc.IsInvoke() {
				for _, a := range cc.Args {
					if carry[a] {
						s.st = "done"
					}
				}
			}
		}
		return []*PState{ps.With(s)}
	}
	e.Branch = func(br *ssa.If, taken bool, ps *PState) *PState {
		s := ps.U.(errState)
		if s.st != "pending" && s.st != "failed" {
			return nil
		}
		if b, ok := br.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if carry[b.X] && isNilConst(b.Y) {
				if taken == (b.Op == token.NEQ) {
					s.st = "failed"
				} else {
					s.st = "done"
				}
				return ps.With(s)
			}
			if carry[b.X] || carry[b.Y] {
				if taken == (b.Op == token.EQL) {
					s.st = "done"
					return ps.With(s)
				}
				return nil
			}
		}
		if callOn(br.Cond, carry) {
			s.st = "done"
			return ps.With(s)
		}
		return nil
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		if ps.U.(errState).st != "failed" {
			return
		}
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		if k, isNil := e.Nil(ps, ret.Results[ei]); k && isNil {
			bad = posOf(in)
		}
	}
	e.Run(errState{})
	return bad
}

// errorPositions: what is returned next to the error result.
func (c *Ctx) errorPositions(fn *ssa.Function, ei int) {
	badPos, badObj := token.NoPos, token.NoPos
	creates := c.creator(fn, ei)
	e := &Engine{Fn: fn, Recover: 1}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState { return []*PState{ps} }
	e.Exit = func(in ssa.Instruction, ps *PState) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		ek, eNil := e.Nil(ps, ret.Results[ei])
		for i, r := range ret.Results {
			if i == ei {
				continue
			}
			if isErrorType(unwrapIface(r).Type()) && !isErrorType(r.Type()) {
				if k, isNil := e.Nil(ps, unwrapIface(r)); !k || !isNil {
					badPos = posOf(in)
				}
			}
			if creates[i] && ek && !eNil {
				if !c.mayBeNil(e, ps, r) {
					badObj = posOf(in)
				}
			}
		}
	}
	e.Run(errState{})
	c.Decide(badPos == token.NoPos, "error-position", fname(fn), badPos, "the error is returned as the ordinary result, next to a nil error")
	if len(creates) > 0 {
		c.Decide(badObj == token.NoPos, "no-object-on-failure", fname(fn), badObj, "a freshly created object is returned together with an error")
	}
}

// mayBeNil: the value is nil, or comes from somewhere that decides itself.
func (c *Ctx) mayBeNil(e *Engine, ps *PState, v ssa.Value) bool {
	v = unwrapIface(v)
	if k, isNil := e.Nil(ps, v); k {
		return isNil
	}
	return true
}

// creator: the result positions through which the function returns something it made itself.
func (c *Ctx) creator(fn *ssa.Function, ei int) map[int]bool {
	out := map[int]bool{}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, r := range ret.Results {
			if i == ei {
				continue
			}
			switch r.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
			default:
				continue
			}
			if al, ok := unwrapIface(r).(*ssa.Alloc); ok && al.Heap {
				out[i] = true
			}
			// a named result or local variable set to a fresh object
			if u, ok := unwrapIface(r).(*ssa.UnOp); ok && u.Op == token.MUL {
				if cell, ok := u.X.(*ssa.Alloc); ok {
					for _, ref := range *cell.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(cell) {
							if al, ok := unwrapIface(st.Val).(*ssa.Alloc); ok && al.Heap {
								out[i] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// typedNil: conversions to an interface of pointers a constructor may leave nil.
func (c *Ctx) typedNil(fn *ssa.Function) {
	n := map[string]int{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			mi, ok := in.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			var g *ssa.Function
			idx := 0
			switch x := mi.X.(type) {
			case *ssa.Call:
				g = x.Call.StaticCallee()
			case *ssa.Extract:
				if call, ok := x.Tuple.(*ssa.Call); ok {
					g, idx = call.Call.StaticCallee(), x.Index
				}
			}
			if g == nil || len(g.Blocks) == 0 || !strings.HasPrefix(strings.ToLower(g.Name()), "new") {
				continue
			}
			if _, ok := g.Signature.Results().At(idx).Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			key := fname(fn) + " " + g.Name()
			n[key]++
			if n[key] > 1 {
				key += fmt.Sprintf(" #%d", n[key])
			}
			pos := c.returnsNil(g, idx, map[*ssa.Function]bool{})
			if pos != token.NoPos && (knownNonNilAt(mi, mi.X) || c.nilMeaning(g)) {
				pos = token.NoPos
			}
			c.Decide(pos == token.NoPos, "typed-nil", key, mi.Pos(), "%s may return nil (%s), which becomes a non-nil %s here", g.Name(), c.at(pos), mi.Type())
		}
	}
}

// nilMeaning: nil is a documented value of the type.
func (c *Ctx) nilMeaning(g *ssa.Function) bool { return g.Name() == "NewURI" }

// returnsNil: a return of the function gives the constant nil.
func (c *Ctx) returnsNil(g *ssa.Function, idx int, seen map[*ssa.Function]bool) token.Pos {
	if seen[g] {
		return token.NoPos
	}
	seen[g] = true
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		// together with an error the caller is told
		var v func(x ssa.Value, d int) token.Pos
		v = func(x ssa.Value, d int) token.Pos {
			if d > 5 {
				return token.NoPos
			}
			switch y := x.(type) {
			case *ssa.Const:
				if y.Value == nil {
					return posOf(ret)
				}
			case *ssa.Phi:
				for _, e := range y.Edges {
					if p := v(e, d+1); p != token.NoPos {
						return p
					}
				}
			case *ssa.Call:
				if h := y.Call.StaticCallee(); h != nil && len(h.Blocks) > 0 && h.Signature.Results().Len() == 1 {
					return c.returnsNil(h, 0, seen)
				}
			}
			return token.NoPos
		}
		hasErr := false
		for _, r := range ret.Results {
			if isErrorType(r.Type()) {
				hasErr = true
			}
		}
		if hasErr {
			continue
		}
		if p := v(ret.Results[idx], 0); p != token.NoPos {
			return p
		}
	}
	return token.NoPos
}

// knownNonNilAt: a dominating test established that v is not nil.
func knownNonNilAt(in ssa.Instruction, v ssa.Value) bool {
	b := in.Block()
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || cmp.X != v || !isNilConst(cmp.Y) {
			continue
		}
		side := p.Succs[0]
		if cmp.Op == token.EQL {
			side = p.Succs[1]
		}
		if len(side.Preds) == 1 && side.Dominates(b) {
			return true
		}
	}
	return false
}
