package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lin is a sum of symbols and a constant.
type lin struct {
	c int64
	t map[string]int64
}

func linConst(k int64) *lin { return &lin{c: k} }
func linSym(s string) *lin  { return &lin{t: map[string]int64{s: 1}} }

func (a *lin) add(b *lin, k int64) *lin {
	if a == nil || b == nil {
		return nil
	}
	r := &lin{c: a.c + k*b.c, t: map[string]int64{}}
	for s, n := range a.t {
		r.t[s] += n
	}
	for s, n := range b.t {
		r.t[s] += k * n
	}
	for s, n := range r.t {
		if n == 0 {
			delete(r.t, s)
		}
	}
	return r
}

func (a *lin) String() string {
	if a == nil {
		return "?"
	}
	var ks []string
	for s, n := range a.t {
		switch n {
		case 1:
			ks = append(ks, "+"+s)
		case -1:
			ks = append(ks, "-"+s)
		default:
			ks = append(ks, fmt.Sprintf("%+d*%s", n, s))
		}
	}
	sort.Strings(ks)
	r := strings.TrimPrefix(strings.Join(ks, ""), "+")
	if a.c != 0 || r == "" {
		if r == "" {
			return fmt.Sprint(a.c)
		}
		r += fmt.Sprintf("%+d", a.c)
	}
	return r
}

func (a *lin) equal(b *lin) bool { return a != nil && b != nil && a.String() == b.String() }

func (a *lin) has(prefix string) bool {
	if a != nil {
		for s := range a.t {
			if strings.HasPrefix(s, prefix) {
				return true
			}
		}
	}
	return false
}

// linear evaluates integer expressions of a frame as sums.
type linear struct {
	// sym names an expression the evaluation cannot take apart ("" : unknown)
	sym  func(x fval) *lin
	memo map[fval]*lin
	busy map[fval]bool
}

// iterSym is the number of times a loop has come back to its header.
func iterSym(h *ssa.BasicBlock) string {
	return fmt.Sprintf("i(%s.%d)", h.Parent().Name(), h.Index)
}

func (l *linear) eval(x fval) *lin {
	if r, ok := l.memo[x]; ok {
		return r
	}
	if l.busy[x] {
		return nil
	}
	l.busy[x] = true
	r := l.eval1(x)
	delete(l.busy, x)
	l.memo[x] = r
	return r
}

func (l *linear) eval1(x fval) *lin {
	f := x.f
	if k, ok := constInt(x.v); ok {
		return linConst(k)
	}
	switch t := x.v.(type) {
	case *ssa.Convert:
		return l.eval(fval{t.X, f})
	case *ssa.ChangeType:
		return l.eval(fval{t.X, f})
	case *ssa.MakeInterface:
		return l.eval(fval{t.X, f})
	case *ssa.ChangeInterface:
		return l.eval(fval{t.X, f})
	case *ssa.TypeAssert:
		if !t.CommaOk {
			return l.eval(fval{t.X, f})
		}
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 0 {
			return l.eval(fval{ta.X, f})
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.ADD:
			return l.eval(fval{t.X, f}).add(l.eval(fval{t.Y, f}), 1)
		case token.SUB:
			return l.eval(fval{t.X, f}).add(l.eval(fval{t.Y, f}), -1)
		}
	case *ssa.Parameter:
		if a := f.args[t]; a != nil && f.parent != nil {
			return l.eval(fval{a, f.parent})
		}
	case *ssa.Phi:
		return l.phi(t, f)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if r := l.cell(t, f); r != nil {
				return r
			}
		}
	case *ssa.Call:
		if s := f.callee(t); s != nil {
			var r *lin
			for _, ret := range s.returns() {
				if len(ret.Results) != 1 {
					return nil
				}
				v := l.eval(fval{ret.Results[0], s})
				if v == nil || r != nil && !r.equal(v) {
					return nil
				}
				r = v
			}
			return r
		}
	}
	return l.sym(x)
}

func (l *linear) phi(t *ssa.Phi, f *sframe) *lin {
	var init *lin
	var step *int64
	loop := false
	for _, lp := range naturalLoops(t.Parent()) {
		if lp.header == t.Block() {
			loop = true
		}
	}
	back := func(i int) bool { return t.Block().Dominates(t.Block().Preds[i]) }
	for i, e := range t.Edges {
		if !f.edges[[2]int{t.Block().Preds[i].Index, t.Block().Index}] || !f.blocks[t.Block().Preds[i]] {
			continue
		}
		if loop && back(i) {
			d := phiStep(e, t, 0)
			if d == nil || step != nil && *step != *d {
				return nil
			}
			step = d
			continue
		}
		v := l.eval(fval{e, f})
		if v == nil || init != nil && !init.equal(v) {
			return nil
		}
		init = v
	}
	if init == nil || step == nil || *step == 0 {
		return init
	}
	return init.add(linSym(iterSym(t.Block())), *step)
}

// phiStep: e = phi + constant.
func phiStep(e ssa.Value, phi *ssa.Phi, d int) *int64 {
	if e == phi {
		z := int64(0)
		return &z
	}
	if d > 6 {
		return nil
	}
	switch t := e.(type) {
	case *ssa.BinOp:
		if k, ok := constInt(t.Y); ok && (t.Op == token.ADD || t.Op == token.SUB) {
			if t.Op == token.SUB {
				k = -k
			}
			if r := phiStep(t.X, phi, d+1); r != nil {
				s := *r + k
				return &s
			}
		}
		if k, ok := constInt(t.X); ok && t.Op == token.ADD {
			if r := phiStep(t.Y, phi, d+1); r != nil {
				s := *r + k
				return &s
			}
		}
	case *ssa.Phi:
		var res *int64
		for _, x := range t.Edges {
			r := phiStep(x, phi, d+1)
			if r == nil || res != nil && *res != *r {
				return nil
			}
			res = r
		}
		return res
	}
	return nil
}

// cell evaluates a local variable kept in memory: one that is assigned once, or
// one that the body of a range-over-function loop counts up.
func (l *linear) cell(t *ssa.UnOp, f *sframe) *lin {
	addr := t.X
	if fv, ok := addr.(*ssa.FreeVar); ok {
		addr = rootBinding(fv)
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	type st struct {
		s  *ssa.Store
		fn *ssa.Function
	}
	var stores []st
	var visit func(a ssa.Value, d int)
	visit = func(a ssa.Value, d int) {
		if a.Referrers() == nil || d > 5 {
			return
		}
		for _, ref := range *a.Referrers() {
			switch r := ref.(type) {
			case *ssa.Store:
				if r.Addr == a {
					stores = append(stores, st{r, r.Parent()})
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == a {
						visit(r.Fn.(*ssa.Function).FreeVars[i], d+1)
					}
				}
			}
		}
	}
	visit(al, 0)
	home := f
	for home != nil && home.fn != al.Parent() {
		home = home.parent
	}
	if home == nil {
		home = f
		if f.outer != nil {
			home = f.outer
		}
	}
	switch len(stores) {
	case 1:
		return l.eval(fval{stores[0].s.Val, home})
	case 2:
		init, inc := stores[0], stores[1]
		if init.fn != al.Parent() {
			init, inc = inc, init
		}
		if init.fn != al.Parent() || inc.fn == al.Parent() || inc.fn != t.Parent() {
			return nil
		}
		b, ok := inc.s.Val.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil
		}
		k, isK := constInt(b.Y)
		u, isLoad := b.X.(*ssa.UnOp)
		if !isK || !isLoad || u.Op != token.MUL || len(naturalLoops(inc.fn)) > 0 {
			return nil
		}
		from := l.eval(fval{init.s.Val, home})
		n := linSym("i(" + inc.fn.Name() + ")")
		r := from.add(n, k)
		// read after the counting
		if inc.s.Block() == t.Block() {
			for _, in := range t.Block().Instrs {
				if in == ssa.Instruction(inc.s) {
					return r.add(linConst(k), 1)
				}
				if in == ssa.Instruction(t) {
					return r
				}
			}
		}
		if inc.s.Block().Dominates(t.Block()) {
			return r.add(linConst(k), 1)
		}
		return r
	}
	return nil
}
