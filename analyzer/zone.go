package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A zone abstract interpreter: for every point of a function it computes upper
// bounds on the differences between integers (values, sizes and zero).
//
// Helpers of the package are analysed where they are called, with their
// parameters bound to the caller's arguments.

type zkey struct {
	f *zframe
	v ssa.Value
	s string
}

var zZero = zkey{}

type zexpr struct {
	k  zkey
	c  int64
	ok bool
}

type zone struct {
	bot bool
	d   map[[2]zkey]int64
}

func newZone() *zone { return &zone{d: map[[2]zkey]int64{}} }

func (z *zone) clone() *zone {
	n := &zone{bot: z.bot, d: make(map[[2]zkey]int64, len(z.d))}
	for k, v := range z.d {
		n.d[k] = v
	}
	return n
}

// add x - y <= c, keeping the zone closed.
func (z *zone) add(x, y zkey, c int64) {
	if z.bot {
		return
	}
	if x == y {
		if c < 0 {
			z.bot = true
		}
		return
	}
	if old, ok := z.d[[2]zkey{x, y}]; ok && old <= c {
		return
	}
	if back, ok := z.d[[2]zkey{y, x}]; ok && back+c < 0 {
		z.bot = true
		return
	}
	type e struct {
		k zkey
		c int64
	}
	into := []e{{x, 0}}
	from := []e{{y, 0}}
	for k, w := range z.d {
		if k[1] == x {
			into = append(into, e{k[0], w})
		}
		if k[0] == y {
			from = append(from, e{k[1], w})
		}
	}
	for _, a := range into {
		for _, b := range from {
			if a.k == b.k {
				if a.c+c+b.c < 0 {
					z.bot = true
					return
				}
				continue
			}
			w := a.c + c + b.c
			k := [2]zkey{a.k, b.k}
			if old, ok := z.d[k]; !ok || w < old {
				z.d[k] = w
			}
		}
	}
}

func (z *zone) forget(x zkey) {
	for k := range z.d {
		if k[0] == x || k[1] == x {
			delete(z.d, k)
		}
	}
}

// shift x := x + c.
func (z *zone) shift(x zkey, c int64) {
	for k, w := range z.d {
		if k[0] == x {
			z.d[k] = w + c
		} else if k[1] == x {
			z.d[k] = w - c
		}
	}
}

func (z *zone) rename(from, to zkey) {
	n := map[[2]zkey]int64{}
	for k, w := range z.d {
		for i := range k {
			if k[i] == from {
				k[i] = to
			}
		}
		n[k] = w
	}
	z.d = n
}

// le: x + xc <= y + yc - by holds here.
func (z *zone) le(x, y zexpr, by int64) bool {
	if z.bot {
		return true
	}
	if !x.ok || !y.ok {
		return false
	}
	c := y.c - x.c - by
	if x.k == y.k {
		return c >= 0
	}
	w, ok := z.d[[2]zkey{x.k, y.k}]
	return ok && w <= c
}

func (z *zone) addLe(x, y zexpr, by int64) {
	if x.ok && y.ok {
		z.add(x.k, y.k, y.c-x.c-by)
	}
}

func (z *zone) addEq(x, y zexpr) { z.addLe(x, y, 0); z.addLe(y, x, 0) }

func joinZone(a, b *zone) *zone {
	if a == nil || a.bot {
		return b
	}
	if b == nil || b.bot {
		return a
	}
	n := newZone()
	for k, w := range a.d {
		if v, ok := b.d[k]; ok {
			n.d[k] = max(v, w)
		}
	}
	return n
}

func sameZone(a, b *zone) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.bot != b.bot || len(a.d) != len(b.d) {
		return false
	}
	for k, w := range a.d {
		if v, ok := b.d[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ frames

type zoneRules struct {
	p *Program
	// size tells which quantity an integer value reads
	size func(f *zframe, v ssa.Value) (zkey, bool)
	// call models the effect of a call; true: it is not entered
	call func(f *zframe, call ssa.CallInstruction, z *zone) bool
	// store models the effect of a store
	store func(f *zframe, st *ssa.Store, z *zone)
	// visit is told every instruction with what holds before it
	visit func(f *zframe, in ssa.Instruction, z *zone)
	// cond tells what is assumed of a condition
	cond func(f *zframe, v ssa.Value) *bool
	// instr models the effect of any other instruction
	instr func(f *zframe, in ssa.Instruction, z *zone)
	// enter: the call is analysed in place
	enter func(f *zframe, call ssa.CallInstruction, g *ssa.Function) bool
}

type zframe struct {
	asking map[*ssa.Phi]bool // conditions being assumed
	r      *zoneRules
	fn     *ssa.Function
	parent *zframe
	outer  *zframe // frame a closure was made in
	args   map[*ssa.Parameter]zexpr
	paths  map[*ssa.Parameter]string
	actual map[*ssa.Parameter]ssa.Value
	sub    map[ssa.Instruction]*zframe
	truth  map[ssa.Value][2]*zone
	errs   map[ssa.Value][2]*zone // what holds when a call does not fail, and when it does
	quiet  bool
	depth  int
	exit   *zone
}

func (r *zoneRules) frame(fn *ssa.Function) *zframe {
	return &zframe{r: r, fn: fn, sub: map[ssa.Instruction]*zframe{}, truth: map[ssa.Value][2]*zone{}, errs: map[ssa.Value][2]*zone{},
		args: map[*ssa.Parameter]zexpr{}, paths: map[*ssa.Parameter]string{}, actual: map[*ssa.Parameter]ssa.Value{}}
}

func (f *zframe) frameOf(fn *ssa.Function) *zframe {
	for x := f; x != nil; x = x.outer {
		if x.fn == fn {
			return x
		}
	}
	return nil
}

func isIntValue(v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// expr of an integer value.
func (f *zframe) expr(v ssa.Value) zexpr { return f.exprD(v, 0) }

func (f *zframe) exprD(v ssa.Value, d int) zexpr {
	if k, ok := constInt(v); ok {
		return zexpr{zZero, k, true}
	}
	if d > 20 {
		return zexpr{}
	}
	switch t := v.(type) {
	case *ssa.Parameter:
		if fr := f.frameOf(t.Parent()); fr != nil {
			if e, ok := fr.args[t]; ok {
				return e
			}
			return zexpr{zkey{f: fr, v: t}, 0, isIntValue(v)}
		}
		return zexpr{zkey{v: t}, 0, isIntValue(v)}
	case *ssa.BinOp:
		if t.Op == token.ADD || t.Op == token.SUB {
			if k, ok := constInt(t.Y); ok {
				if e := f.exprD(t.X, d+1); e.ok {
					if t.Op == token.SUB {
						k = -k
					}
					e.c += k
					return e
				}
			}
			if k, ok := constInt(t.X); ok && t.Op == token.ADD {
				if e := f.exprD(t.Y, d+1); e.ok {
					e.c += k
					return e
				}
			}
		}
	case *ssa.ChangeType:
		return f.exprD(t.X, d+1)
	case *ssa.FreeVar:
		// a captured parameter that is never assigned again
		return zexpr{}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			// a captured variable assigned once
			var cell ssa.Value = t.X
			fr := f
			if fv, ok := cell.(*ssa.FreeVar); ok {
				cell = rootBinding(fv)
			}
			if al, ok := cell.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					if fr = f.frameOf(al.Parent()); fr != nil {
						if e := fr.exprD(s, d+1); e.ok {
							return e
						}
					}
				}
			}
		}
	}
	if !isIntValue(v) {
		return zexpr{}
	}
	return zexpr{zkey{f: f, v: v}, 0, true}
}

// cell of an integer variable that lives in memory.
func (f *zframe) cell(addr ssa.Value) (zkey, bool) {
	if fv, ok := addr.(*ssa.FreeVar); ok {
		addr = rootBinding(fv)
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return zkey{}, false
	}
	p, ok := al.Type().(*types.Pointer)
	if !ok || !isInt(p.Elem()) {
		return zkey{}, false
	}
	fr := f.frameOf(al.Parent())
	if fr == nil {
		return zkey{}, false
	}
	return zkey{f: fr, v: al}, true
}

// path names the place a value was read from, in terms of the outermost frame.
func (f *zframe) path(v ssa.Value) string {
	p := pathOf(v)
	if par, ok := p.Root.(*ssa.Parameter); ok {
		if fr := f.frameOf(par.Parent()); fr != nil {
			if s, ok := fr.paths[par]; ok {
				return s + p.Sel
			}
			return fmt.Sprintf("%s:%d%s", par.Name(), fr.depth, p.Sel)
		}
		return par.Name() + p.Sel
	}
	if p.Root == nil {
		return "?"
	}
	return fmt.Sprintf("%s@%p:%d%s", p.Root.Name(), p.Root, f.depth, p.Sel)
}

// function a called value stands for, with the frame it was made in.
func (f *zframe) target(v ssa.Value) (*ssa.Function, *zframe) {
	for i := 0; i < 8; i++ {
		switch t := v.(type) {
		case *ssa.Function:
			return t, nil
		case *ssa.MakeClosure:
			return t.Fn.(*ssa.Function), f
		case *ssa.ChangeType:
			v = t.X
		case *ssa.Parameter:
			fr := f.frameOf(t.Parent())
			if fr == nil || fr.actual[t] == nil {
				return nil, nil
			}
			v, f = fr.actual[t], fr.parent
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return nil, nil
			}
			cell := t.X
			if fv, ok := cell.(*ssa.FreeVar); ok {
				cell = rootBinding(fv)
			}
			al, ok := cell.(*ssa.Alloc)
			if !ok {
				return nil, nil
			}
			s := singleStore(al)
			if s == nil {
				return nil, nil
			}
			if v, f = s, f.frameOf(al.Parent()); f == nil {
				return nil, nil
			}
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// callee opens the frame of a call that is analysed in place.
func (f *zframe) callee(call ssa.CallInstruction) *zframe {
	if s, ok := f.sub[call]; ok {
		return s
	}
	f.sub[call] = nil
	cc := call.Common()
	if cc.IsInvoke() {
		return nil
	}
	g, outer := f.target(cc.Value)
	if g == nil || len(g.Blocks) == 0 {
		return nil
	}
	if g.Parent() == nil {
		g = f.r.p.unwrap(g)
	}
	if g.Pkg != nil && !f.r.p.isEcore(g.Pkg.Pkg.Path()) {
		return nil
	}
	for x := f; x != nil; x = x.parent {
		if x.fn == g {
			return nil
		}
	}
	if f.depth > 5 || !f.r.enter(f, call, g) {
		return nil
	}
	s := f.r.frame(g)
	s.parent, s.outer, s.depth = f, outer, f.depth+1
	for i, prm := range g.Params {
		if i >= len(cc.Args) {
			break
		}
		s.actual[prm] = cc.Args[i]
		s.paths[prm] = f.path(cc.Args[i])
		if isIntValue(prm) {
			s.args[prm] = f.expr(cc.Args[i])
		}
	}
	f.sub[call] = s
	return s
}

// given opens the frame of a closure handed to a call that is not analysed.
func (f *zframe) given(call ssa.CallInstruction, mc *ssa.MakeClosure) *zframe {
	if s, ok := f.sub[mc]; ok {
		return s
	}
	g := mc.Fn.(*ssa.Function)
	for x := f; x != nil; x = x.parent {
		if x.fn == g {
			return nil
		}
	}
	s := f.r.frame(g)
	s.parent, s.outer, s.depth = f, f, f.depth+1
	f.sub[mc] = s
	return s
}

// ------------------------------------------------------------------ transfer

func (f *zframe) assume(z *zone, cond ssa.Value, truth bool, at *ssa.BasicBlock) *zone {
	if z.bot {
		return z
	}
	if f.r.cond != nil {
		if b := f.r.cond(f, cond); b != nil {
			if *b != truth {
				z.bot = true
			}
			return z
		}
	}
	switch t := cond.(type) {
	case *ssa.Const:
		if b := constBool(t); b != nil && *b != truth {
			z.bot = true
		}
	case *ssa.UnOp:
		if t.Op == token.NOT {
			return f.assume(z, t.X, !truth, at)
		}
	case *ssa.BinOp:
		if isNilConst(t.X) || isNilConst(t.Y) {
			v := t.X
			if isNilConst(v) {
				v = t.Y
			}
			if ts, ok := f.errs[f.failed(v, at)]; ok {
				i := 1
				if (t.Op == token.EQL) == truth {
					i = 0
				}
				if ts[i] == nil || ts[i].bot {
					z.bot = true
					return z
				}
				for k, w := range ts[i].d {
					z.add(k[0], k[1], w)
				}
				return z
			}
			if p := f.path(v); strings.Contains(p, ".") {
				k := zexpr{zkey{s: "nil:" + p}, 0, true}
				n := int64(1)
				if (t.Op == token.EQL) == truth {
					n = 0
				}
				z.addEq(k, zexpr{zZero, n, true})
			}
			return z
		}
		if !isIntValue(t.X) || !isIntValue(t.Y) {
			return z
		}
		x, y := f.expr(t.X), f.expr(t.Y)
		op := t.Op
		if !truth {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		switch op {
		case token.LSS:
			z.addLe(x, y, 1)
		case token.LEQ:
			z.addLe(x, y, 0)
		case token.GTR:
			z.addLe(y, x, 1)
		case token.GEQ:
			z.addLe(y, x, 0)
		case token.EQL:
			z.addEq(x, y)
		case token.NEQ:
			if z.le(x, y, 0) {
				z.addLe(x, y, 1)
			} else if z.le(y, x, 0) {
				z.addLe(y, x, 1)
			}
		}
	case *ssa.Phi:
		if t.Block() != at && !t.Block().Dominates(at) || f.asking[t] {
			return z
		}
		if f.asking == nil {
			f.asking = map[*ssa.Phi]bool{}
		}
		f.asking[t] = true
		defer delete(f.asking, t)
		// the value came in along one of the edges; what the edges say is kept
		var res *zone
		for i, e := range t.Edges {
			if b := constBoolValue(e); b != nil && *b != truth {
				continue
			}
			var on *zone
			if pz := f.out(t.Block().Preds[i], t.Block()); pz != nil {
				on = f.assume(pz.clone(), e, truth, t.Block().Preds[i])
			} else {
				continue
			}
			res = joinZone(res, on)
		}
		if res == nil {
			z.bot = t.Block() == at
			return z
		}
		if t.Block() != at {
			// what it says of values still holds
			for k := range res.d {
				if !lasting(k[0], t.Block()) || !lasting(k[1], t.Block()) {
					delete(res.d, k)
				}
			}
		}
		// both hold
		for k, w := range res.d {
			z.add(k[0], k[1], w)
		}
		if res.bot {
			z.bot = true
		}
	default:
		if ts, ok := f.truth[cond]; ok {
			i := 0
			if truth {
				i = 1
			}
			if in, ok := cond.(ssa.Instruction); ok && in.Block() == at {
				if ts[i] == nil || ts[i].bot {
					z.bot = true
					return z
				}
				for k, w := range ts[i].d {
					z.add(k[0], k[1], w)
				}
			}
		}
	}
	return z
}

// failed: the call of the block whose error the value is.
func (f *zframe) failed(v ssa.Value, at *ssa.BasicBlock) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		for i := len(at.Instrs) - 1; i >= 0; i-- {
			if st, ok := at.Instrs[i].(*ssa.Store); ok && st.Addr == u.X {
				v = st.Val
				break
			}
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	if call, ok := v.(*ssa.Call); ok && call.Block() == at {
		return call
	}
	return nil
}

// lasting: a quantity that cannot have changed since the block was left.
func lasting(k zkey, b *ssa.BasicBlock) bool {
	if k == zZero {
		return true
	}
	if k.v != nil && k.s == "" {
		switch t := k.v.(type) {
		case *ssa.Alloc:
			return false
		case ssa.Instruction:
			return t.Parent() == b.Parent() && t.Block().Dominates(b)
		case *ssa.Parameter:
			return true
		}
		return false
	}
	return strings.HasPrefix(k.s, "len:") && !strings.Contains(k.s, ".")
}

func constBoolValue(v ssa.Value) *bool {
	if k, ok := v.(*ssa.Const); ok {
		return constBool(k)
	}
	return nil
}

func constBool(k *ssa.Const) *bool {
	if k.Value == nil || !isBool(k.Type()) {
		return nil
	}
	b := k.Value.ExactString() == "true"
	return &b
}

// zrun holds the fixpoint of the frame being analysed.
type zrun struct {
	in   map[*ssa.BasicBlock]*zone
	post map[*ssa.BasicBlock]*zone
}

var zruns = map[*zframe]*zrun{}

// out is what holds at the end of pred when control goes to succ.
func (f *zframe) out(pred, succ *ssa.BasicBlock) *zone {
	run := zruns[f]
	if run == nil || run.post[pred] == nil {
		return nil
	}
	z := run.post[pred].clone()
	if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
		z = f.assume(z, iff.Cond, pred.Succs[0] == succ, pred)
	}
	return z
}

// onEdge applies the phis of succ.
func (f *zframe) onEdge(z *zone, pred, succ *ssa.BasicBlock) {
	if z.bot {
		return
	}
	idx := -1
	for i, p := range succ.Preds {
		if p == pred {
			idx = i
		}
	}
	type as struct{ tmp, k zkey }
	var list []as
	for i, in := range succ.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntValue(phi) {
			continue
		}
		tmp := zkey{f: f, s: fmt.Sprintf("tmp%d", i)}
		if e := f.expr(phi.Edges[idx]); e.ok {
			z.addEq(zexpr{tmp, 0, true}, e)
		}
		list = append(list, as{tmp, zkey{f: f, v: phi}})
	}
	for _, a := range list {
		z.forget(a.k)
	}
	for _, a := range list {
		z.rename(a.tmp, a.k)
	}
}

// run analyses the frame from the given state; the result holds at its returns.
func (f *zframe) run(entry *zone, record bool) *zone {
	run := &zrun{in: map[*ssa.BasicBlock]*zone{}, post: map[*ssa.BasicBlock]*zone{}}
	old := zruns[f]
	zruns[f] = run
	defer func() { zruns[f] = old }()
	visits := map[*ssa.BasicBlock]int{}
	run.in[f.fn.Blocks[0]] = entry.clone()
	work := []*ssa.BasicBlock{f.fn.Blocks[0]}
	for len(work) > 0 {
		// lowest index first
		bi := 0
		for i, b := range work {
			if b.Index < work[bi].Index {
				bi = i
			}
		}
		b := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		z := run.in[b].clone()
		for _, in := range b.Instrs {
			f.step(in, z, false)
		}
		run.post[b] = z
		for _, s := range b.Succs {
			e := f.out(b, s)
			f.onEdge(e, b, s)
			if e.bot {
				continue
			}
			n := e
			if old := run.in[s]; old != nil {
				n = joinZone(old, e)
				if visits[s]++; visits[s] > 4 {
					for k, w := range n.d {
						if v, ok := old.d[k]; !ok || w > v {
							delete(n.d, k)
						}
					}
				}
				if sameZone(old, n) {
					continue
				}
			}
			run.in[s] = n.clone()
			dup := false
			for _, x := range work {
				dup = dup || x == s
			}
			if !dup {
				work = append(work, s)
			}
		}
	}
	var exit *zone
	var no, yes *zone
	var fine, failing *zone
	results := f.fn.Signature.Results()
	erring := results.Len() > 0 && isErrorType(results.At(results.Len()-1).Type())
	boolean := f.fn.Signature.Results().Len() == 1 && isBool(f.fn.Signature.Results().At(0).Type())
	integer := f.fn.Signature.Results().Len() == 1 && isInt(f.fn.Signature.Results().At(0).Type())
	for _, b := range f.fn.Blocks {
		if run.in[b] == nil {
			continue
		}
		z := run.in[b].clone()
		for _, in := range b.Instrs {
			f.step(in, z, record)
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !z.bot {
			if boolean {
				yes = joinZone(yes, f.assume(z.clone(), ret.Results[0], true, b))
				no = joinZone(no, f.assume(z.clone(), ret.Results[0], false, b))
			}
			e := z.clone()
			if integer {
				k := zkey{f: f, s: "result"}
				e.forget(k)
				if x := f.expr(ret.Results[0]); x.ok {
					e.addEq(zexpr{k, 0, true}, x)
				}
			}
			for i, r := range ret.Results {
				if !erring || !isIntValue(r) {
					continue
				}
				k := zkey{f: f, s: fmt.Sprintf("#%d", i)}
				e.forget(k)
				if x := f.expr(r); x.ok {
					e.addEq(zexpr{k, 0, true}, x)
				}
			}
			if erring {
				last := ret.Results[len(ret.Results)-1]
				if !isNilConst(last) {
					failing = joinZone(failing, e.clone())
				}
				if _, made := last.(*ssa.MakeInterface); !made && !newError(last) {
					fine = joinZone(fine, e.clone())
				}
			}
			exit = joinZone(exit, e)
		}
	}
	if f.parent != nil {
		f.truth[nil] = [2]*zone{no, yes}
		if erring {
			f.errs[nil] = [2]*zone{fine, failing}
		}
	}
	f.exit = exit
	if exit == nil {
		exit = &zone{bot: true, d: map[[2]zkey]int64{}}
	}
	return exit
}

func (f *zframe) step(in ssa.Instruction, z *zone, record bool) {
	if record && f.r.visit != nil {
		f.r.visit(f, in, z)
	}
	if v, ok := in.(ssa.Value); ok && isIntValue(v) {
		if _, phi := in.(*ssa.Phi); !phi {
			if e := f.expr(v); e.ok && e.k == (zkey{f: f, v: v}) {
				z.forget(e.k)
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if k, ok := f.cell(u.X); ok {
						z.addEq(e, zexpr{k, 0, true})
					}
				}
				if x, ok := in.(*ssa.Extract); ok {
					if _, entered := f.errs[x.Tuple]; entered {
						z.addEq(e, zexpr{zkey{f: f, v: x.Tuple, s: fmt.Sprintf("#%d", x.Index)}, 0, true})
					}
				}
				if f.r.size != nil {
					if k, ok := f.r.size(f, v); ok {
						z.addEq(e, zexpr{k, 0, true})
						z.add(zZero, k, 0)
					}
				}
			}
		}
	}
	if f.r.instr != nil {
		f.r.instr(f, in, z)
	}
	switch t := in.(type) {
	case *ssa.Store:
		if k, ok := f.cell(t.Addr); ok {
			e := f.expr(t.Val)
			z.forget(k)
			if e.ok {
				z.addEq(zexpr{k, 0, true}, e)
			}
		}
		if f.r.store != nil {
			f.r.store(f, t, z)
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Defer); ok {
			return
		}
		if _, ok := in.(*ssa.Go); ok {
			return
		}
		if bi, ok := t.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "max" || bi.Name() == "min") {
			if v, ok := in.(ssa.Value); ok && isIntValue(v) {
				for _, a := range t.Common().Args {
					if bi.Name() == "max" {
						z.addLe(f.expr(a), f.expr(v), 0)
					} else {
						z.addLe(f.expr(v), f.expr(a), 0)
					}
				}
			}
		}
		if f.r.call != nil && f.r.call(f, t, z) {
			return
		}
		if s := f.callee(t); s != nil {
			e := s.run(z, record)
			*z = *e.clone()
			if v, ok := in.(ssa.Value); ok {
				ts := s.truth[nil]
				f.truth[v] = [2]*zone{ts[0], ts[1]}
				if isIntValue(v) {
					k := zkey{f: f, v: v}
					z.forget(k)
					z.rename(zkey{f: s, s: "result"}, k)
				}
			}
			if v, ok := in.(ssa.Value); ok {
				if es, ok := s.errs[nil]; ok {
					for i := 0; i < s.fn.Signature.Results().Len(); i++ {
						n := fmt.Sprintf("#%d", i)
						for _, x := range []*zone{z, es[0], es[1]} {
							if x != nil {
								k := zkey{f: f, v: v, s: n}
								x.forget(k)
								x.rename(zkey{f: s, s: n}, k)
							}
						}
					}
					f.errs[v] = es
				}
			}
			// what is local to the helper is over
			for k := range z.d {
				if k[0].f == s || k[1].f == s {
					delete(z.d, k)
				}
			}
			return
		}
		// a function given to somebody else runs there any number of times
		for _, a := range t.Common().Args {
			mc, ok := a.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			s := f.given(t, mc)
			if s == nil {
				continue
			}
			for _, g := range withClosures(s.fn) {
				for _, b := range g.Blocks {
					for _, x := range b.Instrs {
						if st, ok := x.(*ssa.Store); ok {
							if k, ok := s.cell(st.Addr); ok {
								z.forget(k)
							}
						}
					}
				}
			}
			e := s.run(z, record)
			*z = *joinZone(z, e).clone()
		}
	}
}

func trimSel(path, sel string) (string, bool) {
	if strings.HasSuffix(path, sel) {
		return path[:len(path)-len(sel)], true
	}
	return path, false
}

// newError: the value is an error made on the spot.
func newError(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return false
	}
	switch call.Call.StaticCallee().String() {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}
