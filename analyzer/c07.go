package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", checkC07)

}

func checkC07(c *Ctx) {
	c.Rule("released", "whatever a function opens for itself (file, stream, connection, pool, backup, temporary file) is given back on every return, unless it is handed to the caller or kept by a structure handed to the caller")
	c.Rule("close-order", "a connection pool is closed only after the connections taken from it were put back (closing waits for them)")
	c.Rule("closer", "the close callback of a codec or store closes the pool it is given, on every return, when the matching open callback created it")
	c.Rule("temp-file", "a temporary file made for a codec is removed by the close callback on every return, and by the open callback on every failure")
	for _, fn := range c.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		r := c.acquisitions(fn)
		if len(r.acqs) == 0 {
			continue
		}
		bad := map[int]token.Pos{}
		blocked := map[int]token.Pos{}
		r.run(resState{}, func(in ssa.Instruction, st resState, e *Engine, ps *PState) {
			ret := in.(*ssa.Return)
			given := r.returnedIDs(ret, e, ps)
			for _, a := range r.acqs {
				if !st.has(a.id) || given[a.id] {
					continue
				}
				if r.kept(a, ret, e, ps) {
					continue
				}
				bad[a.id] = posOf(in)
			}
		}, func(at ssa.Instruction, pool, conn *acq) { blocked[conn.id] = posOf(at) })
		count := map[string]int{}
		for _, a := range r.acqs {
			name := calleeName(&a.call.Call)
			if name == "" {
				name = "callback"
			}
			key := fname(fn) + " " + a.kind + " from " + name
			count[key]++
			if n := count[key]; n > 1 {
				key += " #" + string(rune('0'+n))
			}
			if a.val == nil {
				c.Bad("released", key, a.call.Pos(), "the %s obtained here is discarded without being released", a.kind)
				continue
			}
			if a.temp && r.sharedWithCallbacks(a) {
				continue // decided by temp-file
			}
			if p, isBad := bad[a.id]; isBad {
				c.Bad("released", key, p, "the %s obtained at %s is not released on this return", a.kind, c.at(a.call.Pos()))
			} else {
				c.Ok("released", key, a.call.Pos())
			}
			if a.take != nil {
				p, isBad := blocked[a.id]
				c.Decide(!isBad, "close-order", key, p, "the pool is closed here while the connection taken at %s is still out: closing waits for it forever", c.at(a.call.Pos()))
			}
		}
	}
	c07Callbacks(c)
	c.Floor("released", 15)
	c.Floor("close-order", 4)
	c.Floor("closer", 4)
	c.Floor("temp-file", 3)
}

// kept: the resource sits in a structure that outlives this return: one reachable
// from a parameter or the receiver, or one the return hands out.
func (r *resFn) kept(a *acq, ret *ssa.Return, e *Engine, ps *PState) bool {
	for _, b := range r.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				// a variable of an enclosing function
				if fv, ok := st.Addr.(*ssa.FreeVar); ok && r.ids(st.Val, map[ssa.Value]bool{})[a.id] && fv != nil {
					return false
				}
				continue
			}
			if !r.ids(st.Val, map[ssa.Value]bool{})[a.id] {
				continue
			}
			switch base := rootObject(fa.X).(type) {
			case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
				return true
			case *ssa.Alloc:
				for _, v := range ret.Results {
					if k, n := e.Nil(ps, v); k && n {
						continue
					}
					if r.reaches(v, base, map[ssa.Value]bool{}) {
						return true
					}
				}
			}
		}
	}
	return false
}

// rootObject strips field selections.
func rootObject(v ssa.Value) ssa.Value {
	for d := 0; d < 10; d++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			if s := singleStore(x.X); s != nil {
				v = s
				continue
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				v = fa.X
				continue
			}
			return x.X
		default:
			return v
		}
	}
	return v
}

// reaches: value v denotes, or (a structure built in this function) contains, obj.
func (r *resFn) reaches(v ssa.Value, obj ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v == obj {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if r.reaches(e, obj, seen) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return r.reaches(x.X, obj, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				for _, s := range cellStores(x.X, 0) {
					if r.reaches(s, obj, seen) {
						return true
					}
				}
				return r.reaches(x.X, obj, seen)
			}
		}
	case *ssa.Alloc:
		// structure: values stored into its fields
		var into func(addr ssa.Value) bool
		into = func(addr ssa.Value) bool {
			for _, ref := range *addr.Referrers() {
				switch y := ref.(type) {
				case *ssa.FieldAddr:
					if into(y) {
						return true
					}
				case *ssa.Store:
					if y.Addr == addr && r.reaches(y.Val, obj, seen) {
						return true
					}
				}
			}
			return false
		}
		return into(x)
	}
	return false
}

// sharedWithCallbacks: the path is kept in a variable used by several closures.
func (r *resFn) sharedWithCallbacks(a *acq) bool {
	cell := r.tempCell(a)
	if cell == nil {
		return false
	}
	n := 0
	for _, ref := range *cell.Referrers() {
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			for _, r2 := range *mc.Referrers() {
				if _, isDefer := r2.(*ssa.Defer); !isDefer {
					n++
				}
			}
		}
	}
	return n >= 2
}

// tempCell is the variable the temporary path is stored in.
func (r *resFn) tempCell(a *acq) ssa.Value {
	for _, ref := range *a.val.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Val == a.val {
			switch x := st.Addr.(type) {
			case *ssa.Alloc:
				return x
			case *ssa.FreeVar:
				return rootBinding(x)
			}
		}
	}
	return nil
}

// callbackPairs finds the calls that receive an open callback (returning a pool)
// and a close callback (taking one).
type callbackPair struct {
	site        ssa.CallInstruction
	fn          *ssa.Function
	open, close *ssa.Function
}

func (p *Program) callbackPairs() []callbackPair {
	var out []callbackPair
	for _, fn := range p.Funcs {
		for _, ci := range calls(fn) {
			cc := ci.Common()
			var open, cl *ssa.Function
			for _, a := range cc.Args {
				sg, ok := a.Type().Underlying().(*types.Signature)
				if !ok {
					continue
				}
				fns, _ := p.funcValues(a, map[ssa.Value]bool{})
				if len(fns) != 1 {
					continue
				}
				if _, isPar := a.(*ssa.Parameter); isPar {
					continue
				}
				if sg.Params().Len() == 0 && sg.Results().Len() == 2 && resourceKind(sg.Results().At(0).Type()) == "connection pool" {
					open = fns[0]
				}
				if sg.Params().Len() == 1 && resourceKind(sg.Params().At(0).Type()) == "connection pool" {
					cl = fns[0]
				}
			}
			if open != nil && cl != nil {
				out = append(out, callbackPair{ci, fn, open, cl})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return fname(out[i].fn) < fname(out[j].fn) })
	return out
}

// createsPool: fn returns a pool it (or an in-package callee) opens.
func (p *Program) createsPool(fn *ssa.Function, d int) bool {
	if d > 3 {
		return false
	}
	for _, a := range p.acquisitions(fn).acqs {
		if a.kind != "connection pool" {
			continue
		}
		f := a.call.Call.StaticCallee()
		if f == nil {
			continue
		}
		if f.Object() != nil && f.Object().Pkg() != nil && !p.isEcore(f.Object().Pkg().Path()) {
			return true
		}
		if p.createsPool(p.unwrap(f), d+1) {
			return true
		}
	}
	return false
}

func c07Callbacks(c *Ctx) {
	n := map[string]int{}
	for _, pr := range c.callbackPairs() {
		base := fname(topFn(pr.fn))
		n[base]++
		key := base
		if n[base] > 1 {
			key += " #" + string(rune('0'+n[base]))
		}
		if c.createsPool(pr.open, 0) {
			c.Decide(c.releasesParam(pr.close, 0, 0), "closer", key, pr.close.Pos(), "some return of the close callback leaves the pool the open callback created unclosed")
		}
		// temporary paths shared by both callbacks or made by the enclosing function
		for _, holder := range []*ssa.Function{pr.fn, pr.open} {
			r := c.acquisitions(holder)
			for _, a := range r.acqs {
				if !a.temp || !r.sharedWithCallbacks(a) {
					continue
				}
				cell := r.tempCell(a)
				if !captures(pr.close, cell) && !captures(pr.open, cell) {
					continue
				}
				// the close callback removes it on all returns
				m := newMust(c.Program, func(in ssa.Instruction, f *ssa.Function) []string {
					if ci, ok := in.(ssa.CallInstruction); ok && calleePkg(ci.Common()) == "os" && strings.HasPrefix(calleeName(ci.Common()), "Remove") {
						if cellOf(ci.Common().Args[0]) == cell {
							return []string{"removed"}
						}
					}
					return nil
				})
				m.waive = func(br *ssa.If, taken bool, f *ssa.Function) []string {
					// "the file is not ours": a captured flag
					if u, ok := br.Cond.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fv, ok := u.X.(*ssa.FreeVar); ok && isBoolCell(fv) && !taken && c.flagSetWith(fv, a) {
							return []string{"removed"}
						}
					}
					return nil
				}
				c.Decide(m.of(pr.close, false)["removed"], "temp-file", key+" close", pr.close.Pos(), "some return of the close callback leaves the temporary file behind")
				if holder == pr.open {
					// acquired by the open callback: removed when it fails
					bad := token.NoPos
					r.run(resState{}, func(in ssa.Instruction, st resState, e *Engine, ps *PState) {
						ret := in.(*ssa.Return)
						if !st.has(a.id) || len(ret.Results) < 2 {
							return
						}
						last := ret.Results[len(ret.Results)-1]
						if k, isNil := e.Nil(ps, last); k && isNil {
							return
						}
						bad = posOf(in)
					}, nil)
					c.Decide(bad == token.NoPos || c.openRemovesOnError(r, a), "temp-file", key+" open", bad, "the open callback can fail and leave the temporary file behind")
				}
			}
		}
	}
}

// openRemovesOnError: on returns whose error may be non-nil, assuming it is, a
// deferred call removes the file.
func (c *Ctx) openRemovesOnError(r *resFn, a *acq) bool {
	ok := true
	var defs []*ssa.Defer
	for _, b := range r.fn.Blocks {
		for _, in := range b.Instrs {
			if d, isD := in.(*ssa.Defer); isD {
				defs = append(defs, d)
			}
		}
	}
	// each return reachable after the acquisition must run a defer that, given a
	// non-nil error result, releases the file
	var errCell ssa.Value
	for _, b := range r.fn.Blocks {
		for _, in := range b.Instrs {
			if ret, isR := in.(*ssa.Return); isR && len(ret.Results) == 2 {
				if u, isU := ret.Results[1].(*ssa.UnOp); isU {
					errCell = u.X
				}
			}
		}
	}
	al, isAl := errCell.(*ssa.Alloc)
	if !isAl {
		return false
	}
	good := map[*ssa.Defer]bool{}
	for _, d := range defs {
		if mc, isMC := d.Call.Value.(*ssa.MakeClosure); isMC {
			if r.closureReleases(mc, &PState{facts: map[string]bool{"n:" + vid(al): false}}, nil)[a.id] {
				good[d] = true
			}
		}
	}
	e := &Engine{Fn: r.fn}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(resState)
		switch x := in.(type) {
		case *ssa.Call:
			if a.call == x {
				s.add(0)
			}
		case *ssa.Defer:
			if good[x] {
				s.add(1)
			}
		}
		return []*PState{ps.With(s)}
	}
	e.Branch = func(br *ssa.If, taken bool, ps *PState) *PState {
		s := ps.U.(resState)
		if b, isB := br.Cond.(*ssa.BinOp); isB && isNilConst(b.Y) && taken == (b.Op == token.NEQ) {
			if b.X == a.err {
				s.drop(0)
				return ps.With(s)
			}
			if u, isU := b.X.(*ssa.UnOp); isU && u.X == ssa.Value(al) && lastStoreIs(br, al, a.err) {
				s.drop(0)
				return ps.With(s)
			}
		}
		return nil
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		s := ps.U.(resState)
		if _, isR := in.(*ssa.Return); isR && s.has(0) && !s.has(1) {
			ok = false
		}
	}
	e.Run(resState{})
	return ok
}

// lastStoreIs: in the block of br (or its unique predecessor) the latest store to
// cell stores v.
func lastStoreIs(br *ssa.If, cell ssa.Value, v ssa.Value) bool {
	b := br.Block()
	for d := 0; d < 3; d++ {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == cell {
				return st.Val == v
			}
		}
		if len(b.Preds) != 1 {
			return false
		}
		b = b.Preds[0]
	}
	return false
}

func captures(fn *ssa.Function, cell ssa.Value) bool {
	for _, fv := range fn.FreeVars {
		if rootBinding(fv) == cell {
			return true
		}
	}
	return false
}

func cellOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch x := u.X.(type) {
		case *ssa.FreeVar:
			return rootBinding(x)
		case *ssa.Alloc:
			return x
		}
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		return rootBinding(fv)
	}
	return v
}

func isBoolCell(fv *ssa.FreeVar) bool {
	p, ok := fv.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// flagSetWith: the flag is set to true in every block region where the temporary
// path is made (same function, dominated by the acquisition).
func (c *Ctx) flagSetWith(fv *ssa.FreeVar, a *acq) bool {
	cell := rootBinding(fv)
	if cell == nil {
		return false
	}
	fn := a.call.Parent()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			addr := ssa.Value(st.Addr)
			if f, ok := addr.(*ssa.FreeVar); ok {
				addr = rootBinding(f)
			}
			if addr != cell {
				continue
			}
			if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" && a.call.Block().Dominates(b) {
				return true
			}
		}
	}
	return false
}
