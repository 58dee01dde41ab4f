package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// UState is the rule-specific part of a path state; equal keys mean equal states.
type UState interface{ Key() string }

// PState is an abstract state on a path: known nil-ness and truth of values,
// plus the rule's own state.
type PState struct {
	facts map[string]bool
	U     UState
}

func (s *PState) clone() *PState {
	f := make(map[string]bool, len(s.facts))
	for k, v := range s.facts {
		f[k] = v
	}
	return &PState{f, s.U}
}

// With returns the state with another rule state.
func (s *PState) With(u UState) *PState { return &PState{s.facts, u} }

func (s *PState) key() string {
	ks := make([]string, 0, len(s.facts))
	for k, v := range s.facts {
		if v {
			ks = append(ks, k+"+")
		} else {
			ks = append(ks, k+"-")
		}
	}
	sort.Strings(ks)
	return s.U.Key() + "|" + strings.Join(ks, ",")
}

// Engine explores the control-flow paths of one function, joining equal states
// and pruning branches whose condition is already known on the path.
type Engine struct {
	Fn       *ssa.Function
	Transfer func(in ssa.Instruction, st *PState) []*PState
	Branch   func(br *ssa.If, taken bool, st *PState) *PState // nil = keep st
	Exit     func(in ssa.Instruction, st *PState)
	// SkipEdge prunes CFG edges (e.g. error branches)
	SkipEdge func(from, to *ssa.BasicBlock) bool
	// Edge rewrites the state on a CFG edge
	Edge func(from, to *ssa.BasicBlock, st *PState) *PState
	// Recover: 1 = recover() yields nil (normal return), 2 = non-nil (panicking)
	Recover int
	// InitFacts seeds what is known on entry
	InitFacts map[string]bool

	noFacts  bool
	overflow bool
	reach    [][]bool
	uses     map[string]map[int]bool
	States   int
}

const maxStatesPerBlock = 600

func (e *Engine) Run(init UState) {
	if len(e.Fn.Blocks) == 0 {
		return
	}
	e.prepare()
	if !e.run(init) {
		e.noFacts = true
		if !e.run(init) {
			e.overflow = true
		}
	}
}

func (e *Engine) prepare() {
	n := len(e.Fn.Blocks)
	e.reach = make([][]bool, n)
	for i := range e.Fn.Blocks {
		r := make([]bool, n)
		stack := []*ssa.BasicBlock{e.Fn.Blocks[i]}
		for len(stack) > 0 {
			b := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if r[b.Index] {
				continue
			}
			r[b.Index] = true
			stack = append(stack, b.Succs...)
		}
		e.reach[i] = r
	}
	e.uses = map[string]map[int]bool{}
	use := func(v ssa.Value, b *ssa.BasicBlock) {
		if v == nil {
			return
		}
		k := vid(v)
		if e.uses[k] == nil {
			e.uses[k] = map[int]bool{}
		}
		e.uses[k][b.Index] = true
	}
	var useCond func(v ssa.Value, b *ssa.BasicBlock, d int)
	useCond = func(v ssa.Value, b *ssa.BasicBlock, d int) {
		if d > 8 {
			return
		}
		use(v, b)
		switch v := v.(type) {
		case *ssa.BinOp:
			use(v.X, b)
			use(v.Y, b)
		case *ssa.UnOp:
			if v.Op == token.NOT {
				useCond(v.X, b, d+1)
			}
		}
	}
	for _, b := range e.Fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If:
				useCond(in.Cond, b, 0)
			case *ssa.Phi:
				for i, ed := range in.Edges {
					use(ed, b)
					use(ed, b.Preds[i])
				}
			case *ssa.Return:
				for _, r := range in.Results {
					use(r, b)
				}
			case *ssa.Store:
				use(in.Val, b)
			case *ssa.UnOp:
				if in.Op == token.MUL {
					use(in.X, b)
				}
			case *ssa.Extract:
				use(in.Tuple, b)
			case ssa.CallInstruction:
				for _, a := range in.Common().Args {
					use(a, b)
				}
				use(in.Common().Value, b)
			case *ssa.MakeInterface:
				use(in.X, b)
			case *ssa.ChangeInterface:
				use(in.X, b)
			}
		}
	}
}

// vid identifies a value within its function.
func vid(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return "#" + v.String()
	case *ssa.ChangeInterface:
		return vid(v.X)
	}
	return v.Name()
}

func (e *Engine) prune(st *PState, b *ssa.BasicBlock) *PState {
	if e.noFacts {
		if len(st.facts) == 0 {
			return st
		}
		return &PState{map[string]bool{}, st.U}
	}
	var out *PState
	for k := range st.facts {
		id := k[strings.IndexByte(k, ':')+1:]
		if i := strings.IndexByte(id, '~'); i >= 0 {
			id = id[:i]
		}
		live := false
		for u := range e.uses[id] {
			if e.reach[b.Index][u] {
				live = true
				break
			}
		}
		if !live {
			if out == nil {
				out = st.clone()
			}
			delete(out.facts, k)
		}
	}
	if out != nil {
		return out
	}
	return st
}

func (e *Engine) run(init UState) bool {
	type item struct {
		b    *ssa.BasicBlock
		pred int
		st   *PState
	}
	seen := map[int]map[string]bool{}
	facts := map[string]bool{}
	if !e.noFacts {
		for k, v := range e.InitFacts {
			facts[k] = v
		}
	}
	work := []item{{e.Fn.Blocks[0], -1, &PState{facts, init}}}
	push := func(from, to *ssa.BasicBlock, st *PState) bool {
		if e.SkipEdge != nil && e.SkipEdge(from, to) {
			return true
		}
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		if e.Edge != nil {
			st = e.Edge(from, to, st)
		}
		st = e.enter(to, pi, st)
		st = e.prune(st, to)
		m := seen[to.Index]
		if m == nil {
			m = map[string]bool{}
			seen[to.Index] = m
		}
		k := st.key()
		if m[k] {
			return true
		}
		m[k] = true
		e.States++
		if len(m) > maxStatesPerBlock {
			return false
		}
		work = append(work, item{to, pi, st})
		return true
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := []*PState{it.st}
		for _, in := range it.b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				for _, st := range states {
					known, val := e.Eval(st, in.Cond)
					for i, taken := range []bool{true, false} {
						if known && val != taken {
							continue
						}
						ns := e.assume(st, in.Cond, taken)
						if ns == nil {
							continue
						}
						if e.Branch != nil {
							if r := e.Branch(in, taken, ns); r != nil {
								ns = r
							}
						}
						if !push(it.b, it.b.Succs[i], ns) {
							return false
						}
					}
				}
			case *ssa.Jump:
				for _, st := range states {
					if !push(it.b, it.b.Succs[0], st) {
						return false
					}
				}
			default:
				var next []*PState
				for _, st := range states {
					st = e.define(in, st)
					var res []*PState
					if e.Transfer != nil {
						res = e.Transfer(in, st)
					} else {
						res = []*PState{st}
					}
					next = append(next, res...)
				}
				states = next
				switch in.(type) {
				case *ssa.Return, *ssa.Panic:
					if e.Exit != nil {
						for _, st := range states {
							e.Exit(in, st)
						}
					}
				}
			}
			if len(states) == 0 {
				break
			}
			if len(states) > 1 {
				uniq := map[string]bool{}
				var u []*PState
				for _, st := range states {
					if k := st.key(); !uniq[k] {
						uniq[k] = true
						u = append(u, st)
					}
				}
				states = u
			}
		}
	}
	return true
}

// enter applies phi nodes.
func (e *Engine) enter(b *ssa.BasicBlock, pi int, st *PState) *PState {
	if e.noFacts || pi < 0 {
		return st
	}
	var out *PState
	type upd struct {
		v        ssa.Value
		nilKnown bool
		nilVal   bool
		bKnown   bool
		bVal     bool
	}
	var ups []upd
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		u := upd{v: ph}
		ed := ph.Edges[pi]
		u.nilKnown, u.nilVal = e.Nil(st, ed)
		u.bKnown, u.bVal = e.Eval(st, ed)
		ups = append(ups, u)
	}
	if len(ups) == 0 {
		return st
	}
	out = st.clone()
	for _, u := range ups {
		forget(out, u.v)
	}
	for _, u := range ups {
		if u.nilKnown {
			out.facts["n:"+vid(u.v)] = u.nilVal
		}
		if u.bKnown {
			out.facts["b:"+vid(u.v)] = u.bVal
		}
	}
	return out
}

func forget(st *PState, v ssa.Value) {
	id := v.Name()
	for k := range st.facts {
		r := k[strings.IndexByte(k, ':')+1:]
		for _, part := range strings.Split(r, "~") {
			if part == id {
				delete(st.facts, k)
				break
			}
		}
	}
}

// define drops stale facts about a redefined value and derives new ones.
func (e *Engine) define(in ssa.Instruction, st *PState) *PState {
	if e.noFacts {
		return st
	}
	switch x := in.(type) {
	case *ssa.Store:
		if factCell(x.Addr) != nil {
			out := st.clone()
			nk, nv := e.Nil(st, x.Val)
			bk, bv := e.Eval(st, x.Val)
			delete(out.facts, "n:"+vid(x.Addr))
			delete(out.facts, "b:"+vid(x.Addr))
			if nk {
				out.facts["n:"+vid(x.Addr)] = nv
			}
			if bk {
				out.facts["b:"+vid(x.Addr)] = bv
			}
			return out
		}
		return st
	}
	v, ok := in.(ssa.Value)
	if !ok {
		return st
	}
	stale := false
	id := v.Name()
	for k := range st.facts {
		if strings.Contains(k, id) {
			stale = true
			break
		}
	}
	out := st
	if stale {
		out = st.clone()
		forget(out, v)
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al := factCell(x.X); al != nil {
				if f, ok := st.facts["n:"+vid(al)]; ok {
					if out == st {
						out = st.clone()
					}
					out.facts["n:"+id] = f
				}
				if f, ok := st.facts["b:"+vid(al)]; ok {
					if out == st {
						out = st.clone()
					}
					out.facts["b:"+id] = f
				}
			}
		}
	case *ssa.MakeInterface:
		// an interface holding a concrete value is non-nil
	case *ssa.Call:
		// closures may write captured cells
		if _, isB := x.Call.Value.(*ssa.Builtin); !isB && x.Call.StaticCallee() == nil || closureCall(x) {
			for k := range out.facts {
				r := k[strings.IndexByte(k, ':')+1:]
				if e.isCapturedCell(r) {
					if out == st {
						out = st.clone()
					}
					delete(out.facts, k)
				}
			}
		}
	}
	return out
}

func closureCall(c *ssa.Call) bool {
	if _, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		return true
	}
	for _, a := range c.Call.Args {
		if _, ok := a.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

func (e *Engine) isCapturedCell(id string) bool {
	for _, al := range e.Fn.Locals {
		if al.Name() == id {
			return false
		}
	}
	for _, b := range e.Fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && al.Name() == id {
				if refs := al.Referrers(); refs != nil {
					for _, r := range *refs {
						if mc, ok := r.(*ssa.MakeClosure); ok {
							f := mc.Fn.(*ssa.Function)
							for i, bd := range mc.Bindings {
								if bd == al {
									for _, fr := range *f.FreeVars[i].Referrers() {
										if st, ok := fr.(*ssa.Store); ok && st.Addr == f.FreeVars[i] {
											return true
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// Nil tells whether v is known to be nil (val true) or non-nil on the path.
func (e *Engine) Nil(st *PState, v ssa.Value) (known, val bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if isBasic(x.Type()) {
			return false, false
		}
		if x.Value == nil {
			return true, true
		}
		return true, false
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.FieldAddr, *ssa.Function, *ssa.Global, *ssa.IndexAddr:
		return true, false
	case *ssa.ChangeInterface:
		return e.Nil(st, x.X)
	case *ssa.Call:
		if newErrorCall(&x.Call) {
			return true, false
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" && e.Recover != 0 {
			return true, e.Recover == 1
		}
	}
	if f, ok := st.facts["n:"+vid(v)]; ok {
		return true, f
	}
	return false, false
}

func newErrorCall(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return false
	}
	switch f.Object().Pkg().Path() + "." + f.Name() {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

// Eval evaluates a boolean value if the path determines it.
func (e *Engine) Eval(st *PState, v ssa.Value) (known, val bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.String() == "true" {
			return true, true
		}
		if x.Value != nil && x.Value.String() == "false" {
			return true, false
		}
		return false, false
	case *ssa.UnOp:
		if x.Op == token.NOT {
			k, b := e.Eval(st, x.X)
			return k, !b
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			var o ssa.Value
			if isNilConst(x.Y) {
				o = x.X
			} else if isNilConst(x.X) {
				o = x.Y
			}
			if o != nil {
				if k, n := e.Nil(st, o); k {
					return true, n == (x.Op == token.EQL)
				}
				return false, false
			}
			if f, ok := st.facts[eqKey(x)]; ok {
				return true, f == (x.Op == token.EQL)
			}
		}
	}
	if f, ok := st.facts["b:"+vid(v)]; ok {
		return true, f
	}
	return false, false
}

func eqKey(x *ssa.BinOp) string {
	a, b := vid(x.X), vid(x.Y)
	if strings.HasPrefix(a, "#") || (b < a && !strings.HasPrefix(b, "#")) {
		a, b = b, a
	}
	return "e:" + a + "~" + b
}

// assume records the outcome of a condition.
func (e *Engine) assume(st *PState, cond ssa.Value, taken bool) *PState {
	if e.noFacts {
		return st
	}
	out := st.clone()
	e.assumeIn(out, cond, taken, 0)
	return out
}

func (e *Engine) assumeIn(st *PState, cond ssa.Value, taken bool, d int) {
	if d > 6 {
		return
	}
	switch x := cond.(type) {
	case *ssa.Const:
		return
	case *ssa.UnOp:
		if x.Op == token.NOT {
			e.assumeIn(st, x.X, !taken, d+1)
			return
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			var o ssa.Value
			if isNilConst(x.Y) {
				o = x.X
			} else if isNilConst(x.X) {
				o = x.Y
			}
			if o != nil {
				isNil := taken == (x.Op == token.EQL)
				st.facts["n:"+vid(o)] = isNil
				if ext, ok := o.(*ssa.Extract); ok && !isNil && ext.Index == 0 {
					if ta, ok := ext.Tuple.(*ssa.TypeAssert); ok {
						// a non-nil result of a comma-ok assertion means ok
						for _, r := range *ta.Referrers() {
							if e2, ok := r.(*ssa.Extract); ok && e2.Index == 1 {
								st.facts["b:"+vid(e2)] = true
							}
						}
						st.facts["n:"+vid(ta.X)] = false
					}
				}
				if un, ok := o.(*ssa.UnOp); ok && un.Op == token.MUL {
					if al := factCell(un.X); al != nil {
						st.facts["n:"+vid(al)] = isNil
					}
				}
				return
			}
			st.facts[eqKey(x)] = taken == (x.Op == token.EQL)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && !taken {
			for _, r := range *ta.Referrers() {
				if e0, ok := r.(*ssa.Extract); ok && e0.Index == 0 && !isBasic(e0.Type()) {
					st.facts["n:"+vid(e0)] = true
				}
			}
		}
	}
	st.facts["b:"+vid(cond)] = taken
}

// factCell: a local or captured variable whose content facts are tracked.
func factCell(v ssa.Value) ssa.Value {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return v
	}
	return nil
}
