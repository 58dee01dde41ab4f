package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C38", checkC38) }

const (
	maxStacks = 6
	clampAt   = 4
)

// nest is what is known about the stacks on a path: how much each has grown since
// the function was entered, how many entries it has at least, whether it was found
// empty and whether the path belongs to the root of a document.
type nest struct {
	delta [maxStacks]int8
	low   [maxStacks]int8
	empty [maxStacks]bool
	root  bool
}

type nesting struct {
	c      *Ctx
	owner  *types.Named
	stacks []string
	idx    map[*types.Var]int
	pushes map[string]int // stacks kept by push and pop methods
	// touching: functions that change a stack, callees included
	touching map[*ssa.Function]bool
	memo     map[string]map[nest]bool
	busy     map[string]bool
	changed  bool
	final    bool
	reported map[string]bool
	guarded  map[string]token.Pos
}

// stackOf: the stack an address or value is (a load of).
func (x *nesting) stackAddr(v ssa.Value) int {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return -1
	}
	if i, ok := x.idx[originVar(fieldOf(fa))]; ok {
		return i
	}
	return -1
}

func (x *nesting) stackVal(v ssa.Value) int {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return -1
	}
	return x.stackAddr(u.X)
}

// lenLess: the value is the length of the stack less n.
func (x *nesting) lenLess(v ssa.Value) (stack, n int) {
	if s := singleLoad(v); s != nil {
		v = s
	}
	switch t := v.(type) {
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if i := x.stackVal(t.Call.Args[0]); i >= 0 {
				return i, 0
			}
		}
	case *ssa.BinOp:
		if k, ok := constInt(t.Y); ok && t.Op == token.SUB {
			if i, m := x.lenLess(t.X); i >= 0 {
				return i, m + int(k)
			}
		}
	}
	return -1, 0
}

func singleLoad(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return singleStore(u.X)
	}
	return nil
}

// change: by how much a stored value makes the stack grow.
func (x *nesting) change(i int, v ssa.Value, d int) (int, bool) {
	if x.stackVal(v) == i {
		return 0, true
	}
	if d > 6 {
		return 0, false
	}
	if s := singleLoad(v); s != nil {
		return x.change(i, s, d+1)
	}
	switch t := v.(type) {
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			base, ok := x.change(i, t.Call.Args[0], d+1)
			if !ok {
				return 0, false
			}
			if sl, ok := t.Call.Args[1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					if at, ok := deref(al.Type()).Underlying().(*types.Array); ok {
						return base + int(at.Len()), true
					}
				}
			}
		}
	case *ssa.Slice:
		base, ok := x.change(i, t.X, d+1)
		if !ok || t.Max != nil {
			return 0, false
		}
		if t.Low != nil {
			k, isC := constInt(t.Low)
			if !isC {
				return 0, false
			}
			base -= int(k)
		}
		if t.High != nil {
			s, n := x.lenLess(t.High)
			if s != i {
				return 0, false
			}
			base -= n
		}
		return base, true
	}
	return 0, false
}

func (x *nesting) key(fn *ssa.Function, low [maxStacks]int8, root bool) string {
	return fmt.Sprintf("%s|%v|%v", fname(fn), low, root)
}

// effects: what a function does to the stacks.
func (x *nesting) effects(fn *ssa.Function, low [maxStacks]int8, root bool) map[nest]bool {
	key := x.key(fn, low, root)
	if x.busy[key] {
		return x.memo[key] // once in each round
	}
	x.busy[key] = true
	res := x.memo[key]
	if res == nil {
		res = map[nest]bool{}
		x.memo[key] = res
	}
	type node struct {
		b *ssa.BasicBlock
		s nest
	}
	seen := map[node]bool{}
	work := []node{{fn.Blocks[0], nest{low: low, root: root}}}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		if len(seen) > 20000 {
			x.report("balance", fname(fn), fn.Pos(), "%s has too many ways through to be followed", fname(fn))
			return res
		}
		seen[n] = true
		states := map[nest]bool{n.s: true}
		for _, in := range n.b.Instrs {
			next := map[nest]bool{}
			for s := range states {
				for _, t := range x.step(in, s) {
					next[t] = true
				}
			}
			states = next
		}
		switch t := n.b.Instrs[len(n.b.Instrs)-1].(type) {
		case *ssa.Return:
			for s := range states {
				r := nest{delta: s.delta, empty: s.empty, root: s.root}
				if !res[r] {
					res[r] = true
					x.changed = true
				}
			}
		case *ssa.Panic:
		case *ssa.If:
			for s := range states {
				for j, succ := range n.b.Succs {
					if ns, ok := x.branch(t.Cond, j == 0, s); ok {
						work = append(work, node{succ, ns})
					}
				}
			}
		default:
			for s := range states {
				for _, succ := range n.b.Succs {
					work = append(work, node{succ, s})
				}
			}
		}
	}
	return res
}

func (x *nesting) report(rule, key string, pos token.Pos, format string, args ...any) {
	if !x.final || x.reported[rule+key] {
		return
	}
	x.reported[rule+key] = true
	x.c.Bad(rule, key, pos, format, args...)
}

func (x *nesting) grow(s nest, i, n int, in ssa.Instruction) (nest, bool) {
	d := int(s.delta[i]) + n
	if d > clampAt || d < -clampAt {
		x.report("balance", fname(topFn(in.Parent()))+" "+x.stacks[i], posOf(in), "%s can change the %s stack without bound", fname(topFn(in.Parent())), x.stacks[i])
		return s, false
	}
	s.delta[i] = int8(d)
	l := int(s.low[i]) + n
	if l < 0 {
		l = 0
	}
	if l > 3 {
		l = 3
	}
	s.low[i] = int8(l)
	if n > 0 {
		s.empty[i] = false
	}
	return s, true
}

// branch follows the outcome of a condition.
func (x *nesting) branch(cond ssa.Value, taken bool, s nest) (nest, bool) {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return x.branch(u.X, !taken, s)
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return s, true
	}
	// the root of a document
	if isNilConst(bo.Y) || isNilConst(bo.X) {
		v := bo.X
		if isNilConst(v) {
			v = bo.Y
		}
		for _, src := range sources(v) {
			if call, ok := src.(*ssa.Call); ok && calleeName(&call.Call) == "GetDocumentRoot" {
				if (bo.Op == token.NEQ) == taken {
					s.root = true
				}
			}
		}
		return s, true
	}
	i, n := x.lenLess(bo.X)
	k, isC := constInt(bo.Y)
	op := bo.Op
	if i < 0 || !isC {
		i, n = x.lenLess(bo.Y)
		k, isC = constInt(bo.X)
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
		if i < 0 || !isC {
			return s, true
		}
	}
	k += int64(n) // len op k
	if !taken {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	least, most := int64(0), int64(1000)
	switch op {
	case token.LSS:
		most = k - 1
	case token.LEQ:
		most = k
	case token.GTR:
		least = k + 1
	case token.GEQ:
		least = k
	case token.EQL:
		least, most = k, k
	case token.NEQ:
		if k == 0 {
			least = 1
		}
	}
	if most < int64(s.low[i]) {
		return s, false
	}
	if least > 3 {
		least = 3
	}
	if least > 0 && s.empty[i] {
		return s, false
	}
	if int8(least) > s.low[i] {
		s.low[i] = int8(least)
	}
	if most == 0 {
		s.empty[i] = true
	}
	return s, true
}

func (x *nesting) needs(in ssa.Instruction, s nest, i, n int, what string) {
	key := fname(topFn(in.Parent())) + " " + x.stacks[i]
	if n < 1 {
		return
	}
	if int(s.low[i]) >= n {
		if x.final {
			if _, ok := x.guarded[key]; !ok {
				x.guarded[key] = posOf(in)
			}
		}
		return
	}
	x.report("guarded", key, posOf(in), "%s %s the %s stack where it may be empty", fname(topFn(in.Parent())), what, x.stacks[i])
}

func (x *nesting) step(in ssa.Instruction, s nest) []nest {
	switch t := in.(type) {
	case *ssa.IndexAddr:
		if i := x.stackVal(t.X); i >= 0 {
			if k, ok := constInt(t.Index); ok {
				x.needs(in, s, i, int(k)+1, "reads")
			} else if j, n := x.lenLess(t.Index); j == i {
				x.needs(in, s, i, n, "reads")
			}
		}
	case *ssa.Slice:
		if i := x.stackVal(t.X); i >= 0 {
			if t.High != nil {
				if j, n := x.lenLess(t.High); j == i {
					x.needs(in, s, i, n, "pops")
				}
			} else if t.Low != nil {
				if k, ok := constInt(t.Low); ok {
					x.needs(in, s, i, int(k), "pops")
				}
			}
		}
	case *ssa.Store:
		if i := x.stackAddr(t.Addr); i >= 0 {
			if onFresh(t.Addr) {
				return []nest{s}
			}
			n, ok := x.change(i, t.Val, 0)
			if !ok {
				x.report("balance", fname(topFn(in.Parent()))+" "+x.stacks[i], posOf(in), "%s replaces the %s stack", fname(topFn(in.Parent())), x.stacks[i])
				return nil
			}
			r, ok := x.grow(s, i, n, in)
			if !ok {
				return nil
			}
			return []nest{r}
		}
	case *ssa.Call:
		cc := &t.Call
		if i, n := x.pushPop(cc); i >= 0 {
			r, ok := x.grow(s, i, n, in)
			if !ok {
				return nil
			}
			return []nest{r}
		}
		var out []nest
		found := false
		fns, _ := x.c.callees(cc)
		for _, g := range fns {
			g = x.c.unwrap(g)
			if !x.touching[g] || len(g.Blocks) == 0 {
				if cc.IsInvoke() || len(fns) > 1 {
					out = append(out, s)
				}
				continue
			}
			found = true
			for r := range x.effects(g, s.low, s.root) {
				n, ok := s, true
				for i := range x.stacks {
					if n, ok = x.grow(n, i, int(r.delta[i]), in); !ok {
						break
					}
					n.empty[i] = n.empty[i] || r.empty[i] && r.delta[i] == 0
				}
				n.root = r.root
				if ok {
					out = append(out, n)
				}
			}
		}
		if found {
			return out
		}
	}
	return []nest{s}
}

func onFresh(addr ssa.Value) bool {
	_, ok := rootOfAddr(addr).(*ssa.Alloc)
	return ok
}

// pushPop: a call of a push or pop method on a part of the reader.
func (x *nesting) pushPop(cc *ssa.CallCommon) (int, int) {
	g := cc.StaticCallee()
	if g == nil || g.Signature.Recv() == nil {
		return -1, 0
	}
	name := g.Name()
	n := 0
	switch {
	case strings.HasPrefix(name, "push"):
		n = 1
	case strings.HasPrefix(name, "pop"):
		n = -1
	default:
		return -1, 0
	}
	rest := strings.TrimPrefix(strings.TrimPrefix(name, "push"), "pop")
	if i, ok := x.pushes[typeName(deref(g.Signature.Recv().Type()))+"."+rest]; ok {
		return i, n
	}
	return -1, 0
}

func checkC38(c *Ctx) {
	c.Rule("balance", "starting an element pushes one entry on each nesting stack of the reader, ending it pops one, whatever way is taken through the handlers")
	c.Rule("guarded", "an entry is read or popped only where the stack cannot be empty")
	var starts, ends []*ssa.Function
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() == nil {
			continue
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			switch qualTypeName(fn.Signature.Params().At(i).Type()) {
			case "encoding/xml.StartElement":
				starts = append(starts, fn)
			case "encoding/xml.EndElement":
				ends = append(ends, fn)
			}
		}
	}
	if len(starts) == 0 || len(ends) == 0 {
		c.Bad("balance", "handlers", token.NoPos, "no handler for the start or the end of an element was found")
		return
	}
	owner, _ := deref(starts[0].Signature.Recv().Type()).(*types.Named)
	var st *types.Struct
	if owner != nil {
		st, _ = owner.Underlying().(*types.Struct)
	}
	if st == nil {
		c.Bad("balance", "handlers", token.NoPos, "the reader is not a structure")
		return
	}
	x := &nesting{c: c, owner: owner, idx: map[*types.Var]int{}, pushes: map[string]int{}, touching: map[*ssa.Function]bool{}, memo: map[string]map[nest]bool{}, busy: map[string]bool{}, reported: map[string]bool{}, guarded: map[string]token.Pos{}}
	// the stacks: slices that are appended to and cut by handlers of elements
	grown, cut := map[*types.Var]bool{}, map[*types.Var]bool{}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				v := originVar(fieldOf(fa))
				switch t := s.Val.(type) {
				case *ssa.Call:
					if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						grown[v] = true
					}
				case *ssa.Slice:
					if u, ok := t.X.(*ssa.UnOp); ok {
						if from, ok := u.X.(*ssa.FieldAddr); ok && originVar(fieldOf(from)) == v {
							cut[v] = true
						}
					}
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := originVar(st.Field(i))
		if grown[f] && cut[f] && len(x.stacks) < maxStacks {
			x.idx[f] = len(x.stacks)
			x.stacks = append(x.stacks, f.Name())
		}
	}
	fieldTypes := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		fieldTypes[typeName(deref(st.Field(i).Type()))] = true
	}
	nSlices := len(x.stacks)
	has := map[string]int{}
	for _, fn := range c.Funcs {
		if r := fn.Signature.Recv(); r != nil && fn.Parent() == nil && fieldTypes[typeName(deref(r.Type()))] {
			for _, p := range []string{"push", "pop"} {
				if rest, ok := strings.CutPrefix(fn.Name(), p); ok {
					has[typeName(deref(r.Type()))+"."+rest]++
				}
			}
		}
	}
	var hk []string
	for k, n := range has {
		if n == 2 {
			hk = append(hk, k)
		}
	}
	sort.Strings(hk)
	for _, k := range hk {
		if len(x.stacks) < maxStacks {
			x.pushes[k] = len(x.stacks)
			x.stacks = append(x.stacks, k)
		}
	}
	// the functions that change them
	calleesOf := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Store:
					if x.stackAddr(t.Addr) >= 0 {
						x.touching[fn] = true
					}
				case *ssa.IndexAddr:
					if x.stackVal(t.X) >= 0 {
						x.touching[fn] = true
					}
				case *ssa.Call:
					if i, _ := x.pushPop(&t.Call); i >= 0 {
						x.touching[fn] = true
					}
					fns, _ := c.callees(&t.Call)
					if len(fns) <= 4 {
						for _, g := range fns {
							g = c.unwrap(g)
							if x.reader(g) {
								calleesOf[fn] = append(calleesOf[fn], g)
							}
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for fn, gs := range calleesOf {
			if x.touching[fn] || !x.reader(fn) {
				continue
			}
			for _, g := range gs {
				if x.touching[g] {
					x.touching[fn] = true
					changed = true
				}
			}
		}
	}
	var zero [maxStacks]int8
	run := func() {
		for _, fn := range append(append([]*ssa.Function{}, starts...), ends...) {
			x.effects(fn, zero, false)
		}
	}
	for i := 0; i < 20; i++ {
		x.changed = false
		x.busy = map[string]bool{}
		run()
		if !x.changed {
			break
		}
	}
	x.final = true
	x.busy = map[string]bool{}
	run()
	for k, p := range x.guarded {
		if !x.reported["guarded"+k] {
			c.Ok("guarded", k, p)
		}
	}
	verdict := func(fn *ssa.Function, want int8) {
		res := x.memo[x.key(fn, zero, false)]
		if len(res) == 0 {
			c.Bad("balance", fname(fn), fn.Pos(), "no way through %s could be followed", fname(fn))
			return
		}
		for i, name := range x.stacks {
			key := fname(fn) + " " + name
			bad := ""
			for r := range res {
				d := r.delta[i]
				if d == want || want < 0 && r.empty[i] && d == 0 {
					continue
				}
				// the root object of a document stays below the first element
				if want > 0 && r.root && d == want+1 && i < nSlices {
					continue
				}
				if s := fmt.Sprintf("%+d", d); bad == "" || s < bad {
					bad = s
				}
			}
			// the entries of one element are in all the stacks the root object is in
			if two := func(i int) bool {
				for r := range res {
					if r.delta[i] > 1 {
						return true
					}
				}
				return false
			}; bad == "" && want > 0 && i < nSlices && two(i) {
				for j := 0; j < i; j++ {
					for r := range res {
						if two(j) && r.delta[i] != r.delta[j] {
							bad = fmt.Sprintf("%+d and the %s stack by %+d", r.delta[i], x.stacks[j], r.delta[j])
						}
					}
				}
			}
			if bad == "" {
				c.Ok("balance", key, fn.Pos())
			} else {
				verb := "starting"
				if want < 0 {
					verb = "ending"
				}
				c.Bad("balance", key, fn.Pos(), "%s an element can change the %s stack by %s (%s)", verb, name, bad, fname(fn))
			}
		}
	}
	for _, fn := range starts {
		verdict(fn, 1)
	}
	for _, fn := range ends {
		verdict(fn, -1)
	}
	c.Floor("balance", 8)
	c.Floor("guarded", 4)
}

// reader: a method of the reader (or of what extends it), or a closure in one.
func (x *nesting) reader(g *ssa.Function) bool {
	for _, p := range topFn(g).Params {
		t := deref(p.Type())
		if n, ok := t.(*types.Named); ok && (n == x.owner || x.c.embedsNamed(n, x.owner.Obj().Name())) {
			return true
		}
	}
	return false
}
