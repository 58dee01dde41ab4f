package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path interpreter over symbols: it follows every path of a routine (loops up
// to a few rounds), inlining what its user wants inlined, and records the calls,
// field stores and map updates of each path together with the branches taken.

type fxEvent struct {
	op   string // call, set, mapset, mapdel, mapclear, stop, go
	name string // called name, field, map
	args []string
	res  string
	fn   *ssa.Function
	pos  token.Pos
	cc   *ssa.CallCommon
}

func (e fxEvent) String() string {
	return e.op + " " + e.name + "(" + strings.Join(e.args, ", ") + ")"
}

type fxKey struct {
	f *fxFrame
	v ssa.Value
}

type fxPath struct {
	facts  map[string]bool
	env    map[fxKey]string
	mem    map[string]string
	events []fxEvent
	defers []func(*fxPath, func(*fxPath))
	seq    int
	panics bool
}

func (p *fxPath) clone() *fxPath {
	q := &fxPath{facts: map[string]bool{}, env: map[fxKey]string{}, mem: map[string]string{}, seq: p.seq}
	for k, v := range p.facts {
		q.facts[k] = v
	}
	for k, v := range p.env {
		q.env[k] = v
	}
	for k, v := range p.mem {
		q.mem[k] = v
	}
	q.events = append([]fxEvent(nil), p.events...)
	q.defers = append(q.defers, p.defers...)
	return q
}

// holds: what the path has established about a question.
func (p *fxPath) holds(fact string) (truth, known bool) {
	truth, known = p.facts[fact]
	return
}

func (p *fxPath) isNil(s string) (bool, bool) {
	if s == "nil" {
		return true, true
	}
	if strings.HasPrefix(s, "new:") && !strings.HasSuffix(s, "]") {
		return false, true
	}
	return p.holds("nil:" + s)
}

func eqFact(x, y string) string {
	if x > y {
		x, y = y, x
	}
	return "eq:" + x + "|" + y
}

func (p *fxPath) same(x, y string) bool {
	return x == y || p.facts[eqFact(x, y)]
}

func (p *fxPath) calls(name string) []fxEvent {
	var r []fxEvent
	for _, e := range p.events {
		if e.op == "call" && e.name == name {
			r = append(r, e)
		}
	}
	return r
}

type fxClosure struct {
	fn   *ssa.Function
	mc   *ssa.MakeClosure
	home *fxFrame
}

type fxFrame struct {
	fn    *ssa.Function
	args  map[ssa.Value]string
	funcs map[ssa.Value]*fxClosure
	depth int
	up    *fxFrame
	seq   int
	visit map[*ssa.BasicBlock]int
}

type fx struct {
	c *Ctx
	// inline decides whether a known callee is followed.
	inline func(g *ssa.Function, cc *ssa.CallCommon) bool
	// resolve finds the routine a dynamic call runs (may be nil).
	resolve func(p *fxPath, f *fxFrame, cc *ssa.CallCommon) *ssa.Function
	// pure tells whether a call answers the same whenever it is asked.
	pure func(cc *ssa.CallCommon) bool
	// heads: only the blocks it holds of are visited as often as that, the
	// others once less (may be nil).
	heads func(blk *ssa.BasicBlock) bool
	// literal leaves arithmetic on constants as it is written.
	literal bool
	// rounds bounds the visits of a block.
	rounds  int
	paths   int
	seq     int
	problem string
	limit   int
	// drop leaves out the paths on which a question is answered so (may be nil).
	drop func(key string, truth bool) bool
	// skip finds the block a branch comes together at again, if nothing that
	// matters happens before (may be nil).
	skip func(blk *ssa.BasicBlock) *ssa.BasicBlock
}

func newFx(c *Ctx) *fx {
	return &fx{c: c, rounds: 2, limit: 40000}
}

// defaultPure: questions by name.
func defaultPure(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	for _, pre := range []string{"Get", "Is", "Has", "As", "asE", "as", "Contains", "Size", "EDeliver", "EIs", "EInternal", "EContain", "EClass", "EResource", "EContents", "EDynamic", "EAdapters", "Empty"} {
		if strings.HasPrefix(n, pre) && n != "HasNext" {
			return true
		}
	}
	return false
}

// field: the symbol of a field of the structure denoted by x; embedded
// structures are the structure itself.
func fxField(x string, t types.Type, i int) string {
	pt, ok := t.Underlying().(*types.Pointer)
	if ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprintf("%s.%d", x, i)
	}
	fv := st.Field(i)
	if fv.Embedded() {
		if _, isStruct := fv.Type().Underlying().(*types.Struct); isStruct {
			return x
		}
	}
	return x + "." + fv.Name()
}

func (b *fx) sym(p *fxPath, f *fxFrame, v ssa.Value) string {
	if s, ok := p.env[fxKey{f, v}]; ok {
		return s
	}
	if s, ok := f.args[v]; ok {
		return s
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			if _, isPtr := t.Type().Underlying().(*types.Struct); isPtr {
				return "zero"
			}
			return "nil"
		}
		if t.Value.Kind() == constant.String {
			return "str:" + constant.StringVal(t.Value)
		}
		return "const:" + t.Value.ExactString()
	case *ssa.MakeInterface:
		return b.sym(p, f, t.X)
	case *ssa.ChangeInterface:
		return b.sym(p, f, t.X)
	case *ssa.ChangeType:
		return b.sym(p, f, t.X)
	case *ssa.Convert:
		return b.sym(p, f, t.X)
	case *ssa.TypeAssert:
		return b.sym(p, f, t.X)
	case *ssa.Global:
		return "global:" + t.Name()
	case *ssa.Function:
		return "func:" + t.Name()
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok {
			x := b.sym(p, f, ta.X)
			is := "is:" + x + ":" + types.TypeString(ta.AssertedType, noPkg)
			if t.Index == 1 {
				return is
			}
			// the value of a failed assertion is the zero value
			if ok, known := p.facts[is]; known && !ok && types.IsInterface(ta.AssertedType) {
				return "nil"
			}
			return x
		}
		if s, ok := p.env[fxKey{f, t.Tuple}]; ok {
			return fmt.Sprintf("%s#%d", s, t.Index)
		}
	case *ssa.BinOp:
		x, y := b.sym(p, f, t.X), b.sym(p, f, t.Y)
		if r, ok := foldInt(x, t.Op, y); ok && !b.literal {
			return r
		}
		return "(" + x + t.Op.String() + y + ")"
	case *ssa.UnOp:
		if t.Op == token.NOT {
			return "!" + b.sym(p, f, t.X)
		}
		if t.Op == token.SUB {
			return "-" + b.sym(p, f, t.X)
		}
	case *ssa.FieldAddr:
		return fxField(b.sym(p, f, t.X), t.X.Type(), t.Field)
	case *ssa.Field:
		return fxField(b.sym(p, f, t.X), t.X.Type(), t.Field)
	case *ssa.IndexAddr:
		return b.sym(p, f, t.X) + "[" + b.sym(p, f, t.Index) + "]"
	case *ssa.Index:
		return b.sym(p, f, t.X) + "[" + b.sym(p, f, t.Index) + "]"
	case *ssa.Slice:
		lo, hi := "", ""
		if t.Low != nil {
			lo = b.sym(p, f, t.Low)
		}
		if t.High != nil {
			hi = b.sym(p, f, t.High)
		}
		x := b.sym(p, f, t.X)
		if lo == "" && hi == "" {
			return x
		}
		return x + "[" + lo + ":" + hi + "]"
	}
	return fmt.Sprintf("v%d.%s", f.seq, v.Name())
}

func litInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(strings.TrimPrefix(s, "const:"), 10, 64)
	return n, err == nil && strings.HasPrefix(s, "const:")
}

// foldInt: arithmetic on numbers that are known.
func foldInt(x string, op token.Token, y string) (string, bool) {
	a, ok1 := litInt(x)
	b, ok2 := litInt(y)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return fmt.Sprintf("const:%d", a+b), true
		case token.SUB:
			return fmt.Sprintf("const:%d", a-b), true
		}
	}
	return "", false
}

func noPkg(*types.Package) string { return "" }

// fact normalises a condition to a key and the truth it has when the condition holds.
func (b *fx) fact(p *fxPath, f *fxFrame, v ssa.Value) (string, bool) {
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			k, pol := b.fact(p, f, t.X)
			return k, !pol
		}
	case *ssa.BinOp:
		if t.Op == token.EQL || t.Op == token.NEQ {
			pol := t.Op == token.EQL
			sx, sy := b.sym(p, f, t.X), b.sym(p, f, t.Y)
			return b.equal(p, sx, sy, pol)
		}
		sx, sy := b.sym(p, f, t.X), b.sym(p, f, t.Y)
		if x, ok := litInt(sx); ok {
			if y, ok := litInt(sy); ok {
				return fmt.Sprintf("const:%v", constant.Compare(constant.MakeInt64(x), t.Op, constant.MakeInt64(y))), true
			}
		}
		switch t.Op {
		case token.GTR:
			return "(" + sy + "<" + sx + ")", true
		case token.LEQ:
			return "(" + sy + "<" + sx + ")", false
		case token.GEQ:
			return "(" + sx + "<" + sy + ")", false
		}
	}
	s := b.sym(p, f, v)
	pol := true
	for strings.HasPrefix(s, "!") {
		s, pol = s[1:], !pol
	}
	return s, pol
}

// truth: the question a branch depends on.
func (b *fx) truth(p *fxPath, f *fxFrame, v ssa.Value) (string, bool) {
	s, pol := b.sym(p, f, v), true
	if bo, ok := v.(*ssa.BinOp); ok {
		if _, have := p.env[fxKey{f, bo}]; !have {
			return b.fact(p, f, v)
		}
	}
	for strings.HasPrefix(s, "!") {
		s, pol = s[1:], !pol
	}
	return s, pol
}

func (b *fx) equal(p *fxPath, sx, sy string, pol bool) (string, bool) {
	if sy == "nil" {
		sx, sy = sy, sx
	}
	if sx == "nil" {
		if n, known := p.isNil(sy); known {
			return fmt.Sprintf("const:%v", n), pol
		}
		return "nil:" + sy, pol
	}
	if sx == sy {
		return "const:true", pol
	}
	lit := func(s string) bool { return strings.HasPrefix(s, "const:") || strings.HasPrefix(s, "str:") }
	if lit(sx) && lit(sy) {
		return "const:false", pol
	}
	if (sx == "const:true" || sx == "const:false") && !lit(sy) {
		return sy, pol == (sx == "const:true")
	}
	if (sy == "const:true" || sy == "const:false") && !lit(sx) {
		return sx, pol == (sy == "const:true")
	}
	return eqFact(sx, sy), pol
}

// run interprets the function with the given arguments and reports each path.
func (b *fx) run(fn *ssa.Function, args []string, facts map[string]bool, done func(*fxPath, []string)) {
	p := &fxPath{facts: map[string]bool{}, env: map[fxKey]string{}, mem: map[string]string{}}
	for k, v := range facts {
		p.facts[k] = v
	}
	b.paths = 0
	f := &fxFrame{fn: fn, args: map[ssa.Value]string{}, funcs: map[ssa.Value]*fxClosure{}, visit: map[*ssa.BasicBlock]int{}}
	for i, prm := range fn.Params {
		if i < len(args) {
			f.args[prm] = args[i]
		} else {
			f.args[prm] = prm.Name()
		}
	}
	if len(fn.Blocks) == 0 {
		b.problem = "no body"
		return
	}
	b.block(p, f, nil, fn.Blocks[0], func(q *fxPath, res []string) {
		b.drain(q, func(q *fxPath) {
			b.paths++
			done(q, res)
		})
	})
}

func (b *fx) drain(q *fxPath, next func(*fxPath)) {
	if n := len(q.defers); n > 0 {
		d := q.defers[n-1]
		q.defers = q.defers[:n-1]
		d(q, func(q *fxPath) { b.drain(q, next) })
		return
	}
	next(q)
}

func (b *fx) block(p *fxPath, f *fxFrame, from, blk *ssa.BasicBlock, done func(*fxPath, []string)) {
	if b.paths > b.limit {
		b.problem = "too many paths"
		return
	}
	if f.visit[blk] >= b.rounds || b.heads != nil && f.visit[blk] >= b.rounds-1 && !b.heads(blk) {
		return
	}
	f.visit[blk]++
	defer func() { f.visit[blk]-- }()
	if from != nil {
		vals := map[ssa.Value]string{}
		for _, in := range blk.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, pr := range blk.Preds {
					if pr == from {
						vals[ph] = b.sym(p, f, ph.Edges[i])
					}
				}
			}
		}
		// a new round forgets what the block computed in the last one
		for _, in := range blk.Instrs {
			if v, ok := in.(ssa.Value); ok {
				delete(p.env, fxKey{f, v})
			}
		}
		for k, v := range vals {
			p.env[fxKey{f, k}] = v
		}
	}
	b.instrs(p, f, blk, 0, done)
}

func (b *fx) fresh(p *fxPath, what string) string {
	p.seq++
	return fmt.Sprintf("new:%s#%d", what, p.seq)
}

func (b *fx) load(p *fxPath, addr string) string {
	if s, ok := p.mem[addr]; ok {
		return s
	}
	return addr
}

func (b *fx) instrs(p *fxPath, f *fxFrame, blk *ssa.BasicBlock, i int, done func(*fxPath, []string)) {
	for ; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		switch t := in.(type) {
		case *ssa.Alloc:
			if _, ok := p.env[fxKey{f, t}]; !ok {
				name := typeName(t.Type())
				if name == "" {
					name = "cell"
				}
				s := b.fresh(p, name)
				p.env[fxKey{f, t}] = s
				switch t.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
				case *types.Basic:
					p.mem[s] = "zero"
					if bt := t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); bt.Info()&types.IsBoolean != 0 {
						p.mem[s] = "const:false"
					} else if bt.Info()&types.IsInteger != 0 {
						p.mem[s] = "const:0"
					} else if bt.Info()&types.IsString != 0 {
						p.mem[s] = "str:"
					}
				case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Signature:
					p.mem[s] = "nil"
				}
			}
		case *ssa.MakeMap:
			p.env[fxKey{f, t}] = b.fresh(p, "map")
		case *ssa.MakeSlice:
			p.env[fxKey{f, t}] = b.fresh(p, "slice")
		case *ssa.MakeClosure:
			p.env[fxKey{f, t}] = b.fresh(p, "func:"+t.Fn.Name())
		case *ssa.Lookup:
			x, k := b.sym(p, f, t.X), b.sym(p, f, t.Index)
			s := "look(" + x + "," + k + ")"
			// the last update of that key on this path
			for j := len(p.events) - 1; j >= 0; j-- {
				e := p.events[j]
				if e.op == "mapset" && e.name == x && e.args[0] == k {
					s = e.args[1]
					break
				}
				if (e.op == "mapset" || e.op == "mapdel" || e.op == "mapclear") && e.name == x {
					break
				}
			}
			if !t.CommaOk {
				p.env[fxKey{f, t}] = s
				continue
			}
			for _, r := range *t.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if e.Index == 0 {
						p.env[fxKey{f, e}] = s
					} else {
						p.env[fxKey{f, e}] = "in:look(" + x + "," + k + ")"
					}
				}
			}
		case *ssa.MapUpdate:
			x := b.sym(p, f, t.Map)
			p.events = append(p.events, fxEvent{op: "mapset", name: x, args: []string{b.sym(p, f, t.Key), b.sym(p, f, t.Value)}, fn: f.fn, pos: t.Pos()})
		case *ssa.Store:
			a := b.sym(p, f, t.Addr)
			v := b.sym(p, f, t.Val)
			if strings.HasPrefix(v, "new:func:") || f.funcs[t.Val] != nil {
				if cl := b.closure(f, t.Val); cl != nil {
					f.funcs[t.Addr] = cl
				}
			}
			p.mem[a] = v
			if v == "zero" || v == "zero:" {
				// the zero value of a structure
			}
			if !strings.HasPrefix(a, "new:cell") && !strings.HasPrefix(a, "global:init$") {
				p.events = append(p.events, fxEvent{op: "set", name: a, args: []string{v}, fn: f.fn, pos: t.Pos()})
			}
		case *ssa.UnOp:
			if t.Op == token.MUL {
				p.env[fxKey{f, t}] = b.load(p, b.sym(p, f, t.X))
			} else {
				p.env[fxKey{f, t}] = b.sym(p, f, t)
			}
		case *ssa.Next:
			s := b.sym(p, f, t.Iter)
			p.seq++
			p.env[fxKey{f, t}] = fmt.Sprintf("next(%s)@%d", s, p.seq)
		case *ssa.Range:
			p.env[fxKey{f, t}] = "range(" + b.sym(p, f, t.X) + ")"
		case *ssa.BinOp:
			switch t.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				// a question: named by what it asks
				k, pol := b.fact(p, f, t)
				if v, known := p.facts[k]; known {
					k = fmt.Sprintf("const:%v", v == pol)
				} else if k == "const:true" || k == "const:false" {
					k = fmt.Sprintf("const:%v", (k == "const:true") == pol)
				} else if !pol {
					k = "!" + k
				}
				p.env[fxKey{f, t}] = k
			default:
				p.env[fxKey{f, t}] = b.sym(p, f, t)
			}
		case *ssa.Defer:
			d := t
			fr := f
			p.defers = append(p.defers, func(q *fxPath, next func(*fxPath)) {
				if !b.call(q, fr, nil, &d.Call, func(q *fxPath, _ []string) { next(q) }) {
					next(q)
				}
			})
		case *ssa.RunDefers:
		case *ssa.Go:
			p.events = append(p.events, fxEvent{op: "go", name: calleeName(&t.Call), fn: f.fn, pos: t.Pos(), cc: &t.Call})
		case *ssa.Call:
			rest := i + 1
			call := t
			if b.call(p, f, call, &call.Call, func(q *fxPath, res []string) {
				switch {
				case len(res) == 1:
					q.env[fxKey{f, call}] = res[0]
				case len(res) > 1:
					for _, r := range *call.Referrers() {
						if e, ok := r.(*ssa.Extract); ok {
							q.env[fxKey{f, e}] = res[e.Index]
						}
					}
				}
				b.instrs(q, f, blk, rest, done)
			}) {
				return
			}
		case *ssa.If:
			key, pol := b.truth(p, f, t.Cond)
			want, known := p.facts[key]
			if key == "const:true" || key == "const:false" {
				want, known = key == "const:true", true
			}
			if b.skip != nil && !known {
				if j := b.skip(blk); j != nil {
					for _, in := range j.Instrs {
						if ph, ok := in.(*ssa.Phi); ok {
							p.seq++
							p.env[fxKey{f, ph}] = fmt.Sprintf("either@%d", p.seq)
						}
					}
					b.block(p, f, nil, j, done)
					return
				}
			}
			for n, s := range blk.Succs {
				truth := (n == 0) == pol
				if known && want != truth || b.drop != nil && b.drop(key, truth) {
					continue
				}
				q := p
				if !known {
					q = p.clone()
					q.facts[key] = truth
				}
				b.block(q, f, blk, s, done)
			}
			return
		case *ssa.Jump:
			b.block(p, f, blk, blk.Succs[0], done)
			return
		case *ssa.Return:
			var res []string
			for _, r := range t.Results {
				res = append(res, b.sym(p, f, r))
			}
			done(p, res)
			return
		case *ssa.Panic:
			return
		}
	}
}

// closure: the function literal a value denotes.
func (b *fx) closure(f *fxFrame, v ssa.Value) *fxClosure {
	switch t := v.(type) {
	case *ssa.MakeClosure:
		return &fxClosure{fn: t.Fn.(*ssa.Function), mc: t, home: f}
	case *ssa.Function:
		if len(t.Blocks) > 0 {
			return &fxClosure{fn: t, home: f}
		}
	case *ssa.ChangeType:
		return b.closure(f, t.X)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if cl := f.funcs[t.X]; cl != nil {
				return cl
			}
			if fv, ok := t.X.(*ssa.FreeVar); ok {
				return f.funcs[fv]
			}
		}
	}
	return f.funcs[v]
}

// call handles a call; true when the continuation has been run.
func (b *fx) call(p *fxPath, f *fxFrame, at *ssa.Call, cc *ssa.CallCommon, next func(*fxPath, []string)) bool {
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		var as []string
		for _, a := range cc.Args {
			as = append(as, b.sym(p, f, a))
		}
		switch bi.Name() {
		case "delete":
			p.events = append(p.events, fxEvent{op: "mapdel", name: as[0], args: as[1:], fn: f.fn, pos: cc.Pos()})
		case "len":
			if _, isMap := cc.Args[0].Type().Underlying().(*types.Map); isMap {
				p.events = append(p.events, fxEvent{op: "len", name: as[0], fn: f.fn, pos: cc.Pos()})
			}
		case "clear":
			p.events = append(p.events, fxEvent{op: "mapclear", name: as[0], fn: f.fn, pos: cc.Pos()})
		}
		if at == nil {
			return false
		}
		p.env[fxKey{f, at}] = bi.Name() + "(" + strings.Join(as, ",") + ")"
		return false
	}
	var g *ssa.Function
	cl := b.closure(f, cc.Value)
	if cc.IsInvoke() {
		cl = nil
		if b.resolve != nil {
			g = b.resolve(p, f, cc)
		}
	} else if cl != nil {
		g = cl.fn
	} else if s := cc.StaticCallee(); s != nil {
		g = originFunc(s)
	}
	recursive := false
	for up := f; up != nil; up = up.up {
		if g != nil && up.fn == g {
			recursive = true
		}
	}
	inline := g != nil && len(g.Blocks) > 0 && !recursive && f.depth < 10 &&
		(cl != nil && cl.mc != nil || b.c.isEcore(pkgPath(g)) && b.inline != nil && b.inline(g, cc))
	args := cc.Args
	if cc.IsInvoke() && g != nil {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	if !inline {
		var as []string
		if cc.IsInvoke() {
			as = append(as, b.sym(p, f, cc.Value))
		}
		for _, a := range cc.Args {
			as = append(as, b.sym(p, f, a))
		}
		name := calleeName(cc)
		if name == "" {
			name = "func"
			as = append([]string{b.sym(p, f, cc.Value)}, as...)
			if u, ok := cc.Value.(*ssa.UnOp); ok {
				if fv := addrField(u.X); fv != nil {
					name = fv.Name()
				}
			}
		}
		pure := defaultPure(cc)
		if b.pure != nil {
			pure = b.pure(cc)
		}
		s := name + "(" + strings.Join(as, ",") + ")"
		if !pure {
			p.seq++
			s = fmt.Sprintf("%s@%d(%s)", name, p.seq, strings.Join(as, ","))
		}
		p.events = append(p.events, fxEvent{op: "call", name: name, args: as, res: s, fn: f.fn, pos: cc.Pos(), cc: cc})
		if at != nil {
			p.env[fxKey{f, at}] = s
		}
		// a function literal given away may run any number of times
		var body *fxClosure
		for _, a := range cc.Args {
			if x := b.closure(f, a); x != nil && x.mc != nil {
				body = x
			}
		}
		if body == nil || g != nil && cc.IsInvoke() {
			return false
		}
		b.repeat(p, f, body, s, b.rounds, next, at)
		return true
	}
	b.seq++
	nf := &fxFrame{fn: g, args: map[ssa.Value]string{}, funcs: map[ssa.Value]*fxClosure{}, depth: f.depth + 1, up: f, seq: b.seq, visit: map[*ssa.BasicBlock]int{}}
	for i, prm := range g.Params {
		if i < len(args) {
			nf.args[prm] = b.sym(p, f, args[i])
			if x := b.closure(f, args[i]); x != nil {
				nf.funcs[prm] = x
			}
		}
	}
	b.enter(p, f, nf, cl, next)
	return true
}

func (b *fx) enter(p *fxPath, f, nf *fxFrame, cl *fxClosure, next func(*fxPath, []string)) {
	if cl != nil && cl.mc != nil {
		for i, fv := range nf.fn.FreeVars {
			bound := cl.mc.Bindings[i]
			nf.args[fv] = b.sym(p, cl.home, bound)
			if x := b.closure(cl.home, bound); x != nil {
				nf.funcs[fv] = x
			} else if x := cl.home.funcs[bound]; x != nil {
				nf.funcs[fv] = x
			}
		}
	}
	saved := p.defers
	p.defers = nil
	b.block(p, nf, nil, nf.fn.Blocks[0], func(q *fxPath, res []string) {
		b.drain(q, func(q *fxPath) {
			q.defers = append([]func(*fxPath, func(*fxPath)){}, saved...)
			next(q, res)
		})
	})
}

// repeat runs a function literal handed to an unknown routine zero or more
// times; a literal that answers false ends the repetition.
func (b *fx) repeat(p *fxPath, f *fxFrame, cl *fxClosure, each string, left int, next func(*fxPath, []string), at *ssa.Call) {
	end := func(q *fxPath) {
		next(q, []string{each})
	}
	end(p.clone())
	if left == 0 {
		return
	}
	q := p.clone()
	b.seq++
	nf := &fxFrame{fn: cl.fn, args: map[ssa.Value]string{}, funcs: map[ssa.Value]*fxClosure{}, depth: f.depth + 1, up: f, seq: b.seq, visit: map[*ssa.BasicBlock]int{}}
	q.seq++
	for i, prm := range cl.fn.Params {
		nf.args[prm] = fmt.Sprintf("each%d(%s)@%d", i, each, q.seq)
	}
	q.events = append(q.events, fxEvent{op: "round", name: each, args: []string{fmt.Sprintf("each0(%s)@%d", each, q.seq)}, fn: f.fn})
	b.enter(q, f, nf, cl, func(q *fxPath, res []string) {
		if len(res) == 1 {
			if res[0] == "const:false" {
				q.events = append(q.events, fxEvent{op: "stop", name: each, fn: f.fn})
				end(q)
				return
			}
		}
		b.repeat(q, f, cl, each, left-1, next, at)
	})
}

// sigRecv: the type of the receiver, nil for a function.
func sigRecv(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// methodOf is the method a named type has, declared or promoted.
func (p *Program) methodOf(n *types.Named, name string) *ssa.Function {
	sel := types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	m, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	return p.byObj[m.Origin()]
}
