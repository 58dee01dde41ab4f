package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C41", checkC41) }

// idTables are the fields of a structure that map objects to identifiers and
// identifiers to objects, and its other maps.
type idTables struct {
	owner    string
	fwd, bwd string // object to identifier, identifier to object
	other    []string
	idType   types.Type
}

// bijections: confirmed instances.
var bijections = map[string]bool{"EObjectIDManagerImpl": true, "UniqueIDManager": true}

type tableWrite struct {
	table, key, val string
	del             bool
}

// tablePath is what one path has established.
type tablePath struct {
	facts  map[string]bool
	env    map[envKey]string
	writes []tableWrite
	reset  map[string]bool
	calls  []string // calls of function fields, with their arguments
	defers []func(*tablePath, func(*tablePath))
}

type envKey struct {
	f *tableFrame
	v ssa.Value
}

func (p *tablePath) clone() *tablePath {
	q := &tablePath{facts: map[string]bool{}, env: map[envKey]string{}, reset: map[string]bool{}}
	for k, v := range p.facts {
		q.facts[k] = v
	}
	for k, v := range p.env {
		q.env[k] = v
	}
	for k, v := range p.reset {
		q.reset[k] = v
	}
	q.writes = append([]tableWrite(nil), p.writes...)
	q.calls = append([]string(nil), p.calls...)
	q.defers = append(q.defers, p.defers...)
	return q
}

type tableFrame struct {
	fn    *ssa.Function
	args  map[ssa.Value]string
	funcs map[ssa.Value]*tableClosure
	depth int
	up    *tableFrame
	seq   int
}

type tableClosure struct {
	fn   *ssa.Function
	mc   *ssa.MakeClosure
	home *tableFrame
}

type bijection struct {
	c       *Ctx
	t       *idTables
	paths   int
	seq     int
	touch   map[*ssa.Function]bool
	problem string
	visit   map[*tableFrame]map[*ssa.BasicBlock]int
}

// ofStruct: the named struct (generic origin) a pointer leads to.
func originName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Origin().Obj().Name()
	}
	return ""
}

// table: the map field the value is loaded from or the address denotes.
func (b *bijection) table(v ssa.Value) (string, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || originName(fa.X.Type()) != b.t.owner {
		return "", false
	}
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	name := st.Field(fa.Field).Name()
	if name == b.t.fwd || name == b.t.bwd {
		return name, true
	}
	for _, o := range b.t.other {
		if o == name {
			return name, true
		}
	}
	return "", false
}

func (b *bijection) touches(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if v, ok := b.touch[fn]; ok {
		return v
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	res := false
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			switch t := in.(type) {
			case *ssa.FieldAddr:
				if _, ok := b.table(t); ok {
					res = true
				}
			case *ssa.MakeClosure:
				if b.touches(t.Fn.(*ssa.Function), seen) {
					res = true
				}
			case ssa.CallInstruction:
				if g := t.Common().StaticCallee(); g != nil && b.c.isEcore(pkgPath(g)) && len(g.Blocks) > 0 && b.touches(originFunc(g), seen) {
					res = true
				}
			}
		}
	}
	if res || len(seen) == 1 {
		b.touch[fn] = res
	}
	return res
}

func originFunc(g *ssa.Function) *ssa.Function {
	if o := g.Origin(); o != nil {
		return o
	}
	return g
}

func (b *bijection) sym(p *tablePath, f *tableFrame, v ssa.Value) string {
	if s, ok := p.env[envKey{f, v}]; ok {
		return s
	}
	if s, ok := f.args[v]; ok {
		return s
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return "nil"
		}
		return "const:" + t.Value.ExactString()
	case *ssa.MakeInterface:
		return b.sym(p, f, t.X)
	case *ssa.ChangeInterface:
		return b.sym(p, f, t.X)
	case *ssa.ChangeType:
		return b.sym(p, f, t.X)
	case *ssa.TypeAssert:
		return b.sym(p, f, t.X)
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok {
			if t.Index == 0 {
				return b.sym(p, f, ta.X)
			}
			return "is:" + b.sym(p, f, ta.X) + ":" + types.TypeString(ta.AssertedType, nil)
		}
		if s, ok := p.env[envKey{f, t.Tuple}]; ok {
			return fmt.Sprintf("%s#%d", s, t.Index)
		}
	case *ssa.BinOp:
		return "(" + b.sym(p, f, t.X) + t.Op.String() + b.sym(p, f, t.Y) + ")"
	case *ssa.UnOp:
		if t.Op == token.NOT {
			return "!" + b.sym(p, f, t.X)
		}
	case *ssa.FieldAddr:
		return b.sym(p, f, t.X) + "." + fmt.Sprint(t.Field)
	}
	return fmt.Sprintf("v%d.%s", f.seq, v.Name())
}

// lookup: what the table holds for the key at this point of the path.
func (b *bijection) lookup(p *tablePath, table, key string) (val string, present, known bool) {
	for i := len(p.writes) - 1; i >= 0; i-- {
		w := p.writes[i]
		if w.table == table && w.key == key {
			if w.del {
				return table + "0[" + key + "]", false, true
			}
			return w.val, true, true
		}
	}
	if p.reset[table] {
		return "none", false, true
	}
	v := table + "0[" + key + "]"
	if x, ok := p.facts["in:"+v]; ok {
		return v, x, true
	}
	return v, false, false
}

// absent: the path has established that the table had nothing for the key.
func (b *bijection) absent(p *tablePath, table, key string) bool {
	v := table + "0[" + key + "]"
	if x, ok := p.facts["in:"+v]; ok && !x {
		return true
	}
	return p.facts["empty:"+v] || p.facts["nil:"+v]
}

func (b *bijection) distinct(p *tablePath, x, y string) bool {
	if x == y {
		return false
	}
	if x > y {
		x, y = y, x
	}
	eq, ok := p.facts["eq:"+x+"|"+y]
	return ok && !eq
}

func (b *bijection) same(p *tablePath, x, y string) bool {
	if x == y {
		return true
	}
	if x > y {
		x, y = y, x
	}
	return p.facts["eq:"+x+"|"+y]
}

// fact normalises a condition to a key and the truth it has when the condition holds.
func (b *bijection) fact(p *tablePath, f *tableFrame, v ssa.Value) (string, bool) {
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			k, pol := b.fact(p, f, t.X)
			return k, !pol
		}
	case *ssa.BinOp:
		x, y := t.X, t.Y
		op := t.Op
		if _, isConst := x.(*ssa.Const); isConst {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if call, ok := x.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if n, ok := constInt(y); ok {
					k := "empty:" + b.sym(p, f, call.Call.Args[0])
					switch {
					case op == token.GTR && n == 0, op == token.NEQ && n == 0, op == token.GEQ && n == 1:
						return k, false
					case op == token.EQL && n == 0, op == token.LSS && n == 1, op == token.LEQ && n == 0:
						return k, true
					}
				}
			}
		}
		if op == token.EQL || op == token.NEQ {
			pol := op == token.EQL
			if isNilConst(y) {
				return "nil:" + b.sym(p, f, x), pol
			}
			if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" {
				return "empty:" + b.sym(p, f, x), pol
			}
			sx, sy := b.sym(p, f, x), b.sym(p, f, y)
			if sx > sy {
				sx, sy = sy, sx
			}
			return "eq:" + sx + "|" + sy, pol
		}
	}
	s := b.sym(p, f, v)
	if strings.HasPrefix(s, "!") {
		return s[1:], false
	}
	return s, true
}

// run follows every path from the block, calling done with each path's state.
func (b *bijection) run(p *tablePath, f *tableFrame, from, blk *ssa.BasicBlock, done func(*tablePath, []string)) {
	if b.paths > 60000 {
		b.problem = "too many paths"
		return
	}
	if b.visit[f] == nil {
		b.visit[f] = map[*ssa.BasicBlock]int{}
	}
	if b.visit[f][blk] >= 2 {
		return
	}
	b.visit[f][blk]++
	defer func() { b.visit[f][blk]-- }()
	if from != nil {
		vals := map[ssa.Value]string{}
		for _, in := range blk.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, pr := range blk.Preds {
					if pr == from {
						vals[ph] = b.sym(p, f, ph.Edges[i])
					}
				}
			}
		}
		for k, v := range vals {
			p.env[envKey{f, k}] = v
		}
	}
	b.instrs(p, f, blk, 0, done)
}

func (b *bijection) instrs(p *tablePath, f *tableFrame, blk *ssa.BasicBlock, i int, done func(*tablePath, []string)) {
	for ; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		switch t := in.(type) {
		case *ssa.Lookup:
			if tb, ok := b.table(t.X); ok {
				key := b.sym(p, f, t.Index)
				val, present, known := b.lookup(p, tb, key)
				if !t.CommaOk {
					p.env[envKey{f, t}] = val
					continue
				}
				for _, r := range *t.Referrers() {
					if e, ok := r.(*ssa.Extract); ok {
						if e.Index == 0 {
							p.env[envKey{f, e}] = val
						} else {
							s := "in:" + val
							if known {
								s = fmt.Sprintf("const:%v", present)
							}
							p.env[envKey{f, e}] = s
						}
					}
				}
			}
		case *ssa.MapUpdate:
			if tb, ok := b.table(t.Map); ok {
				p.writes = append(p.writes, tableWrite{table: tb, key: b.sym(p, f, t.Key), val: b.sym(p, f, t.Value)})
			}
		case *ssa.Store:
			if fa, ok := t.Addr.(*ssa.FieldAddr); ok {
				if tb, ok := b.table(fa); ok {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					if _, mk := t.Val.(*ssa.MakeMap); !mk {
						b.problem = "replaces the table " + tb + " by a map of unknown contents"
					}
					b.resetTable(p, tb)
				}
				continue
			}
			p.env[envKey{f, t.Addr}] = b.sym(p, f, t.Val)
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if _, ok := t.X.(*ssa.FieldAddr); ok {
					continue
				}
				if s, ok := p.env[envKey{f, t.X}]; ok {
					p.env[envKey{f, t}] = s
				} else if fv, ok := t.X.(*ssa.FreeVar); ok {
					if s, ok := f.args[fv]; ok {
						p.env[envKey{f, t}] = s
					}
				}
			}
		case *ssa.Defer:
			d := t
			fr := f
			p.defers = append(p.defers, func(q *tablePath, next func(*tablePath)) {
				b.call(q, fr, nil, &d.Call, func(q *tablePath, _ []string) { next(q) })
			})
		case *ssa.Call:
			rest := i + 1
			call := t
			if b.call(p, f, call, &call.Call, func(q *tablePath, res []string) {
				switch {
				case len(res) == 1:
					q.env[envKey{f, call}] = res[0]
				case len(res) > 1:
					for _, r := range *call.Referrers() {
						if e, ok := r.(*ssa.Extract); ok {
							q.env[envKey{f, e}] = res[e.Index]
						}
					}
				}
				b.instrs(q, f, blk, rest, done)
			}) {
				return
			}
		case *ssa.If:
			key, pol := b.fact(p, f, t.Cond)
			want, known := p.facts[key], false
			if _, ok := p.facts[key]; ok {
				known = true
			}
			if key == "const:true" || key == "const:false" {
				want, known = key == "const:true", true
			}
			for n, s := range blk.Succs {
				truth := (n == 0) == pol
				if known && want != truth {
					continue
				}
				q := p.clone()
				q.facts[key] = truth
				b.run(q, f, blk, s, done)
			}
			return
		case *ssa.Jump:
			b.run(p, f, blk, blk.Succs[0], done)
			return
		case *ssa.Return:
			var res []string
			for _, r := range t.Results {
				res = append(res, b.sym(p, f, r))
			}
			if f.up == nil {
				b.paths++
			}
			done(p, res)
			return
		case *ssa.Panic:
			return
		}
	}
}

func (b *bijection) resetTable(p *tablePath, tb string) {
	p.reset[tb] = true
	var kept []tableWrite
	for _, w := range p.writes {
		if w.table != tb {
			kept = append(kept, w)
		}
	}
	p.writes = kept
}

// call handles a call; true when the continuation has been (or will not be) run.
func (b *bijection) call(p *tablePath, f *tableFrame, at *ssa.Call, cc *ssa.CallCommon, next func(*tablePath, []string)) bool {
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete":
			if tb, ok := b.table(cc.Args[0]); ok {
				p.writes = append(p.writes, tableWrite{table: tb, key: b.sym(p, f, cc.Args[1]), del: true})
			}
		case "clear":
			if tb, ok := b.table(cc.Args[0]); ok {
				b.resetTable(p, tb)
			}
		}
		if at == nil {
			next(p, nil)
			return true
		}
		return false
	}
	var g *ssa.Function
	var cl *tableClosure
	if s := cc.StaticCallee(); s != nil && cc.Value != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			cl = &tableClosure{fn: mc.Fn.(*ssa.Function), mc: mc, home: f}
			g = cl.fn
		} else {
			g = originFunc(s)
		}
	} else if !cc.IsInvoke() {
		switch t := cc.Value.(type) {
		case *ssa.Parameter:
			cl = f.funcs[t]
		}
		if cl != nil {
			g = cl.fn
		}
	}
	inline := g != nil && len(g.Blocks) > 0 && b.c.isEcore(pkgPath(g)) && f.depth < 8 && (b.touches(g, map[*ssa.Function]bool{}) || cl != nil || len(g.Blocks) == 1 || closureArg2(cc))
	for up := f; up != nil && inline; up = up.up {
		if up.fn == g {
			inline = false
		}
	}
	if !inline {
		if at != nil {
			var as []string
			for _, a := range cc.Args {
				as = append(as, b.sym(p, f, a))
			}
			name := calleeName(cc)
			if u, ok := cc.Value.(*ssa.UnOp); ok && !cc.IsInvoke() {
				if fv := addrField(u.X); fv != nil {
					name = fv.Name()
					p.calls = append(p.calls, name+"("+strings.Join(as, ",")+")")
				}
			}
			s := fmt.Sprintf("%s@%d(%s)", name, f.seq*1000+int(at.Pos()), strings.Join(as, ","))
			if g != nil && !b.c.isEcore(pkgPath(g)) {
				s = name + "(" + strings.Join(as, ",") + ")"
			}
			p.env[envKey{f, at}] = s
			return false
		}
		next(p, nil)
		return true
	}
	b.seq++
	nf := &tableFrame{fn: g, args: map[ssa.Value]string{}, funcs: map[ssa.Value]*tableClosure{}, depth: f.depth + 1, up: f, seq: b.seq}
	for i, prm := range g.Params {
		if i < len(cc.Args) {
			nf.args[prm] = b.sym(p, f, cc.Args[i])
			switch t := cc.Args[i].(type) {
			case *ssa.MakeClosure:
				nf.funcs[prm] = &tableClosure{fn: t.Fn.(*ssa.Function), mc: t, home: f}
			case *ssa.Parameter:
				if x := f.funcs[t]; x != nil {
					nf.funcs[prm] = x
				}
			}
		}
	}
	var cells [][2]ssa.Value
	if cl != nil && cl.mc != nil {
		for i, fv := range g.FreeVars {
			bound := cl.mc.Bindings[i]
			nf.args[fv] = b.sym(p, cl.home, bound)
			if s, ok := p.env[envKey{cl.home, bound}]; ok {
				p.env[envKey{nf, fv}] = s
				cells = append(cells, [2]ssa.Value{fv, bound})
			} else if _, isCell := bound.(*ssa.Alloc); isCell {
				cells = append(cells, [2]ssa.Value{fv, bound})
			}
		}
	}
	saved := p.defers
	p.defers = nil
	b.run(p, nf, nil, g.Blocks[0], func(q *tablePath, res []string) {
		var drain func(q *tablePath)
		drain = func(q *tablePath) {
			if n := len(q.defers); n > 0 {
				d := q.defers[n-1]
				q.defers = q.defers[:n-1]
				d(q, drain)
				return
			}
			q.defers = append([]func(*tablePath, func(*tablePath)){}, saved...)
			for _, ce := range cells {
				if s, ok := q.env[envKey{nf, ce[0]}]; ok {
					q.env[envKey{cl.home, ce[1]}] = s
				}
			}
			next(q, res)
		}
		drain(q)
	})
	return true
}

func closureArg2(cc *ssa.CallCommon) bool {
	for _, a := range cc.Args {
		if _, ok := a.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

func (b *bijection) partner(t string) string {
	if t == b.t.fwd {
		return b.t.bwd
	}
	return b.t.fwd
}

// final: the last write of a key, and the writes after it that may have undone it.
func (b *bijection) final(p *tablePath, table, key string) (*tableWrite, []tableWrite) {
	for i := len(p.writes) - 1; i >= 0; i-- {
		if p.writes[i].table == table && b.same(p, p.writes[i].key, key) {
			var later []tableWrite
			for _, w := range p.writes[i+1:] {
				if w.table == table && !b.distinct(p, w.key, key) {
					later = append(later, w)
				}
			}
			return &p.writes[i], later
		}
	}
	return nil, nil
}

// gone: whatever the table had under the key at the start is no longer there.
func (b *bijection) gone(p *tablePath, table, key string) bool {
	if p.reset[table] {
		return true
	}
	w, _ := b.final(p, table, key)
	return w != nil
}

func (b *bijection) judge(p *tablePath, name string, fn *ssa.Function, res []string, bad func(rule, what string)) {
	show := func(s string) string { return s }
	tables := []string{b.t.fwd, b.t.bwd}
	if p.reset[b.t.fwd] != p.reset[b.t.bwd] {
		bad("clear", "empties one of the tables only")
	}
	if p.reset[b.t.fwd] {
		for _, o := range b.t.other {
			if !p.reset[o] {
				bad("clear", "empties the tables and leaves "+o+" as it was")
			}
		}
	}
	changed := false
	for _, t := range tables {
		u := b.partner(t)
		for i, w := range p.writes {
			if w.table != t {
				continue
			}
			changed = true
			overwritten := false
			for _, x := range p.writes[i+1:] {
				if x.table == t && b.same(p, x.key, w.key) {
					overwritten = true
				}
			}
			if !w.del && !overwritten {
				// the entry survives, and its partner is there
				if _, later := b.final(p, t, w.key); len(later) > 0 {
					bad("pair", fmt.Sprintf("an entry of %s can be lost again after it was made", t))
				}
				x, later := b.final(p, u, w.val)
				if x == nil || x.del || !b.same(p, x.val, w.key) {
					bad("pair", fmt.Sprintf("makes an entry in %s without the matching one in %s", t, u))
				} else if len(later) > 0 {
					bad("pair", fmt.Sprintf("the entry of %s matching one in %s can be lost again", u, t))
				}
				if isString(b.t.idType) {
					id := w.val
					if t == b.t.bwd {
						id = w.key
					}
					if e, ok := p.facts["empty:"+id]; !ok || e {
						bad("pair", "the empty identifier can enter the tables")
					}
				}
			}
			if overwritten {
				continue
			}
			// what was under that key before no longer refers to it
			old := t + "0[" + w.key + "]"
			switch {
			case p.reset[t], b.absent(p, t, w.key):
			case !w.del && b.same(p, old, w.val):
			case b.gone(p, u, old):
			case w.del && b.fromPartner(p, t, w.key):
				// the key is what the partner held; its entry there is gone
			default:
				rule := "stale"
				if w.del {
					bad(rule, fmt.Sprintf("removes an entry of %s and leaves the one of %s that refers to it", t, u))
				} else {
					bad(rule, fmt.Sprintf("replaces what %s held for a key and leaves the entry of %s that refers to it", t, u))
				}
			}
		}
	}
	_ = show
	if p.reset[b.t.fwd] || p.reset[b.t.bwd] {
		changed = true
	}
	// a failed operation changes nothing
	if n := fn.Signature.Results().Len(); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && len(res) == n {
		e := res[n-1]
		isNil, known := p.facts["nil:"+e]
		if e != "nil" && !(known && isNil) && changed {
			bad("failed", "changes the tables on a path that can report an error")
		}
	}
	// identifiers of detached objects
	for _, o := range b.t.other {
		for _, w := range p.writes {
			if w.table == b.t.fwd && !w.del && strings.HasPrefix(w.val, o+"0[") {
				k := strings.TrimSuffix(strings.TrimPrefix(w.val, o+"0["), "]")
				if x, _ := b.final(p, o, k); x == nil || !x.del {
					bad("detached", "gives an object back the identifier kept for it and keeps that identifier")
				}
			}
		}
		if name == "UnRegister" {
			for _, w := range p.writes {
				if w.table == b.t.fwd && w.del {
					ok := false
					for _, x := range p.writes {
						if x.table == o && !x.del && x.val == b.t.fwd+"0["+w.key+"]" {
							ok = true
						}
					}
					if !ok {
						bad("detached", "forgets the identifier of an object that is unregistered")
					}
				}
			}
		}
	}
	// an unregistered object has no identifier
	if name == "UnRegister" && len(fn.Params) == 2 {
		k := "p:" + fn.Params[1].Name()
		if x, _ := b.final(p, b.t.fwd, k); !(x != nil && x.del) && !b.absent(p, b.t.fwd, k) {
			bad("unregister", "leaves an unregistered object its identifier")
		}
	}
	if name == "Clear" && !p.reset[b.t.fwd] {
		bad("clear", "leaves the tables as they were")
	}
}

// fromPartner: the key was read from the partner table, whose entry is gone or was absent.
func (b *bijection) fromPartner(p *tablePath, t, key string) bool {
	u := b.partner(t)
	if !strings.HasPrefix(key, u+"0[") {
		return false
	}
	k := strings.TrimSuffix(strings.TrimPrefix(key, u+"0["), "]")
	return b.gone(p, u, k)
}

func isString(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsString != 0
}

func checkC41(c *Ctx) {
	c.Rule("pair", "an entry is made in the table of objects and the table of identifiers together, and neither is lost again before the operation ends")
	c.Rule("stale", "an entry that is removed or replaced takes the entry of the other table that refers to it with it")
	c.Rule("clear", "the tables are emptied together, with everything else kept about identifiers")
	c.Rule("failed", "an operation that reports an error has changed no table")
	c.Rule("detached", "the identifier kept for a detached object is kept when it is unregistered and dropped when it is given back")
	c.Rule("unregister", "an unregistered object has no identifier left")
	c.Rule("fresh", "an identifier made for one object was never used for another: the next one is above every identifier issued or set")
	c.Rule("resource", "a resource registers every object attached to it, unregisters every object detached from it and clears the manager when it is unloaded")
	var tables []*idTables
	for _, n := range c.Named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		t := &idTables{owner: n.Obj().Name()}
		var maps []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
				maps = append(maps, st.Field(i))
			}
		}
		for _, x := range maps {
			for _, y := range maps {
				mx, my := x.Type().Underlying().(*types.Map), y.Type().Underlying().(*types.Map)
				if x != y && types.Identical(mx.Key(), my.Elem()) && types.Identical(mx.Elem(), my.Key()) && !types.Identical(mx.Key(), mx.Elem()) {
					if _, obj := mx.Key().Underlying().(*types.Interface); obj && !isTypeParam(mx.Key()) {
						t.fwd, t.bwd, t.idType = x.Name(), y.Name(), mx.Elem()
					}
				}
			}
		}
		if t.fwd == "" {
			continue
		}
		for _, x := range maps {
			if x.Name() != t.fwd && x.Name() != t.bwd {
				t.other = append(t.other, x.Name())
			}
		}
		tables = append(tables, t)
	}
	sort.Slice(tables, func(i, j int) bool { return tables[i].owner < tables[j].owner })
	seenOwner := map[string]bool{}
	total := 0
	for _, t := range tables {
		seenOwner[t.owner] = true
		b := &bijection{c: c, t: t, touch: map[*ssa.Function]bool{}, visit: map[*tableFrame]map[*ssa.BasicBlock]int{}}
		// the operations: what is not only a helper of another operation
		called := map[*ssa.Function]bool{}
		var touching []*ssa.Function
		for _, fn := range c.Funcs {
			if fn.Origin() != nil && fn.Origin() != fn {
				continue
			}
			if !b.touches(fn, map[*ssa.Function]bool{}) {
				continue
			}
			touching = append(touching, fn)
			for _, bl := range fn.Blocks {
				for _, in := range bl.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil {
							called[originFunc(g)] = true
						}
					}
				}
			}
		}
		for _, fn := range touching {
			if fn.Parent() != nil || (called[fn] && !token.IsExported(fn.Name())) {
				continue
			}
			writes := false
			b.paths = 0
			b.problem = ""
			key := fname(fn)
			b.seq++
			f := &tableFrame{fn: fn, args: map[ssa.Value]string{}, funcs: map[ssa.Value]*tableClosure{}, seq: b.seq}
			for _, prm := range fn.Params {
				f.args[prm] = "p:" + prm.Name()
			}
			found := map[string]string{}
			bad := func(rule, what string) {
				if found[rule] == "" {
					found[rule] = what
				}
			}
			p := &tablePath{facts: map[string]bool{}, env: map[envKey]string{}, reset: map[string]bool{}}
			b.run(p, f, nil, fn.Blocks[0], func(q *tablePath, res []string) {
				var drain func(q *tablePath)
				drain = func(q *tablePath) {
					if n := len(q.defers); n > 0 {
						d := q.defers[n-1]
						q.defers = q.defers[:n-1]
						d(q, drain)
						return
					}
					if len(q.writes) > 0 || len(q.reset) > 0 {
						writes = true
					}
					b.judge(q, fn.Name(), fn, res, bad)
				}
				drain(q)
			})
			total += b.paths
			if b.problem != "" {
				bad("pair", b.problem)
			}
			if !writes && len(found) == 0 {
				continue
			}
			for _, rule := range []string{"pair", "stale", "clear", "failed", "detached", "unregister"} {
				c.Decide(found[rule] == "", rule, key, fn.Pos(), "%s %s", key, found[rule])
			}
		}
	}
	for _, k := range keysOf(bijections) {
		if !seenOwner[k] {
			c.Bad("pair", k, token.NoPos, "%s no longer keeps a table in each direction", k)
		}
	}
	checkFreshIDs(c)
	checkResourceIDs(c)
	c.Notes["paths"] = total
	c.Floor("pair", 7)
}

func isTypeParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

// checkFreshIDs: the closures a manager of identifiers is given. Where they share
// a counter, making an identifier leaves the counter above it, and setting one
// leaves the counter above it and never lower than it was.
func checkFreshIDs(c *Ctx) {
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || originName(call.Type()) != "UniqueIDManager" {
					continue
				}
				var makes, sets *ssa.MakeClosure
				var plain *ssa.Function
				for _, a := range call.Call.Args {
					sig, ok := a.Type().Underlying().(*types.Signature)
					if !ok {
						continue
					}
					mk := sig.Params().Len() == 0 && sig.Results().Len() == 1
					st := sig.Params().Len() == 1 && sig.Results().Len() == 0
					switch t := a.(type) {
					case *ssa.MakeClosure:
						if mk {
							makes = t
						} else if st {
							sets = t
						}
					case *ssa.Function:
						if mk {
							plain = t
						}
					}
				}
				key := fname(fn)
				if makes == nil {
					// made somewhere else: by the identifier's own package
					ok := false
					if plain != nil {
						for _, pb := range plain.Blocks {
							for _, pi := range pb.Instrs {
								if pc, isCall := pi.(*ssa.Call); isCall {
									if g := pc.Call.StaticCallee(); g != nil && !c.isEcore(pkgPath(g)) {
										ok = true
									}
								}
							}
						}
						if !c.isEcore(pkgPath(plain)) {
							ok = true
						}
					}
					c.Decide(ok, "fresh", key, call.Pos(), "%s makes identifiers that were used before", key)
					continue
				}
				c.Decide(c.counts(makes, sets), "fresh", key, call.Pos(), "%s: the counter is not above every identifier made or set", key)
			}
		}
	}
	c.Floor("fresh", 3)
}

func (c *Ctx) counts(makes, sets *ssa.MakeClosure) bool {
	if sets == nil {
		return false
	}
	run := func(mc *ssa.MakeClosure, cell *ssa.Alloc) (z *zone, f *zframe, now, was zexpr) {
		r := &zoneRules{p: c.Program}
		r.enter = func(f *zframe, call ssa.CallInstruction, g *ssa.Function) bool { return true }
		top := r.frame(cell.Parent())
		f = r.frame(mc.Fn.(*ssa.Function))
		f.outer = top
		z = newZone()
		now = zexpr{zkey{f: top, v: cell}, 0, true}
		was = zexpr{zkey{s: "was"}, 0, true}
		z.addEq(now, was)
		return f.run(z, false), f, now, was
	}
	for _, x := range makes.Bindings {
		cell, ok := x.(*ssa.Alloc)
		if !ok || !isInt(cell.Type().(*types.Pointer).Elem()) {
			continue
		}
		shared := false
		for _, y := range sets.Bindings {
			shared = shared || x == y
		}
		if !shared {
			continue
		}
		z, f, now, was := run(makes, cell)
		res := zexpr{zkey{f: f, s: "result"}, 0, true}
		if !z.le(res, now, 1) || !z.le(was, res, 0) {
			return false
		}
		z, f, now, was = run(sets, cell)
		id := f.expr(f.fn.Params[0])
		return z.le(id, now, 1) && z.le(was, now, 0)
	}
	return false
}

// checkResourceIDs: a resource keeps its manager informed.
func checkResourceIDs(c *Ctx) {
	n := c.named("EResourceImpl")
	if n == nil {
		c.Bad("resource", "EResourceImpl", token.NoPos, "no resource implementation")
		return
	}
	manager := func(v ssa.Value) bool {
		t, ok := v.Type().(*types.Named)
		return ok && t.Obj().Name() == "EObjectIDManager"
	}
	nothing := func(br *ssa.If, taken bool, ev string) []string {
		cond := br.Cond
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, taken = u.X, !taken
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) {
			v := bo.X
			if isNilConst(v) {
				v = bo.Y
			}
			if manager(v) && (bo.Op == token.EQL) == taken {
				return []string{ev}
			}
		}
		return nil
	}
	for _, x := range []struct{ method, event string }{{"DoAttached", "Register"}, {"DoDetached", "UnRegister"}, {"DoUnload", "Clear"}} {
		fn := c.methodOn(n, x.method)
		if fn == nil {
			c.Bad("resource", x.method, token.NoPos, "EResourceImpl.%s is gone", x.method)
			continue
		}
		m := newMust(c.Program, func(in ssa.Instruction, f *ssa.Function) []string {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(ci.Common()) != x.event {
				return nil
			}
			r := recvOf(ci.Common())
			if r == nil || !manager(r) {
				return nil
			}
			if as := argsOf(ci.Common()); len(as) == 1 {
				// the object that was given
				p := rootParam(as[0])
				if p == nil || p.Parent() != f || p != f.Params[len(f.Params)-1] {
					return nil
				}
			}
			return []string{x.event}
		})
		m.waive = func(br *ssa.If, taken bool, f *ssa.Function) []string { return nothing(br, taken, x.event) }
		c.Decide(m.of(fn, false)[x.event], "resource", x.method, fn.Pos(), "EResourceImpl.%s can leave its identifier manager without %s", x.method, x.event)
	}
	for _, x := range []struct{ method, event string }{{"Attached", "DoAttached"}, {"Detached", "DoDetached"}} {
		fn := c.methodOn(n, x.method)
		if fn == nil {
			c.Bad("resource", x.method, token.NoPos, "EResourceImpl.%s is gone", x.method)
			continue
		}
		m := newMust(c.Program, func(in ssa.Instruction, f *ssa.Function) []string {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(ci.Common()) != x.event {
				return nil
			}
			as := argsOf(ci.Common())
			if len(as) != 1 {
				return nil
			}
			if p := rootParam(as[0]); p != nil && p.Parent() == f {
				return []string{"self"}
			}
			return []string{"each"}
		})
		m.waive = func(br *ssa.If, taken bool, f *ssa.Function) []string {
			cond, truth := br.Cond, taken
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, truth = u.X, !truth
			}
			if call, ok := cond.(*ssa.Call); ok && calleeName(&call.Call) == "IsAttachedDetachedRequired" && !truth {
				return []string{"self", "each"}
			}
			if bo, ok := cond.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) && (bo.Op == token.EQL) == truth {
				return []string{"each"}
			}
			// not an object
			if e, ok := cond.(*ssa.Extract); ok && e.Index == 1 && !truth {
				if _, ok := e.Tuple.(*ssa.TypeAssert); ok {
					return []string{"each"}
				}
			}
			return nil
		}
		evs := m.of(fn, false)
		c.Decide(evs["self"] && evs["each"], "resource", x.method, fn.Pos(), "EResourceImpl.%s can leave out the object or some of what it contains", x.method)
	}
	if fn := c.methodOn(n, "IsAttachedDetachedRequired"); fn != nil {
		f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool { return true })
		f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
			bo, ok := v.(*ssa.BinOp)
			if !ok || !(isNilConst(bo.X) || isNilConst(bo.Y)) {
				return nil
			}
			x := bo.X
			if isNilConst(x) {
				x = bo.Y
			}
			if manager(x) {
				return constant.MakeBool(bo.Op == token.NEQ)
			}
			return nil
		}
		f.decide()
		r := f.boolResult()
		c.Decide(r != nil && *r, "resource", "IsAttachedDetachedRequired", fn.Pos(), "a resource with an identifier manager may not follow what is attached to it")
	}
	c.Floor("resource", 6)
}
