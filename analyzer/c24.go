package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C24", checkC24) }

// What a positional operation requires of its integer arguments.
type posRange struct {
	kind  string // at: an existing position; to: also the end; range: from, to
	delta int64  // how the operation changes the size (9: unknown)
}

// publicPositional: operations of lists anybody can call.
var publicPositional = map[string]posRange{
	"Get": {"at", 0}, "Set": {"at", 0}, "RemoveAt": {"at", -1}, "Insert": {"to", 9}, "InsertAll": {"to", 9},
	"Move": {"at", 0}, "MoveObject": {"at", 0}, "RemoveRange": {"range", 9}, "SetWithNotification": {"at", 0},
}

// innerPositional: what the library's lists implement them with; the position has
// been checked when these are called.
var innerPositional = map[string]posRange{
	"Get": {"at", 0}, "Set": {"at", 0}, "Remove": {"at", -1}, "Insert": {"to", 1}, "InsertAll": {"to", 9},
	"Move": {"at", 0}, "RemoveRange": {"range", 9},
}

// storePositional: a store is asked for positions of the list only.
var storePositional = map[string]posRange{
	"Get": {"at", 0}, "Set": {"at", 0}, "Remove": {"at", 0}, "Add": {"to", 0}, "AddAll": {"to", 0}, "Move": {"at", 0},
}

type boundsCheck struct {
	c       *Ctx
	views   map[string]bool // fields a list's size is taken from
	tables  map[string]bool // fields with the list's elements
	counts  map[string]bool // fields with its size
	self    map[string]bool // accessors that answer the object itself
	lists   map[*types.Named]bool
	visited map[*ssa.Function]bool
	frozen  bool
	kind    string
}

// inner: the operation is one a list is implemented with, by the interfaces
// that say so.
func (b *boundsCheck) inner(name string) (posRange, bool) {
	for _, p := range []string{"do", "perform"} {
		if n, ok := strings.CutPrefix(name, p); ok {
			r, ok := innerPositional[n]
			return r, ok
		}
	}
	return posRange{}, false
}

func innerOp(name string) bool {
	for _, p := range []string{"doAdd", "doClear", "performAdd", "performClear"} {
		if name == p || name == p+"All" && p != "doClear" {
			return true
		}
	}
	return false
}

func (b *boundsCheck) listType(t types.Type) bool {
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	ms := types.NewMethodSet(t)
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if _, ptr := t.(*types.Pointer); !ptr {
			ms = types.NewMethodSet(types.NewPointer(t))
		}
	}
	has := func(n string) bool { return ms.Lookup(b.c.Ecore.Types, n) != nil }
	return has("Get") && has("Size") && has("IndexOf") && has("RemoveAt")
}

func (b *boundsCheck) norm(path string) string {
	for again := true; again; {
		again = false
		i := strings.LastIndexByte(path, '.')
		if i < 0 {
			break
		}
		last := path[i+1:]
		if last == "interfaces" || b.views[last] || strings.HasSuffix(last, "()") && b.self[strings.TrimSuffix(last, "()")] {
			path, again = path[:i], true
		}
	}
	return path
}

func (b *boundsCheck) sizeOf(f *zframe, list ssa.Value) zkey {
	return zkey{s: "n:" + b.norm(f.path(list))}
}

// prepare finds how the lists keep their size.
func (b *boundsCheck) prepare() {
	b.views, b.tables, b.counts, b.self = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	b.lists = map[*types.Named]bool{}
	for _, n := range b.c.Named {
		if _, ok := n.Underlying().(*types.Struct); ok && b.listType(n) {
			b.lists[n.Origin()] = true
		}
	}
	for _, fn := range b.c.Funcs {
		r := fn.Signature.Recv()
		if r == nil || fn.Parent() != nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			continue
		}
		n := structOf(r.Type())
		if n == nil {
			continue
		}
		sel := func(v ssa.Value) string {
			p := pathOf(v)
			if p.Root != fn.Params[0] || strings.Count(p.Sel, ".") != 1 {
				return ""
			}
			return p.Sel[1:]
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				ret, ok := in.(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				v := ret.Results[0]
				if fn.Name() != "Size" {
					if p := pathOf(v); p.Root == ssa.Value(fn.Params[0]) && p.Sel == ".interfaces" {
						b.self[fn.Name()] = true
					}
					continue
				}
				if !b.lists[n.Origin()] {
					continue
				}
				if call, ok := v.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if s := sel(call.Call.Args[0]); s != "" {
							b.tables[s] = true
						}
					} else if calleeName(&call.Call) == "Size" {
						if s := sel(recvOf(&call.Call)); s != "" {
							b.views[s] = true
						}
					}
				} else if s := sel(v); s != "" && !strings.HasSuffix(s, ")") {
					b.counts[s] = true
				}
			}
		}
	}
}

func (b *boundsCheck) lastSel(path string) (string, string) {
	if i := strings.LastIndexByte(path, '.'); i >= 0 {
		return path[:i], path[i+1:]
	}
	return path, ""
}

// size: which quantity the value reads.
func (b *boundsCheck) size(f *zframe, v ssa.Value) (zkey, bool) {
	switch t := v.(type) {
	case *ssa.Call:
		if bi, ok := t.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() != "len" {
				return zkey{}, false
			}
			p := f.path(t.Call.Args[0])
			if o, l := b.lastSel(p); b.tables[l] {
				return zkey{s: "n:" + b.norm(o)}, true
			}
			if call, ok := t.Call.Args[0].(*ssa.Call); ok {
				if r := recvOf(&call.Call); r != nil && calleeName(&call.Call) == "ToArray" {
					if b.isStore(r) { // what a store holds is what the list holds
						o, _ := b.lastSel(f.path(r))
						return zkey{s: "n:" + b.norm(o)}, true
					}
					return b.sizeOf(f, r), true
				}
			}
			return zkey{s: "len:" + p}, true
		}
		if calleeName(&t.Call) == "Size" && len(argsOf(&t.Call)) == 0 {
			return b.sizeOf(f, recvOf(&t.Call)), true
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if _, ok := t.X.(*ssa.FieldAddr); ok {
				if o, l := b.lastSel(f.path(t)); b.counts[l] {
					return zkey{s: "n:" + b.norm(o)}, true
				}
			}
		}
	}
	return zkey{}, false
}

func (b *boundsCheck) isStore(v ssa.Value) bool {
	n, ok := v.Type().(*types.Named)
	return ok && n.Obj().Name() == "EStore"
}

// opOf: the positional operation a call makes, the list it is about, and the positions.
func (b *boundsCheck) opOf(f *zframe, cc *ssa.CallCommon) (r posRange, level string, list zkey, pos []ssa.Value) {
	recv := recvOf(cc)
	if recv == nil {
		return
	}
	name := calleeName(cc)
	if b.isStore(recv) {
		if s, ok := storePositional[name]; ok {
			o, _ := b.lastSel(f.path(recv))
			r, level, list = s, "store", zkey{s: "n:" + b.norm(o)}
		}
	} else if b.listType(recv.Type()) {
		if s, ok := publicPositional[name]; ok {
			r, level, list = s, "public", b.sizeOf(f, recv)
		} else if s, ok := b.inner(name); ok {
			r, level, list = s, "inner", b.sizeOf(f, recv)
		}
	}
	for _, a := range argsOf(cc) {
		if isIntValue(a) {
			pos = append(pos, a)
		}
	}
	if len(pos) == 0 {
		level = ""
	}
	return
}

// within: the positions are in the range.
func within(z *zone, r posRange, n zexpr, pos []zexpr) bool {
	return len(outside(z, r, n, pos)) == 0
}

// outside: which ends of the range the positions may be beyond.
func outside(z *zone, r posRange, n zexpr, pos []zexpr) (out []string) {
	zero := zexpr{zZero, 0, true}
	low := func(p zexpr, by int64, what string) {
		if !z.le(zero, p, 0) {
			out = append(out, what+" before the start")
		}
	}
	high := func(p zexpr, by int64, what string) {
		if z.le(p, n, by) {
			return
		}
		if by > 0 && z.le(p, n, 0) {
			out = append(out, what+" at the end")
		} else {
			out = append(out, what+" past the end")
		}
	}
	names := []string{"position"}
	if len(pos) > 1 {
		names = []string{"first position", "second position", "third position"}
	}
	for i, p := range pos {
		if i >= len(names) {
			break
		}
		low(p, 0, names[i])
		switch {
		case r.kind == "to" || r.kind == "range" && i == 1:
			high(p, 0, names[i])
		case r.kind == "range":
			if len(pos) != 2 || !z.le(pos[0], pos[1], 0) {
				out = append(out, "positions in the wrong order")
			}
		default:
			high(p, 1, names[i])
		}
	}
	return
}

func assumeWithin(z *zone, r posRange, n zexpr, pos []zexpr) {
	zero := zexpr{zZero, 0, true}
	switch r.kind {
	case "range":
		if len(pos) == 2 {
			z.addLe(zero, pos[0], 0)
			z.addLe(pos[0], pos[1], 0)
			z.addLe(pos[1], n, 0)
		}
	case "to":
		z.addLe(zero, pos[0], 0)
		z.addLe(pos[0], n, 0)
	default:
		for _, p := range pos {
			z.addLe(zero, p, 0)
			z.addLe(p, n, 1)
		}
	}
}

func (b *boundsCheck) call(f *zframe, call ssa.CallInstruction, z *zone) bool {
	cc := call.Common()
	r, level, n, pos := b.opOf(f, cc)
	ne := zexpr{n, 0, true}
	if level != "" {
		var es []zexpr
		for _, p := range pos {
			es = append(es, f.expr(p))
		}
		assumeWithin(z, r, ne, es) // it would have failed otherwise
		if level != "store" && !b.frozen {
			if r.delta == 9 {
				z.forget(n)
				z.add(zZero, n, 0)
			} else if r.delta != 0 {
				z.shift(n, r.delta)
			}
		}
		return true
	}
	recv := recvOf(cc)
	if recv == nil || !b.listType(recv.Type()) {
		return false
	}
	name := calleeName(cc)
	switch strings.TrimPrefix(strings.TrimPrefix(name, "do"), "perform") {
	case "Size", "Empty", "Contains", "ToArray", "Iterator":
		return true
	case "IndexOf":
		if v, ok := call.(ssa.Value); ok {
			k := b.sizeOf(f, recv)
			z.forget(zkey{f: f, v: v})
			e := f.expr(v)
			z.addLe(zexpr{zZero, -1, true}, e, 0)
			z.addLe(e, zexpr{k, 0, true}, 1)
		}
		return true
	case "Add", "AddAll", "Remove", "Clear":
		if !b.frozen {
			z.forget(b.sizeOf(f, recv))
		}
		return true
	}
	return false
}

func (b *boundsCheck) store(f *zframe, st *ssa.Store, z *zone) {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	fld := fieldOf(fa)
	if fld == nil {
		return
	}
	p := f.path(fa)
	z.forget(zkey{s: "nil:" + p})
	if !b.frozen && (b.tables[fld.Name()] || b.counts[fld.Name()]) {
		o, _ := b.lastSel(p)
		z.forget(zkey{s: "n:" + b.norm(o)})
	}
}

func (b *boundsCheck) rules() *zoneRules {
	r := &zoneRules{p: b.c.Program, size: b.size, call: b.call, store: b.store}
	r.enter = func(f *zframe, call ssa.CallInstruction, g *ssa.Function) bool {
		if recv := recvOf(call.Common()); recv != nil && !b.listType(recv.Type()) && g.Parent() == nil {
			return false
		}
		return true
	}
	r.visit = b.visit
	return r
}

func (b *boundsCheck) visit(f *zframe, in ssa.Instruction, z *zone) {
	b.visited[f.fn] = true
	if z.bot {
		return
	}
	c := b.c
	where := fname(f.fn)
	switch t := in.(type) {
	case ssa.CallInstruction:
		r, level, n, pos := b.opOf(f, t.Common())
		if level != "inner" && level != "store" {
			return
		}
		var es []zexpr
		for _, p := range pos {
			es = append(es, f.expr(p))
		}
		key := where + " " + level + " " + calleeName(t.Common())
		out := outside(z, r, zexpr{n, 0, true}, es)
		if len(out) == 0 || b.collected(f, t, pos) {
			c.Ok("checked", key, in.Pos())
			return
		}
		for _, o := range out {
			c.Bad("checked", key+" "+o, in.Pos(), "%s reaches %s of the %s with a %s", where, calleeName(t.Common()), map[string]string{"inner": "list", "store": "store"}[level], o)
		}
	case *ssa.IndexAddr:
		load, ok := t.X.(*ssa.UnOp)
		if !ok || b.frozen && b.kind != "get" {
			return
		}
		fa, ok := load.X.(*ssa.FieldAddr)
		if !ok {
			return
		}
		fld := fieldOf(fa)
		if fld == nil || !b.tables[fld.Name()] || !b.lists[structOf(fa.X.Type()).Origin()] {
			return
		}
		o, _ := b.lastSel(f.path(fa))
		n := zkey{s: "n:" + b.norm(o)}
		key := where + " element of " + fld.Name()
		c.Decide(within(z, posRange{kind: "at"}, zexpr{n, 0, true}, []zexpr{f.expr(t.Index)}), "checked", key, t.Pos(), "%s accesses an element of %s at a position that is not known to be within the current size", where, fld.Name())
	}
}

// collected: the position is an element of a list of positions every one of which
// was within the size when it was noted, taken from the last to the first.
func (b *boundsCheck) collected(f *zframe, call ssa.CallInstruction, pos []ssa.Value) bool {
	if len(pos) != 1 || calleeName(call.Common()) == "" {
		return false
	}
	ta, ok := pos[0].(*ssa.TypeAssert)
	var elem ssa.Value = pos[0]
	if ok {
		elem = ta.X
	}
	ld, ok := elem.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	// taken downwards
	phi, ok := ia.Index.(*ssa.Phi)
	if !ok {
		return false
	}
	down := false
	for _, e := range phi.Edges {
		if bo, ok := e.(*ssa.BinOp); ok {
			if k, isK := constInt(bo.Y); isK && bo.X == ssa.Value(phi) && (bo.Op == token.SUB && k == 1 || bo.Op == token.ADD && k == -1) {
				down = true
			}
		}
	}
	if !down {
		return false
	}
	// every appended value is an index of the list that only grows
	seen := map[ssa.Value]bool{}
	good, any := true, false
	run := zruns[f]
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch t := v.(type) {
		case *ssa.Phi:
			for _, e := range t.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			// a captured variable
			if al, ok := t.X.(*ssa.Alloc); ok {
				for _, s := range cellStores(al, 0) {
					walk(s)
				}
				return
			}
			good = false
		case *ssa.Const:
		case *ssa.Call:
			bi, ok := t.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" {
				good = false
				return
			}
			walk(t.Call.Args[0])
			for _, e := range sliceElems(t.Call.Args[1]) {
				if mi, ok := e.(*ssa.MakeInterface); ok {
					e = mi.X
				}
				any = true
				z := run.post[t.Block()]
				_, level, n, _ := b.opOf(f, call.Common())
				if level == "" || z == nil || !within(z, posRange{kind: "at"}, zexpr{n, 0, true}, []zexpr{f.expr(e)}) {
					good = false
				}
			}
		default:
			good = false
		}
	}
	walk(ia.X)
	return good && any
}

// sliceElems: the values of an argument list.
func sliceElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func checkC24(c *Ctx) {
	c.Rule("rejects", "a positional operation only succeeds for a position in its range")
	c.Rule("checked", "a stored element is reached (in the list or in its store) only with a position that is within the current size")
	c.Rule("accepts", "the ends of the range are accepted")
	b := &boundsCheck{c: c, visited: map[*ssa.Function]bool{}}
	b.prepare()
	var anon []*ssa.Function
	for _, fn := range c.Funcs {
		top := topFn(fn)
		r := top.Signature.Recv()
		if r == nil || len(fn.Blocks) == 0 || structOf(r.Type()) == nil || !b.lists[structOf(r.Type()).Origin()] {
			continue
		}
		if fn.Parent() != nil {
			anon = append(anon, fn)
			continue
		}
		b.operation(fn)
	}
	for _, fn := range anon {
		if !b.visited[fn] && fn.Synthetic == "" {
			b.frozen = false
			f := b.rules().frame(fn)
			f.run(newZone(), true)
		}
	}
	c.Notes["list types"] = len(b.lists)
	c.Floor("rejects", 9)
	c.Floor("checked", 30)
	c.Floor("accepts", 15)
}

func (b *boundsCheck) operation(fn *ssa.Function) {
	c := b.c
	rules := b.rules()
	self := rules.frame(fn)
	n := zkey{s: "n:" + b.norm(self.path(fn.Params[0]))}
	ne := zexpr{n, 0, true}
	var pos []zexpr
	for _, p := range fn.Params[1:] {
		if isIntValue(p) {
			pos = append(pos, self.expr(p))
		}
	}
	pub, isPub := publicPositional[fn.Name()]
	isPub = isPub && len(pos) > 0
	inn, isInner := b.inner(fn.Name())
	isInner = isInner && len(pos) > 0
	if !isPub && !isInner && len(pos) > 0 && !token.IsExported(fn.Name()) {
		return // a helper: analysed where it is used
	}
	entry := newZone()
	entry.add(zZero, n, 0)
	b.frozen, b.kind = isInner, ""
	if isInner || innerOp(fn.Name()) {
		b.frozen = true
		if isInner {
			assumeWithin(entry, inn, ne, pos)
		}
		if isInner && inn.delta == 0 {
			b.kind = "get"
		}
		self.run(entry, true)
		return
	}
	n0 := zexpr{zkey{s: "n0"}, 0, true}
	entry.addEq(n0, ne)
	exit := self.run(entry, true)
	if !isPub {
		return
	}
	if exit.bot {
		c.Ok("rejects", fname(fn)+" always", fn.Pos())
		return
	}
	c.Decide(within(exit, pub, n0, pos), "rejects", fname(fn), fn.Pos(), "%s can succeed for a position out of range", fname(fn))
	// ends
	try := func(name string, set func(z *zone)) {
		z := newZone()
		z.add(zZero, n, 0)
		set(z)
		x := self.run(z, false)
		c.Decide(!x.bot, "accepts", fname(fn)+" "+name, fn.Pos(), "%s never succeeds for %s", fname(fn), name)
	}
	at := func(i int, k zkey, d int64) func(z *zone) {
		return func(z *zone) {
			z.addEq(pos[i], zexpr{k, d, true})
			z.addLe(zexpr{zZero, 2, true}, ne, 0)
			for j := range pos {
				if j != i {
					z.addLe(zexpr{zZero, 0, true}, pos[j], 0)
					z.addLe(pos[j], ne, 1)
				}
			}
		}
	}
	last := int64(-1)
	if pub.kind == "to" {
		last = 0
	}
	for i := range pos {
		nm := fn.Params[1:][i].Name()
		try(nm+" at the start", at(i, zZero, 0))
		l := last
		if pub.kind == "range" && i == 1 {
			l = 0
		}
		try(nm+" at the end", at(i, n, l))
	}
}
