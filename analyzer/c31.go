package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: what the binary reader reads is checked before it is relied on.

func init() {
	register("C31", checkC31)
}

const msgpackPath = "github.com/vmihailenco/msgpack/v5"

type decoding struct {
	c       *Ctx
	types   map[*types.Named]bool
	tainted map[ssa.Value]bool
	fields  map[string]*types.Var
	returns map[*ssa.Function]map[int]bool // results that are numbers read
	grows   map[*types.Var]bool            // fields that only grow
	reset   map[*types.Var]bool            // fields that may be replaced
}

// wireNumber: the call reads a number from the stream.
func wireNumber(cc *ssa.CallCommon) bool {
	g := cc.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || !strings.HasPrefix(g.Name(), "Decode") {
		return false
	}
	n := structOf(g.Signature.Recv().Type())
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == msgpackPath && n.Obj().Name() == "Decoder" &&
		g.Signature.Results().Len() == 2 && intType(g.Signature.Results().At(0).Type())
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func checkC31(c *Ctx) {
	c.Rule("position", "a number that comes from the stream is a position only where it is known to be within the table")
	c.Rule("allocation", "a number that comes from the stream is not the size of an allocation unless something bounds it")
	c.Rule("assertion", "a value found by what was read is not asserted to be of a type without a way out")
	c.Rule("absent", "a pointer that reading may leave nil is tested before it is followed")
	c.Rule("found", "what is looked up by a text that was read is followed only where there is something")
	c.Rule("failure", "what a reading step answers is not used where it failed")
	d := &decoding{c: c, types: map[*types.Named]bool{}, tainted: map[ssa.Value]bool{}, returns: map[*ssa.Function]map[int]bool{}}
	// the readers
	for _, n := range c.Named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if p, ok := st.Field(i).Type().(*types.Pointer); ok {
				if m, ok := p.Elem().(*types.Named); ok && m.Obj().Pkg() != nil && m.Obj().Pkg().Path() == msgpackPath && m.Obj().Name() == "Decoder" {
					d.types[n] = true
				}
			}
		}
	}
	var fns []*ssa.Function
	for _, fn := range c.Funcs {
		if c.isMockFile(fn.Pos()) || len(fn.Blocks) == 0 {
			continue
		}
		top := topFn(fn)
		if r := top.Signature.Recv(); r != nil && structOf(r.Type()) != nil && d.types[structOf(r.Type())] {
			fns = append(fns, fn)
		}
	}
	in := map[*ssa.Function]bool{}
	for _, fn := range fns {
		in[fn] = true
	}
	// helpers that are only used by them belong to them
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if in[fn] || len(fn.Blocks) == 0 || token.IsExported(fn.Name()) || fn.Parent() != nil {
				continue
			}
			n, all := 0, true
			for _, g := range c.Funcs {
				for _, call := range calls(g) {
					if c.unwrap2(call.Common().StaticCallee()) == fn {
						n++
						all = all && in[topFn(g)]
					}
				}
			}
			if n > 0 && all && d.handles(fn) {
				in[fn] = true
				fns = append(fns, fn)
				changed = true
			}
		}
	}
	d.taint(fns)
	d.growing()
	for _, fn := range fns {
		for _, cl := range calls(fn) {
			v, ok := cl.(*ssa.Call)
			if !ok {
				continue
			}
			for i, r := range d.returns[c.unwrap2(v.Call.StaticCallee())] {
				if r && i == 0 {
					// followed to every allocation it reaches
					c.Ok("allocation", fname(fn)+" "+calleeName(&v.Call), v.Pos())
				}
			}
		}
		d.positions(fn)
		d.others(fn)
	}
	d.lookups(fns)
	c.Notes["readers"] = len(d.types)
	c.Notes["functions"] = len(fns)
	c.Notes["numbers read"] = len(d.tainted)
	c.Floor("position", 8)
	c.Floor("allocation", 12)
	c.Floor("failure", 40)
	c.Floor("found", 3)
}

// lookups: what is looked up by a text read may not be there.
func (d *decoding) lookups(fns []*ssa.Function) {
	c := d.c
	in := map[*ssa.Function]bool{}
	for _, fn := range fns {
		in[fn] = true
	}
	text := map[ssa.Value]bool{}
	mark := func(v ssa.Value) bool {
		if text[v] {
			return false
		}
		text[v] = true
		return true
	}
	isText := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					switch t := i.(type) {
					case *ssa.Extract:
						if call, ok := t.Tuple.(*ssa.Call); ok && isText(t.Type()) && d.readsStep(&call.Call) {
							changed = mark(t) || changed
						}
					case *ssa.Phi:
						for _, e := range t.Edges {
							if text[e] {
								changed = mark(t) || changed
							}
						}
					case *ssa.Call:
						g := c.unwrap2(t.Call.StaticCallee())
						if g == nil || !in[g] {
							continue
						}
						for j, a := range t.Call.Args {
							if text[a] && j < len(g.Params) {
								changed = mark(g.Params[j]) || changed
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		for _, cl := range calls(fn) {
			call, ok := cl.(*ssa.Call)
			if !ok || call.Call.Signature().Results().Len() != 1 {
				continue
			}
			switch call.Type().Underlying().(type) {
			case *types.Interface:
			case *types.Pointer:
				if g := c31callee(c, &call.Call); g == nil || !answersNil(g) {
					continue
				}
			default:
				continue
			}
			if isErrorType(call.Type()) {
				continue
			}
			if g := call.Call.StaticCallee(); g != nil && !c.isEcore(pkgPath(g)) {
				continue
			}
			by := false
			for _, a := range argsOf(&call.Call) {
				by = by || text[a]
			}
			// a value made from a text is not looked up
			if !by || strings.HasPrefix(calleeName(&call.Call), "Create") {
				continue
			}
			d.found(fn, calleeName(&call.Call), call, map[ssa.Value]bool{})
		}
	}
}

func answersNil(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && isNilConst(ret.Results[0]) {
			return true
		}
	}
	return false
}

// found: the value is only followed where it is there.
func (d *decoding) found(fn *ssa.Function, name string, v ssa.Value, seen map[ssa.Value]bool) {
	c := d.c
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch t := r.(type) {
		case *ssa.Phi:
			d.found(fn, name, t, seen)
		case *ssa.ChangeInterface:
			d.found(fn, name, t, seen)
		case *ssa.TypeAssert:
			if t.CommaOk {
				for _, e := range *t.Referrers() {
					if x, ok := e.(*ssa.Extract); ok && x.Index == 0 {
						d.found(fn, name, x, seen)
					}
				}
			}
		default:
			if !d.follows(r, v) {
				continue
			}
			c.Decide(nonNilAt(v, r.Block()) || d.vouched(v, r), "found", fname(fn)+" "+name+" "+instrName(r), r.Pos(), "%s follows what %s finds for a text that was read without knowing that there is something", fname(fn), name)
		}
	}
}

// vouched: the assertion the value comes from succeeded, or something that was
// given the value before looked whether it is there.
func (d *decoding) vouched(v ssa.Value, at ssa.Instruction) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		for _, r := range *ex.Tuple.(ssa.Value).Referrers() {
			o, ok := r.(*ssa.Extract)
			if !ok || o.Index != 1 {
				continue
			}
			for _, blk := range at.Parent().Blocks {
				iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				s := blk.Succs[0]
				cond := iff.Cond
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, s = u.X, blk.Succs[1]
				}
				if cond == ssa.Value(o) && len(s.Preds) == 1 && s.Dominates(at.Block()) {
					return true
				}
			}
		}
	}
	for _, r := range *v.Referrers() {
		call, ok := r.(*ssa.Call)
		if !ok || r == at || !call.Block().Dominates(at.Block()) {
			continue
		}
		g := c31callee(d.c, &call.Call)
		if g == nil {
			continue
		}
		for i, a := range call.Call.Args {
			if a != v || i >= len(g.Params) {
				continue
			}
			for _, u := range *g.Params[i].Referrers() {
				if bo, ok := u.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) {
					return true
				}
			}
		}
	}
	return false
}

// handles: the function takes a number.
func (d *decoding) handles(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if intType(p.Type()) {
			return true
		}
	}
	return false
}

func (c *Ctx) unwrap2(g *ssa.Function) *ssa.Function {
	if g == nil {
		return nil
	}
	return c.unwrap(g)
}

// taint: the integers that come from the stream.
func (d *decoding) taint(fns []*ssa.Function) {
	c := d.c
	mark := func(v ssa.Value) bool {
		if d.tainted[v] {
			return false
		}
		d.tainted[v] = true
		return true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch t := in.(type) {
					case *ssa.Extract:
						call, ok := t.Tuple.(*ssa.Call)
						if !ok || !intType(t.Type()) {
							continue
						}
						if wireNumber(&call.Call) && t.Index == 0 || d.returns[c.unwrap2(call.Call.StaticCallee())][t.Index] {
							changed = mark(t) || changed
						}
					case *ssa.BinOp:
						if intType(t.Type()) && (d.tainted[t.X] || d.tainted[t.Y]) && t.Op != token.REM && t.Op != token.AND {
							changed = mark(t) || changed
						}
					case *ssa.Convert:
						if d.tainted[t.X] {
							changed = mark(t) || changed
						}
					case *ssa.ChangeType:
						if d.tainted[t.X] {
							changed = mark(t) || changed
						}
					case *ssa.Phi:
						for _, e := range t.Edges {
							if d.tainted[e] {
								changed = mark(t) || changed
							}
						}
					case *ssa.Store:
						if d.tainted[t.Val] {
							if al, ok := rootAlloc(t.Addr); ok {
								changed = mark(al) || changed
							}
						}
					case *ssa.UnOp:
						if t.Op == token.MUL {
							if al, ok := rootAlloc(t.X); ok && d.tainted[al] {
								changed = mark(t) || changed
							}
						} else if d.tainted[t.X] {
							changed = mark(t) || changed
						}
					case *ssa.Return:
						for i, r := range t.Results {
							if d.tainted[r] && !d.returns[fn][i] {
								if d.returns[fn] == nil {
									d.returns[fn] = map[int]bool{}
								}
								d.returns[fn][i] = true
								changed = true
							}
						}
					case ssa.CallInstruction:
						cc := t.Common()
						if call, ok := in.(*ssa.Call); ok && intType(call.Type()) && d.returns[c.unwrap2(cc.StaticCallee())][0] {
							changed = mark(call) || changed
						}
						if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "max" {
							for _, a := range cc.Args {
								if d.tainted[a] {
									changed = mark(t.(ssa.Value)) || changed
								}
							}
						}
						g := c.unwrap2(cc.StaticCallee())
						if g == nil || len(g.Blocks) == 0 || g.Pkg == nil || !c.isEcore(g.Pkg.Pkg.Path()) {
							continue
						}
						for i, a := range cc.Args {
							if d.tainted[a] && i < len(g.Params) {
								changed = mark(g.Params[i]) || changed
							}
						}
					}
				}
			}
		}
	}
}

func rootAlloc(addr ssa.Value) (*ssa.Alloc, bool) {
	if fv, ok := addr.(*ssa.FreeVar); ok {
		addr = rootBinding(fv)
	}
	al, ok := addr.(*ssa.Alloc)
	return al, ok && intType(al.Type().Underlying().(*types.Pointer).Elem())
}

// growing: the tables that nothing makes shorter.
func (d *decoding) growing() {
	d.grows = map[*types.Var]bool{}
	bad := map[*types.Var]bool{}
	for _, fn := range d.c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fld := fieldOf(fa)
				if fld == nil {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				if appendedTo(st) != nil {
					d.grows[fld] = true
				} else {
					bad[fld] = true
				}
			}
		}
	}
	for f := range bad {
		delete(d.grows, f)
	}
	d.reset = bad
}

// appended: the store is x.f = append(x.f, …).
func appendedTo(st *ssa.Store) *ssa.Call {
	call, ok := st.Val.(*ssa.Call)
	if !ok {
		return nil
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "append" {
		return nil
	}
	u, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	a, b := pathOf(u), pathOf(st.Addr)
	if a.Root == b.Root && a.Sel == b.Sel {
		return call
	}
	return nil
}

func (d *decoding) keyField(v ssa.Value) *types.Var {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	if fa, ok := u.X.(*ssa.FieldAddr); ok {
		return fieldOf(fa)
	}
	return nil
}

func (d *decoding) lenKey(f *zframe, v ssa.Value) zkey {
	k := zkey{s: "len:" + f.path(v)}
	if fld := d.keyField(v); fld != nil {
		d.fields[k.s] = fld
	}
	return k
}

func lenOf(v ssa.Value) (ssa.Value, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return nil, false
	}
	switch call.Call.Args[0].Type().Underlying().(type) {
	case *types.Slice, *types.Basic:
		return call.Call.Args[0], true
	}
	return nil, false
}

// grown: the quantity may only have become larger.
func (z *zone) grown(k zkey) {
	for x := range z.d {
		if x[0] == k {
			delete(z.d, x)
		}
	}
}

func (d *decoding) effects(z *zone, fld *types.Var, all bool) {
	keys := map[string]zkey{}
	for x := range z.d {
		for _, k := range x {
			if fv := d.fields[k.s]; fv != nil && (all || fv == fld) {
				keys[k.s] = k
			}
		}
	}
	for s, k := range keys {
		if d.grows[d.fields[s]] {
			z.grown(k)
		} else if d.reset[d.fields[s]] {
			z.forget(k)
		}
	}
}

func (d *decoding) relevant(v ssa.Value, depth int) bool {
	if d.tainted[v] {
		return true
	}
	if depth > 4 {
		return false
	}
	if bo, ok := v.(*ssa.BinOp); ok && (d.relevant(bo.X, depth+1) || d.relevant(bo.Y, depth+1)) {
		return true
	}
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if bo, ok := r.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					o := bo.X
					if o == v {
						o = bo.Y
					}
					if d.tainted[o] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (d *decoding) positions(fn *ssa.Function) {
	c := d.c
	d.fields = map[string]*types.Var{}
	r := &zoneRules{p: c.Program}
	r.size = func(f *zframe, v ssa.Value) (zkey, bool) {
		if x, ok := lenOf(v); ok {
			return d.lenKey(f, x), true
		}
		if call, ok := v.(*ssa.Call); ok && calleeName(&call.Call) == "Size" && len(argsOf(&call.Call)) == 0 {
			if rv := recvOf(&call.Call); rv != nil {
				return zkey{s: "size:" + f.path(rv)}, true
			}
		}
		return zkey{}, false
	}
	pure := func(g *ssa.Function) bool {
		for _, cl := range calls(g) {
			if _, ok := cl.Common().Value.(*ssa.Builtin); ok {
				continue
			}
			h := cl.Common().StaticCallee()
			if h == nil || h.Pkg != nil && h.Pkg.Pkg.Path() == msgpackPath || c.isEcore(pkgPath(h)) {
				return false
			}
		}
		return true
	}
	r.enter = func(f *zframe, call ssa.CallInstruction, g *ssa.Function) bool {
		// helpers that check, and helpers that read and check
		if g.Parent() != nil || pure(g) {
			return true
		}
		return f.depth < 2 && d.small(g)
	}
	r.call = func(f *zframe, call ssa.CallInstruction, z *zone) bool {
		cc := call.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if v, ok := call.(*ssa.Call); ok && bi.Name() == "append" {
				k, from := zkey{s: "len:" + f.path(v)}, d.lenKey(f, cc.Args[0])
				z.forget(k)
				z.add(zZero, k, 0)
				z.add(zZero, from, 0)
				if len(cc.Args) == 2 {
					if es := sliceElems(cc.Args[1]); es != nil {
						z.addEq(zexpr{k, 0, true}, zexpr{from, int64(len(es)), true})
					} else {
						z.addLe(zexpr{from, 0, true}, zexpr{k, 0, true}, 0)
					}
				}
			}
			return true
		}
		g := c.unwrap2(cc.StaticCallee())
		if g != nil && !c.isEcore(pkgPath(g)) {
			return true
		}
		if g == nil || f.callee(call) == nil {
			d.effects(z, nil, true)
		}
		return false
	}
	r.store = func(f *zframe, st *ssa.Store, z *zone) {
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		fld := fieldOf(fa)
		if fld == nil {
			return
		}
		if _, ok := fld.Type().Underlying().(*types.Slice); !ok {
			return
		}
		k := zkey{s: "len:" + f.path(fa)}
		d.fields[k.s] = fld
		if call := appendedTo(st); call != nil {
			if es := sliceElems(call.Call.Args[1]); es != nil {
				z.shift(k, int64(len(es)))
			} else {
				z.grown(k)
			}
			return
		}
		d.effects(z, fld, false)
		z.forget(k)
		z.addEq(zexpr{k, 0, true}, zexpr{d.lenKey(f, st.Val), 0, true})
	}
	r.instr = func(f *zframe, in ssa.Instruction, z *zone) {
		if ms, ok := in.(*ssa.MakeSlice); ok {
			k := zkey{s: "len:" + f.path(ms)}
			z.forget(k)
			z.addEq(zexpr{k, 0, true}, f.expr(ms.Len))
		}
	}
	within := func(f *zframe, z *zone, i ssa.Value, k zexpr, by int64) bool {
		e := f.expr(i)
		return e.ok && z.le(zexpr{zZero, 0, true}, e, 0) && z.le(e, k, by)
	}
	r.visit = func(f *zframe, in ssa.Instruction, z *zone) {
		if z.bot {
			return
		}
		at := func(x, i ssa.Value, by int64) {
			if i == nil || !d.relevant(i, 0) {
				return
			}
			if _, ok := constInt(i); ok {
				return
			}
			key := fname(fn) + " " + d.place(x)
			var k zexpr
			switch t := x.Type().Underlying().(type) {
			case *types.Map:
				return
			case *types.Array:
				k = zexpr{zZero, t.Len(), true}
			case *types.Pointer:
				if a, ok := t.Elem().Underlying().(*types.Array); ok {
					k = zexpr{zZero, a.Len(), true}
				} else {
					return
				}
			default:
				k = zexpr{d.lenKey(f, x), 0, true}
			}
			c.Decide(within(f, z, i, k, by), "position", key, in.Pos(), "a position that depends on a number read is not known to be within %s", d.place(x))
		}
		switch t := in.(type) {
		case *ssa.IndexAddr:
			at(t.X, t.Index, 1)
		case *ssa.Index:
			at(t.X, t.Index, 1)
		case *ssa.Lookup:
			at(t.X, t.Index, 1)
		case *ssa.Slice:
			at(t.X, t.Low, 0)
			at(t.X, t.High, 0)
		case *ssa.MakeSlice:
			for _, n := range []ssa.Value{t.Len, t.Cap} {
				if !d.relevant(n, 0) {
					continue
				}
				if _, ok := constInt(n); ok {
					continue
				}
				c.Decide(d.limited(f, z, n), "allocation", fname(fn)+" make", in.Pos(), "a number that comes from the stream is the size of an allocation")
			}
		case *ssa.MakeMap, *ssa.MakeChan:
			var n ssa.Value
			if m, ok := t.(*ssa.MakeMap); ok {
				n = m.Reserve
			} else {
				n = t.(*ssa.MakeChan).Size
			}
			if n != nil && d.tainted[n] {
				c.Decide(d.limited(f, z, n), "allocation", fname(fn)+" make", in.Pos(), "a number that comes from the stream is the size of an allocation")
			}
		case ssa.CallInstruction:
			cc := t.Common()
			name := calleeName(cc)
			rv := recvOf(cc)
			for i, a := range argsOf(cc) {
				if !d.tainted[a] {
					continue
				}
				switch {
				case name == "Grow" || name == "Repeat" || strings.HasPrefix(name, "New") && strings.Contains(name, "Size"):
					c.Decide(d.limited(f, z, a), "allocation", fname(fn)+" "+name, in.Pos(), "a number that comes from the stream is the size of an allocation")
				case rv != nil && i == 0 && (name == "Get" || name == "RemoveAt" || name == "Set" || name == "Insert") && d.listLike(rv.Type()):
					c.Decide(within(f, z, a, zexpr{zkey{s: "size:" + f.path(rv)}, 0, true}, 1), "position", fname(fn)+" "+name, in.Pos(), "a position that depends on a number read is not known to be within the list")
				}
			}
		}
	}
	f := r.frame(fn)
	f.run(newZone(), true)
}

// small: a reading step that does nothing but read and check numbers.
func (d *decoding) small(g *ssa.Function) bool {
	for i := 0; i < g.Signature.Results().Len(); i++ {
		t := g.Signature.Results().At(i).Type()
		if !intType(t) && !isBool(t) && !isErrorType(t) {
			return false
		}
	}
	return len(g.Blocks) <= 12
}

func (d *decoding) listLike(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Size") != nil && ms.Lookup(nil, "IndexOf") != nil
}

func (d *decoding) limited(f *zframe, z *zone, n ssa.Value) bool {
	e := f.expr(n)
	if !e.ok || !z.le(zexpr{zZero, 0, true}, e, 0) {
		return false
	}
	if z.le(e, zexpr{zZero, 1 << 16, true}, 0) {
		return true
	}
	for x := range z.d {
		for _, k := range x {
			if (strings.HasPrefix(k.s, "len:") || strings.HasPrefix(k.s, "size:")) && z.le(e, zexpr{k, 0, true}, 0) {
				return true
			}
		}
	}
	return false
}

func (d *decoding) place(v ssa.Value) string {
	if fld := d.keyField(v); fld != nil {
		return fld.Name()
	}
	return "a " + types.TypeString(v.Type(), noPkg)
}

// others: assertions, absent values and failed steps.
func (d *decoding) others(fn *ssa.Function) {
	c := d.c
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.TypeAssert:
				c.Decide(t.CommaOk, "assertion", fname(fn)+" "+types.TypeString(t.AssertedType, noPkg), in.Pos(), "what was read decides whether this assertion crashes")
			case *ssa.Call:
				d.step(fn, t)
			}
		}
	}
}

// readsStep: the call takes something from the stream and may fail.
func (d *decoding) readsStep(cc *ssa.CallCommon) bool {
	g := c31callee(d.c, cc)
	if g == nil || g.Signature.Recv() == nil {
		return false
	}
	res := g.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return false
	}
	n := structOf(g.Signature.Recv().Type())
	if n == nil {
		return false
	}
	return d.types[n] || n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == msgpackPath && n.Obj().Name() == "Decoder"
}

func c31callee(c *Ctx, cc *ssa.CallCommon) *ssa.Function {
	g := cc.StaticCallee()
	if g == nil {
		return nil
	}
	return c.unwrap(g)
}

func (d *decoding) step(fn *ssa.Function, call *ssa.Call) {
	c := d.c
	if !d.readsStep(&call.Call) {
		return
	}
	name := calleeName(&call.Call)
	key := fname(fn) + " " + name
	var err ssa.Value = call
	var vals []*ssa.Extract
	if call.Call.Signature().Results().Len() > 1 {
		err = nil
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				if isErrorType(e.Type()) {
					err = e
				} else {
					vals = append(vals, e)
				}
			}
		}
	}
	if err == nil {
		c.Bad("failure", key, call.Pos(), "the error of %s is not looked at", name)
		return
	}
	used := false
	for _, r := range *err.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); !dbg {
			used = true
		}
	}
	if !used {
		c.Bad("failure", key, call.Pos(), "the error of %s is not looked at", name)
		return
	}
	ok := true
	g := c31callee(c, &call.Call)
	for _, v := range vals {
		absent := d.nilable(g, v.Index)
		for _, use := range d.uses(v) {
			in := use.in
			if _, ret := in.(*ssa.Return); ret {
				continue
			}
			if !d.succeeded(err, in.Block()) {
				ok = false
				c.Bad("failure", key, in.Pos(), "what %s answers is used where it may have failed", name)
			}
			if absent && d.follows(in, use.v) && !nonNilAt(use.v, in.Block()) {
				c.Bad("absent", key+" "+instrName(in), in.Pos(), "%s may answer nothing, which is followed here", name)
			} else if absent {
				c.Ok("absent", key, in.Pos())
			}
		}
	}
	if ok {
		c.Ok("failure", key, call.Pos())
	}
}

func instrName(in ssa.Instruction) string {
	if call, ok := in.(ssa.CallInstruction); ok {
		return calleeName(call.Common())
	}
	return "field"
}

type c31use struct {
	in ssa.Instruction
	v  ssa.Value
}

// uses of a value, conversions and phis apart.
func (d *decoding) uses(v ssa.Value) []c31use {
	var out []c31use
	for _, r := range *v.Referrers() {
		switch t := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi, *ssa.Store:
			// kept for later
		case *ssa.MakeInterface:
			out = append(out, d.uses(t)...)
		case *ssa.ChangeInterface:
			out = append(out, d.uses(t)...)
		case *ssa.BinOp:
			if !isNilConst(t.X) && !isNilConst(t.Y) {
				out = append(out, c31use{r, v})
			}
		default:
			out = append(out, c31use{r, v})
		}
	}
	return out
}

// succeeded: the block is reached only when the error is nil.
func (d *decoding) succeeded(err ssa.Value, b *ssa.BasicBlock) bool {
	is := func(v ssa.Value, at *ssa.BasicBlock) bool {
		if v == err {
			return true
		}
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if e == err {
					return true
				}
			}
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		for i := len(at.Instrs) - 1; i >= 0; i-- {
			if st, ok := at.Instrs[i].(*ssa.Store); ok && st.Addr == u.X {
				return st.Val == err
			}
		}
		return false
	}
	for _, blk := range b.Parent().Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(isNilConst(bo.X) && is(bo.Y, blk) || isNilConst(bo.Y) && is(bo.X, blk)) {
			continue
		}
		s := blk.Succs[0]
		if bo.Op == token.NEQ {
			s = blk.Succs[1]
		}
		if len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

// nonNilAt: a test made on the way says the value is not nil.
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, blk := range b.Parent().Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(isNilConst(bo.X) && bo.Y == v || isNilConst(bo.Y) && bo.X == v) {
			continue
		}
		s := blk.Succs[1]
		if bo.Op == token.NEQ {
			s = blk.Succs[0]
		}
		if len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

// nilable: the routine can answer nothing without failing.
func (d *decoding) nilable(g *ssa.Function, i int) bool {
	if g == nil {
		return false
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > i {
			if isNilConst(ret.Results[i]) && isNilConst(ret.Results[len(ret.Results)-1]) {
				return true
			}
		}
	}
	return false
}

// follows: the instruction would crash on nil.
func (d *decoding) follows(in ssa.Instruction, v ssa.Value) bool {
	switch t := in.(type) {
	case *ssa.FieldAddr:
		return t.X == v
	case *ssa.UnOp:
		return t.Op == token.MUL && t.X == v
	case ssa.CallInstruction:
		cc := t.Common()
		if cc.IsInvoke() && cc.Value == v {
			return true
		}
		fns, _ := d.c.callees(cc)
		for _, g := range fns {
			if d.c.isMockFile(g.Pos()) {
				continue
			}
			args := cc.Args
			params := g.Params
			if cc.IsInvoke() && len(params) > 0 {
				params = params[1:]
			}
			for i, a := range args {
				if a == v && i < len(params) && d.derefs(g, params[i]) {
					return true
				}
			}
		}
	}
	return false
}

func (d *decoding) derefs(g *ssa.Function, p *ssa.Parameter) bool {
	for _, use := range d.uses(p) {
		if use.in.Parent() != g || nonNilAt(p, use.in.Block()) {
			continue
		}
		switch t := use.in.(type) {
		case *ssa.FieldAddr:
			return true
		case *ssa.UnOp:
			if t.Op == token.MUL {
				return true
			}
		case ssa.CallInstruction:
			cc := t.Common()
			if cc.IsInvoke() && cc.Value == ssa.Value(p) {
				return true
			}
			if h := c31callee(d.c, cc); h != nil && h.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == ssa.Value(p) && h != g && len(h.Params) > 0 && d.derefs(h, h.Params[0]) {
				return true
			}
		}
	}
	return false
}
