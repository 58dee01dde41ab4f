package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C15", checkC15) }

// extensible: the struct type keeps a face of its own, directly or in an embedded
// part, for types that embed it.
func extensible(n *types.Named) bool {
	return n != nil && facePath(n, 0) != nil
}

func facePath(n *types.Named, d int) *types.Var {
	st, ok := n.Underlying().(*types.Struct)
	if !ok || d > 12 {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "interfaces" && !f.Embedded() {
			return f
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		if m, ok := f.Type().(*types.Named); ok {
			if r := facePath(m, d+1); r != nil {
				return r
			}
		}
	}
	return nil
}

func structOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	if n != nil {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return n
		}
	}
	return nil
}

// receiverPart: the value is the receiver of the function it is used in (or of the
// one around it), or an embedded part of it.
func receiverPart(v ssa.Value) *ssa.Parameter {
	for i := 0; i < 16; i++ {
		switch t := v.(type) {
		case *ssa.Parameter:
			if t.Parent().Signature.Recv() != nil && t.Parent().Params[0] == t {
				return t
			}
			return nil
		case *ssa.FieldAddr:
			if f := fieldOf(t); f == nil || !f.Embedded() {
				return nil
			}
			v = t.X
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return nil
			}
			addr := t.X
			if fv, ok := addr.(*ssa.FreeVar); ok {
				addr = rootBinding(fv)
			}
			if _, ok := addr.(*ssa.Alloc); !ok {
				return nil
			}
			s := cellStores(addr, 0)
			if len(s) != 1 {
				return nil
			}
			v = s[0]
		case *ssa.ChangeType:
			v = t.X
		default:
			return nil
		}
	}
	return nil
}

func checkC15(c *Ctx) {
	c.Rule("identity", "a method of a class that others embed shows its object only by the object's own face, never as the receiver or a part of it")
	c.Rule("face", "every object of such a class that the library creates has its own face set to itself before anybody else sees it")
	c.Rule("initialised", "every object of such a class that has to be initialised is, before it is handed out")
	escapes := 0
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if fa, ok := mi.X.(*ssa.FieldAddr); ok && receiverPart(mi.X) == nil {
					// a base part of some object
					if fld := fieldOf(fa); fld != nil && fld.Embedded() && extensible(structOf(fa.Type())) {
						if use := escapingUse(mi); use != nil {
							c.Bad("identity", fname(fn)+" part "+useName(use), posOf(use), "%s shows the %s part of an object (%s) instead of the object's own face", fname(fn), fld.Name(), useName(use))
						}
					}
				}
				r := receiverPart(mi.X)
				if r == nil || !extensible(structOf(r.Type())) || !extensible(structOf(mi.X.Type())) {
					continue
				}
				use := escapingUse(mi)
				if use == nil {
					continue
				}
				escapes++
				if c.faceless(structOf(r.Type())) {
					c.Ok("identity", fname(fn)+" final", in.Pos())
					continue
				}
				key := fname(fn) + " " + useName(use)
				if call, ok := use.(ssa.CallInstruction); ok && calleeName(call.Common()) == "SetInterfaces" && c.onlyOnFresh(fn) {
					c.Ok("identity", key, in.Pos()) // a part of the constructors
					continue
				}
				c.Bad("identity", key, posOf(use), "%s shows its receiver (%s) to others instead of the object's own face", fname(fn), useName(use))
			}
		}
	}
	// the methods looked at
	methods := 0
	for _, fn := range c.Funcs {
		if r := fn.Signature.Recv(); r != nil && fn.Parent() == nil && extensible(structOf(r.Type())) {
			methods++
			c.Ok("identity", fname(fn), fn.Pos())
		}
	}
	c.Notes["methods"] = methods
	c.Notes["escapes"] = escapes
	c.faces()
	c.Floor("identity", 900)
	c.Floor("face", 50)
	c.Floor("initialised", 25)
}

// onlyOnFresh: the method is only called on objects the caller has just created.
func (c *Ctx) onlyOnFresh(m *ssa.Function) bool {
	n := 0
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && !call.Common().IsInvoke() && call.Common().StaticCallee() == m {
					if _, ok := call.Common().Args[0].(*ssa.Alloc); !ok {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// faceless: nothing in the library embeds the type and it is not for others to embed.
func (c *Ctx) faceless(n *types.Named) bool {
	n = n.Origin()
	if n.Obj().Exported() {
		return false
	}
	for _, m := range c.Named {
		st, ok := m.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Embedded() {
				continue
			}
			t := f.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if e, ok := t.(*types.Named); ok && e.Origin() == n.Origin() {
				return false
			}
		}
	}
	return true
}

// escapingUse: where the value goes to somebody else.
func escapingUse(v ssa.Value) ssa.Instruction {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) ssa.Instruction
	walk = func(v ssa.Value) ssa.Instruction {
		if seen[v] || v.Referrers() == nil {
			return nil
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch t := ref.(type) {
			case ssa.CallInstruction:
				cc := t.Common()
				for i, a := range cc.Args {
					if a == v && !(i == 0 && !cc.IsInvoke() && cc.Signature().Recv() != nil) {
						return t
					}
				}
			case *ssa.Store:
				if t.Val == v {
					if _, isCell := t.Addr.(*ssa.Alloc); isCell {
						if al := t.Addr.(*ssa.Alloc); al.Referrers() != nil {
							for _, r := range *al.Referrers() {
								if u, ok := r.(*ssa.UnOp); ok {
									if x := walk(u); x != nil {
										return x
									}
								}
							}
						}
						continue
					}
					return t
				}
			case *ssa.MapUpdate, *ssa.Return, *ssa.Send:
				return ref
			case *ssa.BinOp:
				if !isNilConst(t.X) && !isNilConst(t.Y) {
					return t
				}
			case *ssa.ChangeInterface, *ssa.Phi, *ssa.ChangeType:
				if x := walk(ref.(ssa.Value)); x != nil {
					return x
				}
			case *ssa.TypeAssert:
				if x := walk(t); x != nil {
					return x
				}
			case *ssa.Extract:
				if x := walk(t); x != nil {
					return x
				}
			}
		}
		return nil
	}
	return walk(v)
}

func useName(in ssa.Instruction) string {
	switch t := in.(type) {
	case ssa.CallInstruction:
		n := calleeName(t.Common())
		if n == "" {
			n = "a function"
		}
		return "argument of " + n
	case *ssa.Store:
		if f := addrField(t.Addr); f != nil {
			return "stored in " + f.Name()
		}
		return "stored"
	case *ssa.Return:
		return "returned"
	case *ssa.BinOp:
		return "compared"
	case *ssa.MapUpdate:
		return "stored in a map"
	}
	return "used"
}

// faces: objects made by the library know who they are.
func (c *Ctx) faces() {
	for _, fn := range c.Funcs {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !al.Heap {
					continue
				}
				t := structOf(al.Type())
				if t == nil || !extensible(t) {
					continue
				}
				n++
				key := fname(fn) + " " + t.Obj().Name()
				if n > 1 {
					key += fmt.Sprintf(" #%d", n)
				}
				f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool { return true })
				set := func(in ssa.Instruction, sf *sframe) bool {
					if call, ok := in.(*ssa.Call); ok && calleeName(&call.Call) == "SetInterfaces" && call.Call.StaticCallee() == nil {
						for _, a := range argsOf(&call.Call) {
							if one(sf.expand(a)) == ssa.Value(al) {
								return true
							}
						}
					}
					st, ok := in.(*ssa.Store)
					if !ok {
						return false
					}
					fld := addrField(st.Addr)
					return fld != nil && fld.Name() == "interfaces" && one(sf.expand(st.Val)) == ssa.Value(al)
				}
				if init := c.noArgMethod(t, "Initialize"); init != nil {
					runs := func(in ssa.Instruction, sf *sframe) bool {
						call, ok := in.(*ssa.Call)
						return ok && calleeName(&call.Call) == "Initialize" && recvOf(&call.Call) != nil && c.rootOf(sf, recvOf(&call.Call)) == ssa.Value(al)
					}
					c.Decide(f.takenAfter(al, runs), "initialised", key, al.Pos(), "%s creates a %s it does not initialise", fname(fn), t.Obj().Name())
				}
				c.Decide(f.takenAfter(al, set), "face", key, al.Pos(), "%s creates a %s that does not get its own face: it is known to others by an embedded part, or not at all", fname(fn), t.Obj().Name())
			}
		}
	}
}

// noArgMethod: the type has (or inherits) a method of that name without parameters.
func (c *Ctx) noArgMethod(n *types.Named, name string) *types.Func {
	sel := types.NewMethodSet(types.NewPointer(n)).Lookup(c.Ecore.Types, name)
	if sel == nil {
		return nil
	}
	f := sel.Obj().(*types.Func)
	if f.Type().(*types.Signature).Params().Len() > 0 {
		return nil
	}
	return f
}

// rootOf: the object a value is (a base part of).
func (c *Ctx) rootOf(f *sframe, v ssa.Value) ssa.Value {
	for i := 0; i < 16; i++ {
		x := f.expand(v)
		if len(x) != 1 {
			return nil
		}
		fa, ok := x[0].v.(*ssa.FieldAddr)
		if !ok || fieldOf(fa) == nil || !fieldOf(fa).Embedded() {
			return x[0].v
		}
		v, f = fa.X, x[0].f
	}
	return nil
}

// takenAfter: on every path from the instruction to a return there is one that matches.
func (f *sframe) takenAfter(from ssa.Instruction, match func(in ssa.Instruction, f *sframe) bool) bool {
	hits := func(in ssa.Instruction) bool {
		if match(in, f) {
			return true
		}
		if call, ok := in.(*ssa.Call); ok {
			if s := f.callee(call); s != nil && s.must(match) {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool // escapes
	walk = func(b *ssa.BasicBlock, i int) bool {
		for _, in := range b.Instrs[i:] {
			if hits(in) {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if f.edges[[2]int{b.Index, s.Index}] && !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			return !walk(b, i+1)
		}
	}
	return true
}
