package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C21", checkC21) }

func typeMatches(t types.Type, cl *mmClass) bool {
	if cl == nil {
		return true
	}
	if cl.Kind == "EClass" {
		return typeName(t) == cl.Name
	}
	return goTypeMatches(t, cl.Init().Instance)
}

func (c *Ctx) interfaceOf(cl *mmClass) *types.Interface {
	o, ok := c.Ecore.Types.Scope().Lookup(cl.Name).(*types.TypeName)
	if !ok {
		return nil
	}
	it, _ := o.Type().Underlying().(*types.Interface)
	return it
}

// operationMethods are the Go methods that can implement an operation: the one of
// its name and parameter types, or those whose name extends it.
func (c *Ctx) operationMethods(op *mmElem) []*types.Func {
	it := c.interfaceOf(op.Class)
	if it == nil {
		return nil
	}
	want := upperFirst(op.Name())
	others := map[string]bool{}
	for _, o := range op.Class.AllOps() {
		if o.Name() != op.Name() {
			others[upperFirst(o.Name())] = true
		}
	}
	var out []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		f := it.Method(i)
		sig := f.Type().(*types.Signature)
		if !strings.HasPrefix(f.Name(), want) || others[f.Name()] || sig.Params().Len() != len(op.Init().Params) {
			continue
		}
		ok := true
		for j, p := range op.Init().Params {
			if !typeMatches(sig.Params().At(j).Type(), p.Type) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if f.Name() == want {
			return []*types.Func{f}
		}
		out = append(out, f)
	}
	return out
}

// argument reports which element of the argument list v is (-1: none).
func (s *selfFrame) argument(v ssa.Value, f *sframe) int64 {
	vs := f.expand(v)
	res := int64(-1)
	for _, x := range vs {
		if k, ok := x.v.(*ssa.Const); ok && k.Value == nil && len(vs) > 1 {
			continue // an assertion that failed
		}
		call, ok := x.v.(*ssa.Call)
		if !ok || calleeName(&call.Call) != "Get" || recvOf(&call.Call) == nil || !isTop(x.f.expand(recvOf(&call.Call)), s.fn.Params[2]) {
			return -1
		}
		iv := one(x.f.expand(argsOf(&call.Call)[0]))
		if iv == nil {
			return -1
		}
		k, isConst := constInt(iv)
		if !isConst || (res >= 0 && res != k) {
			return -1
		}
		res = k
	}
	return res
}

func checkC21(c *Ctx) {
	c.Rule("call", "invoking an operation by its identifier calls the method that implements it, on the object itself, on every path")
	c.Rule("arguments", "each argument is passed in its declared position")
	c.Rule("result", "what the operation returns is returned (nothing for an operation without result)")
	c.Rule("distinct", "different operations of a class reach different methods")
	c.Rule("implemented", "every operation of the metamodel has a Go method with its parameter types")
	c.Rule("identifier", "a reflective call passes on the identifier its feature or operation resolves to")
	m := c.metamodel()
	for _, cl := range m.ImplClasses() {
		n := m.Impl[cl]
		fn := c.methodOn(n, "EInvokeFromID")
		reached := map[*types.Func]*mmElem{}
		for _, op := range cl.AllOps() {
			key := cl.Name + "." + opKey(op)
			if op.Class == cl {
				c.Decide(len(c.operationMethods(op)) > 0, "implemented", key, op.Pos, "interface %s has no method for operation %s with its parameter types", op.Class.Name, op)
			}
			if fn == nil {
				if op.Class == cl {
					c.Bad("call", key, n.Obj().Pos(), "%s has no EInvokeFromID: operation %s cannot be invoked reflectively", n.Obj().Name(), op)
				}
				continue
			}
			s := c.reflective(cl, fn, 1, op.ID(), nil)
			// operations are not helpers
			inl := s.sframe.inline
			s.sframe.inline = func(cc *ssa.CallCommon, g *ssa.Function) bool {
				if g.Name() == "EInvokeFromID" || (c.interfaceOf(cl) != nil && methodNamed(c.interfaceOf(cl), g.Signature.Params().Len(), g.Name()) != nil) {
					return false
				}
				return inl(cc, g)
			}
			if op.Class != cl {
				if s.must(func(in ssa.Instruction, f *sframe) bool { return s.baseCall(in, f, 0) }) {
					s.inherited("call", key, op)
					continue
				}
			}
			s.invoke(op, key, reached)
		}
	}
	c.reflectiveByElement()
	c.Floor("call", 40)
	c.Floor("arguments", 15)
	c.Floor("result", 35)
	c.Floor("implemented", 35)
	c.Floor("identifier", 5)
}

func (s *selfFrame) invoke(op *mmElem, key string, reached map[*types.Func]*mmElem) {
	c := s.c
	cands := map[string]*types.Func{}
	for _, f := range c.operationMethods(op) {
		cands[f.Name()] = f
	}
	it := c.interfaceOf(s.cl)
	isOp := func(in ssa.Instruction, f *sframe) (*ssa.Call, *types.Func) {
		call, ok := in.(*ssa.Call)
		if !ok || recvOf(&call.Call) == nil || it == nil {
			return nil, nil
		}
		g := methodNamed(it, len(argsOf(&call.Call)), calleeName(&call.Call))
		if g == nil || !s.isSelf(recvOf(&call.Call), f, 0) {
			return nil, nil
		}
		if n := calleeName(&call.Call); strings.HasPrefix(n, "AsE") || n == "GetInterfaces" || n == "EInvokeFromID" {
			return nil, nil
		}
		return call, g
	}
	hit := func(in ssa.Instruction, f *sframe) bool {
		call, g := isOp(in, f)
		return call != nil && cands[g.Name()] != nil
	}
	if !s.must(hit) {
		var got []string
		s.each(func(in ssa.Instruction, f *sframe) {
			if call, g := isOp(in, f); call != nil {
				got = append(got, g.Name())
			}
		})
		c.Bad("call", key, s.fn.Pos(), "%s does not call the method of operation %s on every path (it calls %s)", fname(s.fn), op, strings.Join(sorted(append(got, "nothing"))[:], ", "))
		return
	}
	c.Ok("call", key, s.fn.Pos())
	argsOK, other := true, ""
	s.each(func(in ssa.Instruction, f *sframe) {
		call, g := isOp(in, f)
		if call == nil {
			return
		}
		if cands[g.Name()] == nil {
			other = g.Name()
			return
		}
		for i, a := range argsOf(&call.Call) {
			if k := s.argument(a, f); k != int64(i) {
				argsOK = false
			}
		}
		if prev := reached[g]; prev != nil && prev != op {
			c.Bad("distinct", key, call.Pos(), "operations %s and %s both reach %s", prev, op, g.Name())
		}
		reached[g] = op
	})
	if other != "" {
		c.Bad("call", key+" "+other, s.fn.Pos(), "%s also calls %s when asked to invoke %s", fname(s.fn), other, op)
	}
	c.Decide(argsOK, "arguments", key, s.fn.Pos(), "%s does not pass each argument of %s in its position", fname(s.fn), op)
	ok := true
	for _, r := range s.returns() {
		for _, x := range s.expand(r.Results[0]) {
			if op.Init().Type == nil {
				ok = ok && isNilConst(x.v)
				continue
			}
			v := x.v
			if e, isE := v.(*ssa.Extract); isE && e.Index == 0 {
				v = e.Tuple
			}
			in, isIn := v.(ssa.Instruction)
			if !isIn || !hit(in, x.f) {
				ok = false
			}
		}
	}
	c.Decide(ok, "result", key, s.fn.Pos(), "%s does not return what operation %s returns", fname(s.fn), op)
	c.Ok("distinct", key, s.fn.Pos())
}

// reflectiveByElement: EGet(feature) and the like pass on EFeatureID(feature), and
// EInvoke(operation) EOperationID(operation).
func (c *Ctx) reflectiveByElement() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil {
			continue
		}
		idOf := ""
		switch fn.Name() {
		case "EGet", "EGetResolve", "ESet", "EUnset", "EIsSet":
			idOf = "EFeatureID"
		case "EInvoke":
			idOf = "EOperationID"
		default:
			continue
		}
		target := map[string]string{"EGet": "EGetFromID", "EGetResolve": "EGetFromID", "ESet": "ESetFromID", "EUnset": "EUnsetFromID", "EIsSet": "EIsSetFromID", "EInvoke": "EInvokeFromID"}[fn.Name()]
		f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
			return !strings.HasSuffix(g.Name(), "FromID") && g.Name() != idOf && g.Signature.Recv() != nil && namedStruct(g.Signature.Recv().Type()) == namedStruct(fn.Signature.Recv().Type())
		})
		found, ok := false, true
		f.each(func(in ssa.Instruction, sf *sframe) {
			call, isCall := in.(*ssa.Call)
			if !isCall || !strings.HasSuffix(calleeName(&call.Call), "FromID") {
				return
			}
			if calleeName(&call.Call) != target {
				ok = false
				return
			}
			found = true
			args := argsOf(&call.Call)
			id, isIDCall := one(sf.expand(args[0])).(*ssa.Call)
			if !isIDCall || calleeName(&id.Call) != idOf || !isTop(sf.expand(argsOf(&id.Call)[0]), fn.Params[1]) {
				ok = false
			}
			for i := 1; i < len(args); i++ {
				vs := sf.expand(args[i])
				if i+1 < len(fn.Params) && !isTop(vs, fn.Params[i+1]) {
					ok = false
				}
				if i+1 >= len(fn.Params) { // EGet resolves
					if b := foldCond(args[i], sf.vals); b == nil || !*b {
						if k, isC := one(vs).(*ssa.Const); !isC || k.Value == nil || k.Value.String() != "true" {
							ok = false
						}
					}
				}
			}
		})
		if !found && fn.Name() == "EGet" { // through EGetResolve
			f.each(func(in ssa.Instruction, sf *sframe) {
				if call, isCall := in.(*ssa.Call); isCall && calleeName(&call.Call) == "EGetResolve" && isTop(sf.expand(argsOf(&call.Call)[0]), fn.Params[1]) {
					found = true
				}
			})
		}
		// every normal way out passes the call
		miss := !f.must(func(in ssa.Instruction, sf *sframe) bool {
			call, isCall := in.(*ssa.Call)
			return isCall && (calleeName(&call.Call) == target || calleeName(&call.Call) == "EGetResolve")
		})
		c.Decide(found && ok && !miss, "identifier", fname(fn), fn.Pos(), "%s does not pass the identifier %s gives its %s to %s on every path", fname(fn), idOf, fn.Params[1].Name(), target)
	}
}
