package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- call resolution

// implementers returns the in-package (non-mock) methods an interface method
// call may reach.
func (p *Program) implementers(iface *types.Interface, m *types.Func) []*ssa.Function {
	key := types.TypeString(iface, nil) + "." + m.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, n := range p.Named {
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		if n.TypeParams().Len() > 0 {
			continue
		}
		for _, t := range []types.Type{types.NewPointer(n), n} {
			if !types.Implements(t, iface) {
				continue
			}
			ms := p.SSA.MethodSets.MethodSet(t)
			sel := ms.Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			fn := p.unwrap(p.SSA.MethodValue(sel))
			if fn != nil && !seen[fn] {
				seen[fn] = true
				out = append(out, fn)
			}
			break
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	p.implCache[key] = out
	return out
}

// unwrap follows a synthetic promotion wrapper to the method it promotes.
func (p *Program) unwrap(fn *ssa.Function) *ssa.Function {
	if fn != nil {
		if o := fn.Origin(); o != nil && o.Blocks != nil {
			return o
		}
	}
	for fn != nil && fn.Synthetic != "" && fn.Object() != nil {
		o, ok := fn.Object().(*types.Func)
		if !ok {
			return fn
		}
		t := p.SSA.FuncValue(o)
		if t == nil || t == fn {
			return fn
		}
		return t
	}
	return fn
}

// callees resolves a call to in-package functions. ext reports that code
// outside the package may be reached as well (or the target is unknown).
func (p *Program) callees(cc *ssa.CallCommon) (fns []*ssa.Function, ext bool) {
	if cc.IsInvoke() {
		iface, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			if tp, ok := cc.Value.Type().(*types.TypeParam); ok {
				iface, _ = tp.Constraint().Underlying().(*types.Interface)
			}
		}
		if iface == nil {
			return nil, true
		}
		fns = p.implementers(iface, cc.Method)
		return fns, len(fns) == 0
	}
	if f := cc.StaticCallee(); f != nil {
		f = p.unwrap(f)
		if f.Blocks == nil {
			return nil, true
		}
		return []*ssa.Function{f}, false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	return p.funcValues(cc.Value, map[ssa.Value]bool{})
}

// funcValues tracks the functions a function value may denote.
func (p *Program) funcValues(v ssa.Value, seen map[ssa.Value]bool) (fns []*ssa.Function, ext bool) {
	if seen[v] {
		return nil, false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{p.unwrap(v.Fn.(*ssa.Function))}, false
	case *ssa.Function:
		v = p.unwrap(v)
		if v.Blocks == nil {
			return nil, true
		}
		return []*ssa.Function{v}, false
	case *ssa.Phi:
		for _, e := range v.Edges {
			f, x := p.funcValues(e, seen)
			fns = append(fns, f...)
			ext = ext || x
		}
		return
	case *ssa.ChangeType:
		return p.funcValues(v.X, seen)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if st := singleStore(v.X); st != nil {
				return p.funcValues(st, seen)
			}
			if fv, ok := v.X.(*ssa.FreeVar); ok {
				if b := rootBinding(fv); b != nil {
					if st := singleStore(b); st != nil {
						return p.funcValues(st, seen)
					}
				}
			}
			// struct field of function type: every function stored to that field
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return p.fieldFuncs(fa, seen)
			}
		}
		return nil, true
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return p.funcValues(b, seen)
		}
		return nil, true
	case *ssa.Parameter:
		return p.paramFuncs(v, seen)
	case *ssa.Call:
		// a closure returned by an in-package function
		if f := v.Call.StaticCallee(); f != nil {
			f = p.unwrap(f)
			if f.Blocks != nil && f.Signature.Results().Len() == 1 {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						g, x := p.funcValues(r.Results[0], seen)
						fns = append(fns, g...)
						ext = ext || x
					}
				}
				return
			}
		}
		return nil, true
	case *ssa.Const:
		return nil, false
	}
	return nil, true
}

func (p *Program) fieldFuncs(fa *ssa.FieldAddr, seen map[ssa.Value]bool) (fns []*ssa.Function, ext bool) {
	want := fieldOf(fa)
	if want == nil {
		return nil, true
	}
	found := false
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa2, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa2) != want {
					continue
				}
				found = true
				f, x := p.funcValues(st.Val, seen)
				fns = append(fns, f...)
				ext = ext || x
			}
		}
	}
	if !found {
		ext = true
	}
	return
}

// paramFuncs collects the functions passed for a function-typed parameter at
// every in-package static call site.
func (p *Program) paramFuncs(v *ssa.Parameter, seen map[ssa.Value]bool) (fns []*ssa.Function, ext bool) {
	fn := v.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == v {
			idx = i
		}
	}
	if idx < 0 {
		return nil, true
	}
	sites := p.staticSites(fn)
	if len(sites) == 0 {
		return nil, true
	}
	if o := fn.Object(); o != nil && o.Exported() {
		ext = true
	}
	for _, cc := range sites {
		if idx >= len(cc.Args) {
			continue
		}
		f, x := p.funcValues(cc.Args[idx], seen)
		fns = append(fns, f...)
		ext = ext || x
	}
	return
}

// staticSites returns all static in-package call sites of fn.
func (p *Program) staticSites(fn *ssa.Function) []*ssa.CallCommon {
	m, _ := p.memo["sites"].(map[*ssa.Function][]*ssa.CallCommon)
	if m == nil {
		m = map[*ssa.Function][]*ssa.CallCommon{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						cc := ci.Common()
						if t := cc.StaticCallee(); t != nil {
							t = p.unwrap(t)
							m[t] = append(m[t], cc)
						}
					}
				}
			}
		}
		p.memo["sites"] = m
	}
	return m[fn]
}

// binding is the value captured for a free variable.
func binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	if idx < 0 || fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

// rootBinding follows a captured variable out through nested closures.
func rootBinding(fv *ssa.FreeVar) ssa.Value {
	b := binding(fv)
	for i := 0; i < 16; i++ {
		f2, ok := b.(*ssa.FreeVar)
		if !ok {
			break
		}
		b = binding(f2)
	}
	return b
}

// singleStore returns the only value ever stored to a local cell (nil if none
// or several). Captured cells count stores in the closures too.
func singleStore(addr ssa.Value) ssa.Value {
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	n := 0
	var visit func(a ssa.Value)
	visit = func(a ssa.Value) {
		refs := a.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == a {
					n++
					val = r.Val
				} else {
					n += 2 // address stored elsewhere
				}
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == a {
						visit(f.FreeVars[i])
					}
				}
			}
		}
	}
	visit(al)
	if n == 1 {
		return val
	}
	return nil
}

// fieldOf is the struct field a FieldAddr denotes.
func fieldOf(fa *ssa.FieldAddr) *types.Var {
	t := fa.X.Type().Underlying()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem().Underlying()
	}
	st, ok := t.(*types.Struct)
	if !ok {
		return nil
	}
	return originVar(st.Field(fa.Field))
}

func fieldOfVal(f *ssa.Field) *types.Var {
	st, ok := f.X.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return originVar(st.Field(f.Field))
}

func originVar(v *types.Var) *types.Var {
	if v == nil {
		return nil
	}
	return v.Origin()
}

// ---------------------------------------------------------------- access paths

// Path names a storage location or value symbolically: a root value and a
// chain of fields and niladic accessors.
type Path struct {
	Root ssa.Value
	Sel  string
}

func (p Path) valid() bool { return p.Root != nil }

func (p Path) String() string {
	n := "?"
	if p.Root != nil {
		switch r := p.Root.(type) {
		case *ssa.Global:
			n = r.Name()
		default:
			n = r.Name()
		}
		if fn := p.Root.Parent(); fn != nil {
			n = fname(fn) + ":" + n
		}
	}
	return n + p.Sel
}

func pathOf(v ssa.Value) Path { return pathOfD(v, 0) }

func pathOfD(v ssa.Value, d int) Path {
	if d > 24 {
		return Path{v, ""}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		b := pathOfD(x.X, d+1)
		return Path{b.Root, b.Sel + fieldSel(fieldOf(x))}
	case *ssa.Field:
		b := pathOfD(x.X, d+1)
		return Path{b.Root, b.Sel + fieldSel(fieldOfVal(x))}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc:
				if s := singleStore(a); s != nil {
					return pathOfD(s, d+1)
				}
				return Path{a, ""}
			case *ssa.FreeVar:
				if b := rootBinding(a); b != nil {
					if s := singleStore(b); s != nil {
						return pathOfD(s, d+1)
					}
					return Path{b, ""}
				}
				return Path{a, ""}
			case *ssa.Global:
				return Path{a, ""}
			case *ssa.IndexAddr:
				b := pathOfD(a.X, d+1)
				return Path{b.Root, b.Sel + "[*]"}
			}
			return pathOfD(x.X, d+1)
		}
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return pathOfD(b, d+1)
		}
	case *ssa.ChangeInterface:
		return pathOfD(x.X, d+1)
	case *ssa.MakeInterface:
		return pathOfD(x.X, d+1)
	case *ssa.ChangeType:
		return pathOfD(x.X, d+1)
	case *ssa.TypeAssert:
		return pathOfD(x.X, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return pathOfD(ta.X, d+1)
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && x.Index == 2 {
				b := pathOfD(rg.X, d+1)
				return Path{b.Root, b.Sel + "[*]"}
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			b := pathOfD(lk.X, d+1)
			return Path{b.Root, b.Sel + "[*]"}
		}
	case *ssa.Lookup:
		b := pathOfD(x.X, d+1)
		return Path{b.Root, b.Sel + "[*]"}
	case *ssa.IndexAddr:
		b := pathOfD(x.X, d+1)
		return Path{b.Root, b.Sel + "[*]"}
	case *ssa.Call:
		// niladic accessor on a symbolic receiver
		cc := x.Common()
		if cc.IsInvoke() && len(cc.Args) == 0 {
			b := pathOfD(cc.Value, d+1)
			return Path{b.Root, b.Sel + "." + cc.Method.Name() + "()"}
		}
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) == 1 {
			b := pathOfD(cc.Args[0], d+1)
			return Path{b.Root, b.Sel + "." + f.Name() + "()"}
		}
	}
	return Path{v, ""}
}

// fieldSel is the selector of a field; embedded fields are transparent.
func fieldSel(f *types.Var) string {
	if f == nil {
		return ".?"
	}
	if f.Embedded() {
		return ""
	}
	return "." + f.Name()
}

// rebase maps a path of the callee to the caller at a call site.
func rebase(p Path, callee *ssa.Function, cc *ssa.CallCommon) Path {
	if par, ok := p.Root.(*ssa.Parameter); ok && par.Parent() == callee {
		for i, q := range callee.Params {
			if q == par {
				var arg ssa.Value
				if cc.IsInvoke() {
					if i == 0 {
						arg = cc.Value
					} else if i-1 < len(cc.Args) {
						arg = cc.Args[i-1]
					}
				} else if i < len(cc.Args) {
					arg = cc.Args[i]
				}
				if arg == nil {
					return p
				}
				b := pathOf(arg)
				return Path{b.Root, b.Sel + p.Sel}
			}
		}
	}
	return p
}

// ---------------------------------------------------------------- small helpers

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	i, ok := constant.Int64Val(c.Value)
	return i, ok
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && !isBasic(c.Type())
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// typeName is the bare name of a (pointer to a) named type.
func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// qualTypeName is the package-qualified name of a (pointer to a) named type.
func qualTypeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

// calleeName is the bare method or function name of a call.
func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			return o.Name()
		}
		return f.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// calleePkg is the import path of the package declaring the called function.
func calleePkg(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		if cc.Method.Pkg() != nil {
			return cc.Method.Pkg().Path()
		}
		return ""
	}
	if f := cc.StaticCallee(); f != nil && f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// recvOf returns the receiver value of a method call (nil for functions).
func recvOf(cc *ssa.CallCommon) ssa.Value {
	if cc.IsInvoke() {
		return cc.Value
	}
	if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
		return cc.Args[0]
	}
	return nil
}

// argsOf returns the arguments of a call without the receiver.
func argsOf(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return cc.Args
	}
	if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
		return cc.Args[1:]
	}
	return cc.Args
}

func (p *Program) isEcore(path string) bool { return path == p.Ecore.PkgPath }

func calls(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, ci)
			}
		}
	}
	return out
}

func typeInPkg(t types.Type, suffix string) bool {
	return strings.HasSuffix(qualTypeName(t), suffix)
}

// fileOf returns the base name of the file declaring fn.
func (p *Program) fileOf(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	f := p.Fset.Position(pos).Filename
	return f[strings.LastIndexByte(f, '/')+1:]
}
