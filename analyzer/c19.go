package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C19", checkC19) }

// constOf is the constant every value v can be, when there is exactly one.
func (f *sframe) constOf(v ssa.Value) constant.Value {
	if k := foldVal(v, f.vals, 0); k != nil {
		return k
	}
	var res constant.Value
	for _, x := range f.expand(v) {
		k := foldVal(x.v, x.f.vals, 0)
		if k == nil || (res != nil && !constant.Compare(res, token.EQL, k)) {
			return nil
		}
		res = k
	}
	return res
}

// featureOf names the feature identifier expression v computes:
// the class-relative identifier of a feature (of: whose class; feature: which).
type idExpr struct {
	base  bool // EOPPOSITE_FEATURE_BASE - id
	konst *int64
	field string // a field of that name
	class *fval  // X in X.EClass().GetFeatureID(F)
	feat  *fval  // F
	own   *fval  // F in F.GetFeatureID()
	call  string // another call
	param *ssa.Parameter
}

func (f *sframe) identifier(v ssa.Value) []idExpr {
	var out []idExpr
	if k := f.constOf(v); k != nil && k.Kind() == constant.Int {
		n, _ := constant.Int64Val(k)
		return []idExpr{{konst: &n}}
	}
	for _, x := range f.expand(v) {
		switch t := x.v.(type) {
		case *ssa.Const:
			if n, ok := constInt(t); ok {
				out = append(out, idExpr{konst: &n})
				continue
			}
		case *ssa.BinOp:
			if t.Op == token.SUB {
				if k := foldVal(t.X, x.f.vals, 0); k != nil {
					if n, _ := constant.Int64Val(k); n == -1 {
						for _, e := range x.f.identifier(t.Y) {
							e.base = !e.base
							out = append(out, e)
						}
						continue
					}
				}
			}
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if fv := addrField(t.X); fv != nil {
					out = append(out, idExpr{field: fv.Name()})
					continue
				}
			}
		case *ssa.Parameter:
			out = append(out, idExpr{param: t})
			continue
		case *ssa.Call:
			n := calleeName(&t.Call)
			r := recvOf(&t.Call)
			if n == "GetFeatureID" && r != nil {
				if a := argsOf(&t.Call); len(a) == 1 {
					if cc, ok := one(x.f.expand(r)).(*ssa.Call); ok && calleeName(&cc.Call) == "EClass" {
						vs := x.f.expand(r)
						out = append(out, idExpr{class: &fval{recvOf(&cc.Call), vs[0].f}, feat: &fval{a[0], x.f}})
						continue
					}
				} else {
					out = append(out, idExpr{own: &fval{r, x.f}})
					continue
				}
			}
			out = append(out, idExpr{call: n})
			continue
		}
		out = append(out, idExpr{call: "?"})
	}
	return out
}

// sameObject: both denote the same object, through its views.
func sameObject(a, b fval, d int) bool {
	if d > 6 {
		return false
	}
	av, bv := a.f.expand(a.v), b.f.expand(b.v)
	strip := func(vs []fval) map[string]bool {
		m := map[string]bool{}
		for _, x := range vs {
			for {
				if c, ok := x.v.(*ssa.Call); ok && recvOf(&c.Call) != nil && (strings.HasPrefix(calleeName(&c.Call), "AsE") || strings.HasPrefix(calleeName(&c.Call), "asE") || calleeName(&c.Call) == "GetInterfaces") {
					ys := x.f.expand(recvOf(&c.Call))
					if len(ys) == 1 {
						x = ys[0]
						continue
					}
				}
				if u, ok := x.v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, isF := u.X.(*ssa.FieldAddr); isF {
						ys := x.f.expand(fa.X)
						if fieldOf(fa).Embedded() && len(ys) == 1 {
							x = ys[0]
							continue
						}
						if len(ys) == 1 {
							m[fmt.Sprintf("%p.%s", ys[0].v, fieldOf(fa).Name())] = true
							goto next
						}
					}
				}
				if fa, ok := x.v.(*ssa.FieldAddr); ok && fieldOf(fa).Embedded() {
					ys := x.f.expand(fa.X)
					if len(ys) == 1 {
						x = ys[0]
						continue
					}
				}
				break
			}
			if k, isC := x.v.(*ssa.Const); isC && k.Value == nil {
				continue
			}
			m[fmt.Sprintf("%p", x.v)] = true
		next:
		}
		return m
	}
	x, y := strip(av), strip(bv)
	if len(x) == 0 || len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

func checkC19(c *Ctx) {
	c.Rule("inverse-add", "told that an object now refers to it through the opposite of a feature, an object records that in exactly that feature")
	c.Rule("inverse-remove", "told that an object no longer refers to it, an object removes that from exactly that feature")
	c.Rule("list-flags", "a feature's list is created with the identifier, opposite, containment, proxy and unset behaviour the metamodel declares")
	c.Rule("dynamic-flags", "a list created for a feature known only at run time takes its behaviour from that feature")
	c.Rule("list-inverse", "a list announces an element to the other end through the opposite's identifier, or its own for a containment without opposite, for additions and removals alike")
	c.Rule("identifier", "the identifier an inverse is announced with is the one the feature has in the class of the object it is announced to")
	c.Rule("dispatch", "an inverse announcement reaches the handler of the feature, or changes the container")
	c.Rule("dynamic-inverse", "inverse announcements for a feature known only at run time are recorded according to its kind")
	m := c.metamodel()
	for _, cl := range m.ImplClasses() {
		n := m.Impl[cl]
		for _, op := range []string{"EBasicInverseAdd", "EBasicInverseRemove"} {
			fn := c.methodOn(n, op)
			rule := map[string]string{"EBasicInverseAdd": "inverse-add", "EBasicInverseRemove": "inverse-remove"}[op]
			for _, e := range cl.AllFeatures() {
				key := cl.Name + "." + e.Name()
				needed := e.Init().HasOpposite || e.Container() || (op == "EBasicInverseRemove" && e.Init().Containment)
				if fn == nil {
					if needed && e.Class == cl {
						c.Bad(rule, key, n.Obj().Pos(), "%s has no %s: the other end of %s cannot be kept consistent", n.Obj().Name(), op, e)
					}
					continue
				}
				c.inverseHandler(rule, key, cl, e, fn, needed)
			}
		}
		c.staticLists(cl, n)
	}
	c.dynamicLists()
	c.listInverse()
	c.inverseIdentifiers()
	c.inverseDispatch()
	c.dynamicInverse()
	c.Floor("inverse-add", 80)
	c.Floor("inverse-remove", 80)
	c.Floor("list-flags", 24)
	c.Floor("dynamic-flags", 20)
	c.Floor("list-inverse", 8)
	c.Floor("identifier", 12)
	c.Floor("dispatch", 5)
	c.Floor("dynamic-inverse", 6)
}

func (c *Ctx) inverseHandler(rule, key string, cl *mmClass, e *mmElem, fn *ssa.Function, needed bool) {
	s := c.reflective(cl, fn, 2, e.ID(), nil)
	if e.Class != cl {
		if s.must(func(in ssa.Instruction, f *sframe) bool { return s.baseCall(in, f, 1) }) {
			s.inherited(rule, key, e)
			return
		}
	}
	add := rule == "inverse-add"
	reads, writes, base := s.touched2(1)
	if other := names(reads, e) + names(writes, e); other != "" {
		c.Bad(rule, key, fn.Pos(), "%s touches %s when told about the other end of %s", fname(fn), other, e)
		return
	}
	if !needed {
		c.Ok(rule, key, fn.Pos())
		return
	}
	if base {
		c.Bad(rule, key, fn.Pos(), "%s leaves %s to the base class, which does not have it", fname(fn), e)
		return
	}
	other, chain := fn.Params[1], fn.Params[3]
	isOther := func(v ssa.Value, f *sframe) bool {
		if add {
			return s.given(v, f, other)
		}
		vs := f.expand(v)
		for _, x := range vs {
			if !isNilConst(x.v) {
				return false
			}
		}
		return len(vs) > 0
	}
	record := func(in ssa.Instruction, f *sframe) bool {
		call, ok := in.(*ssa.Call)
		if !ok || recvOf(&call.Call) == nil {
			return false
		}
		n, a := calleeName(&call.Call), argsOf(&call.Call)
		r := recvOf(&call.Call)
		if e.Many() {
			want := map[bool]string{true: "AddWithNotification", false: "RemoveWithNotification"}[add]
			return n == want && len(a) == 2 && s.listOf(r, f, e) && isTop(f.expand(a[0]), other)
		}
		if n == "EBasicSetContainer" && e.Container() && s.isSelf(r, f, 0) && len(a) == 3 {
			k := f.constOf(a[1])
			return k != nil && k.ExactString() == fmt.Sprint(e.ID()) && isOther(a[0], f)
		}
		v, fe := accessorVerb(n)
		return (v == "basicSet" || v == "BasicSet") && cl.featureNamed(fe) == e && len(a) == 2 && s.isSelf(r, f, 0) && isOther(a[0], f)
	}
	if !s.must(record) {
		c.Bad(rule, key, fn.Pos(), "%s can return without recording the change of %s", fname(fn), e)
		return
	}
	// the chain handed in is passed on and the resulting one returned
	okChain, okRet := true, true
	detach := func(in ssa.Instruction, f *sframe) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeName(&call.Call)
		return n == "EBasicRemoveFromContainer" || n == "EInverseRemove"
	}
	s.each(func(in ssa.Instruction, f *sframe) {
		if !record(in, f) && !detach(in, f) {
			return
		}
		a := argsOf(&in.(*ssa.Call).Call)
		for _, x := range f.expand(a[len(a)-1]) {
			if x.v == chain && x.f.parent == nil {
				continue
			}
			if xin, ok := x.v.(ssa.Instruction); ok && (detach(xin, x.f)) {
				continue
			}
			okChain = false
		}
	})
	for _, r := range s.returns() {
		for _, x := range s.expand(r.Results[0]) {
			if xin, ok := x.v.(ssa.Instruction); !ok || !record(xin, x.f) {
				okRet = false
			}
		}
	}
	if !okChain || !okRet {
		c.Bad(rule, key, fn.Pos(), "%s loses notifications collected so far when recording the change of %s", fname(fn), e)
		return
	}
	if add && !e.Many() {
		// what the feature referred to before is let go first
		t := c.reflective(cl, fn, 2, e.ID(), nil)
		t.sframe.atoms = func(v ssa.Value, f *sframe) constant.Value {
			b, ok := v.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || !isNilConst(b.Y) && !isNilConst(b.X) {
				return nil
			}
			for _, y := range []ssa.Value{b.X, b.Y} {
				for _, x := range f.expand(y) {
					if call, isCall := x.v.(*ssa.Call); isCall {
						if n := calleeName(&call.Call); n == "EInternalContainer" || n == "EContainer" {
							return constant.MakeBool(b.Op == token.NEQ)
						}
					}
					if got, _ := t.featureRead(x); got == e {
						return constant.MakeBool(b.Op == token.NEQ)
					}
				}
			}
			return nil
		}
		t.decide()
		order, seenRecord := true, false
		t.each(func(in ssa.Instruction, f *sframe) {
			if record(in, f) {
				seenRecord = true
			}
			if detach(in, f) && seenRecord {
				order = false
			}
		})
		if !t.must(detach) || !order {
			c.Bad(rule, key, fn.Pos(), "%s can record the new value of %s without first letting go of the old one", fname(fn), e)
			return
		}
	}
	c.Ok(rule, key, fn.Pos())
}

// touched2 is touched for methods whose identifier is not the first argument.
func (s *selfFrame) touched2(idArg int) (reads, writes map[*mmElem]bool, base bool) {
	reads, writes, _ = s.touched()
	s.each(func(in ssa.Instruction, f *sframe) {
		if s.baseCall(in, f, idArg) {
			base = true
		}
	})
	return
}

// staticLists: lists created with a constant feature identifier.
func (c *Ctx) staticLists(cl *mmClass, n *types.Named) {
	for i := 0; i < n.NumMethods(); i++ {
		top := c.byObj[n.Method(i)]
		if top == nil {
			continue
		}
		for _, fn := range withClosures(top) {
			for _, ci := range calls(fn) {
				g := ci.Common().StaticCallee()
				if g == nil || g.Signature.Recv() != nil || !isEcoreFn(c, g) {
					continue
				}
				args := map[string]ssa.Value{}
				for j, p := range g.Params {
					if j < len(ci.Common().Args) {
						args[p.Name()] = ci.Common().Args[j]
					}
				}
				fid := args["featureID"]
				if fid == nil || !strings.HasPrefix(g.Name(), "NewBasic") {
					continue
				}
				f := c.specFrame(fn, map[ssa.Value]constant.Value{}, nil)
				id := f.constOf(fid)
				_, feat := accessorVerb(top.Name())
				e := cl.featureNamed(feat)
				if id == nil {
					continue
				}
				if e == nil {
					if nid, _ := constant.Int64Val(id); nid >= 0 && int(nid) < len(cl.AllFeatures()) {
						e = cl.AllFeatures()[nid]
					}
				}
				if e == nil {
					c.Bad("list-flags", fname(top), ci.Pos(), "%s creates a list for a feature %s does not have", fname(top), cl.Name)
					continue
				}
				in := e.Init()
				opp := int64(-1)
				if in.HasOpposite && in.Opposite != nil {
					opp = in.Opposite.ID()
				}
				want := map[string]constant.Value{
					"featureID":        constant.MakeInt64(e.ID()),
					"inverseFeatureID": constant.MakeInt64(opp),
					"unset":            constant.MakeBool(in.Unsettable),
				}
				if strings.Contains(g.Name(), "EObjectList") {
					want["containment"] = constant.MakeBool(in.Containment)
					want["inverse"] = constant.MakeBool(in.Containment || in.HasOpposite)
					want["opposite"] = constant.MakeBool(in.HasOpposite)
					want["proxies"] = constant.MakeBool(in.Resolve)
				}
				if strings.Contains(g.Name(), "DataTypeList") {
					want = map[string]constant.Value{"featureID": constant.MakeInt64(e.ID()), "isUnique": constant.MakeBool(in.Unique)}
				}
				for _, k := range keysOfAny(want) {
					w := want[k]
					got := f.constOf(args[k])
					if args[k] == nil {
						c.Bad("list-flags", e.String()+" "+k, ci.Pos(), "%s takes no %s", g.Name(), k)
						continue
					}
					c.Decide(got != nil && got.ExactString() == w.ExactString(), "list-flags", e.String()+" "+k, ci.Pos(), "%s creates the list of %s with %s %v where the metamodel declares %s", fname(top), e, k, got, w)
				}
			}
		}
	}
}

func keysOfAny(m map[string]constant.Value) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return keysOf(b)
}

func isEcoreFn(c *Ctx, g *ssa.Function) bool { return g.Pkg != nil && c.isEcore(g.Pkg.Pkg.Path()) }

// featureAtoms assumes the properties of the feature a function is given.
func featureAtoms(feature func(vs []fval) bool, props map[string]bool, opposite bool) func(v ssa.Value, f *sframe) constant.Value {
	isOpp := func(x fval) bool {
		call, ok := x.v.(*ssa.Call)
		return ok && calleeName(&call.Call) == "GetEOpposite" && recvOf(&call.Call) != nil && feature(x.f.expand(recvOf(&call.Call)))
	}
	return func(v ssa.Value, f *sframe) constant.Value {
		switch t := v.(type) {
		case *ssa.Call:
			n := calleeName(&t.Call)
			r := recvOf(&t.Call)
			if r == nil && len(t.Call.Args) == 1 {
				r = t.Call.Args[0]
			}
			if b, ok := props[n]; ok && r != nil && feature(f.expand(r)) {
				return constant.MakeBool(b)
			}
		case *ssa.Extract:
			if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 && feature(f.expand(ta.X)) {
				if tn := typeName(ta.AssertedType); tn == "EReference" {
					return constant.MakeBool(true)
				} else if tn == "EAttribute" {
					return constant.MakeBool(false)
				}
			}
		case *ssa.BinOp:
			if t.Op != token.EQL && t.Op != token.NEQ {
				return nil
			}
			for _, p := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
				if !isNilConst(p[1]) {
					continue
				}
				vs := f.expand(p[0])
				if len(vs) == 1 && isOpp(vs[0]) {
					return constant.MakeBool((t.Op == token.EQL) != opposite)
				}
				if feature(vs) {
					return constant.MakeBool(t.Op == token.NEQ)
				}
			}
		}
		return nil
	}
}

// dynamicLists: lists built from a feature object.
func (c *Ctx) dynamicLists() {
	for _, fn := range c.Funcs {
		if fn.Parent() != nil {
			continue
		}
		var fp *ssa.Parameter
		for _, p := range fn.Params {
			if n := typeName(p.Type()); n == "EStructuralFeature" || n == "EReference" {
				fp = p
			}
		}
		if fp == nil {
			continue
		}
		builds := false
		for _, ci := range calls(fn) {
			if g := ci.Common().StaticCallee(); g != nil && g.Name() == "NewBasicEObjectList" {
				builds = true
			}
		}
		flags := c.flagFields(fn)
		if !builds && len(flags) == 0 {
			continue
		}
		feature := func(vs []fval) bool {
			if len(vs) == 0 {
				return false
			}
			for _, x := range vs {
				if x.v == ssa.Value(fp) && x.f.parent == nil {
					continue
				}
				if u, ok := x.v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fv := addrField(u.X); fv != nil && fv.Name() == "feature" {
						continue
					}
				}
				return false
			}
			return true
		}
		bad := map[string]string{}
		seen := map[string]bool{}
		pos := fn.Pos()
		for bits := 0; bits < 16; bits++ {
			cont, opp, res, uns := bits&1 != 0, bits&2 != 0, bits&4 != 0, bits&8 != 0
			want := map[string]bool{"containment": cont, "inverse": cont || opp, "opposite": opp, "proxies": res, "unset": uns}
			f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
				return g.Signature.Recv() != nil && fn.Signature.Recv() != nil && namedStruct(g.Signature.Recv().Type()) == namedStruct(fn.Signature.Recv().Type()) || g.Signature.Recv() == nil && g.Name() != "NewBasicEObjectList" && strings.ToLower(g.Name()[:1]) == g.Name()[:1]
			})
			atoms := featureAtoms(feature, map[string]bool{"IsContainment": cont, "IsContains": cont, "IsBidirectional": opp, "IsResolveProxies": res, "IsUnsettable": uns, "IsUnique": true, "IsMany": true}, opp)
			f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
				// what was decided before holds when it is looked at again
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fv := addrField(u.X); fv != nil && flags[fv.Name()] {
						return constant.MakeBool(want[fv.Name()])
					}
				}
				return atoms(v, sf)
			}
			f.decide()
			f.each(func(ssa.Instruction, *sframe) {})
			f.blocks, f.edges = specialised(f.fn, f.vals)
			check := func(flag string, vals []fval) {
				seen[flag] = true
				for _, x := range vals {
					k := x.f.constOf(x.v)
					if k == nil || k.Kind() != constant.Bool {
						bad[flag] = "does not take it from the feature"
					} else if constant.BoolVal(k) != want[flag] {
						bad[flag] = fmt.Sprintf("gives %t for a feature with containment %t, opposite %t, resolve %t, unsettable %t", constant.BoolVal(k), cont, opp, res, uns)
					}
				}
			}
			if builds {
				f.each(func(in ssa.Instruction, sf *sframe) {
					call, ok := in.(*ssa.Call)
					if !ok {
						return
					}
					g := call.Call.StaticCallee()
					if g == nil || g.Name() != "NewBasicEObjectList" {
						return
					}
					pos = call.Pos()
					for j, p := range g.Params {
						if _, isFlag := want[p.Name()]; isFlag {
							check(p.Name(), []fval{{call.Call.Args[j], sf}})
						}
					}
				})
			}
			for name := range flags {
				check(name, f.finalStores(name))
			}
		}
		for _, k := range keysOf(seen) {
			key := ownerName(fn) + " " + k
			if bad[k] != "" {
				c.Bad("dynamic-flags", key, pos, "%s %s when it decides %s", fname(fn), bad[k], k)
			} else {
				c.Ok("dynamic-flags", key, pos)
			}
		}
	}
	// a feature's collection takes part in inverse handling
	{
		for _, fn := range c.Funcs {
			if fn.Signature.Recv() != nil || fn.Parent() != nil || !strings.HasPrefix(fn.Name(), "New") || fn.Signature.Results().Len() != 1 {
				continue
			}
			keyed := false
			for _, p := range fn.Params {
				if p.Name() == "featureID" || p.Name() == "feature" {
					keyed = true
				}
			}
			t := fn.Signature.Results().At(0).Type()
			if !keyed || !implementsNamed(c.Program, t, "EList") || namedStruct(t) == nil {
				continue
			}
			c.Decide(implementsNamed(c.Program, t, "ENotifyingList"), "dynamic-inverse", fname(fn)+" notifying", fn.Pos(), "%s creates a collection that cannot be told about an element through its other end: the inverse handlers skip it", fname(fn))
		}
	}
	// identifiers a list is created with at run time
	for _, fn := range c.Funcs {
		for _, ci := range calls(fn) {
			g := ci.Common().StaticCallee()
			if g == nil || !strings.HasPrefix(g.Name(), "NewBasicE") {
				continue
			}
			for j, p := range g.Params {
				if p.Name() != "featureID" && p.Name() != "inverseFeatureID" {
					continue
				}
				f := c.specFrame(fn, map[ssa.Value]constant.Value{}, nil)
				for _, e := range f.identifier(ci.Common().Args[j]) {
					if e.own != nil {
						c.Bad("dynamic-flags", ownerName(fn)+" "+g.Name()+" "+p.Name(), ci.Pos(), "%s identifies the feature by the number it has in the class declaring it, which differs in a class with several super types", fname(fn))
					}
				}
				c.Ok("dynamic-flags", fname(fn)+" "+g.Name()+" "+p.Name()+" known", ci.Pos())
			}
		}
	}
}

// flagFields are the list behaviour fields fn assigns.
func (c *Ctx) flagFields(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fv := addrField(st.Addr); fv != nil {
					switch fv.Name() {
					case "containment", "inverse", "opposite", "proxies", "unset":
						if isBool(fv.Type()) {
							out[fv.Name()] = true
						}
					}
				}
			}
		}
	}
	if len(out) < 3 {
		return nil
	}
	return out
}

// finalStores are the values the field can be left with.
func (f *sframe) finalStores(name string) []fval {
	last := map[*ssa.BasicBlock]*ssa.Store{}
	for b := range f.blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fv := addrField(st.Addr); fv != nil && fv.Name() == name {
					last[b] = st
				}
			}
		}
	}
	var out []fval
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if seen[b] || !f.blocks[b] {
			return
		}
		seen[b] = true
		if st := last[b]; st != nil {
			out = append(out, fval{st.Val, f})
			return
		}
		for _, p := range b.Preds {
			if f.edges[[2]int{p.Index, b.Index}] {
				back(p)
			}
		}
	}
	for _, r := range f.returns() {
		back(r.Block())
	}
	return out
}

// listInverse: inverseAdd and inverseRemove of the lists.
func (c *Ctx) listInverse() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || (fn.Name() != "inverseAdd" && fn.Name() != "inverseRemove") {
			continue
		}
		n := namedStruct(fn.Signature.Recv().Type())
		if n == nil || !hasField(n, "inverse") || !hasField(n, "opposite") {
			continue
		}
		target := map[string]string{"inverseAdd": "EInverseAdd", "inverseRemove": "EInverseRemove"}[fn.Name()]
		for bits := 0; bits < 4; bits++ {
			inverse, opposite := bits&1 != 0, bits&2 != 0
			if opposite && !inverse {
				continue
			}
			key := fmt.Sprintf("%s inverse=%t opposite=%t", fname(fn), inverse, opposite)
			f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
				return g.Signature.Recv() != nil && namedStruct(g.Signature.Recv().Type()) == n && g.Name() != "GetFeatureID"
			})
			f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
				switch t := v.(type) {
				case *ssa.UnOp:
					if fv := addrField(t.X); t.Op == token.MUL && fv != nil {
						switch fv.Name() {
						case "inverse":
							return constant.MakeBool(inverse)
						case "opposite":
							return constant.MakeBool(opposite)
						}
					}
				case *ssa.BinOp:
					// the element is an object
					for _, p := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
						if isNilConst(p[1]) && isTop(sf.expand(p[0]), fn.Params[1]) {
							return constant.MakeBool(t.Op == token.NEQ)
						}
					}
				case *ssa.Extract:
					if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 && isTop(sf.expand(ta.X), fn.Params[1]) {
						return constant.MakeBool(true)
					}
				}
				return nil
			}
			f.decide()
			f.each(func(ssa.Instruction, *sframe) {})
			f.blocks, f.edges = specialised(f.fn, f.vals)
			msg := ""
			is := func(in ssa.Instruction, sf *sframe) bool {
				call, ok := in.(*ssa.Call)
				return ok && (calleeName(&call.Call) == "EInverseAdd" || calleeName(&call.Call) == "EInverseRemove")
			}
			any := false
			f.each(func(in ssa.Instruction, sf *sframe) {
				if !is(in, sf) {
					return
				}
				any = true
				call := in.(*ssa.Call)
				a := argsOf(&call.Call)
				if calleeName(&call.Call) != target {
					msg = "announces the opposite change"
				}
				if !isTop(sf.expand(recvOf(&call.Call)), fn.Params[1]) {
					msg = "announces the change to something other than the element"
				}
				if !isTop(sf.expand(a[2]), fn.Params[2]) {
					msg = "does not pass on the notifications collected so far"
				}
				for _, e := range sf.identifier(a[1]) {
					own := e.field == "featureID" || e.class != nil || e.call == "GetFeatureID" || e.own != nil
					switch {
					case opposite && !(e.field == "inverseFeatureID" && !e.base || e.class != nil && !e.base):
						msg = "does not announce it with the identifier of the opposite"
					case !opposite && !(e.base && own):
						msg = "does not announce it as the container's own feature"
					case opposite && e.class != nil && !sameObject(*e.class, fval{recvOf(&call.Call), sf}, 0):
						msg = "looks the opposite up in another object's class"
					}
				}
			})
			switch {
			case inverse && !f.must(is):
				msg = "can return without announcing the change"
			case !inverse && any:
				msg = "announces a change of a feature that has no other end"
			}
			for _, r := range f.returns() {
				for _, x := range f.expand(r.Results[0]) {
					in, ok := x.v.(ssa.Instruction)
					if inverse && !(ok && is(in, x.f)) || !inverse && x.v != ssa.Value(fn.Params[2]) {
						msg = "does not return the notifications collected so far"
					}
				}
			}
			c.Decide(msg == "", "list-inverse", key, fn.Pos(), "%s %s", fname(fn), msg)
		}
	}
}

func hasField(n *types.Named, name string) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// inverseIdentifiers: every announcement made outside the lists.
func (c *Ctx) inverseIdentifiers() {
	m := c.metamodel()
	for _, fn := range c.Funcs {
		top := topFn(fn)
		for _, ci := range calls(fn) {
			n := calleeName(ci.Common())
			if n != "EInverseAdd" && n != "EInverseRemove" && n != "EBasicSetContainer" {
				continue
			}
			r := recvOf(ci.Common())
			a := argsOf(ci.Common())
			if r == nil || len(a) != 3 {
				continue
			}
			f := c.specFrame(fn, map[ssa.Value]constant.Value{}, nil)
			var e *mmElem
			if top.Signature.Recv() != nil {
				if cl := m.classOfType(namedStruct(top.Signature.Recv().Type())); cl != nil {
					_, fe := accessorVerb(top.Name())
					e = cl.featureNamed(fe)
				}
			}
			key := fname(fn) + " " + n
			for _, id := range f.identifier(a[1]) {
				switch {
				case id.own != nil:
					c.Bad("identifier", fname(fn)+" "+n+" declared number", ci.Pos(), "%s identifies the feature by the number it has in the class declaring it, which differs in a class with several super types", fname(fn))
				case id.konst != nil && e != nil:
					k := *id.konst
					want := int64(-1) - e.ID()
					if e.Init().HasOpposite && e.Init().Opposite != nil {
						want = e.Init().Opposite.ID()
					}
					if n == "EBasicSetContainer" {
						want = e.ID()
					}
					c.Decide(k == want, "identifier", key, ci.Pos(), "%s announces a change of %s with identifier %d instead of %d", fname(fn), e, k, want)
				case id.class != nil:
					ok := sameObject(*id.class, fval{r, f}, 0)
					if id.base { // the container's own feature, in the container's class
						ok = sameObject(*id.class, fval{fn.Params[0], f}, 0)
					}
					c.Decide(ok, "identifier", key, ci.Pos(), "%s looks the identifier up in the class of another object than the one it is meant for", fname(fn))
				default:
					c.Ok("identifier", key, ci.Pos())
				}
			}
		}
	}
}

// inverseDispatch: EInverseAdd, EInverseRemove and EBasicRemoveFromContainer.
func (c *Ctx) inverseDispatch() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		switch fn.Name() {
		case "EInverseAdd", "EInverseRemove":
			for _, id := range []int64{0, 7, -1, -4} {
				s := c.reflective(&mmClass{}, fn, 2, id, nil)
				f := s.sframe
				target := "EBasic" + strings.TrimPrefix(fn.Name(), "E")
				if id < 0 {
					target = "EBasicSetContainer"
				}
				is := func(in ssa.Instruction, sf *sframe) bool {
					call, ok := in.(*ssa.Call)
					if !ok || calleeName(&call.Call) != target || !s.isSelf(recvOf(&call.Call), sf, 0) {
						return false
					}
					a := argsOf(&call.Call)
					if k := sf.constOf(a[1]); k == nil || k.ExactString() != fmt.Sprint(id) {
						return false
					}
					if id < 0 && fn.Name() == "EInverseRemove" {
						return isNilConst(one(sf.expand(a[0])))
					}
					return isTop(sf.expand(a[0]), fn.Params[1])
				}
				detach := func(in ssa.Instruction, sf *sframe) bool {
					call, ok := in.(*ssa.Call)
					return ok && calleeName(&call.Call) == "EBasicRemoveFromContainer"
				}
				msg := ""
				if !f.must(is) {
					msg = "can return without calling " + target + " for it"
				}
				first, detached := false, false
				f.each(func(in ssa.Instruction, sf *sframe) {
					if is(in, sf) {
						first = true
					}
					if detach(in, sf) {
						detached = true
						if first {
							msg = "leaves the old container after entering the new one"
						}
					}
				})
				if id < 0 && fn.Name() == "EInverseAdd" && (!detached || !f.must(detach)) {
					msg = "can enter a new container without leaving the old one"
				}
				if detached && !(id < 0 && fn.Name() == "EInverseAdd") {
					msg = "leaves the container although it does not change"
				}
				for _, r := range f.returns() {
					for _, x := range f.expand(r.Results[0]) {
						if in, ok := x.v.(ssa.Instruction); !ok || !is(in, x.f) {
							msg = "does not return the notifications of " + target
						}
					}
				}
				c.Decide(msg == "", "dispatch", fmt.Sprintf("%s %d", fname(fn), id), fn.Pos(), "told about feature %d, %s %s", id, fname(fn), msg)
			}
		case "EBasicRemoveFromContainer":
			for _, id := range []int64{0, 5, -1, -6} {
				s := c.reflective(&mmClass{}, fn, 1, 0, nil)
				f := s.sframe
				delete(f.vals, fn.Params[1])
				prev := f.inline
				f.inline = func(cc *ssa.CallCommon, g *ssa.Function) bool {
					return g.Name() == "EBasicRemoveFromContainerFeature" || prev(cc, g)
				}
				f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
					switch t := v.(type) {
					case *ssa.Call:
						if calleeName(&t.Call) == "EInternalContainerFeatureID" {
							return constant.MakeInt64(id)
						}
					case *ssa.BinOp: // there is a container and an opposite
						if (t.Op == token.EQL || t.Op == token.NEQ) && (isNilConst(t.X) || isNilConst(t.Y)) {
							return constant.MakeBool(t.Op == token.NEQ)
						}
					case *ssa.Extract:
						if _, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 {
							return constant.MakeBool(true)
						}
					}
					return nil
				}
				f.decide()
				f.each(func(ssa.Instruction, *sframe) {})
				f.blocks, f.edges = specialised(f.fn, f.vals)
				is := func(in ssa.Instruction, sf *sframe) bool {
					call, ok := in.(*ssa.Call)
					if !ok || calleeName(&call.Call) != "EInverseRemove" {
						return false
					}
					a := argsOf(&call.Call)
					if !s.isSelf(a[0], sf, 0) {
						return false
					}
					if id < 0 {
						k := sf.constOf(a[1])
						return k != nil && k.ExactString() == fmt.Sprint(-1-id)
					}
					return true
				}
				c.Decide(f.must(is), "dispatch", fmt.Sprintf("%s %d", fname(fn), id), fn.Pos(), "contained through feature %d, %s can return without telling the container", id, fname(fn))
			}
		}
	}
}

// dynamicInverse: EBasicInverseAdd and EBasicInverseRemove for dynamic features.
func (c *Ctx) dynamicInverse() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil {
			continue
		}
		add := strings.HasSuffix(fn.Name(), "InverseAdd")
		if !add && !strings.HasSuffix(fn.Name(), "InverseRemove") {
			continue
		}
		var feat, other *ssa.Parameter
		for _, p := range fn.Params {
			switch typeName(p.Type()) {
			case "EStructuralFeature":
				feat = p
			case "EObject":
				other = p
			}
		}
		if feat == nil || other == nil {
			continue
		}
		for _, kind := range []string{"many", "container", "single"} {
			s := c.reflective(&mmClass{}, fn, 0, 0, nil)
			f := s.sframe
			delete(f.vals, fn.Params[0])
			base := featureAtoms(func(vs []fval) bool { return isTop(vs, feat) }, map[string]bool{"IsMany": kind == "many", "IsContainer": kind == "container"}, true)
			f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
				if k := base(v, sf); k != nil {
					return k
				}
				if kind == "many" { // the feature already has its list
					if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (isNilConst(b.X) || isNilConst(b.Y)) {
						return constant.MakeBool(b.Op == token.NEQ)
					}
					if e, ok := v.(*ssa.Extract); ok && e.Index == 1 {
						if _, isTA := e.Tuple.(*ssa.TypeAssert); isTA {
							return constant.MakeBool(true)
						}
					}
				}
				return nil
			}
			f.decide()
			f.each(func(ssa.Instruction, *sframe) {})
			f.blocks, f.edges = specialised(f.fn, f.vals)
			is := func(in ssa.Instruction, sf *sframe) bool {
				call, ok := in.(*ssa.Call)
				if !ok {
					return false
				}
				n, a := calleeName(&call.Call), argsOf(&call.Call)
				switch kind {
				case "many":
					return n == map[bool]string{true: "AddWithNotification", false: "RemoveWithNotification"}[add] && isTop(sf.expand(a[0]), other)
				case "container":
					if n != "EBasicSetContainer" || !s.isSelf(recvOf(&call.Call), sf, 0) {
						return false
					}
					for _, id := range sf.identifier(a[1]) {
						if id.class == nil || id.base || !isTop(id.feat.f.expand(id.feat.v), feat) {
							return false
						}
					}
					if add {
						return isTop(sf.expand(a[0]), other)
					}
					return isNilConst(one(sf.expand(a[0])))
				default:
					if add {
						return n == "EDynamicSet" && isTop(sf.expand(a[1]), other)
					}
					return n == "EDynamicUnset" || n == "EDynamicSet" && isNilConst(one(sf.expand(a[1])))
				}
			}
			c.Decide(f.must(is), "dynamic-inverse", fname(fn)+" "+kind, fn.Pos(), "%s can return without recording the change of a %s feature", fname(fn), kind)
		}
	}
}

// addrField is the field an address denotes (nil when it is no field's).
func addrField(v ssa.Value) *types.Var {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fieldOf(fa)
	}
	return nil
}

// ownerName is the type whose method fn is part of.
func ownerName(fn *ssa.Function) string {
	if r := topFn(fn).Signature.Recv(); r != nil {
		return typeName(r.Type())
	}
	return fname(topFn(fn))
}
