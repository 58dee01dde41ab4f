package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C20", checkC20) }

func norm(s string) string { return strings.ToUpper(strings.ReplaceAll(s, "_", "")) }

// opKey is the name an operation's identifier and accessor carry: its name and
// the types of its parameters.
func opKey(e *mmElem) string {
	k := e.Name()
	for _, p := range e.Init().Params {
		if p.Type != nil {
			k += p.Type.Name
		} else {
			k += "?"
		}
	}
	return norm(k)
}

func elemKey(e *mmElem) string {
	if e.Kind == "EOperation" {
		return opKey(e)
	}
	return norm(e.Name())
}

func checkC20(c *Ctx) {
	c.Rule("read", "every creation and initialisation of the metamodel package names an element that can be identified")
	c.Rule("created", "a classifier or element is created with the identifier of the position it is created at")
	c.Rule("constant", "the identifier constant of a classifier, feature or operation equals the identifier the element has")
	c.Rule("count", "feature and operation counts equal the number of inherited and own elements")
	c.Rule("accessor", "a package accessor returns the element its name denotes")
	c.Rule("initialised", "every created element is initialised exactly once, by the initialiser of its kind")
	c.Rule("typed", "an element's declared type and multiplicity agree with the accessor of the Go interface it backs")
	c.Rule("opposite", "opposites refer to each other and are typed by each other's class")
	c.Rule("static", "an implementation reports its own class and that class's feature count")
	c.Rule("sets-id", "creating an element for an identifier gives it that identifier and adds it to its container")
	c.Rule("order", "contents are created before they are initialised, once each")
	m := c.metamodel()
	for _, pos := range m.Unread {
		c.Bad("read", "unread "+c.at(pos), pos, "this call creates or initialises an element that cannot be identified")
	}
	for _, pr := range m.Problems {
		c.Bad("read", pr.Key, pr.Pos, "%s", pr.Msg)
	}

	// constants by normalised name
	consts := map[string]int64{}
	scope := c.Ecore.Types.Scope()
	for _, n := range scope.Names() {
		k, ok := scope.Lookup(n).(*types.Const)
		if !ok || k.Val().Kind() != constant.Int {
			continue
		}
		v, exact := constant.Int64Val(k.Val())
		if !exact {
			continue
		}
		key := norm(n)
		if i := strings.Index(n, "__"); i > 0 {
			key = norm(n[:i]) + "__" + norm(n[i+2:])
		} else if strings.HasSuffix(n, "_FEATURE_COUNT") {
			key = norm(strings.TrimSuffix(n, "_FEATURE_COUNT")) + "#FEATURES"
		} else if strings.HasSuffix(n, "_OPERATION_COUNT") {
			key = norm(strings.TrimSuffix(n, "_OPERATION_COUNT")) + "#OPERATIONS"
		}
		consts[key] = v
	}
	wantConst := func(rule, key string, want int64, what string, e ssaPos) {
		v, ok := consts[key]
		switch {
		case !ok:
			c.Bad(rule, what, e.Pos(), "there is no identifier constant for %s", what)
		case v != want:
			c.Bad(rule, what, e.Pos(), "the identifier constant of %s is %d, the element's identifier is %d", what, v, want)
		default:
			c.Ok(rule, what, e.Pos())
		}
	}

	ids := map[int64]string{}
	for i, cl := range m.Classes {
		p := ssaPos{cl.Pos}
		if old := ids[cl.ID]; old != "" {
			c.Bad("created", "classifier "+cl.Field, cl.Pos, "%s and %s share classifier identifier %d", old, cl.Field, cl.ID)
		} else {
			c.Ok("created", "classifier "+cl.Field, cl.Pos)
		}
		ids[cl.ID] = cl.Field
		_ = i
		c.Decide(len(cl.Inits) == 1, "initialised", "classifier "+cl.Field, cl.Pos, "%s is initialised %d times", cl.Field, len(cl.Inits))
		if len(cl.Inits) == 0 {
			continue
		}
		c.Decide(norm(cl.Field) == norm(cl.Name), "initialised", "classifier name "+cl.Field, cl.Inits[0].Pos, "the classifier kept in %s is named %s", cl.Field, cl.Name)
		wantConst("constant", norm(cl.Name), cl.ID, cl.Name, p)
		if cl.Kind != "EClass" {
			continue
		}
		wantConst("count", norm(cl.Name)+"#FEATURES", int64(len(cl.AllFeatures())), cl.Name+" features", p)
		wantConst("count", norm(cl.Name)+"#OPERATIONS", int64(len(cl.AllOps())), cl.Name+" operations", p)
		for _, e := range append(append([]*mmElem{}, cl.Features...), cl.Ops...) {
			c.Decide(len(e.Inits) == 1, "initialised", cl.Name+" "+e.Kind+" "+elemKey(e), e.Pos, "element %d of %s (%s) is initialised %d times", e.Index, cl.Name, e.Kind, len(e.Inits))
			c.Decide(e.CreatedID == e.ID(), "created", cl.Name+" "+elemKey(e), e.Pos, "%s.%s is created with identifier %d but is element %d of its class", cl.Name, e.Name(), e.CreatedID, e.ID())
		}
		// identifiers do not depend on the order in which the class inherits: position in AllFeatures
		for k, e := range cl.AllFeatures() {
			wantConst("constant", norm(cl.Name)+"__"+norm(e.Name()), int64(k), cl.Name+"."+e.Name(), ssaPos{e.Pos})
		}
		for k, e := range cl.AllOps() {
			wantConst("constant", norm(cl.Name)+"__"+opKey(e), int64(k), cl.Name+"."+e.Name()+"("+opKey(e)+")", ssaPos{e.Pos})
		}
		for _, e := range cl.Features {
			c.featureTypes(m, e)
		}
		for _, e := range cl.Ops {
			for _, p := range e.Init().Params {
				c.Decide(p.Type != nil, "typed", e.String()+" parameter "+p.Name, p.Pos, "parameter %s of %s has no type", p.Name, e)
			}
			if e.Init().TypeUnknown {
				c.Bad("typed", e.String(), e.Pos, "the type of %s cannot be identified", e)
			}
		}
	}
	c.accessors(m)
	c.statics(m)
	c.creators()
	c.packageOrder()
	c.Floor("created", 150)
	c.Floor("constant", 250)
	c.Floor("accessor", 150)
	c.Floor("initialised", 150)
	c.Floor("typed", 100)
	c.Floor("opposite", 10)
	c.Floor("static", 30)
	c.Floor("sets-id", 4)
	c.Notes["classifiers"] = len(m.Classes)
}

// featureTypes compares a feature with the Go interface of its class.
func (c *Ctx) featureTypes(m *metamodel, e *mmElem) {
	in := e.Init()
	key := e.String()
	if in.Type == nil {
		c.Bad("typed", key, e.Pos, "%s has no identifiable type", key)
		return
	}
	wantKind := "EClass"
	if e.Kind == "EAttribute" {
		wantKind = "EDataType"
	}
	if in.Type.Kind != wantKind && !(wantKind == "EDataType" && in.Type.Kind == "EEnum") {
		c.Bad("typed", key+" kind", in.Pos, "%s is an %s typed by the %s %s", key, e.Kind, in.Type.Kind, in.Type.Name)
	}
	if e.Kind == "EReference" && in.HasOpposite {
		o := in.Opposite
		switch {
		case o == nil:
			c.Bad("opposite", key, in.Pos, "the opposite of %s cannot be identified", key)
		case o.Init().Opposite != e:
			c.Bad("opposite", key, in.Pos, "%s has opposite %s, whose opposite is %v", key, o, o.Init().Opposite)
		case in.Type != o.Class || o.Init().Type != e.Class:
			c.Bad("opposite", key, in.Pos, "%s and its opposite %s are not typed by each other's class", key, o)
		case in.Containment && o.Init().Containment:
			c.Bad("opposite", key, in.Pos, "%s and its opposite %s both contain the other end", key, o)
		case in.Containment && o.Many():
			c.Bad("opposite", key, in.Pos, "%s is a containment with a many-valued container end %s", key, o)
		default:
			c.Ok("opposite", key, in.Pos)
		}
	}
	iface, _ := c.Ecore.Types.Scope().Lookup(e.Class.Name).(*types.TypeName)
	if iface == nil {
		return
	}
	it, _ := iface.Type().Underlying().(*types.Interface)
	if it == nil {
		return
	}
	get := getterOf(it, e)
	if get == nil {
		c.Bad("typed", key+" getter", e.Pos, "interface %s has no accessor for feature %s", e.Class.Name, e.Name())
		return
	}
	rt := get.Type().(*types.Signature).Results().At(0).Type()
	tn := typeName(rt)
	isList := tn == "EList" || tn == "EMap"
	switch {
	case e.Many() && !isList:
		c.Bad("typed", key, in.Pos, "%s is many-valued but %s returns %s", key, get.Name(), rt)
	case !e.Many() && isList && in.Type.Kind == "EClass":
		c.Bad("typed", key, in.Pos, "%s is single-valued but %s returns %s", key, get.Name(), rt)
	case !e.Many() && e.Kind == "EReference" && tn != in.Type.Name:
		c.Bad("typed", key, in.Pos, "%s is declared with type %s but %s returns %s", key, in.Type.Name, get.Name(), rt)
	case !e.Many() && e.Kind == "EAttribute" && !goTypeMatches(rt, in.Type.Init().Instance):
		c.Bad("typed", key, in.Pos, "%s is declared with type %s (%s) but %s returns %s", key, in.Type.Name, in.Type.Init().Instance, get.Name(), rt)
	default:
		c.Ok("typed", key, in.Pos)
	}
	if e.Init().Changeable && !e.Many() {
		found := setterOf(it, e) != nil
		if e.Container() && !found { // changed through its container
			found = true
		}
		c.Decide(found, "typed", key+" setter", e.Pos, "%s is declared changeable but interface %s has no setter for it", key, e.Class.Name)
	}
}

func goTypeMatches(t types.Type, instance string) bool {
	if p, ok := t.(*types.Pointer); ok && strings.HasPrefix(instance, "*") {
		return goTypeMatches(p.Elem(), instance[1:])
	}
	s := t.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	w := instance
	if i := strings.LastIndexByte(w, '/'); i >= 0 {
		w = w[i+1:]
	}
	if s == w {
		return true
	}
	if w == "any" {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	return strings.TrimPrefix(s, "ecore.") == strings.TrimPrefix(w, "ecore.")
}

// getterOf and setterOf find a feature's accessors on an interface.
func getterOf(it *types.Interface, e *mmElem) *types.Func {
	n := upperFirst(e.Name())
	return methodNamed(it, 0, "GetTyped"+n, "Get"+n, "Is"+n)
}

func setterOf(it *types.Interface, e *mmElem) *types.Func {
	n := upperFirst(e.Name())
	return methodNamed(it, 1, "SetTyped"+n, "Set"+n)
}

func methodNamed(it *types.Interface, params int, names ...string) *types.Func {
	for _, n := range names {
		for i := 0; i < it.NumMethods(); i++ {
			f := it.Method(i)
			if f.Name() == n && f.Type().(*types.Signature).Params().Len() == params {
				return f
			}
		}
	}
	return nil
}

// accessors compares every parameterless package method that returns a metamodel
// element with the element its name denotes.
func (c *Ctx) accessors(m *metamodel) {
	if m.Pkg == nil {
		c.Bad("accessor", "package", 0, "the package implementation is not found")
		return
	}
	byName := map[string]*mmClass{}
	for _, cl := range m.Classes {
		byName[norm(cl.Name)] = cl
	}
	backed := map[any]bool{}
	for i := 0; i < m.Pkg.NumMethods(); i++ {
		o := m.Pkg.Method(i)
		fn := c.byObj[o]
		if fn == nil || !strings.HasPrefix(o.Name(), "GetE") || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		rt := typeName(fn.Signature.Results().At(0).Type())
		switch rt {
		case "EClass", "EDataType", "EEnum", "EAttribute", "EReference", "EOperation":
		default:
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(o.Name(), "Get"), "_", 2)
		cl := byName[norm(parts[0])]
		if cl == nil && len(parts) == 1 {
			cl = byName[norm(strings.TrimSuffix(parts[0], "Class"))]
		}
		got := m.accessor(fn, 0)
		key := o.Name()
		if got == nil {
			c.Bad("accessor", key, fn.Pos(), "the element %s returns cannot be identified", key)
			continue
		}
		backed[got] = true
		if len(parts) == 1 {
			g, _ := got.(*mmClass)
			c.Decide(g != nil && g == cl && strings.HasPrefix(rt, g.Kind), "accessor", key, fn.Pos(), "%s returns %v", key, describe(got))
			continue
		}
		g, _ := got.(*mmElem)
		c.Decide(g != nil && cl != nil && g.Class == cl && g.Kind == rt && (elemKey(g) == norm(parts[1]) || norm(g.Name()) == norm(parts[1])), "accessor", key, fn.Pos(), "%s returns %v", key, describe(got))
	}
	for _, cl := range m.Classes {
		if !backed[cl] {
			c.Bad("accessor", "missing "+cl.Field, cl.Pos, "no package accessor returns the classifier in %s", cl.Field)
		}
		for _, e := range append(append([]*mmElem{}, cl.Features...), cl.Ops...) {
			if !backed[e] {
				c.Bad("accessor", "missing "+cl.Field+" "+elemKey(e), e.Pos, "no package accessor returns element %d of %s", e.Index, cl.Name)
			}
		}
	}
}

func describe(x any) string {
	switch e := x.(type) {
	case *mmClass:
		return "the classifier " + e.Name
	case *mmElem:
		return e.Kind + " " + e.String()
	}
	return "nothing identifiable"
}

// statics: EStaticClass and EStaticFeatureCount of each implementation.
func (c *Ctx) statics(m *metamodel) {
	for _, n := range c.Named {
		if c.methodOn(n, "EStaticClass") == nil {
			continue
		}
		for _, cl := range m.Classes {
			if cl.Kind == "EClass" && cl.Name == implNameOf(n) {
				got := m.ClassOf[n]
				c.Decide(got == cl, "static", n.Obj().Name(), n.Obj().Pos(), "%s does not report class %s", n.Obj().Name(), cl.Name)
			}
		}
	}
	for _, cl := range m.ImplClasses() {
		n := m.Impl[cl]
		fn := c.methodOn(n, "EStaticFeatureCount")
		if fn == nil {
			if len(cl.Features) > 0 {
				c.Bad("static", n.Obj().Name()+" count", n.Obj().Pos(), "%s declares no static feature count", n.Obj().Name())
			}
			continue
		}
		ok := true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if r, isRet := in.(*ssa.Return); isRet {
					k, isConst := constInt(r.Results[0])
					if !isConst || k != int64(len(cl.AllFeatures())) {
						ok = false
					}
				}
			}
		}
		c.Decide(ok, "static", n.Obj().Name()+" count", fn.Pos(), "%s does not report the %d features of %s", fname(fn), len(cl.AllFeatures()), cl.Name)
	}
}

func implNameOf(n *types.Named) string {
	s := n.Obj().Name()
	for _, suf := range []string{"Impl", "Ext"} {
		s = strings.TrimSuffix(s, suf)
	}
	return s
}

// creators: Create…FromContainerAndClassID.
func (c *Ctx) creators() {
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || !strings.HasPrefix(fn.Name(), "CreateE") || !strings.HasSuffix(fn.Name(), "FromContainerAndClassID") {
			continue
		}
		params := fn.Params
		if len(params) < 3 {
			continue
		}
		id, cont := params[len(params)-1], params[len(params)-2]
		rt := typeName(fn.Signature.Results().At(0).Type())
		want := ""
		switch rt {
		case "EAttribute", "EReference":
			want = "SetFeatureID"
		case "EOperation":
			want = "SetOperationID"
		case "EClass", "EDataType", "EEnum":
			want = "SetClassifierID"
		default:
			continue
		}
		key := fname(fn)
		m := newMust(c.Program, func(in ssa.Instruction, _ *ssa.Function) []string {
			ci, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			n := calleeName(&ci.Call)
			a := argsOf(&ci.Call)
			if n == want && len(a) == 1 && pathOf(a[0]).Root == ssa.Value(id) {
				return []string{"id"}
			}
			if n == "Add" && len(a) == 1 {
				if l, ok := recvOf(&ci.Call).(*ssa.Call); ok && pathOf(recvOf(&l.Call)).Root == ssa.Value(cont) {
					return []string{"add"}
				}
			}
			return nil
		})
		m.waive = func(br *ssa.If, taken bool, fn *ssa.Function) []string {
			if b, ok := br.Cond.(*ssa.BinOp); ok {
				if (isNilConst(b.Y) && pathOf(b.X).Root == ssa.Value(cont)) || (isNilConst(b.X) && pathOf(b.Y).Root == ssa.Value(cont)) {
					if (b.Op.String() == "==") == taken {
						return []string{"add"}
					}
				}
			}
			return nil
		}
		m.enter = func(cc *ssa.CallCommon, callee *ssa.Function) bool { return !cc.IsInvoke() }
		evs := m.of(fn, false)
		c.Decide(evs["id"], "sets-id", key+" identifier", fn.Pos(), "%s can return an element without %s of the given identifier", key, want)
		c.Decide(evs["add"], "sets-id", key+" container", fn.Pos(), "%s can return an element that was not added to the given container", key)
	}
}

// packageOrder: Initialize creates the contents, then initialises them.
func (c *Ctx) packageOrder() {
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fname(fn) != "EcorePackageImpl.Initialize" {
			continue
		}
		var order []string
		for _, in := range straight(fn) {
			if ci, ok := in.(*ssa.Call); ok {
				switch n := calleeName(&ci.Call); n {
				case "createPackageContents", "initializePackageContents":
					order = append(order, n)
				}
			}
		}
		c.Decide(len(order) == 2 && order[0] == "createPackageContents", "order", "EcorePackageImpl.Initialize", fn.Pos(), "the package is built by %v", order)
		for _, n := range []string{"SetName", "SetNsPrefix", "SetNsURI", "SetEFactoryInstance"} {
			found := false
			for _, ci := range calls(fn) {
				if calleeName(ci.Common()) == n {
					found = true
				}
			}
			c.Decide(found, "order", "EcorePackageImpl.Initialize "+n, fn.Pos(), "the package is never given its %s", strings.TrimPrefix(n, "Set"))
		}
	}
	c.Floor("order", 5)
}
