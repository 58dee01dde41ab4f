package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C12", checkC12) }

// A setter is an operation that changes one single-valued feature, analysed for
// one relation between the old value and the new one.
type setter struct {
	*sframe
	c     *Ctx
	fn    *ssa.Function
	self  func(v ssa.Value, f *sframe) bool
	read  func(x fval) bool                                        // reads the stored value
	store func(in ssa.Instruction, f *sframe) (ssa.Value, bool)    // changes it (nil: to its default)
	given func(vs []fval) bool                                     // the value handed in
	kept  func(in ssa.Instruction, f *sframe) bool                 // hands everything over to another setter of the feature
	which func(ctor string, v ssa.Value, f *sframe) (string, bool) // the feature a notification names
	more  func(v ssa.Value, f *sframe) constant.Value
	sc    setCase
	order map[instrAt]int
}

type instrAt struct {
	in ssa.Instruction
	f  *sframe
}

type setCase struct {
	same, oldNil, newNil, sameFeature bool
	chain                             bool // notifications were already pending
}

func (s setCase) String() string {
	var out []string
	for _, x := range []struct {
		on   bool
		name string
	}{{s.same, "the value it already has"}, {s.oldNil && !s.same, "no previous value"}, {s.newNil && !s.same, "no new value"}, {s.chain, "notifications pending"}} {
		if x.on {
			out = append(out, x.name)
		}
	}
	if len(out) == 0 {
		return "a new value"
	}
	return strings.Join(out, ", ")
}

// isConstructor: the call builds a notification; the positions of its arguments.
func notificationCtor(cc *ssa.CallCommon) (name string, obj, ev, feat, old, new ssa.Value) {
	g := cc.StaticCallee()
	if g == nil || g.Signature.Recv() != nil || g.Signature.Results().Len() != 1 {
		return
	}
	for i, p := range g.Params {
		if i >= len(cc.Args) {
			return "", nil, nil, nil, nil, nil
		}
		a := cc.Args[i]
		switch {
		case typeName(p.Type()) == "EventType":
			ev = a
		case p.Name() == "featureID" || p.Name() == "feature":
			feat = a
		case p.Name() == "oldValue":
			old = a
		case p.Name() == "newValue":
			new = a
		case i < 2 && obj == nil && types.IsInterface(p.Type()):
			obj = a
		}
	}
	if ev == nil || old == nil || new == nil || feat == nil {
		return "", nil, nil, nil, nil, nil
	}
	return g.Name(), obj, ev, feat, old, new
}

func isCtor(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	n, _, _, _, _, _ := notificationCtor(&call.Call)
	return n != ""
}

func (s *setter) isOld(x fval) bool { return s.read(x) && s.before(x) }

// before: the value was read before anything changed it.
func (s *setter) before(x fval) bool {
	in, ok := x.v.(ssa.Instruction)
	if !ok || s.order == nil {
		return true
	}
	at, known := s.order[instrAt{in, x.f}]
	if !known {
		return true
	}
	for k, n := range s.order {
		if n < at {
			if _, isStore := s.store(k.in, k.f); isStore {
				return false
			}
		}
	}
	return true
}

// run decides the conditions of the case.
func (s *setter) run() {
	s.sframe.atoms = s.atom
	for i := 0; i < 3; i++ {
		s.decide()
		s.order = map[instrAt]int{}
		n := 0
		s.each(func(in ssa.Instruction, f *sframe) { s.order[instrAt{in, f}] = n; n++ })
		s.blocks, s.edges = specialised(s.sframe.fn, s.vals)
	}
}

func (s *setter) class(v ssa.Value, f *sframe) string {
	if isNilConst(v) {
		return "nil"
	}
	vs := f.expand(v)
	if len(vs) == 0 {
		return ""
	}
	all := func(is func(x fval) bool) bool {
		for _, x := range vs {
			if !is(x) {
				return false
			}
		}
		return true
	}
	switch {
	case s.given != nil && s.given(vs):
		return "new"
	case all(s.read):
		return "old"
	case all(func(x fval) bool { return isNilConst(x.v) }):
		return "nil"
	}
	if typeName(v.Type()) == "ENotificationChain" || implementsNamed(s.c.Program, v.Type(), "ENotificationChain") {
		fresh := func(x fval) bool {
			call, ok := x.v.(*ssa.Call)
			return ok && (isCtor(call) || calleeName(&call.Call) == "NewNotificationChain")
		}
		none := func(x fval) bool { return !fresh(x) }
		switch {
		case all(fresh):
			return "chain"
		case all(none):
			if s.sc.chain {
				return "chain"
			}
			return "nochain"
		}
	}
	return ""
}

func (s *setter) atom(v ssa.Value, f *sframe) constant.Value {
	switch t := v.(type) {
	case *ssa.Call:
		if calleeName(&t.Call) == "ENotificationRequired" {
			return constant.MakeBool(true)
		}
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 {
			switch s.class(ta.X, f) {
			case "new":
				return constant.MakeBool(!s.sc.newNil)
			case "old":
				return constant.MakeBool(!s.sc.oldNil)
			}
		}
	case *ssa.BinOp:
		if t.Op != token.EQL && t.Op != token.NEQ {
			break
		}
		eq := t.Op == token.EQL
		a, b := s.class(t.X, f), s.class(t.Y, f)
		if a == "nil" || b == "old" {
			a, b = b, a
		}
		switch {
		case a == "old" && b == "new":
			return constant.MakeBool(s.sc.same == eq)
		case a == "old" && b == "nil":
			return constant.MakeBool(s.sc.oldNil == eq)
		case a == "new" && b == "nil":
			return constant.MakeBool(s.sc.newNil == eq)
		case a == "chain" && b == "nil":
			return constant.MakeBool(!eq)
		case a == "nochain" && b == "nil":
			return constant.MakeBool(eq)
		}
		if s.more != nil {
			if k := s.more(v, f); k != nil {
				return k
			}
		}
		for _, y := range []ssa.Value{t.X, t.Y} {
			if call, ok := one(f.expand(y)).(*ssa.Call); ok {
				switch calleeName(&call.Call) {
				case "EContainerFeatureID", "EInternalContainerFeatureID":
					if r := recvOf(&call.Call); r != nil && s.self(r, f.expand(y)[0].f) {
						return constant.MakeBool(s.sc.sameFeature == eq)
					}
				}
			}
		}
	}
	if s.more != nil {
		return s.more(v, f)
	}
	return nil
}

// stored is what the feature is left with, in this case.
func (s *setter) stored() (vals []fval, deflt bool) {
	s.each(func(in ssa.Instruction, f *sframe) {
		if v, ok := s.store(in, f); ok {
			if v == nil {
				deflt = true
			} else {
				vals = append(vals, f.expand(v)...)
			}
		}
	})
	return
}

// notification: the call builds the notification of the change; why not otherwise.
func (s *setter) notification(x fval, events ...string) string {
	call, ok := x.v.(*ssa.Call)
	if !ok {
		return "something that is not a notification"
	}
	name, obj, ev, feat, old, new := notificationCtor(&call.Call)
	if name == "" {
		return "something that is not a notification"
	}
	if !s.self(obj, x.f) {
		return "a notification of another object"
	}
	if got := s.eventOf(fval{ev, x.f}); !contains(events, got) {
		return "a notification of kind " + got
	}
	if n, ok := s.which(name, feat, x.f); !ok {
		return "a notification for " + n
	}
	for _, y := range x.f.expand(old) {
		if !s.isOld(y) && !(s.sc.oldNil && isNilConst(y.v)) && !(s.sc.same && s.given != nil && s.given([]fval{y})) {
			return "a notification whose previous value is not the value the feature had"
		}
	}
	vals, deflt := s.stored()
	for _, y := range x.f.expand(new) {
		if s.given != nil && s.given([]fval{y}) || (s.given == nil || s.sc.newNil) && isNilConst(y.v) {
			continue
		}
		okNew := s.read(y) && !s.before(y) || s.sc.same && s.read(y)
		for _, w := range vals {
			if w.v == y.v || equalConst(w.v, y.v) {
				okNew = true
			}
		}
		if k, isConst := y.v.(*ssa.Const); deflt && isConst && k.Value == nil {
			okNew = true
		}
		if !okNew {
			return "a notification whose new value is not the value the feature now has"
		}
	}
	return ""
}

func equalConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == y.Value
	}
	return x.Value.Kind() == y.Value.Kind() && constant.Compare(x.Value, token.EQL, y.Value)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (s *setter) eventOf(x fval) string {
	out := ""
	for _, y := range x.f.expand(x.v) {
		n := "?"
		if k, ok := constInt(y.v); ok {
			n = s.c.eventName(k)
		}
		if out != "" && out != n {
			if out == "SET" && n == "UNSET" || out == "UNSET" && n == "SET" {
				n = "UNSET"
			} else {
				n = "?"
			}
		}
		out = n
	}
	return out
}

// eventName is the EventType constant with that value.
func (c *Ctx) eventName(k int64) string {
	for _, m := range c.EcoreSSA.Members {
		if nc, ok := m.(*ssa.NamedConst); ok && typeName(nc.Type()) == "EventType" {
			if n, _ := constant.Int64Val(nc.Value.Value); n == k {
				return nc.Name()
			}
		}
	}
	return fmt.Sprint(k)
}

// delivers: in carries the notification of the change to the observers, or into
// the chain; the reason is kept when it carries a wrong one.
func (s *setter) delivers(in ssa.Instruction, f *sframe, why *string, events ...string) bool {
	var x []fval
	switch t := in.(type) {
	case *ssa.Call:
		a := argsOf(&t.Call)
		switch calleeName(&t.Call) {
		case "ENotify":
			if len(a) == 1 && s.self(recvOf(&t.Call), f) {
				x = f.expand(a[0])
			}
		case "Add":
			if len(a) == 1 && recvOf(&t.Call) != nil && implementsNamed(s.c.Program, recvOf(&t.Call).Type(), "ENotificationChain") {
				for _, r := range f.expand(recvOf(&t.Call)) {
					if isCtor(r.v) {
						return false
					}
				}
				x = f.expand(a[0])
			}
		case "Dispatch":
			for _, r := range f.expand(recvOf(&t.Call)) {
				if isCtor(r.v) {
					x = append(x, r)
				} else {
					return false
				}
			}
		}
	case *ssa.Return:
		if f.parent != nil || len(t.Results) != 1 {
			return false
		}
		for _, r := range f.expand(t.Results[0]) {
			if !isCtor(r.v) {
				return false
			}
			x = append(x, r)
		}
	}
	if len(x) == 0 {
		return false
	}
	for _, y := range x {
		if msg := s.notification(y, events...); msg != "" {
			*why = msg
			return false
		}
	}
	return true
}

func (s *setter) keepsOrDelivers(events ...string) string {
	why := ""
	ok := s.mustRet(func(in ssa.Instruction, f *sframe) bool {
		return s.kept != nil && s.kept(in, f) || s.delivers(in, f, &why, events...)
	})
	if ok {
		return ""
	}
	if why != "" {
		return "delivers " + why
	}
	return "can return without delivering a notification of the change"
}

// mustRet is must, where the return itself may match.
func (f *sframe) mustRet(match func(in ssa.Instruction, f *sframe) bool) bool {
	return f.must(match)
}

func (s *setter) changes() string {
	ok := s.must(func(in ssa.Instruction, f *sframe) bool {
		if s.kept != nil && s.kept(in, f) {
			return true
		}
		v, isStore := s.store(in, f)
		if !isStore {
			return false
		}
		if s.given == nil {
			return true // unset: C18 checks the default
		}
		return v != nil && (s.given(f.expand(v)) || s.sc.newNil && isNilConst(one(f.expand(v))))
	})
	if !ok {
		return "can return without storing the new value"
	}
	bad := false
	s.each(func(in ssa.Instruction, f *sframe) {
		if v, isStore := s.store(in, f); isStore && s.given != nil {
			if v == nil || !(s.given(f.expand(v)) || s.sc.newNil && isNilConst(one(f.expand(v)))) {
				bad = true
			}
		}
	})
	if bad {
		return "can store something other than the new value"
	}
	return ""
}

// announced: the other end is told (name on the value classified as role).
func (s *setter) announced(name, role string) string {
	what := map[string]string{"EInverseAdd": "the new value that it is referred to", "EInverseRemove": "the previous value that it is no longer referred to"}[name]
	match := func(in ssa.Instruction, f *sframe) bool {
		call, ok := in.(*ssa.Call)
		if s.kept != nil && s.kept(in, f) {
			return true
		}
		if !ok || calleeName(&call.Call) != name || recvOf(&call.Call) == nil {
			return false
		}
		r := recvOf(&call.Call)
		if s.class(r, f) != role {
			return false
		}
		if role == "old" {
			for _, x := range f.expand(r) {
				if !s.isOld(x) {
					return false
				}
			}
		}
		a := argsOf(&call.Call)
		return len(a) == 3 && s.self(a[0], f)
	}
	if !s.must(match) {
		return "can return without telling " + what
	}
	return ""
}

// silent: nobody else is told in a case where nothing changes hands.
func (s *setter) silent(name string) bool {
	any := false
	s.each(func(in ssa.Instruction, f *sframe) {
		if call, ok := in.(*ssa.Call); ok && calleeName(&call.Call) == name {
			any = true
		}
	})
	return !any
}

// dispatched: a chain that results is dispatched.
func (s *setter) dispatched() string {
	if !s.must(func(in ssa.Instruction, f *sframe) bool {
		if s.kept != nil && s.kept(in, f) {
			return true
		}
		call, ok := in.(*ssa.Call)
		return ok && calleeName(&call.Call) == "Dispatch"
	}) {
		return "can return without dispatching the notifications of the change"
	}
	return ""
}

func (s *setter) detachesContainer() string {
	is := func(in ssa.Instruction, f *sframe) bool {
		call, ok := in.(*ssa.Call)
		return ok && strings.HasPrefix(calleeName(&call.Call), "EBasicRemoveFromContainer") && s.self(recvOf(&call.Call), f)
	}
	if !s.must(is) {
		return "can return without leaving the old container"
	}
	msg, stored := "", false
	s.each(func(in ssa.Instruction, f *sframe) {
		if _, ok := s.store(in, f); ok {
			stored = true
		}
		if is(in, f) && stored {
			msg = "leaves the old container after entering the new one"
		}
	})
	return msg
}

var (
	freshCase = setCase{}
	firstCase = setCase{oldNil: true}
	clearCase = setCase{newNil: true}
)

func checkC12(c *Ctx) {
	c.Rule("stores", "setting or unsetting a feature changes the stored value to the one given (or the default)")
	c.Rule("notifies", "it delivers a notification of the object with the feature, the previous value and the new value, in that order")
	c.Rule("inverse", "for a feature with an inverse or containment, the previous value is detached and the new one attached")
	c.Rule("container", "entering or leaving a container through a feature leaves the old container and notifies for the features concerned")
	c.Rule("resolve", "a resolved proxy is announced with the proxy as previous value and the resolved object as new value")
	m := c.metamodel()
	for _, cl := range m.ImplClasses() {
		n := m.Impl[cl]
		for _, owner := range c.typesOf(cl, n) {
			for i := 0; i < owner.NumMethods(); i++ {
				fn := c.byObj[owner.Method(i)]
				if fn == nil || len(fn.Blocks) == 0 {
					continue
				}
				verb, name := accessorVerb(fn.Name())
				e := cl.featureNamed(name)
				if e == nil || e.Many() {
					continue
				}
				switch verb {
				case "Set", "SetTyped", "Unset":
					c.staticSetter(cl, owner, e, fn, verb)
				case "basicSet", "BasicSet":
					c.staticBasic(cl, owner, e, fn)
				case "Get", "GetTyped":
					c.staticResolve(cl, owner, e, fn)
				}
			}
		}
	}
	c.dynamicSetters()
	c.containerSetter()
	c.resourceSetters()
	c.Floor("stores", 60)
	c.Floor("notifies", 60)
	c.Floor("inverse", 15)
	c.Floor("container", 15)
	c.Floor("resolve", 4)
}

// typesOf: the class's implementation type and the library types extending it.
func (c *Ctx) typesOf(cl *mmClass, n *types.Named) []*types.Named {
	out := []*types.Named{n}
	for _, x := range c.Named {
		if _, ok := x.Underlying().(*types.Struct); !ok || x == n {
			continue
		}
		if c.metamodel().classOfType(x) != cl {
			continue
		}
		isImpl := false
		for _, o := range c.metamodel().Impl {
			if o == x {
				isImpl = true
			}
		}
		if !isImpl {
			out = append(out, x)
		}
	}
	return out
}

func (c *Ctx) staticFrame(cl *mmClass, owner *types.Named, e *mmElem, fn *ssa.Function, sc setCase) *setter {
	s := &setter{c: c, fn: fn, sc: sc}
	f := c.specFrame(fn, map[ssa.Value]constant.Value{}, nil)
	sf := &selfFrame{sframe: f, c: c, cl: cl, self: fn.Params[0]}
	f.inline = func(cc *ssa.CallCommon, g *ssa.Function) bool {
		if strings.HasPrefix(g.Name(), "EBasic") || strings.HasPrefix(g.Name(), "as") || strings.HasPrefix(g.Name(), "As") || g.Name() == "GetInterfaces" || len(g.Blocks) > 30 {
			return false
		}
		if v, n := accessorVerb(g.Name()); n != "" && cl.featureNamed(n) != nil {
			return v == "SetTyped" && cl.featureNamed(n) == e
		}
		if r := g.Signature.Recv(); r != nil {
			return namedStruct(r.Type()) == owner || !token.IsExported(g.Name()) && namedStruct(r.Type()) != nil && embeds(owner, namedStruct(r.Type()), 0)
		}
		return !isCtorFn(g)
	}
	s.sframe = f
	s.self = func(v ssa.Value, f *sframe) bool { return v != nil && sf.isSelf(v, f, 0) }
	var field *types.Var
	for _, o := range []*types.Named{c.metamodel().Impl[e.Class], owner} {
		if o != nil && field == nil {
			field = fieldFor(o, e)
		}
	}
	s.read = func(x fval) bool {
		if e.Container() {
			call, ok := x.v.(*ssa.Call)
			return ok && (calleeName(&call.Call) == "EInternalContainer" || calleeName(&call.Call) == "EContainer") && s.self(recvOf(&call.Call), x.f)
		}
		if u, ok := x.v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, isF := u.X.(*ssa.FieldAddr); isF && s.self(fa.X, x.f) && norm(fieldOf(fa).Name()) == norm(e.Name()) {
				return true // an extension's own copy
			}
		}
		got, verb := sf.featureRead(x)
		return got == e && (verb == "field" || strings.HasPrefix(verb, "basicGet"))
	}
	s.store = func(in ssa.Instruction, f *sframe) (ssa.Value, bool) {
		switch t := in.(type) {
		case *ssa.Store:
			fa, ok := t.Addr.(*ssa.FieldAddr)
			if ok && s.self(fa.X, f) && (fieldOf(fa) == field || norm(fieldOf(fa).Name()) == norm(e.Name())) {
				return t.Val, true
			}
		case *ssa.Call:
			r := recvOf(&t.Call)
			if r == nil || !s.self(r, f) {
				return nil, false
			}
			a := argsOf(&t.Call)
			if v, n := accessorVerb(calleeName(&t.Call)); (v == "basicSet" || v == "BasicSet") && cl.featureNamed(n) == e && len(a) == 2 {
				return a[0], true
			}
			if calleeName(&t.Call) == "EBasicSetContainer" && len(a) == 3 && e.Container() {
				if k := f.constOf(a[1]); k != nil && k.ExactString() == fmt.Sprint(e.ID()) {
					return a[0], true
				}
			}
		}
		return nil, false
	}
	s.which = func(ctor string, v ssa.Value, f *sframe) (string, bool) {
		if types.IsInterface(v.Type()) {
			for _, x := range f.expand(v) {
				call, ok := x.v.(*ssa.Call)
				if !ok || calleeName(&call.Call) != "Get"+e.Class.Name+"_"+upperFirst(e.Name()) {
					return "another feature", false
				}
			}
			return "", true
		}
		k := f.constOf(v)
		return "another feature", k != nil && k.ExactString() == fmt.Sprint(e.ID())
	}
	return s
}

func isCtorFn(g *ssa.Function) bool {
	if g.Signature.Recv() != nil || g.Signature.Results().Len() != 1 {
		return false
	}
	for _, p := range g.Params {
		if typeName(p.Type()) == "EventType" {
			return true
		}
	}
	return false
}

// embeds: n is part of the struct outer, at any depth.
func embeds(outer, n *types.Named, d int) bool {
	st, ok := outer.Underlying().(*types.Struct)
	if !ok || d > 20 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		if x := namedStruct(f.Type()); x != nil && (x == n || embeds(x, n, d+1)) {
			return true
		}
	}
	return false
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (c *Ctx) staticSetter(cl *mmClass, owner *types.Named, e *mmElem, fn *ssa.Function, verb string) {
	if e.Class != cl {
		return // an override: checked for the class that declares it, below it is the same feature
	}
	set := verb != "Unset"
	key := owner.Obj().Name() + "." + fn.Name()
	build := func(sc setCase) *setter {
		s := c.staticFrame(cl, owner, e, fn, sc)
		if set {
			s.given = func(vs []fval) bool { return isTop(vs, fn.Params[1]) }
		}
		s.kept = func(in ssa.Instruction, f *sframe) bool {
			call, ok := in.(*ssa.Call)
			if !ok || recvOf(&call.Call) == nil || !s.self(recvOf(&call.Call), f) {
				return false
			}
			a := argsOf(&call.Call)
			v, n := accessorVerb(calleeName(&call.Call))
			if call.Call.StaticCallee() == fn || cl.featureNamed(n) != e || (set && (v != "Set" && v != "SetTyped")) || (!set && v != verb && v != "Set") {
				return false
			}
			if f.callee(call) != nil {
				return false
			}
			return !set && len(a) <= 1 || len(a) == 1 && s.given(f.expand(a[0]))
		}
		s.run()
		return s
	}
	cases := []setCase{freshCase}
	isNilable := fn.Signature.Params().Len() > 0 && nilable(fn.Signature.Params().At(0).Type())
	if set && isNilable {
		cases = append(cases, firstCase, clearCase)
	}
	inverse := e.Init().HasOpposite || e.Init().Containment || e.Container()
	var msg [3]string
	for _, sc := range cases {
		sc.chain = inverse
		s := build(sc)
		note := func(i int, m string) {
			if m != "" && msg[i] == "" {
				msg[i] = m + " (case: " + sc.String() + ")"
			}
		}
		if m := s.changes(); m == "" || !e.Init().Volatile || !s.must(func(in ssa.Instruction, f *sframe) bool {
			// a feature without storage of its own is kept in another one
			call, ok := in.(*ssa.Call)
			if !ok || recvOf(&call.Call) == nil || !s.self(recvOf(&call.Call), f) {
				return false
			}
			v, n := accessorVerb(calleeName(&call.Call))
			return v == "Set" && len(argsOf(&call.Call)) == 1 && cl.featureNamed(n) != nil && !cl.featureNamed(n).Many()
		}) {
			note(0, m)
		}
		if !inverse {
			note(1, s.keepsOrDelivers(map[bool][]string{true: {"SET"}, false: {"UNSET", "SET"}}[set]...))
			continue
		}
		note(1, s.dispatched())
		if !sc.newNil {
			note(2, s.announced("EInverseAdd", "new"))
		}
		if !sc.oldNil {
			if e.Container() {
				note(2, s.detachesContainer())
			} else {
				note(2, s.announced("EInverseRemove", "old"))
			}
		}
	}
	if e.Container() {
		// the same object, but contained through another feature
		sc := setCase{same: true, chain: true}
		s := build(sc)
		for _, x := range []string{s.changes(), s.detachesContainer(), s.announced("EInverseAdd", "new")} {
			if x != "" && msg[2] == "" {
				msg[2] = x + " (case: already contained by the same object through another feature)"
			}
		}
	}
	if inverse && set {
		// the value it already has: whatever is announced is consistent
		s := build(setCase{same: true, sameFeature: true})
		why := ""
		s.each(func(in ssa.Instruction, f *sframe) {
			if call, ok := in.(*ssa.Call); ok && calleeName(&call.Call) == "ENotify" && s.self(recvOf(&call.Call), f) {
				for _, x := range f.expand(argsOf(&call.Call)[0]) {
					if m := s.notification(x, "SET"); m != "" {
						why = m
					}
				}
			}
		})
		if why != "" && msg[1] == "" {
			msg[1] = "delivers " + why + " (case: the value it already has)"
		}
		if !s.silent("EInverseAdd") && s.silent("EInverseRemove") && s.silent("EBasicRemoveFromContainer") && msg[2] == "" {
			msg[2] = "tells the value again that it is referred to (case: the value it already has)"
		}
	}
	c.Decide(msg[0] == "", "stores", key, fn.Pos(), "%s %s", fname(fn), msg[0])
	c.Decide(msg[1] == "", "notifies", key, fn.Pos(), "%s %s", fname(fn), msg[1])
	if inverse {
		c.Decide(msg[2] == "", "inverse", key, fn.Pos(), "%s %s", fname(fn), msg[2])
	}
}

// staticBasic: the variant that leaves inverses to its caller and returns the notifications.
func (c *Ctx) staticBasic(cl *mmClass, owner *types.Named, e *mmElem, fn *ssa.Function) {
	if e.Class != cl || len(fn.Params) != 3 {
		return
	}
	key := owner.Obj().Name() + "." + fn.Name()
	var msg [2]string
	for _, chain := range []bool{false, true} {
		for _, base := range []setCase{freshCase, firstCase, clearCase} {
			base.chain = chain
			s := c.staticFrame(cl, owner, e, fn, base)
			s.given = func(vs []fval) bool { return isTop(vs, fn.Params[1]) }
			if e.Container() {
				s.kept = func(in ssa.Instruction, f *sframe) bool {
					_, ok := s.store(in, f)
					return ok
				}
			}
			s.run()
			if m := s.changes(); m != "" && msg[0] == "" {
				msg[0] = m + " (case: " + base.String() + ")"
			}
			if m := s.keepsOrDelivers("SET"); m != "" && msg[1] == "" {
				msg[1] = m + " (case: " + base.String() + ")"
			}
		}
	}
	c.Decide(msg[0] == "", "stores", key, fn.Pos(), "%s %s", fname(fn), msg[0])
	c.Decide(msg[1] == "", "notifies", key, fn.Pos(), "%s %s", fname(fn), msg[1])
}

func (c *Ctx) staticResolve(cl *mmClass, owner *types.Named, e *mmElem, fn *ssa.Function) {
	if e.Class != cl {
		return
	}
	s := c.staticFrame(cl, owner, e, fn, freshCase)
	resolves := false
	for _, ci := range calls(fn) {
		if calleeName(ci.Common()) == "EResolveProxy" {
			resolves = true
		}
	}
	if !resolves {
		return
	}
	resolved := func(x fval) bool {
		call, ok := x.v.(*ssa.Call)
		return ok && calleeName(&call.Call) == "EResolveProxy"
	}
	s.given = func(vs []fval) bool { return len(vs) == 1 && resolved(vs[0]) }
	s.more = func(v ssa.Value, f *sframe) constant.Value {
		if call, ok := v.(*ssa.Call); ok && calleeName(&call.Call) == "EIsProxy" {
			return constant.MakeBool(true)
		}
		return nil
	}
	s.run()
	key := owner.Obj().Name() + "." + fn.Name()
	msg := s.changes()
	if msg == "" {
		why := ""
		anyBad := ""
		if !s.must(func(in ssa.Instruction, f *sframe) bool {
			call, ok := in.(*ssa.Call)
			if !ok || calleeName(&call.Call) != "ENotify" {
				return false
			}
			for _, x := range f.expand(argsOf(&call.Call)[0]) {
				if why = s.notification(x, "RESOLVE"); why != "" {
					anyBad = why
					return false
				}
			}
			return true
		}) {
			msg = "can return without announcing that the proxy was resolved"
			if anyBad != "" {
				msg = "delivers " + anyBad
			}
		}
	}
	c.Decide(msg == "", "resolve", key, fn.Pos(), "%s %s", fname(fn), msg)
}

// dynamicSetters: the reflective operations on features known only at run time.
func (c *Ctx) dynamicSetters() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		op := fn.Name()
		idArg := 1
		switch op {
		case "ESetFromID", "EUnsetFromID":
		case "EBasicInverseAdd", "EBasicInverseRemove":
			idArg = 2
		default:
			continue
		}
		if len(fn.Params) <= idArg {
			continue
		}
		if !c.reachesDynamic(fn, idArg) {
			continue
		}
		for _, kind := range []string{"container", "containment", "containment with opposite", "opposite", "plain"} {
			var msg [4]string
			cases := []setCase{freshCase}
			if op == "ESetFromID" {
				cases = []setCase{freshCase, firstCase, clearCase}
			}
			if op == "EBasicInverseAdd" {
				cases = []setCase{freshCase, firstCase}
			}
			n := len(cases)
			for i := 0; i < n; i++ {
				sc := cases[i]
				sc.chain = true
				cases = append(cases, sc)
			}
			if kind == "container" && op == "ESetFromID" {
				cases = append(cases, setCase{same: true, chain: true})
			}
			inversed := kind != "plain"
			if !inversed && strings.HasPrefix(op, "EBasic") {
				continue
			}
			for _, sc := range cases {
				s := c.dynamicFrame(fn, idArg, kind, sc)
				switch op {
				case "ESetFromID":
					s.given = func(vs []fval) bool { return isTop(vs, fn.Params[2]) }
				case "EBasicInverseAdd":
					s.given = func(vs []fval) bool { return isTop(vs, fn.Params[1]) }
				}
				s.run()
				note := func(i int, m string) {
					if m != "" && msg[i] == "" {
						msg[i] = m + " (case: " + sc.String() + ")"
					}
				}
				note(0, s.changes())
				events := []string{"SET"}
				if op == "EUnsetFromID" {
					events = []string{"UNSET", "SET"}
				}
				if kind == "container" {
					if !strings.HasPrefix(op, "EBasic") && sc.chain {
						note(1, s.dispatched())
						if !sc.oldNil {
							note(3, s.detachesContainer())
						}
					}
					if op == "EBasicInverseAdd" && !sc.oldNil {
						note(3, s.detachesContainer())
					}
					if op == "ESetFromID" && !sc.newNil {
						note(2, s.announced("EInverseAdd", "new"))
					}
					continue
				}
				note(1, s.keepsOrDelivers(events...))
				if inversed {
					if !strings.HasPrefix(op, "EBasic") {
						note(1, s.dispatched())
					}
					if op == "ESetFromID" && !sc.newNil {
						note(2, s.announced("EInverseAdd", "new"))
					}
					if op != "EBasicInverseRemove" && !sc.oldNil {
						note(2, s.announced("EInverseRemove", "old"))
					}
				}
			}
			key := fname(fn) + " " + kind
			c.Decide(msg[0] == "", "stores", key, fn.Pos(), "%s of a feature of kind %s %s", fname(fn), kind, msg[0])
			c.Decide(msg[1] == "", "notifies", key, fn.Pos(), "%s of a feature of kind %s %s", fname(fn), kind, msg[1])
			if inversed && kind != "container" && op != "EBasicInverseRemove" {
				c.Decide(msg[2] == "", "inverse", key, fn.Pos(), "%s of a feature of kind %s %s", fname(fn), kind, msg[2])
			}
			if kind == "container" && op != "EBasicInverseRemove" {
				m := msg[3]
				if m == "" {
					m = msg[2]
				}
				c.Decide(m == "", "container", key, fn.Pos(), "%s of a feature of kind %s %s", fname(fn), kind, m)
			}
		}
	}
}

// reachesDynamic: the operation itself changes the storage of dynamic features.
func (c *Ctx) reachesDynamic(fn *ssa.Function, idArg int) bool {
	s := c.dynamicFrame(fn, idArg, "plain", freshCase)
	reaches := false
	s.each(func(in ssa.Instruction, f *sframe) {
		if call, ok := in.(*ssa.Call); ok && strings.HasPrefix(calleeName(&call.Call), "EDynamic") && calleeName(&call.Call) != "EDynamicProperties" {
			reaches = true
		}
	})
	return reaches
}

func (c *Ctx) dynamicFrame(fn *ssa.Function, idArg int, kind string, sc setCase) *setter {
	s := &setter{c: c, fn: fn, sc: sc}
	f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
		if strings.HasPrefix(g.Name(), "EBasic") || strings.HasPrefix(g.Name(), "As") || g.Name() == "GetInterfaces" || g.Name() == "EResolveProxy" || isCtorFn(g) {
			return false
		}
		if strings.HasPrefix(g.Name(), "Is") && g.Signature.Recv() == nil {
			return false
		}
		if r := g.Signature.Recv(); r != nil {
			return namedStruct(r.Type()) == namedStruct(fn.Signature.Recv().Type()) && g != fn
		}
		return true
	})
	s.sframe = f
	sf := &selfFrame{sframe: f, c: c, cl: &mmClass{}, self: fn.Params[0]}
	s.self = func(v ssa.Value, f *sframe) bool { return v != nil && sf.isSelf(v, f, 0) }
	id := fn.Params[idArg]
	feature := func(vs []fval) bool {
		for _, x := range vs {
			call, ok := x.v.(*ssa.Call)
			if !ok || calleeName(&call.Call) != "GetEStructuralFeature" || !isTop(x.f.expand(argsOf(&call.Call)[0]), id) {
				return false
			}
		}
		return len(vs) > 0
	}
	container := kind == "container"
	cont := strings.HasPrefix(kind, "containment")
	opp := container || strings.HasSuffix(kind, "opposite")
	base := featureAtoms(feature, map[string]bool{"IsMany": false, "IsContainer": container, "IsContains": cont, "IsContainment": cont, "IsBidirectional": opp}, opp)
	props := func(vs []fval) bool {
		for _, x := range vs {
			call, ok := x.v.(*ssa.Call)
			if !ok || calleeName(&call.Call) != "EDynamicProperties" {
				return false
			}
		}
		return len(vs) > 0
	}
	// the identifier less the number of static features
	index := func(v ssa.Value, f *sframe) bool {
		vs := f.expand(v)
		for _, x := range vs {
			b, ok := x.v.(*ssa.BinOp)
			if !ok || b.Op != token.SUB || !isTop(x.f.expand(b.X), id) {
				return false
			}
			call, ok := one(x.f.expand(b.Y)).(*ssa.Call)
			if !ok || calleeName(&call.Call) != "EStaticFeatureCount" {
				return false
			}
		}
		return len(vs) > 0
	}
	s.more = func(v ssa.Value, f *sframe) constant.Value {
		if b, ok := v.(*ssa.BinOp); ok {
			switch b.Op {
			case token.EQL, token.NEQ:
				for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if isNilConst(p[1]) && props(f.expand(p[0])) {
						return constant.MakeBool(b.Op == token.NEQ)
					}
				}
				if isTop(f.expand(b.X), id) || isTop(f.expand(b.Y), id) {
					if container {
						return constant.MakeBool(sc.sameFeature == (b.Op == token.EQL))
					}
				}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				zero := func(v ssa.Value) bool { n, ok := constInt(v); return ok && n == 0 }
				if zero(b.Y) && index(b.X, f) {
					return constant.MakeBool(b.Op == token.GEQ || b.Op == token.GTR)
				}
				if zero(b.X) && index(b.Y, f) {
					return constant.MakeBool(b.Op == token.LEQ || b.Op == token.LSS)
				}
				count := func(v ssa.Value) bool {
					call, ok := one(f.expand(v)).(*ssa.Call)
					return ok && calleeName(&call.Call) == "EStaticFeatureCount"
				}
				if isTop(f.expand(b.X), id) && count(b.Y) {
					return constant.MakeBool(b.Op == token.GEQ || b.Op == token.GTR)
				}
				if count(b.X) && isTop(f.expand(b.Y), id) {
					return constant.MakeBool(b.Op == token.LEQ || b.Op == token.LSS)
				}
			}
		}
		return base(v, f)
	}
	s.read = func(x fval) bool {
		call, ok := x.v.(*ssa.Call)
		if !ok || recvOf(&call.Call) == nil {
			return false
		}
		if container {
			return (calleeName(&call.Call) == "EInternalContainer" || calleeName(&call.Call) == "EContainer") && s.self(recvOf(&call.Call), x.f)
		}
		return calleeName(&call.Call) == "EDynamicGet" && index(argsOf(&call.Call)[0], x.f)
	}
	s.store = func(in ssa.Instruction, f *sframe) (ssa.Value, bool) {
		call, ok := in.(*ssa.Call)
		if !ok || recvOf(&call.Call) == nil {
			return nil, false
		}
		a := argsOf(&call.Call)
		switch calleeName(&call.Call) {
		case "EBasicSetContainer":
			if container && s.self(recvOf(&call.Call), f) {
				return a[0], true
			}
		case "EDynamicSet":
			if !container && index(a[0], f) {
				return a[1], true
			}
		case "EDynamicUnset":
			if !container && index(a[0], f) {
				return nil, true
			}
		}
		return nil, false
	}
	s.which = func(ctor string, v ssa.Value, f *sframe) (string, bool) {
		return "another feature", feature(f.expand(v)) || isTop(f.expand(v), id)
	}
	return s
}

// containerSetter: the operation that makes an object enter or leave a container.
func (c *Ctx) containerSetter() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || fn.Name() != "EBasicSetContainer" || len(fn.Blocks) == 0 || len(fn.Params) != 4 {
			continue
		}
		type ccase struct {
			setCase
			oldID, newID, sameID bool // identifiers that denote a feature of the object
		}
		for _, cc := range []ccase{
			{setCase{}, true, true, true}, {setCase{}, true, true, false}, {setCase{}, true, false, false}, {setCase{}, false, true, false},
			{setCase{oldNil: true}, false, true, false}, {setCase{newNil: true}, true, true, true},
		} {
			for _, chain := range []bool{false, true} {
				cc.chain = chain
				msg := c.containerCase(fn, cc.setCase, cc.oldID, cc.newID, cc.sameID)
				key := fmt.Sprintf("%s old=%t/%t new=%t/%t same=%t pending=%t", fname(fn), !cc.oldNil, cc.oldID, !cc.newNil, cc.newID, cc.sameID, chain)
				c.Decide(msg == "", "container", key, fn.Pos(), "%s %s (%s; features of this object: old %t, new %t)", fname(fn), msg, cc.setCase, cc.oldID, cc.newID)
			}
		}
	}
}

func (c *Ctx) containerCase(fn *ssa.Function, sc setCase, oldID, newID, sameID bool) string {
	s := &setter{c: c, fn: fn, sc: sc}
	f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
		if strings.HasPrefix(g.Name(), "EBasic") || strings.HasPrefix(g.Name(), "As") || g.Name() == "GetInterfaces" || isCtorFn(g) {
			return false
		}
		if r := g.Signature.Recv(); r != nil {
			return namedStruct(r.Type()) == namedStruct(fn.Signature.Recv().Type()) && g != fn
		}
		return !token.IsExported(g.Name())
	})
	s.sframe = f
	sf := &selfFrame{sframe: f, c: c, cl: &mmClass{}, self: fn.Params[0]}
	s.self = func(v ssa.Value, f *sframe) bool { return v != nil && sf.isSelf(v, f, 0) }
	s.given = func(vs []fval) bool { return isTop(vs, fn.Params[1]) }
	s.read = func(x fval) bool {
		call, ok := x.v.(*ssa.Call)
		return ok && (calleeName(&call.Call) == "EInternalContainer" || calleeName(&call.Call) == "EContainer") && s.self(recvOf(&call.Call), x.f)
	}
	newFeature := func(v ssa.Value, f *sframe) bool { return isTop(f.expand(v), fn.Params[2]) }
	oldFeature := func(v ssa.Value, f *sframe) bool {
		vs := f.expand(v)
		for _, x := range vs {
			call, ok := x.v.(*ssa.Call)
			if !ok || (calleeName(&call.Call) != "EInternalContainerFeatureID" && calleeName(&call.Call) != "EContainerFeatureID") || !s.before(x) {
				return false
			}
		}
		return len(vs) > 0
	}
	s.store = func(in ssa.Instruction, f *sframe) (ssa.Value, bool) {
		call, ok := in.(*ssa.Call)
		if !ok || calleeName(&call.Call) != "ESetInternalContainer" || !s.self(recvOf(&call.Call), f) {
			return nil, false
		}
		a := argsOf(&call.Call)
		if !newFeature(a[1], f) {
			return nil, false
		}
		return a[0], true
	}
	s.more = func(v ssa.Value, f *sframe) constant.Value {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return nil
		}
		switch b.Op {
		case token.EQL, token.NEQ:
			if newFeature(b.X, f) && oldFeature(b.Y, f) || newFeature(b.Y, f) && oldFeature(b.X, f) {
				return constant.MakeBool(sameID == (b.Op == token.EQL))
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			n, isC := constInt(b.Y)
			x, op := b.X, b.Op
			if !isC {
				n, isC = constInt(b.X)
				x = b.Y
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[b.Op]
			}
			if !isC {
				return nil
			}
			var own bool
			switch {
			case newFeature(x, f):
				own = newID
			case oldFeature(x, f):
				own = oldID
			default:
				return nil
			}
			// an identifier of this object's feature is not negative; of the container's, below -1
			k := int64(-3)
			if own {
				k = 3
			}
			return constant.MakeBool(constant.Compare(constant.MakeInt64(k), op, constant.MakeInt64(n)))
		}
		return nil
	}
	s.run()
	if m := s.changes(); m != "" {
		return m
	}
	// which notifications are due: feature -> (old, new)
	type due struct{ left, entered bool }
	want := due{left: !sc.oldNil && oldID && !sameID, entered: newID}
	check := func(x fval) (kind, why string) {
		call, ok := x.v.(*ssa.Call)
		if !ok {
			return "", ""
		}
		name, obj, ev, feat, old, new := notificationCtor(&call.Call)
		if name == "" {
			return "", ""
		}
		if !s.self(obj, x.f) {
			return "", "announces the change of another object"
		}
		if s.eventOf(fval{ev, x.f}) != "SET" {
			return "", "announces something other than a set"
		}
		isOld := func(v ssa.Value) bool {
			for _, y := range x.f.expand(v) {
				if !(s.isOld(y) || sc.oldNil && isNilConst(y.v)) {
					return false
				}
			}
			return true
		}
		isNew := func(v ssa.Value) bool {
			vs := x.f.expand(v)
			return s.given(vs) || sc.newNil && isNilConst(one(vs))
		}
		switch {
		case newFeature(feat, x.f):
			if !isNew(new) {
				return "entered", "announces a new container other than the one given"
			}
			if sameID && !isOld(old) || !sameID && !isNilConst(one(x.f.expand(old))) {
				return "entered", "announces a previous container the feature did not have"
			}
			return "entered", ""
		case oldFeature(feat, x.f):
			if !isNilConst(one(x.f.expand(new))) || !isOld(old) {
				return "left", "does not announce that the old container was left"
			}
			return "left", ""
		}
		return "", "announces a change of another feature"
	}
	why := ""
	passes := func(kind string) bool {
		return s.must(func(in ssa.Instruction, f *sframe) bool {
			var xs []fval
			switch t := in.(type) {
			case *ssa.Call:
				if calleeName(&t.Call) == "Add" && len(argsOf(&t.Call)) == 1 && implementsNamed(c.Program, recvOf(&t.Call).Type(), "ENotificationChain") {
					xs = f.expand(argsOf(&t.Call)[0])
				}
				if calleeName(&t.Call) == "ENotify" {
					xs = f.expand(argsOf(&t.Call)[0])
				}
				// the notification starts the chain
				if isCtor(t) && s.startsChain(t) {
					xs = []fval{{t, f}}
				}
			}
			for _, x := range xs {
				k, w := check(x)
				if w != "" && why == "" {
					why = w
				}
				if k != kind {
					return false
				}
			}
			return len(xs) > 0
		})
	}
	if l := passes("left"); want.left && !l {
		if why != "" {
			return why
		}
		return "can return without announcing that the old container was left"
	}
	if e := passes("entered"); want.entered && !e {
		if why != "" {
			return why
		}
		return "can return without announcing the new container"
	}
	return why
}

// startsChain: the notification becomes the chain that is returned or added to.
func (s *setter) startsChain(call *ssa.Call) bool {
	starts := false
	s.each(func(in ssa.Instruction, f *sframe) {
		var v ssa.Value
		switch t := in.(type) {
		case *ssa.Return:
			if f.parent == nil && len(t.Results) == 1 {
				v = t.Results[0]
			}
		case *ssa.Call:
			if n := calleeName(&t.Call); n == "Add" || n == "Dispatch" {
				v = recvOf(&t.Call)
			}
		}
		if v == nil {
			return
		}
		for _, x := range f.expand(v) {
			if x.v == ssa.Value(call) {
				starts = true
			}
		}
	})
	return starts
}

// resourceSetters: the features of a resource.
func (c *Ctx) resourceSetters() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || len(fn.Blocks) == 0 || len(fn.Params) < 2 {
			continue
		}
		owner := namedStruct(fn.Signature.Recv().Type())
		if owner == nil || !implementsNamed(c.Program, types.NewPointer(owner), "EResourceInternal") {
			continue
		}
		verb, name := accessorVerb(fn.Name())
		if verb != "Set" && verb != "BasicSet" {
			continue
		}
		id := c.resourceFeature(name)
		if id == nil {
			continue
		}
		cases := []setCase{freshCase}
		if verb == "BasicSet" {
			cases = append(cases, setCase{chain: true})
		}
		if nilable(fn.Signature.Params().At(0).Type()) {
			cases = append(cases, firstCase, clearCase)
		}
		var msg [3]string
		holder := false
		for _, sc := range cases {
			s := &setter{c: c, fn: fn, sc: sc}
			s.sframe = c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
				if r := g.Signature.Recv(); r != nil {
					_, n := accessorVerb(g.Name())
					return namedStruct(r.Type()) == owner && !strings.HasPrefix(g.Name(), "As") && c.resourceFeature(n) == nil && g.Name() != "GetInterfaces"
				}
				return !isCtorFn(g)
			})
			sf := &selfFrame{sframe: s.sframe, c: c, cl: &mmClass{}, self: fn.Params[0]}
			s.self = func(v ssa.Value, f *sframe) bool { return v != nil && sf.isSelf(v, f, 0) }
			s.given = func(vs []fval) bool { return isTop(vs, fn.Params[1]) }
			isField := func(v ssa.Value, f *sframe) bool {
				fa, ok := v.(*ssa.FieldAddr)
				if !ok || !s.self(fa.X, f) {
					return false
				}
				fn := norm(fieldOf(fa).Name())
				return fn == norm(name) || fn == "IS"+norm(name)
			}
			s.read = func(x fval) bool {
				u, ok := x.v.(*ssa.UnOp)
				return ok && u.Op == token.MUL && isField(u.X, x.f)
			}
			s.store = func(in ssa.Instruction, f *sframe) (ssa.Value, bool) {
				st, ok := in.(*ssa.Store)
				if ok && isField(st.Addr, f) {
					return st.Val, true
				}
				return nil, false
			}
			s.which = func(ctor string, v ssa.Value, f *sframe) (string, bool) {
				k := f.constOf(v)
				return "another feature", k != nil && constant.Compare(k, token.EQL, id)
			}
			s.run()
			note := func(i int, m string) {
				if m != "" && msg[i] == "" {
					msg[i] = m + " (case: " + sc.String() + ")"
				}
			}
			note(0, s.changes())
			note(1, s.keepsOrDelivers("SET"))
			if typeName(fn.Params[1].Type()) == "EResourceSet" && !sc.oldNil {
				holder = true
				if !s.must(func(in ssa.Instruction, f *sframe) bool {
					call, ok := in.(*ssa.Call)
					if !ok || calleeName(&call.Call) != "RemoveWithNotification" {
						return false
					}
					a := argsOf(&call.Call)
					list, ok := one(f.expand(recvOf(&call.Call))).(*ssa.Call)
					return ok && calleeName(&list.Call) == "GetResources" && s.class(recvOf(&list.Call), f) == "old" && s.self(a[0], f)
				}) {
					note(2, "can return without leaving the resource set it was in")
				}
			}
		}
		key := fname(fn)
		c.Decide(msg[0] == "", "stores", key, fn.Pos(), "%s %s", fname(fn), msg[0])
		c.Decide(msg[1] == "", "notifies", key, fn.Pos(), "%s %s", fname(fn), msg[1])
		if holder {
			c.Decide(msg[2] == "", "inverse", key, fn.Pos(), "%s %s", fname(fn), msg[2])
		}
	}
}

// resourceFeature is the identifier of a resource's feature.
func (c *Ctx) resourceFeature(name string) constant.Value {
	for _, m := range c.EcoreSSA.Members {
		if nc, ok := m.(*ssa.NamedConst); ok && strings.HasPrefix(nc.Name(), "RESOURCE__") {
			n := norm(strings.TrimPrefix(nc.Name(), "RESOURCE__"))
			if n == norm(name) || n == "IS"+norm(name) {
				return nc.Value.Value
			}
		}
	}
	return nil
}
