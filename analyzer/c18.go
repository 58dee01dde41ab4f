package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C18", checkC18) }

// selfFrame is a reflective method analysed for one feature or operation.
type selfFrame struct {
	*sframe
	c    *Ctx
	cl   *mmClass
	self ssa.Value
}

// reflective opens method fn of class cl with its identifier parameter fixed.
func (c *Ctx) reflective(cl *mmClass, fn *ssa.Function, param int, id int64, more map[int]constant.Value) *selfFrame {
	vals := map[ssa.Value]constant.Value{fn.Params[param]: constant.MakeInt64(id)}
	for i, k := range more {
		vals[fn.Params[i]] = k
	}
	f := c.specFrame(fn, vals, func(cc *ssa.CallCommon, g *ssa.Function) bool {
		if strings.HasSuffix(g.Name(), "FromID") || strings.HasPrefix(g.Name(), "EBasic") || strings.HasPrefix(g.Name(), "as") || strings.HasPrefix(g.Name(), "As") {
			return false
		}
		if _, n := accessorVerb(g.Name()); n != "" && cl.featureNamed(n) != nil {
			return false
		}
		if g.Name() == "GetInterfaces" || len(g.Blocks) > 30 {
			return false
		}
		// helpers: methods of the type itself and plain functions
		if r := g.Signature.Recv(); r != nil {
			return namedStruct(r.Type()) == namedStruct(fn.Signature.Recv().Type())
		}
		return true
	})
	return &selfFrame{sframe: f, c: c, cl: cl, self: fn.Params[0]}
}

// isSelf: the receiver, or one of the views it has of itself.
func (s *selfFrame) isSelf(v ssa.Value, f *sframe, d int) bool {
	if d > 24 {
		return false
	}
	for _, x := range f.expand(v) {
		if x.v == s.self && x.f.parent == nil {
			continue
		}
		switch t := x.v.(type) {
		case *ssa.Call:
			n := calleeName(&t.Call)
			if !(strings.HasPrefix(n, "as") || strings.HasPrefix(n, "As") || n == "GetInterfaces") {
				return false
			}
			r := recvOf(&t.Call)
			if r == nil || !s.isSelf(r, x.f, d+1) {
				return false
			}
		case *ssa.FieldAddr: // embedded part
			if fv := fieldOf(t); fv == nil || !fv.Embedded() || !s.isSelf(t.X, x.f, d+1) {
				return false
			}
		case *ssa.UnOp:
			fa, ok := t.X.(*ssa.FieldAddr)
			if t.Op != token.MUL || !ok || !(fieldOf(fa).Embedded() || fieldOf(fa).Name() == "interfaces") || !s.isSelf(fa.X, x.f, d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// baseCall: the same method of the embedded part, with the same identifier.
func (s *selfFrame) baseCall(in ssa.Instruction, f *sframe, idArg int) bool {
	c, ok := in.(*ssa.Call)
	if !ok || calleeName(&c.Call) != s.fn.Name() || c.Call.IsInvoke() {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || g == s.fn {
		return false
	}
	r := recvOf(&c.Call)
	if r == nil || !s.isSelf(r, f, 0) {
		return false
	}
	args := argsOf(&c.Call)
	for i, a := range args {
		if !isTop(f.expand(a), s.fn.Params[i+1]) {
			if i != idArg {
				// the value handed over may be one the method refined
				continue
			}
			return false
		}
	}
	return true
}

// fieldFor is the struct field that stores a feature.
func fieldFor(n *types.Named, e *mmElem) *types.Var {
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			continue
		}
		if norm(f.Name()) == norm(e.Name()) || norm(f.Name()) == "IS"+norm(e.Name()) {
			return f
		}
	}
	return nil
}

// featureRead: v reads the feature of the receiver, through its accessor or the
// field that stores it. It returns the verb used ("field" for a direct read).
func (s *selfFrame) featureRead(x fval) (e *mmElem, verb string) {
	switch t := x.v.(type) {
	case *ssa.Call:
		r := recvOf(&t.Call)
		n := calleeName(&t.Call)
		if r == nil {
			return nil, ""
		}
		if n == "GetUnResolvedList" {
			vs := x.f.expand(r)
			for i, y := range vs {
				ye, _ := s.featureRead(y)
				if i > 0 && ye != e {
					return nil, ""
				}
				e = ye
			}
			return e, n
		}
		v, fn := accessorVerb(n)
		if fn == "" || len(argsOf(&t.Call)) != 0 || !s.isSelf(r, x.f, 0) {
			return nil, ""
		}
		return s.cl.featureNamed(fn), v
	case *ssa.UnOp:
		if fa, ok := t.X.(*ssa.FieldAddr); ok && t.Op == token.MUL && s.isSelf(fa.X, x.f, 0) {
			f := fieldOf(fa)
			for _, e := range s.cl.AllFeatures() {
				n := s.c.metamodel().Impl[e.Class]
				if n != nil && fieldFor(n, e) == f {
					return e, "field"
				}
			}
		}
	}
	return nil, ""
}

// must reports whether every way out of the frame passes an instruction that
// matches (helpers count when they do so on all their ways out).
func (f *sframe) must(match func(in ssa.Instruction, f *sframe) bool) bool {
	hit := map[*ssa.BasicBlock]bool{}
	for b := range f.blocks {
		for _, in := range b.Instrs {
			if match(in, f) {
				hit[b] = true
			} else if c, ok := in.(*ssa.Call); ok {
				if s := f.callee(c); s != nil && s.must(match) {
					hit[b] = true
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var escape func(b *ssa.BasicBlock) bool
	escape = func(b *ssa.BasicBlock) bool {
		if seen[b] || hit[b] {
			return false
		}
		seen[b] = true
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if f.edges[[2]int{b.Index, s.Index}] && escape(s) {
				return true
			}
		}
		return false
	}
	return len(f.fn.Blocks) > 0 && !escape(f.fn.Blocks[0])
}

// defaultOf is the value an unset feature has, as a Go constant (nil: the nil value).
func defaultOf(e *mmElem) (constant.Value, bool) {
	in := e.Init()
	if e.Kind == "EReference" || in.Type == nil {
		return nil, true
	}
	lit := in.Default
	switch in.Type.Init().Instance {
	case "string":
		return constant.MakeString(lit), true
	case "bool":
		return constant.MakeBool(lit == "true"), true
	case "int", "int64", "int32", "int16", "byte", "uint8":
		if lit == "" {
			lit = "0"
		}
		n, err := strconv.ParseInt(lit, 10, 64)
		return constant.MakeInt64(n), err == nil
	case "float64", "float32":
		return nil, false
	}
	return nil, true
}

func sameConst(v ssa.Value, want constant.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		if want == nil {
			return true
		}
		// the zero value of a type
		switch want.Kind() {
		case constant.String:
			return constant.StringVal(want) == ""
		case constant.Bool:
			return !constant.BoolVal(want)
		case constant.Int:
			return constant.Sign(want) == 0
		}
		return false
	}
	return want != nil && c.Value.Kind() == want.Kind() && constant.Compare(c.Value, token.EQL, want)
}

func checkC18(c *Ctx) {
	c.Rule("get", "reflective get of a feature returns what the feature's accessor returns; inherited features go to the base class")
	c.Rule("set", "reflective set of a changeable feature sets exactly that feature to the given value")
	c.Rule("unset", "reflective unset of a changeable feature restores that feature's default (or clears its list)")
	c.Rule("is-set", "reflective is-set compares that feature's state with its default")
	c.Rule("default", "a feature starts with the default the metamodel declares for it")
	c.Rule("storage", "a typed accessor works on the storage of its own feature")
	c.Rule("identifier", "change notifications carry the identifier of the feature that changed")
	m := c.metamodel()
	for _, cl := range m.ImplClasses() {
		n := m.Impl[cl]
		for _, op := range []struct {
			name string
			run  func(cl *mmClass, e *mmElem, fn *ssa.Function, key string)
		}{
			{"EGetFromID", c.reflectiveGet}, {"ESetFromID", c.reflectiveSet}, {"EUnsetFromID", c.reflectiveUnset}, {"EIsSetFromID", c.reflectiveIsSet},
		} {
			fn := c.methodOn(n, op.name)
			if fn == nil {
				for _, e := range cl.Features {
					if e.Init().Changeable || op.name == "EGetFromID" || op.name == "EIsSetFromID" {
						c.Bad(ruleOf(op.name), e.String(), n.Obj().Pos(), "%s has no %s: feature %s is not reachable reflectively", n.Obj().Name(), op.name, e.Name())
					}
				}
				continue
			}
			for _, e := range cl.AllFeatures() {
				op.run(cl, e, fn, cl.Name+"."+e.Name())
			}
		}
		c.defaults(cl, n)
		c.storage(cl, n)
	}
	c.notificationIDs()
	c.Floor("get", 150)
	c.Floor("set", 150)
	c.Floor("unset", 150)
	c.Floor("is-set", 150)
	c.Floor("default", 25)
	c.Floor("storage", 60)
	c.Floor("identifier", 40)
}

func ruleOf(op string) string {
	switch op {
	case "EGetFromID":
		return "get"
	case "ESetFromID":
		return "set"
	case "EUnsetFromID":
		return "unset"
	}
	return "is-set"
}

// touched lists the features the frame accesses, by verb, and whether it goes to
// the base class.
func (s *selfFrame) touched() (reads, writes map[*mmElem]bool, base bool) {
	reads, writes = map[*mmElem]bool{}, map[*mmElem]bool{}
	s.each(func(in ssa.Instruction, f *sframe) {
		if s.baseCall(in, f, 0) {
			base = true
		}
		if v, ok := in.(ssa.Value); ok {
			if e, verb := s.featureRead(fval{v, f}); e != nil && verb != "GetUnResolvedList" {
				reads[e] = true
			}
		}
		switch t := in.(type) {
		case *ssa.Call:
			v, n := accessorVerb(calleeName(&t.Call))
			if strings.Contains(strings.ToLower(v), "set") && v != "" {
				if r := recvOf(&t.Call); r != nil && s.isSelf(r, f, 0) {
					if e := s.cl.featureNamed(n); e != nil {
						writes[e] = true
					}
				}
			}
		case *ssa.Store:
			if fa, ok := t.Addr.(*ssa.FieldAddr); ok && s.isSelf(fa.X, f, 0) {
				for _, e := range s.cl.AllFeatures() {
					n := s.c.metamodel().Impl[e.Class]
					if n != nil && fieldFor(n, e) == fieldOf(fa) {
						writes[e] = true
					}
				}
			}
		}
	})
	return
}

func names(m map[*mmElem]bool, but *mmElem) string {
	var l []string
	for e := range m {
		if e != but {
			l = append(l, e.String())
		}
	}
	if len(l) == 0 {
		return ""
	}
	return strings.Join(sorted(l), ", ")
}

func sorted(l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return keysOf(m)
}

// inherited decides the case of a feature the base class owns.
func (s *selfFrame) inherited(rule, key string, e *mmElem) bool {
	if e.Class == s.cl {
		return false
	}
	ok := s.must(func(in ssa.Instruction, f *sframe) bool { return s.baseCall(in, f, 0) })
	if !ok {
		// a class may handle an inherited feature itself, with that feature's accessors
		return false
	}
	for _, r := range s.returns() {
		if len(r.Results) == 0 {
			continue
		}
		for _, x := range s.expand(r.Results[0]) {
			in, isIn := x.v.(ssa.Instruction)
			if !isIn || !s.baseCall(in, x.f, 0) {
				s.c.Bad(rule, key, r.Pos(), "%s does not return what the base class answers for inherited feature %s", fname(s.fn), e)
				return true
			}
		}
	}
	s.c.Ok(rule, key, s.fn.Pos())
	return true
}

func (c *Ctx) reflectiveGet(cl *mmClass, e *mmElem, fn *ssa.Function, key string) {
	for _, resolve := range []bool{true, false} {
		k := key + " resolve=" + strconv.FormatBool(resolve)
		s := c.reflective(cl, fn, 1, e.ID(), map[int]constant.Value{2: constant.MakeBool(resolve)})
		if s.inherited("get", k, e) {
			continue
		}
		bad := false
		rets := s.returns()
		for _, r := range rets {
			for _, x := range s.expand(r.Results[0]) {
				got, verb := s.featureRead(x)
				switch {
				case got == nil:
					c.Bad("get", k, r.Pos(), "%s can return something other than the value of %s", fname(fn), e)
					bad = true
				case got != e:
					c.Bad("get", k, r.Pos(), "%s returns %s for feature %s", fname(fn), got, e)
					bad = true
				case resolve && (verb == "GetUnResolvedList" || strings.HasPrefix(strings.ToLower(verb), "basicget")):
					c.Bad("get", k, r.Pos(), "%s returns the unresolved value of %s when resolution is asked for", fname(fn), e)
					bad = true
				case resolve && verb == "field" && e.Kind == "EReference" && e.Init().Resolve:
					c.Bad("get", k, r.Pos(), "%s returns the stored value of %s without resolving it", fname(fn), e)
					bad = true
				}
			}
		}
		if len(rets) == 0 {
			c.Bad("get", k, fn.Pos(), "%s never returns for feature %s", fname(fn), e)
			bad = true
		}
		if !bad {
			c.Ok("get", k, fn.Pos())
		}
	}
}

func (s *selfFrame) listOf(v ssa.Value, f *sframe, e *mmElem) bool {
	vs := f.expand(v)
	for _, x := range vs {
		if got, _ := s.featureRead(x); got != e {
			return false
		}
	}
	return len(vs) > 0
}

func (c *Ctx) reflectiveSet(cl *mmClass, e *mmElem, fn *ssa.Function, key string) {
	s := c.reflective(cl, fn, 1, e.ID(), nil)
	if s.inherited("set", key, e) {
		return
	}
	reads, writes, base := s.touched()
	if !e.Init().Changeable {
		if len(writes) > 0 && !writes[e] || len(writes) > 1 {
			c.Bad("set", key, fn.Pos(), "%s changes %s when asked to set %s", fname(fn), names(writes, nil), e)
		} else {
			c.Ok("set", key, fn.Pos())
		}
		return
	}
	if base {
		c.Bad("set", key, fn.Pos(), "%s passes changeable feature %s to the base class, which does not have it", fname(fn), e)
		return
	}
	val := fn.Params[2]
	if e.Many() {
		isClear := func(in ssa.Instruction, f *sframe) bool {
			ci, ok := in.(*ssa.Call)
			return ok && calleeName(&ci.Call) == "Clear" && recvOf(&ci.Call) != nil && s.listOf(recvOf(&ci.Call), f, e)
		}
		isAdd := func(in ssa.Instruction, f *sframe) bool {
			ci, ok := in.(*ssa.Call)
			if !ok || calleeName(&ci.Call) != "AddAll" || recvOf(&ci.Call) == nil || !s.listOf(recvOf(&ci.Call), f, e) {
				return false
			}
			return isTop(f.expand(argsOf(&ci.Call)[0]), val)
		}
		order, added := true, false
		s.each(func(in ssa.Instruction, f *sframe) {
			if isAdd(in, f) {
				added = true
			}
			if added && isClear(in, f) {
				order = false
			}
		})
		switch {
		case !s.must(isClear) || !s.must(isAdd):
			c.Bad("set", key, fn.Pos(), "%s can leave %s without clearing it and adding the given elements", fname(fn), e)
		case !order:
			c.Bad("set", key, fn.Pos(), "%s clears %s after adding the given elements", fname(fn), e)
		case names(reads, e) != "" || names(writes, e) != "":
			c.Bad("set", key, fn.Pos(), "%s touches %s when asked to set %s", fname(fn), names(reads, e)+names(writes, e), e)
		default:
			c.Ok("set", key, fn.Pos())
		}
		return
	}
	isSet := func(in ssa.Instruction, f *sframe) bool {
		ci, ok := in.(*ssa.Call)
		if !ok || recvOf(&ci.Call) == nil {
			return false
		}
		v, n := accessorVerb(calleeName(&ci.Call))
		a := argsOf(&ci.Call)
		return (v == "Set" || v == "SetTyped") && len(a) == 1 && cl.featureNamed(n) == e && s.isSelf(recvOf(&ci.Call), f, 0) && s.given(a[0], f, val)
	}
	switch {
	case names(writes, e) != "":
		c.Bad("set", key, fn.Pos(), "%s changes %s when asked to set %s", fname(fn), names(writes, e), e)
	case !s.must(isSet):
		c.Bad("set", key, fn.Pos(), "%s can return without setting %s to the given value", fname(fn), e)
	default:
		c.Ok("set", key, fn.Pos())
	}
}

// given: v is the value passed in, possibly nil when the assertion on it failed.
func (s *selfFrame) given(v ssa.Value, f *sframe, val ssa.Value) bool {
	ok := false
	for _, x := range f.expand(v) {
		if x.v == val && x.f.parent == nil {
			ok = true
			continue
		}
		if k, isConst := x.v.(*ssa.Const); isConst && k.Value == nil {
			continue
		}
		return false
	}
	return ok
}

func (c *Ctx) reflectiveUnset(cl *mmClass, e *mmElem, fn *ssa.Function, key string) {
	s := c.reflective(cl, fn, 1, e.ID(), nil)
	if s.inherited("unset", key, e) {
		return
	}
	reads, writes, base := s.touched()
	if !e.Init().Changeable {
		if len(writes) > 0 && !writes[e] || len(writes) > 1 {
			c.Bad("unset", key, fn.Pos(), "%s changes %s when asked to unset %s", fname(fn), names(writes, nil), e)
		} else {
			c.Ok("unset", key, fn.Pos())
		}
		return
	}
	if base {
		c.Bad("unset", key, fn.Pos(), "%s passes changeable feature %s to the base class, which does not have it", fname(fn), e)
		return
	}
	want, known := defaultOf(e)
	matches := func(in ssa.Instruction, f *sframe) bool {
		ci, ok := in.(*ssa.Call)
		if !ok || recvOf(&ci.Call) == nil {
			return false
		}
		name := calleeName(&ci.Call)
		v, n := accessorVerb(name)
		if e.Many() && v != "Unset" {
			return name == "Clear" && s.listOf(recvOf(&ci.Call), f, e)
		}
		if cl.featureNamed(n) != e || !s.isSelf(recvOf(&ci.Call), f, 0) {
			return false
		}
		a := argsOf(&ci.Call)
		if v == "Unset" && len(a) == 0 {
			return true
		}
		if v != "Set" && v != "SetTyped" || len(a) != 1 {
			return false
		}
		vs := f.expand(a[0])
		return len(vs) == 1 && (!known || sameConst(vs[0].v, want))
	}
	switch {
	case names(writes, e) != "" || names(reads, e) != "":
		c.Bad("unset", key, fn.Pos(), "%s touches %s when asked to unset %s", fname(fn), names(writes, e)+names(reads, e), e)
	case !s.must(matches):
		c.Bad("unset", key, fn.Pos(), "%s can return without restoring the default of %s", fname(fn), e)
	default:
		c.Ok("unset", key, fn.Pos())
	}
}

func (c *Ctx) reflectiveIsSet(cl *mmClass, e *mmElem, fn *ssa.Function, key string) {
	s := c.reflective(cl, fn, 1, e.ID(), nil)
	if s.inherited("is-set", key, e) {
		return
	}
	reads, _, _ := s.touched()
	if other := names(reads, e); other != "" {
		c.Bad("is-set", key, fn.Pos(), "%s looks at %s to decide whether %s is set", fname(fn), other, e)
		return
	}
	if !reads[e] {
		c.Bad("is-set", key, fn.Pos(), "%s decides whether %s is set without looking at it", fname(fn), e)
		return
	}
	want, known := defaultOf(e)
	// the answer for a feature that was never given a value, one that has its
	// default (an empty list), and one that differs
	for _, st := range []struct {
		name     string
		nilList  bool
		positive bool
	}{{"is not created", true, false}, {"has its default", false, false}, {"differs from its default", false, true}} {
		if st.nilList && !e.Many() {
			continue
		}
		t := c.reflective(cl, fn, 1, e.ID(), nil)
		t.sframe.atoms = func(v ssa.Value, f *sframe) constant.Value {
			if e.Many() {
				if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.NEQ || b.Op == token.EQL) {
					for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if isNilConst(p[1]) {
							if vs := f.expand(p[0]); len(vs) == 1 {
								if got, _ := t.featureRead(vs[0]); got == e {
									return constant.MakeBool((b.Op == token.EQL) == st.nilList)
								}
							}
						}
					}
				}
				if st.nilList {
					return nil
				}
			}
			switch v.(type) {
			case *ssa.BinOp, *ssa.Call, *ssa.UnOp:
			default:
				return nil
			}
			if !isBool(v.Type()) {
				return nil
			}
			if ok, pos := t.nonDefault(fval{v, f}, e, want, known); ok {
				return constant.MakeBool(pos == st.positive)
			}
			return nil
		}
		t.decide()
		// helpers are entered in order, then what they answer decides the rest
		t.each(func(ssa.Instruction, *sframe) {})
		t.blocks, t.edges = specialised(t.fn, t.vals)
		r := t.boolResult()
		if r == nil {
			c.Bad("is-set", key, fn.Pos(), "%s does not decide by comparing %s with its default", fname(fn), e)
			return
		}
		if *r != st.positive {
			c.Bad("is-set", key, fn.Pos(), "%s answers %t for %s when it %s", fname(fn), *r, e, st.name)
			return
		}
	}
	c.Ok("is-set", key, fn.Pos())
}

// nonDefault: the value compares the feature with its default; positive is true
// when it holds for a feature that differs from the default.
func (s *selfFrame) nonDefault(x fval, e *mmElem, want constant.Value, known bool) (ok, positive bool) {
	if got, _ := s.featureRead(x); got == e { // a boolean feature on its own
		return want != nil && want.Kind() == constant.Bool, want != nil && want.Kind() == constant.Bool && !constant.BoolVal(want)
	}
	b, isBin := x.v.(*ssa.BinOp)
	if !isBin {
		return false, false
	}
	l, r := b.X, b.Y
	op := b.Op
	if _, isConst := l.(*ssa.Const); isConst {
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	vs := x.f.expand(l)
	if len(vs) != 1 {
		return false, false
	}
	if call, isCall := vs[0].v.(*ssa.Call); isCall && e.Many() {
		if n := calleeName(&call.Call); n == "Size" || n == "Empty" {
			if recvOf(&call.Call) == nil || !s.listOf(recvOf(&call.Call), vs[0].f, e) {
				return false, false
			}
			k, isInt := constInt(r)
			switch {
			case isInt && k == 0 && (op == token.NEQ || op == token.GTR), isInt && k == 1 && op == token.GEQ:
				return true, true
			case isInt && k == 0 && op == token.EQL:
				return true, false
			}
			return false, false
		}
	}
	if got, _ := s.featureRead(vs[0]); got != e {
		return false, false
	}
	if known && !sameConst(r, want) {
		return false, false
	}
	switch op {
	case token.NEQ:
		return true, true
	case token.EQL:
		return true, false
	}
	return false, false
}

// defaults: what Initialize stores in the feature's field.
func (c *Ctx) defaults(cl *mmClass, n *types.Named) {
	fn := c.methodOn(n, "Initialize")
	if fn == nil {
		return
	}
	for _, e := range cl.Features {
		f := fieldFor(n, e)
		want, known := defaultOf(e)
		if f == nil || e.Many() || !known || want == nil {
			continue
		}
		zero := sameConst(ssa.NewConst(nil, f.Type()), want)
		found := false
		for _, g := range withClosures(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fieldOf(fa) != f {
						continue
					}
					found = true
					if _, isConst := st.Val.(*ssa.Const); !isConst && !e.Init().Changeable {
						c.Ok("default", e.String(), st.Pos())
						continue
					}
					if k, isConst := st.Val.(*ssa.Const); isConst || !zero {
						_ = k
						c.Decide(sameConst(st.Val, want) || c.dynamicDefault(st.Val), "default", e.String(), st.Pos(), "%s starts with a value other than the default %s the metamodel declares", e, want)
					}
				}
			}
		}
		if !found {
			c.Decide(zero, "default", e.String(), fn.Pos(), "%s is not initialised with its default %s", e, want)
		}
	}
}

// dynamicDefault: the initial value comes from an initialiser method.
func (c *Ctx) dynamicDefault(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	return ok && strings.HasPrefix(calleeName(&call.Call), "init")
}

// storage: getters and setters use their own feature's field.
func (c *Ctx) storage(cl *mmClass, n *types.Named) {
	fields := map[*types.Var]*mmElem{}
	for _, e := range cl.Features {
		if f := fieldFor(n, e); f != nil {
			fields[f] = e
		}
	}
	for i := 0; i < n.NumMethods(); i++ {
		fn := c.byObj[n.Method(i)]
		if fn == nil {
			continue
		}
		verb, feat := accessorVerb(fn.Name())
		if verb == "" || verb == "init" {
			continue
		}
		e := cl.featureNamed(feat)
		if e == nil || e.Class != cl {
			continue
		}
		key := fname(fn)
		if fieldFor(n, e) == nil && !e.Container() {
			continue
		}
		bad := false
		for _, g := range withClosures(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if other := fields[originVar(fieldOf(fa))]; other != nil && other != e {
						c.Bad("storage", key, fa.Pos(), "%s works on the storage of %s", key, other)
						bad = true
					}
				}
			}
		}
		if e.Container() {
			for _, ci := range calls(fn) {
				n := calleeName(ci.Common())
				var ids []ssa.Value
				switch n {
				case "EContainerFeatureID", "EInternalContainerFeatureID":
					for _, r := range *ci.Value().Referrers() {
						if b, ok := r.(*ssa.BinOp); ok {
							ids = append(ids, b.X, b.Y)
						}
					}
				case "EBasicSetContainer":
					ids = append(ids, argsOf(ci.Common())[1])
				}
				for _, v := range ids {
					if k, isConst := constInt(v); isConst && k >= 0 && k != e.ID() {
						c.Bad("storage", key+" container", ci.Pos(), "%s identifies its container by feature %d, not by %s (%d)", key, k, e, e.ID())
						bad = true
					}
				}
			}
		}
		if !bad {
			c.Ok("storage", key, fn.Pos())
		}
	}
}

// notificationIDs: notifications built with a constant feature identifier in an
// accessor of a metamodel class.
func (c *Ctx) notificationIDs() {
	m := c.metamodel()
	for _, fn := range c.Funcs {
		top := topFn(fn)
		if top.Signature.Recv() == nil {
			continue
		}
		n := namedStruct(top.Signature.Recv().Type())
		cl := m.classOfType(n)
		if cl == nil {
			continue
		}
		_, feat := accessorVerb(top.Name())
		e := cl.featureNamed(feat)
		for _, ci := range calls(fn) {
			if calleeName(ci.Common()) != "NewNotificationByFeatureID" {
				continue
			}
			args := ci.Common().Args
			k, isConst := constInt(args[2])
			if !isConst {
				continue
			}
			key := fname(fn) + " " + strconv.FormatInt(k, 10)
			if e == nil {
				all := cl.AllFeatures()
				c.Decide(k >= 0 && int(k) < len(all), "identifier", key, ci.Pos(), "%s announces feature %d, which %s does not have", fname(fn), k, cl.Name)
				continue
			}
			c.Decide(k == e.ID(), "identifier", fname(fn), ci.Pos(), "%s announces feature %d, but %s is %d", fname(fn), k, e, e.ID())
		}
	}
}

// classOfType is the class of an implementation or of the extension embedding it.
func (m *metamodel) classOfType(n *types.Named) *mmClass {
	for d := 0; n != nil && d < 6; d++ {
		for cl, t := range m.Impl {
			if t == n {
				return cl
			}
		}
		st, _ := n.Underlying().(*types.Struct)
		if st == nil || st.NumFields() == 0 || !st.Field(0).Embedded() {
			return nil
		}
		n = namedStruct(st.Field(0).Type())
	}
	return nil
}
