package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C22", checkC22) }

// factoryFrame opens a factory method; calls the factory makes on itself are entered.
func (c *Ctx) factoryFrame(fn *ssa.Function, atoms func(v ssa.Value, f *sframe) constant.Value) *selfFrame {
	n := namedStruct(fn.Signature.Recv().Type())
	f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
		if g.Name() == "GetInterfaces" || strings.HasPrefix(g.Name(), "As") || strings.HasPrefix(g.Name(), "as") || g.Name() == "getInstanceTypeName" {
			return false
		}
		// constructors are recognised by what they return
		return !(g.Signature.Recv() == nil && strings.HasPrefix(strings.ToLower(g.Name()), "new"))
	})
	s := &selfFrame{sframe: f, c: c, self: fn.Params[0]}
	f.dispatch = func(call *ssa.Call, sf *sframe) *ssa.Function {
		if !s.isSelf(call.Call.Value, sf, 0) {
			return nil
		}
		return c.methodAnywhere(n, call.Call.Method.Name())
	}
	f.atoms = atoms
	f.decide()
	f.each(func(ssa.Instruction, *sframe) {})
	f.blocks, f.edges = specialised(f.fn, f.vals)
	return s
}

// methodAnywhere is the method a value of the named struct answers with, promoted
// ones included.
func (c *Ctx) methodAnywhere(n *types.Named, name string) *ssa.Function {
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return c.byObj[f]
}

// dynamicTypes lists the concrete types an interface value can have, with the
// position each is produced at (nil type: the nil value or an unknown one).
func (f *sframe) dynamicTypes(v ssa.Value, at func(t types.Type, x fval)) {
	seen := map[fval]bool{}
	var walk func(x fval)
	walk = func(x fval) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch t := x.v.(type) {
		case *ssa.MakeInterface:
			at(t.X.Type(), fval{t.X, x.f})
		case *ssa.ChangeInterface:
			walk(fval{t.X, x.f})
		case *ssa.Phi:
			for i, e := range t.Edges {
				if x.f.edges[[2]int{t.Block().Preds[i].Index, t.Block().Index}] && x.f.blocks[t.Block().Preds[i]] {
					walk(fval{e, x.f})
				}
			}
		case *ssa.Parameter:
			if a := x.f.args[t]; a != nil && x.f.parent != nil {
				walk(fval{a, x.f.parent})
				return
			}
			at(nil, x)
		case *ssa.TypeAssert:
			if _, isIface := t.AssertedType.Underlying().(*types.Interface); isIface {
				walk(fval{t.X, x.f})
				return
			}
			at(t.AssertedType, x)
		case *ssa.UnOp:
			if stores := cellStores(t.X, 0); t.Op == token.MUL && len(stores) > 0 {
				if _, isField := t.X.(*ssa.FieldAddr); !isField {
					for _, s := range stores {
						walk(fval{s, x.f})
					}
					return
				}
			}
			at(nil, x)
		case *ssa.Call:
			if s := x.f.callee(t); s != nil {
				for _, r := range s.returns() {
					if len(r.Results) == 1 {
						walk(fval{r.Results[0], s})
					}
				}
				return
			}
			if g := t.Call.StaticCallee(); g != nil {
				if rt := g.Signature.Results(); rt.Len() == 1 {
					if namedStruct(rt.At(0).Type()) != nil {
						at(rt.At(0).Type(), x)
						return
					}
				}
			}
			at(nil, x)
		default:
			at(nil, x)
		}
	}
	walk(fval{v, f})
}

func classifierID(id int64) func(v ssa.Value, f *sframe) constant.Value {
	return func(v ssa.Value, f *sframe) constant.Value {
		c, ok := v.(*ssa.Call)
		if !ok || calleeName(&c.Call) != "GetClassifierID" || recvOf(&c.Call) == nil {
			return nil
		}
		for _, x := range f.expand(recvOf(&c.Call)) {
			p, isParam := x.v.(*ssa.Parameter)
			if !isParam || x.f.parent != nil || p != x.f.fn.Params[1] {
				return nil
			}
		}
		return constant.MakeInt64(id)
	}
}

func checkC22(c *Ctx) {
	c.Rule("create", "the factory creates an instance of exactly the class it is asked for, and none for an abstract class")
	c.Rule("creates", "a factory method that creates a class creates an instance of that class")
	c.Rule("parse", "a serialisable data type has a conversion from string, which yields values of its Go type, from the given string")
	c.Rule("print", "a serialisable data type has a conversion to string, which takes values of its Go type")
	c.Rule("inverse", "the two conversions of a data type use the same notation (base, width, layout)")
	c.Rule("declared", "a Go type name known to one of parse, print and default is known to the others, with the same Go type")
	c.Rule("dynamic", "the generic factory gives the object it creates the class it was asked for")
	m := c.metamodel()
	for _, n := range c.Named {
		fn := c.methodOn(n, "Create")
		if fn == nil || len(fn.Params) != 2 || typeName(fn.Params[1].Type()) != "EClass" {
			continue
		}
		usesID := false
		for _, g := range withClosures(fn) {
			for _, ci := range calls(g) {
				if calleeName(ci.Common()) == "GetClassifierID" {
					usesID = true
				}
			}
		}
		if usesID {
			c.classFactory(m, n, fn)
		} else {
			c.dynamicFactory(n, fn)
		}
	}
	c.Floor("create", 18)
	c.Floor("creates", 30)
	c.Floor("parse", 30)
	c.Floor("print", 30)
	c.Floor("inverse", 25)
	c.Floor("declared", 18)
	c.Floor("dynamic", 1)
}

func (c *Ctx) classFactory(m *metamodel, n *types.Named, create *ssa.Function) {
	abstract := func(cl *mmClass) bool { return cl.Init() != nil && cl.Init().Abstract }
	for _, cl := range m.Classes {
		if cl.Kind != "EClass" {
			continue
		}
		s := c.factoryFrame(create, classifierID(cl.ID))
		n := 0
		for _, r := range s.returns() {
			s.dynamicTypes(r.Results[0], func(t types.Type, x fval) {
				n++
				if t == nil {
					c.Bad("create", cl.Name, r.Pos(), "%s can return something other than a new instance of %s", fname(create), cl.Name)
				} else if got := m.classOfType(namedStruct(t)); got != cl || !c.complete(m, cl, t) {
					c.Bad("create", cl.Name, r.Pos(), "asked for %s, %s creates a %s", cl.Name, fname(create), typeName(t))
				} else if abstract(cl) {
					c.Bad("create", cl.Name, r.Pos(), "%s creates an instance of the abstract class %s", fname(create), cl.Name)
				}
			})
		}
		c.Decide((n > 0) != abstract(cl), "create", cl.Name+" reached", create.Pos(), "%s has no case for the class %s", fname(create), cl.Name)
		c.Ok("create", cl.Name, create.Pos())
	}
	// the Create<Class>… methods
	for i := 0; i < n.NumMethods(); i++ {
		fn := c.byObj[n.Method(i)]
		if fn == nil || fn == create || !strings.HasPrefix(fn.Name(), "Create") || fn.Signature.Results().Len() != 1 {
			continue
		}
		var want *mmClass
		for _, cl := range m.Classes {
			if cl.Kind == "EClass" && typeName(fn.Signature.Results().At(0).Type()) == cl.Name {
				want = cl
			}
		}
		if want == nil {
			continue
		}
		s := c.factoryFrame(fn, nil)
		cnt := 0
		for _, r := range s.returns() {
			s.dynamicTypes(r.Results[0], func(t types.Type, x fval) {
				cnt++
				if t == nil || m.classOfType(namedStruct(t)) != want || !c.complete(m, want, t) {
					c.Bad("creates", fname(fn), r.Pos(), "%s can return something other than a new instance of %s", fname(fn), want.Name)
				}
			})
		}
		c.Decide(cnt > 0, "creates", fname(fn), fn.Pos(), "%s returns no instance of %s", fname(fn), want.Name)
	}
	from, to := c.methodOn(n, "CreateFromString"), c.methodOn(n, "ConvertToString")
	for _, dt := range m.Classes {
		if dt.Kind == "EClass" || dt.Init() == nil || !dt.Init().Serializable {
			continue
		}
		if from == nil || to == nil {
			c.Bad("parse", dt.Name, n.Obj().Pos(), "%s has no conversion for %s", n.Obj().Name(), dt.Name)
			continue
		}
		inst := dt.Init().Instance
		c.conversions(dt.Name, func(t types.Type) bool { return goTypeMatches(t, inst) }, from, to, classifierID(dt.ID))
	}
}

// complete: the type is the class's full implementation, not the generated part an
// extension builds on.
func (c *Ctx) complete(m *metamodel, cl *mmClass, t types.Type) bool {
	ext := strings.TrimSuffix(m.Impl[cl].Obj().Name(), "Impl") + "Ext"
	o, ok := c.Ecore.Types.Scope().Lookup(ext).(*types.TypeName)
	return !ok || namedStruct(o.Type()) == nil || m.classOfType(namedStruct(o.Type())) != cl || namedStruct(o.Type()) == namedStruct(t)
}

// conversions decides one data type: match tells its Go type.
func (c *Ctx) conversions(name string, match func(t types.Type) bool, from, to *ssa.Function, atoms func(v ssa.Value, f *sframe) constant.Value) {
	s := c.factoryFrame(from, atoms)
	n := 0
	for _, r := range s.returns() {
		s.dynamicTypes(r.Results[0], func(t types.Type, x fval) {
			n++
			if t == nil || !match(t) {
				c.Bad("parse", name+" type "+typeString(t), r.Pos(), "%s can return a %s for a %s", fname(from), typeString(t), name)
			} else {
				c.Ok("parse", name+" type", r.Pos())
			}
		})
	}
	c.Decide(n > 0, "parse", name, from.Pos(), "%s has no conversion from string for %s", fname(from), name)
	p := s.notations(from.Params[2])
	for _, x := range p {
		if !x.onInput {
			c.Bad("parse", name+" input", x.pos, "the conversion of %s parses something other than the given string", name)
		}
	}
	t := c.factoryFrame(to, atoms)
	n2 := 0
	for _, r := range t.returns() {
		for range t.expand(r.Results[0]) {
			n2++
		}
	}
	asserted := false
	t.each(func(in ssa.Instruction, f *sframe) {
		ta, ok := in.(*ssa.TypeAssert)
		if !ok || !isTop(f.expand(ta.X), to.Params[2]) {
			return
		}
		if _, isIface := ta.AssertedType.Underlying().(*types.Interface); isIface {
			return
		}
		asserted = true
		c.Decide(match(ta.AssertedType), "print", name+" type", ta.Pos(), "%s takes the value of a %s for a %s", fname(to), name, typeString(ta.AssertedType))
	})
	_ = asserted
	c.Decide(n2 > 0, "print", name, to.Pos(), "%s has no conversion to string for %s", fname(to), name)
	if n == 0 || n2 == 0 {
		return
	}
	q := t.notations(to.Params[2])
	a, b := notationText(p), notationText(q)
	c.Decide(a == b, "inverse", name, from.Pos(), "%s reads %s but writes %s", name, a, b)
}

func typeString(t types.Type) string {
	if t == nil {
		return "value of unknown type"
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

type notation struct {
	text    string
	onInput bool
	pos     token.Pos
}

func notationText(l []notation) string {
	m := map[string]bool{}
	for _, n := range l {
		m[n.text] = true
	}
	if len(m) == 0 {
		return "the plain string"
	}
	return strings.Join(keysOf(m), ", ")
}

// notations lists the textual notations the frame uses, by the standard functions
// it parses or formats with.
func (s *selfFrame) notations(input ssa.Value) []notation {
	var out []notation
	s.each(func(in ssa.Instruction, f *sframe) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		g := call.Call.StaticCallee()
		if g == nil || g.Pkg == nil {
			return
		}
		arg := func(i int) string {
			if v := one(f.expand(call.Call.Args[i])); v != nil {
				if k, isC := v.(*ssa.Const); isC && k.Value != nil {
					return k.Value.ExactString()
				}
			}
			return "?"
		}
		width := func(w string, def string) string {
			if w == "0" {
				return def
			}
			return w
		}
		add := func(text string, inArg int) {
			on := false
			for _, x := range f.expand(call.Call.Args[inArg]) {
				if x.v == input && x.f.parent == nil {
					on = true
				}
			}
			out = append(out, notation{text, on, call.Pos()})
		}
		switch g.Pkg.Pkg.Path() + "." + g.Name() {
		case "strconv.Atoi":
			add("int base 10", 0)
		case "strconv.Itoa":
			add("int base 10", 0)
		case "strconv.ParseInt":
			add("int base "+width(arg(1), "10"), 0)
			s.width(call, f, arg(2))
		case "strconv.FormatInt":
			add("int base "+arg(1), 0)
		case "strconv.ParseUint":
			add("uint base "+width(arg(1), "10"), 0)
			s.width(call, f, arg(2))
		case "strconv.FormatUint":
			add("uint base "+arg(1), 0)
		case "strconv.ParseFloat":
			add("float "+arg(1), 0)
		case "strconv.FormatFloat":
			// the shortest text that reads back exactly
			if p := arg(2); p == "-1" {
				add("float "+arg(3), 0)
			} else {
				add("float "+arg(3)+" rounded to "+p+" digits", 0)
			}
		case "strconv.ParseBool", "strconv.FormatBool":
			add("bool", 0)
		case "time.Parse":
			add("time "+arg(0), 1)
		case "time.Format":
			add("time "+arg(1), 0)
		}
	})
	return out
}

// width: an integer is parsed with the size of the type its value is converted to.
func (s *selfFrame) width(call *ssa.Call, f *sframe, bits string) {
	if call.Referrers() == nil {
		return
	}
	for _, r := range *call.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != 0 || e.Referrers() == nil {
			continue
		}
		size := func(t types.Type) string { return fmt.Sprint(8 * types.SizesFor("gc", "amd64").Sizeof(t)) }
		conv := false
		for _, u := range *e.Referrers() {
			if cv, isConv := u.(*ssa.Convert); isConv {
				conv = true
				s.c.Decide(bits == size(cv.Type()) || bits == "0" && size(cv.Type()) == "64", "parse", fname(call.Parent())+" width", call.Pos(), "%s parses %s bits for a value of %s bits", fname(call.Parent()), bits, size(cv.Type()))
			}
		}
		if !conv {
			s.c.Decide(bits == "64" || bits == "0", "parse", fname(call.Parent())+" width", call.Pos(), "%s parses %s bits for a value of 64 bits", fname(call.Parent()), bits)
		}
	}
}

// dynamicFactory: the generic factory.
func (c *Ctx) dynamicFactory(n *types.Named, create *ssa.Function) {
	f := c.specFrame(create, map[ssa.Value]constant.Value{}, nil)
	for _, r := range f.returns() {
		for _, x := range f.expand(r.Results[0]) {
			call, ok := x.v.(*ssa.Call)
			set := false
			if ok {
				for _, ci := range calls(create) {
					cc := ci.Common()
					if calleeName(cc) != "SetEClass" || recvOf(cc) == nil {
						continue
					}
					rv := f.expand(recvOf(cc))
					if rv[0].v != ssa.Value(call) { // an embedded part of it
						p := pathOf(recvOf(cc))
						if p.Root != ssa.Value(call) {
							continue
						}
					}
					if isTop(f.expand(argsOf(cc)[0]), create.Params[1]) && (ci.Block() == call.Block() || ci.Block().Dominates(r.Block()) || call.Block().Dominates(ci.Block())) {
						set = true
					}
				}
			}
			c.Decide(set, "dynamic", fname(create)+" "+describeValue(x.v), r.Pos(), "%s can return an object without giving it the class it was asked for", fname(create))
		}
	}
	from, to := c.methodOn(n, "CreateFromString"), c.methodOn(n, "ConvertToString")
	if from == nil || to == nil {
		return
	}
	// the Go type names each direction knows
	names := map[string]bool{}
	for _, fn := range []*ssa.Function{from, to} {
		for _, s := range switchedStrings(fn) {
			names[s] = true
		}
	}
	var all []string
	for s := range names {
		all = append(all, s)
	}
	sort.Strings(all)
	var deflt *ssa.Function
	for _, t := range c.Named {
		if fn := c.methodOn(t, "GetDefaultValue"); fn != nil && len(switchedStrings(fn)) > 3 {
			deflt = fn
		}
	}
	for _, s := range all {
		atoms := switchOn(s)
		var ts []string
		types1 := map[string]bool{}
		fr := c.factoryFrame(from, atoms)
		for _, r := range fr.returns() {
			if afterSwitch(fr, from, r) {
				fr.dynamicTypes(r.Results[0], func(t types.Type, x fval) {
					if _, isInt := x.v.(*ssa.Call); isInt && t == nil {
						return
					}
					types1[typeString(t)] = true
				})
			}
		}
		ts = keysOf(types1)
		types2 := map[string]bool{}
		tr := c.factoryFrame(to, atoms)
		prints := false
		for _, r := range tr.returns() {
			if afterSwitch(tr, to, r) {
				prints = true
			}
		}
		tr.each(func(in ssa.Instruction, f *sframe) {
			if ta, ok := in.(*ssa.TypeAssert); ok && isTop(f.expand(ta.X), to.Params[2]) && afterSwitch(tr, to, in) {
				types2[typeString(ta.AssertedType)] = true
			}
		})
		switch {
		case len(ts) == 0:
			c.Bad("declared", s, from.Pos(), "%s cannot read values of type %q", fname(from), s)
			continue
		case !prints:
			c.Bad("declared", s, to.Pos(), "%s cannot write values of type %q", fname(to), s)
			continue
		case len(ts) != 1:
			c.Bad("declared", s, from.Pos(), "%s reads values of type %q as %s", fname(from), s, strings.Join(ts, " or "))
			continue
		}
		for t := range types2 {
			c.Decide(t == ts[0], "declared", s+" written", to.Pos(), "values of type %q are read as %s but written from %s", s, ts[0], t)
		}
		if o := types.Universe.Lookup(s); o != nil {
			c.Decide(typeString(o.Type()) == ts[0], "declared", s+" go type", from.Pos(), "%s reads values of type %q as %s", fname(from), s, ts[0])
		}
		p, q := notationText(fr.notations(from.Params[2])), notationText(tr.notations(to.Params[2]))
		c.Decide(p == q, "inverse", "generic "+s, from.Pos(), "values of type %q are read as %s but written as %s", s, p, q)
		if deflt != nil && ts[0] != "[]byte" {
			types3 := map[string]bool{}
			df := c.factoryFrame(deflt, atoms)
			for _, r := range df.returns() {
				if afterSwitch(df, deflt, r) {
					df.dynamicTypes(r.Results[0], func(t types.Type, x fval) {
						if t != nil {
							types3[typeString(t)] = true
						}
					})
				}
			}
			c.Decide(types3[ts[0]] && len(types3) == 1, "declared", s+" default", deflt.Pos(), "the default value of type %q is not a %s", s, ts[0])
		}
		c.Ok("declared", s, from.Pos())
	}
}

func describeValue(v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		return calleeName(&c.Call)
	}
	return v.Name()
}

// switchSubject is the string compared with the most constants in fn.
func switchSubject(fn *ssa.Function) ssa.Value {
	cnt := map[ssa.Value]int{}
	var best ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, _ := stringCompare(in); v != nil {
				cnt[v]++
				if best == nil || cnt[v] > cnt[best] {
					best = v
				}
			}
		}
	}
	return best
}

func stringCompare(in ssa.Instruction) (ssa.Value, string) {
	b, ok := in.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return nil, ""
	}
	for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if k, isC := p[1].(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.String {
			return p[0], constant.StringVal(k.Value)
		}
	}
	return nil, ""
}

func switchedStrings(fn *ssa.Function) []string {
	subj := switchSubject(fn)
	var out []string
	if subj == nil {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, s := stringCompare(in); v == subj {
				out = append(out, s)
			}
		}
	}
	return out
}

func switchOn(s string) func(v ssa.Value, f *sframe) constant.Value {
	return func(v ssa.Value, f *sframe) constant.Value {
		if f.parent == nil && v == switchSubject(f.fn) {
			return constant.MakeString(s)
		}
		return nil
	}
}

// afterSwitch: the instruction is only reached once the type name has been looked
// at (enumerations are handled before).
func afterSwitch(s *selfFrame, fn *ssa.Function, in ssa.Instruction) bool {
	subj, ok := switchSubject(fn).(ssa.Instruction)
	if !ok {
		return true
	}
	b := in.Block()
	for f := s.sframe; b.Parent() != fn; {
		_ = f
		return true // in a helper
	}
	return subj.Block().Dominates(b)
}
