package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The Ecore metamodel as the source declares it: what createPackageContents
// creates, in order, and what initializePackageContents says about it.

type mmClass struct {
	Name     string // as initialised ("EClass")
	Field    string // the package field holding it
	ID       int64
	Kind     string // "EClass" or "EDataType"
	Supers   []*mmClass
	Features []*mmElem // own features in creation order
	Ops      []*mmElem // own operations in creation order
	Pos      token.Pos
	Inits    []*mmInit
}

// mmElem is a feature or an operation.
type mmElem struct {
	Class     *mmClass
	Kind      string // EAttribute, EReference, EOperation
	Index     int    // position among the class's own features or operations
	CreatedID int64  // the identifier it is created with
	Pos       token.Pos
	Inits     []*mmInit
}

// mmInit is one Init… call.
type mmInit struct {
	Pos                               token.Pos
	Name, Default, Instance           string
	Type                              *mmClass
	TypeUnknown                       bool
	Opposite                          *mmElem
	HasOpposite                       bool
	Lower, Upper                      int64
	Transient, Volatile, Changeable   bool
	Containment, Resolve, Unsettable  bool
	Unique, Derived, Ordered, ID      bool
	Abstract, Interface, Serializable bool
	Params                            []*mmInit
}

// ID is the element's identifier in its class: the inherited ones come first.
func (e *mmElem) ID() int64 {
	if e.Kind == "EOperation" {
		return int64(e.Class.inheritedOps() + e.Index)
	}
	return int64(e.Class.inheritedFeatures() + e.Index)
}

func (e *mmElem) Init() *mmInit {
	if len(e.Inits) > 0 {
		return e.Inits[0]
	}
	return &mmInit{}
}

func (e *mmElem) Name() string { return e.Init().Name }

func (e *mmElem) Many() bool { u := e.Init().Upper; return u > 1 || u < 0 }

func (e *mmElem) String() string { return e.Class.Name + "." + e.Name() }

// Container reports whether the feature is the child's end of a containment.
func (e *mmElem) Container() bool {
	o := e.Init().Opposite
	return o != nil && o.Init().Containment
}

func (c *mmClass) allSupers() []*mmClass {
	var out []*mmClass
	seen := map[*mmClass]bool{}
	var walk func(x *mmClass)
	walk = func(x *mmClass) {
		for _, s := range x.Supers {
			walk(s)
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	walk(c)
	return out
}

func (c *mmClass) inheritedFeatures() int {
	n := 0
	for _, s := range c.allSupers() {
		n += len(s.Features)
	}
	return n
}

func (c *mmClass) inheritedOps() int {
	n := 0
	for _, s := range c.allSupers() {
		n += len(s.Ops)
	}
	return n
}

// AllFeatures lists inherited and own features in identifier order.
func (c *mmClass) AllFeatures() []*mmElem {
	var out []*mmElem
	for _, s := range c.allSupers() {
		out = append(out, s.Features...)
	}
	return append(out, c.Features...)
}

func (c *mmClass) AllOps() []*mmElem {
	var out []*mmElem
	for _, s := range c.allSupers() {
		out = append(out, s.Ops...)
	}
	return append(out, c.Ops...)
}

func (c *mmClass) Init() *mmInit {
	if len(c.Inits) > 0 {
		return c.Inits[0]
	}
	return &mmInit{}
}

type metamodel struct {
	p          *Program
	Pkg        *types.Named // EcorePackageImpl
	byField    map[string]*mmClass
	Classes    []*mmClass
	Impl       map[*mmClass]*types.Named // the type whose EStaticClass is the class
	ClassOf    map[*types.Named]*mmClass
	Problems   []mmProblem
	Unread     []token.Pos // Init/Create calls whose subject could not be resolved
	accessorOf map[*ssa.Function]any
	sup        int
}

type mmProblem struct {
	Key string
	Pos token.Pos
	Msg string
}

func (m *metamodel) problem(key string, pos token.Pos, format string, args ...any) {
	m.Problems = append(m.Problems, mmProblem{key, pos, fmt.Sprintf(format, args...)})
}

// metamodel reads the package implementation. It is computed once per run.
func (p *Program) metamodel() *metamodel {
	if p.mm != nil {
		return p.mm
	}
	m := &metamodel{p: p, byField: map[string]*mmClass{}, Impl: map[*mmClass]*types.Named{}, ClassOf: map[*types.Named]*mmClass{}, accessorOf: map[*ssa.Function]any{}}
	p.mm = m
	for _, fn := range p.Funcs {
		if fn.Parent() == nil && fn.Name() == "createPackageContents" {
			m.create(fn)
		}
	}
	for _, fn := range p.Funcs {
		if fn.Parent() == nil && fn.Name() == "initializePackageContents" {
			m.initialise(fn)
		}
	}
	m.implementations()
	return m
}

// resolve finds the metamodel element a value denotes: a load of a package field
// (classifier), or an accessor call reaching one of its features or operations.
func (m *metamodel) resolve(v ssa.Value) any { return m.resolveD(v, 0) }

func (m *metamodel) resolveD(v ssa.Value, d int) any {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.TypeAssert:
		return m.resolveD(x.X, d+1)
	case *ssa.ChangeInterface:
		return m.resolveD(x.X, d+1)
	case *ssa.MakeInterface:
		return m.resolveD(x.X, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return m.resolveD(ta.X, d+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if n := namedStruct(fa.X.Type()); n != nil && m.isPackage(n) {
				if c := m.byField[fieldOf(fa).Name()]; c != nil {
					return c
				}
			}
			return nil
		}
		if s := singleStore(x.X); s != nil {
			return m.resolveD(s, d+1)
		}
	case *ssa.Call:
		cc := &x.Call
		name := calleeName(cc)
		if name == "Get" && len(argsOf(cc)) == 1 {
			if l, ok := recvOf(cc).(*ssa.Call); ok {
				k, isConst := constInt(argsOf(cc)[0])
				cl, _ := m.resolveD(recvOf(&l.Call), d+1).(*mmClass)
				if cl != nil && isConst {
					switch calleeName(&l.Call) {
					case "GetEStructuralFeatures":
						if k >= 0 && int(k) < len(cl.Features) {
							return cl.Features[k]
						}
					case "GetEOperations":
						if k >= 0 && int(k) < len(cl.Ops) {
							return cl.Ops[k]
						}
					}
				}
			}
			return nil
		}
		f := cc.StaticCallee()
		if f == nil && cc.IsInvoke() {
			fns, ext := m.p.callees(cc)
			if ext || len(fns) != 1 {
				return nil
			}
			f = m.p.unwrap(fns[0])
		}
		if f == nil || len(f.Blocks) == 0 || len(argsOf(cc)) != 0 {
			return nil
		}
		f = m.p.unwrap(f)
		return m.accessor(f, d+1)
	}
	return nil
}

// accessor resolves what a parameterless package method returns.
func (m *metamodel) accessor(f *ssa.Function, d int) any {
	if r, ok := m.accessorOf[f]; ok {
		return r
	}
	m.accessorOf[f] = nil
	var res any
	first := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			e := m.resolveD(r.Results[0], d+1)
			if first {
				res, first = e, false
			} else if res != e {
				res = nil
			}
		}
	}
	m.accessorOf[f] = res
	return res
}

func (m *metamodel) isPackage(n *types.Named) bool { return n.Obj().Name() == "EcorePackageImpl" }

// straight lists the instructions of a function in control-flow order.
func straight(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		out = append(out, b.Instrs...)
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
	}
	return out
}

// withHelpers calls visit on each instruction of fn in order, stepping into the
// package's own helper functions where they are called (parameter values are
// not rebound: helpers take the elements they work on from package fields).
func (m *metamodel) withHelpers(fn *ssa.Function, seen map[*ssa.Function]bool, visit func(in ssa.Instruction)) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, in := range straight(fn) {
		visit(in)
		ci, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		if f := ci.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && f.Signature.Recv() != nil && recvTypeName(f.Signature.Recv().Type()) == "EcorePackageImpl" && f.Signature.Results().Len() == 0 {
			m.withHelpers(f, seen, visit)
		}
	}
}

func (m *metamodel) create(fn *ssa.Function) {
	if n := namedStruct(fn.Signature.Recv().Type()); n != nil {
		m.Pkg = n
	}
	made := map[ssa.Value]*mmClass{}
	m.withHelpers(fn, map[*ssa.Function]bool{}, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Call:
			name := calleeName(&x.Call)
			if !strings.HasPrefix(name, "CreateE") || !strings.HasSuffix(name, "FromContainerAndClassID") {
				return
			}
			kind := strings.TrimSuffix(strings.TrimPrefix(name, "Create"), "FromContainerAndClassID")
			args := argsOf(&x.Call)
			id, ok := constInt(args[len(args)-1])
			if len(args) != 2 || !ok {
				m.Unread = append(m.Unread, x.Pos())
				return
			}
			switch kind {
			case "EClass", "EDataType", "EEnum":
				made[x] = &mmClass{Kind: kind, ID: id, Pos: x.Pos()}
			default:
				c, _ := m.resolve(args[0]).(*mmClass)
				if c == nil {
					if mc := made[args[0]]; mc != nil {
						c = mc
					}
				}
				if c == nil {
					m.Unread = append(m.Unread, x.Pos())
					return
				}
				e := &mmElem{Class: c, Kind: kind, CreatedID: id, Pos: x.Pos()}
				if kind == "EOperation" {
					e.Index = len(c.Ops)
					c.Ops = append(c.Ops, e)
				} else {
					e.Index = len(c.Features)
					c.Features = append(c.Features, e)
				}
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			v := x.Val
			if u := unwrapIface(v); u != nil {
				v = u
			}
			c := made[v]
			if c == nil {
				return
			}
			f := fieldOf(fa).Name()
			if m.byField[f] != nil {
				m.problem("field "+f, x.Pos(), "the package field %s receives two classifiers", f)
			}
			if c.Field != "" {
				m.problem("field "+f, x.Pos(), "one classifier is stored in fields %s and %s", c.Field, f)
			}
			c.Field = f
			m.byField[f] = c
			m.Classes = append(m.Classes, c)
		}
	})
	for _, c := range made {
		if c.Field == "" {
			m.problem("unstored", c.Pos, "a classifier is created but never stored in the package")
		}
	}
}

func (m *metamodel) initialise(fn *ssa.Function) {
	b := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value)
	}
	i := func(v ssa.Value) int64 { n, _ := constInt(v); return n }
	s := func(v ssa.Value) string { n, _ := constStr(v); return n }
	cls := func(in *mmInit, v ssa.Value) {
		c, _ := m.resolve(v).(*mmClass)
		in.Type = c
		in.TypeUnknown = c == nil && !isNilConst(v)
	}
	m.withHelpers(fn, map[*ssa.Function]bool{}, func(in ssa.Instruction) {
		x, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		cc := &x.Call
		args := argsOf(cc)
		name := calleeName(cc)
		switch name {
		case "Add":
			l, ok := recvOf(cc).(*ssa.Call)
			if !ok || calleeName(&l.Call) != "GetESuperTypes" {
				return
			}
			sub, _ := m.resolve(recvOf(&l.Call)).(*mmClass)
			sup, _ := m.resolve(args[0]).(*mmClass)
			if sub == nil || sup == nil {
				m.Unread = append(m.Unread, x.Pos())
				return
			}
			m.sup++
			sub.Supers = append(sub.Supers, sup)
			if sub == sup {
				m.problem("super "+sub.Field, x.Pos(), "%s is its own super type", sub.Field)
				sub.Supers = nil
			}
		case "InitEClass", "InitEDataType", "InitEEnum":
			c, _ := m.resolve(args[0]).(*mmClass)
			if c == nil {
				m.Unread = append(m.Unread, x.Pos())
				return
			}
			n := &mmInit{Pos: x.Pos(), Name: s(args[1]), Instance: s(args[2])}
			if name == "InitEClass" {
				n.Abstract, n.Interface = b(args[3]), b(args[4])
			}
			if name == "InitEDataType" {
				n.Default, n.Serializable = s(args[3]), b(args[4])
			}
			if c.Name == "" {
				c.Name = n.Name
			}
			c.Inits = append(c.Inits, n)
		case "InitEAttribute":
			e, _ := m.resolve(args[0]).(*mmElem)
			if e == nil {
				m.Unread = append(m.Unread, x.Pos())
				return
			}
			n := &mmInit{Pos: x.Pos(), Name: s(args[2]), Default: s(args[3]), Lower: i(args[4]), Upper: i(args[5]),
				Transient: b(args[6]), Volatile: b(args[7]), Changeable: b(args[8]), Unsettable: b(args[9]), Unique: b(args[10]), Derived: b(args[11]), Ordered: b(args[12]), ID: b(args[13])}
			cls(n, args[1])
			e.Inits = append(e.Inits, n)
			if e.Kind != "EAttribute" {
				m.problem("kind "+e.Class.Field+" "+n.Name, x.Pos(), "an %s is initialised as an attribute", e.Kind)
			}
		case "InitEReference":
			e, _ := m.resolve(args[0]).(*mmElem)
			if e == nil {
				m.Unread = append(m.Unread, x.Pos())
				return
			}
			n := &mmInit{Pos: x.Pos(), Name: s(args[3]), Default: s(args[4]), Lower: i(args[5]), Upper: i(args[6]),
				Transient: b(args[7]), Volatile: b(args[8]), Changeable: b(args[9]), Containment: b(args[10]), Resolve: b(args[11]), Unsettable: b(args[12]), Unique: b(args[13]), Derived: b(args[14]), Ordered: b(args[15])}
			cls(n, args[1])
			if !isNilConst(args[2]) {
				n.HasOpposite = true
				n.Opposite, _ = m.resolve(args[2]).(*mmElem)
			}
			e.Inits = append(e.Inits, n)
			if e.Kind != "EReference" {
				m.problem("kind "+e.Class.Field+" "+n.Name, x.Pos(), "an %s is initialised as a reference", e.Kind)
			}
		case "InitEOperation":
			e, _ := m.resolve(args[0]).(*mmElem)
			if e == nil {
				m.Unread = append(m.Unread, x.Pos())
				return
			}
			n := &mmInit{Pos: x.Pos(), Name: s(args[2]), Lower: i(args[3]), Upper: i(args[4]), Unique: b(args[5]), Ordered: b(args[6])}
			cls(n, args[1])
			e.Inits = append(e.Inits, n)
			if e.Kind != "EOperation" {
				m.problem("kind "+e.Class.Field+" "+n.Name, x.Pos(), "an %s is initialised as an operation", e.Kind)
			}
		case "AddEParameter":
			e, _ := m.resolve(args[0]).(*mmElem)
			if e == nil || len(e.Inits) == 0 {
				m.Unread = append(m.Unread, x.Pos())
				return
			}
			n := &mmInit{Pos: x.Pos(), Name: s(args[2]), Lower: i(args[3]), Upper: i(args[4]), Unique: b(args[5]), Ordered: b(args[6])}
			cls(n, args[1])
			e.Inits[len(e.Inits)-1].Params = append(e.Inits[len(e.Inits)-1].Params, n)
		}
	})
}

// implementations ties each class to the Go type whose EStaticClass returns it.
func (m *metamodel) implementations() {
	for _, fn := range m.p.Funcs {
		if fn.Parent() != nil || fn.Name() != "EStaticClass" || fn.Signature.Recv() == nil {
			continue
		}
		n := namedStruct(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		c, _ := m.accessor(fn, 0).(*mmClass)
		if c == nil {
			continue
		}
		m.ClassOf[n] = c
		if implNameOf(n) == c.Name {
			m.Impl[c] = n
		}
	}
}

// ImplClasses lists the classes that have an implementation, by name.
func (m *metamodel) ImplClasses() []*mmClass {
	var out []*mmClass
	for c := range m.Impl {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// methodOn is the method a named struct type declares itself.
func (p *Program) methodOn(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.byObj[n.Method(i)]
		}
	}
	return nil
}

// specialised returns the blocks and edges reachable when the parameter has the
// given value: comparisons of it with constants are decided.
// The values joined by a phi are known when all its reachable predecessors agree;
// such values are added to val.
func specialised(fn *ssa.Function, val map[ssa.Value]constant.Value) (blocks map[*ssa.BasicBlock]bool, edges map[[2]int]bool) {
	blocks, edges = map[*ssa.BasicBlock]bool{}, map[[2]int]bool{}
	if len(fn.Blocks) == 0 {
		return
	}
	blocks[fn.Blocks[0]] = true
	phis := map[*ssa.Phi]constant.Value{}
	joined := func() {
		for p := range phis {
			delete(val, p)
		}
		phis = map[*ssa.Phi]constant.Value{}
		for round := 0; round < 3; round++ {
			changed := false
			for _, b := range fn.Blocks {
				if !blocks[b] {
					continue
				}
				for _, in := range b.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if val[p] != nil {
						continue
					}
					var k constant.Value
					same := true
					for i, e := range p.Edges {
						pred := b.Preds[i]
						if !blocks[pred] || !edges[[2]int{pred.Index, b.Index}] || e == ssa.Value(p) {
							continue
						}
						ke := foldVal(e, val, 0)
						if ke == nil || k != nil && (k.Kind() != ke.Kind() || !constant.Compare(k, token.EQL, ke)) {
							same = false
							break
						}
						k = ke
					}
					if same && k != nil {
						phis[p], val[p] = k, k
						changed = true
					}
				}
			}
			if !changed {
				break
			}
		}
	}
	for changed := true; changed; {
		changed = false
		joined()
		take := func(b, s *ssa.BasicBlock) {
			e := [2]int{b.Index, s.Index}
			if !edges[e] {
				edges[e] = true
				changed = true
			}
			if !blocks[s] {
				blocks[s] = true
				changed = true
			}
		}
		for _, b := range fn.DomPreorder() {
			if !blocks[b] {
				continue
			}
			if len(b.Instrs) > 0 {
				if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if r := foldCond(br.Cond, val); r != nil {
						i := 1
						if *r {
							i = 0
						}
						take(b, b.Succs[i])
						continue
					}
				}
			}
			for _, s := range b.Succs {
				take(b, s)
			}
		}
	}
	return
}

func foldVal(v ssa.Value, val map[ssa.Value]constant.Value, d int) constant.Value {
	if k := val[v]; k != nil {
		return k
	}
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value
	case *ssa.Convert:
		return foldVal(x.X, val, d+1)
	case *ssa.ChangeType:
		return foldVal(x.X, val, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := singleStore(x.X); s != nil {
				return foldVal(s, val, d+1)
			}
			return nil
		}
		if a := foldVal(x.X, val, d+1); a != nil && (x.Op == token.NOT || x.Op == token.SUB) {
			return constant.UnaryOp(x.Op, a, 0)
		}
	case *ssa.BinOp:
		a, b := foldVal(x.X, val, d+1), foldVal(x.Y, val, d+1)
		if a == nil || b == nil || a.Kind() != b.Kind() {
			return nil
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(a, x.Op, b))
		case token.ADD, token.SUB, token.MUL:
			if a.Kind() == constant.Int {
				return constant.BinaryOp(a, x.Op, b)
			}
		}
	}
	return nil
}

func foldCond(v ssa.Value, val map[ssa.Value]constant.Value) *bool {
	k := foldVal(v, val, 0)
	if k == nil || k.Kind() != constant.Bool {
		return nil
	}
	r := constant.BoolVal(k)
	return &r
}

func upperFirst(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

type ssaPos struct{ p token.Pos }

func (s ssaPos) Pos() token.Pos { return s.p }
