package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A sframe is one activation of a function analysed for fixed values of some of
// its parameters. Helpers it calls are analysed in frames of their own, with
// their parameters bound to the caller's arguments.
type sframe struct {
	p      *Program
	fn     *ssa.Function
	vals   map[ssa.Value]constant.Value
	args   map[*ssa.Parameter]ssa.Value
	site   *ssa.Call
	parent *sframe
	blocks map[*ssa.BasicBlock]bool
	edges  map[[2]int]bool
	sub    map[*ssa.Call]*sframe
	inline func(cc *ssa.CallCommon, f *ssa.Function) bool
	atoms  func(v ssa.Value, f *sframe) constant.Value
	// dispatch resolves interface calls whose receiver is known
	dispatch func(c *ssa.Call, f *sframe) *ssa.Function
	// outer is the frame a closure was made in
	outer *sframe
}

// decide assumes values for some of the frame's instructions.
func (f *sframe) decide() {
	if f.atoms == nil {
		return
	}
	for i := 0; i < 2; i++ {
		// what is assumed of one condition may settle what another one is about
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if k := f.atoms(v, f); k != nil {
						f.vals[v] = k
					}
				}
			}
		}
		f.sub = map[*ssa.Call]*sframe{}
		f.blocks, f.edges = specialised(f.fn, f.vals)
	}
}

// boolResult is the value of the frame's single boolean result, when it is fixed.
func (f *sframe) boolResult() *bool {
	var res *bool
	for _, r := range f.returns() {
		for _, x := range f.expand(r.Results[0]) {
			b := foldCond(x.v, x.f.vals)
			if b == nil || (res != nil && *res != *b) {
				return nil
			}
			res = b
		}
	}
	return res
}

type fval struct {
	v ssa.Value
	f *sframe
}

func (p *Program) specFrame(fn *ssa.Function, vals map[ssa.Value]constant.Value, inline func(cc *ssa.CallCommon, f *ssa.Function) bool) *sframe {
	f := &sframe{p: p, fn: fn, vals: vals, inline: inline, sub: map[*ssa.Call]*sframe{}}
	f.blocks, f.edges = specialised(fn, vals)
	return f
}

// callee opens the frame of a helper call (nil when it is not to be entered).
func (f *sframe) callee(c *ssa.Call) *sframe {
	if s, ok := f.sub[c]; ok {
		return s
	}
	f.sub[c] = nil
	g := c.Call.StaticCallee()
	if g == nil && f.dispatch != nil && c.Call.IsInvoke() {
		g = f.dispatch(c, f)
	}
	if g == nil || len(g.Blocks) == 0 || g.Pkg == nil || !f.p.isEcore(g.Pkg.Pkg.Path()) {
		return nil
	}
	g = f.p.unwrap(g)
	if f.inline == nil || !f.inline(&c.Call, g) {
		return nil
	}
	depth := 0
	for x := f; x != nil; x = x.parent {
		if x.fn == g {
			return nil
		}
		depth++
	}
	if depth > 6 {
		return nil
	}
	s := &sframe{p: f.p, fn: g, vals: map[ssa.Value]constant.Value{}, args: map[*ssa.Parameter]ssa.Value{}, site: c, parent: f, inline: f.inline, atoms: f.atoms, dispatch: f.dispatch, sub: map[*ssa.Call]*sframe{}}
	args := c.Call.Args
	if c.Call.IsInvoke() {
		args = append([]ssa.Value{c.Call.Value}, args...)
	}
	for i, prm := range g.Params {
		if i >= len(args) {
			break
		}
		s.args[prm] = args[i]
		if k := foldVal(args[i], f.vals, 0); k != nil {
			s.vals[prm] = k
		}
	}
	if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		_ = mc
	}
	s.blocks, s.edges = specialised(g, s.vals)
	s.decide()
	f.sub[c] = s
	// a helper that always answers the same boolean is a known value here
	if r := g.Signature.Results(); s.atoms != nil && r.Len() == 1 && isBool(r.At(0).Type()) {
		if b := s.boolResult(); b != nil {
			f.vals[c] = constant.MakeBool(*b)
		}
	}
	return s
}

// each visits the reachable instructions, helpers included, in control-flow order.
func (f *sframe) each(visit func(in ssa.Instruction, f *sframe)) {
	for _, in := range straight(f.fn) {
		if !f.blocks[in.Block()] {
			continue
		}
		visit(in, f)
		if c, ok := in.(*ssa.Call); ok {
			if s := f.callee(c); s != nil {
				s.each(visit)
			}
		}
	}
}

// expand lists the values v can be: phis over reachable edges, parameters of
// helpers, results of helpers and variables assigned once are seen through;
// conversions and assertions too.
func (f *sframe) expand(v ssa.Value) []fval {
	var out []fval
	seen := map[fval]bool{}
	var walk func(x fval)
	walk = func(x fval) {
		if x.v == nil || seen[x] {
			return
		}
		seen[x] = true
		switch t := x.v.(type) {
		case *ssa.MakeInterface:
			walk(fval{t.X, x.f})
		case *ssa.ChangeInterface:
			walk(fval{t.X, x.f})
		case *ssa.ChangeType:
			walk(fval{t.X, x.f})
		case *ssa.Convert:
			walk(fval{t.X, x.f})
		case *ssa.TypeAssert:
			walk(fval{t.X, x.f})
		case *ssa.Extract:
			if ta, ok := t.Tuple.(*ssa.TypeAssert); ok {
				if t.Index == 0 {
					walk(fval{ta.X, x.f})
				} else {
					out = append(out, x)
				}
				return
			}
			if c, ok := t.Tuple.(*ssa.Call); ok {
				if s := x.f.callee(c); s != nil {
					for _, r := range s.returns() {
						if t.Index < len(r.Results) {
							walk(fval{r.Results[t.Index], s})
						}
					}
					return
				}
			}
			out = append(out, x)
		case *ssa.Phi:
			for i, e := range t.Edges {
				if x.f.edges[[2]int{t.Block().Preds[i].Index, t.Block().Index}] && x.f.blocks[t.Block().Preds[i]] {
					walk(fval{e, x.f})
				}
			}
		case *ssa.Parameter:
			if a := x.f.args[t]; a != nil && x.f.parent != nil {
				walk(fval{a, x.f.parent})
				return
			}
			out = append(out, x)
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if _, isField := t.X.(*ssa.FieldAddr); !isField {
					if stores := cellStores(t.X, 0); len(stores) > 0 {
						any := false
						for _, s := range stores {
							if in, ok := s.(ssa.Instruction); ok && in.Parent() == x.f.fn && !x.f.blocks[in.Block()] {
								continue
							}
							any = true
							walk(fval{s, x.f})
						}
						if any {
							return
						}
					}
				}
			}
			out = append(out, x)
		case *ssa.Call:
			if s := x.f.callee(t); s != nil {
				for _, r := range s.returns() {
					if len(r.Results) == 1 {
						walk(fval{r.Results[0], s})
					}
				}
				return
			}
			out = append(out, x)
		default:
			out = append(out, x)
		}
	}
	walk(fval{v, f})
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (f *sframe) returns() []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.fn.Blocks {
		if !f.blocks[b] || len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// one returns the value when there is exactly one.
func one(vs []fval) ssa.Value {
	if len(vs) == 1 {
		return vs[0].v
	}
	return nil
}

// isTop reports whether the value is the given parameter of the outermost frame.
func isTop(vs []fval, p ssa.Value) bool {
	return len(vs) == 1 && vs[0].v == p && vs[0].f.parent == nil
}

// accessorVerb splits a method name into the access it performs and the feature
// it names: Get/basicGet, Set/basicSet, Is, Unset, init.
func accessorVerb(name string) (verb, feature string) {
	for _, v := range []string{"basicGetTyped", "BasicGet", "basicGet", "BasicSet", "basicSet", "GetTyped", "SetTyped", "Get", "Set", "Is", "Unset", "init"} {
		if strings.HasPrefix(name, v) && len(name) > len(v) && name[len(v)] >= 'A' && name[len(v)] <= 'Z' {
			return v, name[len(v):]
		}
	}
	return "", ""
}

// featureNamed is the class's feature (own or inherited) an accessor name denotes.
func (cl *mmClass) featureNamed(name string) *mmElem {
	for _, e := range cl.AllFeatures() {
		if norm(e.Name()) == norm(name) {
			return e
		}
	}
	return nil
}
