package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C17", checkC17) }

// Accessors of classes that leave inherited features out, and those that do not.
var ownFeatures = map[string]bool{"GetEStructuralFeatures": true, "GetEAttributes": true, "GetEReferences": true, "GetEOperations": true}

var allFeatures = map[string]bool{
	"GetEAllStructuralFeatures": true, "GetEAllAttributes": true, "GetEAllReferences": true, "GetEAllContainments": true,
	"GetEAllCrossReferences": true, "GetEContainmentFeatures": true, "GetECrossReferenceFeatures": true, "GetEAllOperations": true,
}

// What the lists of a class that include inherited elements are made of.
type inherits struct {
	super []string // what is taken from the super types
	own   []string // and from the class
	from  []string // or from another list with inherited elements
	// the questions an element may be left out for
	asks []string
}

var c17Lists = map[string]inherits{
	"eAllAttributes":          {super: []string{"GetEAllAttributes"}, own: []string{"GetEStructuralFeatures", "GetEAttributes"}},
	"eAllReferences":          {super: []string{"GetEAllReferences"}, own: []string{"GetEStructuralFeatures", "GetEReferences"}},
	"eAllStructuralFeatures":  {super: []string{"GetEAllStructuralFeatures"}, own: []string{"GetEStructuralFeatures"}},
	"eAllOperations":          {super: []string{"GetEAllOperations"}, own: []string{"GetEOperations"}},
	"eAllSuperTypes":          {super: []string{"GetEAllSuperTypes"}, own: []string{"GetESuperTypes"}},
	"eIDAttribute":            {super: []string{"GetEAllAttributes"}, own: []string{"GetEStructuralFeatures", "GetEAttributes"}, asks: []string{"IsID"}},
	"eAllContainments":        {from: []string{"eAllReferences", "eAllStructuralFeatures"}, asks: []string{"IsContainment"}},
	"eAllCrossReferences":     {from: []string{"eAllReferences", "eAllStructuralFeatures"}, asks: []string{"IsContainment", "IsContainer"}},
	"eContainmentFeatures":    {from: []string{"eAllReferences", "eAllStructuralFeatures", "eAllContainments"}, asks: []string{"IsContainment", "IsContainer", "IsDerived"}},
	"eCrossReferenceFeatures": {from: []string{"eAllReferences", "eAllStructuralFeatures", "eAllCrossReferences"}, asks: []string{"IsContainment", "IsContainer", "IsDerived"}},
	"nameToFeatureMap":        {from: []string{"eAllStructuralFeatures"}},
	"operationToOverrideMap":  {from: []string{"eAllOperations"}, asks: []string{"IsOverrideOf"}},
}

// Places that are about the features a class itself declares.
var c17Own = map[string]string{
	"XMLEncoder.getRootFeature":         "the global elements are the features a document root declares",
	"sqlSchema.getOrComputeClassSchema": "each class of the hierarchy has a table of its own (rule hierarchy)",
}

type inherited struct {
	c *Ctx
	d int
}

// a contribution: elements of a list that end in a value.
type contribution struct {
	list  string // the accessor or field
	super bool   // of a super type
	coll  ssa.Value
	owner ssa.Value
	asked ssa.Instruction // where the list is asked for
	// the loop that goes over the elements, nil when the list is taken as a whole
	loop *loopInfo
	at   ssa.Instruction // where the element is added
	fn   *ssa.Function
}

// listOf: the name of the list the value is, and whose list it is.
func (h *inherited) listOf(v ssa.Value) (name string, super bool, owner ssa.Value) {
	for i := 0; i < 10; i++ {
		switch t := v.(type) {
		case *ssa.ChangeInterface:
			v = t.X
			continue
		case *ssa.MakeInterface:
			v = t.X
			continue
		case *ssa.TypeAssert:
			v = t.X
			continue
		case *ssa.Call:
			n := calleeName(&t.Call)
			if recv := recvOf(&t.Call); recv != nil {
				if n == "ToArray" || n == "All" || n == "Iterator" || n == "GetUnResolvedList" {
					v = recv
					continue
				}
				if strings.HasPrefix(n, "GetE") {
					return n, h.isSuper(recv, 0), recv
				}
			}
			// a helper that answers the list
			if g := t.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && h.c.isEcore(pkgPath(g)) && recvOf(&t.Call) != nil {
				for _, b := range h.c.unwrap(g).Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						n, _, _ := h.listOf(r.Results[0])
						return n, h.isSuper(recvOf(&t.Call), 0), recvOf(&t.Call)
					}
				}
			}
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if fa, ok := t.X.(*ssa.FieldAddr); ok {
					return fieldOf(fa).Name(), h.isSuper(fa.X, 0), fa.X
				}
				if s := singleStore(t.X); s != nil {
					v = s
					continue
				}
				if fv, ok := t.X.(*ssa.FreeVar); ok {
					if b := rootBinding(fv); b != nil {
						if s := singleStore(b); s != nil {
							v = s
							continue
						}
					}
				}
			}
		}
		break
	}
	return "", false, nil
}

// element: the list the value is an element of, and the loop over it.
func (h *inherited) element(v ssa.Value, d int) (coll ssa.Value, next ssa.Instruction) {
	if d > 10 {
		return nil, nil
	}
	switch t := v.(type) {
	case *ssa.ChangeInterface:
		return h.element(t.X, d+1)
	case *ssa.MakeInterface:
		return h.element(t.X, d+1)
	case *ssa.TypeAssert:
		return h.element(t.X, d+1)
	case *ssa.Extract:
		if _, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 0 {
			return h.element(t.Tuple, d+1)
		}
	case *ssa.Phi:
		for _, e := range t.Edges {
			if c, n := h.element(e, d+1); c != nil {
				return c, n
			}
		}
	case *ssa.Call:
		if it, next, ok := iteratorCall(&t.Call); ok && next {
			return h.iterated(it, 0), t
		}
		if calleeName(&t.Call) == "Get" && recvOf(&t.Call) != nil {
			return recvOf(&t.Call), t
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if ia, ok := t.X.(*ssa.IndexAddr); ok {
				return ia.X, t
			}
			if s := singleStore(t.X); s != nil {
				return h.element(s, d+1)
			}
		}
	case *ssa.Parameter:
		// range over a function
		for _, site := range yieldSites(t.Parent()) {
			return site, nil
		}
	}
	return nil, nil
}

// yieldSites: the sequences the function is the body of a range over.
func yieldSites(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	p := fn.Parent()
	if p == nil || len(fn.Params) != 1 {
		return nil
	}
	for _, ci := range calls(p) {
		cc := ci.Common()
		if cc.IsInvoke() || len(cc.Args) != 1 {
			continue
		}
		mc, ok := cc.Args[0].(*ssa.MakeClosure)
		if (ok && mc.Fn == fn || cc.Args[0] == fn) && cc.StaticCallee() == nil {
			out = append(out, cc.Value)
		}
	}
	return out
}

// iterated: the collection an iterator goes over.
func (h *inherited) iterated(it ssa.Value, d int) ssa.Value {
	if d > 8 {
		return nil
	}
	for _, s := range sources(it) {
		switch t := s.(type) {
		case *ssa.Call:
			if calleeName(&t.Call) == "Iterator" {
				return recvOf(&t.Call)
			}
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if s := singleStore(t.X); s != nil {
					return h.iterated(s, d+1)
				}
			}
		}
	}
	return nil
}

// isSuper: the class is one of the super types of another.
func (h *inherited) isSuper(v ssa.Value, d int) bool {
	if h.d > 3 {
		return false
	}
	h.d++
	defer func() { h.d-- }()
	coll, _ := h.element(v, 0)
	if coll == nil {
		return false
	}
	n, _, _ := h.listOf(coll)
	return n == "GetESuperTypes" || n == "GetEAllSuperTypes" || n == "eAllSuperTypes" || n == "eSuperTypes"
}

// contributions: the lists whose elements the value is made of.
func (h *inherited) contributions(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool, out *[]contribution) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	add := func(coll ssa.Value, next ssa.Instruction, where ssa.Instruction) {
		name, super, owner := h.listOf(coll)
		if name == "" {
			return
		}
		c := contribution{list: name, super: super, coll: coll, owner: owner, at: where, fn: where.Parent()}
		c.asked, _ = coll.(ssa.Instruction)
		if next != nil {
			c.loop = loopOf(where.Parent(), next.Block())
		}
		*out = append(*out, c)
	}
	switch t := v.(type) {
	case *ssa.Phi:
		for _, e := range t.Edges {
			h.contributions(e, at, seen, out)
		}
	case *ssa.MakeInterface:
		h.contributions(t.X, at, seen, out)
	case *ssa.ChangeInterface:
		h.contributions(t.X, at, seen, out)
	case *ssa.Slice:
		if a, ok := t.X.(*ssa.Alloc); ok {
			for _, e := range arrayElems(a) {
				h.contributions(e, at, seen, out)
			}
			return
		}
		h.contributions(t.X, at, seen, out)
	case *ssa.UnOp:
		if t.Op != token.MUL {
			return
		}
		if name, _, _ := h.listOf(v); name != "" && (allFeatures["G"+strings.TrimPrefix(name, "g")] || c17Lists[name].from != nil || c17Lists[name].super != nil) {
			if _, isField := t.X.(*ssa.FieldAddr); isField {
				add(v, nil, at)
				return
			}
		}
		cell := t.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			if b := rootBinding(fv); b != nil {
				cell = b
			}
		}
		for _, s := range cellStores(cell, 0) {
			h.contributions(s, at, seen, out)
		}
		if coll, next := h.element(v, 0); coll != nil {
			where := at
			if in, ok := v.(ssa.Instruction); ok && where == nil {
				where = in
			}
			add(coll, next, where)
		}
	case *ssa.MakeMap:
		for _, ref := range *t.Referrers() {
			if mu, ok := ref.(*ssa.MapUpdate); ok {
				h.contributions(mu.Value, mu, seen, out)
			}
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				h.contributions(t.Call.Args[0], at, seen, out)
				for _, a := range t.Call.Args[1:] {
					h.contributions(a, t, seen, out)
				}
			}
			return
		}
		if coll, next := h.element(v, 0); coll != nil {
			add(coll, next, at)
			return
		}
		if n := calleeName(&t.Call); n == "ToArray" || strings.HasPrefix(n, "GetE") {
			if recvOf(&t.Call) != nil {
				add(v, nil, at)
				return
			}
		}
		for _, a := range t.Call.Args {
			h.contributions(a, at, seen, out)
		}
		if g := t.Call.StaticCallee(); g != nil && h.c.isEcore(pkgPath(g)) && len(h.c.unwrap(g).Blocks) > 0 && len(seen) < 400 {
			g = h.c.unwrap(g)
			for _, b := range g.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(r.Results) == 0 {
					continue
				}
				n := len(*out)
				h.contributions(r.Results[0], r, seen, out)
				for i := n; i < len(*out); i++ {
					k := &(*out)[i]
					for j, p := range g.Params {
						if k.owner == p && j < len(t.Call.Args) {
							k.owner, k.super, k.asked = t.Call.Args[j], h.isSuper(t.Call.Args[j], 0), t
							if k.loop == nil && at != nil {
								k.at, k.fn = at, at.Parent()
							}
						}
					}
				}
			}
		}
	default:
		if coll, next := h.element(v, 0); coll != nil {
			add(coll, next, at)
		}
	}
}

func arrayElems(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, ref := range *a.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, u := range *ia.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ia {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// asked: the branch asks one of the questions of an element, or what type it is.
func (h *inherited) asked(b *ssa.BasicBlock, asks []string) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	return h.askedCond(br.Cond, asks, 0)
}

func (h *inherited) askedCond(v ssa.Value, asks []string, d int) bool {
	if d > 6 {
		return false
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		return t.Op == token.NOT && h.askedCond(t.X, asks, d+1)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if _, isC := e.(*ssa.Const); !isC && !h.askedCond(e, asks, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		_, ok := t.Tuple.(*ssa.TypeAssert)
		return ok
	case *ssa.BinOp:
		for _, x := range []ssa.Value{t.X, t.Y} {
			if isNilConst(x) {
				return true
			}
		}
	case *ssa.Call:
		n := calleeName(&t.Call)
		for _, a := range asks {
			if a == n {
				return true
			}
		}
		if g := t.Call.StaticCallee(); g != nil && h.c.isEcore(pkgPath(g)) && isBool(t.Type()) {
			// a helper that asks
			ok := len(h.c.unwrap(g).Blocks) > 0
			for _, gb := range h.c.unwrap(g).Blocks {
				switch x := gb.Instrs[len(gb.Instrs)-1].(type) {
				case *ssa.If:
					ok = ok && h.askedCond(x.Cond, asks, d+1)
				case *ssa.Return:
					if _, isC := x.Results[0].(*ssa.Const); !isC {
						ok = ok && h.askedCond(x.Results[0], asks, d+1)
					}
				}
			}
			return ok
		}
	}
	return false
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// redefined: a type that embeds the receiver has a method of its own instead.
func (h *inherited) redefined(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil {
		return false
	}
	base := typeName(deref(fn.Signature.Recv().Type()))
	for _, g := range h.c.Funcs {
		if g != fn && g.Name() == fn.Name() && g.Signature.Recv() != nil {
			t := deref(g.Signature.Recv().Type())
			if typeName(t) != base && h.c.embedsNamed(t, base) {
				return true
			}
		}
	}
	return false
}

func accessorOf(field string) string { return "GetE" + field[1:] }

// lists: the rule on the lists of a class.
func (h *inherited) lists() {
	c := h.c
	found := map[string]bool{}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || isNilConst(st.Val) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !c.embedsNamed(deref(fa.X.Type()), "EClassImpl") && !strings.HasPrefix(typeName(deref(fa.X.Type())), "EClass") {
					continue
				}
				name := fieldOf(fa).Name()
				want, ok := c17Lists[name]
				if !ok {
					continue
				}
				if _, isMap := st.Val.(*ssa.MakeMap); !isMap {
					if k, isC := st.Val.(*ssa.Const); isC && k.Value == nil {
						continue
					}
				}
				if h.redefined(fn) {
					continue
				}
				found[name] = true
				var cs []contribution
				h.contributions(st.Val, st, map[ssa.Value]bool{}, &cs)
				if mm, isMap := st.Val.(*ssa.MakeMap); isMap {
					_ = mm
					// the map is filled through the field
					for _, fb := range fn.Blocks {
						for _, fin := range fb.Instrs {
							if mu, ok := fin.(*ssa.MapUpdate); ok {
								if u, ok := mu.Map.(*ssa.UnOp); ok {
									if f2, ok := u.X.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
										h.contributions(mu.Value, mu, map[ssa.Value]bool{}, &cs)
									}
								}
							}
						}
					}
				}
				key := fname(fn) + " " + name
				super, own, from := false, false, false
				bad := ""
				for _, k := range cs {
					n := k.list
					switch {
					case k.super && has(want.super, n):
						super = true
					case !k.super && has(want.own, n):
						own = true
					case !k.super && (has(want.from, n) || anyAccessor(want.from, n)):
						from = true
					case ownFeatures[n] && want.from != nil:
						bad = "is made of " + n + "(), which leaves inherited features out"
						continue
					default:
						continue
					}
					if name == "eIDAttribute" || k.loop == nil {
						if k.loop == nil && k.at != nil && name != "eIDAttribute" {
							// the list of a super type is taken whole, for each super type
							if k.super && !h.eachSuper(k, want) {
								bad = "does not take " + n + "() of every super type"
							}
						}
						continue
					}
					whole := runsOutLoop(k.loop) && h.onlyAsked(k.loop, k.at, want.asks)
					if !whole && !(k.loop.header != nil && h.nested(k, want)) {
						bad = "leaves elements of " + n + "() out"
					}
					if k.super && !h.eachSuper(k, want) {
						bad = "does not take " + n + "() of every super type"
					}
				}
				if bad == "" {
					switch {
					case want.from != nil && !from:
						bad = "is not made of a list with the inherited ones (" + strings.Join(want.from, ", ") + ")"
					case want.super != nil && !super:
						bad = "does not include what super types have (" + strings.Join(want.super, ", ") + ")"
					case want.own != nil && !own:
						bad = "does not include what the class declares (" + strings.Join(want.own, ", ") + ")"
					}
				}
				c.Decide(bad == "", "complete", key, in.Pos(), "%s of a class %s", name, bad)
			}
		}
	}
	for _, name := range sortedInherits() {
		if !found[name] {
			c.Bad("complete", name, token.NoPos, "nothing computes %s of a class", name)
		}
	}
}

// nested: the element is added in an inner loop of the one over the list.
func (h *inherited) nested(k contribution, want inherits) bool {
	inner := loopOf(k.fn, k.at.Block())
	if inner == nil || inner == k.loop || inner.header == k.loop.header {
		return false
	}
	return runsOutLoop(k.loop)
}

// eachSuper: what is taken of a super type is taken in each round of a loop over
// the super types.
func (h *inherited) eachSuper(k contribution, want inherits) bool {
	if k.owner == nil {
		return false
	}
	coll, next := h.element(k.owner, 0)
	if coll == nil {
		return false
	}
	if n, _, _ := h.listOf(coll); n != "GetESuperTypes" && n != "eSuperTypes" {
		return false
	}
	if next == nil {
		return true // range over a function: decided by the body
	}
	l := loopOf(next.Parent(), next.Block())
	if l == nil || !runsOutLoop(l) {
		return false
	}
	target := k.at
	if k.loop != nil || target == nil || target.Parent() != next.Parent() {
		target = k.asked
	}
	if target == nil {
		return false
	}
	return h.onlyAsked(l, target, nil)
}

// onlyAsked: a round of the loop that could pass the instruction passes it unless
// one of the questions was answered otherwise.
func (h *inherited) onlyAsked(l *loopInfo, at ssa.Instruction, asks []string) bool {
	can := map[*ssa.BasicBlock]bool{at.Block(): true}
	for changed := true; changed; {
		changed = false
		for b := range l.body {
			if can[b] {
				continue
			}
			for _, s := range b.Succs {
				if s != l.header && l.body[s] && can[s] {
					can[b], changed = true, true
				}
			}
		}
	}
	if !can[l.header] {
		return false
	}
	after := map[*ssa.BasicBlock]bool{} // passed already
	var pass func(b *ssa.BasicBlock)
	pass = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if s != l.header && l.body[s] && !after[s] {
				after[s] = true
				pass(s)
			}
		}
	}
	pass(at.Block())
	for b := range l.body {
		if !can[b] || b == at.Block() || after[b] {
			continue
		}
		for _, s := range b.Succs {
			if b == l.header && !l.body[s] {
				continue
			}
			if (s == l.header || !can[s]) && !h.asked(b, asks) {
				return false
			}
		}
	}
	return true
}

func anyAccessor(fields []string, name string) bool {
	for _, f := range fields {
		if accessorOf(f) == name {
			return true
		}
	}
	return false
}

func sortedInherits() []string {
	var out []string
	for n := range c17Lists {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// enumerating uses of a list of features.
var enumerating = map[string]bool{"Iterator": true, "All": true, "ToArray": true, "Get": true, "Contains": true, "IndexOf": true, "Size": true, "Empty": true}

// whole: the rule on what works on whole objects.
func (h *inherited) whole() {
	c := h.c
	for _, fn := range c.Funcs {
		for _, ci := range calls(fn) {
			n := calleeName(ci.Common())
			if !ownFeatures[n] || recvOf(ci.Common()) == nil || ci.Value() == nil {
				continue
			}
			if rt := typeName(recvOf(ci.Common()).Type()); !strings.HasPrefix(rt, "EClass") {
				continue
			}
			var pos token.Pos
			enum := false
			var look func(v ssa.Value, d int)
			look = func(v ssa.Value, d int) {
				if d > 4 || v.Referrers() == nil {
					return
				}
				for _, ref := range *v.Referrers() {
					switch t := ref.(type) {
					case ssa.CallInstruction:
						cc := t.Common()
						m := calleeName(cc)
						if recvOf(cc) == v {
							if enumerating[m] {
								if m == "Get" && len(argsOf(cc)) == 1 {
									if _, isC := argsOf(cc)[0].(*ssa.Const); isC {
										continue
									}
								}
								enum, pos = true, t.Pos()
							}
							continue
						}
						// handed to something that may go over it
						enum, pos = true, t.Pos()
					case *ssa.Phi:
						look(t, d+1)
					case *ssa.ChangeInterface:
						look(t, d+1)
					case *ssa.MakeInterface:
						look(t, d+1)
					case *ssa.TypeAssert:
						look(t, d+1)
					case *ssa.Extract:
						look(t, d+1)
					case *ssa.Store:
						if a, ok := t.Addr.(*ssa.Alloc); ok && t.Val == v {
							for _, r2 := range *a.Referrers() {
								if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
									look(u, d+1)
								}
							}
						}
					}
				}
			}
			look(ci.Value(), 0)
			if !enum {
				continue
			}
			top := topFn(fn)
			key := fname(top) + " " + n
			supers := false
			for _, g := range withClosures(top) {
				for _, s := range calls(g) {
					if m := calleeName(s.Common()); m == "GetESuperTypes" || m == "GetEAllSuperTypes" {
						supers = true
					}
				}
			}
			switch {
			case c17Own[fname(top)] != "" || h.onlyFrom(top, 0):
				c.Ok("whole", key, pos)
			case supers && strings.HasPrefix(typeName(recvTypeOf(top)), "EClass"):
				c.Ok("whole", key, pos) // decided by the rule complete
			default:
				c.Bad("whole", key, pos, "%s goes over %s(), which leaves inherited features out", fname(top), n)
			}
		}
	}
}

// onlyFrom: the function is only called from places about the features a class declares.
func (h *inherited) onlyFrom(fn *ssa.Function, d int) bool {
	sites := h.c.staticCalls(fn)
	if len(sites) == 0 || d > 2 {
		return false
	}
	for _, s := range sites {
		p := topFn(s.Parent())
		if c17Own[fname(p)] == "" && !h.onlyFrom(p, d+1) {
			return false
		}
	}
	return true
}

func recvTypeOf(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return deref(r.Type())
	}
	return types.Typ[types.Invalid]
}

// covered: loops over all features of a class leave none out because of where it
// is declared.
func (h *inherited) covered() {
	c := h.c
	for _, fn := range c.Funcs {
		seen := map[*loopInfo]bool{}
		loops := naturalLoops(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				call, ok := v.(*ssa.Call)
				if !ok {
					continue
				}
				var coll ssa.Value
				var index ssa.Value
				if it, next, ok := iteratorCall(&call.Call); ok && next {
					coll = h.iterated(it, 0)
				} else if calleeName(&call.Call) == "Get" && recvOf(&call.Call) != nil && len(argsOf(&call.Call)) == 1 {
					coll, index = recvOf(&call.Call), argsOf(&call.Call)[0]
				}
				if coll == nil {
					continue
				}
				name, _, _ := h.listOf(coll)
				if !allFeatures[name] && c17Lists[name].from == nil && c17Lists[name].super == nil {
					continue
				}
				var l *loopInfo
				for _, x := range loops {
					if x.body[b] && (l == nil || len(x.body) < len(l.body)) {
						l = x
					}
				}
				if l == nil || seen[l] {
					continue
				}
				seen[l] = true
				key := fname(fn) + " " + name
				bad := ""
				for lb := range l.body {
					br, ok := lb.Instrs[len(lb.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					if q := h.ownerAsked(br.Cond, call, 0); q != "" && !leavesLoop(l, lb) {
						bad = "leaves features out because of their " + q
					}
				}
				if index != nil {
					if k := startOf(index, l); k != nil && !isZero(k) {
						if _, isC := k.(*ssa.Const); isC {
							bad = "does not start with the first feature"
						}
					}
				}
				c.Decide(bad == "", "covered", key, call.Pos(), "%s, going over %s, %s", fname(fn), name, bad)
			}
		}
	}
}

func isZero(v ssa.Value) bool {
	n, ok := constInt(v)
	return ok && n == 0
}

func startOf(index ssa.Value, l *loopInfo) ssa.Value {
	ph, ok := index.(*ssa.Phi)
	if !ok || ph.Block() != l.header {
		return nil
	}
	up := false
	var start ssa.Value
	for i, e := range ph.Edges {
		if l.body[ph.Block().Preds[i]] {
			if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD {
				up = true
			}
		} else {
			start = e
		}
	}
	if !up {
		return nil
	}
	return start
}

// leavesLoop: the branch leaves the loop with the element that was looked for.
func leavesLoop(l *loopInfo, b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if !l.body[s] {
			return true
		}
	}
	return false
}

// ownerAsked: the condition is about the class that declares the element or the
// number of the element.
func (h *inherited) ownerAsked(v ssa.Value, elem ssa.Value, d int) string {
	if d > 8 || v == nil {
		return ""
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		return h.ownerAsked(t.X, elem, d+1)
	case *ssa.BinOp:
		if q := h.ownerAsked(t.X, elem, d+1); q != "" {
			return q
		}
		return h.ownerAsked(t.Y, elem, d+1)
	case *ssa.MakeInterface:
		return h.ownerAsked(t.X, elem, d+1)
	case *ssa.ChangeInterface:
		return h.ownerAsked(t.X, elem, d+1)
	case *ssa.TypeAssert:
		return h.ownerAsked(t.X, elem, d+1)
	case *ssa.Extract:
		return h.ownerAsked(t.Tuple, elem, d+1)
	case *ssa.Call:
		recv := recvOf(&t.Call)
		switch calleeName(&t.Call) {
		case "GetEContainingClass":
			if recv != nil && derivedFrom(recv, elem, 0) {
				return "class"
			}
		case "EContainer":
			if recv != nil && derivedFrom(recv, elem, 0) {
				return "container"
			}
		case "GetFeatureID":
			if recv != nil && derivedFrom(recv, elem, 0) {
				return "number"
			}
		case "Contains", "IndexOf":
			if recv != nil {
				if n, _, _ := h.listOf(recv); ownFeatures[n] {
					return "absence from " + n + "()"
				}
			}
		}
		if g := t.Call.StaticCallee(); g != nil && h.c.isEcore(pkgPath(g)) && isBool(t.Type()) && d < 3 {
			for i, a := range t.Call.Args {
				if !derivedFrom(a, elem, 0) || i >= len(h.c.unwrap(g).Params) {
					continue
				}
				p := h.c.unwrap(g).Params[i]
				for _, gb := range h.c.unwrap(g).Blocks {
					switch x := gb.Instrs[len(gb.Instrs)-1].(type) {
					case *ssa.If:
						if q := h.ownerAsked(x.Cond, p, d+3); q != "" {
							return q
						}
					case *ssa.Return:
						if q := h.ownerAsked(x.Results[0], p, d+3); q != "" {
							return q
						}
					}
				}
			}
		}
	}
	return ""
}

// contents: the features the contents and the cross references of an object are taken from.
func (h *inherited) contents() {
	c := h.c
	want := map[string][]string{
		"EContents":        {"GetEAllContainments", "GetEContainmentFeatures"},
		"ECrossReferences": {"GetEAllCrossReferences", "GetECrossReferenceFeatures"},
	}
	for _, fn := range c.Funcs {
		names := want[topFn(fn).Name()]
		if names == nil {
			continue
		}
		for _, ci := range calls(fn) {
			for _, a := range ci.Common().Args {
				n, _, _ := h.listOf(a)
				if strings.HasPrefix(n, "GetE") && (ownFeatures[n] || allFeatures[n]) {
					c.Decide(has(names, n), "contents", fname(fn), ci.Pos(), "%s takes the features from %s()", fname(fn), n)
				}
			}
		}
	}
}

// hierarchy: what is kept per class is asked of all classes of an object.
func (h *inherited) hierarchy() {
	c := h.c
	for _, fn := range c.Funcs {
		// the list of the classes of an object
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa).Name() != "hierarchy" {
					continue
				}
				var cs []contribution
				h.contributions(st.Val, st, map[ssa.Value]bool{}, &cs)
				all := false
				for _, k := range cs {
					if k.list == "GetEAllSuperTypes" && (k.loop == nil || runsOutLoop(k.loop) && h.onlyAsked(k.loop, k.at, nil)) {
						all = true
					}
				}
				c.Decide(all, "hierarchy", fname(fn)+" hierarchy", in.Pos(), "the classes of an object do not include all super types")
			}
		}
	}
	// the data of a class is looked up for the class of an object and for its super types
	isData := func(t types.Type) bool {
		n := typeName(deref(t))
		return n == "sqlClassSchema" || n == "sqlEncoderClassData"
	}
	for _, fn := range c.Funcs {
		if fn.Parent() != nil {
			continue
		}
		uses, all := token.NoPos, false
		for _, g := range withClosures(fn) {
			for _, ci := range calls(g) {
				cc := ci.Common()
				if ci.Value() == nil {
					continue
				}
				res := cc.Signature().Results()
				if res.Len() == 0 || !isData(res.At(0).Type()) {
					continue
				}
				for _, a := range argsOf(cc) {
					if !strings.HasPrefix(typeName(a.Type()), "EClass") {
						continue
					}
					if coll, _ := h.element(a, 0); coll != nil {
						if n, _, _ := h.listOf(coll); n == "GetEAllSuperTypes" || n == "hierarchy" {
							all = true
						}
						continue
					}
					for _, s := range sources(a) {
						if call, ok := s.(*ssa.Call); ok && calleeName(&call.Call) == "EClass" && usesFeatures(ci.Value(), isData, 0) {
							uses = ci.Pos()
						}
					}
				}
			}
		}
		if uses.IsValid() {
			c.Decide(all, "hierarchy", fname(fn), uses, "%s looks at the features of the class of an object only, not at those of its super types", fname(fn))
		}
		// the classes whose features are read
		for _, ci := range calls(fn) {
			if calleeName(ci.Common()) != "EClass" && fname(fn) == "SQLDecoder.decodeFeatures" {
				break
			}
		}
	}
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fname(fn) != "SQLDecoder.decodeFeatures" {
			continue
		}
		ok := false
		var pos = fn.Pos()
		for _, g := range withClosures(fn) {
			for _, ci := range calls(g) {
				if calleeName(ci.Common()) == "GetEAllSuperTypes" {
					ok = true
					pos = ci.Pos()
				}
			}
		}
		c.Decide(ok, "hierarchy", fname(fn), pos, "%s does not read the features of super types", fname(fn))
	}
}

// usesFeatures: the features in the data of a class are looked at.
func usesFeatures(v ssa.Value, isData func(types.Type) bool, d int) bool {
	if d > 5 || v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch t := ref.(type) {
		case *ssa.Extract:
			if isData(t.Type()) && usesFeatures(t, isData, d+1) {
				return true
			}
		case *ssa.FieldAddr:
			if fieldOf(t).Name() == "features" {
				return true
			}
		case *ssa.Phi:
			if usesFeatures(t, isData, d+1) {
				return true
			}
		case *ssa.Call:
			for _, a := range t.Call.Args {
				if a == v && strings.Contains(strings.ToLower(calleeName(&t.Call)), "feature") {
					return true
				}
			}
		}
	}
	return false
}

func checkC17(c *Ctx) {
	c.Rule("complete", "the lists of a class that include inherited elements are made of those of every super type and of its own, or of such a list, and leave none out")
	c.Rule("whole", "what works on whole objects goes over a list that includes inherited features")
	c.Rule("covered", "a loop over all features of a class leaves none out because of the class that declares it")
	c.Rule("contents", "the contents and the cross references of an object are taken from all its references")
	c.Rule("hierarchy", "what is kept per class is asked of the class of an object and of all its super types")
	h := &inherited{c: c}
	h.lists()
	h.whole()
	h.covered()
	h.contents()
	h.hierarchy()
	c.Rule("frames", "a traversal leaves a frame of its stack only when nothing remains there; references that are set are gone over, and what is met is gone into and, if looked for, answered")
	h.frames()
	c.Floor("frames", 1)
	c.Floor("complete", 12)
	c.Floor("whole", 2)
	c.Floor("covered", 8)
	c.Floor("contents", 4)
	c.Floor("hierarchy", 4)
}
