package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C44", checkC44) }

// Collections that stand in front of another one.

// delegators: confirmed wrapping types and the field that holds what they wrap.
var delegators = map[string]string{
	"AbstractDelegatingEList":          "delegate",
	"AbstractDelegatingENotifyingList": "delegate",
	"unResolvedBasicEObjectList":       "delegate",
	"unResolvedEStoreList":             "delegate",
	"ECodecRegistryImpl":               "delegate",
	"EPackageRegistryImpl":             "delegate",
	"listIterator":                     "list",
}

type delegation struct{ c *Ctx }

// wrapped: the field of the type (or of what it embeds) that holds a value the
// type itself can stand for.
func (d *delegation) wrapped(n *types.Named) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		fv := st.Field(i)
		if fv.Embedded() {
			if e, ok := fv.Type().(*types.Named); ok {
				if w := d.wrapped(e.Origin()); w != "" && delegators[e.Origin().Obj().Name()] != "" {
					return w
				}
			}
			continue
		}
		if _, ok := fv.Type().(*types.TypeParam); ok {
			return fv.Name()
		}
		if it, ok := fv.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && n.TypeParams().Len() == 0 {
			if types.Implements(types.NewPointer(n), it) && strings.Contains(strings.ToLower(fv.Name()), "delegate") {
				return fv.Name()
			}
		}
	}
	// an iterator over a list
	if d.c.methodOn(n, "Next") != nil && d.c.methodOn(n, "HasNext") != nil {
		for i := 0; i < st.NumFields(); i++ {
			if typeName(st.Field(i).Type()) == "EList" && st.NumFields() == 2 {
				return st.Field(i).Name()
			}
		}
	}
	return ""
}

func checkC44(c *Ctx) {
	d := &delegation{c}
	c.Rule("instances", "the wrapping types are the confirmed ones")
	c.Rule("forwards", "an operation of a wrapping collection calls the same operation of the wrapped one, once, with its own arguments in their order, and answers its result")
	c.Rule("view", "what an unresolved view does itself acts on the wrapped list's own elements, without resolving them")
	c.Rule("wraps", "a view stands in front of the very list it was asked from")
	c.Rule("iterator", "an iterator over a list answers the list's elements at consecutive positions, up to its size, and belongs to the list it was asked from")
	c.Rule("fallback", "a registry asks the one behind it the same question, and only when it has no answer itself")
	found := map[string]string{}
	scope := c.Ecore.Types.Scope()
	var all []*types.Named
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || c.isMockFile(tn.Pos()) {
			continue
		}
		if n, ok := tn.Type().(*types.Named); ok {
			if w := d.wrapped(n); w != "" {
				found[name] = w
				all = append(all, n)
			}
		}
	}
	for _, n := range sortedKeys(delegators) {
		c.Decide(found[n] == delegators[n], "instances", n, 0, "confirmed wrapping type not found")
	}
	for _, n := range sortedKeys(found) {
		if delegators[n] == "" {
			c.Bad("instances", n, 0, "a wrapping type that was not confirmed")
		}
	}
	for _, n := range all {
		if delegators[n.Obj().Name()] == "" {
			continue
		}
		field := "l." + found[n.Obj().Name()]
		methods := map[string]*ssa.Function{}
		for i := 0; i < n.NumMethods(); i++ {
			if fn := c.byObj[n.Method(i)]; fn != nil {
				methods[n.Method(i).Name()] = fn
			}
		}
		names := make([]string, 0, len(methods))
		for m := range methods {
			names = append(names, m)
		}
		sort.Strings(names)
		switch {
		case n.Obj().Name() == "listIterator":
			d.iterator(n, methods, field)
		case strings.HasSuffix(n.Obj().Name(), "RegistryImpl"):
			for _, m := range names {
				d.fallback(n, methods[m], field)
			}
		case n.TypeParams().Len() > 0:
			for _, m := range names {
				if u := d.forwards(n, methods[m], m, field); u != "" && d.reaches(methods[m], n) {
					c.Bad("forwards", fname(methods[m]), methods[m].Pos(), "%s", u)
				} else if u == "" {
					c.Ok("forwards", fname(methods[m]), methods[m].Pos())
				}
			}
		default:
			for _, m := range names {
				fn := methods[m]
				if strings.HasPrefix(m, "new") {
					continue
				}
				u := d.forwards(n, fn, m, field)
				switch m {
				case "doGet", "ToArray", "All", "IndexOf", "GetUnResolvedList":
					u = "not its own"
				}
				if !d.reaches(fn, n) && !exported(fn) {
					continue
				}
				if u != "" {
					if v, special := d.view(n, fn, m, field); special {
						u = v
					}
				}
				c.Decide(u == "", "view", fname(fn), fn.Pos(), "%s", u)
			}
			for _, m := range []string{"doGet", "ToArray", "GetUnResolvedList"} {
				if methods[m] == nil {
					c.Bad("view", n.Obj().Name()+"."+m, n.Obj().Pos(), "the operation of the wrapped list resolves what it answers")
				}
			}
			// the elements are reached the same way by everything not declared here
			for _, m := range []string{"IndexOf", "Contains", "Get", "Iterator", "Set", "Size"} {
				if g := c.methodOf(n, m); g != nil && methods[m] == nil {
					r := originName(sigRecv(g))
					c.Decide(r == "AbstractEList" || delegators[r] != "", "view", n.Obj().Name()+" has "+m, g.Pos(), "taken from %s", r)
				}
			}
		}
	}
	d.complete()
	d.wraps()
	c.Floor("forwards", 18)
	c.Floor("view", 10)
	c.Floor("wraps", 2)
	c.Floor("fallback", 3)
	c.Floor("iterator", 4)
}

// reaches: the operation is one of those the wrapped collection has.
func (d *delegation) reaches(fn *ssa.Function, n *types.Named) bool {
	for _, name := range []string{"abstractEList", "abstractENotifyingList"} {
		tn, _ := d.c.Ecore.Types.Scope().Lookup(name).(*types.TypeName)
		if tn == nil {
			continue
		}
		it := tn.Type().Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == fn.Name() {
				return true
			}
		}
	}
	return false
}

// resolving: the routine (or one it calls) resolves proxies.
func (d *delegation) resolving(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, in := range calls(fn) {
		cc := in.Common()
		if n := strings.ToLower(calleeName(cc)); strings.Contains(n, "resolve") && n != "getunresolvedlist" {
			return true
		}
		if g := cc.StaticCallee(); g != nil && d.c.isEcore(pkgPath(g)) && d.resolving(originFunc(g), seen) {
			return true
		}
	}
	return false
}

func (d *delegation) fx(n *types.Named) *fx {
	b := newFx(d.c)
	b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
		r := sigRecv(g)
		if r == nil {
			return false
		}
		o := originName(r)
		// helpers of the wrapping type, and of the one it extends
		return o == n.Obj().Name() || delegators[o] != "" && o != "listIterator" && g.Name() != cc.Value.Name()
	}
	return b
}

func paramSyms(fn *ssa.Function) []string {
	as := []string{"l"}
	for i := range fn.Params[1:] {
		as = append(as, fmt.Sprintf("A%d", i+1))
	}
	return as
}

// forwards: "" when the method only hands on.
func (d *delegation) forwards(n *types.Named, fn *ssa.Function, name, field string) string {
	why, k := "", 0
	b := d.fx(n)
	as := paramSyms(fn)
	b.run(fn, as, nil, func(p *fxPath, res []string) {
		k++
		var calls []fxEvent
		for _, e := range p.events {
			if e.op == "call" && len(e.args) > 0 && e.args[0] == field {
				calls = append(calls, e)
			}
			if e.op == "set" && strings.HasPrefix(e.name, "l.") {
				why = "changes the wrapping collection"
			}
		}
		if len(calls) != 1 {
			why = fmt.Sprintf("calls the wrapped collection %d times", len(calls))
			return
		}
		e := calls[0]
		if e.name != name {
			why = "calls " + e.name + " of the wrapped collection"
			return
		}
		if strings.Join(e.args[1:], ",") != strings.Join(as[1:], ",") {
			why = "hands on other arguments"
			return
		}
		for i, r := range res {
			if len(res) == 1 && r != e.res || len(res) > 1 && r != fmt.Sprintf("%s#%d", e.res, i) {
				why = "answers something else than the result"
			}
		}
	})
	if why == "" && (k == 0 || b.problem != "") {
		why = "not decided " + b.problem
	}
	return why
}

// view: operations of an unresolved view that it does itself.
func (d *delegation) view(n *types.Named, fn *ssa.Function, name, field string) (string, bool) {
	why, k := "", 0
	bad := func(f string, a ...any) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}
	b := d.fx(n)
	as := paramSyms(fn)
	check := func(f func(p *fxPath, res []string)) (string, bool) {
		b.run(fn, as, nil, func(p *fxPath, res []string) {
			k++
			for _, e := range p.events {
				if e.op == "call" && strings.Contains(strings.ToLower(e.name), "resolve") && e.name != "GetUnResolvedList" {
					bad("resolves elements")
				}
			}
			f(p, res)
		})
		if k == 0 || b.problem != "" {
			bad("not decided %s", b.problem)
		}
		return why, true
	}
	stored := func(r string) bool {
		return r == field+".data" || r == "ToArray("+field+".store,"+field+".owner,"+field+".feature)" ||
			strings.HasPrefix(r, "ToArray@") && strings.HasSuffix(r, "("+field+".store,"+field+".owner,"+field+".feature)")
	}
	switch name {
	case "doGet":
		return check(func(p *fxPath, res []string) {
			r := res[0]
			for _, e := range p.events {
				if e.op == "call" && e.cc.StaticCallee() != nil && d.resolving(originFunc(e.cc.StaticCallee()), map[*ssa.Function]bool{}) {
					bad("resolves the element")
				}
			}
			if r != field+".data[A1]" && !(strings.HasPrefix(r, "get") && strings.HasSuffix(r, "("+field+",A1)")) {
				bad("answers %s, not the stored element at the position", r)
			}
		})
	case "ToArray":
		return check(func(p *fxPath, res []string) {
			if r := res[0]; !stored(r) && !(r == "nil" && emptyWrapped(p, field)) {
				bad("answers %s, not the stored elements", r)
			}
		})
	case "All":
		return check(func(p *fxPath, res []string) {
			r := res[0]
			ok := r == "nil" && emptyWrapped(p, field) || strings.HasPrefix(r, "Values") && strings.HasSuffix(r, "("+field+".data)") ||
				strings.HasPrefix(r, "All") && strings.HasSuffix(r, "("+field+".store,"+field+".owner,"+field+".feature)")
			if !ok && !strings.HasPrefix(r, "new:func:") {
				bad("answers %s, not the stored elements", r)
			}
		})
	case "IndexOf":
		return check(func(p *fxPath, res []string) {
			r := res[0]
			if !(strings.HasPrefix(r, "IndexOf") && strings.HasSuffix(r, "(l,A1)")) {
				bad("answers %s, not the position in the view", r)
			}
			for _, e := range p.calls("IndexOf") {
				if g := e.cc.StaticCallee(); g != nil && originName(sigRecv(g)) != "AbstractEList" {
					bad("searches %s", fname(g))
				}
			}
		})
	case "GetUnResolvedList":
		return check(func(p *fxPath, res []string) {
			if res[0] != "l" && res[0] != "l.interfaces" {
				bad("answers another list")
			}
		})
	case "RemoveAll":
		return check(func(p *fxPath, res []string) {
			ev := p.calls("doRemoveAll")
			if len(ev) != 1 || ev[0].args[0] != field || ev[0].args[1] != "A1" || res[0] != ev[0].res {
				bad("does not remove the collection from the wrapped list")
			}
		})
	case "RemoveWithNotification", "SetWithNotification", "AddWithNotification":
		if name != "RemoveWithNotification" {
			return "", false
		}
		return check(func(p *fxPath, res []string) {
			at := ""
			for _, e := range p.calls("IndexOf") {
				if e.args[0] == "l" && e.args[1] == "A1" {
					at = e.res
				}
			}
			for f := range p.facts {
				// found through the view's own search, followed inside
				if strings.HasPrefix(f, "eq:") && strings.Contains(f, "IndexOf") && at == "" {
					bad("searches another element")
				}
			}
			missing, known := p.holds(eqFact(at, "const:-1"))
			if neg, k := p.holds("(" + at + "<const:0)"); k && !known {
				missing, known = neg, k
			}
			var removals []fxEvent
			for _, e := range p.events {
				if e.op == "call" && len(e.args) > 1 && e.args[0] == field && strings.HasPrefix(strings.ToLower(e.name), "doremove") {
					removals = append(removals, e)
				}
			}
			switch {
			case at == "" || !known:
				bad("does not look for the element in the view")
			case missing:
				if len(removals) > 0 || res[0] != "A2" {
					bad("does not answer the chain unchanged for an element that is not in the view")
				}
			default:
				if len(removals) != 1 || removals[0].args[1] != at {
					bad("does not remove the element at its position")
					return
				}
				note := p.calls("createAndAddNotification")
				want := []string{field, "A2", d.c.constName("REMOVE"), removals[0].res, "nil", at}
				if len(note) != 1 || strings.Join(note[0].args, ",") != strings.Join(want, ",") || res[0] != note[0].res {
					bad("does not add the notification of the removal to the chain it answers")
				}
			}
		})
	}
	return "", false
}

func emptyWrapped(p *fxPath, field string) bool {
	d, k1 := p.isNil(field + ".data")
	s, k2 := p.isNil(field + ".store")
	return k1 && d && k2 && s
}

// complete: every operation that lists leave to their implementation is handed on.
func (d *delegation) complete() {
	c := d.c
	for _, w := range [][2]string{{"AbstractDelegatingEList", "abstractEList"}, {"AbstractDelegatingENotifyingList", "abstractENotifyingList"}} {
		n := c.named(w[0])
		tn, _ := c.Ecore.Types.Scope().Lookup(w[1]).(*types.TypeName)
		if n == nil || tn == nil {
			c.Bad("forwards", w[0]+" complete", 0, "not found")
			continue
		}
		it := tn.Type().Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Exported() {
				continue
			}
			has := false
			for k := 0; k < n.NumMethods(); k++ {
				if n.Method(k).Name() == m.Name() {
					has = true
				}
			}
			if w[0] == "AbstractDelegatingENotifyingList" {
				base := c.named("AbstractDelegatingEList")
				for k := 0; k < base.NumMethods(); k++ {
					if base.Method(k).Name() == m.Name() {
						has = true
					}
				}
			}
			if w[0] == "AbstractDelegatingEList" && !strings.HasPrefix(m.Name(), "do") {
				continue
			}
			if strings.HasPrefix(m.Name(), "do") {
				c.Decide(has, "forwards", w[0]+" has "+m.Name(), m.Pos(), "is not handed on to the wrapped list")
			}
		}
		if w[0] == "AbstractDelegatingEList" {
			for _, m := range []string{"Size", "ToArray"} {
				has := false
				for k := 0; k < n.NumMethods(); k++ {
					has = has || n.Method(k).Name() == m
				}
				c.Decide(has, "forwards", w[0]+" has "+m, n.Obj().Pos(), "is not handed on to the wrapped list")
			}
		} else {
			for _, m := range []string{"GetNotifier", "GetFeature", "GetFeatureID", "AddWithNotification", "RemoveWithNotification", "SetWithNotification"} {
				has := false
				for k := 0; k < n.NumMethods(); k++ {
					has = has || n.Method(k).Name() == m
				}
				c.Decide(has, "forwards", w[0]+" has "+m, n.Obj().Pos(), "is not handed on to the wrapped list")
			}
		}
	}
}

// wraps: where views are made.
func (d *delegation) wraps() {
	c := d.c
	for _, fn := range c.Funcs {
		if fn.Name() != "GetUnResolvedList" || fn.Parent() != nil || fn.Signature.Recv() == nil || c.isMockFile(fn.Pos()) {
			continue
		}
		why, k, makes := "", 0, false
		b := newFx(c)
		b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
			if sigRecv(g) != nil || g.Signature.Results().Len() != 1 {
				return false
			}
			return delegators[originName(g.Signature.Results().At(0).Type())] != ""
		}
		b.run(fn, []string{"l"}, nil, func(p *fxPath, res []string) {
			k++
			r := res[0]
			for v := range delegators {
				if strings.HasPrefix(r, "new:"+v+"#") {
					makes = true
					if p.mem[r+".delegate"] != "l" {
						why = "the view stands in front of another list"
					}
					self := p.mem[r+".interfaces"] == r
					for _, e := range p.calls("SetInterfaces") {
						self = self || e.args[0] == r && e.args[1] == r
					}
					if !self {
						why = "the view does not know itself"
					}
				}
			}
		})
		if makes {
			c.Decide(why == "" && b.problem == "", "wraps", fname(fn), fn.Pos(), "%s%s", why, b.problem)
		}
	}
}

func (d *delegation) iterator(n *types.Named, methods map[string]*ssa.Function, field string) {
	c := d.c
	cursor := ""
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isInt(st.Field(i).Type()) {
			cursor = "l." + st.Field(i).Name()
		}
	}
	for _, name := range []string{"HasNext", "Next"} {
		fn := methods[name]
		why, k := "", 0
		b := d.fx(n)
		b.run(fn, []string{"l"}, nil, func(p *fxPath, res []string) {
			k++
			more := "(" + cursor + "<Size(" + field + "))"
			if name == "HasNext" {
				if v, known := p.holds(more); !(res[0] == more || known && res[0] == fmt.Sprintf("const:%v", v)) {
					why = "answers " + res[0]
				}
				if _, changed := p.mem[cursor]; changed {
					why = "moves on"
				}
				return
			}
			if !(strings.HasPrefix(res[0], "Get") && strings.HasSuffix(res[0], "("+field+","+cursor+")")) {
				why = "answers " + res[0] + ", not the element at the cursor"
			}
			if v := p.mem[cursor]; v != "("+cursor+"+const:1)" && v != "(const:1+"+cursor+")" {
				why = "does not move on by one"
			}
		})
		c.Decide(why == "" && k > 0 && b.problem == "", "iterator", fname(fn), fn.Pos(), "%s%s", why, b.problem)
	}
	// where they are made
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || c.isMockFile(fn.Pos()) {
			continue
		}
		res := fn.Signature.Results()
		if fn.Name() != "Iterator" || res.Len() != 1 {
			continue
		}
		why, k, makes := "", 0, false
		b := newFx(c)
		b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
			return sigRecv(g) == nil && g.Signature.Results().Len() == 1 && strings.Contains(strings.ToLower(g.Name()), "iterator")
		}
		b.run(fn, []string{"l"}, nil, func(p *fxPath, res []string) {
			k++
			r := res[0]
			if strings.HasPrefix(r, "new:listIterator#") {
				makes = true
				if v := p.mem[r+field[1:]]; v != "l" && !(strings.HasPrefix(v, "asE") && strings.HasSuffix(v, "(l)")) && v != "l.interfaces" {
					why = "the iterator goes over " + v
				}
				if v, set := p.mem[r+cursor[1:]]; set && v != "const:0" {
					why = "the iterator does not start with the first element"
				}
			}
		})
		if makes {
			c.Decide(why == "" && b.problem == "", "iterator", fname(fn), fn.Pos(), "%s%s", why, b.problem)
		}
	}
}

// fallback: registries.
func (d *delegation) fallback(n *types.Named, fn *ssa.Function, field string) {
	c := d.c
	b := d.fx(n)
	as := paramSyms(fn)
	why, asks := "", false
	var answers []*fxPath
	b.run(fn, as, nil, func(p *fxPath, res []string) {
		for _, e := range p.events {
			if e.op != "call" || len(e.args) == 0 || e.args[0] != field {
				continue
			}
			asks = true
			if e.name != fn.Name() || strings.Join(e.args[1:], ",") != strings.Join(as[1:], ",") {
				why = "asks the registry behind it another question"
			}
			if len(res) == 1 && res[0] != e.res {
				why = "does not answer what the registry behind it answered"
			}
		}
		if len(res) == 1 && res[0] == "nil" {
			answers = append(answers, p)
		}
	})
	if !asks && len(fn.Params) < 2 {
		return
	}
	if !asks {
		if fn.Signature.Results().Len() == 1 && strings.HasPrefix(fn.Name(), "Get") && exported(fn) {
			c.Bad("fallback", fname(fn), fn.Pos(), "never asks the registry behind it")
		}
		return
	}
	for _, p := range answers {
		if v, known := p.isNil(field); !known || !v {
			why = "answers nothing without asking the registry behind it"
		}
	}
	c.Decide(why == "" && b.problem == "", "fallback", fname(fn), fn.Pos(), "%s%s", why, b.problem)
}
