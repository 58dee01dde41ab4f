package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C43", checkC43) }

// Adapters and what they are told, on the side of the adapter lists and on the
// side of the content adapter.

type adapting struct {
	c    *Ctx
	kind map[string]string // event type: constant symbol
}

// adapterInstances: confirmed instances.
var adapterInstances = map[string]bool{"notifierAdapterList": true}

func (a *adapting) events() {
	sc := a.c.Ecore.Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && typeName(k.Type()) == "EventType" {
			a.kind[n] = "const:" + constant.ToInt(k.Val()).ExactString()
		}
	}
}

// named struct types whose pointer implements the interface, test doubles aside.
func (c *Ctx) structsWith(method ...string) []*types.Named {
	var r []*types.Named
	sc := c.Ecore.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || c.isMockFile(tn.Pos()) {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		all := true
		for _, m := range method {
			if c.methodOf(nt, m) == nil {
				all = false
			}
		}
		if all {
			r = append(r, nt)
		}
	}
	return r
}

func (c *Ctx) constName(name string) string {
	k, ok := c.Ecore.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return "?"
	}
	return "const:" + constant.ToInt(k.Val()).ExactString()
}

// own: helpers of the same type (or plain functions that make its notifications) are followed.
func own(names ...string) func(g *ssa.Function, cc *ssa.CallCommon) bool {
	return func(g *ssa.Function, cc *ssa.CallCommon) bool {
		r := sigRecv(g)
		if r == nil {
			return false
		}
		n := originName(r)
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return false
	}
}

func checkC43(c *Ctx) {
	a := &adapting{c: c, kind: map[string]string{}}
	a.events()
	c.Rule("instances", "the adapter lists are the confirmed ones")
	c.Rule("list", "an adapter that enters a list is given the notifier as target; one that leaves it is told (unless the notifier does not deliver) and its target is unset")
	c.Rule("created", "the adapters of a notifier are kept in such a list, which knows the notifier")
	c.Rule("target", "an adapter keeps the target it is given until that target is unset")
	c.Rule("observed", "a content adapter enters and leaves elements for every kind of notification about contained elements, and no others")
	c.Rule("contents", "attaching or detaching a content adapter covers every element of the contents")
	c.Rule("delivered", "a notification reaches every adapter of a notifier that delivers")
	a.lists()
	a.created()
	a.targets()
	a.content()
	a.delivered()
	c.include("C14", "fired", "list operations")
}

// lists: types of lists that set targets.
func (a *adapting) lists() {
	c := a.c
	found := map[string]bool{}
	var lists []*types.Named
	for _, n := range c.structsWith("DidAdd", "DidRemove", "DidClear", "DidSet") {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if originName(st.Field(i).Type()) == "AbstractENotifier" && !st.Field(i).Embedded() {
				found[n.Obj().Name()] = true
				lists = append(lists, n)
			}
		}
	}
	for _, n := range keysOf(adapterInstances) {
		c.Decide(found[n], "instances", n, 0, "confirmed adapter list not found")
	}
	for _, n := range keysOf(found) {
		if !adapterInstances[n] {
			c.Bad("instances", n, 0, "an adapter list that was not confirmed")
		}
	}
	for _, l := range lists {
		back := ""
		st := l.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if originName(st.Field(i).Type()) == "AbstractENotifier" {
				back = st.Field(i).Name()
			}
		}
		for _, name := range []string{"DidAdd", "DidRemove", "DidSet", "DidClear"} {
			fn := c.methodOf(l, name)
			why, n := "", 0
			bad := func(f string, args ...any) {
				if why == "" {
					why = fmt.Sprintf(f, args...)
				}
			}
			var args []string
			switch name {
			case "DidAdd", "DidRemove":
				args = []string{"l", "index", "E"}
			case "DidSet":
				args = []string{"l", "index", "E", "O"}
			case "DidClear":
				args = []string{"l", "Old"}
			}
			b := newFx(c)
			b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
				if own(l.Obj().Name())(g, cc) {
					return true
				}
				if r := sigRecv(g); r != nil {
					return originName(r) == "AbstractENotifier" && (strings.HasPrefix(g.Name(), "As") || g.Name() == "GetInterfaces")
				}
				// makes a notification
				res := g.Signature.Results()
				return res.Len() == 1 && strings.Contains(originName(res.At(0).Type()), "otification")
			}
			notifier := "l." + back + ".interfaces"
			b.run(fn, args, nil, func(p *fxPath, res []string) {
				if notAdapter(p) {
					return
				}
				n++
				enter, leave := []string{}, []string{}
				switch name {
				case "DidAdd":
					enter = append(enter, "E")
				case "DidRemove":
					leave = append(leave, "E")
				case "DidSet":
					enter, leave = append(enter, "E"), append(leave, "O")
					if p.same("E", "O") {
						return
					}
				case "DidClear":
					els, whole := elementsOf(p, "Old")
					leave = els
					if !whole {
						bad("can leave adapters out")
					}
				}
				for _, e := range enter {
					ok := false
					for _, ev := range p.calls("SetTarget") {
						if ev.args[0] == e && ev.args[1] == notifier {
							ok = true
						}
					}
					if !ok {
						bad("an adapter that enters is not given the notifier as target")
					}
				}
				for _, e := range leave {
					told, unset := -1, -1
					for i, ev := range p.events {
						if ev.op != "call" || len(ev.args) < 2 || ev.args[0] != e {
							continue
						}
						switch ev.name {
						case "UnSetTarget":
							if ev.args[1] == notifier {
								unset = i
							}
						case "SetTarget":
							if ev.args[1] == "nil" {
								unset = i
							} else {
								bad("an adapter that leaves is given a target")
							}
						case "NotifyChanged":
							told = i
							nn := ev.args[1]
							if !strings.HasPrefix(nn, "new:") {
								bad("tells an adapter that leaves something else than its removal")
								continue
							}
							if p.mem[nn+".eventType"] != a.kind["REMOVING_ADAPTER"] {
								bad("does not say that the adapter is being removed")
							}
							if p.mem[nn+".oldValue"] != e {
								bad("the notification names another adapter")
							}
							if v := p.mem[nn+".newValue"]; v != "nil" && v != "" {
								bad("the notification of a removal has a new value")
							}
							if p.mem[nn+"."+back] != "l."+back {
								bad("the notification names another notifier")
							}
						}
					}
					if unset < 0 {
						bad("an adapter that leaves keeps its target")
					}
					silent := false
					for f, v := range p.facts {
						if strings.HasPrefix(f, "EDeliver(") && !v {
							silent = true
						}
					}
					if told < 0 && !silent {
						bad("an adapter that leaves is not told")
					}
					if told >= 0 && unset >= 0 && unset < told {
						bad("the target is unset before the adapter is told")
					}
					for f, v := range p.facts {
						if v && f == "nil:"+e {
							bad("not decided")
						}
					}
				}
				if name == "DidAdd" && len(p.calls("UnSetTarget")) > 0 {
					bad("unsets a target when an adapter enters")
				}
			})
			if n == 0 || b.problem != "" {
				bad("not decided %s", b.problem)
			}
			c.Decide(why == "", "list", l.Obj().Name()+"."+name, fn.Pos(), "%s", why)
		}
	}
}

func notAdapter(p *fxPath) bool {
	for f, v := range p.facts {
		if !v && strings.HasPrefix(f, "is:E:") || !v && strings.HasPrefix(f, "is:O:") || v && (f == "nil:E" || f == "nil:O") {
			return true
		}
	}
	return false
}

var indexed = regexp.MustCompile(`^\((.*)<len\((.*)\)\)$`)

// elementsOf: the elements of a slice that the path went through, and whether
// it went through to the end.
func elementsOf(p *fxPath, coll string) (els []string, whole bool) {
	for f, v := range p.facts {
		m := indexed.FindStringSubmatch(f)
		if m == nil || m[2] != coll {
			continue
		}
		if v {
			els = append(els, coll+"["+m[1]+"]")
		} else {
			whole = true
		}
	}
	if v, known := p.holds("nil:" + coll); known && v {
		whole = true
	}
	if v, known := p.holds(eqFact("len("+coll+")", "const:0")); known && v {
		whole = true
	}
	sort.Strings(els)
	return
}

func (a *adapting) created() {
	c := a.c
	n := 0
	for _, t := range c.structsWith("EAdapters", "EDeliver") {
		fn := c.methodOn(t, "EAdapters")
		if fn == nil || t.Obj().Name() == "AbstractENotifier" {
			continue
		}
		n++
		why, seen, made := "", 0, false
		b := newFx(c)
		b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
			r := sigRecv(g)
			if r == nil {
				res := g.Signature.Results()
				return res.Len() == 1 && adapterInstances[originName(res.At(0).Type())]
			}
			return false
		}
		b.run(fn, []string{"o"}, nil, func(p *fxPath, res []string) {
			seen++
			r := res[0]
			if strings.HasPrefix(r, "new:") {
				for k := range adapterInstances {
					if strings.HasPrefix(r, "new:"+k+"#") {
						made = true
					}
				}
				ok := false
				for at, v := range p.mem {
					if strings.HasPrefix(at, r+".") && v == "o" {
						ok = true
					}
				}
				if !ok {
					why = "the list does not know the notifier"
				}
				kept := false
				for _, e := range p.events {
					if e.op == "set" && strings.HasPrefix(e.name, "o.") && e.args[0] == r {
						kept = true
					}
					if e.op == "call" && e.args[len(e.args)-1] == r && e.args[0] == "o" {
						kept = true
					}
				}
				if !kept {
					why = "answers a list that is not kept"
				}
			} else if v, known := p.isNil(r); !known || v {
				why = "answers " + r + ", which may be nil"
			}
		})
		if !made {
			why += " never makes an adapter list"
		}
		c.Decide(why == "" && seen > 0 && b.problem == "", "created", fname(fn), fn.Pos(), "%s%s", why, b.problem)
	}
	c.Floor("created", 3)
}

func (a *adapting) targets() {
	c := a.c
	t := c.named("AbstractEAdapter")
	for _, name := range []string{"SetTarget", "UnSetTarget", "GetTarget"} {
		fn := c.methodOn(t, name)
		if fn == nil {
			c.Bad("target", "AbstractEAdapter."+name, 0, "not found")
			continue
		}
		why, n := "", 0
		b := newFx(c)
		b.inline = own("AbstractEAdapter")
		field := ""
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if typeName(st.Field(i).Type()) == "ENotifier" {
				field = "a." + st.Field(i).Name()
			}
		}
		b.run(fn, []string{"a", "N"}, nil, func(p *fxPath, res []string) {
			n++
			v, set := p.mem[field]
			switch name {
			case "SetTarget":
				if v != "N" {
					why = "does not keep the target"
				}
			case "GetTarget":
				if res[0] != field {
					why = "answers something else than the target"
				}
			default:
				if p.same("N", field) {
					if v != "nil" {
						why = "keeps the target that is unset"
					}
				} else if set {
					eq, known := p.holds(eqFact("N", field))
					if !known || !eq {
						why = "loses a target that is not the one unset"
					}
				}
			}
		})
		c.Decide(why == "" && n > 0 && b.problem == "", "target", "AbstractEAdapter."+name, fn.Pos(), "%s%s", why, b.problem)
	}
	// adapters that do more keep doing this
	for _, n := range c.structsWith("NotifyChanged", "SetTarget", "UnSetTarget") {
		if n.Obj().Name() == "AbstractEAdapter" {
			continue
		}
		for _, name := range []string{"SetTarget", "UnSetTarget"} {
			fn := c.methodOn(n, name)
			if fn == nil {
				continue
			}
			why, k := "", 0
			b := newFx(c)
			b.rounds = 1
			b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool { return false }
			b.run(fn, []string{"a", "N"}, nil, func(p *fxPath, res []string) {
				k++
				ok := false
				for _, e := range p.calls(name) {
					if len(e.args) == 2 && e.args[0] == "a" && e.args[1] == "N" && e.cc.StaticCallee() != nil {
						ok = true
					}
				}
				if !ok {
					why = "can leave the target of the adapter as it was"
				}
			})
			c.Decide(why == "" && k > 0, "target", fname(fn), fn.Pos(), "%s", why)
		}
	}
}

// content: the content adapter.
func (a *adapting) content() {
	c := a.c
	t := c.named("EContentAdapter")
	if t == nil {
		c.Bad("observed", "EContentAdapter", 0, "not found")
		return
	}
	self := "a.interfaces"
	newB := func() *fx {
		b := newFx(c)
		b.limit = 200000
		b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
			return own("EContentAdapter")(g, cc)
		}
		return b
	}
	// what happened to an element on a path
	added := func(p *fxPath, x string) bool {
		if v, known := p.isNil(x); known && v {
			return true
		}
		if v, known := p.holds("is:" + x + ":ENotifier"); known && !v {
			return true
		}
		if v, known := p.holds("Contains(EAdapters(" + x + ")," + self + ")"); known && v {
			return true
		}
		for _, e := range p.calls("Add") {
			if e.args[0] == "EAdapters("+x+")" && e.args[1] == self {
				return true
			}
		}
		return false
	}
	removed := func(p *fxPath, x string) (yes, excused bool) {
		for _, e := range p.calls("Remove") {
			if e.args[0] == "EAdapters("+x+")" && e.args[1] == self {
				return true, false
			}
		}
		if v, known := p.isNil(x); known && v {
			return false, true
		}
		if v, known := p.holds("is:" + x + ":ENotifier"); known && !v {
			return false, true
		}
		for _, holder := range []string{"EInternalResource", "EInternalContainer", "EResource", "EContainer"} {
			if v, known := p.holds("Contains(EAdapters(" + holder + "(" + x + "))," + self + ")"); known && v {
				return false, true
			}
		}
		return false, false
	}
	// asked: the path found that the holder of the element is not observed
	asked := func(p *fxPath, holder, x string) bool {
		for f, v := range p.facts {
			if !v && strings.HasPrefix(f, "is:"+x+":EObject") {
				return true // no object, no holder
			}
			if v && strings.HasPrefix(f, "nil:") && (f == "nil:"+holder+"("+x+")" || f == "nil:"+x) {
				return true
			}
			if !v && f == "Contains(EAdapters("+holder+"("+x+")),"+self+")" {
				return true
			}
		}
		return false
	}
	kinds := []struct{ face, feature string }{{"EObject", ""}, {"EResource", "RESOURCE__CONTENTS"}, {"EResourceSet", "RESOURCE_SET__RESOURCES"}}
	fn := c.methodOf(t, "NotifyChanged")
	newV, oldV := "GetNewValue(n)", "GetOldValue(n)"
	for _, k := range kinds {
		for _, ev := range sortedKeys(a.kind) {
			if strings.HasPrefix(ev, "EVENT_") || ev == "NO_FEATURE_ID" {
				continue
			}
			for _, inside := range []bool{true, false} {
				if k.face != "EObject" && !inside {
					continue
				}
				facts := map[string]bool{"nil:GetNotifier(n)": false, "nil:GetFeature(n)": k.face != "EObject", "is:GetFeature(n):EReference": k.face == "EObject"}
				for _, o := range kinds {
					facts["is:GetNotifier(n):"+o.face] = o.face == k.face
				}
				for e, v := range a.kind {
					facts[eqFact("GetEventType(n)", v)] = e == ev
				}
				if k.face == "EObject" {
					facts["IsContainment(GetFeature(n))"] = inside
				} else {
					facts[eqFact("GetFeatureID(n)", c.constName(k.feature))] = true
				}
				why, n := "", 0
				bad := func(f string, args ...any) {
					if why == "" {
						why = fmt.Sprintf(f, args...)
					}
				}
				b := newB()
				b.run(fn, []string{"a", "n"}, facts, func(p *fxPath, res []string) {
					n++
					var ins, outs []string
					whole := true
					switch ev {
					case "ADD":
						ins = append(ins, newV)
					case "REMOVE":
						outs = append(outs, oldV)
					case "SET", "UNSET":
						ins, outs = append(ins, newV), append(outs, oldV)
					case "ADD_MANY":
						ins, whole = elementsOf(p, newV)
					case "REMOVE_MANY":
						outs, whole = elementsOf(p, oldV)
					case "RESOLVE":
						had, known := p.holds("Contains(EAdapters(" + oldV + ")," + self + ")")
						if isn, k := p.isNil(oldV); k && isn {
							had, known = false, true
						}
						if !known && inside {
							bad("does not ask whether the unresolved element was observed")
						}
						if had {
							ins, outs = append(ins, newV), append(outs, oldV)
						}
					}
					if !inside {
						ins, outs = nil, nil
						whole = true
					}
					if !whole {
						// the value is not a list of elements
						for f, v := range p.facts {
							if !v && (strings.HasPrefix(f, "is:"+newV+":") || strings.HasPrefix(f, "is:"+oldV+":")) {
								whole = true
							}
						}
					}
					if !whole {
						bad("can leave elements out")
					}
					for _, x := range ins {
						if !added(p, x) {
							bad("an element that enters is not observed")
						}
					}
					for _, x := range outs {
						yes, excused := removed(p, x)
						if !yes && !excused {
							bad("an element that leaves is still observed")
						}
						if yes && ev != "RESOLVE" && ins == nil {
							holder := "EInternalResource"
							if k.face == "EResource" {
								holder = "EInternalContainer"
							}
							if k.face != "EResourceSet" && !asked(p, holder, x) {
								bad("an element is given up without asking whether its %s is still observed", strings.ToLower(strings.TrimPrefix(holder, "EInternal")))
							}
						}
					}
					want := func(list []string, at string) bool {
						for _, x := range list {
							if "EAdapters("+x+")" == at {
								return true
							}
						}
						return false
					}
					for _, e := range p.events {
						if e.op != "call" || e.name != "Add" && e.name != "Remove" || len(e.args) != 2 || !strings.HasPrefix(e.args[0], "EAdapters(") {
							continue
						}
						if e.args[1] != self {
							bad("attaches or detaches something else than the adapter")
						}
						if e.name == "Add" && !want(ins, e.args[0]) {
							bad("an element is observed that did not enter")
						}
						if e.name == "Remove" && !want(outs, e.args[0]) {
							bad("an element is given up that did not leave")
						}
					}
				})
				if n == 0 || b.problem != "" {
					bad("not decided %s", b.problem)
				}
				key := k.face + " " + ev
				if !inside {
					key += " of another feature"
				}
				c.Decide(why == "", "observed", key, fn.Pos(), "%s", why)
			}
		}
	}
	// attaching and detaching
	for _, name := range []string{"SetTarget", "UnSetTarget"} {
		fn := c.methodOf(t, name)
		for _, k := range []struct{ face, list string }{{"EObject", "EContents"}, {"EResource", "GetContents"}, {"EResourceSet", "GetResources"}} {
			for _, resolve := range []bool{true, false} {
				facts := map[string]bool{"nil:N": false, "a.resolveProxies": resolve}
				for _, o := range kinds {
					facts["is:N:"+o.face] = o.face == k.face
				}
				why, n, walked := "", 0, false
				bad := func(f string, args ...any) {
					if why == "" {
						why = fmt.Sprintf(f, args...)
					}
				}
				b := newB()
				b.run(fn, []string{"a", "N"}, facts, func(p *fxPath, res []string) {
					for f, v := range p.facts {
						if v && strings.HasPrefix(f, "nil:Iterator") {
							return
						}
					}
					n++
					var els []string
					src := ""
					for i, e := range p.events {
						switch {
						case e.op == "call" && e.name == "Next":
							els = append(els, e.res)
							src = e.args[0]
						case e.op == "round":
							els = append(els, e.args[0])
							src = e.name
						case e.op == "call" && e.name == "HasNext":
							src = e.args[0]
							if v, known := p.holds(e.res); !known || v {
								later := false
								for _, x := range p.events[i+1:] {
									if x.op == "call" && x.name == "HasNext" {
										later = true
									}
								}
								if !later {
									bad("can leave elements out")
								}
							}
						case e.op == "stop":
							bad("can leave elements out")
						case e.op == "call" && (e.name == "All" || e.name == "ToArray"):
							src = e.res
						}
					}
					if e2, whole := sliceRound(p); len(e2) > 0 || whole {
						els = append(els, e2...)
						if !whole {
							bad("can leave elements out")
						}
					}
					if !strings.Contains(src, k.list+"(N)") {
						bad("does not go through the contents")
					}
					for _, x := range els {
						walked = true
						if name == "SetTarget" {
							proxy, _ := p.holds("EIsProxy(" + x + ")")
							if !added(p, x) && !(proxy && !resolve && k.face == "EObject") {
								bad("an element of the contents is not observed")
							}
						} else if yes, excused := removed(p, x); !yes && !excused {
							bad("an element of the contents is still observed")
						}
					}
					if name == "SetTarget" && k.face == "EObject" && !resolve && !strings.Contains(src, "GetUnResolvedList(") {
						bad("resolves proxies although it must not")
					}
				})
				if n == 0 || b.problem != "" || !walked {
					bad("not decided %s", b.problem)
				}
				c.Decide(why == "", "contents", fmt.Sprintf("%s %s resolve=%v", name, k.face, resolve), fn.Pos(), "%s", why)
			}
		}
	}
}

// sliceRound: elements of slices the path went through.
func sliceRound(p *fxPath) (els []string, whole bool) {
	for f, v := range p.facts {
		m := indexed.FindStringSubmatch(f)
		if m == nil {
			continue
		}
		if v {
			els = append(els, m[2]+"["+m[1]+"]")
		} else {
			whole = true
		}
	}
	sort.Strings(els)
	return
}

// delivered: ENotify.
func (a *adapting) delivered() {
	c := a.c
	fn := c.methodOn(c.named("AbstractENotifier"), "ENotify")
	why, n, walked := "", 0, false
	b := newFx(c)
	b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
		return own("AbstractENotifier")(g, cc)
	}
	b.run(fn, []string{"o", "n"}, nil, func(p *fxPath, res []string) {
		n++
		var els []string
		open := false
		walk := false
		for _, e := range p.events {
			switch {
			case e.op == "call" && e.name == "Next":
				els = append(els, e.res)
				open = true
			case e.op == "round":
				els = append(els, e.args[0])
			case e.op == "call" && e.name == "HasNext":
				walk = true
				v, known := p.holds(e.res)
				open = !known || v
			case e.op == "stop":
				open = true
			case e.op == "call" && (e.name == "All" || e.name == "ToArray"):
				walk = true
			}
		}
		els2, whole := sliceRound(p)
		if len(els2) > 0 || whole {
			els = append(els, els2...)
			open = open || !whole
			walk = true
		}
		if open {
			why = "can leave adapters out"
		}
		for _, x := range els {
			walked = true
			ok := false
			for _, e := range p.calls("NotifyChanged") {
				if e.args[0] == x && e.args[1] == "n" {
					ok = true
				}
			}
			if !ok {
				why = "an adapter is not told"
			}
		}
		if !walk {
			excused := false
			for f, v := range p.facts {
				if v && strings.HasPrefix(f, "nil:E") || !v && strings.HasPrefix(f, "EDeliver(") || v && strings.HasPrefix(f, "Empty(") || !v && strings.HasPrefix(f, "EBasicHasAdapters(") || !v && strings.HasPrefix(f, "ENotificationRequired(") {
					excused = true
				}
				if v && strings.HasPrefix(f, "nil:") {
					excused = true
				}
			}
			if !excused {
				why = "can end without telling anybody"
			}
		}
	})
	if !walked {
		why += " not decided"
	}
	c.Decide(why == "" && n > 0 && b.problem == "", "delivered", "AbstractENotifier.ENotify", fn.Pos(), "%s%s", why, b.problem)
}
