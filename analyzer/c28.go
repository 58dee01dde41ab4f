package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C28", checkC28) }

// Keyed collections: a map type that keeps an index next to the list of its
// entries, and the list types that stand behind it.

// keyedInstances: confirmed instances (index type, list types behind it).
var keyedInstances = map[string]bool{
	"index BasicEMap.mapData": true, "list basicEMapList": true, "list basicEObjectMapList": true, "list eStoreEMapList": true,
}

type keyed struct {
	c     *Ctx
	base  *types.Named // the type holding the index
	index string       // field
	list  string       // embedded list field
	maps  []*types.Named
	lists []*types.Named
	back  map[*types.Named]string // list type: the field leading to its map
}

func (k *keyed) find() {
	c := k.c
	var all []*types.Named
	scope := c.Ecore.Types.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || c.isMockFile(tn.Pos()) {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
			if _, ok := nt.Underlying().(*types.Struct); ok {
				all = append(all, nt)
			}
		}
	}
	for _, n := range all {
		st := n.Underlying().(*types.Struct)
		idx, lst := "", ""
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			if _, ok := fv.Type().Underlying().(*types.Map); ok {
				idx = fv.Name()
			}
			if fv.Embedded() && types.IsInterface(fv.Type()) && fv.Name() == "EList" {
				lst = fv.Name()
			}
		}
		if idx != "" && lst != "" {
			k.base, k.index, k.list = n, idx, lst
		}
	}
	if k.base == nil {
		return
	}
	isMap := map[*types.Named]bool{}
	for _, n := range all {
		if n == k.base || c.embedsNamed(n, k.base.Obj().Name()) {
			k.maps = append(k.maps, n)
			isMap[n] = true
		}
	}
	for _, n := range all {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			if pt, ok := fv.Type().(*types.Pointer); ok && !fv.Embedded() {
				if m, ok := pt.Elem().(*types.Named); ok && isMap[m] && c.methodOf(n, "DidChange") != nil {
					k.lists = append(k.lists, n)
					k.back[n] = fv.Name()
				}
			}
		}
	}
}

// effect: what a path does to the index.
type indexEffect struct {
	kind, key, val string // set, del, nil, empty
}

func (k *keyed) effects(p *fxPath, at string) []indexEffect {
	var r []indexEffect
	cur := at
	for _, e := range p.events {
		switch e.op {
		case "mapset":
			if e.name == cur {
				r = append(r, indexEffect{"set", e.args[0], e.args[1]})
			}
		case "mapdel":
			if e.name == cur {
				r = append(r, indexEffect{"del", e.args[0], ""})
			}
		case "mapclear":
			if e.name == cur {
				r = append(r, indexEffect{"empty", "", ""})
			}
		case "set":
			if e.name == at {
				cur = e.args[0]
				switch {
				case cur == "nil":
					r = append(r, indexEffect{"nil", "", ""})
				case strings.HasPrefix(cur, "new:map"):
					r = append(r, indexEffect{"empty", "", ""})
				default:
					r = append(r, indexEffect{"unknown", "", cur})
				}
			}
		}
	}
	return r
}

// holds: what the index has for the key after the effects: a value, "none",
// "unbuilt" (the next question builds it again) or "as before".
func (k *keyed) after(p *fxPath, eff []indexEffect, key string) string {
	res := "as before"
	for f, v := range p.facts {
		// the path found that the index lacks the key
		if at, ok := strings.CutSuffix(f, ","+key+")"); ok && !v && strings.HasPrefix(at, "in:look(") {
			res = "none"
		}
	}
	for _, e := range eff {
		switch e.kind {
		case "nil":
			res = "unbuilt"
		case "empty":
			res = "none"
		case "unknown":
			res = "unknown"
		case "set":
			if res == "unbuilt" {
				res = "crash"
			}
			if p.same(e.key, key) {
				res = e.val
			}
		case "del":
			if p.same(e.key, key) {
				if res != "unbuilt" {
					res = "none"
				}
			} else if v, known := p.holds(eqFact(e.key, key)); (!known || v) && res != "unbuilt" && res != "as before" && strings.HasPrefix(key, "GetKey(") && strings.HasPrefix(e.key, "GetKey(") {
				// another key that may be the same
				res = "maybe removed"
			}
		}
	}
	return res
}

func (k *keyed) fx() *fx {
	b := newFx(k.c)
	b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
		r := sigRecv(g)
		if r == nil {
			return false
		}
		n := originName(r)
		if n == k.base.Obj().Name() && (g.Name() == "getEntryForKey") {
			return false
		}
		for _, m := range append(append([]*types.Named{}, k.maps...), k.lists...) {
			if m.Obj().Name() == n {
				return true
			}
		}
		return false
	}
	return b
}

func checkC28(c *Ctx) {
	k := &keyed{c: c, back: map[*types.Named]string{}}
	k.find()
	c.Rule("instances", "the keyed collections and the lists behind them are the confirmed ones")
	c.Rule("wired", "every constructor of a keyed collection puts a list behind it that reports to it")
	c.Rule("callback", "when an entry enters, leaves, replaces another or all entries are dropped, the index is updated for its key (or dropped); an index that was not built stays unbuilt")
	c.Rule("asked", "questions are answered from an index that was built, and building it covers every entry")
	c.Rule("put", "Put changes the value of the entry that has the key and the index, or adds one entry made of the key and the value; RemoveKey removes the entry that has the key")
	c.Rule("switched", "when the entries are taken from elsewhere (another store, other cache mode), the index is dropped")
	if k.base == nil {
		c.Bad("instances", "keyed", 0, "no keyed collection found")
		return
	}
	found := map[string]bool{"index " + k.base.Obj().Name() + "." + k.index: true}
	for _, l := range k.lists {
		found["list "+l.Obj().Name()] = true
	}
	for _, n := range keysOf(keyedInstances) {
		c.Decide(found[n], "instances", n, 0, "confirmed keyed collection not found")
	}
	for _, n := range keysOf(found) {
		if !keyedInstances[n] {
			c.Bad("instances", n, 0, "a keyed collection that was not confirmed")
		}
	}
	k.wired()
	for _, l := range k.lists {
		k.callbacks(l)
	}
	k.asked()
	k.put()
	k.switched()
	c.include("C14", "fired", "list operations")
}

// wired: constructors.
func (k *keyed) wired() {
	c := k.c
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Signature.Recv() != nil || c.isMockFile(fn.Pos()) {
			continue
		}
		made := ""
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					for _, m := range k.maps {
						if originName(a.Type()) == m.Obj().Name() {
							made = m.Obj().Name()
						}
					}
				}
			}
		}
		if made == "" {
			continue
		}
		b := newFx(c)
		b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
			if sigRecv(g) == nil {
				for _, l := range k.lists {
					if originName(g.Signature.Results().At(0).Type()) == l.Obj().Name() {
						return true
					}
				}
				return false
			}
			return false
		}
		why := ""
		n := 0
		b.run(fn, nil, nil, func(p *fxPath, res []string) {
			n++
			if len(res) == 0 || !strings.HasPrefix(res[0], "new:"+made) {
				return
			}
			m := res[0]
			l, ok := p.mem[m+"."+k.list]
			if !ok || l == "nil" {
				why = "leaves the collection without a list"
				return
			}
			for _, lt := range k.lists {
				if strings.HasPrefix(l, "new:"+lt.Obj().Name()+"#") {
					if p.mem[l+"."+k.back[lt]] != m {
						why = "the list does not report to the collection it stands behind"
					}
					return
				}
			}
			why = "the list behind the collection is not one that keeps the index (" + l + ")"
		})
		if n == 0 || b.problem != "" {
			why = "not decided " + b.problem
		}
		c.Decide(why == "", "wired", fname(fn), fn.Pos(), "%s", why)
	}
	c.Floor("wired", 3)
}

func (k *keyed) callbacks(l *types.Named) {
	c := k.c
	at := "l." + k.back[l] + "." + k.index
	for _, name := range []string{"DidAdd", "DidSet", "DidRemove", "DidClear", "DidMove", "DidChange"} {
		fn := c.methodOf(l, name)
		key := l.Obj().Name() + "." + name
		if fn == nil {
			c.Bad("callback", key, l.Obj().Pos(), "no callback")
			continue
		}
		why := ""
		bad := func(s string, a ...any) {
			if why == "" {
				why = fmt.Sprintf(s, a...)
			}
		}
		for _, built := range []bool{true, false} {
			b := k.fx()
			n := 0
			var args []string
			switch name {
			case "DidAdd", "DidRemove":
				args = []string{"l", "index", "E"}
			case "DidSet":
				args = []string{"l", "index", "E", "O"}
			case "DidClear":
				args = []string{"l", "old"}
			case "DidMove":
				args = []string{"l", "index", "E", "from"}
			default:
				args = []string{"l"}
			}
			// a promoted callback of the list embedded: same receiver
			b.run(fn, args, map[string]bool{"nil:" + at: !built}, func(p *fxPath, res []string) {
				for f, v := range p.facts {
					if !v && strings.HasPrefix(f, "is:E") || !v && strings.HasPrefix(f, "is:O") {
						return // not an entry
					}
					if v && (f == "nil:E" || f == "nil:O") {
						return
					}
				}
				n++
				eff := k.effects(p, at)
				for _, e := range eff {
					if e.kind == "unknown" {
						bad("the index becomes a map of unknown contents")
					}
				}
				if !built {
					for _, e := range eff {
						if e.kind == "set" {
							bad("writes into an index that was not built (crash)")
						}
						if e.kind == "empty" && name != "DidClear" {
							bad("an index that was not built becomes an empty one that lacks the other entries")
						}
					}
					return
				}
				ke, ko := "GetKey(E)", "GetKey(O)"
				has := k.after(p, eff, ke)
				dropped := len(eff) > 0 && eff[len(eff)-1].kind == "nil"
				switch name {
				case "DidAdd":
					if !dropped && has != "GetValue(E)" {
						bad("after an entry was added the index has %s for its key", has)
					}
				case "DidRemove":
					if !dropped && has != "none" {
						bad("after an entry was removed the index still has its key")
					}
				case "DidSet":
					if !dropped && has != "GetValue(E)" {
						bad("after an entry was replaced the index has %s for the key of the new entry", has)
					}
					// the old key is gone unless it is the new one
					if !dropped && !p.same(ke, ko) {
						gone := false
						for _, e := range eff {
							if e.kind == "del" && p.same(e.key, ko) {
								gone = true
							}
						}
						if k.after(p, nil, ko) == "none" {
							gone = true
						}
						if !gone {
							bad("after an entry was replaced the index still has the key of the old entry")
						}
					}
				case "DidClear":
					cleared := dropped || len(eff) > 0 && eff[len(eff)-1].kind == "empty"
					if !cleared {
						bad("after all entries were dropped the index still has them")
					}
				default:
					if len(eff) > 0 && !dropped {
						bad("changes the index although the entries are the same")
					}
				}
				if name != "DidClear" {
					for _, e := range eff {
						switch {
						case e.kind == "empty":
							bad("empties the index although other entries remain")
						case (e.kind == "set" || e.kind == "del") && !p.same(e.key, ke) && !(name == "DidSet" && p.same(e.key, ko)):
							bad("touches the key of another entry")
						}
					}
				}
			})
			if n == 0 || b.problem != "" {
				bad("not decided %s", b.problem)
			}
		}
		c.Decide(why == "", "callback", key, fn.Pos(), "%s", why)
	}
}

// methods of the keyed collections themselves.
func (k *keyed) methods() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range k.c.Funcs {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || sigRecv(fn) == nil {
			continue
		}
		for _, m := range k.maps {
			if originName(sigRecv(fn)) == m.Obj().Name() {
				r = append(r, fn)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return r
}

func exported(fn *ssa.Function) bool { return fn.Object() != nil && fn.Object().Exported() }

func (k *keyed) asked() {
	c := k.c
	n := 0
	for _, fn := range k.methods() {
		if !exported(fn) || fn.Synthetic != "" {
			continue
		}
		at := "m." + k.index
		args := []string{"m", "K", "V"}[:min(len(fn.Params), 3)]
		if fn.Name() == "ContainsValue" {
			args = []string{"m", "V"}
		}
		why := ""
		bad := func(s string) {
			if why == "" {
				why = s
			}
		}
		reads := false
		for _, built := range []bool{true, false} {
			b := k.fx()
			b.run(fn, args, map[string]bool{"nil:" + at: !built}, func(p *fxPath, res []string) {
				for _, r := range res {
					looked := strings.HasPrefix(r, "look(") || strings.HasPrefix(r, "in:look(")
					own := strings.Contains(r, "look("+at+",") || r == at
					fresh := strings.HasPrefix(r, "new:map") || strings.Contains(r, "look(new:map")
					if own || fresh {
						reads = true
					}
					if own && !built {
						bad("answers from an index that was not built")
					}
					if own && looked && !strings.HasSuffix(r, ",K)") || fresh && looked && !strings.HasSuffix(r, ",K)") {
						bad("looks for another key than the one asked for")
					}
					if fresh && built {
						bad("builds the index again")
					}
					if fresh && !built && p.mem[at] == "nil" {
						bad("does not keep the index it built")
					}
				}
				// building covers every entry
				var iters []fxEvent
				for i, e := range p.events {
					if e.op == "call" && e.name == "Next" || e.op == "round" {
						iters = append(iters, e)
					}
					_ = i
				}
				if !built && strings.HasPrefix(p.mem[at], "new:map") {
					eff := k.effects(p, at)
					for _, it := range iters {
						ent := it.res
						if it.op == "round" {
							ent = it.args[0]
						}
						found := false
						for _, e := range eff {
							if e.kind == "set" && e.key == "GetKey("+ent+")" && e.val == "GetValue("+ent+")" {
								found = true
							}
						}
						if !found {
							bad("an entry can be left out when the index is built")
						}
					}
				}
				for _, e := range p.events {
					if e.op == "stop" && !built && p.mem[at] != "" && p.mem[at] != "nil" {
						bad("entries can be left out when the index is built")
					}
				}
			})
			if b.problem != "" {
				bad("not decided " + b.problem)
			}
		}
		if reads {
			n++
			c.Decide(why == "", "asked", fname(fn), fn.Pos(), "%s", why)
		}
	}
	c.Floor("asked", 3)
	for _, fn := range k.methods() {
		for _, l := range naturalLoops(fn) {
			for _, bl := range fn.Blocks {
				for _, in := range bl.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && l.body[bl] && isAny(mu.Value.Type()) {
						c.Decide(everyRound(l, bl), "asked", fname(fn)+" covers every entry", mu.Pos(), "an entry can be left out when the index is built")
					}
				}
			}
		}
	}
	// somewhere the entries are walked
	walked := false
	for _, fn := range k.methods() {
		b := k.fx()
		b.run(fn, []string{"m"}, map[string]bool{"nil:m." + k.index: true}, func(p *fxPath, res []string) {
			if strings.HasPrefix(p.mem["m."+k.index], "new:map") {
				for _, e := range p.events {
					if e.op == "mapset" && e.name == p.mem["m."+k.index] {
						walked = true
					}
				}
			}
		})
	}
	c.Decide(walked, "asked", "built from the entries", k.base.Obj().Pos(), "nothing builds the index from the entries")
}

func (k *keyed) put() {
	c := k.c
	at := "m." + k.index
	bm := func(name string) *ssa.Function { return c.methodOn(k.base, name) }
	// the entry that has the key
	if fn := bm("getEntryForKey"); fn != nil {
		b := k.fx()
		inner := b.inline
		b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool { return g == fn || inner(g, cc) }
		why, n, hit := "", 0, false
		b.run(fn, []string{"m", "K"}, nil, func(p *fxPath, res []string) {
			n++
			r := res[0]
			if r == "nil" || r == "zero" {
				// no round ended the search with a matching entry or without comparing
				for _, e := range p.events {
					if e.op == "stop" {
						why = "stops looking although the entry did not match"
					}
				}
				for f, v := range p.facts {
					if v && strings.HasPrefix(f, "eq:") && strings.Contains(f, "GetKey(") && strings.Contains(f, "K") {
						why = "answers nothing although an entry has the key"
					}
				}
				return
			}
			hit = true
			if !p.same("GetKey("+r+")", "K") {
				why = "answers an entry without its key being the one asked for"
			}
		})
		if n == 0 || b.problem != "" || !hit {
			why += " not decided " + b.problem
		}
		c.Decide(why == "", "put", fname(fn), fn.Pos(), "%s", why)
	}
	search := func(p *fxPath) (string, bool, bool) {
		ev := p.calls("getEntryForKey")
		if len(ev) != 1 || len(ev[0].args) != 2 || ev[0].args[1] != "K" {
			return "", false, false
		}
		missing, known := p.isNil(ev[0].res)
		return ev[0].res, !missing, known
	}
	if fn := bm("Put"); fn != nil {
		why := ""
		for _, built := range []bool{true, false} {
			b := k.fx()
			n := 0
			b.run(fn, []string{"m", "K", "V"}, map[string]bool{"nil:" + at: !built}, func(p *fxPath, res []string) {
				n++
				e, there, known := search(p)
				if !known {
					why = "does not look for the entry that has the key"
					return
				}
				eff := k.effects(p, at)
				for _, x := range eff {
					if x.kind == "set" && !built {
						why = "writes into an index that was not built (crash)"
					}
				}
				if there {
					sets := p.calls("SetValue")
					if len(sets) != 1 || sets[0].args[0] != e || sets[0].args[1] != "V" {
						why = "does not give the entry that has the key the value"
					}
					if built {
						a := k.after(p, eff, "K")
						if a == "as before" {
							a = k.after(p, eff, "GetKey("+e+")")
						}
						if a != "V" && a != "unbuilt" && a != "GetValue("+e+")" {
							why = "changes the value of an entry and leaves the index as it was"
						}
					}
					if len(p.calls("Add")) > 0 || len(p.calls("newEntry")) > 0 {
						why = "adds a second entry for the key"
					}
					return
				}
				adds := p.calls("Add")
				made := p.calls("newEntry")
				if len(adds) != 1 || len(made) != 1 {
					why = "does not add an entry for a key that has none"
					return
				}
				as := made[0].args
				if len(as) != 3 || as[1] != "K" || as[2] != "V" {
					why = "the entry added is not made of the key and the value"
				}
				if a := adds[0].args; a[len(a)-1] != made[0].res {
					why = "does not add the entry it made"
				}
				if len(as) == 3 && as[0] == "m" && len(k.maps) > 1 {
					why = "makes the entry itself instead of asking the collection it is part of"
				}
			})
			if n == 0 || b.problem != "" {
				why += " not decided " + b.problem
			}
		}
		c.Decide(why == "", "put", fname(fn), fn.Pos(), "%s", why)
	}
	if fn := bm("RemoveKey"); fn != nil {
		why, n := "", 0
		b := k.fx()
		b.run(fn, []string{"m", "K"}, nil, func(p *fxPath, res []string) {
			n++
			e, there, known := search(p)
			if !known {
				why = "does not look for the entry that has the key"
				return
			}
			rem := p.calls("Remove")
			if !there {
				if len(rem) > 0 || res[0] != "nil" {
					why = "answers or removes something for a key that has no entry"
				}
				return
			}
			if len(rem) != 1 || rem[0].args[len(rem[0].args)-1] != e {
				why = "does not remove the entry that has the key"
			}
			if res[0] != "GetValue("+e+")" {
				why = "does not answer the value of the entry removed"
			}
		})
		if n == 0 || b.problem != "" {
			why += " not decided " + b.problem
		}
		c.Decide(why == "", "put", fname(fn), fn.Pos(), "%s", why)
	}
	if fn := bm("ContainsValue"); fn != nil {
		why, n := "", 0
		b := k.fx()
		b.run(fn, []string{"m", "V"}, nil, func(p *fxPath, res []string) {
			n++
			match := false
			for f, v := range p.facts {
				if v && strings.HasPrefix(f, "eq:") && strings.Contains(f, "GetValue(") && (strings.HasSuffix(f, "|V") || strings.HasPrefix(f, "eq:V|")) {
					match = true
				}
			}
			switch res[0] {
			case "const:true":
				if !match {
					why = "answers yes without an entry that has the value"
				}
			case "const:false":
				if match {
					why = "answers no although an entry has the value"
				}
				for _, e := range p.events {
					if e.op == "stop" {
						why = "stops looking although the entry did not match"
					}
				}
				// left while there were more entries
				for i := len(p.events) - 1; i >= 0; i-- {
					if e := p.events[i]; e.op == "call" && e.name == "HasNext" {
						if v, known := p.holds(e.res); known && v {
							why = "stops looking although there are more entries"
						}
						break
					} else if e.op == "call" && e.name == "Next" {
						why = "stops looking although there may be more entries"
						break
					}
				}
			}
		})
		if n == 0 || b.problem != "" {
			why += " not decided " + b.problem
		}
		c.Decide(why == "", "put", fname(fn), fn.Pos(), "%s", why)
	}
	// new entries carry the key and the value
	entries := 0
	for _, fn := range k.methods() {
		if fn.Name() != "newEntry" || fn.Synthetic != "" {
			continue
		}
		entries++
		why, n := "", 0
		b := k.fx()
		b.run(fn, []string{"m", "K", "V"}, nil, func(p *fxPath, res []string) {
			n++
			r := res[0]
			got := map[string]string{}
			for _, e := range p.events {
				if e.op == "call" && len(e.args) == 2 && e.args[0] == r && (e.name == "SetKey" || e.name == "SetValue") {
					got[e.name] = e.args[1]
				}
			}
			if strings.HasPrefix(r, "new:") {
				for a, v := range p.mem {
					if a == r+".key" {
						got["SetKey"] = v
					}
					if a == r+".value" {
						got["SetValue"] = v
					}
				}
			}
			if got["SetKey"] != "K" || got["SetValue"] != "V" {
				why = "the new entry does not have the key and the value"
			}
		})
		if n == 0 || b.problem != "" {
			why += " not decided " + b.problem
		}
		c.Decide(why == "", "put", fname(fn), fn.Pos(), "%s", why)
	}
	c.Floor("put", 7)
}

// switched: operations of a keyed collection that change where its list takes
// the entries from.
func (k *keyed) switched() {
	c := k.c
	n := 0
	for _, fn := range k.methods() {
		if fn.Synthetic != "" {
			continue
		}
		at := "m." + k.index
		why, any := "", false
		b := k.fx()
		b.run(fn, []string{"m", "X"}, map[string]bool{"nil:" + at: false}, func(p *fxPath, res []string) {
			moved := -1
			last := -1
			for i, e := range p.events {
				if e.op == "call" && (e.name == "SetEStore" || e.name == "SetCache") && strings.HasPrefix(e.args[0], "m."+k.list) {
					moved = i
				}
				if e.op == "set" && e.name == at && e.args[0] == "nil" {
					last = i
				}
			}
			if moved >= 0 {
				any = true
				if last < 0 {
					why = "the index keeps the entries of the former source"
				}
			}
		})
		if any {
			n++
			c.Decide(why == "" && b.problem == "", "switched", fname(fn), fn.Pos(), "%s%s", why, b.problem)
		}
	}
	c.Floor("switched", 2)
}
