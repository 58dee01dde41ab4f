package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C11", checkC11) }

type listOp struct {
	kind     string // add, remove, set, move
	inverses []string
}

var listOps = map[string]listOp{
	"doAdd":                  {"add", []string{"inverseAdd"}},
	"doAddAll":               {"add", []string{"inverseAdd"}},
	"doInsert":               {"add", []string{"inverseAdd"}},
	"doInsertAll":            {"add", []string{"inverseAdd"}},
	"doSet":                  {"set", []string{"inverseAdd", "inverseRemove"}},
	"doClear":                {"remove", []string{"inverseRemove"}},
	"doRemove":               {"remove", []string{"inverseRemove"}},
	"doRemoveRange":          {"remove", []string{"inverseRemove"}},
	"RemoveAll":              {"remove", []string{"inverseRemove"}},
	"doMove":                 {"move", nil},
	"AddWithNotification":    {"add", nil},
	"RemoveWithNotification": {"remove", nil},
	"SetWithNotification":    {"set", nil},
}

var eventKinds = map[string]string{"ADD": "add", "ADD_MANY": "add", "REMOVE": "remove", "REMOVE_MANY": "remove", "SET": "set", "MOVE": "move", "UNSET": "unset", "RESOLVE": "resolve", "REMOVING_ADAPTER": "removing"}

// eventTypeOf names the EventType constant v holds.
func (p *Program) eventTypeOf(v ssa.Value) string {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || typeName(k.Type()) != "EventType" {
		return ""
	}
	names, _ := p.memo["eventTypes"].(map[string]string)
	if names == nil {
		names = map[string]string{}
		sc := p.Ecore.Types.Scope()
		for _, n := range sc.Names() {
			if c, ok := sc.Lookup(n).(*types.Const); ok && typeName(c.Type()) == "EventType" {
				if _, dup := names[c.Val().ExactString()]; !dup || eventKinds[n] != "" {
					names[c.Val().ExactString()] = n
				}
			}
		}
		p.memo["eventTypes"] = names
	}
	return names[k.Value.ExactString()]
}

// notificationArgs: a call that builds a notification of a constant kind.
func (p *Program) notificationArgs(cc *ssa.CallCommon) (kind string, at int) {
	for i, a := range cc.Args {
		if n := p.eventTypeOf(a); n != "" {
			return n, i
		}
	}
	return "", -1
}

func isChangeCall(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	if strings.HasPrefix(n, "perform") && len(n) > 7 {
		return true
	}
	if strings.HasPrefix(n, "do") && !cc.IsInvoke() {
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			r := recvTypeName(f.Signature.Recv().Type())
			if _, isOp := listOps[n]; isOp && (r == "BasicEList" || r == "AbstractEList") {
				return true
			}
		}
	}
	return false
}

// notifyingListTypes: struct types whose pointer is a notifying list with its own
// inverse handling.
func (p *Program) notifyingListMethods() []*ssa.Function {
	var out []*ssa.Function
	o := p.Ecore.Types.Scope().Lookup("abstractENotifyingList")
	if o == nil {
		return nil
	}
	iface := o.Type().Underlying().(*types.Interface)
	for _, fn := range p.Funcs {
		r := fn.Signature.Recv()
		if r == nil || fn.Parent() != nil {
			continue
		}
		n := namedStruct(r.Type())
		if n == nil {
			continue
		}
		if types.Implements(types.NewPointer(n), iface) || p.wrapsNotifying(n, iface) {
			out = append(out, fn)
		}
	}
	return out
}

// wrapsNotifying: n has a field (embedded or not) that is a notifying list it acts
// upon.
func (p *Program) wrapsNotifying(n *types.Named, iface *types.Interface) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	return ms.Lookup(p.Ecore.Types, "RemoveWithNotification") != nil
}

func waivedByEmptiness(br *ssa.If, taken bool) bool {
	if _, zero, ok := lenTest(br.Cond, taken); ok && zero {
		return true
	}
	cond := br.Cond
	neg := false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		cond = u.X
	}
	t := taken != neg
	switch x := cond.(type) {
	case *ssa.Call:
		return calleeName(&x.Call) == "Empty" && t
	case *ssa.BinOp:
		eq := x.Op == token.EQL
		if x.Op != token.EQL && x.Op != token.NEQ {
			if x.Op == token.LSS || x.Op == token.GEQ {
				// index < 0 : not found
				if k, ok := constInt(x.Y); ok && k == 0 && searched(x.X) {
					return (x.Op == token.LSS) == t
				}
			}
			return false
		}
		if isNilConst(x.X) || isNilConst(x.Y) {
			v := x.X
			if isNilConst(v) {
				v = x.Y
			}
			if _, isSl := v.Type().Underlying().(*types.Slice); isSl {
				return eq == t
			}
			return false
		}
		if k, ok := constInt(x.Y); ok && k == -1 && searched(x.X) {
			return eq == t
		}
		if ifaceOf(x.X.Type()) != nil && ifaceOf(x.Y.Type()) != nil {
			return eq == t
		}
	}
	return false
}

// searched: v is the position a search returned.
func searched(v ssa.Value) bool {
	for _, s := range sources(v) {
		if call, ok := s.(*ssa.Call); !ok || !strings.Contains(strings.ToLower(calleeName(&call.Call)), "index") {
			return false
		}
	}
	return true
}

func checkC11(c *Ctx) {
	c.Rule("changed", "each mutating operation of a notifying list changes the stored elements on every path, unless nothing is there to change (empty collection, element not found)")
	c.Rule("inverse", "after a change of the stored elements every path tells each added element and each removed element about its inverse, unless old and new element are the same or nothing was removed; the variants taking a chain and the move do not")
	c.Rule("notify", "after a change of the stored elements every path creates a notification of the kind of the operation")
	c.Rule("values", "the notification of an added element carries no old value, that of a removed one carries the removed element as old value, that of a replacement the replaced element as old and the new one as new value; the inverse of the replaced element is removed and that of the new one added")
	c.Rule("all-elements", "loops that maintain inverses run over all the elements that were added or removed")
	c.Rule("told", "an inverse handler tells the element on every path, unless the element takes no part in inverses (not an internal object) or the list has none")
	c.Rule("inverse-pair", "the two inverse handlers of a list type address the same opposite: same target, same feature, same conditions")

	events := func(in ssa.Instruction, fn *ssa.Function) []string {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		cc := ci.Common()
		var evs []string
		if isChangeCall(cc) {
			evs = append(evs, "change")
		}
		switch n := calleeName(cc); n {
		case "inverseAdd", "inverseRemove":
			evs = append(evs, n)
		}
		if k, _ := c.notificationArgs(cc); k != "" {
			evs = append(evs, "notify "+eventKinds[k])
		}
		return evs
	}
	var m *mustEvents
	withClosureArgs := func(in ssa.Instruction, fn *ssa.Function) []string {
		evs := events(in, fn)
		if ci, ok := in.(ssa.CallInstruction); ok {
			for _, a := range ci.Common().Args {
				if f := closureArg(a); f != nil && f.Signature.Results().Len() == 1 && typeName(f.Signature.Results().At(0).Type()) == "ENotification" {
					for ev := range m.of(f, false) {
						if strings.HasPrefix(ev, "notify ") {
							evs = append(evs, ev)
						}
					}
				}
			}
		}
		return evs
	}
	m = newMust(c.Program, withClosureArgs)
	all := []string{"change", "inverseAdd", "inverseRemove", "notify add", "notify remove", "notify set", "notify move"}
	m.waive = func(br *ssa.If, taken bool, fn *ssa.Function) []string {
		if fn.Signature.Results().Len() == 1 && typeName(fn.Signature.Results().At(0).Type()) == "ENotification" {
			return nil
		}
		if !waivedByEmptiness(br, taken) {
			return nil
		}
		// an emptiness test that precedes the change waives everything; one that
		// follows it waives what the change would require
		return all
	}
	nOps := 0
	for _, fn := range c.notifyingListMethods() {
		op, ok := listOps[fn.Name()]
		if !ok || c.delegates(fn) {
			continue
		}
		nOps++
		key := fname(fn)
		req := append([]string{"notify " + op.kind}, op.inverses...)
		missing := map[string]token.Pos{}
		mis := map[string]bool{}
		m.run(fn, false, nil, func(in ssa.Instruction, st evState) {
			if _, ok := in.(*ssa.Return); !ok {
				return
			}
			if !evHas(st.done, "change") {
				missing["change"] = posOf(in)
				return
			}
			for _, r := range req {
				if !evHas(st.done, r) {
					missing[r] = posOf(in)
				}
			}
		})
		_ = mis
		pos, bad := missing["change"]
		c.Decide(!bad, "changed", key, fn.Pos(), "%s can return at %s without having changed the list", key, c.at(pos))
		for _, r := range req {
			pos, bad := missing[r]
			if strings.HasPrefix(r, "notify") {
				c.Decide(!bad, "notify", key, fn.Pos(), "%s can return at %s after changing the list without a notification of kind %s", key, c.at(pos), op.kind)
			} else {
				c.Decide(!bad, "inverse", key+" "+r, fn.Pos(), "%s can return at %s after changing the list without %s", key, c.at(pos), r)
			}
		}
		// operations that must not touch inverses
		if len(op.inverses) < 2 {
			for _, f := range withClosures(fn) {
				for _, ci := range calls(f) {
					n := calleeName(ci.Common())
					if n != "inverseAdd" && n != "inverseRemove" {
						continue
					}
					allowed := false
					for _, i := range op.inverses {
						if i == n {
							allowed = true
						}
					}
					c.Decide(allowed, "inverse", key+" extra "+n, ci.Pos(), "%s must not call %s: the caller or the other elements own that inverse", key, n)
				}
			}
		}
		c.listValues(fn, op)
	}
	for _, fn := range c.notifyingListMethods() {
		for _, f := range withClosures(fn) {
			c.wholeRange(f)
		}
	}
	c.inversePairs()
	c.Notes["operations"] = nOps
	c.Floor("changed", 13)
	c.Floor("inverse", 9)
	c.Floor("notify", 13)
	c.Floor("values", 12)
	c.Floor("inverse-pair", 4)
	c.Floor("told", 8)
	c.Floor("all-elements", 4)
}

// delegates: the method hands the same operation over to the list it wraps.
func (c *Ctx) delegates(fn *ssa.Function) bool {
	for _, ci := range calls(fn) {
		cc := ci.Common()
		if calleeName(cc) == fn.Name() {
			if r := recvOf(cc); r != nil && len(fn.Params) > 0 {
				p := pathOf(r)
				if p.valid() && len(p.Sel) > 0 {
					last := p.Sel[strings.LastIndex(p.Sel, ".")+1:]
					if !strings.Contains(last, "BasicENotifyingList") && !strings.Contains(last, "BasicEList") && !strings.Contains(last, "interfaces") {
						return true
					}
				}
			}
		}
	}
	return false
}

// origins classifies where a value comes from: parameters of the function by
// index, the results of changing calls, nil, other.
func origins(v ssa.Value, fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				out["nil"] = true
			} else {
				out["const"] = true
			}
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p == x {
					if i > 0 || x.Parent().Signature.Recv() == nil {
						out["param "+x.Name()] = true
						_ = i
					} else {
						out["recv"] = true
					}
				}
			}
		case *ssa.FreeVar:
			if b := rootBinding(x); b != nil {
				walk(b)
			} else {
				out["other"] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Index:
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.TypeAssert:
				walk(t.X)
			case *ssa.Next:
				if r, ok := t.Iter.(*ssa.Range); ok {
					walk(r.X)
				}
			case *ssa.Call:
				walk(t)
			case *ssa.Lookup:
				out["other"] = true
			default:
				out["other"] = true
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				out["other"] = true
				return
			}
			switch a := x.X.(type) {
			case *ssa.Alloc:
				for _, s := range cellStores(a, 0) {
					walk(s)
				}
			case *ssa.FreeVar:
				if b := rootBinding(a); b != nil {
					for _, s := range cellStores(b, 0) {
						walk(s)
					}
					return
				}
				out["other"] = true
			case *ssa.IndexAddr:
				walk(a.X)
			default:
				out["other"] = true
			}
		case *ssa.Alloc:
			for _, s := range cellStores(x, 0) {
				walk(s)
			}
			// an array literal
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
							walk(st.Val)
						}
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					for _, a := range x.Call.Args {
						walk(a)
					}
				} else {
					out["other"] = true
				}
				return
			}
			if isChangeCall(&x.Call) {
				out["change"] = true
				return
			}
			switch calleeName(&x.Call) {
			case "Next", "Value", "Get", "Iterator", "ToArray", "All":
				if r := recvOf(&x.Call); r != nil {
					walk(r)
					return
				}
			}
			out["other"] = true
		default:
			out["other"] = true
		}
	}
	walk(v)
	return out
}

func onlyNil(o map[string]bool) bool { return len(o) == 1 && o["nil"] }

func hasParam(o map[string]bool) bool {
	for k := range o {
		if strings.HasPrefix(k, "param ") {
			return true
		}
	}
	return false
}

func (c *Ctx) listValues(fn *ssa.Function, op listOp) {
	key := fname(fn)
	for _, f := range withClosures(fn) {
		for _, ci := range calls(f) {
			cc := ci.Common()
			switch n := calleeName(cc); n {
			case "inverseAdd", "inverseRemove":
				if op.kind != "set" || len(argsOf(cc)) < 1 {
					continue
				}
				o := origins(argsOf(cc)[0], f)
				if n == "inverseRemove" {
					c.Decide(!hasParam(o) || o["change"], "values", key+" "+n, ci.Pos(), "the inverse removed is that of the new element, not of the replaced one")
				} else {
					c.Decide(!o["change"], "values", key+" "+n, ci.Pos(), "the inverse added is that of the replaced element, not of the new one")
				}
				continue
			}
			k, i := c.notificationArgs(cc)
			if k == "" || i+2 >= len(cc.Args) {
				continue
			}
			old, new := origins(cc.Args[i+1], f), origins(cc.Args[i+2], f)
			ok := true
			switch eventKinds[k] {
			case "add":
				ok = onlyNil(old) && !new["nil"] && !new["change"]
			case "remove":
				ok = !onlyNil(old) && (onlyNil(new) || k == "REMOVE_MANY")
			case "set":
				ok = !onlyNil(old) && !onlyNil(new) && (!hasParam(old) || old["change"]) && !new["change"]
			case "move":
				// old value is the old position, new value the moved element
				ok = !old["change"] && (new["change"] || new["other"] || hasParam(new))
			default:
				continue
			}
			c.Decide(ok, "values", key+" "+k, ci.Pos(), "the %s notification carries old and new value the wrong way round, or misses one", k)
		}
	}
}

// wholeRange: a loop calling an inverse handler must not run over part of a slice.
func (c *Ctx) wholeRange(fn *ssa.Function) {
	for _, l := range naturalLoops(fn) {
		inv := token.NoPos
		name := ""
		for b := range l.body {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if n := calleeName(ci.Common()); n == "inverseAdd" || n == "inverseRemove" {
						inv, name = in.Pos(), n
						ok := true
						a := argsOf(ci.Common())
						if len(a) > 0 {
							ok = !partial(a[0])
						}
						c.Decide(ok, "all-elements", fname(fn)+" "+name, inv, "the loop maintains the inverse of part of the elements only")
					}
				}
			}
		}
		_ = inv
	}
}

func partial(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	if s, ok := ia.X.(*ssa.Slice); ok && (s.Low != nil || s.High != nil) {
		return true
	}
	return false
}

// canon renders a value as an expression over the parameters of its function.
func canon(v ssa.Value, d int) string {
	if v == nil {
		return "-"
	}
	if d > 14 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return "p" + string(rune('0'+i))
			}
		}
	case *ssa.FreeVar:
		if b := rootBinding(x); b != nil {
			return canon(b, d+1)
		}
	case *ssa.Global:
		return x.Name()
	case *ssa.FieldAddr:
		f := fieldOf(x)
		if f == nil {
			return "?"
		}
		return canon(x.X, d+1) + "." + f.Name()
	case *ssa.Field:
		f := fieldOfVal(x)
		if f == nil {
			return "?"
		}
		return canon(x.X, d+1) + "." + f.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := singleStore(a); s != nil {
					return canon(s, d+1)
				}
				return "?"
			}
			return canon(x.X, d+1)
		}
		return x.Op.String() + canon(x.X, d+1)
	case *ssa.BinOp:
		return "(" + canon(x.X, d+1) + x.Op.String() + canon(x.Y, d+1) + ")"
	case *ssa.MakeInterface:
		return canon(x.X, d+1)
	case *ssa.ChangeInterface:
		return canon(x.X, d+1)
	case *ssa.ChangeType:
		return canon(x.X, d+1)
	case *ssa.Convert:
		return canon(x.X, d+1)
	case *ssa.TypeAssert:
		return canon(x.X, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return canon(ta.X, d+1)
		}
		return canon(x.Tuple, d+1) + "#" + string(rune('0'+x.Index))
	case *ssa.Call:
		s := calleeName(&x.Call) + "("
		if r := recvOf(&x.Call); r != nil {
			s = canon(r, d+1) + "." + s
		}
		for i, a := range argsOf(&x.Call) {
			if i > 0 {
				s += ","
			}
			s += canon(a, d+1)
		}
		return s + ")"
	case *ssa.Slice:
		return canon(x.X, d+1) + "[" + canon(x.Low, d+1) + ":" + canon(x.High, d+1) + "]"
	case *ssa.IndexAddr:
		return canon(x.X, d+1) + "[" + canon(x.Index, d+1) + "]"
	case *ssa.Lookup:
		return canon(x.X, d+1) + "[" + canon(x.Index, d+1) + "]"
	}
	return "?"
}

// inversePairs compares the inverse calls of the two handlers of each list type.
func (c *Ctx) inversePairs() {
	type pair struct{ add, rem *ssa.Function }
	pairs := map[string]*pair{}
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() == nil {
			continue
		}
		n := recvTypeName(fn.Signature.Recv().Type())
		if fn.Name() == "inverseAdd" || fn.Name() == "inverseRemove" {
			if pairs[n] == nil {
				pairs[n] = &pair{}
			}
			if fn.Name() == "inverseAdd" {
				pairs[n].add = fn
			} else {
				pairs[n].rem = fn
			}
		}
	}
	names := []string{}
	for n := range pairs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := pairs[n]
		if p.add != nil && n != "BasicENotifyingList" {
			c.told(p.add)
		}
		if p.rem != nil && n != "BasicENotifyingList" {
			c.told(p.rem)
		}
		if p.add == nil || p.rem == nil {
			f := p.add
			if f == nil {
				f = p.rem
			}
			c.Bad("inverse-pair", n, f.Pos(), "%s overrides only one of the two inverse handlers", n)
			continue
		}
		a, ua := inverseCalls(c, p.add, "EInverseAdd")
		r, ur := inverseCalls(c, p.rem, "EInverseRemove")
		if ua || ur {
			c.Ok("inverse-pair", n+" (beyond comparison)", p.add.Pos())
			continue
		}
		c.Decide(strings.Join(a, " ; ") == strings.Join(r, " ; "), "inverse-pair", n, p.rem.Pos(), "adding tells the element {%s}, removing tells it {%s}", strings.Join(a, " ; "), strings.Join(r, " ; "))
	}
}

// inverseCalls lists the opposite updates a handler performs, as expressions over
// its parameters; unknown when an argument is beyond them.
func inverseCalls(c *Ctx, fn *ssa.Function, name string) (out []string, unknown bool) {
	set := map[string]bool{}
	for _, ci := range calls(fn) {
		cc := ci.Common()
		if calleeName(cc) != name {
			continue
		}
		a := argsOf(cc)
		if len(a) < 2 {
			continue
		}
		s := canon(a[0], 0) + "," + canon(a[1], 0)
		if strings.Contains(s, "?") {
			unknown = true
		}
		set[s] = true
	}
	return keysOf(set), unknown
}

func (c *Ctx) told(fn *ssa.Function) {
	add := fn.Name() == "inverseAdd"
	m := newMust(c.Program, func(in ssa.Instruction, f *ssa.Function) []string {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		cc := ci.Common()
		switch calleeName(cc) {
		case "EInverseAdd":
			if add {
				return []string{"told"}
			}
		case "EInverseRemove":
			if !add {
				return []string{"told"}
			}
		case "ESetResource", "BasicSetResourceSet":
			if a := argsOf(cc); len(a) > 0 && isNilConst(unwrapIface(a[0])) != add {
				return []string{"told"}
			}
		}
		return nil
	})
	m.waive = func(br *ssa.If, taken bool, f *ssa.Function) []string {
		cond := br.Cond
		t := taken
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			t = !t
			cond = u.X
		}
		switch x := cond.(type) {
		case *ssa.UnOp:
			if fl := loadedField(x); fl != nil && fl.Name() == "inverse" && !t {
				return []string{"told"}
			}
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && isTheElement(ta.X, f) && !t {
				return []string{"told"}
			}
		case *ssa.BinOp:
			if (x.Op == token.EQL || x.Op == token.NEQ) && (isNilConst(x.X) || isNilConst(x.Y)) {
				v := x.X
				if isNilConst(v) {
					v = x.Y
				}
				if isTheElement(v, f) && (x.Op == token.EQL) == t {
					return []string{"told"}
				}
			}
		}
		return nil
	}
	c.Decide(m.of(fn, false)["told"], "told", fname(fn), fn.Pos(), "some path of %s leaves the element unaware of its inverse", fname(fn))
}

// isTheElement: v is the element an inverse handler (or its helper) was given.
func isTheElement(v ssa.Value, fn *ssa.Function) bool {
	for _, s := range sources(v) {
		if _, ok := s.(*ssa.Parameter); !ok {
			return false
		}
	}
	return true
}
