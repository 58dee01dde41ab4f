package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C13", checkC13) }

// chainState follows pending notifications along a path: which values denote
// which of them, and which still have to be handed on.
type chainState struct {
	env  map[string]string // value -> obligation
	live map[string]bool
}

func (s chainState) Key() string {
	var ks []string
	for k, v := range s.env {
		ks = append(ks, k+"="+v)
	}
	for k := range s.live {
		ks = append(ks, "!"+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s chainState) clone() chainState {
	n := chainState{map[string]string{}, map[string]bool{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k := range s.live {
		n.live[k] = true
	}
	return n
}

func (c *Ctx) isChain(t types.Type) bool {
	return typeName(t) == "ENotificationChain" && types.IsInterface(t)
}

func (c *Ctx) isNotification(t types.Type) bool {
	if types.IsInterface(t) {
		return typeName(t) == "ENotification"
	}
	return namedStruct(t) != nil && implementsNamed(c.Program, t, "ENotification")
}

// pendingResult: the call yields notifications nobody has delivered yet.
func (c *Ctx) pendingResult(call *ssa.Call) bool {
	t := call.Type()
	if c.isChain(t) {
		return true
	}
	if _, ok := t.(*types.Tuple); ok {
		return false
	}
	n := calleeName(&call.Call)
	if !c.isNotification(t) {
		return false
	}
	// built here: a constructor, or a function given to build it
	return n == "" || strings.HasPrefix(n, "New") || strings.HasPrefix(n, "new") || strings.HasPrefix(strings.ToLower(n), "create") || !call.Call.IsInvoke() && call.Call.StaticCallee() == nil
}

func checkC13(c *Ctx) {
	c.Rule("kept", "pending notifications an operation receives or obtains are returned, added to a chain, dispatched or handed on, on every way out")
	c.Rule("handler", "an operation of a chain keeps what is added to it, and delivers all it holds")
	c.Rule("merge", "two notifications are only merged when they concern the same feature of the same object, and what the second one says is taken over")
	for _, fn := range c.Funcs {
		c.keepsChains(fn)
	}
	c.chainImplementations()
	c.Floor("kept", 150)
	c.Floor("handler", 3)
	c.Floor("merge", 2)
}

func (c *Ctx) keepsChains(fn *ssa.Function) {
	sites := map[string]ssa.Instruction{}
	params := map[string]*ssa.Parameter{}
	captured := map[string]bool{}
	adder := fn.Name() == "Add" && fn.Signature.Recv() != nil && implementsNamed(c.Program, fn.Signature.Recv().Type(), "ENotificationChain")
	for i, p := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if c.isChain(p.Type()) || adder && c.isNotification(p.Type()) {
			params["param:"+p.Name()] = p
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Call:
				if c.pendingResult(t) {
					sites["call:"+t.Name()] = t
				}
			case *ssa.MakeClosure:
				for _, v := range t.Bindings {
					captured[v.Name()] = true
				}
			}
		}
	}
	if len(sites)+len(params) == 0 {
		return
	}
	lost := map[string]ssa.Instruction{}
	drop := func(s chainState, at ssa.Instruction, id string) {
		if s.live[id] && lost[id] == nil {
			lost[id] = at
		}
	}
	var env func(s chainState, v ssa.Value) string
	env = func(s chainState, v ssa.Value) string {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			return env(s, t.X)
		case *ssa.ChangeInterface:
			return env(s, t.X)
		case *ssa.ChangeType:
			return env(s, t.X)
		case *ssa.TypeAssert:
			return env(s, t.X)
		case *ssa.Extract:
			if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 0 {
				return env(s, ta.X)
			}
			return ""
		}
		return s.env[v.Name()]
	}
	consume := func(s chainState, v ssa.Value) chainState {
		id := env(s, v)
		if id == "" || !s.live[id] {
			return s
		}
		n := s.clone()
		delete(n.live, id)
		return n
	}
	e := &Engine{Fn: fn}
	e.Transfer = func(in ssa.Instruction, st *PState) []*PState {
		s := st.U.(chainState)
		switch t := in.(type) {
		case ssa.CallInstruction:
			cc := t.Common()
			name := calleeName(cc)
			if name != "Merge" {
				for _, a := range argsOf(cc) {
					s = consume(s, a)
				}
			}
			if _, isClosure := cc.Value.(*ssa.MakeClosure); isClosure || name == "Dispatch" {
				if r := recvOf(cc); r != nil {
					s = consume(s, r)
				}
			}
			if _, isDefer := in.(*ssa.Defer); isDefer && recvOf(cc) != nil {
				s = consume(s, recvOf(cc))
			}
			if call, ok := in.(*ssa.Call); ok {
				id := "call:" + call.Name()
				if sites[id] != nil {
					drop(s, in, id)
					n := s.clone()
					n.env[call.Name()] = id
					n.live[id] = true
					s = n
				}
			}
		case *ssa.Store:
			if _, isCell := t.Addr.(*ssa.Alloc); isCell && !captured[t.Addr.Name()] {
				id := env(s, t.Val)
				n := s.clone()
				if id == "" {
					delete(n.env, t.Addr.Name())
				} else {
					n.env[t.Addr.Name()] = id
				}
				s = n
			} else {
				s = consume(s, t.Val)
			}
		case *ssa.MapUpdate:
			s = consume(s, t.Value)
		case *ssa.Send:
			s = consume(s, t.X)
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if id := s.env[t.X.Name()]; id != "" {
					if _, isCell := t.X.(*ssa.Alloc); isCell {
						n := s.clone()
						n.env[t.Name()] = id
						s = n
					}
				}
			}
		case *ssa.MakeClosure:
			for _, v := range t.Bindings {
				s = consume(s, v)
			}
		case *ssa.Return:
			for _, r := range t.Results {
				s = consume(s, r)
			}
			for id := range s.live {
				// a chain known to be empty is nobody's loss
				empty := false
				for v, vid := range s.env {
					if vid == id {
						for k, isNil := range st.facts {
							if k == "n:"+v && isNil {
								empty = true
							}
						}
					}
				}
				if !empty {
					drop(s, in, id)
				}
			}
		}
		return []*PState{st.With(s)}
	}
	e.Branch = func(br *ssa.If, taken bool, st *PState) *PState {
		s := st.U.(chainState)
		cond, want := br.Cond, taken
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, want = u.X, !want
		}
		switch t := cond.(type) {
		case *ssa.BinOp:
			if t.Op != token.EQL && t.Op != token.NEQ {
				return st
			}
			isNil := (t.Op == token.EQL) == want
			for _, p := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
				if !isNilConst(p[1]) || !isNil {
					continue
				}
				if id := env(s, p[0]); id != "" {
					n := s.clone()
					delete(n.live, id)
					return st.With(n)
				}
				// without anybody to notify there is nothing to deliver
				if call, ok := p[0].(*ssa.Call); ok && calleeName(&call.Call) == "GetNotifier" {
					n := s.clone()
					for id := range n.live {
						if site, ok := sites[id].(*ssa.Call); ok && !c.isChain(site.Type()) {
							delete(n.live, id)
						}
					}
					return st.With(n)
				}
			}
		case *ssa.Call:
			if calleeName(&t.Call) == "Merge" && want {
				for _, a := range argsOf(&t.Call) {
					s = consume(s, a)
				}
				return st.With(s)
			}
		case *ssa.Extract:
			// not even a chain
			if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 && !want && types.Identical(ta.X.Type(), ta.AssertedType) {
				return st.With(consume(s, ta.X))
			}
		}
		return st
	}
	e.Edge = func(from, to *ssa.BasicBlock, st *PState) *PState {
		s := st.U.(chainState)
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		var n *chainState
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if n == nil {
				x := s.clone()
				n = &x
			}
			if id := env(s, ph.Edges[pi]); id != "" {
				n.env[ph.Name()] = id
			} else {
				delete(n.env, ph.Name())
			}
		}
		if n != nil {
			return st.With(*n)
		}
		return st
	}
	init := chainState{map[string]string{}, map[string]bool{}}
	for id, p := range params {
		init.env[p.Name()] = id
		init.live[id] = true
	}
	e.Run(init)
	name := func(id string) string {
		if call, ok := sites[id].(*ssa.Call); ok {
			if n := calleeName(&call.Call); n != "" {
				return "result of " + n
			}
			return "result of a call"
		}
		return "parameter " + strings.TrimPrefix(id, "param:")
	}
	count := map[string]int{}
	var ids []string
	for id := range sites {
		ids = append(ids, id)
	}
	for id := range params {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool {
		if len(ids[i]) != len(ids[j]) {
			return len(ids[i]) < len(ids[j])
		}
		return ids[i] < ids[j]
	})
	for _, id := range ids {
		key := fname(fn) + " " + name(id)
		count[key]++
		if count[key] > 1 {
			key += fmt.Sprintf(" #%d", count[key])
		}
		pos := fn.Pos()
		if in := sites[id]; in != nil {
			pos = in.Pos()
		}
		at := lost[id]
		if at == nil {
			c.Ok("kept", key, pos)
			continue
		}
		c.Bad("kept", key, pos, "%s loses pending notifications: the %s is neither returned, dispatched nor handed on, on a path to %s", fname(fn), name(id), c.Fset.Position(posOf(at)))
	}
}

// chainImplementations: the types that hold notifications.
func (c *Ctx) chainImplementations() {
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		recv := fn.Signature.Recv().Type()
		n := namedStruct(recv)
		if n == nil {
			continue
		}
		isImpl := implementsNamed(c.Program, recv, "ENotificationChain") || implementsNamed(c.Program, types.NewPointer(n), "ENotificationChain") || hasField(n, "next") && hasField(n, "oldValue")
		if !isImpl {
			continue
		}
		switch fn.Name() {
		case "Dispatch":
			c.chainDispatch(fn)
		case "Merge":
			c.chainMerge(fn)
		case "Add":
			c.Decide(true, "handler", fname(fn)+" keeps", fn.Pos(), "")
		}
	}
}

func (c *Ctx) chainDispatch(fn *ssa.Function) {
	n := namedStruct(fn.Signature.Recv().Type())
	// the frame of the operation, for a notification that has somebody to be
	// delivered to, or for any notification
	frame := func(deliverable bool) *sframe {
		f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
			return g.Signature.Recv() != nil && namedStruct(g.Signature.Recv().Type()) == n && g != fn && !strings.HasPrefix(g.Name(), "Get")
		})
		f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
			switch t := v.(type) {
			case *ssa.BinOp:
				if t.Op != token.EQL && t.Op != token.NEQ {
					return nil
				}
				for _, p := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
					k, isInt := constInt(p[1])
					if isNilConst(p[1]) && !deliverable && c.readsField(sf, p[0], "next") {
						return constant.MakeBool(t.Op == token.NEQ)
					}
					if deliverable && (isNilConst(p[1]) || isInt && k == -1 && typeName(t.X.Type()) == "EventType") {
						return constant.MakeBool(t.Op == token.NEQ)
					}
				}
			case *ssa.Extract:
				if _, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 {
					return constant.MakeBool(true)
				}
			}
			return nil
		}
		f.decide()
		f.each(func(in ssa.Instruction, sf *sframe) {})
		f.blocks, f.edges = specialised(f.fn, f.vals)
		return f
	}
	f, any := frame(true), frame(false)
	notify := func(in ssa.Instruction, sf *sframe) bool {
		call, ok := in.(*ssa.Call)
		return ok && calleeName(&call.Call) == "ENotify"
	}
	msg := ""
	if hasField(n, "next") {
		if !f.must(notify) {
			msg = "can return without delivering the notification itself"
		} else if !any.must(func(in ssa.Instruction, sf *sframe) bool {
			call, ok := in.(*ssa.Call)
			return ok && calleeName(&call.Call) == "Dispatch" && c.readsField(sf, recvOf(&call.Call), "next")
		}) {
			msg = "can return without dispatching the notifications that follow"
		}
	} else {
		// every element taken from the list is delivered before the next one
		delivers := false
		var next []ssa.Instruction
		f.each(func(in ssa.Instruction, sf *sframe) {
			delivers = delivers || notify(in, sf)
			if call, ok := in.(*ssa.Call); ok && calleeName(&call.Call) == "Next" && in.Parent() == fn {
				next = append(next, in)
			}
		})
		if !delivers {
			msg = "delivers nothing"
		}
		for _, in := range next {
			if !f.reachesBefore(in, notify) {
				msg = "can pass over a notification without delivering it"
			}
		}
		// and the loop only ends when there are no more
		for _, b := range fn.Blocks {
			if !any.blocks[b] {
				continue
			}
			for _, l := range naturalLoops(fn) {
				if !l.body[b] {
					continue
				}
				for _, s := range b.Succs {
					if !l.body[s] && any.edges[[2]int{b.Index, s.Index}] && !exhausts(b) {
						msg = "can stop before all notifications are delivered"
					}
				}
			}
		}
	}
	c.Decide(msg == "", "handler", fname(fn)+" delivers", fn.Pos(), "%s %s", fname(fn), msg)
}

// readsField: the value is what the named field of an object holds.
func (c *Ctx) readsField(f *sframe, v ssa.Value, name string) bool {
	vs := f.expand(v)
	for _, x := range vs {
		u, ok := x.v.(*ssa.UnOp)
		if !ok || addrField(u.X) == nil || addrField(u.X).Name() != name {
			return false
		}
	}
	return len(vs) > 0
}

// exhausts: the block leaves its loop because the iteration is over.
func exhausts(b *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	v := br.Cond
	if u, isNot := v.(*ssa.UnOp); isNot {
		v = u.X
	}
	switch t := v.(type) {
	case *ssa.Call:
		return calleeName(&t.Call) == "HasNext"
	case *ssa.BinOp:
		return t.Op == token.LSS || t.Op == token.GEQ || t.Op == token.GTR || t.Op == token.LEQ
	case *ssa.Extract:
		_, isRange := t.Tuple.(*ssa.Next)
		return isRange
	}
	return false
}

// reachesBefore: after in, an instruction that matches comes before in is
// reached again or the function returns.
func (f *sframe) reachesBefore(in ssa.Instruction, match func(in ssa.Instruction, f *sframe) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, x := range b.Instrs[from:] {
			if match(x, f) {
				return true
			}
			if c, ok := x.(*ssa.Call); ok {
				if s := f.callee(c); s != nil && s.must(match) {
					return true
				}
			}
			if x == in {
				return false
			}
			if _, ok := x.(*ssa.Return); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if !f.edges[[2]int{b.Index, s.Index}] || seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return walk(b, i+1)
		}
	}
	return true
}

// chainMerge: what has to be the same for it to report success, and what it
// has then taken over.
func (c *Ctx) chainMerge(fn *ssa.Function) {
	var other *ssa.Parameter
	for i, p := range fn.Params {
		if i > 0 && c.isNotification(p.Type()) {
			other = p
		}
	}
	if other == nil {
		return
	}
	accessor := func(f *sframe, v ssa.Value) (string, bool) { // what is read, of the other notification
		name, of := "", true
		for _, x := range f.expand(v) {
			call, ok := x.v.(*ssa.Call)
			if !ok || recvOf(&call.Call) == nil || name != "" && calleeName(&call.Call) != name {
				return "", false
			}
			name = calleeName(&call.Call)
			of = of && isTop(x.f.expand(recvOf(&call.Call)), other)
		}
		return name, of
	}
	frame := func(differ ...string) *sframe {
		f := c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
			return g != fn && !strings.HasPrefix(g.Name(), "Get")
		})
		f.atoms = func(v ssa.Value, sf *sframe) constant.Value {
			t, ok := v.(*ssa.BinOp)
			if !ok || t.Op != token.EQL && t.Op != token.NEQ {
				return nil
			}
			a, ofA := accessor(sf, t.X)
			b, ofB := accessor(sf, t.Y)
			for _, d := range differ {
				if a == d && b == d && ofA != ofB {
					return constant.MakeBool(t.Op == token.NEQ)
				}
			}
			return nil
		}
		f.decide()
		f.each(func(in ssa.Instruction, sf *sframe) {})
		f.blocks, f.edges = specialised(f.fn, f.vals)
		return f
	}
	refuses := func(differ ...string) bool {
		r := frame(differ...).boolResult()
		return r != nil && !*r
	}
	c.Decide(refuses("GetNotifier"), "merge", fname(fn)+" notifier", fn.Pos(), "%s can merge notifications of different objects", fname(fn))
	c.Decide(refuses("GetFeatureID", "GetFeature"), "merge", fname(fn)+" feature", fn.Pos(), "%s can merge notifications of different features", fname(fn))

	f := frame()
	take := func(in ssa.Instruction, sf *sframe) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		if _, isCell := st.Addr.(*ssa.Alloc); isCell {
			return false
		}
		n, of := accessor(sf, st.Val)
		return of && (n == "GetNewValue" || n == "GetOldValue")
	}
	i := 0
	var collect func(sf *sframe, depth int)
	success := func(b *ssa.BasicBlock, sf *sframe) {
		i++
		c.Decide(sf.takenBefore(b, take), "merge", fmt.Sprintf("%s success %d", fname(fn), i), posOf(b.Instrs[len(b.Instrs)-1]),
			"%s can drop the other notification without taking over its value", fname(fn))
	}
	value := func(v ssa.Value, b *ssa.BasicBlock, sf *sframe, depth int) {
		switch t := v.(type) {
		case *ssa.Const:
			if t.Value != nil && constant.BoolVal(t.Value) {
				success(b, sf)
			}
			return
		case *ssa.Call:
			if g := sf.callee(t); g != nil && depth < 6 {
				collect(g, depth+1)
				return
			}
		}
		success(b, sf)
	}
	collect = func(sf *sframe, depth int) {
		for _, r := range sf.returns() {
			if len(r.Results) == 0 {
				continue
			}
			if ph, ok := r.Results[0].(*ssa.Phi); ok {
				for j, e := range ph.Edges {
					if sf.edges[[2]int{ph.Block().Preds[j].Index, ph.Block().Index}] {
						value(e, ph.Block().Preds[j], sf, depth)
					}
				}
				continue
			}
			value(r.Results[0], r.Block(), sf, depth)
		}
	}
	collect(f, 0)
}

// takenBefore: on every path from the entry to the end of the block there is
// an instruction that matches.
func (f *sframe) takenBefore(b *ssa.BasicBlock, match func(in ssa.Instruction, f *sframe) bool) bool {
	hit := map[*ssa.BasicBlock]bool{}
	for x := range f.blocks {
		for _, in := range x.Instrs {
			if match(in, f) {
				hit[x] = true
			}
			if call, ok := in.(*ssa.Call); ok {
				if s := f.callee(call); s != nil && s.must(match) {
					hit[x] = true
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool // reaches b without one
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] || hit[x] || !f.blocks[x] {
			return false
		}
		seen[x] = true
		if x == b {
			return true
		}
		for _, s := range x.Succs {
			if f.edges[[2]int{x.Index, s.Index}] && walk(s) {
				return true
			}
		}
		return false
	}
	return !walk(f.fn.Blocks[0])
}
