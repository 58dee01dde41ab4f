package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", checkC14) }

// positional says what the parameters of a list operation are (receiver excluded).
type positional struct {
	kind                  string // add, set, remove, move, clear
	index, to, elem, coll int    // parameter numbers, -1: none
}

var positionalOps = map[string]positional{
	"Add":         {"add", -1, -1, 0, -1},
	"AddAll":      {"add", -1, -1, -1, 0},
	"Insert":      {"add", 0, -1, 1, -1},
	"InsertAll":   {"add", 0, -1, -1, 1},
	"Clear":       {"clear", -1, -1, -1, -1},
	"Move":        {"move", 0, 1, -1, -1},
	"Remove":      {"remove", 0, -1, -1, -1},
	"RemoveRange": {"remove", 0, 1, -1, -1},
	"Set":         {"set", 0, -1, 1, -1},
	"resolve":     {"resolve", 0, -1, 1, -1},
	"AddWith":     {"add", -1, -1, 0, -1},
	"RemoveWith":  {"remove", -1, -1, 0, -1},
	"SetWith":     {"set", 0, -1, 1, -1},
	"removeAll":   {"remove", -1, -1, -1, 0},
}

func positionalOp(name string) (positional, bool) {
	switch name {
	case "resolve":
		return positionalOps[name], true
	case "AddWithNotification", "RemoveWithNotification", "SetWithNotification":
		return positionalOps[strings.TrimSuffix(name, "Notification")], true
	case "RemoveAll", "doRemoveAll":
		return positionalOps["removeAll"], true
	}
	for _, p := range []string{"do", "perform"} {
		if strings.HasPrefix(name, p) {
			op, ok := positionalOps[strings.TrimPrefix(name, p)]
			return op, ok
		}
	}
	return positional{}, false
}

// listElem is an element of the list itself ("own"), of a collection handed to the
// operation ("c:<name>"), or a value handed to it ("p:<name>").
type listElem struct {
	src string
	at  *lin
}

func (e *listElem) String() string {
	if e == nil {
		return "?"
	}
	if e.at == nil {
		return e.src
	}
	return e.src + "[" + e.at.String() + "]"
}

// posFrame evaluates positions and elements in an operation of a list.
type posFrame struct {
	c    *Ctx
	fn   *ssa.Function
	f    *sframe
	l    *linear
	op   positional
	muts []ssa.Instruction // of fn: where the stored elements change
}

func (c *Ctx) listTypes() map[*types.Named]bool {
	out := map[*types.Named]bool{}
	for _, n := range c.Named {
		if _, ok := n.Underlying().(*types.Struct); !ok || n.TypeParams().Len() > 0 {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(n))
		if ms.Lookup(c.Ecore.Types, "DidAdd") != nil && ms.Lookup(c.Ecore.Types, "doAdd") != nil {
			out[n] = true
		}
	}
	return out
}

func isDidCall(cc *ssa.CallCommon) string {
	switch n := calleeName(cc); n {
	case "DidAdd", "DidSet", "DidRemove", "DidClear", "DidMove":
		return n
	}
	return ""
}

func (c *Ctx) positionFrame(fn *ssa.Function, atoms func(v ssa.Value, f *sframe) constant.Value) *posFrame {
	op, _ := positionalOp(fn.Name())
	p := &posFrame{c: c, fn: fn, op: op}
	p.f = c.specFrame(fn, map[ssa.Value]constant.Value{}, func(cc *ssa.CallCommon, g *ssa.Function) bool {
		if isDidCall(cc) != "" || g.Name() == "DidChange" || strings.HasPrefix(g.Name(), "create") || strings.HasPrefix(g.Name(), "as") || strings.HasPrefix(g.Name(), "Get") {
			return false
		}
		if _, isOp := positionalOp(g.Name()); isOp && g.Name() != "resolve" {
			return false
		}
		switch g.Name() {
		case "Size", "Empty", "IndexOf", "Contains", "ToArray", "resolve", "resolveProxy", "RemoveAt", "Get", "get", "doGet", "inverseAdd", "inverseRemove":
			return false
		}
		return true
	})
	if atoms != nil {
		p.f.atoms = atoms
		p.f.decide()
		p.f.each(func(in ssa.Instruction, sf *sframe) {})
		p.f.blocks, p.f.edges = specialised(p.f.fn, p.f.vals)
	}
	p.l = &linear{memo: map[fval]*lin{}, busy: map[fval]bool{}}
	p.l.sym = p.sym
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if p.changes(in) {
				p.muts = append(p.muts, in)
			}
		}
	}
	return p
}

// changes: the instruction changes what is stored in the list.
func (p *posFrame) changes(in ssa.Instruction) bool {
	switch t := in.(type) {
	case *ssa.Store:
		if fld := addrField(t.Addr); fld != nil && (fld.Name() == "data" || fld.Name() == "size") {
			return true
		}
		if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
			return p.ownData(ia.X)
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "copy" && p.ownData(t.Call.Args[0])
		}
		if p.storeCall(&t.Call) != "" {
			switch calleeName(&t.Call) {
			case "Add", "AddAll", "Remove", "Set", "Move", "Clear":
				return true
			}
		}
		n := calleeName(&t.Call)
		if n == "doGet" {
			return false
		}
		_, isOp := positionalOp(n)
		return isOp && n != "resolve" && isChangeCall(&t.Call)
	}
	return false
}

func (p *posFrame) ownData(v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		switch t := v.(type) {
		case *ssa.Slice:
			v = t.X
		case *ssa.UnOp:
			fld := addrField(t.X)
			return fld != nil && fld.Name() == "data"
		default:
			return false
		}
	}
	return false
}

// storeCall: a call on the store behind the list.
func (p *posFrame) storeCall(cc *ssa.CallCommon) string {
	if cc.IsInvoke() && typeName(cc.Value.Type()) == "EStore" {
		return cc.Method.Name()
	}
	return ""
}

// after: the instruction can run after the stored elements changed.
func (p *posFrame) after(in ssa.Instruction, f *sframe) bool {
	for f.parent != nil { // what a helper reads counts where it is called
		in, f = f.site, f.parent
	}
	if in == nil || in.Parent() != p.fn {
		return true
	}
	for _, m := range p.muts {
		if m == in {
			continue
		}
		if m.Block() == in.Block() {
			for _, x := range m.Block().Instrs {
				if x == m {
					return true
				}
				if x == in {
					break
				}
			}
			continue
		}
		if !p.f.blocks[m.Block()] {
			continue
		}
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock) bool {
			if b == in.Block() {
				return true
			}
			if seen[b] {
				return false
			}
			seen[b] = true
			for _, s := range b.Succs {
				if p.f.edges[[2]int{b.Index, s.Index}] && walk(s) {
					return true
				}
			}
			return false
		}
		for _, s := range m.Block().Succs {
			if p.f.edges[[2]int{m.Block().Index, s.Index}] && walk(s) {
				return true
			}
		}
	}
	return false
}

func (p *posFrame) own(x fval) bool {
	// the list itself, its base part or the face it shows
	v, f := x.v, x.f
	for i := 0; i < 24; i++ {
		switch t := v.(type) {
		case *ssa.Parameter:
			if a := f.args[t]; a != nil && f.parent != nil {
				v, f = a, f.parent
				continue
			}
			return len(t.Parent().Params) > 0 && t.Parent().Params[0] == t && t.Parent() == p.fn
		case *ssa.FieldAddr:
			fld := fieldOf(t)
			if fld != nil && (fld.Embedded() || fld.Name() == "interfaces" || fld.Name() == "delegate") {
				v = t.X
				continue
			}
			return false
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return false
			}
			if _, isField := t.X.(*ssa.FieldAddr); isField {
				v = t.X
				continue
			}
			addr := t.X
			if fv, ok := addr.(*ssa.FreeVar); ok {
				addr = rootBinding(fv)
			}
			s := cellStores(addr, 0)
			if len(s) != 1 {
				return false
			}
			v = s[0]
			if f.outer != nil && f.parent == nil {
				f = f.outer
			}
		case *ssa.TypeAssert:
			v = t.X
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		case *ssa.Call:
			n := calleeName(&t.Call)
			if strings.HasPrefix(n, "as") && recvOf(&t.Call) != nil {
				v = recvOf(&t.Call)
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (p *posFrame) size(in ssa.Instruction, f *sframe) *lin {
	s := linSym("size")
	if p.after(in, f) {
		// what the operation has added is in it
		switch {
		case p.op.kind == "add" && p.op.elem >= 0:
			return s.add(linConst(1), 1)
		case p.op.kind == "add":
			return s.add(linSym("len(c)"), 1)
		case p.op.kind == "set" || p.op.kind == "move" || p.op.kind == "resolve":
			return s
		}
		return linSym("size'")
	}
	return s
}

func (p *posFrame) sym(x fval) *lin {
	switch t := x.v.(type) {
	case *ssa.Parameter:
		return linSym("p:" + p.param(t))
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if u, isLoad := t.Call.Args[0].(*ssa.UnOp); isLoad {
				if fld := addrField(u.X); fld != nil && fld.Name() == "data" {
					return p.size(u, x.f)
				}
			}
			if s := p.slice(fval{t.Call.Args[0], x.f}); s != nil && strings.HasPrefix(s.src, "c:") && s.at != nil && s.at.String() == "0" {
				return linSym("len(c)")
			}
			return nil
		}
		r := recvOf(&t.Call)
		if r == nil {
			return nil
		}
		switch calleeName(&t.Call) {
		case "Size":
			if p.own(fval{r, x.f}) {
				return p.size(t, x.f)
			}
			if s := p.slice(fval{r, x.f}); s != nil && strings.HasPrefix(s.src, "c:") {
				return linSym("len(c)")
			}
		case "IndexOf":
			if p.own(fval{r, x.f}) {
				return linSym("where(" + t.Name() + ")")
			}
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if fld := addrField(t.X); fld != nil && fld.Name() == "size" {
				return p.size(t, x.f)
			}
			if ia, ok := t.X.(*ssa.IndexAddr); ok {
				return p.content(ia, x.f)
			}
		}
	case *ssa.Extract:
		// position in a range over a slice is a phi; over a function it is a parameter
		return nil
	}
	return nil
}

func (p *posFrame) param(t *ssa.Parameter) string {
	for i, q := range t.Parent().Params {
		if q == t && t.Parent() == p.fn {
			i--
			switch i {
			case p.op.index:
				if i >= 0 {
					return "index"
				}
			case p.op.to:
				if i >= 0 {
					return "to"
				}
			}
			if i >= 0 && i == p.op.elem {
				return "elem"
			}
			if i >= 0 && i == p.op.coll {
				return "coll"
			}
		}
	}
	return t.Parent().Name() + "." + t.Name()
}

// content is what a table of positions holds at an index.
func (p *posFrame) content(ia *ssa.IndexAddr, f *sframe) *lin {
	at := p.l.eval(fval{ia.X, f})
	_ = at
	j := p.l.eval(fval{ia.Index, f})
	fill, off := p.filled(fval{ia.X, f})
	if j == nil || fill == nil {
		return nil
	}
	return fill.add(j.add(off, -1), 1)
}

// filled: the table holds fill + k at position off + k... (its content at index 0
// and the offset, nil when it is not of that shape)
func (p *posFrame) filled(x fval) (*lin, *lin) {
	v, f := p.root(x)
	ms, ok := v.(*ssa.MakeSlice)
	if !ok || ms.Referrers() == nil {
		return nil, nil
	}
	for _, ref := range *ms.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, r := range *ia.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Addr != ia {
				continue
			}
			val, at := p.l.eval(fval{st.Val, f}), p.l.eval(fval{ia.Index, f})
			if val == nil || at == nil {
				return nil, nil
			}
			d := val.add(at, -1)
			if d.has("i(") {
				return nil, nil
			}
			return d, linConst(0)
		}
	}
	return nil, nil
}

// root looks through variables, conversions and bound parameters.
func (p *posFrame) root(x fval) (ssa.Value, *sframe) {
	v, f := x.v, x.f
	for i := 0; i < 24; i++ {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		case *ssa.ChangeType:
			v = t.X
		case *ssa.TypeAssert:
			v = t.X
		case *ssa.Extract:
			if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 0 {
				v = ta.X
				continue
			}
			return v, f
		case *ssa.Parameter:
			if a := f.args[t]; a != nil && f.parent != nil {
				v, f = a, f.parent
				continue
			}
			return v, f
		case *ssa.Phi:
			var u ssa.Value
			n := 0
			for j, e := range t.Edges {
				if f.edges[[2]int{t.Block().Preds[j].Index, t.Block().Index}] && f.blocks[t.Block().Preds[j]] && e != u && e != ssa.Value(t) {
					if isNilConst(e) {
						continue
					}
					u = e
					n++
				}
			}
			if n != 1 {
				return v, f
			}
			v = u
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return v, f
			}
			addr := t.X
			if fv, ok := addr.(*ssa.FreeVar); ok {
				addr = rootBinding(fv)
			}
			al, ok := addr.(*ssa.Alloc)
			if !ok {
				return v, f
			}
			var s []ssa.Value
			for _, y := range cellStores(al, 0) {
				if !isNilConst(y) {
					s = append(s, y)
				}
			}
			if len(s) != 1 {
				return v, f
			}
			if al.Parent() != f.fn && f.outer != nil {
				f = f.outer
			}
			v = s[0]
		case *ssa.Call:
			if g := f.callee(t); g != nil {
				rs := g.returns()
				if len(rs) != 1 || len(rs[0].Results) != 1 {
					return v, f
				}
				v, f = rs[0].Results[0], g
				continue
			}
			return v, f
		default:
			return v, f
		}
	}
	return v, f
}

// slice says whose elements a slice or collection holds, and from which position on.
func (p *posFrame) slice(x fval) *listElem {
	v, f := p.root(x)
	switch t := v.(type) {
	case *ssa.Parameter:
		if n := p.param(t); n == "coll" && f.parent == nil {
			return &listElem{"c:" + n, linConst(0)}
		}
	case *ssa.UnOp:
		if fld := addrField(t.X); fld != nil && fld.Name() == "data" && t.Op == token.MUL {
			if p.after(t, f) {
				return &listElem{"own'", linConst(0)}
			}
			return &listElem{"own", linConst(0)}
		}
	case *ssa.Slice:
		s := p.slice(fval{t.X, f})
		if s == nil {
			return nil
		}
		if t.Low != nil {
			return &listElem{s.src, s.at.add(p.l.eval(fval{t.Low, f}), 1)}
		}
		return s
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			// a copy: append(<empty>, s...)
			if b.Name() == "append" && len(t.Call.Args) == 2 && emptySlice(t.Call.Args[0]) {
				s := p.slice(fval{t.Call.Args[1], f})
				if s != nil && s.src == "own" && p.after(t, f) {
					return &listElem{"own'", s.at}
				}
				return s
			}
			return nil
		}
		n := calleeName(&t.Call)
		args := argsOf(&t.Call)
		if store := p.storeCall(&t.Call); store != "" {
			if store == "ToArray" || store == "All" {
				if p.after(t, f) {
					return &listElem{"own'", linConst(0)}
				}
				return &listElem{"own", linConst(0)}
			}
			return nil
		}
		switch {
		case n == "ToArray" || n == "All" || n == "Iterator":
			r := recvOf(&t.Call)
			if r == nil {
				return nil
			}
			if p.own(fval{r, f}) {
				if p.after(t, f) {
					return &listElem{"own'", linConst(0)}
				}
				return &listElem{"own", linConst(0)}
			}
			return p.slice(fval{r, f})
		case (n == "doRemoveRange" || n == "performRemoveRange") && len(args) > 0:
			return &listElem{"own", p.l.eval(fval{args[0], f})}
		case n == "doClear" || n == "performClear":
			return &listElem{"own", linConst(0)}
		case n == "Clone" && len(args) == 1:
			return p.slice(fval{args[0], f})
		}
	}
	return nil
}

func emptySlice(v ssa.Value) bool {
	if isNilConst(v) {
		return true
	}
	switch t := v.(type) {
	case *ssa.Slice:
		if al, ok := t.X.(*ssa.Alloc); ok {
			if arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return arr.Len() == 0
			}
		}
		if k, ok := constInt(t.High); t.High != nil && ok && k == 0 {
			return true
		}
	case *ssa.MakeSlice:
		k, ok := constInt(t.Len)
		return ok && k == 0
	}
	return false
}

// element says which element a value is.
func (p *posFrame) element(x fval) *listElem {
	v, f := p.root(x)
	switch t := v.(type) {
	case *ssa.Parameter:
		if f.parent == nil && f.outer == nil || t.Parent() == p.fn {
			return &listElem{"p:" + p.param(t), nil}
		}
		// the element a range over a function yields
		if f.parent == nil && len(f.fn.Params) > 0 {
			if s := p.rangedOver(f.fn); s != nil {
				i := 0
				for j, q := range f.fn.Params {
					if q == t {
						i = j
					}
				}
				if i == len(f.fn.Params)-1 {
					return &listElem{s.src, s.at.add(linSym("i("+f.fn.Name()+")"), 1)}
				}
			}
		}
	case *ssa.UnOp:
		if ia, ok := t.X.(*ssa.IndexAddr); ok && t.Op == token.MUL {
			s := p.slice(fval{ia.X, f})
			if s == nil {
				return nil
			}
			src := s.src
			if src == "own" && p.ownData(ia.X) && p.after(t, f) {
				src = "own'"
			}
			return &listElem{src, s.at.add(p.l.eval(fval{ia.Index, f}), 1)}
		}
	case *ssa.Call:
		args := argsOf(&t.Call)
		n := calleeName(&t.Call)
		at := func(i int) *listElem {
			if i >= len(args) {
				return nil
			}
			return &listElem{"own", p.l.eval(fval{args[i], f})}
		}
		if store := p.storeCall(&t.Call); store != "" {
			switch store {
			case "Remove", "Set", "Move", "Get":
				return at(2)
			}
			return nil
		}
		switch n {
		case "performRemove", "doRemove", "RemoveAt", "performSet", "doSet", "performMove", "doMove", "doGet", "Get", "get":
			e := at(0)
			if e != nil && (n == "doGet" || n == "Get" || n == "get") && p.after(t, f) {
				e.src = "own'"
			}
			return e
		case "Next":
			if t.Call.IsInvoke() {
				s := p.slice(fval{t.Call.Value, f})
				if s == nil {
					return nil
				}
				for _, l := range naturalLoops(t.Parent()) {
					if l.body[t.Block()] {
						return &listElem{s.src, s.at.add(linSym(iterSym(l.header)), 1)}
					}
				}
				return s
			}
		}
	}
	return nil
}

// rangedOver: fn is the body of a loop over the elements of a collection.
func (p *posFrame) rangedOver(fn *ssa.Function) *listElem {
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || len(call.Call.Args) != 1 {
				continue
			}
			if mc, ok := call.Call.Args[0].(*ssa.MakeClosure); ok && mc.Fn == fn {
				return p.slice(fval{call.Call.Value, p.f})
			}
		}
	}
	return nil
}

func checkC14(c *Ctx) {
	c.Rule("position", "a change callback or a notification names each element with the position it has in the list (added), had in the list (removed, replaced) or moved between")
	c.Rule("fired", "every change of the stored elements reaches the callback for it, once, whatever the store and cache configuration")
	c.Rule("shift", "a loop that copies a table shifted by one copies it to its end")
	types_ := c.listTypes()
	decided := 0
	ops := 0
	for _, fn := range c.Funcs {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		n := namedStruct(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		op, isOp := positionalOp(fn.Name())
		if !isOp || op.kind != "resolve" && !types_[n] && !c.wrapsNotifying(n, nil) {
			continue
		}
		ops++
		decided += c.positions(fn)
		c.fired(fn, op)
	}
	for _, fn := range c.Funcs {
		c.shifted(fn)
	}
	c.mergedPositions()
	c.Notes["operations"] = ops
	c.Notes["positions decided"] = decided
	c.Floor("position", 25)
	c.Floor("fired", 14)
}

// positions checks every callback and notification of an operation.
func (c *Ctx) positions(fn *ssa.Function) int {
	op, _ := positionalOp(fn.Name())
	count := map[string]int{}
	keys := map[ssa.Instruction]string{}
	var order []ssa.Instruction
	bad, known := map[ssa.Instruction]string{}, map[ssa.Instruction]bool{}
	for _, cfg := range storeConfigs(namedStruct(fn.Signature.Recv().Type())) {
		p := c.positionFrame(fn, configAtoms(cfg, op))
		check := func(in ssa.Instruction, f *sframe) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := call.Common()
			name := isDidCall(cc)
			args := argsOf(cc)
			kind := ""
			if name != "" {
				if fn.Name() == name {
					return
				}
			} else {
				k, at := c.notificationArgs(cc)
				if k == "" || !strings.HasPrefix(calleeName(cc), "create") || at+3 >= len(cc.Args) {
					return
				}
				kind = k
				name = k
				args = cc.Args[at+1:]
			}
			if keys[in] == "" {
				keys[in] = fname(fn) + " " + name
				count[keys[in]]++
				if n := count[keys[in]]; n > 1 {
					keys[in] += fmt.Sprintf(" #%d", n)
				}
				order = append(order, in)
			}
			msg, k := "", false
			if kind == "" {
				msg, k = p.callback(name, args, f)
			} else {
				msg, k = p.notification(kind, args, f)
			}
			if msg != "" {
				bad[in] = name + " " + msg
			}
			if k {
				known[in] = true
			}
		}
		p.f.each(check)
		for _, g := range withClosures(fn) {
			if g == fn {
				continue
			}
			cf := c.specFrame(g, map[ssa.Value]constant.Value{}, p.f.inline)
			cf.outer = p.f
			cf.each(check)
		}
	}
	decided := 0
	for _, in := range order {
		if bad[in] == "" && !known[in] {
			c.Notes["undecided "+keys[in]] = c.at(in.Pos())
			continue
		}
		decided++
		c.Decide(bad[in] == "", "position", keys[in], in.Pos(), "%s: %s", fname(fn), bad[in])
	}
	return decided
}

// base is where the first added element goes.
func (p *posFrame) base() *lin {
	if p.op.index >= 0 {
		return linSym("p:index")
	}
	return linSym("size")
}

func (p *posFrame) added(pos *lin, e *listElem) (string, bool) {
	if pos == nil || e == nil {
		return "", false
	}
	want := p.base()
	switch {
	case e.src == "p:elem" && p.op.kind == "add":
	case strings.HasPrefix(e.src, "c:") && e.at != nil:
		want = want.add(e.at, 1)
	case strings.HasPrefix(e.src, "own"):
		return fmt.Sprintf("names %s, an element the list already had, as the added one", e), true
	default:
		return "", false
	}
	if !pos.equal(want) {
		return fmt.Sprintf("reports the element %s at position %s, it goes to %s", e, pos, want), true
	}
	return "", true
}

func (p *posFrame) was(pos *lin, e *listElem) (string, bool) {
	if pos == nil || e == nil || e.src != "own" && e.src != "own'" || e.at == nil {
		if e != nil && (e.src == "p:elem" && p.op.kind == "set" || strings.HasPrefix(e.src, "c:") && p.op.kind != "remove") {
			return fmt.Sprintf("names %s as the element that was there", e), true
		}
		return "", false
	}
	if e.src == "own'" {
		return "names an element read after the list has changed", true
	}
	if !pos.equal(e.at) {
		return fmt.Sprintf("reports position %s for the element that was at %s", pos, e.at), true
	}
	return "", true
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (p *posFrame) isSlice(v ssa.Value, f *sframe) bool {
	x, _ := p.root(fval{v, f})
	return isSliceType(x.Type())
}

func and(msgs ...func() (string, bool)) (string, bool) {
	known := true
	for _, m := range msgs {
		msg, k := m()
		if msg != "" {
			return msg, true
		}
		known = known && k
	}
	return "", known
}

func (p *posFrame) callback(name string, args []ssa.Value, f *sframe) (string, bool) {
	pos := func(i int) *lin { return p.l.eval(fval{args[i], f}) }
	el := func(i int) *listElem { return p.element(fval{args[i], f}) }
	switch name {
	case "DidAdd":
		if p.isSlice(args[1], f) {
			return "is given a collection instead of an element", true
		}
		return p.added(pos(0), el(1))
	case "DidRemove":
		if p.isSlice(args[1], f) {
			return "is given a collection instead of an element", true
		}
		if s := p.removedInTurn(pos(0), args[1], f); s {
			return "", true
		}
		return p.was(pos(0), el(1))
	case "DidSet":
		return and(func() (string, bool) {
			e := el(1)
			if e != nil && e.src != "p:elem" {
				return "names " + e.String() + " as the new element", true
			}
			return "", e != nil
		}, func() (string, bool) { return p.was(pos(0), el(2)) }, func() (string, bool) { return p.isParam(pos(0), "index") })
	case "DidMove":
		return and(func() (string, bool) { return p.was(pos(2), el(1)) },
			func() (string, bool) { return p.isParam(pos(0), "to") },
			func() (string, bool) { return p.isParam(pos(2), "index") })
	case "DidClear":
		s := p.slice(fval{args[0], f})
		if s == nil {
			return "", false
		}
		if s.src != "own" || s.at.String() != "0" {
			return "is not given the elements the list had", true
		}
		return "", true
	}
	return "", false
}

// removedInTurn: the element comes from removing at that very position, again and again.
func (p *posFrame) removedInTurn(pos *lin, v ssa.Value, f *sframe) bool {
	e := p.element(fval{v, f})
	return pos != nil && e != nil && e.src == "own" && pos.equal(e.at)
}

func (p *posFrame) isParam(pos *lin, name string) (string, bool) {
	if pos == nil {
		return "", false
	}
	if !pos.equal(linSym("p:" + name)) {
		return fmt.Sprintf("reports position %s where %s is meant", pos, map[string]string{"index": "the position of the element", "to": "its new position"}[name]), true
	}
	return "", true
}

func (p *posFrame) notification(kind string, args []ssa.Value, f *sframe) (string, bool) {
	pos := func(i int) *lin { return p.l.eval(fval{args[i], f}) }
	el := func(i int) *listElem { return p.element(fval{args[i], f}) }
	nothing := func(i int) (string, bool) {
		v, _ := p.root(fval{args[i], f})
		if !isNilConst(v) {
			if k, ok := v.(*ssa.Const); !ok || k.Value != nil {
				return "", false
			}
		}
		return "", true
	}
	switch kind {
	case "ADD":
		if p.isSlice(args[1], f) {
			return "is given a collection instead of an element", true
		}
		return and(func() (string, bool) { return p.added(pos(2), el(1)) }, func() (string, bool) { return nothing(0) })
	case "ADD_MANY":
		s := p.slice(fval{args[1], f})
		if s == nil || pos(2) == nil {
			return "", false
		}
		if !strings.HasPrefix(s.src, "c:") {
			return fmt.Sprintf("names %s as the added elements", s.src), true
		}
		if want := p.base().add(s.at, 1); !pos(2).equal(want) {
			return fmt.Sprintf("reports position %s, the elements go to %s", pos(2), want), true
		}
		return "", true
	case "SET":
		return and(func() (string, bool) {
			e := el(1)
			if e != nil && e.src != "p:elem" {
				return "names " + e.String() + " as the new element", true
			}
			return "", e != nil
		}, func() (string, bool) { return p.was(pos(2), el(0)) }, func() (string, bool) { return p.isParam(pos(2), "index") })
	case "REMOVE":
		if p.isSlice(args[0], f) {
			return "is given a collection instead of an element", true
		}
		if msg, known := p.collected(args[0], args[2], f); known {
			return msg, true
		}
		return p.was(pos(2), el(0))
	case "REMOVE_MANY":
		s := p.slice(fval{args[0], f})
		if s == nil {
			if v, _ := p.root(fval{args[0], f}); emptySlice(v) {
				return "", true
			}
			if msg, known := p.collected(args[0], args[1], f); known {
				if k := pos(2); msg == "" && k != nil && len(k.t) == 0 {
					return fmt.Sprintf("reports position %s instead of that of the first element removed", k), true
				}
				return msg, true
			}
			return "", false
		}
		if s.src != "own" {
			return "is not given the elements the list had", true
		}
		if v, _ := p.root(fval{args[1], f}); isNilConst(v) {
			return "", true
		}
		fill, _ := p.filled(fval{args[1], f})
		if fill == nil || pos(2) == nil {
			return "", false
		}
		if !fill.equal(s.at) {
			return fmt.Sprintf("reports positions from %s on for elements that were at %s and after", fill, s.at), true
		}
		if !pos(2).equal(s.at) {
			return fmt.Sprintf("reports position %s for elements from %s on", pos(2), s.at), true
		}
		return "", true
	case "MOVE":
		return and(func() (string, bool) { return p.was(pos(0), el(1)) },
			func() (string, bool) { return p.isParam(pos(2), "to") },
			func() (string, bool) { return p.isParam(pos(0), "index") })
	case "RESOLVE":
		return and(func() (string, bool) { return p.isParam(pos(2), "index") }, func() (string, bool) {
			e := el(0)
			if e == nil || e.src != "p:elem" {
				return "", false
			}
			return "", true
		})
	}
	return "", false
}

// collected: elements and positions gathered in two tables side by side, in full
// or the entries at one index of them.
func (p *posFrame) collected(elems, positions ssa.Value, f *sframe) (string, bool) {
	table := func(v ssa.Value) (ssa.Value, string) {
		at := ""
		for i := 0; i < 8; i++ {
			switch t := v.(type) {
			case *ssa.MakeInterface:
				v = t.X
			case *ssa.TypeAssert:
				v = t.X
			case *ssa.UnOp:
				if ia, ok := t.X.(*ssa.IndexAddr); ok {
					at = p.l.eval(fval{ia.Index, f}).String()
					v = ia.X
					continue
				}
				addr := t.X
				if fv, ok := addr.(*ssa.FreeVar); ok {
					addr = rootBinding(fv)
				}
				return addr, at
			default:
				return v, at
			}
		}
		return v, at
	}
	type entry struct {
		v  ssa.Value
		in ssa.Instruction
	}
	entries := func(tab ssa.Value) []entry {
		var out []entry
		take := func(v ssa.Value) {
			call, ok := v.(*ssa.Call)
			if !ok {
				return
			}
			b, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || len(call.Call.Args) != 2 {
				return
			}
			sl, ok := call.Call.Args[1].(*ssa.Slice)
			if !ok || sl.X.Referrers() == nil {
				return
			}
			for _, r := range *sl.X.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
							out = append(out, entry{st.Val, call})
						}
					}
				}
			}
		}
		switch t := tab.(type) {
		case *ssa.Alloc:
			for _, v := range cellStores(t, 0) {
				take(v)
			}
		case *ssa.Phi:
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				if seen[v] {
					return
				}
				seen[v] = true
				if ph, ok := v.(*ssa.Phi); ok {
					for _, e := range ph.Edges {
						walk(e)
					}
					return
				}
				take(v)
				if call, ok := v.(*ssa.Call); ok {
					for _, a := range call.Call.Args {
						walk(a)
					}
				}
			}
			walk(t)
		}
		return out
	}
	te, ie := table(elems)
	tp, ip := table(positions)
	es, ps := entries(te), entries(tp)
	if len(es) == 0 || len(ps) == 0 {
		return "", false
	}
	if ie != ip {
		return fmt.Sprintf("pairs element %s of those gathered with position %s", ie, ip), true
	}
	if len(es) != len(ps) {
		return "", false
	}
	for i, e := range es {
		q := ps[i]
		if e.in.Block() != q.in.Block() {
			return "gathers elements and positions on different paths", true
		}
		at := p.l.eval(fval{q.v, p.f})
		if at == nil {
			return "", false
		}
		if own := p.element(fval{e.v, p.f}); own != nil && own.src == "own" {
			if !own.at.equal(at) {
				return fmt.Sprintf("gathers position %s for the element at %s", at, own.at), true
			}
			continue
		}
		// an object found equal to the element at that position
		compared := false
		for b := e.in.Block(); b != nil && !compared; b = b.Idom() {
			d := b.Idom()
			if d == nil {
				break
			}
			br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || !(d.Succs[0] == b || d.Succs[0].Dominates(b)) {
				continue
			}
			call, ok := br.Cond.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range call.Call.Args {
				if l := p.l.eval(fval{a, p.f}); isInt(a.Type()) && l != nil && !l.equal(at) {
					return fmt.Sprintf("gathers position %s for the element compared at %s", at, l), true
				} else if l.equal(at) {
					compared = true
				}
			}
		}
		if !compared {
			return "", false
		}
	}
	return "", true
}

// fired: each way through a mutating operation reaches the callback of its kind.
func (c *Ctx) fired(fn *ssa.Function, op positional) {
	did := map[string]string{"add": "DidAdd", "set": "DidSet", "remove": "DidRemove", "move": "DidMove", "clear": "DidClear"}[op.kind]
	n := namedStruct(fn.Signature.Recv().Type())
	direct := false
	for _, g := range withClosures(fn) {
		for _, ci := range calls(g) {
			if isDidCall(ci.Common()) == did {
				direct = true
			}
		}
	}
	mutates := hasField(n, "data") && strings.HasPrefix(fn.Name(), "do") || hasField(n, "store") && strings.HasPrefix(fn.Name(), "perform")
	if !direct && !mutates || did == "" || fn.Name() == "doRemoveAll" {
		return
	}
	configs := storeConfigs(n)
	for _, cfg := range configs {
		p := c.positionFrame(fn, configAtoms(cfg, op))
		delegated := func(in ssa.Instruction, f *sframe) bool {
			call, ok := in.(*ssa.Call)
			if !ok || calleeName(&call.Call) == "resolve" {
				return false
			}
			o, isOp := positionalOp(calleeName(&call.Call))
			return isOp && o.kind == op.kind && isChangeCall(&call.Call) && recvOf(&call.Call) != nil && p.own(fval{recvOf(&call.Call), f})
		}
		fires := func(in ssa.Instruction, f *sframe) bool {
			call, ok := in.(*ssa.Call)
			if !ok {
				return false
			}
			if isDidCall(&call.Call) == did {
				return true
			}
			// the body of a loop over a function
			for _, a := range call.Call.Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					g := c.specFrame(mc.Fn.(*ssa.Function), map[ssa.Value]constant.Value{}, p.f.inline)
					if g.must(func(in ssa.Instruction, f *sframe) bool {
						x, ok := in.(*ssa.Call)
						return ok && isDidCall(&x.Call) == did
					}) {
						return true
					}
				}
			}
			return false
		}
		loops := map[*ssa.BasicBlock]bool{}
		p.f.each(func(in ssa.Instruction, f *sframe) {
			if !fires(in, f) {
				return
			}
			// a loop whose every round fires
			for _, l := range naturalLoops(f.fn) {
				if l.body[in.Block()] && everyRound(l, in.Block()) {
					loops[l.header] = true
				}
			}
		})
		hit := func(in ssa.Instruction, f *sframe) bool {
			return fires(in, f) || delegated(in, f) || loops[in.Block()]
		}
		key := fname(fn)
		if cfg != "" {
			key += " with " + cfg
		}
		nd, nf := 0, 0
		p.f.each(func(in ssa.Instruction, f *sframe) {
			if delegated(in, f) {
				nd++
			}
			if fires(in, f) {
				nf++
			}
		})
		switch {
		case p.silent(hit):
			c.Bad("fired", key, fn.Pos(), "%s can return without %s for what it changed (%s)", fname(fn), did, cfg)
		case nd > 0 && nf > 0:
			c.Bad("fired", key, fn.Pos(), "%s reports the change twice (%s)", fname(fn), cfg)
		default:
			c.Ok("fired", key, fn.Pos())
		}
	}
}

// silent: there is a way out on which the elements changed and nothing matched.
func (p *posFrame) silent(match func(in ssa.Instruction, f *sframe) bool) bool {
	// the count of elements alone says nothing
	stored := func(in ssa.Instruction) bool {
		if s, ok := in.(*ssa.Store); ok {
			if fld := addrField(s.Addr); fld != nil && fld.Name() == "size" {
				return false
			}
		}
		return p.changes(in)
	}
	type st struct {
		b   *ssa.BasicBlock
		mut bool
	}
	var changed func(f *sframe, d int) bool
	changed = func(f *sframe, d int) bool { // a helper that changes the elements
		for b := range f.blocks {
			for _, in := range b.Instrs {
				if stored(in) {
					return true
				}
				if call, ok := in.(*ssa.Call); ok && d < 5 {
					if g := f.callee(call); g != nil && changed(g, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	hit, mut := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	for b := range p.f.blocks {
		for _, in := range b.Instrs {
			if match(in, p.f) {
				hit[b] = true
			}
			if stored(in) {
				mut[b] = true
			}
			if call, ok := in.(*ssa.Call); ok {
				if g := p.f.callee(call); g != nil {
					hit[b] = hit[b] || g.must(match)
					mut[b] = mut[b] || changed(g, 0)
				}
			}
		}
	}
	seen := map[st]bool{}
	var walk func(x st) bool
	walk = func(x st) bool {
		if hit[x.b] {
			return false
		}
		x.mut = x.mut || mut[x.b]
		if seen[x] {
			return false
		}
		seen[x] = true
		if _, ok := x.b.Instrs[len(x.b.Instrs)-1].(*ssa.Return); ok && x.mut {
			return true
		}
		for _, s := range x.b.Succs {
			if p.f.edges[[2]int{x.b.Index, s.Index}] && walk(st{s, x.mut}) {
				return true
			}
		}
		return false
	}
	return walk(st{p.fn.Blocks[0], false})
}

func storeConfigs(n *types.Named) []string {
	if n != nil && hasField(n, "store") {
		return []string{"data only", "store only", "both"}
	}
	return []string{""}
}

// configAtoms fixes where the elements of the list are kept.
func configAtoms(cfg string, op positional) func(v ssa.Value, f *sframe) constant.Value {
	return func(v ssa.Value, f *sframe) constant.Value {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil
		}
		if isNilConst(b.Y) || isNilConst(b.X) {
			x := b.X
			if isNilConst(x) {
				x = b.Y
			}
			u, ok := x.(*ssa.UnOp)
			if !ok || addrField(u.X) == nil || cfg == "" {
				return nil
			}
			set := false
			switch addrField(u.X).Name() {
			case "data":
				set = cfg != "store only"
			case "store":
				set = cfg != "data only"
			default:
				return nil
			}
			return constant.MakeBool(set == (b.Op == token.NEQ))
		}
		if op.kind == "move" && isInt(b.X.Type()) {
			return constant.MakeBool(b.Op == token.NEQ)
		}
		return nil
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// everyRound: no way from the loop header back to it that avoids the block.
func everyRound(l *loopInfo, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b || seen[x] || !l.body[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if s == l.header || walk(s) {
				return true
			}
		}
		return false
	}
	return b == l.header || !walk(l.header)
}

// shifted: loops that read a table one place before their counter.
func (c *Ctx) shifted(fn *ssa.Function) {
	for _, l := range naturalLoops(fn) {
		br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
		if !ok || !l.body[l.header.Succs[0]] {
			continue
		}
		cond, ok := br.Cond.(*ssa.BinOp)
		if !ok || cond.Op != token.LSS && cond.Op != token.LEQ {
			continue
		}
		ph, ok := cond.X.(*ssa.Phi)
		if !ok || ph.Block() != l.header {
			continue
		}
		bound, extra := cond.Y, int64(0)
		if cond.Op == token.LEQ {
			extra = 1
		}
		if b, ok := bound.(*ssa.BinOp); ok {
			if k, isK := constInt(b.Y); isK && (b.Op == token.ADD || b.Op == token.SUB) {
				if b.Op == token.SUB {
					k = -k
				}
				extra += k
				bound = b.X
			}
		}
		call, ok := bound.(*ssa.Call)
		if !ok {
			continue
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			continue
		}
		table := tableName(call.Call.Args[0])
		offsets := map[int64]bool{}
		for b := range l.body {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || tableName(ia.X) != table {
					continue
				}
				if d := phiStep(ia.Index, ph, 0); d != nil {
					offsets[*d] = true
				}
			}
		}
		if len(offsets) != 1 {
			continue
		}
		for d := range offsets {
			if d < 0 {
				c.Decide(extra >= -d, "shift", fname(fn)+" "+table, posOf(br), "%s reads %s %d place(s) before its counter but stops %d place(s) before the end of the table", fname(fn), table, -d, -d-extra)
			}
		}
	}
}

func tableName(v ssa.Value) string {
	p := pathOf(v)
	if p.valid() {
		return p.Root.Name() + p.Sel
	}
	return v.Name()
}

// mergedPositions: where two removals become one, each element is paired with its
// own position.
func (c *Ctx) mergedPositions() {
	for _, fn := range c.Funcs {
		if fn.Name() != "Merge" || fn.Signature.Recv() == nil || fn.Parent() != nil {
			continue
		}
		var other *ssa.Parameter
		for i, p := range fn.Params {
			if i > 0 && c.isNotification(p.Type()) {
				other = p
			}
		}
		if other == nil {
			continue
		}
		// the tables of two entries built here
		type pair struct {
			who [2]string
			at  ssa.Instruction
		}
		of := func(v ssa.Value) string {
			for i := 0; i < 8; i++ {
				switch t := v.(type) {
				case *ssa.MakeInterface:
					v = t.X
				case *ssa.BinOp:
					v = t.X
				case *ssa.Call:
					if r := recvOf(&t.Call); r != nil {
						if r == ssa.Value(other) {
							return "other"
						}
						return "own"
					}
					return "?"
				case *ssa.UnOp:
					if addrField(t.X) != nil {
						return "own"
					}
					return "?"
				default:
					return "?"
				}
			}
			return "?"
		}
		var tables []pair
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || al.Referrers() == nil {
					continue
				}
				arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				if !ok || arr.Len() != 2 {
					continue
				}
				var w pair
				w.at = al
				for _, ref := range *al.Referrers() {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok || ia.Referrers() == nil {
						continue
					}
					k, isK := constInt(ia.Index)
					if !isK || k < 0 || k > 1 {
						continue
					}
					for _, r := range *ia.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
							w.who[k] = of(st.Val)
						}
					}
				}
				tables = append(tables, w)
			}
		}
		byBlock := map[*ssa.BasicBlock][]pair{}
		for _, t := range tables {
			byBlock[t.at.Block()] = append(byBlock[t.at.Block()], t)
		}
		for b, ts := range byBlock {
			if len(ts) != 2 {
				continue
			}
			c.Decide(ts[0].who == ts[1].who, "position", fmt.Sprintf("%s pairs block %d", fname(fn), b.Index), posOf(ts[0].at), "%s pairs the removed elements (%s, %s) with positions (%s, %s)", fname(fn), ts[0].who[0], ts[0].who[1], ts[1].who[0], ts[1].who[1])
		}
	}
}
