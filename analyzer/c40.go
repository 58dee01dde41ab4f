package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C40", checkC40) }

// progress decides whether each round of a loop changes something that the
// conditions it can be left by depend on.
type progress struct {
	c     *Ctx
	pures map[*ssa.Function]int // 3: not pure
	all   map[*ssa.Function]bool
	busy  map[*ssa.Function]bool
	wr    map[*ssa.Function]map[*types.Var]bool
}

var asking = regexp.MustCompile(`^(Has[A-Z].*|HasNext|Size|Empty|Len|Contains.*|Get|Get[A-Z].*|Is[A-Z].*|IndexOf.*|E(Class|Container|InternalContainerFeatureID|Contents|Resource|IsProxy|ProxyURI|InternalContainer|ContainerFeatureID|InternalResource|DynamicProperties|IsSet|Get|GetResolve)|As[A-Z].*|String|Error|Name|Type|Kind|Elem|Cap)$`)

var pureNames = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true, "path": true, "path/filepath": true, "reflect": true, "bytes": true, "slices": true, "maps": true, "net/url": true, "regexp": true}

// pure: the call only computes something from its arguments and from memory.
func (x *progress) pure(cc *ssa.CallCommon) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "min", "max", "real", "imag", "complex", "append":
			return true
		}
		return false
	}
	if asking.MatchString(calleeName(cc)) {
		return true
	}
	if cc.IsInvoke() {
		return false
	}
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	g = x.c.unwrap(g)
	if pkg := pkgPath(g); pkg != x.c.Ecore.PkgPath {
		if pkg == "fmt" {
			return strings.HasPrefix(g.Name(), "Sprint") || g.Name() == "Errorf"
		}
		return pureNames[pkg] && g.Signature.Recv() == nil
	}
	return x.pureFn(g)
}

// pureFn: every function is taken for pure until something in it, or in what it
// calls, is found not to be.
func (x *progress) pureFn(g *ssa.Function) bool {
	if len(x.pures) == 0 {
		x.pures[nil] = 1
		fns := append([]*ssa.Function{}, x.c.Funcs...)
		for changed := true; changed; {
			changed = false
			for _, f := range fns {
				if x.pures[f] != 3 && !x.pureBody(f) {
					x.pures[f] = 3
					changed = true
				}
			}
		}
	}
	if _, ok := x.pures[g]; !ok && !x.known(g) {
		return x.pureBody(g)
	}
	return x.pures[g] != 3
}

func (x *progress) known(g *ssa.Function) bool {
	if x.all == nil {
		x.all = map[*ssa.Function]bool{}
		for _, f := range x.c.Funcs {
			x.all[f] = true
		}
	}
	return x.all[g]
}

func (x *progress) pureBody(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || x.busy[g] {
		return len(g.Blocks) > 0
	}
	if x.busy == nil {
		x.busy = map[*ssa.Function]bool{}
	}
	x.busy[g] = true
	defer delete(x.busy, g)
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store:
				if _, local := rootOfAddr(t.Addr).(*ssa.Alloc); !local {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go:
				return false
			case *ssa.UnOp:
				if t.Op == token.ARROW {
					return false
				}
			case ssa.CallInstruction:
				if !x.pure(t.Common()) {
					return false
				}
			}
		}
	}
	return true
}

func rootOfAddr(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.FieldAddr:
			v = t.X
		case *ssa.IndexAddr:
			v = t.X
		default:
			return v
		}
	}
}

// fieldWrites: the fields a function may assign or change the contents of,
// callees included.
func (x *progress) writesField(g *ssa.Function) map[*types.Var]bool {
	if m, ok := x.wr[g]; ok {
		return m
	}
	m := map[*types.Var]bool{}
	x.wr[g] = m
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store:
				a := t.Addr
				for a != nil {
					if f := addrField(a); f != nil {
						m[f] = true
					}
					switch k := a.(type) {
					case *ssa.IndexAddr:
						a = k.X
					case *ssa.UnOp:
						a = k.X
					default:
						a = nil
					}
				}
			case *ssa.MapUpdate:
				if f := tableOf(t.Map); f != nil {
					m[f] = true
				}
			case ssa.CallInstruction:
				if bi, ok := t.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					if f := tableOf(t.Common().Args[0]); f != nil {
						m[f] = true
					}
				}
				fns, _ := x.c.callees(t.Common())
				for _, h := range fns {
					for f := range x.writesField(x.c.unwrap(h)) {
						m[f] = true
					}
				}
			}
		}
	}
	return m
}

// loopView is one loop with what its exits depend on.
type loopView struct {
	x      *progress
	l      *loopInfo
	fn     *ssa.Function
	depend map[ssa.Value]bool
	fields map[*types.Var]bool
	cells  map[ssa.Value]bool // local variables and roots of containers
	roots  map[ssa.Value]bool // objects asked by the conditions
	iters  map[string]bool    // iterators asked by the conditions
	maps   map[string]bool
	movesM map[ssa.Value]bool
}

func inLoop(l *loopInfo, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.body[in.Block()]
}

func (x *progress) view(fn *ssa.Function, l *loopInfo) (*loopView, int) {
	v := &loopView{x: x, l: l, fn: fn, depend: map[ssa.Value]bool{}, fields: map[*types.Var]bool{}, cells: map[ssa.Value]bool{}, roots: map[ssa.Value]bool{}, iters: map[string]bool{}, maps: map[string]bool{}}
	exits := 0
	for b := range l.body {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}
		exits++
		v.collect(br.Cond)
		// the conditions under which the exit is reached count as well
		for d := b.Idom(); d != nil && l.body[d]; d = d.Idom() {
			if k, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
				v.collect(k.Cond)
			}
		}
	}
	return v, exits
}

func (v *loopView) collect(val ssa.Value) {
	if val == nil || v.depend[val] {
		return
	}
	v.depend[val] = true
	if !inLoop(v.l, val) {
		return
	}
	switch t := val.(type) {
	case *ssa.UnOp:
		if t.Op == token.MUL {
			v.location(t.X)
		}
	case *ssa.Lookup:
		v.roots[pathOf(t.X).Root] = true
		v.maps[pathOf(t.X).String()] = true
		if f := tableOf(t.X); f != nil {
			v.fields[f] = true
		}
	case *ssa.Call:
		cc := &t.Call
		if it, next, ok := iteratorCall(cc); ok && !next {
			k, _ := itKey(it)
			v.iters[k] = true
		}
		if r := recvOf(cc); r != nil {
			v.roots[pathOf(r).Root] = true
		}
		// what the callee reads
		fns, _ := v.x.c.callees(cc)
		for _, g := range fns {
			if len(fns) > 6 {
				break
			}
			v.reads(v.x.c.unwrap(g), 0)
		}
	case *ssa.Phi:
		// which edge is taken decides
		for _, p := range t.Block().Preds {
			if !v.l.body[p] || t.Block() == v.l.header {
				continue
			}
			for d := p; d != nil && v.l.body[d]; d = d.Idom() {
				if k, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && d != v.l.header {
					v.collect(k.Cond)
				}
				if d == t.Block().Idom() {
					break
				}
			}
		}
	}
	for _, op := range operandsOf(val) {
		v.collect(op)
	}
}

func (v *loopView) reads(g *ssa.Function, d int) {
	if d > 2 || pkgPath(g) != v.x.c.Ecore.PkgPath {
		return
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.UnOp:
				if t.Op == token.MUL {
					if f := addrField(t.X); f != nil {
						v.fields[f] = true
					}
				}
			case ssa.CallInstruction:
				if h := t.Common().StaticCallee(); h != nil {
					v.reads(v.x.c.unwrap(h), d+1)
				}
			}
		}
	}
}

func (v *loopView) location(addr ssa.Value) {
	for addr != nil {
		if f := addrField(addr); f != nil {
			v.fields[f] = true
		}
		switch t := addr.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
			v.cells[addr] = true
			return
		case *ssa.Phi:
			v.cells[addr] = true
			return
		case *ssa.FieldAddr:
			addr = t.X
		case *ssa.IndexAddr:
			v.cells[t.X] = true
			addr = t.X
		case *ssa.UnOp:
			addr = t.X
		default:
			return
		}
	}
}

// changes: the instruction may change what the exits depend on.
func (v *loopView) changes(in ssa.Instruction) bool {
	switch t := in.(type) {
	case *ssa.Next:
		return v.depend[t]
	case *ssa.Select:
		return true
	case *ssa.UnOp:
		return t.Op == token.ARROW
	case *ssa.Store:
		a := t.Addr
		for a != nil {
			if f := addrField(a); f != nil && v.fields[f] {
				return true
			}
			if v.cells[a] {
				return true
			}
			switch k := a.(type) {
			case *ssa.FieldAddr:
				a = k.X
			case *ssa.IndexAddr:
				a = k.X
			case *ssa.UnOp:
				a = k.X
			default:
				a = nil
			}
		}
	case *ssa.MapUpdate:
		return v.maps[pathOf(t.Map).String()] || v.fields[tableOf(t.Map)] && tableOf(t.Map) != nil
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		cc := ci.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "delete" || b.Name() == "clear" {
				return v.maps[pathOf(cc.Args[0]).String()] || v.fields[tableOf(cc.Args[0])]
			}
			return false
		}
		if it, next, ok := iteratorCall(cc); ok {
			k, p := itKey(it)
			if next && (v.iters[k] || p.Root != nil && v.roots[p.Root]) {
				return true
			}
			if !next {
				return false
			}
		}
		if v.x.pure(cc) {
			return false
		}
		if val, ok := in.(ssa.Value); ok && v.depend[val] {
			return true // it computes something the exits depend on and is more than a question
		}
		for _, a := range cc.Args {
			r := pathOf(a).Root
			if v.roots[r] || v.cells[r] {
				return true
			}
			if isIterator(a.Type()) {
				if k, _ := itKey(a); v.iters[k] {
					return true
				}
			}
			if m, ok := a.(*ssa.MakeClosure); ok {
				for _, b := range m.Bindings {
					if v.cells[b] {
						return true
					}
				}
			}
		}
		if cc.IsInvoke() && v.roots[pathOf(cc.Value).Root] {
			return true
		}
		if u, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range u.Bindings {
				if v.cells[b] {
					return true
				}
			}
		}
		fns, _ := v.x.c.callees(cc)
		for _, g := range fns {
			for f := range v.x.writesField(v.x.c.unwrap(g)) {
				if v.fields[f] {
					return true
				}
			}
		}
		if n := calleeName(cc); n == "Wait" || n == "Sleep" {
			return true
		}
	}
	return false
}

// moving: the value may differ from one round to the next.
func (v *loopView) moving(val ssa.Value, d int) bool {
	if !inLoop(v.l, val) {
		return false
	}
	if r, ok := v.movesM[val]; ok {
		return r
	}
	if v.movesM == nil {
		v.movesM = map[ssa.Value]bool{}
	}
	v.movesM[val] = false
	r := v.moves(val, d)
	v.movesM[val] = r
	return r
}

func (v *loopView) moves(val ssa.Value, d int) bool {
	switch t := val.(type) {
	case *ssa.Phi:
		if t.Block() == v.l.header {
			// a variable of the loop: does it move?
			for i, e := range t.Edges {
				if v.l.body[t.Block().Preds[i]] && e != ssa.Value(t) && (v.moving(e, d+1) || usesPhi(v.l, e, t, 0)) {
					return true
				}
			}
			return false
		}
		return true
	case *ssa.UnOp:
		if t.Op == token.ARROW {
			return true
		}
		if t.Op == token.MUL {
			return v.written(t.X) || v.moving(t.X, d+1)
		}
	case *ssa.Lookup:
		if v.written(t) {
			return true
		}
	case *ssa.Next:
		return true
	case *ssa.Select:
		return true
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice:
		return false
	case *ssa.Call:
		if !v.x.pure(&t.Call) {
			return true
		}
		if r := recvOf(&t.Call); r != nil {
			// a question about something the loop works on
			root := pathOf(r).Root
			for b := range v.l.body {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci != ssa.CallInstruction(t) && !v.x.pure(ci.Common()) {
						if q := recvOf(ci.Common()); q != nil && pathOf(q).Root == root {
							return true
						}
						for _, a := range ci.Common().Args {
							if pathOf(a).Root == root {
								return true
							}
						}
					}
				}
			}
		}
	}
	for _, op := range operandsOf(val) {
		if v.moving(op, d+1) {
			return true
		}
	}
	return false
}

// operandsOf a value; the elements of a slice literal count.
func operandsOf(val ssa.Value) []ssa.Value {
	var out []ssa.Value
	if s, ok := val.(*ssa.Slice); ok {
		if _, ok := s.X.(*ssa.Alloc); ok {
			out = append(out, sliceElems(s)...)
		}
	}
	if in, ok := val.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil {
				out = append(out, *op)
			}
		}
	}
	return out
}

// usesPhi: e is computed from the loop variable p.
func usesPhi(l *loopInfo, e ssa.Value, p *ssa.Phi, d int) bool {
	if e == ssa.Value(p) {
		return true
	}
	if d > 8 || !inLoop(l, e) {
		return false
	}
	if ph, ok := e.(*ssa.Phi); ok && ph.Block() == l.header {
		return false
	}
	for _, op := range operandsOf(e) {
		if usesPhi(l, op, p, d+1) {
			return true
		}
	}
	return false
}

// written: the loop assigns the location.
func (v *loopView) written(addr ssa.Value) bool {
	w := &loopView{x: v.x, l: v.l, fn: v.fn, depend: map[ssa.Value]bool{}, fields: map[*types.Var]bool{}, cells: map[ssa.Value]bool{}, roots: map[ssa.Value]bool{}, iters: map[string]bool{}, maps: map[string]bool{}}
	if lk, ok := addr.(*ssa.Lookup); ok {
		w.maps[pathOf(lk.X).String()] = true
		if f := tableOf(lk.X); f != nil {
			w.fields[f] = true
		}
	} else {
		w.location(addr)
	}
	for b := range v.l.body {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Call:
				if w.changes(in) {
					return true
				}
			}
		}
	}
	return false
}

// stuck looks for a round of the loop that changes nothing.
func (v *loopView) stuck() []*ssa.BasicBlock {
	type item struct {
		b     *ssa.BasicBlock
		same  string // inner phis that still hold the value of a loop variable, "t5=t2"
		trail []*ssa.BasicBlock
	}
	var vars []*ssa.Phi
	for _, in := range v.l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok && v.depend[p] {
			vars = append(vars, p)
		}
	}
	originOf := func(val ssa.Value, same string) string {
		for _, p := range vars {
			if val == ssa.Value(p) {
				return p.Name()
			}
		}
		for _, s := range strings.Split(same, ";") {
			if strings.HasPrefix(s, val.Name()+"=") {
				return s[len(val.Name())+1:]
			}
		}
		return ""
	}
	// condKey of a comparison of values that stay as they are during the round
	// and of what is read from memory, as long as nothing is written: "~"
	var read func(x ssa.Value, d int) string
	read = func(x ssa.Value, d int) string {
		if d > 6 {
			return ""
		}
		switch t := x.(type) {
		case *ssa.UnOp:
			if fa, ok := t.X.(*ssa.FieldAddr); ok && t.Op == token.MUL {
				if b := read(fa.X, d+1); b != "" {
					return b + "." + fieldOf(fa).Name()
				}
				return fa.X.Name() + "." + fieldOf(fa).Name()
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if r := read(t.Call.Args[0], d+1); r != "" {
					return "len(" + r + ")"
				}
			}
			if t.Call.IsInvoke() && t.Call.Method.Name() == "HasNext" && len(t.Call.Args) == 0 {
				if r := read(t.Call.Value, d+1); r != "" {
					return "HasNext(" + r + ")"
				}
			}
		}
		return ""
	}
	condKeyIn := func(cond ssa.Value, same string) string {
		if r := read(cond, 0); r != "" {
			return "?~" + r
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			return ""
		}
		name := func(x ssa.Value) string {
			if c, ok := x.(*ssa.Const); ok {
				return c.String()
			}
			if o := originOf(x, same); o != "" {
				return o
			}
			if !inLoop(v.l, x) {
				return x.Name()
			}
			return ""
		}
		a, b := name(bo.X), name(bo.Y)
		if r := read(bo.X, 0); r != "" && b != "" {
			// a question and its opposite are one
			if bo.Op == token.NEQ {
				return "?~" + r + "==" + b + "!"
			}
			return "?~" + r + bo.Op.String() + b
		}
		if a == "" || b == "" {
			return ""
		}
		return "?" + a + bo.Op.String() + b
	}
	seen := map[string]bool{}
	work := []item{{v.l.header, "", nil}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		moved := false
		for _, in := range it.b.Instrs {
			if v.changes(in) {
				moved = true
				break
			}
		}
		if moved {
			continue
		}
		held := it.same
		if writesMemory(it.b) {
			held = ""
			for _, k := range strings.Split(it.same, ";") {
				if k != "" && !strings.HasPrefix(k, "?~") {
					held = evAdd(held, k)
				}
			}
		}
		for si, s := range it.b.Succs {
			if !v.l.body[s] {
				continue
			}
			known := held
			if br, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
				if k := condKeyIn(br.Cond, it.same); k != "" {
					want := "+"
					if (si == 1) != strings.HasSuffix(k, "!") {
						want = "-"
					}
					k = strings.TrimSuffix(k, "!")
					if evHas(known, k+"+") && want == "-" || evHas(known, k+"-") && want == "+" {
						continue
					}
					known = evAdd(known, k+want)
				}
			}
			pi := -1
			for i, p := range s.Preds {
				if p == it.b {
					pi = i
				}
			}
			if s == v.l.header {
				change := false
				for _, p := range vars {
					e := p.Edges[pi]
					if originOf(e, it.same) == p.Name() {
						continue
					}
					if c, ok := e.(*ssa.Const); ok {
						for i, o := range p.Edges {
							if i != pi && o.String() != c.String() {
								change = true
							}
						}
						continue
					}
					if v.moving(e, 0) || usesPhi(v.l, e, p, 0) {
						change = true
					}
				}
				if !change {
					return append(it.trail, it.b)
				}
				continue
			}
			same := known
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if o := originOf(ph.Edges[pi], it.same); o != "" {
					same = evAdd(same, ph.Name()+"="+o)
				}
			}
			k := fmt.Sprintf("%d|%s", s.Index, same)
			if seen[k] {
				continue
			}
			seen[k] = true
			work = append(work, item{s, same, append(append([]*ssa.BasicBlock(nil), it.trail...), it.b)})
		}
	}
	return nil
}

// writesMemory: something in the block may change what is in memory.
func writesMemory(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch t := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			return true
		case *ssa.Call:
			if bi, ok := t.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			if t.Call.IsInvoke() && t.Call.Method.Name() == "HasNext" {
				continue
			}
			return true
		}
	}
	return false
}

func checkC40(c *Ctx) {
	c.Rule("progress", "on every path through a round of a loop, something that a condition the loop can be left by depends on is changed: a loop variable gets a value computed from what moves, an iterator is advanced, a variable, field or table is updated, or something is received")
	x := &progress{c: c, pures: map[*ssa.Function]int{}, wr: map[*ssa.Function]map[*types.Var]bool{}}
	count := map[string]int{}
	for _, fn := range c.Funcs {
		loops := naturalLoops(fn)
		sort.Slice(loops, func(i, j int) bool { return loops[i].header.Index < loops[j].header.Index })
		for _, l := range loops {
			count[fname(fn)]++
			key := fmt.Sprintf("%s #%d", fname(fn), count[fname(fn)])
			v, exits := x.view(fn, l)
			pos := token.NoPos
			for b := range l.body {
				for _, in := range b.Instrs {
					if p := in.Pos(); p.IsValid() && (!pos.IsValid() || p < pos) {
						pos = p
					}
				}
			}
			if exits == 0 {
				waits := false
				for b := range l.body {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
							waits = true
						}
						if _, ok := in.(*ssa.Select); ok {
							waits = true
						}
					}
				}
				c.Decide(waits, "progress", key, pos, "the loop in %s is never left", fname(fn))
				continue
			}
			trail := v.stuck()
			where := ""
			for _, b := range trail {
				for _, in := range b.Instrs {
					if in.Pos().IsValid() {
						where = c.at(in.Pos())
					}
				}
			}
			c.Decide(trail == nil, "progress", key, pos, "a round of the loop in %s (through %s) changes nothing that the conditions it can be left by depend on", fname(fn), where)
		}
	}
	c.Floor("progress", 100)
}
