package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C36", checkC36) }

// The prefixes that are bound by the XML recommendation itself.
var predeclared = map[string]bool{"xml": true, "xmlns": true}

// What the reserved prefixes of the writers stand for.
var reservedURI = map[string]string{
	"xsi": "http://www.w3.org/2001/XMLSchema-instance",
	"xmi": "http://www.omg.org/XMI",
}

var (
	prefixedName = regexp.MustCompile(`(?:^|[\s<])([A-Za-z_][\w.-]*):[A-Za-z_][\w.-]*(?:$|[\s=>/])`)
	declaredName = regexp.MustCompile(`(?:^|[\s<])xmlns:([A-Za-z_][\w.-]*)(?:$|[\s=])`)
)

// prefixes follows the namespace prefixes of the XML writers.
type prefixes struct {
	c *Ctx
	// declared: the table of the prefixes the document declares
	declared *types.Var
	// known: tables of prefixes that are in declared already
	known map[*types.Var]bool
	depth int
}

func (x *prefixes) writer(fn *ssa.Function) bool {
	is := func(t types.Type) bool {
		n := originName(t)
		return n == "xmlString" || n == "XMLEncoder" || x.c.embedsNamed(t, "XMLEncoder")
	}
	top := topFn(fn)
	for _, p := range top.Params {
		if is(p.Type()) {
			return true
		}
	}
	return false
}

func (c *Ctx) embedsNamed(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() && (originName(f.Type()) == name || c.embedsNamed(f.Type(), name)) {
			return true
		}
	}
	return false
}

// tableOf: the field the map value was loaded from.
func tableOf(v ssa.Value) *types.Var {
	for i := 0; i < 4; i++ {
		switch t := v.(type) {
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if f := addrField(t.X); f != nil {
					return f
				}
				if s := singleStore(t.X); s != nil {
					v = s
					continue
				}
			}
			return nil
		case *ssa.ChangeType:
			v = t.X
		default:
			return nil
		}
	}
	return nil
}

func sameText(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if s, ok := constStr(a); ok {
		if r, ok := constStr(b); ok {
			return s == r
		}
	}
	if la, ok := a.(*ssa.UnOp); ok && la.Op == token.MUL {
		if v := singleStore(la.X); v != nil {
			return sameText(v, b)
		}
	}
	if lb, ok := b.(*ssa.UnOp); ok && lb.Op == token.MUL {
		if v := singleStore(lb.X); v != nil {
			return sameText(a, v)
		}
	}
	return false
}

// registers: the instruction enters key among the declared prefixes, or declares
// it in the document itself.
func (x *prefixes) registers(in ssa.Instruction, key ssa.Value) bool {
	if u, ok := in.(*ssa.MapUpdate); ok {
		return tableOf(u.Map) == x.declared && sameText(u.Key, key)
	}
	if p, ok := constStr(key); ok {
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if s, ok := constStr(*op); ok {
				for _, m := range declaredName.FindAllStringSubmatch(s, -1) {
					if m[1] == p {
						return true
					}
				}
			}
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, ok := in.(*ssa.Go); ok {
		return false
	}
	cc := ci.Common()
	g := cc.StaticCallee()
	if g == nil || cc.IsInvoke() || x.depth > 6 {
		return false
	}
	g = x.c.unwrap(g)
	if len(g.Blocks) == 0 || pkgPath(g) != x.c.Ecore.PkgPath {
		return false
	}
	x.depth++
	defer func() { x.depth-- }()
	if _, ok := constStr(key); ok {
		if always(g, func(i ssa.Instruction) bool { return x.registers(i, key) }) {
			return true
		}
	}
	for i, a := range cc.Args {
		if i < len(g.Params) && sameText(a, key) {
			if always(g, func(in ssa.Instruction) bool { return x.registers(in, g.Params[i]) }) {
				return true
			}
		}
	}
	return false
}

func (x *prefixes) around(fn *ssa.Function, at ssa.Instruction, edge *ssa.BasicBlock, key ssa.Value) bool {
	ev := func(in ssa.Instruction) bool { return x.registers(in, key) }
	if x.registers(at, key) {
		return true
	}
	return before(fn, at, ev) || after(at, edge, ev)
}

// ok: on every path through at, the prefix v has been or will be declared.
func (x *prefixes) ok(v ssa.Value, at ssa.Instruction, edge *ssa.BasicBlock, d int) bool {
	if d > 12 {
		return false
	}
	if s, ok := constStr(v); ok && (s == "" || predeclared[s]) {
		return true
	}
	fn := at.Parent()
	if x.around(fn, at, edge, v) {
		return true
	}
	switch t := v.(type) {
	case *ssa.Phi:
		for i, e := range t.Edges {
			p := t.Block().Preds[i]
			if e == t {
				continue
			}
			if !x.ok(e, p.Instrs[len(p.Instrs)-1], t.Block(), d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		switch u := t.Tuple.(type) {
		case *ssa.Lookup:
			return x.known[tableOf(u.X)]
		case *ssa.Next:
			if r, ok := u.Iter.(*ssa.Range); ok {
				f := tableOf(r.X)
				return t.Index == 1 && f == x.declared || t.Index == 2 && x.known[f]
			}
		case *ssa.Call:
			return x.returned(u, t.Index, d)
		}
	case *ssa.Lookup:
		return x.known[tableOf(t.X)]
	case *ssa.Call:
		return x.returned(t, 0, d)
	case *ssa.UnOp:
		if t.Op != token.MUL {
			break
		}
		if s := singleStore(t.X); s != nil {
			return x.ok(s, at, edge, d+1)
		}
		if ia, ok := t.X.(*ssa.IndexAddr); ok {
			return x.list(ia.X, d+1)
		}
	case *ssa.Parameter:
		sites := x.c.staticCalls(topFn(fn))
		if t.Parent() != fn || len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			i := -1
			for k, p := range fn.Params {
				if p == t {
					i = k
				}
			}
			if i < 0 || i >= len(s.Common().Args) || !x.ok(s.Common().Args[i], s, nil, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// list: a slice of prefixes that are declared.
func (x *prefixes) list(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Lookup:
		return x.known[tableOf(t.X)]
	case *ssa.Extract:
		if l, ok := t.Tuple.(*ssa.Lookup); ok {
			return x.known[tableOf(l.X)]
		}
		if n, ok := t.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return x.known[tableOf(r.X)]
			}
		}
	case *ssa.Slice:
		return x.list(t.X, d+1)
	case *ssa.UnOp:
		if s := singleStore(t.X); s != nil {
			return x.list(s, d+1)
		}
	case *ssa.Phi:
		for _, e := range t.Edges {
			if e != t && !x.list(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return t.IsNil()
	}
	return false
}

func (x *prefixes) returned(call *ssa.Call, idx, d int) bool {
	g := call.Call.StaticCallee()
	if g == nil {
		return false
	}
	g = x.c.unwrap(g)
	if len(g.Blocks) == 0 || pkgPath(g) != x.c.Ecore.PkgPath {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) && b != g.Recover {
			n++
			if !x.ok(r.Results[idx], r, nil, d+1) {
				return false
			}
		}
	}
	return n > 0
}

// staticCalls of the function.
func (c *Ctx) staticCalls(g *ssa.Function) []ssa.CallInstruction {
	if c.siteMemo == nil {
		c.siteMemo = map[*ssa.Function][]ssa.CallInstruction{}
		for _, fn := range c.Funcs {
			for _, ci := range calls(fn) {
				if h := ci.Common().StaticCallee(); h != nil {
					h = c.unwrap(h)
					c.siteMemo[h] = append(c.siteMemo[h], ci)
				}
			}
		}
	}
	return c.siteMemo[g]
}

// emission of a name with a constant prefix: every path through it declares it,
// or every call of the function is on such paths.
func (x *prefixes) emission(at ssa.Instruction, p ssa.Value, d int) string {
	fn := at.Parent()
	if x.around(fn, at, nil, p) {
		return ""
	}
	sites := x.c.staticCalls(fn)
	if len(sites) == 0 || d > 5 {
		return "there is a path through " + fname(fn)
	}
	for _, s := range sites {
		if !x.writer(s.Parent()) {
			return "there is a path through " + fname(s.Parent())
		}
		if m := x.emission(s, p, d+1); m != "" {
			return m
		}
	}
	return ""
}

// flatten a concatenation.
func concatOf(v ssa.Value) []ssa.Value {
	switch t := v.(type) {
	case *ssa.BinOp:
		if t.Op == token.ADD && isString(t.Type()) {
			return append(concatOf(t.X), concatOf(t.Y)...)
		}
	case *ssa.Call:
		if calleeName(&t.Call) == "Sprintf" && calleePkg(&t.Call) == "fmt" && len(t.Call.Args) == 2 {
			format, ok := constStr(t.Call.Args[0])
			elems := sliceElems(t.Call.Args[1])
			texts := verb.Split(format, -1)
			if ok && len(texts) == len(elems)+1 {
				var out []ssa.Value
				for i, s := range texts {
					out = append(out, ssa.NewConst(constant.MakeString(s), types.Typ[types.String]))
					if i < len(elems) {
						e := elems[i]
						if mi, ok := e.(*ssa.MakeInterface); ok {
							e = mi.X
						}
						out = append(out, e)
					}
				}
				return out
			}
		}
	}
	return []ssa.Value{v}
}

func checkC36(c *Ctx) {
	c.Rule("reserved", "a name with a reserved prefix is only written on paths that declare that prefix")
	c.Rule("package", "a prefix put before a name, or remembered for a package or a namespace, is one the document declares")
	c.Rule("uri", "a reserved prefix is declared with the namespace it stands for")
	c.Rule("kept", "the table of the declared prefixes only grows")
	c.Rule("declares", "every prefix of the table is declared")
	c.Rule("flush", "the declarations are written after everything that registers a prefix and before the document is output")
	enc := c.named("XMLEncoder")
	if enc == nil {
		c.Bad("package", "XMLEncoder", token.NoPos, "the XML encoder is gone")
		return
	}
	x := &prefixes{c: c, known: map[*types.Var]bool{}}
	st := enc.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		m, ok := f.Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		switch e := m.Elem().Underlying().(type) {
		case *types.Basic:
			if e.Kind() != types.String {
				continue
			}
			if isString(m.Key()) {
				x.declared = f
			} else {
				x.known[f] = true
			}
		case *types.Slice:
			if isString(e.Elem()) {
				x.known[f] = true
			}
		}
	}
	if x.declared == nil {
		c.Bad("package", "XMLEncoder", enc.Obj().Pos(), "the XML encoder has no table of the prefixes it declares")
		return
	}
	declarers := map[*ssa.Function]bool{}
	mayRegister := map[*ssa.Function]bool{}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					x.replaced(fn, st)
				}
			}
		}
		if !x.writer(fn) {
			continue
		}
		seen := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x.instr(fn, in, seen)
				if u, ok := in.(*ssa.MapUpdate); ok && tableOf(u.Map) == x.declared {
					mayRegister[topFn(fn)] = true
				}
			}
		}
		if x.declares(fn) {
			declarers[fn] = true
		}
	}
	// an override that runs the declarer on all its paths declares as well
	isDecl := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cc := ci.Common()
		if cc.IsInvoke() {
			fns, ext := c.callees(cc)
			if len(fns) == 0 || ext {
				return false
			}
			for _, f := range fns {
				if !declarers[c.unwrap(f)] {
					return false
				}
			}
			return true
		}
		g := cc.StaticCallee()
		return g != nil && declarers[c.unwrap(g)]
	}
	base := len(declarers)
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if !declarers[fn] && x.writer(fn) && len(fn.Blocks) > 0 && always(fn, isDecl) {
				declarers[fn] = true
				changed = true
			}
		}
	}
	if base == 0 {
		c.Bad("declares", "table", enc.Obj().Pos(), "no function of the writer declares every prefix of the table %s", x.declared.Name())
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if mayRegister[topFn(fn)] || !x.writer(fn) {
				continue
			}
			for _, ci := range calls(fn) {
				if g := ci.Common().StaticCallee(); g != nil && mayRegister[c.unwrap(g)] {
					mayRegister[topFn(fn)] = true
					changed = true
				}
			}
		}
	}
	x.flush(isDecl, mayRegister)
	c.Floor("reserved", 4)
	c.Floor("package", 6)
	c.Floor("declares", 1)
	c.Floor("flush", 2)
	c.Notes["tables"] = map[string]any{"declared": x.declared.Name(), "declarers": len(declarers)}
}

func (x *prefixes) instr(fn *ssa.Function, in ssa.Instruction, seen map[string]bool) {
	c := x.c
	// the tables
	switch t := in.(type) {
	case *ssa.MapUpdate:
		f := tableOf(t.Map)
		switch {
		case f == nil:
		case f == x.declared:
			if p, ok := constStr(t.Key); ok && reservedURI[p] != "" {
				u, ok := constStr(t.Value)
				c.Decide(ok && u == reservedURI[p], "uri", fname(fn)+" "+p, in.Pos(), "%s declares the prefix %s with something else than %s", fname(fn), p, reservedURI[p])
			}
			if p, ok := constStr(t.Value); ok && reservedURI[p] != "" {
				c.Bad("uri", fname(fn)+" "+p, in.Pos(), "%s enters the prefix %s as a namespace", fname(fn), p)
			}
		case x.known[f]:
			for _, v := range x.entered(t.Value) {
				key := fname(fn) + " " + f.Name()
				c.Decide(x.ok(v, in, nil, 0), "package", key, in.Pos(), "%s remembers a prefix in %s on a path that does not declare it (%s[prefix] = uri)", fname(fn), f.Name(), x.declared.Name())
			}
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && tableOf(t.Call.Args[0]) == x.declared {
			c.Bad("kept", fname(fn), in.Pos(), "%s removes prefixes from %s: a name already written may use them", fname(fn), x.declared.Name())
		}
	case *ssa.BinOp:
		if t.Op == token.ADD && isString(t.Type()) {
			x.concat(fn, t, seen)
		}
	}
	if ci, ok := in.(*ssa.Call); ok {
		x.concat(fn, ci, seen)
	}
	// constant names
	switch in.(type) {
	case *ssa.Call, *ssa.Defer, *ssa.Phi, *ssa.Store, *ssa.Return, *ssa.BinOp, *ssa.MakeInterface:
	default:
		return
	}
	if b, ok := in.(*ssa.BinOp); ok && b.Op != token.ADD {
		return
	}
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		s, ok := constStr(*op)
		if !ok {
			continue
		}
		for _, m := range prefixedName.FindAllStringSubmatch(s, -1) {
			p := m[1]
			if predeclared[p] {
				continue
			}
			key := fname(fn) + " " + strings.TrimSpace(m[0])
			if seen[key] {
				continue
			}
			seen[key] = true
			msg := x.emission(in, ssa.NewConst(constant.MakeString(p), types.Typ[types.String]), 0)
			c.Decide(msg == "", "reserved", key, in.Pos(), "%s writes the name %q, but %s that does not declare the prefix %s", fname(fn), strings.TrimSpace(m[0]), msg, p)
		}
	}
}

// entered: the prefixes a value stored in one of the tables adds to it.
func (x *prefixes) entered(v ssa.Value) []ssa.Value {
	if isString(v.Type()) {
		return []ssa.Value{v}
	}
	switch t := v.(type) {
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if len(t.Call.Args) == 2 {
				return append(x.entered(t.Call.Args[0]), sliceElems(t.Call.Args[1])...)
			}
		}
	case *ssa.Slice:
		return sliceElems(t)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range t.Edges {
			if e != t {
				out = append(out, x.entered(e)...)
			}
		}
		return out
	}
	return nil
}

func (x *prefixes) onlyFresh(fn *ssa.Function, v ssa.Value) bool {
	p, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	sites := x.c.staticCalls(fn)
	for _, s := range sites {
		for i, q := range fn.Params {
			if q == p {
				if _, ok := s.Common().Args[i].(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return len(sites) > 0
}

// concat: prefix + ":" + name.
func (x *prefixes) concat(fn *ssa.Function, v ssa.Value, seen map[string]bool) {
	parts := concatOf(v)
	for i := 1; i < len(parts); i++ {
		s, ok := constStr(parts[i])
		if !ok || !strings.HasPrefix(s, ":") {
			continue
		}
		p := parts[i-1]
		if k, ok := constStr(p); ok && (k == "" || predeclared[k]) {
			continue
		}
		if len(s) > 1 && !nameStart(s[1]) || len(s) == 1 && i+1 == len(parts) {
			continue
		}
		if i-2 >= 0 {
			if s, ok := constStr(parts[i-2]); ok && s != "" && !strings.HasSuffix(s, "<") && !strings.HasSuffix(s, " ") && !strings.HasSuffix(s, "/") {
				continue
			}
		}
		key := fname(fn) + " name"
		if seen[key+p.Name()] {
			continue
		}
		seen[key+p.Name()] = true
		x.c.Decide(x.ok(p, v.(ssa.Instruction), nil, 0), "package", key, v.Pos(), "%s writes a name with a prefix that is not declared on every path", fname(fn))
	}
}

func nameStart(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// declares: the function goes over the whole table and writes one declaration for
// each of its prefixes.
func (x *prefixes) declares(fn *ssa.Function) bool {
	c := x.c
	whole := false
	var ranges []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Range:
				if tableOf(t.X) == x.declared {
					whole = true
					for _, r := range *t.Referrers() {
						if n, ok := r.(*ssa.Next); ok {
							ranges = append(ranges, n.Block())
						}
					}
				}
			case *ssa.Call:
				if calleePkg(&t.Call) == "maps" && len(t.Call.Args) == 1 && tableOf(t.Call.Args[0]) == x.declared {
					whole = true
				}
			}
		}
	}
	if !whole {
		return false
	}
	writes := func(in ssa.Instruction) bool { return x.writes(in, 0) }
	collects := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok {
				return b.Name() == "append"
			}
		}
		if s, ok := in.(*ssa.Store); ok {
			_, ok := s.Addr.(*ssa.IndexAddr)
			return ok && isString(s.Val.Type())
		}
		return false
	}
	emits := false
	ok := true
	for _, l := range naturalLoops(fn) {
		over := false
		for _, r := range ranges {
			over = over || l.header == r
		}
		has := false
		for b := range l.body {
			for _, in := range b.Instrs {
				has = has || writes(in)
			}
		}
		if !over && !has {
			continue
		}
		if eachRound(l, func(in ssa.Instruction) bool { return writes(in) || over && collects(in) }) && (over || runsOutLoop(l)) {
			emits = emits || has
		} else {
			ok = false
		}
	}
	c.Decide(ok && emits, "declares", fname(fn), fn.Pos(), "%s goes over the declared prefixes but does not write a declaration for each of them", fname(fn))
	return true
}

// runsOutLoop: the loop is only left from its header.
func runsOutLoop(l *loopInfo) bool {
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				return false
			}
		}
	}
	return true
}

// eachRound: every round of the loop passes an instruction for which event holds.
func eachRound(l *loopInfo, event func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	hit := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if event(in) {
				return true
			}
		}
		return false
	}
	if hit(l.header) {
		return true
	}
	for _, s := range l.header.Succs {
		if l.body[s] {
			work = append(work, s)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == l.header {
			return false
		}
		if seen[b] || hit(b) {
			continue
		}
		seen[b] = true
		for _, s := range b.Succs {
			if l.body[s] {
				work = append(work, s)
			}
		}
	}
	return true
}

// writes: a call that writes to the markup buffer on all its paths.
func (x *prefixes) writes(in ssa.Instruction, d int) bool {
	call, ok := in.(*ssa.Call)
	if !ok || d > 4 {
		return false
	}
	g := call.Call.StaticCallee()
	if g == nil {
		return false
	}
	g = x.c.unwrap(g)
	if isMarkup(g) && g.Signature.Results().Len() == 0 {
		return true
	}
	if len(g.Blocks) == 0 || pkgPath(g) != x.c.Ecore.PkgPath || !x.writer(g) {
		return false
	}
	return always(g, func(i ssa.Instruction) bool { return x.writes(i, d+1) })
}

// flush: functions that output the document.
func (x *prefixes) flush(isDecl func(ssa.Instruction) bool, mayRegister map[*ssa.Function]bool) {
	c := x.c
	outputs := func(cc *ssa.CallCommon) bool {
		g := cc.StaticCallee()
		if g == nil || cc.IsInvoke() || !isMarkup(c.unwrap(g)) {
			return false
		}
		for _, p := range c.unwrap(g).Params {
			if typeName(p.Type()) == "io.Writer" || strings.HasSuffix(p.Type().String(), "io.Writer") {
				return true
			}
		}
		return false
	}
	var fns []*ssa.Function
	for _, fn := range c.Funcs {
		if x.writer(fn) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	for _, fn := range fns {
		for _, ci := range calls(fn) {
			if isMarkup(fn) || !outputs(ci.Common()) {
				continue
			}
			c.Decide(x.upward(ci, isDecl, 0), "flush", fname(fn)+" output", ci.Pos(), "%s outputs the document on a path that has not written the namespace declarations", fname(fn))
		}
		for _, ci := range calls(fn) {
			if !isDecl(ci) {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil && mayRegister[c.unwrap(g)] {
				continue
			}
			late := ""
			for _, in := range reachableAfter(ci) {
				if u, ok := in.(*ssa.MapUpdate); ok && tableOf(u.Map) == x.declared {
					late = "itself"
				}
				if k, ok := in.(ssa.CallInstruction); ok {
					if g := k.Common().StaticCallee(); g != nil && mayRegister[c.unwrap(g)] {
						late = fname(c.unwrap(g))
					}
				}
			}
			c.Decide(late == "", "flush", fname(fn)+" declarations", ci.Pos(), "%s writes the namespace declarations before %s registers prefixes", fname(fn), late)
		}
	}
}

// upward: every path to the instruction has passed the event, in this function or
// in all those that call it.
func (x *prefixes) upward(at ssa.Instruction, event func(ssa.Instruction) bool, d int) bool {
	fn := at.Parent()
	if before(fn, at, event) {
		return true
	}
	sites := x.c.staticCalls(fn)
	if len(sites) == 0 || d > 4 {
		return false
	}
	for _, s := range sites {
		if !x.upward(s, event, d+1) {
			return false
		}
	}
	return true
}

// replaced: the table is only assigned in an encoder under construction.
func (x *prefixes) replaced(fn *ssa.Function, t *ssa.Store) {
	c, in := x.c, t
	if addrField(t.Addr) == x.declared {
		fa := t.Addr.(*ssa.FieldAddr)
		fresh := false
		switch r := fa.X.(type) {
		case *ssa.Alloc:
			fresh = true
			_ = r
		case *ssa.UnOp:
			_, fresh = singleStore(r.X).(*ssa.Alloc)
		}
		if fresh || x.onlyFresh(fn, fa.X) {
			c.Ok("kept", fname(fn), in.Pos())
		} else {
			c.Bad("kept", fname(fn), in.Pos(), "%s replaces the table %s of an encoder in use", fname(fn), x.declared.Name())
		}
	}
}
