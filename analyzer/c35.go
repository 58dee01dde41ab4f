package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C35", checkC35) }

// Escape levels of the parts a string is made of. A string that is constant (or
// a number, or configuration of the writer) has none of the bits.
const (
	escRaw   uint8 = 1 << iota // something of the model as it is
	escOnce                    // escaped
	escTwice                   // escaped more than once
	escData                    // the text of a data value, which can be any bytes
)

// escaping computes how often the parts of a string have been escaped.
type escaping struct {
	c *Ctx
	// isEscape: the call escapes its only string argument
	isEscape func(cc *ssa.CallCommon) (arg ssa.Value, ok bool)
	busy     map[any]bool
	stores   map[*types.Var][]*ssa.Store
	callers  map[*ssa.Function][]ssa.CallInstruction
}

func newEscaping(c *Ctx) *escaping {
	e := &escaping{c: c, busy: map[any]bool{}, stores: map[*types.Var][]*ssa.Store{}, callers: map[*ssa.Function][]ssa.CallInstruction{}}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Store:
					if fv := addrField(t.Addr); fv != nil {
						e.stores[fv] = append(e.stores[fv], t)
					}
				case ssa.CallInstruction:
					if g := t.Common().StaticCallee(); g != nil {
						g = c.unwrap(g)
						e.callers[g] = append(e.callers[g], t)
					}
				}
			}
		}
	}
	return e
}

func shiftLevel(l uint8) uint8 {
	var r uint8
	if l&escRaw != 0 {
		r |= escOnce
	}
	if l&(escOnce|escTwice) != 0 {
		r |= escTwice
	}
	return r
}

type escEnv map[*ssa.Parameter]uint8

func (e *escaping) level(v ssa.Value, env escEnv, d int) uint8 {
	if v == nil || d > 40 {
		return escRaw
	}
	if plainType(v.Type()) {
		return 0
	}
	switch t := v.(type) {
	case *ssa.Const:
		return 0
	case *ssa.Parameter:
		if l, ok := env[t]; ok {
			return l
		}
		return e.param(t, d)
	}
	if e.busy[v] {
		return 0
	}
	e.busy[v] = true
	defer delete(e.busy, v)
	up := func(x ssa.Value) uint8 { return e.level(x, env, d+1) }
	switch t := v.(type) {
	case *ssa.Phi:
		var l uint8
		for i, x := range t.Edges {
			if !harmless(x, t.Block().Preds[i]) {
				l |= up(x)
			}
		}
		return l
	case *ssa.BinOp:
		return up(t.X) | up(t.Y)
	case *ssa.Convert:
		return up(t.X)
	case *ssa.ChangeType:
		return up(t.X)
	case *ssa.MakeInterface:
		return up(t.X)
	case *ssa.ChangeInterface:
		return up(t.X)
	case *ssa.TypeAssert:
		return up(t.X)
	case *ssa.Slice:
		if al, ok := t.X.(*ssa.Alloc); ok {
			return e.array(al, env, d)
		}
		return up(t.X)
	case *ssa.FreeVar:
		if b := rootBinding(t); b != nil {
			return up(b)
		}
		return escRaw
	case *ssa.Alloc:
		var l uint8
		for _, s := range cellStores(t, 0) {
			l |= up(s)
		}
		return l
	case *ssa.UnOp:
		if t.Op != token.MUL {
			return up(t.X)
		}
		switch a := t.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return up(a)
		case *ssa.Global:
			return 0
		case *ssa.FieldAddr:
			// the strings a writer is configured with, and what is kept in it
			fv := addrField(a)
			if fv == nil {
				return escRaw
			}
			if sl, ok := fv.Type().Underlying().(*types.Slice); !isString(fv.Type()) && !(ok && isString(sl.Elem())) {
				return escRaw
			}
			var l uint8
			for _, st := range e.stores[fv] {
				l |= e.level(st.Val, nil, d+1)
			}
			return l
		case *ssa.IndexAddr:
			return up(a.X)
		}
		return escRaw
	case *ssa.Lookup:
		// the options of a writer
		if m, ok := t.X.Type().Underlying().(*types.Map); ok {
			if _, isParam := t.X.(*ssa.Parameter); isParam && isString(m.Key()) {
				if _, any := m.Elem().Underlying().(*types.Interface); any {
					return 0
				}
			}
		}
		return escRaw
	case *ssa.Extract:
		if call, ok := t.Tuple.(*ssa.Call); ok {
			return e.call(call, t.Index, env, d)
		}
		return up(t.Tuple)
	case *ssa.Call:
		return e.call(t, 0, env, d)
	case *ssa.MakeSlice:
		return 0
	}
	return escRaw
}

// plainType: values of the type have no text of their own.
func plainType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
}

// harmless: where control is in the block the string is known to be empty, or to
// have nothing that needs escaping in it.
func harmless(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		up := d.Idom()
		if up == nil {
			return false
		}
		br, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok || up.Succs[0] == up.Succs[1] {
			continue
		}
		var taken bool
		switch {
		case up.Succs[0] == d && len(d.Preds) == 1:
			taken = true
		case up.Succs[1] == d && len(d.Preds) == 1:
		default:
			continue
		}
		cond := br.Cond
		if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
			cond, taken = n.X, !taken
		}
		switch t := cond.(type) {
		case *ssa.BinOp:
			x := t.X
			if call, ok := x.(*ssa.Call); ok && calleeName(&call.Call) == "len" {
				x = call.Call.Args[0]
				if n, ok := constInt(t.Y); !ok || n != 0 {
					continue
				}
				if t.Op == token.GTR && !taken && x == v {
					return true
				}
			} else if s, ok := constStr(t.Y); !ok || s != "" {
				continue
			}
			if x == v && (t.Op == token.EQL) == taken && (t.Op == token.EQL || t.Op == token.NEQ) {
				return true
			}
		case *ssa.Call:
			if calleeName(&t.Call) == "ContainsAny" && calleePkg(&t.Call) == "strings" && !taken && len(t.Call.Args) == 2 && t.Call.Args[0] == v {
				if s, ok := constStr(t.Call.Args[1]); ok && strings.Contains(s, "<") && strings.Contains(s, "&") && strings.Contains(s, `"`) {
					return true
				}
			}
		}
	}
	return false
}

func (e *escaping) param(p *ssa.Parameter, d int) uint8 {
	fn := p.Parent()
	idx := -1
	for i, x := range fn.Params {
		if x == p {
			idx = i
		}
	}
	if e.busy[p] {
		return 0
	}
	e.busy[p] = true
	defer delete(e.busy, p)
	var l uint8
	for _, ci := range e.callers[fn] {
		if as := ci.Common().Args; idx < len(as) {
			l |= e.level(as[idx], nil, d+1)
		}
	}
	return l
}

// array: the elements put in a variadic argument.
func (e *escaping) array(al *ssa.Alloc, env escEnv, d int) uint8 {
	var l uint8
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					l |= e.level(st.Val, env, d+1)
				}
			}
		}
	}
	return l
}

func (e *escaping) call(call *ssa.Call, idx int, env escEnv, d int) uint8 {
	cc := &call.Call
	if x, ok := e.isEscape(cc); ok {
		return shiftLevel(e.level(x, env, d+1))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		var l uint8
		if bi.Name() == "append" {
			for _, a := range cc.Args {
				l |= e.level(a, env, d+1)
			}
		}
		return l
	}
	if cc.IsInvoke() {
		if cc.Method.Name() == "ConvertToString" {
			return escRaw | escData
		}
		return escRaw
	}
	g := cc.StaticCallee()
	if g == nil {
		// any of the functions it can be
		fns, ext := e.c.callees(cc)
		if ext || len(fns) == 0 {
			return escRaw
		}
		var l uint8
		for _, g := range fns {
			l |= e.results(g, cc, idx, env, d)
		}
		return l
	}
	g = e.c.unwrap(g)
	if e.c.isEcore(pkgPath(g)) && len(g.Blocks) > 0 {
		return e.results(g, cc, idx, env, d)
	}
	switch pkgPath(g) {
	case "strconv", "strings", "fmt", "bytes":
		if g.Signature.Recv() != nil {
			if n := g.Name(); n == "String" || n == "Bytes" {
				return e.built(call.Parent(), cc.Args[0], env, d)
			}
			return escRaw
		}
		var l uint8
		for _, a := range cc.Args {
			l |= e.level(a, env, d+1)
		}
		return l
	}
	return escRaw
}

// results of a call of the function.
func (e *escaping) results(g *ssa.Function, cc *ssa.CallCommon, idx int, env escEnv, d int) uint8 {
	sub := escEnv{}
	for i, p := range g.Params {
		if i < len(cc.Args) {
			sub[p] = e.level(cc.Args[i], env, d+1)
		}
	}
	if e.busy[g] {
		return 0
	}
	e.busy[g] = true
	defer delete(e.busy, g)
	var l uint8
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) && !harmless(r.Results[idx], b) {
			l |= e.level(r.Results[idx], sub, d+1)
		}
	}
	return l
}

// built: what was written to a buffer of the function.
func (e *escaping) built(fn *ssa.Function, buf ssa.Value, env escEnv, d int) uint8 {
	if d > 40 {
		return escRaw
	}
	// in the function, and in the functions inside it
	var l uint8
	for _, g := range withClosures(fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					l |= e.writes(ci.Common(), buf, env, d)
				}
			}
		}
	}
	return l
}

func (e *escaping) writes(cc *ssa.CallCommon, buf ssa.Value, env escEnv, d int) uint8 {
	same := func(v ssa.Value) bool {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			v = rootBinding(fv)
		}
		return v == buf
	}
	at := -1
	for i, a := range cc.Args {
		if same(a) {
			at = i
		}
	}
	if at < 0 {
		return 0
	}
	rest := func() (l uint8) {
		for i, a := range cc.Args {
			if i != at {
				l |= e.level(a, env, d+1)
			}
		}
		return l
	}
	g := cc.StaticCallee()
	if g == nil {
		return escRaw
	}
	switch g = e.c.unwrap(g); pkgPath(g) {
	case "strings", "bytes":
		switch n := g.Name(); {
		case g.Signature.Recv() == nil || at != 0:
			return escRaw
		case strings.HasPrefix(n, "Write"):
			return rest()
		case n == "String" || n == "Bytes" || n == "Len" || n == "Grow" || n == "Reset" || n == "Cap":
			return 0
		}
	case "fmt", "io":
		if at == 0 && (strings.HasPrefix(g.Name(), "Fprint") || g.Name() == "WriteString") {
			return rest()
		}
	default:
		// a function of the package that writes to the buffer
		if !e.c.isEcore(pkgPath(g)) || len(g.Blocks) == 0 || at >= len(g.Params) || e.busy[g] {
			return escRaw
		}
		e.busy[g] = true
		defer delete(e.busy, g)
		sub := escEnv{}
		for i, p := range g.Params {
			if i != at && i < len(cc.Args) {
				sub[p] = e.level(cc.Args[i], env, d+1)
			}
		}
		return e.built(g, g.Params[at], sub, d+1)
	}
	return escRaw
}

// ------------------------------------------------------------------ markup

// markupWriter follows what the methods of the XML buffer write, to know whether
// a string becomes part of a name or of a value.
type markupWriter struct {
	e     *escaping
	depth int
	busy  map[*ssa.Function]bool
	emit  func(at ssa.Instruction, l uint8, content bool)
}

type markupCtx uint8

const (
	ctxName markupCtx = 1 << iota
	ctxContent
)

func ctxAfter(s string, was markupCtx) markupCtx {
	switch {
	case s == "":
		return was
	case strings.HasSuffix(s, `"`), strings.HasSuffix(s, ">"):
		return ctxContent
	}
	return ctxName
}

// primitive: the string the call writes to the XML buffer as it is.
func (m *markupWriter) primitive(cc *ssa.CallCommon) (ssa.Value, bool) {
	if cc.IsInvoke() {
		return nil, false
	}
	g := cc.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || pkgPath(g) != "strings" || !strings.HasPrefix(g.Name(), "Write") || len(cc.Args) != 2 {
		return nil, false
	}
	// the buffer of a segment
	v := cc.Args[0]
	for i := 0; i < 6; i++ {
		switch t := v.(type) {
		case *ssa.FieldAddr:
			if originName(t.X.Type()) == "xmlStringSegment" {
				return cc.Args[1], true
			}
			v = t.X
		case *ssa.UnOp:
			v = t.X
		default:
			return nil, false
		}
	}
	return nil, false
}

func isMarkup(g *ssa.Function) bool {
	r := g.Signature.Recv()
	if r == nil {
		return false
	}
	n := originName(r.Type())
	return n == "xmlString" || n == "xmlStringSegment"
}

var verb = regexp.MustCompile(`%[+#]?[vsdqxt]`)

// piece of a string: a constant, or something with a level.
type piece struct {
	text    string
	isConst bool
	level   uint8
}

type pieceEnv map[*ssa.Parameter][]piece

func (pe pieceEnv) levels() escEnv {
	if pe == nil {
		return nil
	}
	env := escEnv{}
	for p, ps := range pe {
		var l uint8
		for _, x := range ps {
			l |= x.level
		}
		env[p] = l
	}
	return env
}

// pieces of a string in the order they are written.
func (m *markupWriter) pieces(v ssa.Value, env pieceEnv) []piece {
	if s, ok := constStr(v); ok {
		return []piece{{text: s, isConst: true}}
	}
	switch t := v.(type) {
	case *ssa.Parameter:
		if ps, ok := env[t]; ok {
			return ps
		}
	case *ssa.MakeInterface:
		return m.pieces(t.X, env)
	case *ssa.BinOp:
		if t.Op == token.ADD {
			return append(append([]piece(nil), m.pieces(t.X, env)...), m.pieces(t.Y, env)...)
		}
	case *ssa.Call:
		if calleeName(&t.Call) == "Sprintf" && calleePkg(&t.Call) == "fmt" && len(t.Call.Args) == 2 {
			format, ok := constStr(t.Call.Args[0])
			elems := sliceElems(t.Call.Args[1])
			texts := verb.Split(format, -1)
			if !ok || len(texts) != len(elems)+1 {
				break
			}
			var out []piece
			for i, s := range texts {
				out = append(out, piece{text: s, isConst: true})
				if i < len(elems) {
					out = append(out, m.pieces(elems[i], env)...)
				}
			}
			return out
		}
	}
	return []piece{{level: m.e.level(v, env.levels(), 0)}}
}

// walk follows the method; at is the instruction outside the buffer it stems from.
func (m *markupWriter) walk(fn *ssa.Function, env pieceEnv, in markupCtx, at ssa.Instruction) markupCtx {
	if m.busy[fn] || m.depth > 8 {
		return ctxName | ctxContent
	}
	m.busy[fn] = true
	m.depth++
	defer func() { delete(m.busy, fn); m.depth-- }()
	state := map[*ssa.BasicBlock]markupCtx{fn.Blocks[0]: in}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var out markupCtx
	for n := 0; len(work) > 0 && n < 400; n++ {
		b := work[0]
		work = work[1:]
		c := state[b]
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				c = m.step(ci.Common(), env, c, at)
			}
			if _, ok := i.(*ssa.Return); ok {
				out |= c
			}
		}
		for _, s := range b.Succs {
			if state[s]|c != state[s] {
				state[s] |= c
				work = append(work, s)
			}
		}
	}
	return out
}

func (m *markupWriter) step(cc *ssa.CallCommon, env pieceEnv, c markupCtx, at ssa.Instruction) markupCtx {
	if x, ok := m.primitive(cc); ok {
		for _, p := range m.pieces(x, env) {
			switch {
			case p.isConst:
				c = ctxAfter(p.text, c)
			case p.level != 0:
				m.emit(at, p.level, c&ctxContent != 0)
			}
		}
		return c
	}
	g := cc.StaticCallee()
	if g == nil || cc.IsInvoke() {
		return c
	}
	g = m.e.c.unwrap(g)
	if !isMarkup(g) || len(g.Blocks) == 0 {
		return c
	}
	sub := pieceEnv{}
	for i, p := range g.Params {
		if i < len(cc.Args) && isString(p.Type()) {
			sub[p] = m.pieces(cc.Args[i], env)
		}
	}
	return m.walk(g, sub, c, at)
}

func checkC35(c *Ctx) {
	c.Rule("xml", "every string of the model that becomes part of an attribute value or of the content of an element is escaped exactly once on its way to the XML buffer")
	c.Rule("json", "every string of the model that the JSON writer takes as it is has been escaped, and none that it escapes itself has been escaped before")
	c.Rule("bytes", "the text of a data value, which can be any bytes, is escaped by the JSON encoder of the standard library in the single-valued and in the many-valued form")
	e := newEscaping(c)
	e.isEscape = func(cc *ssa.CallCommon) (ssa.Value, bool) {
		g := cc.StaticCallee()
		if g == nil || cc.IsInvoke() || len(cc.Args) != 1 {
			return nil, false
		}
		switch g.Name() {
		case "EscapeString", "HTMLEscapeString":
			switch pkgPath(g) {
			case "html", "golang.org/x/net/html", "html/template", "text/template":
				return cc.Args[0], true
			}
		}
		return nil, false
	}
	m := &markupWriter{e: e, busy: map[*ssa.Function]bool{}}
	for _, fn := range c.Funcs {
		if isMarkup(topFn(fn)) {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				g := cc.StaticCallee()
				if g == nil || cc.IsInvoke() {
					continue
				}
				if _, prim := m.primitive(cc); !prim && !isMarkup(c.unwrap(g)) {
					continue
				}
				var raw, twice, any bool
				m.emit = func(at ssa.Instruction, l uint8, content bool) {
					if !content {
						return
					}
					any = true
					raw = raw || l&escRaw != 0
					twice = twice || l&escTwice != 0
				}
				m.step(cc, nil, ctxContent, in)
				if !any {
					continue
				}
				n++
				key := fmt.Sprintf("%s %s %d", fname(fn), g.Name(), n)
				switch {
				case raw:
					c.Bad("xml", key, in.Pos(), "%s writes a string of the model to the document without escaping it (%s)", fname(fn), g.Name())
				case twice:
					c.Bad("xml", key, in.Pos(), "%s writes a string that is escaped twice (%s)", fname(fn), g.Name())
				default:
					c.Ok("xml", key, in.Pos())
				}
			}
		}
	}
	c.Floor("xml", 8)
	checkJSONEscape(c, e)
}

// takesRaw: methods of the JSON writer that write bytes as they are.
var takesRaw = map[string]bool{"Raw": true, "RawValue": true, "Literal": true, "KeyRaw": true}

func checkJSONEscape(c *Ctx, e *escaping) {
	memo := map[*ssa.Function]int{}
	// a function that answers what the standard encoder makes of its argument
	encodes := func(g *ssa.Function) bool {
		if g.Signature.Recv() != nil || g.Signature.Params().Len() != 1 || len(g.Blocks) == 0 || !isString(g.Signature.Params().At(0).Type()) {
			return false
		}
		if v, ok := memo[g]; ok {
			return v == 1
		}
		memo[g] = 0
		used, other := false, false
		var uses func(v ssa.Value)
		uses = func(v ssa.Value) {
			for _, r := range *v.Referrers() {
				switch t := r.(type) {
				case *ssa.MakeInterface:
					uses(t)
				case ssa.CallInstruction:
					cc := t.Common()
					if h := cc.StaticCallee(); h != nil && pkgPath(h) == "encoding/json" && (h.Name() == "Encode" || h.Name() == "Marshal") {
						used = true
						continue
					}
					other = true
				case *ssa.DebugRef:
				default:
					other = true
				}
			}
		}
		uses(g.Params[0])
		if used && !other {
			memo[g] = 1
		}
		return memo[g] == 1
	}
	e.isEscape = func(cc *ssa.CallCommon) (ssa.Value, bool) {
		if cc.IsInvoke() || len(cc.Args) != 1 {
			return nil, false
		}
		g := cc.StaticCallee()
		if g == nil {
			return nil, false
		}
		if pkgPath(g) == "encoding/json" && g.Name() == "Marshal" {
			return cc.Args[0], true
		}
		if c.isEcore(pkgPath(g)) && encodes(g) {
			return cc.Args[0], true
		}
		return nil, false
	}
	for _, fn := range c.Funcs {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				g := cc.StaticCallee()
				if g == nil || cc.IsInvoke() || !strings.HasSuffix(pkgPath(g), "/jsonwriter") || g.Signature.Recv() == nil {
					continue
				}
				for i, a := range cc.Args[1:] {
					t := g.Signature.Params().At(i).Type()
					if _, isFunc := t.Underlying().(*types.Signature); isFunc {
						continue
					}
					n++
					key := fmt.Sprintf("%s %s %d", fname(fn), g.Name(), n)
					l := e.level(a, nil, 0)
					raw := takesRaw[g.Name()] && !isString(t)
					switch {
					case raw && l&escRaw != 0:
						c.Bad("json", key, in.Pos(), "%s hands %s a string of the model that is not escaped", fname(fn), g.Name())
					case raw && l&escTwice != 0, !raw && l&(escOnce|escTwice) != 0:
						c.Bad("json", key, in.Pos(), "%s writes a string that is escaped twice (%s)", fname(fn), g.Name())
					default:
						c.Ok("json", key, in.Pos())
					}
					c.Decide(raw || l&escData == 0, "bytes", key, in.Pos(), "%s leaves the text of a data value to %s, which fails on bytes that are not UTF-8", fname(fn), g.Name())
				}
			}
		}
	}
	c.Floor("json", 8)
	c.Floor("bytes", 8)
}
