package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C34", checkC34) }

// sqlSinks: where the text of a statement is handed to the database.
type sqlSinks struct {
	c *Ctx
	// parameters that are handed on as the text of a statement
	forwards map[*ssa.Parameter]bool
}

// statement: the text of the statement that the call hands to the database.
func (s *sqlSinks) statement(cc *ssa.CallCommon) ssa.Value {
	if cc.IsInvoke() {
		return nil
	}
	g := cc.StaticCallee()
	if g == nil {
		// a function that takes a connection, a statement and its options
		sig, ok := cc.Value.Type().Underlying().(*types.Signature)
		if ok && takesStatement(sig) {
			return cc.Args[1]
		}
		return nil
	}
	switch pkg := pkgPath(g); {
	case strings.HasSuffix(pkg, "/sqlite") || strings.HasSuffix(pkg, "/sqlitex"):
		if n := g.Name(); strings.HasPrefix(n, "Exec") || strings.HasPrefix(n, "Prep") || strings.HasPrefix(n, "Result") {
			for _, a := range cc.Args {
				if isString(a.Type()) {
					return a
				}
			}
		}
	case s.c.isEcore(pkg):
		g = s.c.unwrap(g)
		for i, p := range g.Params {
			if s.forwards[p] && i < len(cc.Args) {
				return cc.Args[i]
			}
		}
	}
	return nil
}

func takesStatement(sig *types.Signature) bool {
	ps := sig.Params()
	if ps.Len() < 2 || !isString(ps.At(1).Type()) {
		return false
	}
	p, ok := ps.At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Conn" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/sqlite")
}

// handedOn: the parameter that the value is.
func handedOn(v ssa.Value) *ssa.Parameter {
	for i := 0; i < 12; i++ {
		switch t := v.(type) {
		case *ssa.Parameter:
			return t
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return nil
			}
			v = t.X
		case *ssa.FreeVar:
			if v = rootBinding(t); v == nil {
				return nil
			}
		case *ssa.Alloc:
			ss := cellStores(t, 0)
			if len(ss) != 1 {
				return nil
			}
			v = ss[0]
		default:
			return nil
		}
	}
	return nil
}

// quoter decides that a function answers its argument as one SQL identifier.
type quoter struct {
	c    *Ctx
	memo map[*ssa.Function]int
}

func (q *quoter) shape(fn *ssa.Function) bool {
	return fn.Signature.Recv() == nil && len(fn.Params) == 1 && len(fn.Blocks) > 0 && isString(fn.Params[0].Type()) &&
		fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type())
}

// is: the function puts quotes around its argument on some path.
func (q *quoter) is(fn *ssa.Function) bool {
	if !q.shape(fn) {
		return false
	}
	if v, ok := q.memo[fn]; ok {
		return v == 1
	}
	q.memo[fn] = 0
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range sources(r.Results[0]) {
				if q.quotes(v) || q.delegates(fn, v) {
					q.memo[fn] = 1
				}
			}
		}
	}
	return q.memo[fn] == 1
}

func (q *quoter) quotes(v ssa.Value) bool {
	ps := concatOf(v)
	if len(ps) < 2 {
		return false
	}
	first, ok1 := constStr(ps[0])
	last, ok2 := constStr(ps[len(ps)-1])
	return ok1 && ok2 && first == `"` && last == `"`
}

func (q *quoter) delegates(fn *ssa.Function, v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	g := call.Call.StaticCallee()
	return g != nil && q.c.isEcore(pkgPath(g)) && len(call.Call.Args) == 1 && call.Call.Args[0] == ssa.Value(fn.Params[0]) && q.is(q.c.unwrap(g))
}

// doubled: the argument with every quote in it doubled.
func doubled(v ssa.Value, arg ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || calleePkg(&call.Call) != "strings" {
		return false
	}
	as := call.Call.Args
	switch calleeName(&call.Call) {
	case "ReplaceAll":
		if len(as) != 3 {
			return false
		}
	case "Replace":
		if len(as) != 4 {
			return false
		}
		if n, ok := constInt(as[3]); !ok || n >= 0 {
			return false
		}
	default:
		return false
	}
	from, ok1 := constStr(as[1])
	to, ok2 := constStr(as[2])
	return as[0] == arg && ok1 && ok2 && from == `"` && to == `""`
}

// plainWord: text accepted by the pattern is an identifier that needs no quotes.
func plainWord(pattern string) bool {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) < 3 || re.Sub[0].Op != syntax.OpBeginText {
		return false
	}
	if end := re.Sub[len(re.Sub)-1]; end.Op != syntax.OpEndText || end.Flags&syntax.WasDollar != 0 && regexp.MustCompile(pattern).MatchString("a\n") {
		return false
	}
	// between the anchors only letters, digits and underscores
	var safe func(re *syntax.Regexp) bool
	safe = func(re *syntax.Regexp) bool {
		switch re.Op {
		case syntax.OpLiteral:
			for _, r := range re.Rune {
				if !wordRune(r) {
					return false
				}
			}
			return re.Flags&syntax.FoldCase == 0
		case syntax.OpCharClass:
			for i := 0; i+1 < len(re.Rune); i += 2 {
				if re.Rune[i+1] > 127 {
					return false
				}
				for r := re.Rune[i]; r <= re.Rune[i+1]; r++ {
					if !wordRune(r) {
						return false
					}
				}
			}
			return true
		case syntax.OpConcat, syntax.OpAlternate, syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
			for _, s := range re.Sub {
				if !safe(s) {
					return false
				}
			}
			return true
		case syntax.OpEmptyMatch:
			return true
		}
		return false
	}
	for _, s := range re.Sub[1 : len(re.Sub)-1] {
		if !safe(s) {
			return false
		}
	}
	// neither empty nor beginning with a digit
	m := regexp.MustCompile(pattern)
	if m.MatchString("") {
		return false
	}
	for r := '0'; r <= '9'; r++ {
		if m.MatchString(string(r)) || m.MatchString(string(r)+"a") {
			return false
		}
	}
	return true
}

func wordRune(r rune) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

const (
	factPlain   uint8 = 1 << iota // the argument is a plain word
	factKeyword                   // the argument has been looked up among the keywords and is none of them
)

// facts about arg that hold when the condition has the truth value.
func (q *quoter) facts(cond ssa.Value, truth bool, arg ssa.Value, d int) uint8 {
	if d > 8 {
		return 0
	}
	switch t := cond.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			return q.facts(t.X, !truth, arg, d+1)
		}
	case *ssa.Phi:
		r := factPlain | factKeyword
		for i, e := range t.Edges {
			if b := constBoolValue(e); b != nil && *b != truth {
				continue
			}
			r &= q.facts(e, truth, arg, d+1) | q.known(t.Block().Preds[i], t.Block(), arg, d+1)
		}
		return r
	case *ssa.Extract:
		// the keyword is looked up in a table
		if lk, ok := t.Tuple.(*ssa.Lookup); ok && t.Index == 1 && !truth && ofArg(lk.Index, arg) {
			return factKeyword
		}
	case *ssa.Lookup:
		if !truth && ofArg(t.Index, arg) {
			return factKeyword
		}
	case *ssa.Call:
		g := t.Call.StaticCallee()
		if g == nil {
			return 0
		}
		if pkgPath(g) == "regexp" && strings.HasPrefix(g.Name(), "MatchString") && truth {
			as := t.Call.Args
			if g.Signature.Recv() != nil && as[1] == arg {
				if p, ok := q.pattern(as[0]); ok && plainWord(p) {
					return factPlain
				}
			}
			return 0
		}
		if pkgPath(g) == "slices" && strings.HasPrefix(g.Name(), "Contains") && !truth && ofArg(t.Call.Args[1], arg) {
			return factKeyword
		}
		if !q.c.isEcore(pkgPath(g)) || len(g.Blocks) == 0 {
			return 0
		}
		for i, a := range t.Call.Args {
			if a != arg || i >= len(g.Params) {
				continue
			}
			r := factPlain | factKeyword
			any := false
			for _, b := range g.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				if x := constBoolValue(ret.Results[0]); x != nil && *x != truth {
					continue
				}
				any = true
				r &= q.facts(ret.Results[0], truth, g.Params[i], d+1) | q.known(b, nil, g.Params[i], d+1)
			}
			if any {
				return r
			}
		}
	}
	return 0
}

// ofArg: the argument, possibly in another case.
func ofArg(v, arg ssa.Value) bool {
	if v == arg {
		return true
	}
	if call, ok := v.(*ssa.Call); ok && calleePkg(&call.Call) == "strings" && (calleeName(&call.Call) == "ToUpper" || calleeName(&call.Call) == "ToLower") {
		return call.Call.Args[0] == arg
	}
	return false
}

// pattern the regular expression was compiled from.
func (q *quoter) pattern(v ssa.Value) (string, bool) {
	if call, ok := v.(*ssa.Call); ok && calleePkg(&call.Call) == "regexp" && strings.HasPrefix(calleeName(&call.Call), "MustCompile") && calleeName(&call.Call) == "MustCompile" {
		return constStr(call.Call.Args[0])
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return "", false
	}
	var stored []ssa.Value
	for _, fn := range append(q.c.Funcs, g.Pkg.Func("init")) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					dup := false
					for _, x := range stored {
						dup = dup || x == st.Val
					}
					if !dup {
						stored = append(stored, st.Val)
					}
				}
			}
		}
	}
	if len(stored) != 1 {
		return "", false
	}
	if _, again := stored[0].(*ssa.UnOp); again {
		return "", false
	}
	return q.pattern(stored[0])
}

// known: what is known about arg in the block (on its edge to next).
func (q *quoter) known(b, next *ssa.BasicBlock, arg ssa.Value, d int) uint8 {
	var r uint8
	if next != nil {
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			r |= q.facts(br.Cond, b.Succs[0] == next, arg, d+1)
		}
	}
	for x := b; x != nil; x = x.Idom() {
		up := x.Idom()
		if up == nil {
			break
		}
		if br, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If); ok && up.Succs[0] != up.Succs[1] && len(x.Preds) == 1 {
			r |= q.facts(br.Cond, up.Succs[0] == x, arg, d+1)
		}
	}
	return r
}

// answer decides one answer of the function.
func (q *quoter) answer(fn *ssa.Function, v ssa.Value, b, next *ssa.BasicBlock, d int) string {
	arg := ssa.Value(fn.Params[0])
	switch {
	case q.delegates(fn, v):
		return ""
	case q.quotes(v):
		ps := concatOf(v)
		for _, p := range ps[1 : len(ps)-1] {
			if _, ok := constStr(p); !ok && !doubled(p, arg) {
				return "puts quotes around a name without doubling the quotes in it"
			}
		}
		return ""
	}
	if _, ok := constStr(v); ok {
		return ""
	}
	if phi, ok := v.(*ssa.Phi); ok && d < 4 {
		for i, e := range phi.Edges {
			if s := q.answer(fn, e, phi.Block().Preds[i], phi.Block(), d+1); s != "" {
				return s
			}
		}
		return ""
	}
	if v == arg {
		k := q.known(b, next, arg, 0)
		switch {
		case k&factPlain == 0:
			return "answers a name as it is that is not known to be a plain word"
		case k&factKeyword == 0:
			return "answers a name as it is that can be a keyword"
		}
		return ""
	}
	return "answers something that is not known to be one identifier"
}

func checkC34(c *Ctx) {
	c.Rule("statement", "the text of a statement is made of constants, numbers and names that went exactly once through the identifier escaping function")
	c.Rule("quote", "the identifier escaping function answers its argument between quotes with the quotes in it doubled, or as it is when it is a plain word and no keyword")
	q := &quoter{c: c, memo: map[*ssa.Function]int{}}
	for _, fn := range c.Funcs {
		if !q.is(fn) {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			n++
			key := fmt.Sprintf("%s %d", fname(fn), n)
			if s := q.answer(fn, r.Results[0], b, nil, 0); s != "" {
				c.Bad("quote", key, r.Pos(), "%s %s", fname(fn), s)
			} else {
				c.Ok("quote", key, r.Pos())
			}
		}
	}
	c.Floor("quote", 1)

	e := newEscaping(c)
	e.isEscape = func(cc *ssa.CallCommon) (ssa.Value, bool) {
		g := cc.StaticCallee()
		if g == nil || cc.IsInvoke() || len(cc.Args) != 1 || !q.is(c.unwrap(g)) {
			return nil, false
		}
		return cc.Args[0], true
	}
	s := &sqlSinks{c: c, forwards: map[*ssa.Parameter]bool{}}
	for again := true; again; {
		again = false
		for _, fn := range c.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if v := s.statement(ci.Common()); v != nil {
							if p := handedOn(v); p != nil && !s.forwards[p] {
								s.forwards[p] = true
								again = true
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range c.Funcs {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				v := s.statement(ci.Common())
				if v == nil || handedOn(v) != nil {
					// what is handed on is decided at the call
					continue
				}
				n++
				key := fmt.Sprintf("%s %d", fname(fn), n)
				switch l := e.level(v, nil, 0); {
				case l&escRaw != 0:
					c.Bad("statement", key, in.Pos(), "%s executes a statement with text in it that is neither constant nor an escaped identifier", fname(fn))
				case l&escTwice != 0:
					c.Bad("statement", key, in.Pos(), "%s executes a statement with an identifier that is escaped twice", fname(fn))
				default:
					c.Ok("statement", key, in.Pos())
				}
			}
		}
	}
	c.Floor("statement", 30)
}
