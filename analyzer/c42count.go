package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The number in a segment: how many elements before have the same name. Both the
// routine that writes it and the one that reads it are followed path by path.

var fxNumberRe = regexp.MustCompile(`(Atoi|ParseInt|ParseUint)@\d+\(`)

func (c *Ctx) segmentFx(fn *ssa.Function) *fx {
	b := newFx(c)
	b.rounds = 4
	b.limit = 200000
	self := recvName(fn)
	b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
		if g.Name() == fn.Name() {
			return false // what the embedded implementation does is its own matter
		}
		switch g.Name() {
		case "EContents", "GetName", "GetSource", "EClass", "AsEObject":
			return false
		}
		r := recvName(g)
		return r == "" || r == self
	}
	return b
}

func recvName(fn *ssa.Function) string {
	if t := sigRecv(fn); t != nil {
		if n := structOf(t); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}

// elementsSeen: the elements a path asked the name of, in order.
func elementsSeen(p *fxPath) []string {
	var r []string
	seen := map[string]bool{}
	for _, e := range p.events {
		s := ""
		if e.op == "call" && e.name == "Next" {
			s = e.res
		}
		if e.op == "round" {
			s = e.args[0]
		}
		if s != "" && !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

// alike: the path found the name of the element to be the one looked for.
func alike(p *fxPath, e string) bool {
	for k, v := range p.facts {
		if v && strings.HasPrefix(k, "eq:") && (strings.Contains(k, "GetName("+e+")") || strings.Contains(k, "GetSource("+e+")")) {
			return true
		}
	}
	return false
}

func (m *fragments) counts(builders, resolvers []*ssa.Function) {
	c := m.c
	for _, fn := range builders {
		m.counted(fn)
	}
	for _, fn := range resolvers {
		m.skipped(fn)
	}
	c.Floor("count", 4)
}

// counted: the number written is the number of elements before with the same name.
func (m *fragments) counted(fn *ssa.Function) {
	c := m.c
	b := c.segmentFx(fn)
	object := fn.Params[len(fn.Params)-1].Name()
	bad, n := map[string]bool{}, map[string]int{}
	b.run(fn, nil, nil, func(p *fxPath, res []string) {
		if len(res) != 1 {
			return
		}
		els := elementsSeen(p)
		at := -1
		for i, e := range els {
			if p.facts[eqFact(e, object)] {
				at = i
			}
		}
		if at < 0 {
			return
		}
		what := "GetSource"
		if strings.Contains(res[0], "GetName(") || hasNameFact(p, "GetName("+object+")") {
			what = "GetName"
		}
		want := 0
		for _, e := range els[:at] {
			if alike(p, e) {
				want++
			}
		}
		got := "const:0"
		nums := m.numbersIn(p, res[0])
		for _, x := range nums {
			got = x
		}
		n[what]++
		if len(nums) > 1 || got != fmt.Sprintf("const:%d", want) {
			bad[fmt.Sprintf("%s %d elements with the same name come before: writes %s", what, want, strings.TrimPrefix(got, "const:"))] = true
		}
	})
	if b.problem != "" {
		c.Notes["not counted "+fname(fn)] = b.problem
		return
	}
	for _, what := range []string{"GetName", "GetSource"} {
		if n[what] == 0 {
			continue
		}
		msg := ""
		for _, k := range keysOf(bad) {
			if strings.HasPrefix(k, what) && msg == "" {
				msg = k
			}
		}
		c.Decide(msg == "", "count", fname(fn)+" "+what, fn.Pos(), "%s on some path: %s", fname(fn), msg)
	}
}

func hasNameFact(p *fxPath, s string) bool {
	for k := range p.facts {
		if strings.Contains(k, s) {
			return true
		}
	}
	return false
}

// numbersIn: the numbers put in a text.
func (m *fragments) numbersIn(p *fxPath, text string) []string {
	var r []string
	for _, e := range p.events {
		if e.op != "call" || !strings.Contains(text, e.res) {
			continue
		}
		switch e.name {
		case "Itoa", "FormatInt", "Sprint", "Sprintf", "FormatUint":
		default:
			continue
		}
		for i, a := range e.args {
			if _, ok := litInt(a); ok && i == 0 && e.name != "Sprintf" {
				r = append(r, a)
			}
			for k, v := range p.mem {
				if _, ok := litInt(v); ok && strings.HasPrefix(k, a+"[") {
					r = append(r, v)
				}
			}
		}
	}
	return r
}

// skipped: the element answered comes after as many elements with the same name
// as the number in the segment tells.
func (m *fragments) skipped(fn *ssa.Function) {
	c := m.c
	b := c.segmentFx(fn)
	bad, n := map[string]bool{}, map[string]int{}
	b.run(fn, nil, nil, func(p *fxPath, res []string) {
		for _, e := range p.events {
			// a position in a list
			if e.op == "call" && e.name == "Get" && len(e.args) == 2 && fxNumberRe.MatchString(e.args[1]) {
				x := e.args[1]
				n["Get"]++
				if num, ok := numberSym(x); !ok || num != x {
					bad["Get the element at position "+x] = true
				}
			}
		}
		if len(res) != 1 || res[0] == "nil" {
			return
		}
		els := elementsSeen(p)
		k := -1
		for i, e := range els {
			if e == res[0] {
				k = i
			}
		}
		if k < 0 {
			return
		}
		what := "GetSource"
		for key, v := range p.facts {
			if v && strings.HasPrefix(key, "eq:") && strings.Contains(key, "GetName("+els[k]+")") {
				what = "GetName"
			}
		}
		for key, v := range p.facts {
			if rest, ok := strings.CutPrefix(key, "eq:"); ok && v {
				x, y, _ := cutTop(rest, "|")
				if x == what+"("+els[k]+")" {
					x, y = y, x
				}
				if y == what+"("+els[k]+")" && !strings.HasPrefix(x, "str:") {
					if m.decoded[recvName(fn)+" "+what] == nil {
						m.decoded[recvName(fn)+" "+what] = map[string]bool{}
					}
					m.decoded[recvName(fn)+" "+what][codeOf(x)] = true
				}
			}
		}
		n[what]++
		want := 0
		for _, e := range els[:k] {
			if alike(p, e) {
				want++
			}
		}
		if !alike(p, els[k]) {
			bad[what+" answers an element whose name was not compared"] = true
			return
		}
		base := ""
		for key := range p.facts {
			if num, ok := numberSym(key); ok {
				base = num
			}
		}
		if read, known := readable(p, base); base == "" || known && !read {
			if want != 0 {
				bad[fmt.Sprintf("%s without a number answers the element after %d others", what, want)] = true
			}
			return
		}
		for v := 0; v < 6; v++ {
			if v == want {
				if !agrees(p, base, v) {
					bad[fmt.Sprintf("%s number %d does not answer the element after %d others", what, v, want)] = true
				}
			} else if agrees(p, base, v) {
				bad[fmt.Sprintf("%s number %d answers the element after %d others", what, v, want)] = true
			}
		}
	})
	if b.problem != "" {
		c.Notes["not counted "+fname(fn)] = b.problem
		return
	}
	for _, what := range []string{"GetName", "GetSource", "Get"} {
		if n[what] == 0 {
			continue
		}
		msg := ""
		for _, k := range keysOf(bad) {
			if strings.HasPrefix(k, what+" ") && msg == "" {
				msg = k
			}
		}
		c.Decide(msg == "", "count", fname(fn)+" "+what, fn.Pos(), "%s on some path: %s", fname(fn), msg)
	}
}

// codeOf: the codings a symbol went through, the last one first in the symbol.
func codeOf(x string) string {
	code := ""
	for {
		next := ""
		for name := range inverseCoding {
			short := name[strings.LastIndex(name, ".")+1:]
			if strings.HasPrefix(x, short+"@") || strings.HasPrefix(x, short+"(") {
				next = name
			}
		}
		if next == "" {
			return code
		}
		code = ">" + next + code
		_, x, _ = strings.Cut(x, "(")
	}
}

// readable: whether the path found the number to be one.
func readable(p *fxPath, base string) (bool, bool) {
	t, known := p.isNil(strings.TrimSuffix(base, "#0") + "#1")
	return t, known
}

// numberSym: the number read in a segment that a symbol is about.
func numberSym(s string) (string, bool) {
	loc := fxNumberRe.FindStringIndex(s)
	if loc == nil {
		return "", false
	}
	d := 0
	for i := loc[1] - 1; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		}
		if d == 0 {
			if strings.HasPrefix(s[i+1:], "#0") {
				return s[loc[0] : i+3], true
			}
			return "", false
		}
	}
	return "", false
}

// agrees: what the path found about the number is true of the value.
func agrees(p *fxPath, base string, v int) bool {
	for k, truth := range p.facts {
		if !strings.Contains(k, base) {
			continue
		}
		if rest, ok := strings.CutPrefix(k, "eq:"); ok {
			x, y, ok := cutTop(rest, "|")
			if !ok {
				continue
			}
			a, ok1 := evalNumber(x, base, v)
			b, ok2 := evalNumber(y, base, v)
			if ok1 && ok2 && (a == b) != truth {
				return false
			}
			continue
		}
		if strings.HasPrefix(k, "(") && strings.HasSuffix(k, ")") {
			x, y, ok := cutTop(k[1:len(k)-1], "<")
			if !ok {
				continue
			}
			a, ok1 := evalNumber(x, base, v)
			b, ok2 := evalNumber(y, base, v)
			if ok1 && ok2 && (a < b) != truth {
				return false
			}
		}
	}
	return true
}

// cutTop cuts at the separator outside of parentheses.
func cutTop(s, sep string) (string, string, bool) {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		}
		if d == 0 && i > 0 && strings.HasPrefix(s[i:], sep) {
			return s[:i], s[i+len(sep):], true
		}
	}
	return "", "", false
}

func evalNumber(s, base string, v int) (int, bool) {
	if s == base {
		return v, true
	}
	if n, ok := litInt(s); ok {
		return int(n), true
	}
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		in := s[1 : len(s)-1]
		for _, op := range []string{"+", "-"} {
			if x, y, ok := cutTop(in, op); ok {
				a, ok1 := evalNumber(x, base, v)
				b, ok2 := evalNumber(y, base, v)
				if ok1 && ok2 {
					if op == "+" {
						return a + b, true
					}
					return a - b, true
				}
			}
		}
	}
	return 0, false
}

// separators: names may contain what separates a name from its number.
func (m *fragments) separators() {
	c := m.c
	for _, fn := range c.Funcs {
		if top := topFn(fn); !(m.flow.fns[fn] || m.flow.fns[top]) || c.isMockFile(fn.Pos()) {
			continue
		}
		for _, cl := range calls(fn) {
			cc := cl.Common()
			g := cc.StaticCallee()
			if g == nil || pkgPath(g) != "strings" || len(cc.Args) < 2 || len(m.flow.vals[cc.Args[0]]) == 0 {
				continue
			}
			sep, ok := constStr(cc.Args[1])
			if !ok {
				if n, isInt := constInt(cc.Args[1]); isInt {
					sep, ok = string(rune(n)), true
				}
			}
			if !ok || sep != "." && sep != "%" {
				continue
			}
			switch g.Name() {
			case "LastIndex", "LastIndexByte", "LastIndexAny", "HasPrefix", "HasSuffix", "TrimPrefix", "TrimSuffix", "Contains", "ContainsRune":
				c.Ok("count", fname(fn)+" separator", cl.Pos())
			case "Index", "IndexByte", "IndexRune", "IndexAny", "Cut", "Split", "SplitN":
				c.Bad("count", fname(fn)+" separator", cl.Pos(), "the number of a segment is looked for at the first '%s': a name may contain it", sep)
			}
		}
	}
}
