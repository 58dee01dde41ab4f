package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: the binary encoder and decoder agree on the grammar of the stream.
//
// Every routine that writes is followed path by path and gives the sequences of
// tokens it can write; its counterpart gives the sequences it accepts. Tokens are
// the primitives of the message pack library; numbers are told apart by what
// they mean (a fixed one, a size, a position, a new or a known identifier).

func init() {
	register("C30", checkC30)
}

type codecToken struct {
	typ   string // Int, String, ... or a routine
	class string // what the number means
}

func (t codecToken) String() string {
	if t.class == "" {
		return t.typ
	}
	return t.typ + "(" + t.class + ")"
}

type codecSeq struct {
	kind   string
	tokens []codecToken
	pos    token.Pos
}

func (s codecSeq) String() string {
	r := []string{}
	for _, t := range s.tokens {
		r = append(r, t.String())
	}
	x := strings.Join(r, " ")
	if s.kind != "" {
		x = "kind " + s.kind + ": " + x
	}
	return x
}

type codec struct {
	c        *Ctx
	encoder  map[string]*ssa.Function // by name without Encode/encode
	decoder  map[string]*ssa.Function
	reach    map[*ssa.Function]bool
	kinds    []string // fields and routines that are the kind of a feature
	terminal map[string]bool
	badTable map[string]string
	grown    map[string]bool // fields of the decoder that grow
	tables   map[string]bool
}

func msgpackToken(cc *ssa.CallCommon) (string, bool, bool) {
	g := cc.StaticCallee()
	if g == nil || !strings.Contains(pkgPath(g), "msgpack") {
		return "", false, false
	}
	n := g.Name()
	if s, ok := strings.CutPrefix(n, "Encode"); ok {
		if s == "" {
			s = "Interface"
		}
		return s, true, true
	}
	if s, ok := strings.CutPrefix(n, "Decode"); ok {
		return s, false, true
	}
	return "", false, false
}

func checkC30(c *Ctx) {
	c.Rule("grammar", "every sequence of tokens the encoder writes is one the decoder reads")
	c.Rule("table", "what gets an identifier when it is written or read is put in its table exactly once, before anything nested, and what has one is not")
	c.Rule("determined", "what the decoder has read decides what it reads next")
	d := &codec{c: c, encoder: map[string]*ssa.Function{}, decoder: map[string]*ssa.Function{}, reach: map[*ssa.Function]bool{}, terminal: map[string]bool{}, badTable: map[string]string{}, grown: map[string]bool{}, tables: map[string]bool{}}
	d.collect()
	for _, n := range []string{"object", "class"} {
		if d.encoder[n] != nil && d.decoder[n] != nil {
			d.terminal[n] = true
		}
	}
	pairs := []string{"object", "class", "resource", "Object"}
	for _, n := range pairs {
		enc, dec := d.encoder[n], d.decoder[n]
		if enc == nil || dec == nil {
			continue
		}
		d.compare(n, enc, dec)
	}
	for _, k := range keysOf(d.tables) {
		c.Decide(d.badTable[k] == "", "table", k, token.NoPos, "%s: %s", k, d.badTable[k])
	}
	c.Notes["tables"] = keysOf(d.tables)
	c.Floor("grammar", 30)
	c.Floor("table", 5)
	c.Floor("determined", 30)
}

func (d *codec) collect() {
	c := d.c
	direct := map[*ssa.Function]bool{}
	for _, fn := range c.Funcs {
		if c.isMockFile(fn.Pos()) || fn.Synthetic != "" {
			continue
		}
		for _, cl := range calls(fn) {
			if _, _, ok := msgpackToken(cl.Common()); ok {
				direct[topFn(fn)] = true
			}
		}
	}
	for f := range direct {
		d.reach[f] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if d.reach[topFn(fn)] || c.isMockFile(fn.Pos()) || fn.Synthetic != "" {
				continue
			}
			for _, cl := range calls(fn) {
				if g := cl.Common().StaticCallee(); g != nil && d.reach[originFunc(g)] {
					d.reach[topFn(fn)] = true
					changed = true
				}
			}
		}
	}
	isKind := func(t types.Type) bool { return typeName(t) == "binaryFeatureKind" }
	for _, fn := range c.Funcs {
		if r := fn.Signature.Results(); r.Len() == 1 && isKind(r.At(0).Type()) {
			d.kinds = append(d.kinds, fn.Name())
		}
	}
	for _, n := range c.Named {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isKind(st.Field(i).Type()) {
					d.kinds = append(d.kinds, st.Field(i).Name())
				}
			}
		}
	}
	for fn := range d.reach {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if call, ok := st.Val.(*ssa.Call); ok && call.Call.Value.Name() == "append" {
						if fv := addrField(st.Addr); fv != nil {
							d.grown[fv.Name()] = true
						}
					}
				}
			}
		}
		n := fn.Name()
		// the two entry points have an upper case name
		for _, p := range []struct {
			prefix string
			to     map[string]*ssa.Function
		}{{"encode", d.encoder}, {"decode", d.decoder}} {
			if s, ok := strings.CutPrefix(n, p.prefix); ok && s != "" {
				p.to[strings.ToLower(s[:1])+s[1:]] = fn
			}
			if s, ok := strings.CutPrefix(n, strings.ToUpper(p.prefix[:1])+p.prefix[1:]); ok && s != "" {
				if s == "Object" {
					p.to["Object"] = fn
				} else {
					p.to["resource"] = fn
				}
			}
		}
	}
}

func (d *codec) fx(enc bool) *fx {
	b := newFx(d.c)
	b.limit = 300000
	b.literal = true
	b.drop = func(key string, truth bool) bool {
		if truth && strings.HasPrefix(key, "nil:Errorf@") {
			return true
		}
		return !truth && (strings.HasSuffix(key, "#1") || strings.HasSuffix(key, ")")) && errNilRe.MatchString(key)
	}
	heads := map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	b.heads = func(blk *ssa.BasicBlock) bool {
		fn := blk.Parent()
		if heads[fn] == nil {
			heads[fn] = map[*ssa.BasicBlock]bool{}
			for _, l := range naturalLoops(fn) {
				heads[fn][l.header] = true
			}
		}
		return heads[fn][blk]
	}
	joins := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	b.skip = func(blk *ssa.BasicBlock) *ssa.BasicBlock {
		j, ok := joins[blk]
		if !ok {
			j = d.join(blk)
			joins[blk] = j
		}
		return j
	}
	b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
		if d.isTerminal(g) {
			return false
		}
		if d.reach[g] {
			return true
		}
		return (strings.HasPrefix(recvName(g), "Binary") || strings.HasPrefix(recvName(g), "binary")) && len(g.Blocks) == 1
	}
	return b
}

func (d *codec) isTerminal(g *ssa.Function) bool {
	for n := range d.terminal {
		if d.encoder[n] == g || d.decoder[n] == g {
			return true
		}
	}
	return false
}

func (d *codec) sequences(name string, fn *ssa.Function, enc bool) (map[string]codecSeq, string) {
	b := d.fx(enc)
	out := map[string]codecSeq{}
	b.run(fn, nil, nil, func(p *fxPath, res []string) {
		if d.failed(fn, p, res) {
			return
		}
		s := codecSeq{pos: fn.Pos()}
		kind := ""
		for k, v := range p.facts {
			if rest, ok := strings.CutPrefix(k, "eq:const:"); ok && v {
				n, what, _ := strings.Cut(rest, "|")
				if d.isKind(what) {
					kind = n
				}
			}
		}
		for _, e := range p.events {
			if e.op != "call" || e.cc == nil {
				continue
			}
			if g := e.cc.StaticCallee(); g != nil && d.isTerminal(originFunc(g)) {
				s.tokens = append(s.tokens, codecToken{typ: d.nonterminal(originFunc(g))})
				continue
			}
			typ, writes, ok := msgpackToken(e.cc)
			if !ok || writes != enc {
				continue
			}
			t := codecToken{typ: typ}
			if typ == "Int" {
				if enc {
					t.class = d.written(p, e.args[1])
				} else {
					t.class = d.read(p, e.res+"#0")
				}
			}
			if strings.HasPrefix(t.class, "pos") {
				s.kind = kind
			}
			s.tokens = append(s.tokens, t)
		}
		d.registered(name, fn, enc, p)
		out[s.String()] = s
	})
	return out, b.problem
}

func (d *codec) nonterminal(g *ssa.Function) string {
	for n := range d.terminal {
		if d.encoder[n] == g || d.decoder[n] == g {
			return "<" + n + ">"
		}
	}
	return "?"
}

var errNilRe = regexp.MustCompile(`^nil:(Encode|Decode|encode|decode)\w*@\d+\(`)

// failed: a path on which writing or reading failed, or that gave up.
func (d *codec) failed(fn *ssa.Function, p *fxPath, res []string) bool {
	if n := len(res); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) {
		if isNil, known := p.isNil(res[n-1]); known && !isNil {
			return true
		}
	}
	for _, e := range p.events {
		if e.op == "call" && (e.name == "Errorf" || e.name == "New" && e.cc != nil && e.cc.StaticCallee() != nil && pkgPath(e.cc.StaticCallee()) == "errors") {
			return true
		}
	}
	return false
}

// isKind: the symbol is the kind of a feature.
func (d *codec) isKind(s string) bool {
	for _, n := range d.kinds {
		if strings.HasSuffix(s, "."+n) || strings.HasPrefix(s, n+"@") || strings.HasPrefix(s, n+"(") {
			return true
		}
	}
	return false
}

// written: what a number means when it is written.
func (d *codec) written(p *fxPath, s string) string {
	if n, ok := litInt(s); ok {
		return fmt.Sprint(n)
	}
	switch {
	case strings.HasPrefix(s, "Size(") || strings.HasPrefix(s, "Size@"):
		return "size"
	case strings.HasPrefix(s, "look("):
		return "known"
	case strings.Contains(s, "EGetFromID"):
		return "value"
	case strings.HasSuffix(s, ".version"):
		return "version"
	}
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		if x, y, ok := cutTop(s[1:len(s)-1], "+"); ok && !strings.HasPrefix(x, "len(") {
			if n, ok := litInt(y); ok {
				return fmt.Sprintf("pos+%d", n)
			}
		}
		return "new " + s
	}
	return "new"
}

// read: what a number means when it is read.
func (d *codec) read(p *fxPath, x string) string {
	class, slot := "", ""
	for _, k := range keysOf(p.facts) {
		v := p.facts[k]
		if !strings.Contains(k, x) {
			continue
		}
		if rest, ok := strings.CutPrefix(k, "eq:"); ok {
			if v {
				a, b, _ := cutTop(rest, "|")
				for n := -8; n <= 8; n++ {
					l, ok1 := evalNumber(a, x, n)
					r, ok2 := evalNumber(b, x, n)
					if ok1 && ok2 && l == r {
						return fmt.Sprint(n)
					}
				}
				if a == x && strings.HasPrefix(b, "global:") || b == x && strings.HasPrefix(a, "global:") {
					return "version"
				}
			}
			continue
		}
		if rest, ok := strings.CutPrefix(k, "nil:"); ok {
			// the slot of a table
			if i := strings.LastIndex(rest, "["); i >= 0 && strings.HasSuffix(rest, "]") {
				ix := rest[i+1 : len(rest)-1]
				if ix == x {
					slot = "known"
					if v {
						slot = "new"
					}
				} else if a, b, ok := cutTop(strings.TrimSuffix(strings.TrimPrefix(ix, "("), ")"), "-"); ok && a == x {
					if n, ok := litInt(b); ok {
						return fmt.Sprintf("pos+%d", n)
					}
				}
			}
			continue
		}
		if strings.HasPrefix(k, "(") && strings.HasSuffix(k, ")") {
			a, b, ok := cutTop(k[1:len(k)-1], "<")
			if !ok {
				continue
			}
			if _, lit := litInt(a); lit && b == x && class == "" {
				class = "size"
			}
			if a == x && strings.HasPrefix(b, "len(") {
				class = "known"
				if !v {
					class = "new"
				}
			}
		}
	}
	if slot != "" {
		return slot
	}
	return class
}

// registered: a table gets what is new exactly once, before anything nested, and
// nothing for what is known.
func (d *codec) registered(name string, fn *ssa.Function, enc bool, p *fxPath) {
	nested := len(p.events)
	for i := len(p.events) - 1; i >= 0; i-- {
		e := p.events[i]
		if e.op == "call" && e.cc != nil {
			if g := e.cc.StaticCallee(); g != nil && d.isTerminal(originFunc(g)) && d.nonterminal(originFunc(g)) == "<object>" {
				nested = i
			}
		}
	}
	decide := func(table, msg string) {
		key := fname(fn) + " " + table
		d.tables[key] = true
		if msg != "" && d.badTable[key] == "" {
			d.badTable[key] = msg
		}
	}
	if enc {
		// what is written because it is there is written once: it is cleared
		for _, e := range p.events {
			if e.op != "call" || e.cc == nil {
				continue
			}
			if typ, _, ok := msgpackToken(e.cc); !ok || typ != "String" || len(e.args) < 2 || !strings.Contains(e.args[1], ".") {
				continue
			}
			w := e.args[1]
			v, known := p.facts["(const:0<len("+w+"))"]
			if eq, ok := p.facts[eqFact(w, "str:")]; ok {
				v, known = !eq, true
			}
			if !known || !v {
				continue
			}
			msg := "what is written the first time is not cleared: it is written again"
			for _, f := range p.events {
				if f.op == "set" && f.name == w && (f.args[0] == "str:" || f.args[0] == `const:""` || f.args[0] == `str:""`) {
					msg = ""
				}
			}
			decide(w[strings.LastIndex(w, ".")+1:], msg)
		}
		absent, present := map[string]string{}, map[string]string{}
		for k, v := range p.facts {
			look, ok := strings.CutPrefix(k, "in:look(")
			if !ok {
				if look, ok = strings.CutPrefix(k, "nil:look("); !ok || !strings.HasSuffix(look, ")") {
					continue
				}
				v = !v
			}
			table, key, ok := cutTop(strings.TrimSuffix(look, ")"), ",")
			if !ok {
				continue
			}
			if v {
				present[table] = key
			} else {
				absent[table] = key
			}
		}
		count := func(table string) (n, at, lastLen int, keys []string) {
			at, lastLen = -1, -1
			for i, e := range p.events {
				switch {
				case e.op == "mapset" && e.name == table:
					n++
					if at < 0 {
						at = i
					}
					keys = append(keys, e.args[0])
				case e.op == "len" && e.name == table:
					lastLen = i
				}
			}
			return
		}
		for table, key := range absent {
			n, at, lastLen, keys := count(table)
			msg := ""
			switch {
			case n != 1:
				msg = fmt.Sprintf("what is not in it is put in it %d times", n)
			case keys[0] != key:
				msg = "what is put in it is not what was looked for"
			case at > nested:
				msg = "what is new is put in it after something nested is written"
			case lastLen > at:
				msg = "the identifier is taken after the entry was added"
			}
			decide(table, msg)
		}
		for table := range present {
			if _, also := absent[table]; also {
				continue
			}
			n, _, _, _ := count(table)
			msg := ""
			if n > 0 {
				msg = "what is in it is put in it again"
			}
			decide(table, msg)
		}
		return
	}
	for k, v := range p.facts {
		if rest, ok := strings.CutPrefix(k, "nil:"); ok && strings.HasSuffix(rest, "]") && strings.Contains(rest, "Decode") {
			slot := rest
			i := strings.LastIndex(slot[:len(slot)-1], "[")
			// the index itself may have brackets
			depth := 0
			for j := len(slot) - 1; j >= 0; j-- {
				if slot[j] == ']' {
					depth++
				}
				if slot[j] == '[' {
					depth--
				}
				if depth == 0 {
					i = j
					break
				}
			}
			if !strings.Contains(slot[i:], "Decode") {
				continue
			}
			n, at := 0, -1
			for j, e := range p.events {
				if e.op == "set" && e.name == slot {
					n++
					if at < 0 {
						at = j
					}
				}
			}
			msg := ""
			switch {
			case v && n == 0:
				msg = "what is new is not put in it"
			case v && at > nested:
				msg = "what is new is put in it after something nested is read"
			case !v && n > 0:
				msg = "what is in it is put in it again"
			}
			table := slot[:i]
			if j := strings.LastIndex(table, "."); j >= 0 && !strings.HasPrefix(table, "new:") {
				table = table[j+1:]
			} else {
				table = "slots"
			}
			decide(table, msg)
			continue
		}
		if !strings.HasPrefix(k, "(") || !strings.HasSuffix(k, ")") {
			continue
		}
		a, b, ok := cutTop(k[1:len(k)-1], "<")
		if !ok || !strings.HasPrefix(b, "len(") || !strings.HasPrefix(a, "Decode") {
			continue
		}
		table := b[4 : len(b)-1]
		if strings.HasPrefix(table, "new:") || strings.Contains(table, "(") {
			continue
		}
		// a table that grows
		grows := d.grown[table[strings.LastIndex(table, ".")+1:]]
		if !grows && (strings.Count(table, ".") != 1 || len(fn.Params) == 0 || !strings.HasPrefix(table, fn.Params[0].Name()+".")) {
			continue
		}
		n, at := 0, -1
		for j, e := range p.events {
			if e.op == "set" && e.name == table && strings.HasPrefix(e.args[0], "append("+table) {
				n++
				if at < 0 {
					at = j
				}
			}
		}
		msg := ""
		switch {
		case !v && n != 1:
			msg = fmt.Sprintf("what is new is put in it %d times", n)
		case !v && at > nested:
			msg = "what is new is put in it after something nested is read"
		case v && n > 0:
			msg = "what is in it is put in it again"
		}
		decide(table, msg)
	}
}

func (d *codec) accepts(w, r codecToken) bool {
	if w.typ != r.typ {
		return false
	}
	return w.class == r.class || r.class == "" || w.class == "value" && r.class == ""
}

func (d *codec) compare(name string, enc, dec *ssa.Function) {
	c := d.c
	we, p1 := d.sequences(name, enc, true)
	rd, p2 := d.sequences(name, dec, false)
	if os.Getenv("C30") != "" {
		for k := range rd {
			fmt.Println("DEC", name, k)
		}
	}
	if p1 != "" || p2 != "" {
		c.Bad("grammar", name, enc.Pos(), "the paths of %s and %s cannot be followed: %s %s", fname(enc), fname(dec), p1, p2)
		return
	}
	d.determined(name, dec, rd)
	keys := []string{}
	for k := range we {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w := we[k]
		ok := false
		for _, r := range rd {
			if len(r.tokens) != len(w.tokens) || w.kind != r.kind {
				continue
			}
			all := true
			for i := range w.tokens {
				all = all && d.accepts(w.tokens[i], r.tokens[i])
			}
			if all {
				ok = true
				break
			}
		}
		c.Decide(ok, "grammar", name+" "+k, enc.Pos(), "%s writes [%s], which %s does not read", fname(enc), k, fname(dec))
	}
	if len(keys) == 0 {
		c.Bad("grammar", name, enc.Pos(), "no path of %s succeeds", fname(enc))
	}
}

// determined: what was read so far decides what is read next.
func (d *codec) determined(name string, dec *ssa.Function, rd map[string]codecSeq) {
	next := map[string]map[string]bool{}
	for _, r := range rd {
		prefix, kind := "", ""
		for i, t := range r.tokens {
			prefix += t.String() + " "
			if strings.HasPrefix(t.class, "pos") {
				kind = r.kind
				continue // a feature met before has no name
			}
			if t.class == "size" {
				continue // none or some elements
			}
			if t.typ == "String" && i > 0 && strings.HasPrefix(r.tokens[i-1].class, "pos") {
				continue // a name, or the value of a feature met before
			}
			n := "the end"
			if i+1 < len(r.tokens) {
				n = r.tokens[i+1].typ
			}
			k := prefix
			if kind != "" {
				k = "kind " + kind + ": " + prefix
			}
			if next[k] == nil {
				next[k] = map[string]bool{}
			}
			next[k][n] = true
		}
	}
	ks := []string{}
	for k := range next {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		d.c.Decide(len(next[k]) == 1, "determined", name+" "+k, dec.Pos(), "after [%s] %s reads one of %v depending on something that is not in the stream", strings.TrimSpace(k), fname(dec), keysOf(next[k]))
	}
}

// join: where the branches of a block meet again when nothing is read, written
// or put in a table on the way.
func (d *codec) join(blk *ssa.BasicBlock) *ssa.BasicBlock {
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	q := append([]*ssa.BasicBlock(nil), blk.Succs...)
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		order = append(order, b)
		q = append(q, b.Succs...)
	}
	for _, j := range order {
		in := map[*ssa.BasicBlock]bool{}
		q := append([]*ssa.BasicBlock(nil), blk.Succs...)
		ok := j != blk
		for len(q) > 0 && ok {
			b := q[0]
			q = q[1:]
			if b == j || in[b] {
				continue
			}
			in[b] = true
			ok = b != blk && !d.matters(b)
			q = append(q, b.Succs...)
		}
		if ok {
			return j
		}
	}
	return nil
}

func (d *codec) matters(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch t := in.(type) {
		case *ssa.Return:
			return true
		case *ssa.MapUpdate:
			return true
		case *ssa.Store:
			if _, ok := t.Addr.(*ssa.Alloc); !ok {
				if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.Alloc); ok {
						continue
					}
				}
				return true
			}
		case ssa.CallInstruction:
			if _, _, ok := msgpackToken(t.Common()); ok {
				return true
			}
			if g := t.Common().StaticCallee(); g != nil && (d.reach[originFunc(g)] || d.isTerminal(originFunc(g))) {
				return true
			}
		}
	}
	return false
}
