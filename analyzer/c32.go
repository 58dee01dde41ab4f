package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C32", checkC32) }

// Go types of the instance type names that are names of Go types.
var goNames = map[string]string{
	"float64": "float64", "float32": "float32", "int": "int", "int64": "int64", "int32": "int32", "int16": "int16",
	"byte": "uint8", "bool": "bool", "string": "string", "[]byte": "[]uint8", "*time/time.Time": "*time.Time",
}

func goType(t types.Type) string {
	if t == types.Universe.Lookup("byte").Type() {
		return "uint8"
	}
	return strings.ReplaceAll(types.TypeString(t, nil), "[]byte", "[]uint8")
}

// What the database keeps values of a type as, and the type it answers them with.
func storageOf(t string) string {
	switch t {
	case "bool", "int", "int8", "int16", "int32", "int64", "uint8", "byte", "uint16", "uint32":
		return "int64"
	case "float32", "float64":
		return "float64"
	case "string":
		return "string"
	case "[]uint8":
		return "[]uint8"
	}
	return ""
}

var affinity = map[string]string{"int64": "INTEGER", "float64": "REAL", "string": "TEXT", "[]uint8": "BLOB"}

var instanceName = regexp.MustCompile(`GetInstanceTypeName=="(.*)"$`)

// goTypes: the Go types of the values of the features of a kind, and whether they
// are references.
func (k *kindType) goTypes() (types map[string]map[string]bool, refs map[string]bool) {
	types, refs = map[string]map[string]bool{}, map[string]bool{}
	for _, p := range k.paths {
		if p.res == nil {
			continue
		}
		r := p.res.ExactString()
		if isRef, known := p.isReference(); known && isRef {
			refs[r] = true
		}
		for a, v := range p.cond {
			if m := instanceName.FindStringSubmatch(a); v && m != nil && goNames[m[1]] != "" {
				if types[r] == nil {
					types[r] = map[string]bool{}
				}
				types[r][goNames[m[1]]] = true
			}
		}
	}
	return
}

// kexec follows a function for one kind of features and one type of the value.
type kexec struct {
	c    *Ctx
	k    *kindType
	kind constant.Value
	dyn  string // the type of the value: nil, a Go type, EObject, or "" (not known)
	// assert is told about every assertion of the value to a type that is not tested
	assert func(*ssa.TypeAssert)
	out    map[kresult]ssa.Value
	steps  int
	full   bool
}

// kresult: what the function answers.
type kresult struct {
	what string // nil, value, type, default, factory, error, unknown
	typ  string
}

type kframe struct {
	x       *kexec
	fn      *ssa.Function
	tracked map[ssa.Value]bool
	depth   int
}

func (f *kframe) is(v ssa.Value, env map[ssa.Value]ssa.Value) bool {
	v = resolved(v, env)
	switch t := v.(type) {
	case *ssa.ChangeInterface:
		return f.is(t.X, env)
	case *ssa.FreeVar:
		if b := rootBinding(t); b != nil {
			return f.tracked[b]
		}
	}
	return f.tracked[v]
}

func resolved(v ssa.Value, env map[ssa.Value]ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		n, ok := env[v]
		if !ok || n == v {
			return v
		}
		v = n
	}
	return v
}

// dynamic: does the value have the type?
func (x *kexec) dynamic(t types.Type) (yes, known bool) {
	switch x.dyn {
	case "":
		return false, false
	case "nil":
		return false, true
	case "EObject":
		if typeName(t) == "EObject" {
			return true, true
		}
		_, iface := t.Underlying().(*types.Interface)
		return false, !iface
	}
	return goType(t) == x.dyn, true
}

func (f *kframe) cond(v ssa.Value, env map[ssa.Value]ssa.Value) (val, known bool) {
	v = resolved(v, env)
	switch t := v.(type) {
	case *ssa.Const:
		if b := constBool(t); b != nil {
			return *b, true
		}
	case *ssa.UnOp:
		if t.Op == token.NOT {
			b, ok := f.cond(t.X, env)
			return !b, ok
		}
	case *ssa.BinOp:
		if t.Op != token.EQL && t.Op != token.NEQ {
			return
		}
		for _, xy := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
			k, ok := xy[1].(*ssa.Const)
			if !ok {
				continue
			}
			if f.x.k.is(xy[0].Type()) && k.Value != nil && f.x.kind != nil {
				return constant.Compare(f.x.kind, token.EQL, k.Value) == (t.Op == token.EQL), true
			}
			if k.Value == nil && f.is(xy[0], env) && f.x.dyn != "" {
				return (f.x.dyn == "nil") == (t.Op == token.EQL), true
			}
		}
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 1 && f.is(ta.X, env) {
			return f.x.dynamic(ta.AssertedType)
		}
	}
	return
}

// run enumerates the ways through the function from the block on.
func (f *kframe) run(b, pred *ssa.BasicBlock, env map[ssa.Value]ssa.Value, visits map[*ssa.BasicBlock]int, ret func([]ssa.Value, map[ssa.Value]ssa.Value)) {
	if f.x.steps++; f.x.steps > 20000 {
		f.x.full = true
		return
	}
	if visits[b] >= 2 {
		return
	}
	visits[b]++
	defer func() { visits[b]-- }()
	copied := false
	bind := func(to, v ssa.Value) {
		if !copied {
			n := map[ssa.Value]ssa.Value{}
			for k, v := range env {
				n[k] = v
			}
			env, copied = n, true
		}
		env[to] = resolved(v, env)
	}
	for _, in := range b.Instrs {
		switch t := in.(type) {
		case *ssa.Phi:
			for i, p := range b.Preds {
				if p == pred {
					bind(t, t.Edges[i])
				}
			}
		case *ssa.Store:
			// the cells of results
			if a, ok := t.Addr.(*ssa.Alloc); ok && !a.Heap {
				bind(a, t.Val)
			}
		case *ssa.UnOp:
			if a, ok := t.X.(*ssa.Alloc); ok && t.Op == token.MUL && !a.Heap && env[a] != nil {
				bind(t, env[a])
			}
		case *ssa.TypeAssert:
			if !t.CommaOk && f.is(t.X, env) && f.x.assert != nil {
				f.x.assert(t)
			}
		case *ssa.Return:
			ret(t.Results, env)
		}
	}
	switch t := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.If:
		if v, known := f.cond(t.Cond, env); known {
			i := 1
			if v {
				i = 0
			}
			f.run(b.Succs[i], b, env, visits, ret)
			return
		}
		f.run(b.Succs[0], b, env, visits, ret)
		f.run(b.Succs[1], b, env, visits, ret)
	case *ssa.Jump:
		f.run(b.Succs[0], b, env, visits, ret)
	}
}

// follow the function and note its answers.
func (x *kexec) follow(fn *ssa.Function, tracked map[ssa.Value]bool, depth int, note func(kresult, ssa.Value)) {
	f := &kframe{x: x, fn: fn, tracked: tracked, depth: depth}
	f.run(fn.Blocks[0], nil, map[ssa.Value]ssa.Value{}, map[*ssa.BasicBlock]int{}, func(rs []ssa.Value, env map[ssa.Value]ssa.Value) {
		if len(rs) == 0 {
			return
		}
		if len(rs) == 2 {
			if e := resolved(rs[1], env); !isNilConst(e) {
				if ex, ok := e.(*ssa.Extract); !ok || !sameTuple(ex, resolved(rs[0], env)) {
					note(kresult{what: "error"}, e)
					return
				}
			}
		}
		f.describe(rs[0], env, note)
	})
}

func sameTuple(e *ssa.Extract, v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.MakeInterface:
		return sameTuple(e, t.X)
	case *ssa.ChangeInterface:
		return sameTuple(e, t.X)
	case *ssa.Extract:
		return t.Tuple == e.Tuple
	}
	return false
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (f *kframe) describe(v ssa.Value, env map[ssa.Value]ssa.Value, note func(kresult, ssa.Value)) {
	v = resolved(v, env)
	if isNilConst(v) {
		note(kresult{what: "nil"}, v)
		return
	}
	if f.is(v, env) {
		note(kresult{what: "value"}, v)
		return
	}
	if !isAny(v.Type()) {
		note(kresult{what: "type", typ: goType(v.Type())}, v)
		return
	}
	switch t := v.(type) {
	case *ssa.MakeInterface:
		note(kresult{what: "type", typ: goType(t.X.Type())}, t.X)
		return
	case *ssa.ChangeInterface:
		note(kresult{what: "type", typ: goType(t.X.Type())}, t.X)
		return
	case *ssa.Phi:
		if f.depth < 6 {
			f.depth++
			for _, e := range t.Edges {
				f.describe(e, env, note)
			}
			f.depth--
			return
		}
	case *ssa.Extract:
		if call, ok := t.Tuple.(*ssa.Call); ok {
			f.called(call, env, note)
			return
		}
	case *ssa.Call:
		f.called(t, env, note)
		return
	}
	note(kresult{what: "unknown"}, v)
}

func (f *kframe) called(call *ssa.Call, env map[ssa.Value]ssa.Value, note func(kresult, ssa.Value)) {
	cc := &call.Call
	switch calleeName(cc) {
	case "GetDefaultValue":
		note(kresult{what: "default"}, call)
		return
	case "CreateFromString", "GetInstance":
		note(kresult{what: "factory"}, call)
		return
	}
	g := cc.StaticCallee()
	if g == nil || cc.IsInvoke() || f.depth > 5 {
		note(kresult{what: "unknown"}, call)
		return
	}
	g = f.x.c.unwrap(g)
	if len(g.Blocks) == 0 || !f.x.c.isEcore(pkgPath(g)) {
		note(kresult{what: "unknown"}, call)
		return
	}
	tracked := map[ssa.Value]bool{}
	for i, p := range g.Params {
		if i < len(cc.Args) && f.is(cc.Args[i], env) {
			tracked[p] = true
		}
	}
	f.x.follow(g, tracked, f.depth+1, note)
}

// valueParam: the parameter of a function that is any value.
func valueParam(fn *ssa.Function) *ssa.Parameter {
	for _, p := range fn.Params {
		if isAny(p.Type()) {
			return p
		}
	}
	return nil
}

// layouts of times: what a time is formatted with and parsed with in the functions
// reachable from fn for the kind.
func (x *kexec) layouts(v ssa.Value, name string, d int) []string {
	var out []string
	if d > 8 || v == nil {
		return nil
	}
	switch t := v.(type) {
	case *ssa.Call:
		g := t.Call.StaticCallee()
		if g == nil {
			return nil
		}
		if pkgPath(g) == "time" && g.Name() == name {
			for _, a := range t.Call.Args {
				if s, ok := constStr(a); ok {
					out = append(out, s)
				}
			}
			if len(out) == 0 {
				out = append(out, "?")
			}
			return out
		}
		if x.c.isEcore(pkgPath(g)) {
			for _, b := range x.c.unwrap(g).Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					out = append(out, x.layouts(r.Results[0], name, d+1)...)
				}
			}
			return out
		}
		for _, a := range t.Call.Args {
			out = append(out, x.layouts(a, name, d+1)...)
		}
	case *ssa.Extract:
		return x.layouts(t.Tuple, name, d+1)
	case *ssa.MakeInterface:
		return x.layouts(t.X, name, d+1)
	case *ssa.UnOp:
		return x.layouts(t.X, name, d+1)
	case *ssa.Phi:
		for _, e := range t.Edges {
			out = append(out, x.layouts(e, name, d+1)...)
		}
	case *ssa.Alloc:
		for _, s := range cellStores(t, 0) {
			out = append(out, x.layouts(s, name, d+1)...)
		}
	case *ssa.Convert:
		return x.layouts(t.X, name, d+1)
	case *ssa.ChangeType:
		return x.layouts(t.X, name, d+1)
	}
	return out
}

// carries: an instant formatted with the one layout is the same when it is parsed
// with the other.
func carries(format, parse string) bool {
	at := time.Date(2020, 12, 31, 23, 59, 58, 123456789, time.FixedZone("", 5*3600+1800))
	t, err := time.Parse(parse, at.Format(format))
	return err == nil && t.Equal(at)
}

// narrowed: the type a number goes through on its way that cannot hold all values
// of the type it ends as.
func narrowed(v ssa.Value) types.Type {
	width := func(t types.Type) int {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 0
		}
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32:
			return 32
		case types.Int, types.Int64, types.Uint, types.Uint64, types.Float64:
			return 64
		}
		return 0
	}
	final := width(v.Type())
	for i := 0; i < 8; i++ {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return nil
		}
		if w := width(c.Type()); w != 0 && w < final {
			return c.Type()
		}
		// between whole numbers and fractions
		if isFloat(c.Type()) != isFloat(c.X.Type()) {
			return c.X.Type()
		}
		v = c.X
	}
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// columnType the function gives the column of a feature of the kind.
func (k *kindType) columnType(c *Ctx, g *kgroup, val constant.Value) (string, token.Pos) {
	_, edges := g.under(val)
	headers := map[*ssa.BasicBlock]bool{}
	for _, l := range naturalLoops(g.fn) {
		if l.body[g.first] && l.header != g.first {
			headers[l.header] = true
		}
	}
	typ, pos := "", token.NoPos
	ofCall := func(call *ssa.Call) string {
		t, ref := "", false
		for _, a := range call.Call.Args {
			if s, ok := constStr(a); ok && (s == "INTEGER" || s == "REAL" || s == "TEXT" || s == "BLOB" || s == "NUMERIC") {
				t = s
			}
			if typeName(a.Type()) == "sqlTable" {
				ref = true
			}
		}
		if t == "" && ref && (typeName(call.Type()) == "sqlColumn" || call.Call.Signature().Results().Len() == 0 && call.Call.Signature().Recv() == nil) {
			t = "INTEGER"
		}
		return t
	}
	last := -1 // the last of the columns of a table is the one of the value
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] || headers[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if t := ofCall(x); t != "" && last < 0 {
					typ, pos = t, in.Pos()
				}
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok || typeName(x.Val.Type()) != "sqlColumn" {
					continue
				}
				n, isC := constInt(ia.Index)
				call, isCall := x.Val.(*ssa.Call)
				if isC && int(n) > last {
					last = int(n)
					typ, pos = "", in.Pos()
					if isCall {
						typ, pos = ofCall(call), call.Pos()
					}
				}
			}
		}
		for _, n := range b.Succs {
			if edges[[2]int{b.Index, n.Index}] {
				visit(n)
			}
		}
	}
	visit(g.first)
	return typ, pos
}

// checkKindStores: the kind kept for a feature is the classification of that feature.
func checkKindStores(c *Ctx, k *kindType) {
	isClass := map[*ssa.Function]bool{}
	for _, fn := range k.classifiers {
		isClass[fn] = true
	}
	var answered func(v ssa.Value, d int) (bool, []ssa.Value)
	answered = func(v ssa.Value, d int) (ok bool, of []ssa.Value) {
		if d > 4 {
			return false, nil
		}
		ok = true
		for _, s := range sources(v) {
			switch t := s.(type) {
			case *ssa.Call:
				g := t.Call.StaticCallee()
				if g == nil {
					return false, nil
				}
				if g = c.unwrap(g); isClass[g] {
					for i, p := range g.Params {
						if p == featureParam(g) {
							of = append(of, t.Call.Args[i])
						}
					}
					continue
				}
				for _, b := range g.Blocks {
					if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && len(r.Results) > 0 {
						o, _ := answered(r.Results[0], d+1)
						ok = ok && o
					}
				}
			case *ssa.Parameter:
				n := 0
				for _, site := range c.staticCalls(t.Parent()) {
					for i, p := range t.Parent().Params {
						if p == t {
							n++
							o, _ := answered(site.Common().Args[i], d+1)
							ok = ok && o
						}
					}
				}
				ok = ok && n > 0
			case *ssa.UnOp:
				// taken from where it was kept
				if _, isField := t.X.(*ssa.FieldAddr); !isField {
					return false, nil
				}
			default:
				return false, nil
			}
		}
		return ok, of
	}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !k.is(st.Val.Type()) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				key := fname(fn) + " " + fieldOf(fa).Name()
				fine, of := answered(st.Val, 0)
				// the feature kept beside it is the one that was classified
				for _, ref := range *fa.X.Referrers() {
					o, isF := ref.(*ssa.FieldAddr)
					if !isF || o == fa || typeName(deref(o.Type())) != "EStructuralFeature" {
						continue
					}
					for _, use := range *o.Referrers() {
						if s2, isS := use.(*ssa.Store); isS && s2.Addr == o {
							for _, v := range of {
								fine = fine && sameSource(v, s2.Val)
							}
						}
					}
				}
				c.Decide(fine, "classify", key, in.Pos(), "%s keeps a kind that is not the classification of the feature", fname(fn))
			}
		}
	}
}

func sameSource(a, b ssa.Value) bool {
	as, bs := sources(a), sources(b)
	return len(as) == 1 && len(bs) == 1 && as[0] == bs[0]
}

// kanswer: what a function makes of values of a kind.
type kanswer struct {
	kresult
	v ssa.Value
}

func (c *Ctx) answers(k *kindType, kind constant.Value, fn *ssa.Function, dyn string, assert func(*ssa.TypeAssert)) ([]kanswer, bool) {
	x := &kexec{c: c, k: k, kind: kind, dyn: dyn, assert: assert}
	var out []kanswer
	seen := map[kanswer]bool{}
	x.follow(fn, map[ssa.Value]bool{valueParam(fn): true}, 0, func(r kresult, v ssa.Value) {
		if a := (kanswer{r, v}); !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	})
	return out, !x.full
}

func checkC32(c *Ctx) {
	c.Rule("classify", "a kind of features stands for one type of Go values, and the kind kept for a feature is the classification of that feature")
	c.Rule("encode", "what the encoder makes of a value of the kind is something the database keeps, and null of null")
	c.Rule("column", "the column of a feature of the kind is declared with the type that keeps its values as they are")
	c.Rule("decode", "the decoder accepts what the database answers for the kind and makes a value of the kind's type of it")
	c.Rule("lossless", "no number is squeezed through a smaller type, and instants keep their precision")
	c.Rule("null", "a null is decoded to no value or to the default of the feature")
	c.Rule("unset", "a feature whose column is null is not set on the object that is read")
	loadMemo = map[string]ssa.Value{}
	var k *kindType
	for _, kt := range c.kindTypes() {
		if kt.named.Obj().Name() == "sqlFeatureKind" {
			k = kt
		}
	}
	if k == nil {
		c.Bad("classify", "sqlFeatureKind", token.NoPos, "the kinds of features of the database codec are gone")
		return
	}
	k.paths = nil
	for _, fn := range k.classifiers {
		ps, complete := c.classifierPaths(fn, featureParam(fn))
		if !complete {
			c.Bad("classify", fname(fn), fn.Pos(), "%s has too many paths to be enumerated", fname(fn))
		}
		k.paths = append(k.paths, ps...)
	}
	gotypes, refs := k.goTypes()
	vals, dropped := map[string]constant.Value{}, map[string]bool{}
	for _, p := range k.paths {
		if p.res != nil && k.names[p.res.ExactString()] != "" {
			vals[p.res.ExactString()] = p.res
			if v, known := p.about(".IsTransient"); known && v {
				dropped[p.res.ExactString()] = true
			}
		}
	}
	var kinds []string
	for r := range vals {
		if !dropped[r] {
			kinds = append(kinds, r)
		}
	}
	sort.Strings(kinds)
	for _, r := range kinds {
		c.Decide(len(gotypes[r]) <= 1, "classify", k.name(r), token.NoPos, "%s stands for values of different types (%s)", k.name(r), strings.Join(keysOf(gotypes[r]), ", "))
	}
	checkKindStores(c, k)

	goTypeOf := func(r string) string {
		if refs[r] {
			return "EObject"
		}
		for _, t := range keysOf(gotypes[r]) {
			return t
		}
		return ""
	}
	var encoders, decoders []*ssa.Function
	var schema []*kgroup
	seen := map[*ssa.Function]bool{}
	for _, g := range k.groups(c) {
		if p := valueParam(g.fn); p != nil {
			if seen[g.fn] || g.fn.Signature.Results().Len() == 0 || !isAny(g.fn.Signature.Results().At(0).Type()) {
				continue
			}
			seen[g.fn] = true
			if strings.Contains(strings.ToLower(g.fn.Name()), "decode") {
				decoders = append(decoders, g.fn)
			} else {
				encoders = append(encoders, g.fn)
			}
			continue
		}
		n := 0
		for _, r := range kinds {
			if t, _ := k.columnType(c, g, vals[r]); t != "" {
				n++
			}
		}
		if n > 2 {
			schema = append(schema, g)
		}
	}

	stored := map[string]map[string]bool{} // kind -> what the database keeps
	formats := map[string]map[string]token.Pos{}
	for _, fn := range encoders {
		for _, r := range kinds {
			key := fname(fn) + " " + k.name(r)
			dyn := goTypeOf(r)
			bad := ""
			var pos token.Pos
			as, full := c.answers(k, vals[r], fn, dyn, func(ta *ssa.TypeAssert) {
				switch {
				case dyn == "EObject" && typeName(ta.AssertedType) == "EObject":
				case dyn != "" && goType(ta.AssertedType) == dyn:
				default:
					bad, pos = "takes the value for a "+goType(ta.AssertedType), ta.Pos()
				}
			})
			some := false
			for _, a := range as {
				s := ""
				switch a.what {
				case "error":
					continue
				case "value":
					s = storageOf(dyn)
					if s == "" {
						bad = "hands the value to the database as it is"
					}
				case "type":
					s = storageOf(a.typ)
					if s == "" {
						bad = "makes a " + a.typ + " of it, which the database does not keep"
					}
				case "nil":
					continue
				case "unknown", "factory", "default":
					bad = "makes something of it that the database may not keep"
				}
				if s != "" {
					some = true
					if stored[r] == nil {
						stored[r] = map[string]bool{}
					}
					stored[r][s] = true
				}
				if t := narrowed(a.v); t != nil {
					c.Bad("lossless", key, a.v.Pos(), "%s squeezes values of the kind %s through %s", fname(fn), k.name(r), t)
				}
				x := &kexec{c: c}
				for _, l := range x.layouts(a.v, "Format", 0) {
					if formats[r] == nil {
						formats[r] = map[string]token.Pos{}
					}
					formats[r][l] = a.v.Pos()
				}
				if pos == token.NoPos {
					pos = a.v.Pos()
				}
			}
			if bad == "" && !some {
				bad = "makes nothing of it"
			}
			if !full {
				bad = "has too many paths"
			}
			c.Decide(bad == "", "encode", key, pos, "%s, given a value of the kind %s, %s", fname(fn), k.name(r), bad)
			// and of null
			nulls, _ := c.answers(k, vals[r], fn, "nil", nil)
			for _, a := range nulls {
				if a.what != "nil" {
					c.Bad("encode", key+" null", a.v.Pos(), "%s does not make null of null for the kind %s", fname(fn), k.name(r))
				}
			}
		}
	}

	for _, g := range schema {
		for _, r := range kinds {
			key := fname(g.fn) + " " + k.name(r)
			t, pos := k.columnType(c, g, vals[r])
			ok := t != ""
			for s := range stored[r] {
				ok = ok && (t == affinity[s] || t == "BLOB")
			}
			c.Decide(ok, "column", key, pos, "%s gives features of the kind %s a column of type %q, the encoder writes %s", fname(g.fn), k.name(r), t, strings.Join(keysOf(stored[r]), ", "))
		}
	}

	for _, fn := range decoders {
		for _, r := range kinds {
			want := goTypeOf(r)
			for _, s := range keysOf(stored[r]) {
				key := fname(fn) + " " + k.name(r) + " " + s
				as, full := c.answers(k, vals[r], fn, s, nil)
				good, wrong := false, ""
				var pos token.Pos
				for _, a := range as {
					switch a.what {
					case "error", "nil":
						continue
					case "value":
						good = good || s == want
						if want != "" && s != want {
							wrong = s
						}
					case "factory":
						good = good || want == ""
						if want != "" {
							wrong = "what the factory makes"
						}
					case "type":
						if a.typ == want || want == "EObject" && strings.HasSuffix(a.typ, ".EObject") {
							good = true
						} else if want != "" || a.typ != "" {
							wrong = a.typ
						}
					default:
						wrong = a.what
					}
					pos = a.v.Pos()
					if t := narrowed(a.v); t != nil {
						c.Bad("lossless", fname(fn)+" "+k.name(r), a.v.Pos(), "%s squeezes values of the kind %s through %s", fname(fn), k.name(r), t)
					}
				}
				switch {
				case !full:
					c.Bad("decode", key, pos, "%s has too many paths", fname(fn))
				case wrong != "":
					c.Bad("decode", key, pos, "%s makes %s of a %s for the kind %s, not %s", fname(fn), wrong, s, k.name(r), orText(want, "a value of the data type"))
				case !good:
					c.Bad("decode", key, fn.Pos(), "%s does not accept the %s the database keeps for the kind %s", fname(fn), s, k.name(r))
				default:
					c.Ok("decode", key, pos)
				}
				// instants
				if len(formats[r]) > 0 {
					x := &kexec{c: c}
					parses := map[string]bool{}
					for _, a := range as {
						for _, l := range x.layouts(a.v, "Parse", 0) {
							parses[l] = true
						}
					}
					for f, at := range formats[r] {
						ok := len(parses) > 0
						for p := range parses {
							ok = ok && carries(f, p)
						}
						c.Decide(ok, "lossless", fname(fn)+" "+k.name(r)+" "+f, at, "an instant written as %q and read as %s is not the same", f, strings.Join(keysOf(parses), ", "))
					}
				}
			}
			key := fname(fn) + " " + k.name(r)
			nulls, _ := c.answers(k, vals[r], fn, "nil", nil)
			what, pos := "", fn.Pos()
			for _, a := range nulls {
				if a.what != "nil" && a.what != "default" {
					what, pos = a.what+" "+a.typ, a.v.Pos()
				}
			}
			c.Decide(what == "" && len(nulls) > 0, "null", key, pos, "%s makes of a null for the kind %s neither nothing nor the default (%s)", fname(fn), k.name(r), what)
		}
	}

	// features that are not set
	isDecoder := map[*ssa.Function]bool{}
	for _, fn := range decoders {
		isDecoder[fn] = true
	}
	for _, fn := range c.Funcs {
		for _, ci := range calls(fn) {
			g := ci.Common().StaticCallee()
			if g == nil || !isDecoder[c.unwrap(g)] || isDecoder[fn] {
				continue
			}
			var raw ssa.Value
			for i, p := range c.unwrap(g).Params {
				if p == valueParam(c.unwrap(g)) && i < len(ci.Common().Args) {
					raw = ci.Common().Args[i]
				}
			}
			for _, si := range calls(fn) {
				n := calleeName(si.Common())
				if n != "ESet" && n != "ESetFromID" {
					continue
				}
				args := si.Common().Args
				if len(args) == 0 || !derivedFrom(args[len(args)-1], ci.Value(), 0) {
					continue
				}
				c.Decide(!reachedWithNil(fn, raw, si.Block()), "unset", fname(fn), si.Pos(), "%s sets the feature although its column is null", fname(fn))
			}
		}
	}
	c.Floor("classify", 18)
	c.Floor("encode", 36)
	c.Floor("column", 17)
	c.Floor("decode", 17)
	c.Floor("null", 17)
	c.Floor("unset", 1)
	c.Floor("lossless", 1)
}

func orText(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// reachedWithNil: the block can be reached when the value is nil.
func reachedWithNil(fn *ssa.Function, raw ssa.Value, to *ssa.BasicBlock) bool {
	steps := 0
	var visit func(b, pred *ssa.BasicBlock, null map[ssa.Value]bool, visits map[*ssa.BasicBlock]int) bool
	visit = func(b, pred *ssa.BasicBlock, null map[ssa.Value]bool, visits map[*ssa.BasicBlock]int) bool {
		if b == to {
			return true
		}
		if steps++; steps > 20000 {
			return true
		}
		if visits[b] > 0 {
			return false
		}
		visits[b]++
		defer func() { visits[b]-- }()
		n := map[ssa.Value]bool{}
		for v := range null {
			n[v] = true
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == pred {
						if n[ph.Edges[i]] || isNilConst(ph.Edges[i]) {
							n[ph] = true
						} else {
							delete(n, ph)
						}
					}
				}
			}
		}
		succs := b.Succs
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := i.Cond.(*ssa.BinOp); ok && (n[bo.X] && isNilConst(bo.Y) || n[bo.Y] && isNilConst(bo.X)) {
				if bo.Op == token.EQL {
					succs = succs[:1]
				} else if bo.Op == token.NEQ {
					succs = succs[1:]
				}
			}
		}
		for _, s := range succs {
			if visit(s, b, n, visits) {
				return true
			}
		}
		return false
	}
	from := fn.Blocks[0]
	if in, ok := raw.(ssa.Instruction); ok {
		from = in.Block()
	}
	return visit(from, nil, map[ssa.Value]bool{raw: true}, map[*ssa.BasicBlock]int{})
}
