package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resourceKind classifies types that must be released by whoever obtains them.
func resourceKind(t types.Type) string {
	switch qualTypeName(t) {
	case "os.File":
		return "file"
	case "zombiezen.com/go/sqlite.Conn":
		return "connection"
	case "zombiezen.com/go/sqlite.Backup":
		return "backup"
	case "zombiezen.com/go/sqlite/sqlitex.Pool":
		return "connection pool"
	case "github.com/panjf2000/ants/v2.Pool":
		return "worker pool"
	case "io.ReadCloser", "io.WriteCloser", "io.ReadWriteCloser", "io.Closer":
		return "stream"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			if st, ok := n.Underlying().(*types.Struct); ok && n.Obj().Pkg() != nil && closableChannel(n, st) {
				return "channel"
			}
		}
	}
	return ""
}

// closableChannel: an in-package type that owns channels and has a Close method.
func closableChannel(n *types.Named, st *types.Struct) bool {
	ch := false
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
			ch = true
		}
	}
	if !ch {
		return false
	}
	for i := 0; i < n.Origin().NumMethods(); i++ {
		if n.Origin().Method(i).Name() == "Close" {
			return strings.HasSuffix(n.Obj().Pkg().Path(), "ecore")
		}
	}
	return false
}

type acq struct {
	id   int
	call *ssa.Call
	val  ssa.Value // the resource (Extract or Call)
	err  ssa.Value // its error result, if any
	kind string
	temp bool // temporary file path
	take ssa.Value
}

// resFn analyses the resources one function obtains.
type resFn struct {
	p    *Program
	fn   *ssa.Function
	acqs []*acq
	byV  map[ssa.Value]*acq
}

// acquisitions finds the calls of fn whose result is a resource.
func (p *Program) acquisitions(fn *ssa.Function) *resFn {
	r := &resFn{p: p, fn: fn, byV: map[ssa.Value]*acq{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if _, isB := call.Call.Value.(*ssa.Builtin); isB {
				continue
			}
			res := call.Call.Signature().Results()
			if res.Len() == 0 || res.Len() > 2 {
				continue
			}
			kind := resourceKind(res.At(0).Type())
			temp := false
			if kind == "" {
				if f := call.Call.StaticCallee(); f != nil && p.makesTempPath(f) {
					kind, temp = "temporary file", true
				} else {
					continue
				}
			}
			if f := call.Call.StaticCallee(); f != nil && p.isAccessor(f) {
				continue
			}
			a := &acq{id: len(r.acqs), call: call, kind: kind, temp: temp}
			if res.Len() == 1 {
				a.val = call
			} else {
				if !isErrorType(res.At(1).Type()) {
					continue
				}
				for _, ref := range *call.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok {
						if e.Index == 0 {
							a.val = e
						} else {
							a.err = e
						}
					}
				}
			}
			if kind == "connection" && calleeName(&call.Call) == "Take" {
				a.take = recvOf(&call.Call)
			}
			r.acqs = append(r.acqs, a)
			if a.val != nil {
				r.byV[a.val] = a
			}
		}
	}
	return r
}

// isAccessor: an in-package function that merely returns a field.
func (p *Program) isAccessor(f *ssa.Function) bool {
	f = p.unwrap(f)
	if len(f.Blocks) != 1 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	u, ok := ret.Results[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok
}

// makesTempPath: an in-package function computing a fresh path in the temporary
// directory.
func (p *Program) makesTempPath(f *ssa.Function) bool {
	if f.Object() == nil || f.Object().Pkg() == nil || !p.isEcore(f.Object().Pkg().Path()) {
		return false
	}
	res := f.Signature.Results()
	if res.Len() == 0 || !types.Identical(res.At(0).Type(), types.Typ[types.String]) {
		return false
	}
	for _, ci := range calls(f) {
		if calleePkg(ci.Common()) == "os" && calleeName(ci.Common()) == "TempDir" {
			return true
		}
	}
	return false
}

// ids resolves a value to the acquisitions it may denote. Values inside nested
// closures are followed to the variables of the enclosing functions.
func (r *resFn) ids(v ssa.Value, seen map[ssa.Value]bool) map[int]bool {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	if a, ok := r.byV[v]; ok {
		return map[int]bool{a.id: true}
	}
	out := map[int]bool{}
	add := func(m map[int]bool) {
		for k := range m {
			out[k] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(r.ids(e, seen))
		}
	case *ssa.MakeInterface:
		add(r.ids(x.X, seen))
	case *ssa.ChangeInterface:
		add(r.ids(x.X, seen))
	case *ssa.ChangeType:
		add(r.ids(x.X, seen))
	case *ssa.TypeAssert:
		add(r.ids(x.X, seen))
	case *ssa.FieldAddr:
		// a method promoted from an embedded field of the resource
		if f := fieldOf(x); f != nil && f.Embedded() {
			add(r.ids(x.X, seen))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				add(r.cellIDs(a, seen))
			case *ssa.FieldAddr:
				add(r.ids(a, seen))
				// the same field this function stored a resource into
				f := fieldOf(a)
				for _, aq := range r.acqs {
					for _, sf := range r.storedFields(aq) {
						if sf == f {
							out[aq.id] = true
						}
					}
				}
			}
		}
	}
	return out
}

func (r *resFn) cellIDs(cell ssa.Value, seen map[ssa.Value]bool) map[int]bool {
	out := map[int]bool{}
	if fv, ok := cell.(*ssa.FreeVar); ok {
		b := rootBinding(fv)
		if b == nil {
			return out
		}
		cell = b
	}
	for _, s := range cellStores(cell, 0) {
		for k := range r.ids(s, seen) {
			out[k] = true
		}
	}
	return out
}

// cellStores lists the values stored to a variable by its function and the
// closures capturing it.
func cellStores(cell ssa.Value, d int) []ssa.Value {
	var out []ssa.Value
	if d > 4 || cell.Referrers() == nil {
		return nil
	}
	for _, ref := range *cell.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == cell {
				out = append(out, x.Val)
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == cell {
					out = append(out, cellStores(f.FreeVars[i], d+1)...)
				}
			}
		}
	}
	return out
}

// storedFields: struct fields the resource is stored into by this function.
func (r *resFn) storedFields(a *acq) []*types.Var {
	var out []*types.Var
	seenV := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seenV[v] || v.Referrers() == nil {
			return
		}
		seenV[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				switch ad := x.Addr.(type) {
				case *ssa.FieldAddr:
					out = append(out, fieldOf(ad))
				case *ssa.Alloc:
					for _, r2 := range *ad.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
							walk(u)
						}
					}
				}
			case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface:
				walk(ref.(ssa.Value))
			}
		}
	}
	walk(a.val)
	return out
}

// released returns the acquisitions a call gives back.
func (r *resFn) released(cc *ssa.CallCommon) map[int]bool {
	name := calleeName(cc)
	out := map[int]bool{}
	if recv := recvOf(cc); recv != nil && (name == "Close" || name == "Release") {
		for id := range r.ids(recv, map[ssa.Value]bool{}) {
			if r.acqs[id].take == nil {
				out[id] = true
			}
		}
		return out
	}
	if name == "Put" && len(argsOf(cc)) == 1 {
		for id := range r.ids(argsOf(cc)[0], map[ssa.Value]bool{}) {
			if r.acqs[id].take != nil {
				out[id] = true
			}
		}
		return out
	}
	if calleePkg(cc) == "os" && (name == "Remove" || name == "RemoveAll") {
		for id := range r.ids(cc.Args[0], map[ssa.Value]bool{}) {
			if r.acqs[id].temp {
				out[id] = true
			}
		}
		return out
	}
	// a function value taking over the resource (a close callback)
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if _, b := cc.Value.(*ssa.Builtin); !b {
			for _, a := range cc.Args {
				for id := range r.ids(a, map[ssa.Value]bool{}) {
					if r.acqs[id].take == nil {
						out[id] = true
					}
				}
			}
		}
		return out
	}
	// an in-package function that releases its parameter
	if f := cc.StaticCallee(); f != nil {
		f = r.p.unwrap(f)
		for i, a := range cc.Args {
			ids := r.ids(a, map[ssa.Value]bool{})
			if len(ids) > 0 && i < len(f.Params) && r.p.releasesParam(f, i, 0) {
				for id := range ids {
					out[id] = true
				}
			}
		}
	}
	return out
}

// releasesParam: every normal exit of f has released parameter i.
func (p *Program) releasesParam(f *ssa.Function, i int, d int) bool {
	if len(f.Blocks) == 0 || d > 3 {
		return false
	}
	r := &resFn{p: p, fn: f, byV: map[ssa.Value]*acq{}}
	a := &acq{kind: resourceKind(f.Params[i].Type()), val: f.Params[i]}
	if a.kind == "" {
		return false
	}
	r.acqs = []*acq{a}
	r.byV[f.Params[i]] = a
	held := false
	any := false
	r.run(resState{held: "0"}, func(in ssa.Instruction, st resState, e *Engine, ps *PState) {
		any = true
		if st.has(0) {
			held = true
		}
	}, nil)
	return any && !held
}

type resState struct {
	held  string // ids, comma separated
	cells string // errcell=id pairs
	defs  string // indices of pending defers, in order
}

func (s resState) Key() string { return s.held + "|" + s.cells + "|" + s.defs }

func (s resState) has(id int) bool {
	for _, x := range strings.Split(s.held, ",") {
		if x == fmt.Sprint(id) {
			return true
		}
	}
	return false
}

func (s *resState) add(id int) {
	if !s.has(id) {
		l := append(nonEmpty(s.held, ","), fmt.Sprint(id))
		sort.Strings(l)
		s.held = strings.Join(l, ",")
	}
}

func (s *resState) drop(id int) {
	var l []string
	for _, x := range nonEmpty(s.held, ",") {
		if x != fmt.Sprint(id) {
			l = append(l, x)
		}
	}
	s.held = strings.Join(l, ",")
}

func nonEmpty(s, sep string) []string {
	var out []string
	for _, x := range strings.Split(s, sep) {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func (s *resState) setCell(cell string, id int) {
	var l []string
	for _, x := range nonEmpty(s.cells, ",") {
		if !strings.HasPrefix(x, cell+"=") {
			l = append(l, x)
		}
	}
	if id >= 0 {
		l = append(l, fmt.Sprintf("%s=%d", cell, id))
	}
	sort.Strings(l)
	s.cells = strings.Join(l, ",")
}

func (s *resState) cell(cell string) int {
	for _, x := range nonEmpty(s.cells, ",") {
		if strings.HasPrefix(x, cell+"=") {
			n := -1
			fmt.Sscanf(x[len(cell)+1:], "%d", &n)
			return n
		}
	}
	return -1
}

// run explores the function; exit sees each return with the state after defers.
// blocked reports a pool closed while a connection taken from it is still out.
func (r *resFn) run(init resState, exit func(in ssa.Instruction, st resState, e *Engine, ps *PState), blocked func(at ssa.Instruction, pool, conn *acq)) {
	var defers []*ssa.Defer
	didx := map[*ssa.Defer]int{}
	for _, b := range r.fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				didx[d] = len(defers)
				defers = append(defers, d)
			}
		}
	}
	e := &Engine{Fn: r.fn, Recover: 1}
	// a pool closed (here or in a deferred closure) while a connection is out
	closing := func(s *resState, cc *ssa.CallCommon, at ssa.Instruction) {
		if blocked == nil || calleeName(cc) != "Close" {
			return
		}
		recv := recvOf(cc)
		if recv == nil || resourceKind(recv.Type()) != "connection pool" {
			return
		}
		for _, o := range r.acqs {
			if o.take != nil && s.has(o.id) && r.sameValue(o.take, recv) {
				blocked(at, o, o)
			}
		}
	}
	closingIn := func(s *resState, mc *ssa.MakeClosure, at ssa.Instruction) {
		for _, ci := range calls(mc.Fn.(*ssa.Function)) {
			closing(s, ci.Common(), at)
		}
	}
	release := func(s *resState, ids map[int]bool, at ssa.Instruction) {
		for id := range ids {
			s.drop(id)
		}
	}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(resState)
		switch x := in.(type) {
		case *ssa.Call:
			closing(&s, &x.Call, in)
			release(&s, r.released(&x.Call), in)
			// a local closure called directly
			if mc := localClosure(x.Call.Value); mc != nil {
				release(&s, r.closureReleases(mc, ps, e), in)
			}
			for _, a := range r.acqs {
				if a.call == x && a.val != nil {
					s.add(a.id)
				}
			}
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				s.setCell(al.Name(), -1)
				for _, a := range r.acqs {
					if a.err != nil && a.err == x.Val {
						s.setCell(al.Name(), a.id)
					}
				}
			}
		case *ssa.Defer:
			s.defs += fmt.Sprintf("%d,", didx[x])
		case *ssa.RunDefers:
			l := nonEmpty(s.defs, ",")
			for i := len(l) - 1; i >= 0; i-- {
				n := 0
				fmt.Sscanf(l[i], "%d", &n)
				d := defers[n]
				closing(&s, &d.Call, d)
				release(&s, r.released(&d.Call), d)
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					closingIn(&s, mc, d)
					release(&s, r.closureReleases(mc, ps, e), d)
				}
			}
			s.defs = ""
		}
		return []*PState{ps.With(s)}
	}
	e.Branch = func(br *ssa.If, taken bool, ps *PState) *PState {
		b, ok := br.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil
		}
		var o ssa.Value
		if isNilConst(b.Y) {
			o = b.X
		} else if isNilConst(b.X) {
			o = b.Y
		} else {
			return nil
		}
		nonNil := taken == (b.Op == token.NEQ)
		s := ps.U.(resState)
		changed := false
		for _, a := range r.acqs {
			if nonNil {
				if a.err != nil && o == a.err {
					s.drop(a.id)
					changed = true
				} else if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
					if al, ok := u.X.(*ssa.Alloc); ok && s.cell(al.Name()) == a.id {
						s.drop(a.id)
						changed = true
					}
				}
			} else if ids := r.ids(o, map[ssa.Value]bool{}); len(ids) == 1 && ids[a.id] {
				s.drop(a.id)
				changed = true
			}
		}
		if changed {
			return ps.With(s)
		}
		return nil
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		if _, ok := in.(*ssa.Return); ok {
			exit(in, ps.U.(resState), e, ps)
		}
	}
	e.Run(init)
}

// sameValue: two values denote the same resource.
func (r *resFn) sameValue(a, b ssa.Value) bool {
	ia, ib := r.ids(a, map[ssa.Value]bool{}), r.ids(b, map[ssa.Value]bool{})
	for k := range ia {
		if ib[k] {
			return true
		}
	}
	if pa, pb := rootParam(a), rootParam(b); pa != nil && pa == pb {
		return true
	}
	fa, fb := loadedField(a), loadedField(b)
	return fa != nil && fa == fb
}

func localClosure(v ssa.Value) *ssa.MakeClosure {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := singleStore(x.X); s != nil {
				return localClosure(s)
			}
		}
	}
	return nil
}

// closureReleases: what a closure of fn, run now, gives back on all its paths,
// knowing which captured variables are nil.
func (r *resFn) closureReleases(mc *ssa.MakeClosure, ps *PState, outer *Engine) map[int]bool {
	f := mc.Fn.(*ssa.Function)
	if len(f.Blocks) == 0 {
		return nil
	}
	sub := &resFn{p: r.p, fn: f, byV: r.byV, acqs: r.acqs}
	var res map[int]bool
	e := &Engine{Fn: f, Recover: 1}
	e.InitFacts = map[string]bool{}
	for i, b := range mc.Bindings {
		if al, ok := b.(*ssa.Alloc); ok {
			if k, ok := ps.facts["n:"+vid(al)]; ok {
				e.InitFacts["n:"+vid(f.FreeVars[i])] = k
			}
			if k, ok := ps.facts["b:"+vid(al)]; ok {
				e.InitFacts["b:"+vid(f.FreeVars[i])] = k
			}
		}
	}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		s := ps.U.(resState)
		switch x := in.(type) {
		case ssa.CallInstruction:
			if _, isGo := in.(*ssa.Go); isGo {
				break
			}
			for id := range sub.released(x.Common()) {
				s.add(id)
			}
		}
		return []*PState{ps.With(s)}
	}
	e.Branch = func(br *ssa.If, taken bool, ps *PState) *PState {
		// the resource itself is known nil on this branch: nothing to release
		if b, ok := br.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && isNilConst(b.Y) && taken == (b.Op == token.EQL) {
			s := ps.U.(resState)
			for id := range sub.ids(b.X, map[ssa.Value]bool{}) {
				s.add(id)
			}
			return ps.With(s)
		}
		return nil
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		if _, ok := in.(*ssa.Return); !ok {
			return
		}
		s := ps.U.(resState)
		m := map[int]bool{}
		for _, a := range r.acqs {
			if s.has(a.id) {
				m[a.id] = true
			}
		}
		if res == nil {
			res = m
			return
		}
		for k := range res {
			if !m[k] {
				delete(res, k)
			}
		}
	}
	e.Run(resState{})
	return res
}

// returnedIDs: acquisitions a return hands to the caller.
func (r *resFn) returnedIDs(ret *ssa.Return, e *Engine, ps *PState) map[int]bool {
	out := map[int]bool{}
	for _, v := range ret.Results {
		if k, n := e.Nil(ps, v); k && n {
			continue
		}
		for id := range r.ids(v, map[ssa.Value]bool{}) {
			out[id] = true
		}
		// closures capturing it
		if mc, ok := v.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				for id := range r.cellIDs(b, map[ssa.Value]bool{}) {
					out[id] = true
				}
			}
		}
	}
	return out
}
