package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- lock operations

type lockKey struct {
	path Path
	read bool
}

func (k lockKey) String() string {
	s := k.path.String()
	if k.read {
		s += "(R)"
	}
	return s
}

type lockOp struct {
	key   lockKey
	delta int
	class string // Type.field of the mutex, or the interface name
	rec   bool   // recursive mutex
}

// lockMethod classifies Lock/Unlock/RLock/RUnlock by name.
func lockMethod(name string) (delta int, read, ok bool) {
	switch name {
	case "Lock":
		return 1, false, true
	case "Unlock":
		return -1, false, true
	case "RLock":
		return 1, true, true
	case "RUnlock":
		return -1, true, true
	}
	return 0, false, false
}

// primitiveLock recognises a lock operation on an external mutex type or through an interface.
func (p *Program) primitiveLock(cc *ssa.CallCommon) (lockOp, bool) {
	delta, read, ok := lockMethod(calleeName(cc))
	if !ok || len(argsOf(cc)) != 0 {
		return lockOp{}, false
	}
	recv := recvOf(cc)
	if recv == nil {
		return lockOp{}, false
	}
	if !cc.IsInvoke() {
		f := cc.StaticCallee()
		if f == nil || f.Object() == nil || f.Object().Pkg() == nil || p.isEcore(f.Object().Pkg().Path()) {
			return lockOp{}, false
		}
	}
	path := canonPath(pathOf(recv))
	return lockOp{key: lockKey{path, read}, delta: delta, class: lockClass(recv), rec: strings.Contains(qualTypeName(recv.Type()), "RecursiveMutex") || cc.IsInvoke()}, true
}

// lockClass names a mutex by declaring struct type and field.
func lockClass(recv ssa.Value) string {
	switch x := recv.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type()
		return typeName(t) + "." + fieldOf(x).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return lockClass(x.X)
		}
	case *ssa.Global:
		return x.Name()
	}
	if n := typeName(recv.Type()); n != "" {
		return n
	}
	return recv.Type().String()
}

// canonPath removes identity accessors: the public identity of an object
// denotes the object itself.
func canonPath(p Path) Path {
	parts := strings.Split(p.Sel, ".")
	out := parts[:1]
	for _, s := range parts[1:] {
		if s == "interfaces" || s == "GetInterfaces()" {
			continue
		}
		if (strings.HasPrefix(s, "as") || strings.HasPrefix(s, "As")) && strings.HasSuffix(s, "()") {
			continue
		}
		out = append(out, s)
	}
	return Path{p.Root, strings.Join(out, ".")}
}

// lockState: held locks and pending defers on a path.
type lockState struct {
	held   map[string]heldLock
	defers []*ssa.Defer
	vac    string
}

type heldLock struct {
	key   lockKey
	n     int
	class string
	rec   bool
}

func (s *lockState) Key() string {
	ks := make([]string, 0, len(s.held))
	for k, h := range s.held {
		ks = append(ks, fmt.Sprintf("%s=%d", k, h.n))
	}
	sort.Strings(ks)
	d := ""
	for _, x := range s.defers {
		d += fmt.Sprintf("%d;", x.Pos())
	}
	return strings.Join(ks, ",") + "!" + d + "!" + s.vac
}

func (s *lockState) clone() *lockState {
	n := &lockState{held: map[string]heldLock{}, defers: append([]*ssa.Defer{}, s.defers...), vac: s.vac}
	for k, v := range s.held {
		n.held[k] = v
	}
	return n
}

func (s *lockState) add(k lockKey, delta int, class string, rec bool) {
	id := k.String()
	h := s.held[id]
	h.key, h.class, h.rec = k, class, rec
	h.n += delta
	if strings.Contains(id, "[*]") {
		// one lock per element of a collection: saturate
		if h.n > 1 {
			h.n = 1
		}
		if h.n < -1 {
			h.n = -1
		}
	}
	if h.n == 0 {
		delete(s.held, id)
	} else {
		s.held[id] = h
	}
}

type lockEffect struct {
	key   lockKey
	delta int
	class string
	rec   bool
}

type lockSummary struct {
	effects  []lockEffect
	conflict string    // exits disagree
	pos      token.Pos // of the disagreeing exit
	over     bool
	ops      int
}

type lockAnalysis struct {
	p      *Program
	sums   map[*ssa.Function]*lockSummary
	active map[*ssa.Function]bool
	heldAt map[ssa.Instruction]map[string]heldLock // must-held inside the function (without entry context)
	mayAt  map[ssa.Instruction]map[string]heldLock
}

func (p *Program) locks() *lockAnalysis {
	if l, ok := p.memo["locks"].(*lockAnalysis); ok {
		return l
	}
	l := &lockAnalysis{p: p, sums: map[*ssa.Function]*lockSummary{}, active: map[*ssa.Function]bool{}, heldAt: map[ssa.Instruction]map[string]heldLock{}, mayAt: map[ssa.Instruction]map[string]heldLock{}}
	p.memo["locks"] = l
	for _, fn := range p.Funcs {
		l.summary(fn)
	}
	return l
}

// effects of a call in the caller's namespace.
func (l *lockAnalysis) callEffects(cc *ssa.CallCommon) []lockEffect {
	if op, ok := l.p.primitiveLock(cc); ok {
		return []lockEffect{{op.key, op.delta, op.class, op.rec}}
	}
	var out []lockEffect
	fns, _ := l.p.callees(cc)
	seen := map[string]bool{}
	for _, f := range fns {
		s := l.summary(f)
		for _, e := range s.effects {
			k := e.key
			k.path = canonPath(rebase(k.path, f, cc))
			id := fmt.Sprint(k.String(), e.delta)
			if !seen[id] {
				seen[id] = true
				out = append(out, lockEffect{k, e.delta, e.class, e.rec})
			}
		}
	}
	return out
}

func (l *lockAnalysis) summary(fn *ssa.Function) *lockSummary {
	if s, ok := l.sums[fn]; ok {
		return s
	}
	if l.active[fn] {
		return &lockSummary{}
	}
	l.active[fn] = true
	defer delete(l.active, fn)
	s := &lockSummary{}
	// roots of locks taken here, to recognise nil tests on them
	lockRoots := map[ssa.Value]bool{}
	for _, ci := range calls(fn) {
		for _, e := range l.callEffects(ci.Common()) {
			s.ops++
			if e.key.path.Root != nil {
				lockRoots[e.key.path.Root] = true
			}
		}
	}
	if s.ops == 0 {
		l.sums[fn] = s
		return s
	}
	type exit struct {
		st  *lockState
		pos token.Pos
	}
	var exits []exit
	merge := func(in ssa.Instruction, st *lockState) {
		for k, v := range st.held {
			if v.n > 0 {
				if l.mayAt[in] == nil {
					l.mayAt[in] = map[string]heldLock{}
				}
				l.mayAt[in][k] = v
			}
		}
		m, ok := l.heldAt[in]
		if !ok {
			m = map[string]heldLock{}
			for k, v := range st.held {
				if v.n > 0 {
					m[k] = v
				}
			}
			l.heldAt[in] = m
			return
		}
		for k := range m {
			if h, ok := st.held[k]; !ok || h.n <= 0 {
				delete(m, k)
			}
		}
	}
	e := &Engine{Fn: fn}
	e.Transfer = func(in ssa.Instruction, ps *PState) []*PState {
		st := ps.U.(*lockState)
		merge(in, st)
		switch in := in.(type) {
		case *ssa.Call:
			effs := l.callEffects(in.Common())
			if len(effs) == 0 {
				return []*PState{ps}
			}
			n := st.clone()
			for _, ef := range effs {
				n.add(ef.key, ef.delta, ef.class, ef.rec)
			}
			return []*PState{ps.With(n)}
		case *ssa.Defer:
			if len(l.callEffects(in.Common())) == 0 {
				return []*PState{ps}
			}
			for _, d := range st.defers {
				if d == in {
					return []*PState{ps} // deferred in a loop: recorded once
				}
			}
			n := st.clone()
			n.defers = append(n.defers, in)
			return []*PState{ps.With(n)}
		case *ssa.RunDefers:
			if len(st.defers) == 0 {
				return []*PState{ps}
			}
			n := st.clone()
			for i := len(n.defers) - 1; i >= 0; i-- {
				for _, ef := range l.callEffects(n.defers[i].Common()) {
					n.add(ef.key, ef.delta, ef.class, ef.rec)
				}
			}
			n.defers = nil
			return []*PState{ps.With(n)}
		}
		return []*PState{ps}
	}
	e.Branch = func(br *ssa.If, taken bool, ps *PState) *PState {
		// a lock that is nil need not be taken
		if b, ok := br.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && isNilConst(b.Y) {
			if pth := canonPath(pathOf(b.X)); lockRoots[pth.Root] && pth.Sel == "" && (b.Op == token.EQL) == taken {
				if _, isPar := pth.Root.(*ssa.Parameter); !isPar || true {
					n := ps.U.(*lockState).clone()
					n.vac += pth.String()
					return ps.With(n)
				}
			}
		}
		return nil
	}
	e.Exit = func(in ssa.Instruction, ps *PState) {
		if _, ok := in.(*ssa.Return); ok {
			exits = append(exits, exit{ps.U.(*lockState), in.Pos()})
		}
	}
	e.Run(&lockState{held: map[string]heldLock{}})
	s.over = e.overflow
	// compare exits
	var ref *exit
	norm := func(st *lockState) string {
		ks := []string{}
		for k, h := range st.held {
			if strings.Contains(k, "[*]") {
				continue
			}
			ks = append(ks, fmt.Sprintf("%s=%+d", k, h.n))
		}
		sort.Strings(ks)
		return strings.Join(ks, ",")
	}
	for i := range exits {
		x := &exits[i]
		if x.st.vac != "" {
			continue
		}
		if ref == nil {
			ref = x
			continue
		}
		a, b := norm(ref.st), norm(x.st)
		if a != b {
			s.conflict = fmt.Sprintf("one exit leaves {%s}, another {%s}", a, b)
			s.pos = x.pos
			if len(a) > len(b) {
				s.pos = ref.pos
			}
		}
	}
	if ref == nil && len(exits) > 0 {
		ref = &exits[0]
	}
	eff := map[string]lockEffect{}
	for i := range exits {
		if exits[i].st.vac != "" && ref.st.vac == "" {
			continue
		}
		for _, h := range exits[i].st.held {
			k := h.key
			// a mutex looked up by this function belongs to the receiver, as seen by callers
			if !rooted(k.path.Root, fn) && len(fn.Params) > 0 {
				k.path = Path{fn.Params[0], ".<looked-up>"}
			}
			eff[k.String()] = lockEffect{k, h.n, h.class, h.rec}
		}
	}
	ks := []string{}
	for k := range eff {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s.effects = append(s.effects, eff[k])
	}
	l.sums[fn] = s
	return s
}

// rooted: the path starts at something the caller can name.
func rooted(v ssa.Value, fn *ssa.Function) bool {
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.Global:
		return true
	case *ssa.FreeVar:
		return true
	case nil:
		return false
	default:
		return v.Parent() != fn
	}
}

// callersOf: in-package functions that may call fn (static, interface, function values).
func (p *Program) callerMap() map[*ssa.Function][]callSite {
	if m, ok := p.memo["callers"].(map[*ssa.Function][]callSite); ok {
		return m
	}
	m := map[*ssa.Function][]callSite{}
	for _, f := range p.Funcs {
		for _, ci := range calls(f) {
			fns, _ := p.callees(ci.Common())
			for _, t := range fns {
				m[t] = append(m[t], callSite{f, ci})
			}
		}
	}
	p.memo["callers"] = m
	return m
}

type callSite struct {
	fn *ssa.Function
	ci ssa.CallInstruction
}

func exportedFn(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported()
}

func init() { register("C01", checkC01) }

func checkC01(c *Ctx) {
	const rule = "lock-pairing"
	c.Rule(rule, "the net lock effect of every function that touches a lock is the same on every path to a return (path-sensitive, defers and callee effects included), and zero unless the function is itself a lock/unlock operation")
	c.Rule("lock-wrapper", "the Lock and Unlock operations a type provides have exactly opposite net effects")
	l := c.locks()
	callers := c.callerMap()
	for _, fn := range c.Funcs {
		s := l.summary(fn)
		if s.ops == 0 {
			continue
		}
		name := fname(fn)
		if s.over {
			c.Bad(rule, name, fn.Pos(), "too many paths to analyse")
			continue
		}
		if s.conflict != "" {
			c.Bad(rule, name, s.pos, "%s: %s", name, s.conflict)
			continue
		}
		if len(s.effects) == 0 {
			c.Ok(rule, name, fn.Pos())
			continue
		}
		lockish := strings.Contains(strings.ToLower(fn.Name()), "lock")
		if lockish || (!exportedFn(fn) && len(callers[fn]) > 0 && fn.Parent() == nil) {
			c.Ok(rule, name+" (wrapper)", fn.Pos())
			continue
		}
		var d []string
		for _, e := range s.effects {
			d = append(d, fmt.Sprintf("%s %+d", e.key, e.delta))
		}
		if fn.Parent() != nil && deferredOnly(fn) {
			c.Ok(rule, name+" (deferred)", fn.Pos())
			continue
		}
		c.Bad(rule, name, fn.Pos(), "%s returns with lock balance %s", name, strings.Join(d, ", "))
	}
	c.Floor(rule, 40)
	// Lock/Unlock pairs
	for _, n := range c.Named {
		var lock, unlock *ssa.Function
		for i := 0; i < n.NumMethods(); i++ {
			m := n.Method(i)
			switch strings.ToLower(m.Name()) {
			case "lock":
				lock = c.byObj[m]
			case "unlock":
				unlock = c.byObj[m]
			}
		}
		if lock == nil || unlock == nil {
			continue
		}
		ef := func(f *ssa.Function, sign int) string {
			var d []string
			for _, e := range l.summary(f).effects {
				k := e.key
				nm := k.path.Sel
				if k.read {
					nm += "(R)"
				}
				d = append(d, fmt.Sprintf("%s%+d", nm, sign*e.delta))
			}
			sort.Strings(d)
			return strings.Join(d, ",")
		}
		a, b := ef(lock, 1), ef(unlock, -1)
		c.Decide(a == b && a != "", "lock-wrapper", n.Obj().Name(), lock.Pos(), "Lock has effect {%s} but Unlock undoes {%s}", a, b)
	}
	c.Floor("lock-wrapper", 2)
}

// deferredOnly: a closure only used as a deferred call.
func deferredOnly(fn *ssa.Function) bool {
	found := false
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeClosure:
				if x.Fn == fn {
					for _, r := range *x.Referrers() {
						if _, ok := r.(*ssa.Defer); !ok {
							return false
						}
						found = true
					}
				}
			case *ssa.Defer:
				if x.Call.Value == fn {
					found = true
				}
			}
		}
	}
	return found
}

var _ = types.Identical
