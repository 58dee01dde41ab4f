package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mustEvents decides which events have happened on every way out of a function.
// An event happens at an instruction (match), inside a callee that performs it
// on all its exits, or in a deferred call once the defer has been reached. A loop
// that performs an event in each of its iterations performs it as a whole.
type mustEvents struct {
	p *Program
	// match returns the events an instruction performs by itself
	match func(in ssa.Instruction, fn *ssa.Function) []string
	// waive returns the events a branch makes unnecessary (e.g. nothing to do)
	waive func(br *ssa.If, taken bool, fn *ssa.Function) []string
	// enter limits which callees are looked into
	enter  func(cc *ssa.CallCommon, callee *ssa.Function) bool
	memo   map[mustKey]map[string]bool
	active map[mustKey]bool
	loops  map[*ssa.Function]map[[2]int]map[string]bool
}

type mustKey struct {
	fn       *ssa.Function
	panicked bool
}

func newMust(p *Program, match func(ssa.Instruction, *ssa.Function) []string) *mustEvents {
	return &mustEvents{p: p, match: match, memo: map[mustKey]map[string]bool{}, active: map[mustKey]bool{}, loops: map[*ssa.Function]map[[2]int]map[string]bool{}}
}

type evState struct {
	done     string // sorted, ";"-separated events
	deferred string // events performed by pending defers on a normal return
	pdefer   string // events performed by pending defers on a panic
}

func (s evState) Key() string { return s.done + "!" + s.deferred + "!" + s.pdefer }

func evAdd(set string, evs ...string) string {
	if len(evs) == 0 {
		return set
	}
	m := map[string]bool{}
	for _, e := range strings.Split(set, ";") {
		if e != "" {
			m[e] = true
		}
	}
	for _, e := range evs {
		m[e] = true
	}
	l := make([]string, 0, len(m))
	for e := range m {
		l = append(l, e)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func evHas(set, e string) bool {
	for _, x := range strings.Split(set, ";") {
		if x == e {
			return true
		}
	}
	return false
}

func keysOf(m map[string]bool) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// of returns the events every normal exit of fn has performed (panicked: the
// exits of a deferred function running because of a panic).
func (m *mustEvents) of(fn *ssa.Function, panicked bool) map[string]bool {
	k := mustKey{fn, panicked}
	if r, ok := m.memo[k]; ok {
		return r
	}
	if m.active[k] || len(fn.Blocks) == 0 {
		return nil
	}
	m.active[k] = true
	defer delete(m.active, k)
	var res map[string]bool
	m.run(fn, panicked, nil, func(in ssa.Instruction, st evState) {
		if _, ok := in.(*ssa.Return); !ok {
			return
		}
		all := map[string]bool{}
		for _, e := range strings.Split(evAdd(st.done, strings.Split(st.deferred, ";")...), ";") {
			if e != "" {
				all[e] = true
			}
		}
		if res == nil {
			res = all
			return
		}
		for e := range res {
			if !all[e] {
				delete(res, e)
			}
		}
	})
	m.memo[k] = res
	return res
}

// run explores fn; at sees each instruction with the state before it.
func (m *mustEvents) run(fn *ssa.Function, panicked bool, at func(in ssa.Instruction, st evState), exit func(in ssa.Instruction, st evState)) *Engine {
	loops := m.loopEvents(fn)
	e := &Engine{Fn: fn, Recover: 1}
	if panicked {
		e.Recover = 2
	}
	e.Transfer = func(in ssa.Instruction, st *PState) []*PState {
		s := st.U.(evState)
		if at != nil {
			at(in, s)
		}
		s.done = evAdd(s.done, m.match(in, fn)...)
		switch x := in.(type) {
		case *ssa.Call:
			s.done = evAdd(s.done, m.callMust(&x.Call, false)...)
		case *ssa.Defer:
			s.deferred = evAdd(s.deferred, m.callMust(&x.Call, false)...)
			s.deferred = evAdd(s.deferred, m.match(in, fn)...)
			s.pdefer = evAdd(s.pdefer, m.callMust(&x.Call, true)...)
			s.pdefer = evAdd(s.pdefer, m.match(in, fn)...)
		case *ssa.Jump:
		}
		return []*PState{st.With(s)}
	}
	e.Edge = func(from, to *ssa.BasicBlock, st *PState) *PState {
		if evs := loops[[2]int{from.Index, to.Index}]; len(evs) > 0 {
			s := st.U.(evState)
			s.done = evAdd(s.done, keysOf(evs)...)
			return st.With(s)
		}
		return st
	}
	if m.waive != nil {
		e.Branch = func(br *ssa.If, taken bool, st *PState) *PState {
			if evs := m.waive(br, taken, fn); len(evs) > 0 {
				s := st.U.(evState)
				s.done = evAdd(s.done, evs...)
				return st.With(s)
			}
			return nil
		}
	}
	e.Exit = func(in ssa.Instruction, st *PState) { exit(in, st.U.(evState)) }
	e.Run(evState{})
	return e
}

// callMust returns the events every possible callee performs.
func (m *mustEvents) callMust(cc *ssa.CallCommon, panicked bool) []string {
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	if cc.IsInvoke() && m.enter == nil {
		return nil
	}
	fns, ext := m.p.callees(cc)
	if ext || len(fns) == 0 {
		return nil
	}
	var res map[string]bool
	for i, f := range fns {
		f = m.p.unwrap(f)
		if m.enter != nil && !m.enter(cc, f) {
			return nil
		}
		r := m.of(f, panicked)
		if i == 0 {
			res = map[string]bool{}
			for k := range r {
				res[k] = true
			}
			continue
		}
		for k := range res {
			if !r[k] {
				delete(res, k)
			}
		}
	}
	return keysOf(res)
}

// loopEvents maps each edge that leaves a loop from its header to the events all
// its iterations perform.
func (m *mustEvents) loopEvents(fn *ssa.Function) map[[2]int]map[string]bool {
	if r, ok := m.loops[fn]; ok {
		return r
	}
	res := map[[2]int]map[string]bool{}
	m.loops[fn] = res
	for _, l := range naturalLoops(fn) {
		// must-events over one iteration: intersection over paths from the header's
		// loop successor back to the header
		evs := m.iteration(fn, l)
		if len(evs) == 0 {
			continue
		}
		for _, s := range l.header.Succs {
			if !l.body[s] {
				res[[2]int{l.header.Index, s.Index}] = evs
			}
		}
	}
	return res
}

func (m *mustEvents) iteration(fn *ssa.Function, l *loopInfo) map[string]bool {
	// forward must-dataflow inside the loop body
	in := map[*ssa.BasicBlock]map[string]bool{}
	var result map[string]bool
	first := true
	var work []*ssa.BasicBlock
	set := func(b *ssa.BasicBlock, s map[string]bool) {
		cur, ok := in[b]
		if !ok {
			c := map[string]bool{}
			for k := range s {
				c[k] = true
			}
			in[b] = c
			work = append(work, b)
			return
		}
		ch := false
		for k := range cur {
			if !s[k] {
				delete(cur, k)
				ch = true
			}
		}
		if ch {
			work = append(work, b)
		}
	}
	flow := func(b *ssa.BasicBlock, s map[string]bool) {
		for i, t := range b.Succs {
			if !l.body[t] {
				continue
			}
			s2 := map[string]bool{}
			for k := range s {
				s2[k] = true
			}
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && m.waive != nil {
				for _, e := range m.waive(br, i == 0, fn) {
					s2[e] = true
				}
			}
			for k := range m.loops[fn][[2]int{b.Index, t.Index}] {
				s2[k] = true
			}
			if t == l.header {
				if first {
					result = s2
					first = false
				} else {
					for k := range result {
						if !s2[k] {
							delete(result, k)
						}
					}
				}
				continue
			}
			set(t, s2)
		}
	}
	gen := func(b *ssa.BasicBlock, s map[string]bool) map[string]bool {
		o := map[string]bool{}
		for k := range s {
			o[k] = true
		}
		for _, x := range b.Instrs {
			if _, ok := x.(*ssa.Defer); ok {
				continue
			}
			for _, e := range m.match(x, fn) {
				o[e] = true
			}
			if c, ok := x.(*ssa.Call); ok {
				for _, e := range m.callMust(&c.Call, false) {
					o[e] = true
				}
			}
		}
		return o
	}
	flow(l.header, gen(l.header, nil))
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		flow(b, gen(b, in[b]))
	}
	return result
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	back   []*ssa.BasicBlock
}

// naturalLoops returns the loops of fn, inner loops first.
func naturalLoops(fn *ssa.Function) []*loopInfo {
	byHeader := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
				}
				l.back = append(l.back, b)
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	var res []*loopInfo
	for _, l := range byHeader {
		res = append(res, l)
	}
	sort.Slice(res, func(i, j int) bool {
		if len(res[i].body) != len(res[j].body) {
			return len(res[i].body) < len(res[j].body)
		}
		return res[i].header.Index < res[j].header.Index
	})
	return res
}

func posOf(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	return in.Parent().Pos()
}
