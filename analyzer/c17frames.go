package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Traversals keep a stack of frames, each with the work that remains there: a
// list of what is still to be looked at and the iterator that is being used.

// frameStacks: the fields of the structure that are stacks of frames, with the
// fields of a frame that hold remaining work.
func frameStacks(n *types.Named) map[string][][2]string {
	out := map[string][][2]string{}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		pt, ok := sl.Elem().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		fs, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var work [][2]string
		list := false
		for k := 0; k < fs.NumFields(); k++ {
			if _, ok := fs.Field(k).Type().Underlying().(*types.Slice); ok {
				work = append(work, [2]string{fs.Field(k).Name(), "list"})
				list = true
			} else if isIterator(fs.Field(k).Type()) {
				work = append(work, [2]string{fs.Field(k).Name(), "iterator"})
			}
		}
		if list && len(work) > 1 {
			out[st.Field(i).Name()] = work
		}
	}
	return out
}

// frames: a frame is left only when nothing remains there, and what is taken
// from it is looked at.
func (h *inherited) frames() {
	c := h.c
	for _, fn := range c.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || c.isMockFile(fn.Pos()) {
			continue
		}
		n := asNamed17(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		stacks := frameStacks(n)
		if len(stacks) == 0 {
			continue
		}
		// a step of the traversal is looked at where it is taken
		if len(naturalLoops(fn)) == 0 && h.stepOf(fn, n) {
			continue
		}
		why, bad, k := "", fn.Pos(), 0
		fail := func(e fxEvent, s string) {
			if why == "" {
				why, bad = s, e.pos
			}
		}
		b := newFx(c)
		b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
			if len(naturalLoops(g)) > 0 {
				return false
			}
			r := sigRecv(g)
			if r == nil {
				return false
			}
			rn := asNamed17(r)
			return rn != nil && (rn == n || len(frameStacksOf(n, rn)) > 0)
		}
		b.pure = defaultPure
		b.run(fn, []string{"t"}, nil, func(p *fxPath, res []string) {
			mem := map[string]string{}
			empty := func(s string) bool {
				if p.facts["nil:"+s] || s == "nil" {
					return true
				}
				if ok, known := p.holds("(const:0<len(" + s + "))"); known && !ok {
					return true
				}
				return p.facts[eqFact("const:0", "len("+s+")")]
			}
			for i, e := range p.events {
				if e.op != "set" {
					continue
				}
				dot := strings.LastIndex(e.name, ".")
				field := e.name[dot+1:]
				val := e.args[0]
				work, isStack := stacks[field]
				if isStack && dot > 0 {
					d := mem[e.name]
					if d == "" {
						d = e.name
					}
					if val == d+"[:(len("+d+")-const:1)]" {
						k++
						top := d + "[(len(" + d + ")-const:1)]"
						for _, w := range work {
							cur := mem[top+"."+w[0]]
							if cur == "" {
								cur = top + "." + w[0]
							}
							done := false
							if w[1] == "list" {
								done = empty(cur)
							} else {
								done = p.facts["nil:"+cur] || cur == "nil"
								for f, v := range p.facts {
									if !v && strings.HasPrefix(f, "HasNext") && strings.HasSuffix(f, "("+cur+")") {
										done = true
									}
								}
							}
							if !done {
								fail(e, "a frame is left although what remains in its "+w[0]+" has not been found to be nothing")
							}
						}
					}
				}
				// what is taken off a list of remaining work is put somewhere
				if strings.HasSuffix(val, ")-const:1)]") && !isStack {
					s := mem[e.name]
					if s == "" {
						s = e.name
					}
					if val == s+"[:(len("+s+")-const:1)]" {
						used := false
						for _, o := range p.events {
							for _, a := range o.args {
								used = used || strings.Contains(a, s+"[(len("+s+")-const:1)]")
							}
						}
						if !used {
							fail(e, "what is taken off the remaining work is not looked at")
						}
					}
				}
				mem[e.name] = val
				_ = i
			}
			// what is set is gone over, and what is given is gone into and answered
			for i, e := range p.events {
				if e.op != "call" {
					continue
				}
				switch e.name {
				case "EIsSet":
					if !p.facts["EIsSet("+strings.Join(e.args, ",")+")"] {
						continue
					}
					got := ""
					for _, o := range p.events[i:] {
						if o.op == "call" && o.name == "EGet" && strings.Join(o.args, ",") == strings.Join(e.args, ",") {
							got = o.res
						}
					}
					if got == "" {
						fail(e, "a reference that is set is not read")
						continue
					}
					over, other := false, true
					for _, o := range p.events[i:] {
						for _, a := range o.args {
							over = over || o.op == "call" && a == got
						}
					}
					for f, v := range p.facts {
						if v && strings.HasPrefix(f, "is:"+got+":") {
							other = false
						}
					}
					if !over && !other {
						fail(e, "what a reference holds is not gone over")
					}
				case "Next":
					into := false
					for _, o := range p.events[i:] {
						into = into || o.op == "set" && strings.HasPrefix(o.name, "new:") && len(o.args) == 1 && o.args[0] == e.res
					}
					pushed := false
					for _, o := range p.events[i:] {
						if o.op == "set" && strings.HasPrefix(o.args[0], "append(") {
							for s := range stacks {
								pushed = pushed || strings.HasSuffix(o.name, "."+s)
							}
						}
					}
					if !into || !pushed {
						fail(e, "what is met is not gone into")
					}
				case "isEnd":
					last := ""
					for _, o := range p.events[:i] {
						if o.op == "call" && o.name == "Next" {
							last = o.res
						}
					}
					if p.facts[e.res] && last != "" && (len(res) != 1 || res[0] != last) {
						fail(e, "what is looked for is met but not answered")
					}
				}
			}
		})
		if k > 0 {
			c.Decide(why == "" && b.problem == "", "frames", fname(fn), bad, "%s%s", why, b.problem)
		}
	}
}

// stepOf: the method is called by another one of the type.
func (h *inherited) stepOf(fn *ssa.Function, n *types.Named) bool {
	for _, g := range h.c.Funcs {
		if g == fn || g.Signature.Recv() == nil || asNamed17(g.Signature.Recv().Type()) != n {
			continue
		}
		for _, ci := range calls(g) {
			if ci.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

// frameStacksOf: the stacks of the structure whose frames are of that type.
func frameStacksOf(n, frame *types.Named) []string {
	var out []string
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if fn := asNamed17(sl.Elem()); fn == frame {
				out = append(out, st.Field(i).Name())
			}
		}
	}
	return out
}

func asNamed17(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}
