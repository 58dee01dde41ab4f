package main

import "golang.org/x/tools/go/ssa"

// Path questions about one function body: is there a path on which something
// never happens?

// before reports whether every path of fn from its entry to at has passed an
// instruction for which event holds.
func before(fn *ssa.Function, at ssa.Instruction, event func(ssa.Instruction) bool) bool {
	target := at.Block()
	hits := func(b *ssa.BasicBlock, upto ssa.Instruction) bool {
		for _, in := range b.Instrs {
			if in == upto {
				return false
			}
			if event(in) {
				return true
			}
		}
		return false
	}
	if hits(target, at) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == target {
			return false
		}
		if hits(b, nil) {
			continue
		}
		work = append(work, b.Succs...)
	}
	return true
}

// after reports whether every path of fn from at (through edge, when given) to a
// return passes an instruction for which event holds.
func after(at ssa.Instruction, edge *ssa.BasicBlock, event func(ssa.Instruction) bool) bool {
	started := false
	for _, in := range at.Block().Instrs {
		if started && event(in) {
			return true
		}
		if in == at {
			started = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	if edge != nil {
		work = append(work, edge)
	} else {
		if _, ok := at.Block().Instrs[len(at.Block().Instrs)-1].(*ssa.Return); ok {
			return false
		}
		work = append(work, at.Block().Succs...)
	}
next:
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if event(in) {
				continue next
			}
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
		work = append(work, b.Succs...)
	}
	return true
}

// always reports whether every path of fn from its entry to a return passes an
// instruction for which event holds.
func always(fn *ssa.Function, event func(ssa.Instruction) bool) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		if event(in) {
			return true
		}
	}
	last := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1]
	return after(last, nil, event)
}
