package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("DBG", func(c *Ctx) {
		l := c.locks()
		ent := l.entries()
		for _, fn := range c.Funcs {
			if fname(fn) == os.Getenv("FN") {
				fmt.Println(fname(fn), fn.Synthetic, "entry", ent[fn])
				for _, s := range c.callerMap()[fn] {
					fmt.Println("  from", fname(s.fn), s.fn.Synthetic, c.at(s.ci.Pos()), "held", l.heldMust(s.fn, s.ci))
				}
			}
			if os.Getenv("FXF") != "" && fname(fn) == os.Getenv("FXF") {
				b := newFx(c)
				b.rounds = 2
				b.drop = func(k string, t bool) bool { return !t && strings.HasSuffix(k, "#1") }
				b.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool { return strings.HasPrefix(recvName(g), "Binary") }
				b.run(fn, nil, nil, func(p *fxPath, res []string) {
					fmt.Println("PATH", res)
					for _, k := range keysOf(p.facts) {
						fmt.Println("   ", k, p.facts[k])
					}
					for _, e := range p.events {
						fmt.Println("     >", e)
					}
				})
				fmt.Println("problem", b.problem)
			}
			if os.Getenv("SSA") != "" && topFn(fn).String() != "" && fname(topFn(fn)) == os.Getenv("SSA") {
				fn.WriteTo(os.Stdout)
			}
		}
	})
}
