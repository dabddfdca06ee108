package main

import "go/token"

// checkRemembered verifies every path that answers from a cache: the test that
// precedes it must accept only entries stored for the same request, whatever
// function stored them.
func (c *Ctx) checkRemembered(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	ctxs := c.contexts()
	tab, _, err := c.opTable()
	if err != nil {
		rep.bad(c, token.NoPos, "operator.go", "operators", "", "%v", err)
		return
	}
	for _, s := range c.sortedSpecs() {
		h := c.head(s.Fn)
		rep.paths(c, h.Run, h.Outs)
		rep.undecided(c, fname(s.Fn), h.Outs)
		for _, o := range h.Outs {
			if o.Kind != OutReturn || len(o.Res) != 1 {
				continue
			}
			hit, _, _ := c.entryOf(loadAddr(o.Res[0]))
			stores := c.cacheStores(o)
			if hit == "" && len(stores) == 0 {
				continue
			}
			for _, pc := range c.cases(s, h, o, ctxs[s.Fn]) {
				d := pc.d
				if d.hasOp {
					if _, ok := tab[d.op]; !ok {
						continue
					}
				}
				d.spec = d.specEx()
				if hit != "" {
					if _, hi := d.r.bounds(d.st, o.Res[0]); hi < 0 {
						continue
					}
					rep.site("answer from " + hit + " in " + fname(s.Fn))
					if why := c.checkHit(d, o.Res[0]); why != "" {
						rep.bad(c, o.St.lastPos(c, s), fname(s.Fn), "same request", o.St.pathString(), "%s (%s)", why, pc.desc)
					} else {
						rep.ok("an entry that passes the test was stored for the same request")
					}
					continue
				}
				for _, cs := range stores {
					v := cs.vals[c.resField(cs.table)]
					rep.site("entry stored in " + cs.table + " at " + c.P.pos(cs.ev.Instr.Pos()))
					if v == nil {
						rep.bad(c, cs.ev.Instr.Pos(), fname(s.Fn), "result recorded", o.St.pathString(), "the entry is written without its result")
						continue
					}
					if v == o.Res[0] {
						rep.ok("the recorded result is the one returned")
						continue
					}
					if d.failedSomewhere() {
						continue
					}
					d.err = ""
					eq, why := d.same(d.node(v), d.spec)
					if d.err != "" {
						eq, why = false, d.err
					}
					if !eq {
						rep.bad(c, cs.ev.Instr.Pos(), fname(s.Fn), "recorded result", o.St.pathString(), "the value %s stored in the cache is not the result of the request: %s", short(v.String(), 200), why)
					} else {
						rep.ok("the recorded result is the one of the request")
					}
				}
			}
		}
	}
	if n, ok := c.shared["hitpairs"].(int); ok {
		rep.okn("pairs (store, lookup) compared", n)
	}
}

func (c *Ctx) sortedSpecs() []*HeadSpec {
	var l []*HeadSpec
	for _, k := range []string{"not", "apply", "ite", "quant", "appquant", "replace", "correctify"} {
		if s := c.specOfKind(k); s != nil {
			l = append(l, s)
		}
	}
	return l
}

func init() {
	register("C19", "every path of the recursive functions that answers from a cache is paired with every code that stores entries in that cache: the equalities tested by the lookup must force the stored request (operands, operator, variable set, replacer) to be the present one; entries that hold no result are refused", func(c *Ctx, rep *Report) {
		c.checkRemembered(rep)
	})
}
