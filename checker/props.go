package main

import (
	"fmt"
	"go/token"
)

type checkFn func(c *Ctx, rep *Report)

type propCheck struct {
	fn   checkFn
	rule string // what is decided
	both bool   // 32-bit too
}

var registry = map[string]*propCheck{}

func register(id, rule string, fn checkFn) { registry[id] = &propCheck{fn: fn, rule: rule} }

func (c *Ctx) varSets(rep *Report) {
	for _, p := range c.checkSets() {
		pos := token.NoPos
		path := ""
		if p.e != nil && p.e.Instr != nil {
			pos = p.e.Instr.Pos()
		}
		if p.o != nil {
			path = p.o.St.pathString()
		}
		rep.bad(c, pos, p.method, "variable set", path, "%s", p.msg)
	}
	n, _ := c.shared["setcount"].(int)
	rep.okn("the variable set of the call is loaded before quantifying", n)
}

func init() {
	register("C01", "every path of the apply recursion and of Apply, for each operator, order of the root levels and aliasing of operands, returns the operator's truth table", func(c *Ctx, rep *Report) {
		c.checkHead(rep, "apply")
		c.checkMethod(rep, "apply", "Apply")
	})
	register("C02", "every path of the negation recursion and of Not returns the complement", func(c *Ctx, rep *Report) {
		c.checkHead(rep, "not")
		c.checkMethod(rep, "not", "Not")
	})
	register("C03", "every path of the if-then-else recursion and of Ite returns (f&g)|(!f&h)", func(c *Ctx, rep *Report) {
		c.checkHead(rep, "ite")
		c.checkHead(rep, "not")
		c.checkMethod(rep, "ite", "Ite")
	})
	register("C04", "every path of the quantification recursion and of Exist returns the quantification over the set loaded by the call", func(c *Ctx, rep *Report) {
		c.checkHead(rep, "quant")
		c.checkHead(rep, "apply")
		c.varSets(rep)
		c.checkMethod(rep, "quant", "Exist")
	})
	register("C05", "every path of the relational product recursion and of AppEx returns Exist(Apply)", func(c *Ctx, rep *Report) {
		c.checkHead(rep, "appquant")
		c.checkHead(rep, "quant")
		c.checkHead(rep, "apply")
		c.varSets(rep)
		c.checkMethod(rep, "appquant", "AppEx")
	})
	register("C06", "every path of the renaming recursion, of its reordering step and of Replace returns the renamed function", func(c *Ctx, rep *Report) {
		c.checkHead(rep, "replace")
		c.checkHead(rep, "correctify")
		c.checkMethod(rep, "replace", "Replace")
	})
	register("C07", "every path of NewReplacer either refuses an invalid renaming or builds the map it describes", func(c *Ctx, rep *Report) {
		c.checkC07(rep)
	})
}

func safely(id string, c *Ctx, rep *Report, fn checkFn) {
	defer func() {
		if e := recover(); e != nil {
			rep.bad(nil, token.NoPos, id, "analysable", "", "the analysis failed: %v", e)
			if debugPanics {
				panic(e)
			}
		}
	}()
	fn(c, rep)
}

var debugPanics = false

var _ = fmt.Sprint
