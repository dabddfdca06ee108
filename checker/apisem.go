package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
)

// apiDen gives a meaning to the nodes that an exported method computes, in
// terms of its operands.
type apiDen struct {
	c   *Ctx
	r   *Run
	st  *State
	d   *den
	op  map[*Term]*Term // initial contents of an operand -> operand
	vs  *Term           // contents of the variable set, if any
	err string
}

func (c *Ctx) newAPIDen(r *Run, st *State, nodes []*Term) *apiDen {
	a := &apiDen{c: c, r: r, st: st, op: map[*Term]*Term{}}
	for _, n := range nodes {
		a.op[c.nodeVal(r, st, n)] = n
	}
	a.d = &den{c: c, r: r, st: st, class: map[*Term]int{}, rep: map[*Term]*Term{}, members: map[int]bool{}, ident: map[int]bool{}, failed: map[*Term]bool{}}
	return a
}

func (a *apiDen) fail(f string, x ...interface{}) *Ex {
	if a.err == "" {
		a.err = fmt.Sprintf(f, x...)
	}
	return ex0
}

// node evaluates an identifier.
func (a *apiDen) node(t *Term) *Ex {
	if k, ok := a.d.constOf(t); ok {
		if k == 0 {
			return ex0
		}
		if k == 1 {
			return ex1
		}
		return a.fail("identifier %d", k)
	}
	if t.Op == OHead {
		return a.head(t)
	}
	if n, ok := a.op[t]; ok {
		// equal operands
		best := n
		for t2, n2 := range a.op {
			if n2.ID < best.ID && a.r.decideEQ(a.st, t, t2) == yes {
				best = n2
			}
		}
		return exAtom("p:" + best.String())
	}
	for t2 := range a.op {
		if a.r.decideEQ(a.st, t, t2) == yes {
			return a.node(t2)
		}
	}
	return a.fail("the value %s has no known meaning", short(t.String(), 120))
}

// value evaluates a result of type Node.
func (a *apiDen) value(t *Term) *Ex {
	if isRetTerm(t) {
		return a.node(t.Args[0])
	}
	for id, n := range a.op {
		if n == t {
			return a.node(id)
		}
	}
	return a.node(a.c.nodeVal(a.r, a.st, t))
}

func (a *apiDen) quantified(f *Ex) *Ex {
	if a.vs != nil {
		if _, hi := a.r.bounds(a.st, a.vs); hi < 2 {
			return f
		}
	}
	return exE(f)
}

func (a *apiDen) head(t *Term) *Ex {
	c := a.c
	s := c.spec(t.Aux.(*headInfo).Fn)
	e := a.d.headEvent(t)
	if s == nil || e == nil {
		return a.fail("the recursive function %s has no known meaning", t.Aux.(*headInfo).Fn.Name())
	}
	arg := func(role string) *Ex {
		x := s.argOf(e, role)
		if x == nil {
			return a.fail("argument %s of %s not identified", role, s.Fn.Name())
		}
		return a.node(x)
	}
	opr := func() *Ex {
		ot, ok := a.d.opAt(s, e)
		if !ok {
			return a.fail("operator of %s not identified", s.Fn.Name())
		}
		return a.apply(ot, arg("n0"), arg("n1"))
	}
	switch s.Kind {
	case "not":
		return exNot(arg("n0"))
	case "ite":
		return exIte(arg("n0"), arg("n1"), arg("n2"))
	case "apply":
		return opr()
	case "appquant":
		return a.quantified(opr())
	case "quant":
		return a.quantified(arg("n0"))
	case "replace":
		return exR(arg("n0"))
	}
	return a.fail("unknown contract %s", s.Kind)
}

func (a *apiDen) apply(op *Term, x, y *Ex) *Ex {
	op = stripConv(op)
	tab, _, err := a.c.opTable()
	if err != nil {
		return a.fail("%v", err)
	}
	k, ok := a.d.constOf(op)
	if !ok {
		return a.fail("operator %s is not the requested one", short(op.String(), 80))
	}
	tt, ok := tab[k]
	if !ok {
		return a.fail("operator %d is not a binary operator", k)
	}
	return exAp(tt, x, y)
}

// assumeValid restricts a path to valid operands; false if it is impossible.
func (c *Ctx) assumeValid(r *Run, st *State, nodes []*Term) bool {
	for _, n := range nodes {
		if !r.assume(st, r.eqTerm(n, c.U.Nil()), false) || st.dead {
			return false
		}
		v := c.nodeVal(r, st, n)
		r.assumeLE(st, c.U.Int(0), v)
		sl := r.loadMem(st, map[Class]*classMem{}, c.U.FA(c.T, c.nodesF), c.nodesF.Type())
		r.assumeLE(st, c.U.AddK(v, 1), r.length(st, sl, c.nodesF.Type()))
		if st.dead {
			return false
		}
	}
	return true
}

// headFailed: a node construction or an operation failed on the path.
func (c *Ctx) stepFailed(r *Run, st *State) bool {
	for _, e := range st.events() {
		if (e.Kind == EvHead || e.Kind == EvMk) && e.Val != nil && intish(e.Val) {
			if _, hi := r.bounds(st, e.Val); hi < 0 {
				return true
			}
		}
	}
	return false
}

// checkMethod verifies that a method returns the node that its operation
// defines, for valid operands.
func (c *Ctx) checkMethod(rep *Report, kind, m string) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, m, "anchor", "", "%v", err)
		return
	}
	outs, r0, err := c.method(m)
	if err != nil {
		rep.bad(c, token.NoPos, m, "anchor", "", "%v", err)
		return
	}
	fn := c.P.method("BDD", m)
	rep.paths(c, r0, outs)
	rep.undecided(c, fname(fn), outs)
	nodes, others := c.splitArgs(fn)
	need := map[string]int{"not": 1, "apply": 2, "ite": 3, "quant": 2, "appquant": 3, "replace": 1}[kind]
	if len(nodes) != need {
		rep.bad(c, fn.Pos(), fname(fn), "anchor", "", "%d operands instead of %d", len(nodes), need)
		return
	}
	var opT *Term
	tab, names, err := c.opTable()
	if err != nil {
		rep.bad(c, token.NoPos, "operator.go", "operators", "", "%v", err)
		return
	}
	ops := []int64{0}
	if kind == "apply" || kind == "appquant" {
		for _, o := range others {
			if isIntType(o.T) {
				opT = o
			}
		}
		if opT == nil {
			rep.bad(c, fn.Pos(), fname(fn), "anchor", "", "operator not found")
			return
		}
		ops = nil
		var max int64
		for k := range tab {
			if k > max {
				max = k
			}
		}
		for k := int64(-1); k <= max+1; k++ {
			ops = append(ops, k)
		}
	}
	for _, o := range outs {
		if o.Kind != OutReturn && o.Kind != OutPanic {
			continue
		}
		for _, k := range ops {
			r := c.newRun()
			st := o.St.clone()
			if opT != nil {
				r.assumeEQ(st, opT, c.U.Int(k))
				if st.dead {
					continue
				}
			}
			if !c.assumeValid(r, st, nodes) {
				continue
			}
			desc := ""
			known := true
			if opT != nil {
				_, known = tab[k]
				if kind == "appquant" {
					known = known && map[string]bool{"OPand": true, "OPxor": true, "OPor": true, "OPnand": true}[names[k]]
				}
				desc = fmt.Sprintf(" (operator %d %s)", k, names[k])
			}
			if o.Kind == OutPanic {
				rep.bad(c, o.Pos, fname(fn), "no panic on valid operands", o.St.pathString(), "%s%s", o.Why, desc)
				continue
			}
			ret := o.Res[0]
			if ret.Op == ONil {
				switch {
				case !known && c.errorSet(&Outcome{St: st}):
					rep.ok("unsupported operator refused")
				case !known && c.stepFailed(r, st):
					rep.ok("unsupported operator refused")
				case !known:
					rep.bad(c, fn.Pos(), fname(fn), "refusal is visible", o.St.pathString(), "nil is returned without an error status%s", desc)
				case c.stepFailed(r, st):
					rep.ok("failures give nil")
				default:
					rep.bad(c, c.retPos(o, fn), fname(fn), "result", o.St.pathString(), "nil is returned for valid operands%s", desc)
				}
				continue
			}
			if !known {
				if c.refusedBelow(r, st, k) {
					rep.ok("unsupported operator refused")
					continue
				}
				rep.bad(c, c.retPos(o, fn), fname(fn), "unsupported operator", o.St.pathString(), "a node is returned for an operator that must be refused%s", desc)
				continue
			}
			a := c.newAPIDen(r, st, nodes)
			if kind == "quant" || kind == "appquant" {
				a.vs = c.nodeVal(r, st, nodes[len(nodes)-1])
			}
			p := func(i int) *Ex { return a.node(c.nodeVal(r, st, nodes[i])) }
			var want *Ex
			switch kind {
			case "not":
				want = exNot(p(0))
			case "ite":
				want = exIte(p(0), p(1), p(2))
			case "apply":
				want = a.apply(opT, p(0), p(1))
			case "quant":
				want = a.quantified(p(0))
			case "appquant":
				want = a.quantified(a.apply(opT, p(0), p(1)))
			case "replace":
				want = exR(p(0))
			}
			got := a.value(ret)
			if a.err != "" {
				rep.bad(c, c.retPos(o, fn), fname(fn), "result", o.St.pathString(), "%s%s", a.err, desc)
				continue
			}
			if ok, why := a.d.same(got, want); !ok {
				rep.bad(c, c.retPos(o, fn), fname(fn), "result", o.St.pathString(), "the result is not the one of the operation: %s%s", why, desc)
				continue
			}
			rep.ok("result of the method = specification")
		}
	}
}

// refusedBelow: the path calls the function of the operation with an operator
// that it refuses (and so the result can only be a failure).
func (c *Ctx) refusedBelow(r *Run, st *State, k int64) bool {
	for _, e := range st.events() {
		if e.Kind != EvHead {
			continue
		}
		s := c.spec(e.Fn)
		if s == nil || s.Kind != "apply" && s.Kind != "appquant" || s.Param["op"] == nil {
			continue
		}
		op := stripConv(c.envAt(r, st, s, s.Param["op"], e))
		if lo, hi := r.bounds(st, op); lo == hi && lo == k {
			return true
		}
	}
	return false
}

func (c *Ctx) retPos(o *Outcome, fn interface{ Pos() token.Pos }) token.Pos {
	for e := o.St.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvRet && e.ev.Instr != nil {
			return e.ev.Instr.Pos()
		}
	}
	return fn.Pos()
}

// checkReplacerUse: Replace gives the recursive function the replacer of the
// caller, and its identifier to the cache.
func (c *Ctx) sortedMethods() []string {
	var l []string
	for _, f := range c.bddMethods() {
		l = append(l, f.Name())
	}
	sort.Strings(l)
	return l
}

var _ = types.Identical
