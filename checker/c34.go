package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Operations end, and remember what they computed: each recursion goes down in
// the order of the variables (or on a shorter list), each loop follows a finite
// sequence, and the memoised recursions test their memory before they recur and
// record their result for the same request.

type ending struct {
	c      *Ctx
	rep    *Report
	m      *tableModel
	lastOK bool
}

func (c *Ctx) checkEnds(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	c.contexts()
	e := &ending{c: c, rep: rep}
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "table of nodes", "anchor", "", "%v", err)
		return
	}
	e.m = m
	e.lastBound()
	var heads []*ssa.Function
	for fn := range c.specs() {
		heads = append(heads, fn)
	}
	sort.Slice(heads, func(i, j int) bool { return heads[i].String() < heads[j].String() })
	for _, fn := range heads {
		h := c.head(fn)
		rep.paths(c, h.Run, h.Outs)
		rep.undecided(c, fname(fn), h.Outs)
		e.loops(fname(fn), h.Run, h.Outs)
		e.descent(c.specs()[fn], h)
		e.memo(c.specs()[fn], h)
	}
	done := map[*ssa.Function]bool{}
	var units []*unit
	for _, u := range c.units() {
		if c.specs()[u.Fn] != nil || done[u.Fn] {
			continue
		}
		done[u.Fn] = true
		units = append(units, u)
	}
	for _, u := range units {
		rep.paths(c, u.Run, u.Outs)
		rep.undecided(c, u.name(), u.Outs)
		e.loops(u.name(), u.Run, u.Outs)
	}
	e.recursions(units)
	e.counts(units)
	e.marks(units)
	e.kept()
}

// ---------------------------------------------------------------- loops

func (e *ending) loops(name string, r *Run, outs []*Outcome) {
	for _, v := range loopViews(outs) {
		pos := v.Inst.Fn.Pos()
		if p := loopPos(v.Inst.Loop); p.IsValid() {
			pos = p
		}
		e.rep.site("loop at " + e.c.P.pos(pos))
		if len(v.Backs) == 0 {
			e.rep.ok("loop that makes one turn")
			continue
		}
		if rule := e.ranked(r, v); rule != "" {
			e.rep.ok("loop that ends: " + rule)
			continue
		}
		e.rep.bad(e.c, pos, fname(v.Inst.Fn), "loop ends", v.Backs[0].St.pathString(), "this loop may not end: no variable goes through a finite sequence on every turn")
	}
}

func loopPos(l *Loop) token.Pos {
	best := token.NoPos
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (!best.IsValid() || p < best) {
				best = p
			}
		}
	}
	return best
}

// ranked: a variable of the loop that shows that it ends, if any.
func (e *ending) ranked(r *Run, v *loopView) string {
	if e.iterates(v) {
		return "iteration"
	}
	for p := range v.Inst.Phi {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			if !isIntType(t) {
				if e.allBacks(v, func(o *Outcome) bool { return e.shrinks(r, v, o, p) }) {
					return "a number is divided"
				}
				continue
			}
			for _, dir := range []int64{1, -1} {
				if e.allBacks(v, func(o *Outcome) bool { return e.counted(r, v, o, p, dir) }) {
					return "counter with a bound"
				}
			}
			if e.allBacks(v, func(o *Outcome) bool { return e.halves(r, v, o, p) }) {
				return "number divided until it is zero"
			}
			if e.allBacks(v, func(o *Outcome) bool { return e.child(r, o.St, o.Loop.Next[p], v.Inst.Phi[p]) }) {
				return "successor of a node"
			}
			if e.allBacks(v, func(o *Outcome) bool { return e.chained(v, o.Loop.Next[p], v.Inst.Phi[p]) }) {
				return "chain of the table (C15)"
			}
		case *types.Slice:
			if e.allBacks(v, func(o *Outcome) bool { return e.shorter(r, o.St, o.Loop.Next[p], v.Inst.Phi[p]) }) {
				return "list that becomes shorter"
			}
		}
	}
	if e.searches(v.Inst.Fn) {
		return "search of a prime number (C35)"
	}
	return ""
}

// searches: the function looks for a prime number, with the constants that it is
// called with, or is a part of functions that do.
func (e *ending) searches(fn *ssa.Function) bool {
	c := e.c
	if s := c.primeSummary(fn, nil); len(s.up)+len(s.down) > 0 {
		return true
	}
	if !c.testsPrimes()[fn] {
		return false
	}
	n := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != fn {
						return false
					}
					consts := map[int]int64{}
					for i, a := range ci.Common().Args {
						if k, ok := a.(*ssa.Const); ok && isIntType(k.Type()) && k.Value != nil {
							consts[i] = k.Int64()
						}
					}
					if s := c.primeSummary(fn, consts); len(s.up)+len(s.down) == 0 && (c.P.recursive(fn) || !e.searches(f)) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

func (e *ending) allBacks(v *loopView, f func(o *Outcome) bool) bool {
	for _, o := range v.Backs {
		if o.Loop == nil || o.Loop.Next == nil || !f(o) {
			return false
		}
	}
	return true
}

// iterates: the loop ranges over a map, or a string.
func (e *ending) iterates(v *loopView) bool {
	for _, in := range v.Inst.Loop.Head.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		it, ok := n.Iter.(*ssa.Range)
		if !ok || v.Inst.Loop.Blocks[it.Block()] {
			continue
		}
		iff, ok := v.Inst.Loop.Head.Instrs[len(v.Inst.Loop.Head.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		ex, ok := iff.Cond.(*ssa.Extract)
		if ok && ex.Tuple == ssa.Value(n) && ex.Index == 0 {
			return true
		}
	}
	return false
}

// stable: the term has the same value on every turn.
func stable(v *loopView, t *Term) bool {
	return !mentions(t, func(x *Term) bool { return x.Op != OConst && x.K > v.Inst.ID })
}

// counted: the variable moves in a direction, and the turn is only made up to a
// bound that does not change.
func (e *ending) counted(r *Run, v *loopView, o *Outcome, p *ssa.Phi, dir int64) bool {
	u := e.c.U
	ph, next := v.Inst.Phi[p], stripConv(o.Loop.Next[p])
	if next == nil {
		return false
	}
	st := o.St
	le := func(a, b *Term) bool {
		if dir < 0 {
			a, b = b, a
		}
		return r.decideLE(st, a, b) == yes
	}
	if !le(u.AddK(ph, dir), next) {
		return false
	}
	min, max := intRange(p.Type(), e.c.P)
	lo, hi := r.bounds(st, next)
	if dir > 0 && hi < max || dir < 0 && lo > min {
		return true
	}
	for _, b := range e.terms(st) {
		if !stable(v, b) {
			continue
		}
		if le(next, b) {
			return true
		}
		blo, bhi := r.bounds(st, b)
		if dir > 0 && bhi < max-1024 && le(next, u.AddK(b, 1024)) || dir < 0 && blo > min+1024 && le(u.AddK(b, -1024), next) {
			return true
		}
	}
	// one step at a time, compared with a bound
	if d := u.Sub(next, ph); isIntConst(d) && d.K == dir {
		for f, val := range st.facts {
			if f.Op != OCmp || len(f.Args) != 2 {
				continue
			}
			op, _ := f.Aux.(string)
			op = strings.TrimSuffix(op, "?")
			for i := 0; i < 2; i++ {
				x, b := stripConv(f.Args[i]), f.Args[1-i]
				if x != ph && x != next || !stable(v, b) && !e.onlyGiven(v) {
					continue
				}
				// x op b, or b op x
				less, strict := true, op == "<"
				if op != "<" && op != "<=" {
					continue
				}
				if i == 1 {
					less = false
				}
				if !val {
					less, strict = !less, !strict
				}
				if less == (dir > 0) && (strict || x == next) {
					return true
				}
			}
		}
	}
	// a square
	for f, val := range st.facts {
		if f.Op != OCmp || dir < 0 {
			continue
		}
		for i := 0; i < 2; i++ {
			sq, b := stripConv(f.Args[i]), f.Args[1-i]
			if sq.Op == OBin && sq.Aux == "*" && sq.Args[0] == ph && sq.Args[1] == ph && stable(v, b) {
				below := f.Aux == "<" || f.Aux == "<="
				if i == 1 {
					below = !below
				}
				if f.Aux != "==" && below == val {
					return true
				}
			}
		}
	}
	return false
}

// onlyGiven: on a turn of the loop, nothing but the function given by the user
// can change what the loop reads.
func (e *ending) onlyGiven(v *loopView) bool {
	given := false
	for _, o := range v.Backs {
		for _, ev := range v.body(o) {
			switch ev.Kind {
			case EvCallback:
				given = true
			case EvCall, EvHead, EvMk, EvRet, EvLoopEnter, EvNote, EvAppend:
				return false
			case EvStore:
				if root := rootOf(ev.Addr); root == nil || root.Op != OAlloc || root.K <= v.Inst.ID {
					return false
				}
			}
		}
	}
	return given
}

// terms lists what a path compares.
func (e *ending) terms(st *State) []*Term {
	var l []*Term
	for _, t := range st.zone.list {
		if t != nil {
			l = append(l, t)
		}
	}
	return l
}

// intRange: the values of a type.
func intRange(t types.Type, p *Prog) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -inf, inf
	}
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1
	case types.Int16:
		return -1 << 15, 1<<15 - 1
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 1<<8 - 1
	case types.Uint16:
		return 0, 1<<16 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	}
	return -inf, inf
}

// halves: the number is divided, and is not zero.
func (e *ending) halves(r *Run, v *loopView, o *Outcome, p *ssa.Phi) bool {
	ph, next := v.Inst.Phi[p], stripConv(o.Loop.Next[p])
	if next == nil || next.Op != OBin || next.Args[0] != ph || r.decideLE(o.St, r.U.Int(1), ph) != yes {
		return false
	}
	d := next.Args[1]
	switch next.Aux {
	case "/":
		return r.decideLE(o.St, r.U.Int(2), d) == yes
	case ">>":
		return r.decideLE(o.St, r.U.Int(1), d) == yes
	}
	return false
}

// shrinks: a number with decimals is divided while it is above a constant.
func (e *ending) shrinks(r *Run, v *loopView, o *Outcome, p *ssa.Phi) bool {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsFloat == 0 {
		return false
	}
	ph, next := v.Inst.Phi[p], o.Loop.Next[p]
	for next != nil && next.Op == OConv {
		next = next.Args[0]
	}
	if next == nil || next.Op != OBin || next.Aux != "/" || next.Args[0] != ph || !aboveOne(next.Args[1]) {
		return false
	}
	for f, val := range o.St.facts {
		if f.Op != OCmp || f.Aux == "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.Args[i] == ph && aboveOne(f.Args[1-i]) {
				below := f.Aux == "<" || f.Aux == "<="
				if i == 1 {
					below = !below
				}
				if below != val {
					return true
				}
			}
		}
	}
	return false
}

// chained: the next one on a chain of the table, that the loop does not change.
func (e *ending) chained(v *loopView, next, ph *Term) bool {
	if e.m == nil {
		return false
	}
	for _, f := range []*types.Var{e.m.nextF, e.m.link} {
		if f == nil || !e.m.succ(next, ph, f) && !(next != nil && e.c.isNodeField(next, f) && next.Args[0] == ph) {
			continue
		}
		if !v.Inst.Loop.Mod.All && !v.Inst.Loop.Mod.Mod[Class(f)] || e.onlyCopies(v, f) {
			return true
		}
	}
	return false
}

// onlyCopies: the turns of the loop write the field in local copies only.
func (e *ending) onlyCopies(v *loopView, f *types.Var) bool {
	for _, o := range v.Backs {
		for _, ev := range v.body(o) {
			switch ev.Kind {
			case EvCall, EvHead, EvMk, EvRet, EvCallback, EvLoopEnter, EvNote:
				return false
			case EvStore:
				if root := rootOf(ev.Addr); root == nil || root.Op != OAlloc || root.K <= v.Inst.ID {
					if ev.Addr.Op != OFA || ev.Addr.Aux == f {
						return false
					}
				}
			}
		}
	}
	return true
}

// child: a successor of a node that is not a constant.
func (e *ending) child(r *Run, st *State, a, n *Term) bool {
	a = stripConv(a)
	if a == nil {
		return false
	}
	is := false
	for _, f := range []*types.Var{e.c.lowF, e.c.highF} {
		if e.c.isNodeField(a, f) && a.Args[0] == n || e.m != nil && e.m.succ(a, n, f) {
			is = true
		}
	}
	if !is {
		return false
	}
	if r.decideLE(st, r.U.Int(2), n) == yes {
		return true
	}
	return r.decideEQ(st, n, r.U.Int(0)) == no && r.decideEQ(st, n, r.U.Int(1)) == no
}

func (e *ending) shorter(r *Run, st *State, a, s *Term) bool {
	if a == nil || s == nil {
		return false
	}
	if _, ok := s.T.Underlying().(*types.Slice); !ok {
		return false
	}
	if _, ok := a.T.Underlying().(*types.Slice); !ok {
		return false
	}
	return r.decideLE(st, r.U.AddK(r.length(st, a, a.T), 1), r.length(st, s, s.T)) == yes
}

// ---------------------------------------------------------------- recursions

// at is the state when an event happened.
func (e *ending) at(o *Outcome, ev *Event) *State {
	st := e.c.rawState()
	st.ev = o.St.ev
	if ev.Zone != nil {
		st.zone = ev.Zone.Clone()
	}
	if f := e.c.lastField(); f != nil && e.lastOK {
		for _, t := range e.terms(st) {
			if t.Op == OLoad && t.Args[0].Op == OFA && t.Args[0].Aux == f {
				e.c.newRun().assumeLE(st, e.c.U.AddK(t, 1), e.c.V)
			}
		}
	}
	return st
}

// lastBound: the last variable that a replacer changes is a variable.
func (e *ending) lastBound() {
	c := e.c
	f := c.lastField()
	if f == nil {
		return
	}
	n := 0
	for _, u := range c.units() {
		for _, o := range u.Outs {
			for _, ev := range o.St.events() {
				if ev.Kind != EvStore || ev.Addr == nil || ev.Addr.Op != OFA || ev.Addr.Aux != f {
					continue
				}
				if !e.variable(u, o, o.St, ev.Val, map[*Term]bool{}) {
					e.rep.bad(c, ev.Instr.Pos(), fname(u.Fn), "recursion goes down", o.St.pathString(), "the last variable of a replacer is not shown to be a variable: Replace may recur on a constant")
					return
				}
				n++
			}
		}
	}
	e.rep.okn("last variable of a replacer in range", n)
	e.lastOK = true
}

// variable: the number is smaller than the number of variables.
func (e *ending) variable(u *unit, o *Outcome, st *State, t *Term, seen map[*Term]bool) bool {
	t = stripConv(t)
	r, k := u.Run, e.c.U
	if isIntConst(t) && t.K <= 0 || seen[t] {
		return true
	}
	for _, x := range append(e.terms(st), e.c.V) {
		if x.Op == OLoad && x.Args[0] == e.c.V.Args[0] && r.decideLE(st, k.AddK(t, 1), x) == yes {
			return true
		}
	}
	if t.Op == OLoad && t.Args[0].Op == OFA && t.Args[0].Aux == e.c.lastField() {
		return true
	}
	for _, v := range loopViews(u.Outs) {
		for p, ph := range v.Inst.Phi {
			if ph != t || v.Inst.Init[p] == nil {
				continue
			}
			seen[t] = true
			ok := e.variable(u, o, v.Inst.Pre, v.Inst.Init[p], seen)
			for _, b := range v.Backs {
				ok = ok && b.Loop.Next[p] != nil && e.variable(u, b, b.St, b.Loop.Next[p], seen)
			}
			return ok
		}
	}
	return false
}

// descent: the operations on nodes.
func (e *ending) descent(s *HeadSpec, h *HeadAnalysis) {
	c := e.c
	seen := map[string]bool{}
	for _, o := range h.Outs {
		for _, ev := range o.St.events() {
			if ev.Kind != EvHead || !c.P.sameSCC(ev.Fn, s.Fn) {
				continue
			}
			e.rep.site("recursive call at " + c.P.pos(ev.Instr.Pos()))
			s2 := c.spec(ev.Fn)
			if s2 == nil {
				e.rep.bad(c, ev.Instr.Pos(), fname(s.Fn), "recursion goes down", o.St.pathString(), "%s calls %s, which calls it back", fname(s.Fn), fname(ev.Fn))
				continue
			}
			var args []*Term
			for i, role := range s2.Role {
				if nodeRole(role) {
					args = append(args, ev.Args[i])
				}
			}
			k := fmt.Sprint(ev.Seq, ev.Instr.Pos())
			if seen[k] {
				continue
			}
			seen[k] = true
			if e.below(s, h, o, ev, args) {
				e.rep.ok("operands of the recursion are below")
			} else {
				var l []string
				for _, a := range args {
					l = append(l, short(a.String(), 60))
				}
				e.rep.bad(c, ev.Instr.Pos(), fname(s.Fn), "recursion goes down", o.St.pathString(), "the operands of the recursion (%s) are not shown to be below the first level of the operands: it may not end", strings.Join(l, ", "))
			}
		}
	}
}

func nodeRole(role string) bool {
	return len(role) == 2 && role[0] == 'n' || role == "low" || role == "high"
}

// below: the smallest level of the operands is smaller than the ones of all the
// arguments.
func (e *ending) below(s *HeadSpec, h *HeadAnalysis, o *Outcome, ev *Event, args []*Term) bool {
	c := e.c
	r := c.newRun()
	var ps []*Term
	for role, p := range s.Param {
		if nodeRole(role) {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].ID < ps[j].ID })
	good := func(st *State) bool {
		od := &ordering{c: c, r: r, st: st}
		for _, x := range ps {
			ok := true
			k := c.U.AddK(c.lvl(x), 1)
			for _, a := range args {
				ok = ok && od.atLeast(k, stripConv(a))
			}
			if ok {
				return true
			}
		}
		return false
	}
	base := e.at(o, ev)
	if lp := s.Param["level"]; lp != nil {
		// checked where it is given (C13)
		r.assumeLE(base, c.U.AddK(lp, 1), c.V)
	}
	if good(base.clone()) {
		return true
	}
	var split func(i int, st *State) bool
	var order func(l []*Term, last *Term, st *State) bool
	order = func(l []*Term, last *Term, st *State) bool {
		if st.dead {
			return true
		}
		if len(l) == 0 {
			return good(st)
		}
		for i := range l {
			z := st.clone()
			if last != nil {
				r.assumeLE(z, c.lvl(last), c.lvl(l[i]))
			}
			rest := append(append([]*Term{}, l[:i]...), l[i+1:]...)
			if !order(rest, l[i], z) {
				return false
			}
		}
		return true
	}
	split = func(i int, st *State) bool {
		if st.dead {
			return true
		}
		if i == len(ps) {
			return order(ps, nil, st)
		}
		p := ps[i]
		// constant
		z := st.clone()
		r.assumeLE(z, c.U.Int(0), p)
		r.assumeLE(z, p, c.U.Int(1))
		r.assumeEQ(z, c.lvl(p), c.V)
		if !split(i+1, z) {
			return false
		}
		z = st.clone()
		r.assumeLE(z, c.U.Int(2), p)
		r.assumeLE(z, c.U.AddK(c.lvl(p), 1), c.V)
		return split(i+1, z)
	}
	return split(0, base)
}

// recursions: the other recursive functions.
func (e *ending) recursions(units []*unit) {
	c := e.c
	by := map[*ssa.Function]*unit{}
	var fns []*ssa.Function
	for _, u := range units {
		if c.P.recursive(u.Fn) {
			by[u.Fn] = u
			fns = append(fns, u.Fn)
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range fns {
		if done[f] {
			continue
		}
		var scc []*ssa.Function
		for _, g := range fns {
			if c.P.sameSCC(f, g) {
				scc = append(scc, g)
				done[g] = true
			}
		}
		e.component(scc, by)
	}
}

type recCall struct {
	u  *unit
	o  *Outcome
	ev *Event
	st *State
}

// component: one parameter by function shows that the calls between them end.
func (e *ending) component(scc []*ssa.Function, by map[*ssa.Function]*unit) {
	c := e.c
	var calls []*recCall
	seen := map[string]bool{}
	for _, f := range scc {
		u := by[f]
		for _, o := range u.Outs {
			for _, ev := range o.St.events() {
				if ev.Kind == EvHead && c.P.sameSCC(ev.Fn, f) {
					k := fmt.Sprint(ev.Seq, ev.Instr.Pos())
					if seen[k] {
						continue
					}
					seen[k] = true
					e.rep.site("recursive call at " + c.P.pos(ev.Instr.Pos()))
					calls = append(calls, &recCall{u, o, ev, e.at(o, ev)})
				}
			}
		}
	}
	if len(calls) == 0 {
		return
	}
	choice := map[*ssa.Function]int{}
	var bad *recCall
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(scc) {
			for _, m := range []func(k *unit, st *State, g *ssa.Function, a, p *Term, args, ps []*Term) bool{e.mNode, e.mList, e.mUp, e.mDown} {
				// calls that keep the measure must not make a cycle
				keep := map[*ssa.Function]map[*ssa.Function]bool{}
				ok := true
				for _, k := range calls {
					ps := c.unitArgs(k.u.Fn)
					pi, ai := choice[k.u.Fn], choice[k.ev.Fn]
					if pi >= len(ps) || ai >= len(k.ev.Args) {
						ok = false
						break
					}
					a, p := stripConv(k.ev.Args[ai]), ps[pi]
					if m(k.u, k.st, k.ev.Fn, a, p, k.ev.Args, ps) {
						continue
					}
					if a == p && k.u.Fn != k.ev.Fn {
						if keep[k.u.Fn] == nil {
							keep[k.u.Fn] = map[*ssa.Function]bool{}
						}
						keep[k.u.Fn][k.ev.Fn] = true
						continue
					}
					bad = k
					ok = false
					break
				}
				if ok && !cyclic(keep) {
					return true
				}
			}
			return false
		}
		for j := range scc[i].Params {
			choice[scc[i]] = j
			if try(i + 1) {
				return true
			}
		}
		return false
	}
	if len(scc) <= 4 && try(0) {
		e.rep.okn("recursive calls that go down", len(calls))
		return
	}
	if bad == nil {
		bad = calls[0]
	}
	e.rep.bad(c, bad.ev.Instr.Pos(), fname(bad.u.Fn), "recursion goes down", bad.o.St.pathString(), "no argument of the recursion is shown to be smaller than the parameter: it may not end")
}

func cyclic(g map[*ssa.Function]map[*ssa.Function]bool) bool {
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		switch state[f] {
		case 1:
			return true
		case 2:
			return false
		}
		state[f] = 1
		for h := range g[f] {
			if visit(h) {
				return true
			}
		}
		state[f] = 2
		return false
	}
	for f := range g {
		if visit(f) {
			return true
		}
	}
	return false
}

// mNode: the argument is below the node.
func (e *ending) mNode(u *unit, st *State, g *ssa.Function, a, p *Term, args, ps []*Term) bool {
	return isIntType(p.T) && e.under(u, st, u.Run, a, p)
}

// under: a strict descendant of the node p.
func (e *ending) under(u *unit, st *State, r *Run, a, p *Term) bool {
	y := nodeOf(e, stripConv(a))
	return y != nil && e.child(r, st, a, y) && e.within(u, y, p, 0)
}

// within: the node p, or a descendant.
func (e *ending) within(u *unit, a, p *Term, d int) bool {
	a = stripConv(a)
	if a == p {
		return true
	}
	if d > 6 {
		return false
	}
	if y := nodeOf(e, a); y != nil {
		return e.within(u, y, p, d+1)
	}
	// variable of a loop that goes down from the node
	for _, v := range loopViews(u.Outs) {
		for q, t := range v.Inst.Phi {
			if t != a || v.Inst.Init[q] == nil || !e.within(u, v.Inst.Init[q], p, d+1) {
				continue
			}
			return e.allBacks(v, func(o *Outcome) bool {
				return o.Loop.Next[q] != nil && e.within(u, o.Loop.Next[q], t, d+1)
			})
		}
	}
	return false
}

// nodeOf: the node that the term is a successor of.
func nodeOf(e *ending, a *Term) *Term {
	if a == nil {
		return nil
	}
	if e.c.isNodeField(a, e.c.lowF) || e.c.isNodeField(a, e.c.highF) {
		return a.Args[0]
	}
	if a.Op == OLoad && e.m != nil {
		if f, i, _ := e.m.nodeElem(a.Args[0]); f == e.c.lowF || f == e.c.highF {
			return i
		}
	}
	return nil
}

func (e *ending) mList(u *unit, st *State, g *ssa.Function, a, p *Term, args, ps []*Term) bool {
	return e.shorter(u.Run, st, a, p)
}

// mUp: a number that increases up to a bound that is a constant, or another
// parameter that is passed unchanged.
func (e *ending) mUp(u *unit, st *State, g *ssa.Function, a, p *Term, args, ps []*Term) bool {
	r := u.Run
	if u.Fn != g || !isIntType(p.T) || !isIntType(a.T) || r.decideLE(st, r.U.AddK(p, 1), a) != yes {
		return false
	}
	_, max := intRange(p.T, e.c.P)
	if _, hi := r.bounds(st, a); hi < max {
		return true
	}
	for i, q := range ps {
		if i >= len(args) || stripConv(args[i]) != q {
			continue
		}
		if _, ok := q.T.Underlying().(*types.Slice); ok {
			q = r.length(st, q, q.T)
		} else if !isIntType(q.T) {
			continue
		}
		if r.decideLE(st, a, q) == yes {
			return true
		}
	}
	return r.decideLE(st, a, e.c.V) == yes
}

func (e *ending) mDown(u *unit, st *State, g *ssa.Function, a, p *Term, args, ps []*Term) bool {
	r := u.Run
	if u.Fn != g || !isIntType(p.T) || !isIntType(a.T) || r.decideLE(st, r.U.AddK(a, 1), p) != yes {
		return false
	}
	min, _ := intRange(p.T, e.c.P)
	lo, _ := r.bounds(st, a)
	return lo > min
}

// ---------------------------------------------------------------- memory

// noEpoch forgets when the contents of the memory were read.
func (c *Ctx) noEpoch(t *Term) *Term {
	if t == nil {
		return nil
	}
	m, _ := c.shared["noepoch"].(map[*Term]*Term)
	if m == nil {
		m = map[*Term]*Term{}
		c.shared["noepoch"] = m
	}
	if x, ok := m[t]; ok {
		return x
	}
	ld := map[*Term]*Term{}
	t.walk(func(x *Term) bool {
		if x.Op == OLoad {
			ld[x] = c.U.mk(OLoad, x.Aux, 0, x.T, x.Coef, c.noEpoch(x.Args[0]))
			return false
		}
		return true
	})
	x := c.U.subst(t, ld)
	m[t] = x
	return x
}

// tests of an entry of the memory, in a state.
type entryTest struct {
	fact *Term
	val  bool
	load *Term
	lo   int64
	hi   int64
}

// lookup is a path that ends with a result found in the memory.
type lookup struct {
	o     *Outcome
	key   string
	entry *Term
	f     *types.Var
	tests []entryTest
	eqs   map[*types.Var][]*Term
}

func (e *ending) lookups(h *HeadAnalysis) []*lookup {
	c := e.c
	var l []*lookup
	for _, o := range h.Outs {
		if o.Kind != OutReturn || len(o.Res) != 1 {
			continue
		}
		key, entry, f := c.entryOf(loadAddr(stripConv(o.Res[0])))
		if key == "" {
			continue
		}
		k := stripConv(o.Res[0]).K
		ofEntry := func(t *Term) bool {
			return t.Op == OLoad && t.K == k && t.Args[0].Op == OFA && t.Args[0].Args[0] == entry
		}
		lk := &lookup{o: o, key: key, entry: entry, f: f, eqs: map[*types.Var][]*Term{}}
		eq := func(t, x *Term) {
			g := t.Args[0].Aux.(*types.Var)
			if g != f {
				lk.eqs[g] = append(lk.eqs[g], x)
			}
		}
		for fact, v := range o.St.facts {
			if !mentions(fact, ofEntry) {
				continue
			}
			lk.tests = append(lk.tests, entryTest{fact: fact, val: v})
			if v && fact.Op == OCmp && fact.Aux == "==" {
				for i := 0; i < 2; i++ {
					if ofEntry(fact.Args[i]) {
						eq(fact.Args[i], fact.Args[1-i])
					}
				}
			}
		}
		for _, t := range o.St.zone.list {
			if t != nil && ofEntry(t) {
				lo, hi := h.Run.bounds(o.St, t)
				lk.tests = append(lk.tests, entryTest{load: t, lo: lo, hi: hi})
				if lo == hi {
					eq(t, c.U.Int(lo))
				}
			}
		}
		l = append(l, lk)
	}
	return l
}

// isResult: the result that the entry holds.
func (lk *lookup) isResult(t *Term) bool {
	return t.Op == OLoad && t.Args[0].Op == OFA && t.Args[0].Args[0] == lk.entry && t.Args[0].Aux == lk.f
}

// missed: the path tests the entry, and it is not the one of the request (or it
// holds no result).
func (lk *lookup) missed(r *Run, o *Outcome) bool {
	for _, t := range lk.tests {
		if t.load != nil {
			if _, ok := o.St.zone.vars[t.load]; !ok {
				continue
			}
			lo, hi := r.bounds(o.St, t.load)
			if lk.isResult(t.load) {
				// a failure was recorded, not a result
				if hi < 0 {
					return true
				}
			} else if hi < t.lo || lo > t.hi {
				return true
			}
			continue
		}
		if mentions(t.fact, lk.isResult) {
			continue
		}
		if v, ok := o.St.facts[t.fact]; ok && v != t.val {
			return true
		}
		if t.fact.Op == OCmp && t.fact.Aux == "==" && t.val && r.decideEQ(o.St, t.fact.Args[0], t.fact.Args[1]) == no {
			return true
		}
	}
	return false
}

// memo: the result of a recursion is looked for before, and recorded after.
func (e *ending) memo(s *HeadSpec, h *HeadAnalysis) {
	if s.Kind == "correctify" {
		return
	}
	c := e.c
	lks := e.lookups(h)
	if len(lks) == 0 {
		e.rep.bad(c, s.Fn.Pos(), fname(s.Fn), "result is looked for", "", "%s never returns a result that it remembers", fname(s.Fn))
		return
	}
	for _, o := range h.Outs {
		if o.Kind != OutReturn || len(o.Res) != 1 {
			continue
		}
		var first *Event
		for _, ev := range o.St.events() {
			if ev.Kind == EvHead && c.P.sameSCC(ev.Fn, s.Fn) {
				first = ev
				break
			}
		}
		if first == nil {
			continue
		}
		ctx := false
		for _, hc := range c.contexts()[s.Fn] {
			ctx = ctx || c.compatible(s, hc, o)
		}
		if !ctx {
			continue
		}
		r := h.Run
		if _, hi := r.bounds(o.St, o.Res[0]); hi < 0 {
			continue
		}
		var hit *lookup
		for _, lk := range lks {
			if lk.missed(r, o) {
				hit = lk
				break
			}
		}
		if hit == nil {
			e.rep.bad(c, first.Instr.Pos(), fname(s.Fn), "result is looked for", o.St.pathString(), "%s recurs without looking for a result that it remembers", fname(s.Fn))
			continue
		}
		e.rep.ok("result looked for before the recursion")
		why := "it does not record its result"
		stored := false
		for _, cs := range c.cacheStores(o) {
			for _, lk := range lks {
				if cs.table != lk.key || stored || !lk.missed(r, o) {
					continue
				}
				if w := e.sameEntry(r, o, cs, lk); w != "" {
					why = w
				} else {
					stored = true
				}
			}
		}
		if !stored {
			e.rep.bad(c, c.retPos(o, s.Fn), fname(s.Fn), "result is recorded", o.St.pathString(), "%s: the same request is computed again", why)
			continue
		}
		e.rep.ok("result recorded where it is looked for")
	}
}

// sameEntry: what is recorded would be found by the same request.
func (e *ending) sameEntry(r *Run, o *Outcome, cs *cacheStore, lk *lookup) string {
	c := e.c
	same := func(a, b *Term) bool {
		a, b = c.noEpoch(stripConv(a)), c.noEpoch(stripConv(b))
		return a == b || r.decideEQ(o.St, a, b) == yes
	}
	if !same(cs.entry.Args[1], lk.entry.Args[1]) {
		return "it is not recorded in the place where it is looked for"
	}
	if v := cs.vals[lk.f]; v == nil || !same(v, o.Res[0]) {
		return "the result is not what is recorded"
	}
	for g, l := range lk.eqs {
		v := cs.vals[g]
		if v == nil {
			return fmt.Sprintf("it is recorded without the field %s", g.Name())
		}
		for _, x := range l {
			if !same(v, x) {
				return fmt.Sprintf("it is recorded with another value of %s than the one it is looked for with", g.Name())
			}
		}
	}
	return ""
}

// counts: the counting of assignments.
func (e *ending) counts(units []*unit) {
	c := e.c
	for _, u := range units {
		if !c.P.recursive(u.Fn) || u.Fn.Signature.Results().Len() == 0 || !isBig(u.Fn.Signature.Results().At(0).Type()) {
			continue
		}
		for _, o := range u.Outs {
			if o.Kind != OutReturn {
				continue
			}
			var first *Event
			var key, table *Term
			set, given := false, true
			for _, ev := range o.St.events() {
				switch ev.Kind {
				case EvHead:
					if first == nil && c.P.sameSCC(ev.Fn, u.Fn) {
						first = ev
					}
					if table != nil && c.P.sameSCC(ev.Fn, u.Fn) && !sameTable(c.unitArgs(u.Fn), ev.Args, table) {
						given = false
					}
				case EvMapGet:
					if first == nil && isBigMap(ev.Args[0]) && (u.Run.truth(o.St, ev.Args[2]) == no || u.Run.truth(o.St, u.Run.eqTerm(ev.Val, u.Run.U.Nil())) == yes) {
						key, table = ev.Args[1], ev.Args[0]
					}
				case EvLoad:
					if first == nil && ev.Addr != nil && ev.Addr.Op == OIA && isBig(derefType(ev.Addr.T)) && u.Run.truth(o.St, u.Run.eqTerm(ev.Val, u.Run.U.Nil())) == yes {
						key, table = ev.Addr.Args[1], ev.Addr.Args[0]
					}
				case EvMapSet:
					if isBigMap(ev.Args[0]) && ev.Args[0] == table && first != nil && key != nil && stripConv(ev.Args[1]) == stripConv(key) {
						set = true
					}
				case EvStore:
					if first != nil && ev.Addr.Op == OIA && ev.Addr.Args[0] == table && isBig(derefType(ev.Addr.T)) && key != nil && stripConv(ev.Addr.Args[1]) == stripConv(key) {
						set = true
					}
				}
			}
			if first == nil {
				continue
			}
			isParam := false
			for _, p := range c.unitArgs(u.Fn) {
				isParam = isParam || key != nil && stripConv(key) == p
			}
			switch {
			case key == nil:
				e.rep.bad(c, first.Instr.Pos(), fname(u.Fn), "result is looked for", o.St.pathString(), "%s recurs without looking for a count that it remembers", fname(u.Fn))
			case !isParam:
				e.rep.bad(c, first.Instr.Pos(), fname(u.Fn), "result is looked for", o.St.pathString(), "the count is looked for with another key than the node")
			case !given:
				e.rep.bad(c, first.Instr.Pos(), fname(u.Fn), "result is looked for", o.St.pathString(), "the recursion is given another table of counts")
			case !set:
				e.rep.bad(c, c.retPos(o, u.Fn), fname(u.Fn), "result is recorded", o.St.pathString(), "the count is not recorded: it is computed again each time that the node is met")
			default:
				e.rep.ok("count looked for before the recursion, and recorded")
			}
		}
	}
}

// sameTable: the recursion uses the table of the caller.
func sameTable(ps, args []*Term, table *Term) bool {
	if rootOf(table).Op == OAlloc {
		return false
	}
	for i, p := range ps {
		if p == table {
			return i < len(args) && args[i] == table
		}
	}
	return true
}

// kept: the results that are remembered are only dropped when nodes are
// reclaimed.
func (e *ending) kept() {
	c := e.c
	ci := c.clearer()
	direct, all := c.reclaimers()
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			fns = append(fns, f)
		}
	}
	add(c.Makenode)
	for f := range c.specs() {
		add(f)
	}
	for _, u := range c.units() {
		if u.Why != "called" {
			add(u.Fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		r := c.unitRun(fn)
		args := c.unitArgs(fn)
		for _, v := range fn.FreeVars {
			args = append(args, c.U.Param("captured "+v.Name(), v.Type()))
		}
		var outs []*Outcome
		if fn == c.Makenode {
			delete(r.NoInline, c.lowMaker())
			outs = r.Exec(fn, args, c.rawState)
		} else {
			for _, u := range c.units() {
				if u.Fn == fn {
					r, outs = u.Run, u.Outs
				}
			}
		}
		for _, o := range outs {
			if o.Kind != OutReturn || c.createsBDD(o) {
				continue
			}
			var last *Event
			frees := false
			for _, ev := range o.St.events() {
				if ev.Kind == EvHead {
					if len(ci.clears(ev.Fn)) > 0 {
						last = ev
					}
					if direct[ev.Fn] || all[ev.Fn] && ev.Fn != c.Makenode && c.specs()[ev.Fn] == nil {
						frees = true
					}
				}
				if c.freeingStore(&unit{Fn: fn, Run: r, Outs: outs}, o, ev) {
					frees = true
				}
			}
			if frees {
				continue
			}
			s := ci.path(r, outs, o, nil)
			if len(s) == 0 {
				e.rep.ok("results kept while no node is reclaimed")
				continue
			}
			pos := fn.Pos()
			if last != nil {
				pos = last.Instr.Pos()
			}
			e.rep.bad(c, pos, fname(fn), "results kept", o.St.pathString(), "the results that are remembered (%s) are dropped although no node is reclaimed", strings.Join(sortedKeys(s), ", "))
		}
	}
}

// marks: a traversal by marks goes below a node once.
func (e *ending) marks(units []*unit) {
	m := e.m
	for _, u := range units {
		if !m.markers[u.Fn] {
			continue
		}
		r := u.Run
		for _, o := range u.Outs {
			marked := map[*Term]bool{} // nodes that are marked by this call
			for _, ev := range o.St.events() {
				switch ev.Kind {
				case EvStore:
					f, i, _ := m.nodeElem(ev.Addr)
					if f != m.markF {
						continue
					}
					v := stripConv(ev.Val)
					if v.Op != OBin || v.Aux != "|" && v.Aux != "^" {
						continue
					}
					for k := 0; k < 2; k++ {
						if x := v.Args[k]; isIntConst(x) && x.K == m.mask && v.Args[1-k].Op == OLoad && v.Args[1-k].Args[0] == ev.Addr {
							if m.markOf(o.St, v.Args[1-k]) == no {
								marked[i] = true
							}
						}
					}
				case EvHead:
					if !m.markers[ev.Fn] {
						continue
					}
					if n := anyNode(e, ev.Args); n != nil {
						e.markedOnce(u, o, ev.Instr.Pos(), marked[n])
					}
				}
			}
			if o.Kind == OutLoopBack {
				for p, t := range o.Loop.Next {
					if n := nodeOf(e, stripConv(t)); n != nil && n == o.Loop.Phi[p] {
						e.markedOnce(u, o, o.Pos, marked[n])
					}
				}
			}
		}
		_ = r
	}
}

func anyNode(e *ending, args []*Term) *Term {
	for _, a := range args {
		if n := nodeOf(e, stripConv(a)); n != nil {
			return n
		}
	}
	return nil
}

func (e *ending) markedOnce(u *unit, o *Outcome, pos token.Pos, ok bool) {
	if ok {
		e.rep.ok("successors followed when the node is marked for the first time")
		return
	}
	e.rep.bad(e.c, pos, fname(u.Fn), "followed once", o.St.pathString(), "the successors of a node are followed although the node may already be marked, or before it is: they are followed each time that it is met")
}

func init() {
	register("C34", "each loop is proved to follow a finite sequence (counter with a bound that does not change, successors of a node, chain of the table, shorter list...) and each recursion to go down (smallest level of the operands, or shorter list); on each path that recurs, the memoised recursions test their memory before, and record the result in the place, and for the request, that the test expects; the traversals by marks go below a node only when they mark it", func(c *Ctx, rep *Report) {
		c.checkEnds(rep)
	})
}

// aboveOne: a constant greater than one.
func aboveOne(t *Term) bool {
	if isIntConst(t) {
		return t.K > 1
	}
	s, ok := t.Aux.(string)
	if t.Op != OStr || !ok {
		return false
	}
	i := strings.LastIndexByte(s, ' ')
	v, ok := new(big.Rat).SetString(s[i+1:])
	return ok && v.Cmp(big.NewRat(1, 1)) > 0
}
