package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rooting decides which nodes are protected from collection at each point of a
// path where a collection may happen.
type rooting struct {
	c    *Ctx
	r    *Run
	o    *Outcome
	outs []*Outcome
	safe map[*Term]bool // protected by the caller (parameters of recursive functions)
	lost bool           // the call under study does not keep the reference stack
}

// heldLater: t is read from a Node that is given to some function after the
// point seq, so that it is still referenced by then.
func (g *rooting) heldLater(t *Term, seq int64) bool {
	if t.Op != OLoad || t.Args[0].T == nil || !types.Identical(t.Args[0].T, g.c.NodeTy) {
		return false
	}
	for e := g.o.St.ev; e != nil; e = e.prev {
		if e.ev.Seq <= seq {
			return false
		}
		if e.ev.Kind == EvEnter || e.ev.Kind == EvHead || e.ev.Kind == EvCall {
			for _, a := range e.ev.Args {
				if a == t.Args[0] {
					return true
				}
			}
		}
	}
	return false
}

// keepsStack: a recursive function leaves on the reference stack all that its
// caller has pushed.
func (c *Ctx) keepsStack(fn *ssa.Function) bool {
	a := c.U.FA(c.B, c.refstackF)
	if !c.P.modref(fn).Mod[Class(c.refstackF)] {
		return true
	}
	for _, x := range c.preserved(fn) {
		if x == a {
			return true
		}
	}
	return false
}

// allocates: the function may build nodes.
func (c *Ctx) allocates(fn *ssa.Function) bool {
	m, _ := c.shared["alloc"].(map[*ssa.Function]int)
	if m == nil {
		m = map[*ssa.Function]int{}
		c.shared["alloc"] = m
	}
	switch m[fn] {
	case 1, 3:
		return m[fn] == 1
	case 2:
		return false
	}
	m[fn] = 3 // in progress
	res := fn == c.Makenode
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				fns, _ := c.P.callTargets(ci.Common())
				for _, f := range fns {
					if c.P.isSrc(f) && c.allocates(f) {
						res = true
					}
				}
			}
		}
	}
	if res {
		m[fn] = 1
	} else {
		m[fn] = 2
		delete(m, fn) // may depend on a function in progress
	}
	return res
}

// nodeArgs lists the arguments of an event that are identifiers of nodes.
func (c *Ctx) nodeArgs(e *Event) []*Term {
	switch e.Kind {
	case EvMk:
		return []*Term{e.Args[1], e.Args[2]}
	case EvRet:
		return []*Term{e.Args[0]}
	case EvHead:
		var l []*Term
		for i, p := range e.Fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				l = append(l, e.Args[i])
			}
		}
		return l
	}
	return nil
}

// base strips the successors: while a node is protected, so are its successors.
func (g *rooting) base(t *Term) *Term {
	for g.c.isNodeField(t, g.c.lowF) || g.c.isNodeField(t, g.c.highF) {
		t = t.Args[0]
	}
	return t
}

// stack is the contents of the reference stack in a memory: the elements that
// are known, and the value below them.
func (g *rooting) stack(mem map[Class]*classMem) (elems []*Term, base *Term) {
	c := g.c
	v := g.r.loadMem(g.o.St, mem, c.U.FA(c.B, c.refstackF), c.refstackF.Type())
	for v.Op == OAppend {
		elems = append(elems, v.Args[1:]...)
		v = v.Args[0]
	}
	return elems, v
}

// isProtected: the node cannot be reclaimed by a collection that happens in
// the given memory.
func (g *rooting) isProtected(st *State, mem map[Class]*classMem, seq int64, t *Term) bool {
	c := g.c
	if !intish(t) {
		return false
	}
	if _, hi := g.r.bounds(st, t); hi <= 1 {
		return true
	}
	b := g.base(t)
	if g.safe[b] && !g.lost {
		return true
	}
	if g.heldLater(b, seq) {
		return true
	}
	if _, hi := g.r.bounds(st, b); hi <= 1 {
		return true
	}
	elems, bs := g.stack(mem)
	if g.lost {
		elems, bs = nil, c.U.Nil()
	}
	for _, e := range elems {
		x := g.base(e)
		if e == t || e == b || x == b && e == b || g.r.decideEQ(st, e, t) == yes || g.r.decideEQ(st, e, b) == yes {
			return true
		}
	}
	// loop variables: on the stack at the head of the loop
	for ls := st.loops; ls != nil; ls = ls.next {
		if g.loopRooted(ls.inst, b, bs, seq) {
			return true
		}
	}
	_ = c
	return false
}

// loopRooted: t is a variable of the loop that, at the head of the loop, is on
// the reference stack (or constant), and the stack was only pushed upon since.
func (g *rooting) loopRooted(in *LoopInst, t, bs *Term, seq int64) bool {
	var v *loopView
	for _, x := range loopViews(g.outs) {
		if x.Inst.ID == in.ID {
			v = x
		}
	}
	if v == nil {
		return false
	}
	for p, ph := range v.Inst.Phi {
		if ph != t {
			continue
		}
		pre := &rooting{c: g.c, r: g.r, o: g.o, safe: g.safe}
		if !pre.isProtected(v.Inst.Pre, v.Inst.Pre.mem, 0, v.Inst.Init[p]) {
			return false
		}
		// nothing else changed the stack between the head of the loop and here
		first := int64(-1)
		for _, e := range v.body(g.o) {
			if first < 0 {
				first = e.Seq
			}
		}
		if len(v.body(g.o)) == 0 {
			for e := g.o.St.ev; e != nil; e = e.prev {
				if e.ev.Kind == EvLoopEnter && e.ev.Loop.ID == in.ID {
					first = e.ev.Seq + 1<<40
				}
			}
		}
		if bs.Op != OLoad || bs.K > first && first >= 0 {
			return false
		}
		for _, b := range v.Backs {
			n := b.Loop.Next[p]
			if n == ph {
				continue
			}
			if _, hi := g.r.bounds(b.St, n); hi <= 1 {
				continue
			}
			gb := &rooting{c: g.c, r: g.r, o: b}
			elems, _ := gb.stack(b.St.mem)
			found := false
			for _, e := range elems {
				if e == n {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	return false
}

// check goes through the points of a path where a collection may happen.
func (g *rooting) check(rep *Report, fn string, ret []*Term) {
	c := g.c
	evs := g.o.St.events()
	// failed paths build nothing
	for i, e := range evs {
		alloc := e.Kind == EvMk || e.Kind == EvHead && c.allocates(e.Fn)
		if !alloc {
			continue
		}
		st := c.rawState()
		st.zone = e.Zone.Clone()
		st.ev = g.o.St.ev
		for _, in := range loopsAt(g.o, e) {
			st.loops = &loopStack{inst: in, next: st.loops}
		}
		neg := false
		for _, a := range c.nodeArgs(e) {
			if !intish(a) {
				continue
			}
			if _, hi := g.r.bounds(st, a); hi < 0 {
				neg = true
			}
		}
		if neg && e.Kind == EvMk {
			continue
		}
		rep.site("collection possible at " + c.P.pos(e.Instr.Pos()))
		for _, a := range c.nodeArgs(e) {
			if g.isProtected(st, e.Mem, e.Seq, a) {
				rep.ok("operand protected during the call")
				continue
			}
			rep.bad(c, e.Instr.Pos(), fn, "operand protected", g.o.St.pathString(), "the node %s may be reclaimed during this call: it is not on the reference stack", short(a.String(), 120))
		}
		// nodes used later
		born := map[*Term]int{}
		for j := 0; j < i; j++ {
			if (evs[j].Kind == EvMk || evs[j].Kind == EvHead) && evs[j].Val != nil {
				born[evs[j].Val] = j + 1
			}
		}
		later := map[*Term]bool{}
		use := func(t *Term) {
			if !intish(t) {
				return
			}
			b := g.base(t)
			if (b.Op == OMk || b.Op == OHead) && born[b] == 0 {
				return // built later
			}
			later[t] = true
		}
		for j := i + 1; j < len(evs); j++ {
			x := evs[j]
			if x.Kind == EvMk || x.Kind == EvRet || x.Kind == EvHead && c.allocates(x.Fn) {
				for _, a := range c.nodeArgs(x) {
					use(a)
				}
			}
		}
		for _, t := range ret {
			if t != nil && intish(t) {
				use(t)
			}
		}
		g.lost = e.Kind == EvHead && !c.keepsStack(e.Fn)
		for t := range later {
			if g.mayAppearLater(t, e) {
				continue
			}
			if g.isProtected(st, e.Mem, e.Seq, t) {
				rep.ok("node used later protected during the call")
				continue
			}
			if _, hi := g.r.bounds(g.o.St, t); hi <= 1 {
				continue
			}
			rep.bad(c, e.Instr.Pos(), fn, "later operand protected", g.o.St.pathString(), "the node %s is used after this call but is not on the reference stack", short(t.String(), 120))
		}
		g.lost = false
	}
}

// mayAppearLater: the value is read after the event (from memory that changed).
func (g *rooting) mayAppearLater(t *Term, e *Event) bool {
	b := g.base(t)
	if b.Op == OLoad && b.K > e.Seq {
		return true
	}
	if b.Op == OLoad {
		if k, _, _ := g.c.entryOf(b.Args[0]); k != "" {
			return true // read from a cache: see the discarding of results
		}
	}
	return false
}

// takesIDs: the function works on identifiers of nodes, inside an operation.
func (c *Ctx) takesIDs(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && !c.enumerated(p.Type()) {
			return true
		}
	}
	return false
}

// enumerated: a type with declared constants (such as the operators).
func (c *Ctx) enumerated(t types.Type) bool {
	nt, ok := t.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	sc := nt.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
			return true
		}
	}
	return false
}

func (c *Ctx) checkRoots(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	done := map[*ssa.Function]bool{}
	var heads []*ssa.Function
	note := func(outs []*Outcome) {
		for _, o := range outs {
			for e := o.St.ev; e != nil; e = e.prev {
				if e.ev.Kind == EvHead && !done[e.ev.Fn] && c.allocates(e.ev.Fn) {
					done[e.ev.Fn] = true
					heads = append(heads, e.ev.Fn)
				}
			}
		}
	}
	for _, fn := range c.bddMethods() {
		if fn == c.Makenode || !c.allocates(fn) {
			continue
		}
		outs, r, err := c.method(fn.Name())
		if err != nil {
			continue
		}
		rep.paths(c, r, outs)
		rep.undecided(c, fname(fn), outs)
		note(outs)
		for _, o := range outs {
			g := &rooting{c: c, r: c.newRun(), o: o, outs: outs, safe: map[*Term]bool{}}
			g.check(rep, fname(fn), o.Res)
		}
	}
	for i := 0; i < len(heads); i++ {
		fn := heads[i]
		h := c.head(fn)
		rep.paths(c, h.Run, h.Outs)
		rep.undecided(c, fname(fn), h.Outs)
		note(h.Outs)
		safe := map[*Term]bool{}
		for _, p := range h.Params {
			safe[p] = true
		}
		for _, o := range h.Outs {
			g := &rooting{c: c, r: c.newRun(), o: o, outs: h.Outs, safe: safe}
			g.check(rep, fname(fn), o.Res)
			if o.Kind != OutReturn || !c.takesIDs(fn) {
				continue
			}
			// what the caller pushed is still there
			init := g.r.loadMem(o.St, map[Class]*classMem{}, c.U.FA(c.B, c.refstackF), c.refstackF.Type())
			elems, bs := g.stack(o.St.mem)
			if bs != init {
				rep.bad(c, fn.Pos(), fname(fn), "stack of the caller kept", o.St.pathString(), "the nodes that the caller protects may be removed from the reference stack: it is %s at the return", short(g.r.loadMem(o.St, o.St.mem, c.U.FA(c.B, c.refstackF), c.refstackF.Type()).String(), 160))
			} else if len(elems) > 0 {
				rep.bad(c, fn.Pos(), fname(fn), "stack balanced", o.St.pathString(), "%d nodes are left on the reference stack", len(elems))
			} else {
				rep.ok("reference stack restored at the return")
			}
		}
	}
	_ = fmt.Sprint
}

func init() {
	register("C16", "at every point of the operations where a collection may happen (construction of a node, recursive call), every node that is an operand or is used later is constant, on the reference stack, a successor of such a node, or protected by the caller; recursive functions leave the stack as they found it", func(c *Ctx, rep *Report) {
		c.checkRoots(rep)
	})
}
