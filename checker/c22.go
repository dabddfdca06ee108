package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rawRun interprets an exported operation without assuming anything of the
// nodes that it is given: they may be nil, out of range or reclaimed. Loads
// through nodes and accesses to slices are recorded with what is known of them
// when they happen.
func (c *Ctx) rawRun(fn *ssa.Function, args []*Term) ([]*Outcome, *Run) {
	r := c.newRun()
	r.Loads = true
	r.ReadHook = func(r *Run, st *State, addr *Term) *Term {
		if isRetTerm(addr) {
			return addr.Args[0]
		}
		return nil
	}
	r.OnAtom = c.rawAtom
	r.OnEvent = func(r *Run, st *State, e *Event) {
		c.onEvent(r, st, e)
		if e.Kind == EvLoad && e.Addr.T != nil && types.Identical(e.Addr.T, c.NodeTy) {
			if e.Name = "?"; r.nonNil(st, e.Addr) {
				e.Name = "ok"
			}
		}
	}
	return r.Exec(fn, args, c.newState), r
}

func (c *Ctx) rawAtom(r *Run, st *State, t *Term) {
	switch {
	case t == c.V:
		r.assumeLE(st, c.U.Int(1), t)
	case t.Op == OLen && c.isTableLen(t):
		r.assumeLE(st, c.U.Int(2), t)
	case t.Op == OMk, t.Op == OHead && isIntType(t.T):
		r.assumeLE(st, c.U.Int(-1), t)
	}
}

// invalid: the ways in which a node may be invalid.
var invalid = []string{"a nil node", "a node with a negative identifier", "a node out of the table", "a reclaimed node"}

// assumeInvalid restricts a path to an invalid node; false if it is impossible.
func (c *Ctx) assumeInvalid(r *Run, st *State, n *Term, class int) bool {
	u := c.U
	if class == 0 {
		if n.Op == ONil {
			return true
		}
		if r.nonNil(st, n) {
			return false
		}
		return r.assume(st, r.eqTerm(n, u.Nil()), true) && !st.dead
	}
	if n.Op == ONil {
		return false
	}
	if !r.assume(st, r.eqTerm(n, u.Nil()), false) || st.dead {
		return false
	}
	id := c.nodeVal(r, st, n)
	if class == 1 {
		r.assumeLE(st, id, u.Int(-1))
		return !st.dead
	}
	r.assumeLE(st, u.Int(0), id)
	for _, mem := range append(c.memories(st), map[Class]*classMem{}) {
		sl := r.loadMem(st, mem, u.FA(c.T, c.nodesF), c.nodesF.Type())
		n := r.length(st, sl, c.nodesF.Type())
		if class == 2 {
			r.assumeLE(st, n, id)
		} else {
			r.assumeLE(st, u.Int(2), id)
			r.assumeLE(st, u.AddK(id, 1), n)
			low := r.loadMem(st, mem, u.FA(u.IA(sl, id, c.elemType()), c.lowF), c.lowF.Type())
			r.assumeEQ(st, low, u.Int(-1))
		}
		if st.dead {
			return false
		}
	}
	return true
}

// elemType is the type of the elements of the table.
func (c *Ctx) elemType() types.Type {
	return c.nodesF.Type().Underlying().(*types.Slice).Elem()
}

// refused: the path reports an error and returns the failure value.
func (c *Ctx) refused(r *Run, st *State, fn *ssa.Function, o *Outcome) string {
	set := c.errorSet(&Outcome{St: st}) || r.nonNil(st, r.loadMem(st, st.mem, c.U.FA(c.B, c.errorF), c.errorF.Type()))
	for i, x := range o.Res {
		t := fn.Signature.Results().At(i).Type()
		switch {
		case types.Identical(t, c.NodeTy):
			if x.Op != ONil && r.truth(st, r.eqTerm(x, c.U.Nil())) != yes {
				return "a node that is not nil is returned"
			}
		case types.Identical(t, types.Universe.Lookup("error").Type()):
			if !r.nonNil(st, x) {
				return "no error is returned"
			}
			set = true
		case isIntType(t):
			if lo, hi := r.bounds(st, x); lo != -1 || hi != -1 {
				return fmt.Sprintf("%s is returned instead of -1", short(x.String(), 60))
			}
		default:
			if _, ok := t.Underlying().(*types.Slice); ok {
				if x.Op != ONil && r.truth(st, r.eqTerm(x, c.U.Nil())) != yes {
					return "the list that is returned is not nil"
				}
				continue
			}
			if p, ok := t.(*types.Pointer); ok && p.Elem().String() == "math/big.Int" {
				if why := c.bigZero(st, x); why != "" {
					return why
				}
				continue
			}
			return fmt.Sprintf("no failure value is known for results of type %s", t)
		}
	}
	if !set {
		return "no error is set"
	}
	return ""
}

// bigZero: the big integer is zero.
func (c *Ctx) bigZero(st *State, x *Term) string {
	zero := false
	switch x.Op {
	case OAlloc:
		zero = true
	case OCall, OBig:
		ci, ok := x.Aux.(*callInfo)
		zero = ok && ci.Name == "math/big.NewInt" && len(x.Args) == 1 && isIntConst(x.Args[0]) && x.Args[0].K == 0
	}
	for _, e := range st.events() {
		if e.Kind != EvCall || e.Val == x {
			continue
		}
		for _, a := range e.Args {
			if a == x {
				zero = false
			}
		}
	}
	if !zero {
		return "the number that is returned is not 0"
	}
	return ""
}

// guarded is an operation that is given nodes.
type guarded struct {
	c     *Ctx
	fn    *ssa.Function
	name  string
	outs  []*Outcome
	r     *Run
	nodes []*Term
	lists []*Term
	views []*loopView
	rep   *Report
	poi   map[int64][]*ssa.Phi
}

func (g *guarded) start() {
	g.views = loopViews(g.outs)
	g.poi = map[int64][]*ssa.Phi{}
}

func (c *Ctx) isNodeList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), c.NodeTy)
}

func (c *Ctx) checkC22(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	count := 0
	for _, fn := range c.bddMethods() {
		g := &guarded{c: c, fn: fn, name: fname(fn), rep: rep}
		for _, a := range c.methodArgs(fn)[1:] {
			switch {
			case types.Identical(a.T, c.NodeTy):
				g.nodes = append(g.nodes, a)
			case c.isNodeList(a.T):
				g.lists = append(g.lists, a)
			}
		}
		if len(g.nodes)+len(g.lists) == 0 {
			continue
		}
		count++
		g.outs, g.r = c.rawRun(fn, c.methodArgs(fn))
		rep.site(g.name)
		rep.paths(c, g.r, g.outs)
		if rep.undecided(c, g.name, g.outs) {
			continue
		}
		g.start()
		g.check()
	}
	if count == 0 {
		rep.bad(c, token.NoPos, "BDD", "anchor", "", "no operation on nodes was found")
	}
}

// compares: the method only compares identifiers (it has no failure value).
func (g *guarded) compares() bool {
	res := g.fn.Signature.Results()
	return res.Len() == 1 && types.Identical(res.At(0).Type().Underlying(), types.Typ[types.Bool])
}

func (g *guarded) check() {
	c := g.c
	for _, o := range g.outs {
		pos := func() token.Pos { return c.retPos(o, g.fn) }
		// accesses
		for _, e := range o.St.events() {
			switch {
			case e.Kind == EvLoad && e.Name == "?":
				if n := e.Addr; !g.checkedBefore(o, e, n) {
					g.rep.bad(c, e.Instr.Pos(), g.name, "no panic", o.St.pathString(), "the node %s is read although it may be nil", short(n.String(), 80))
				} else {
					g.rep.ok("a list of nodes is read after all of them are checked")
				}
			case e.Kind == EvLoad && e.Name == "ok" && types.Identical(e.Addr.T, c.NodeTy):
				g.rep.ok("a node is read only if it is not nil")
			case e.Kind == EvIndex:
				n := g.operand(o, e.Args[1])
				if n == nil || !c.isTableLen(e.Args[2]) {
					continue
				}
				if e.Name != "ok" && !g.checkedBefore(o, e, n) {
					g.rep.bad(c, e.Instr.Pos(), g.name, "no panic", o.St.pathString(), "the table is read at the identifier of %s although it may be out of range", short(n.String(), 80))
				} else {
					g.rep.ok("the table is read only at identifiers in range")
				}
			}
		}
		if o.Kind == OutLoopBack || g.compares() && o.Kind == OutReturn {
			continue
		}
		for _, n := range g.nodes {
			for k, what := range invalid {
				g.sub(o, n, k, what, pos(), nil)
			}
		}
		for _, l := range g.lists {
			g.list(o, l, pos())
		}
	}
}

// sub: the path, if its operand n is invalid, is a refusal.
func (g *guarded) sub(o *Outcome, n *Term, class int, what string, pos token.Pos, more func(r *Run, st *State) bool) bool {
	c := g.c
	r := c.newRun()
	r.ReadHook, r.OnAtom = g.r.ReadHook, g.r.OnAtom
	st := o.St.clone()
	if more != nil && !more(r, st) || !c.assumeInvalid(r, st, n, class) {
		g.rep.ok("an invalid node does not reach the computation")
		return true
	}
	if o.Kind == OutPanic {
		g.rep.bad(c, o.Pos, g.name, "no panic", o.St.pathString(), "%s may panic on %s: %s", g.fn.Name(), what, o.Why)
		return false
	}
	if why := c.refused(r, st, g.fn, o); why != "" {
		g.rep.bad(c, pos, g.name, "refused", o.St.pathString(), "%s is accepted (operand %s): %s", what, short(n.String(), 60), why)
		return false
	}
	// nothing is built with it
	if class != 0 {
		id := c.nodeVal(r, st, n)
		for _, e := range st.events() {
			if e.Kind != EvMk && e.Kind != EvHead {
				continue
			}
			for _, a := range e.Args {
				if a == id {
					g.rep.bad(c, e.Instr.Pos(), g.name, "refused", o.St.pathString(), "%s is used in a computation before it is refused", what)
					return false
				}
			}
		}
	}
	g.rep.ok("an invalid node is refused with an error and the failure value")
	return true
}

// operand whose identifier is t.
func (g *guarded) operand(o *Outcome, t *Term) *Term {
	t = stripConv(t)
	if t.Op != OLoad {
		return nil
	}
	n := t.Args[0]
	for _, x := range g.nodes {
		if x == n {
			return n
		}
	}
	if g.listOf(n) != nil {
		return n
	}
	return nil
}

// listOf gives the list that a node was read from.
func (g *guarded) listOf(n *Term) *Term {
	if n.Op != OLoad || n.Args[0].Op != OIA {
		return nil
	}
	s := rootSlice(n.Args[0].Args[0])
	for _, l := range g.lists {
		if l == s {
			return l
		}
	}
	return nil
}

// index of an element in its list.
func (g *guarded) index(n *Term) *Term {
	a := n.Args[0]
	ix := stripConv(a.Args[1])
	for s := a.Args[0]; s.Op == OSlice; s = s.Args[0] {
		ix = g.c.U.Add(ix, s.Args[1])
	}
	return ix
}

// read lists the elements of a list read by the events.
func (g *guarded) read(evs []*Event, l *Term) []*Term {
	var res []*Term
	seen := map[*Term]bool{}
	for _, e := range evs {
		if e.Kind != EvLoad || e.Val == nil || seen[e.Val] || g.listOf(e.Val) != l {
			continue
		}
		seen[e.Val] = true
		res = append(res, e.Val)
	}
	return res
}

// poisoned lists the nodes carried by a loop that, once they are invalid, stay so.
func (g *guarded) poisoned(v *loopView) []*ssa.Phi {
	if l, ok := g.poi[v.Inst.ID]; ok {
		return l
	}
	l := []*ssa.Phi{}
	for p, ph := range v.Inst.Phi {
		if !types.Identical(p.Type(), g.c.NodeTy) {
			continue
		}
		good := len(v.Backs) > 0
		for _, o := range v.Backs {
			for k := range invalid {
				r := g.c.newRun()
				r.ReadHook, r.OnAtom = g.r.ReadHook, g.r.OnAtom
				st := o.St.clone()
				if !g.c.assumeInvalid(r, st, ph, k) {
					continue
				}
				if n := o.Loop.Next[p]; n == nil || n.Op != ONil && !g.isNil(r, st, n) {
					good = false
				}
			}
		}
		if good {
			l = append(l, p)
		}
	}
	g.poi[v.Inst.ID] = l
	return l
}

func (g *guarded) isNil(r *Run, st *State, n *Term) bool {
	return r.truth(st, r.eqTerm(n, g.c.U.Nil())) == yes
}

// keeps: the outcome refuses, if the node carried by the loop is invalid when the
// loop is left. After a turn, it can only be nil.
func (g *guarded) keeps(v *loopView, p *ssa.Phi, o *Outcome) bool {
	for k := range invalid {
		r := g.c.newRun()
		r.ReadHook, r.OnAtom = g.r.ReadHook, g.r.OnAtom
		st := o.St.clone()
		x := v.Inst.Phi[p]
		if k > 0 {
			// no turn was taken
			if x = v.Inst.Init[p]; x == nil || x == g.c.One || x == g.c.Zero {
				continue
			}
			for q, ph := range v.Inst.Phi {
				if isIntType(q.Type()) && v.Inst.Init[q] != nil {
					r.assumeEQ(st, ph, v.Inst.Init[q])
				}
			}
			if st.dead {
				continue
			}
		}
		if !g.c.assumeInvalid(r, st, x, k) {
			continue
		}
		if o.Kind == OutReturn && k == 0 {
			// the error is set by the turn that found it
			if why := g.c.refused(r, st, g.fn, o); why == "" || why == "no error is set" {
				continue
			}
		}
		return false
	}
	return true
}

// handles: an element that is invalid is refused by the loop, or is never
// forgotten by a node that the loop carries.
func (g *guarded) handles(v *loopView, elem *Term, o *Outcome, poison bool) bool {
	var ps []*ssa.Phi
	if poison {
		for _, p := range g.poisoned(v) {
			good := g.keeps(v, p, o)
			if good {
				ps = append(ps, p)
			}
		}
	}
	for _, b := range v.Backs {
		for k := range invalid {
			r := g.c.newRun()
			r.ReadHook, r.OnAtom = g.r.ReadHook, g.r.OnAtom
			st := b.St.clone()
			if !g.c.assumeInvalid(r, st, elem, k) {
				continue
			}
			kept := false
			for _, p := range ps {
				if n := b.Loop.Next[p]; n != nil && (n.Op == ONil || g.isNil(r, st, n)) {
					kept = true
				}
			}
			if !kept {
				return false
			}
		}
	}
	return len(v.Backs) > 0
}

// checked: the elements of the list in [lo..hi) that a loop left by o handles.
func (g *guarded) checked(o *Outcome, l *Term, poison bool, before *Event) [][2]*Term {
	u := g.c.U
	n := g.r.length(o.St, l, l.T)
	var res [][2]*Term
	for _, v := range g.views {
		if !left(o, v.Inst) || len(v.Backs) == 0 {
			continue
		}
		if before != nil {
			done := false
			for _, e := range o.St.events() {
				if e == before {
					break
				}
				if e.Kind == EvLoopExit && e.Loop.ID == v.Inst.ID {
					done = true
				}
			}
			if !done {
				continue
			}
		}
		for _, elem := range g.read(v.body(v.Backs[0]), l) {
			if !g.handles(v, elem, o, poison) {
				continue
			}
			ix := g.index(elem)
		search:
			for lo := int64(0); lo < 3; lo++ {
				for hi := int64(0); hi < 3; hi++ {
					if v.covers(g.r, ix, u.Int(lo), u.AddK(n, -hi), []*Outcome{o}) {
						res = append(res, [2]*Term{u.Int(lo), u.AddK(n, -hi)})
						break search
					}
				}
			}
		}
	}
	return res
}

// checkedBefore: the node is an element of a list whose elements were all checked
// before the event.
func (g *guarded) checkedBefore(o *Outcome, e *Event, n *Term) bool {
	l := g.listOf(n)
	if l == nil {
		return false
	}
	// the index is known
	if lo, hi := g.r.bounds(o.St, g.index(n)); lo == hi && n.Op == OLoad && n.K == 0 && n.Args[0].Op == OIA {
		x := g.c.U.mk(OLoad, n.Aux, n.K, n.T, nil, g.c.U.IA(l, g.c.U.Int(lo), n.T))
		if g.r.nonNil(o.St, x) {
			return true
		}
	}
	for _, iv := range g.checked(o, l, false, e) {
		ix := g.index(n)
		if g.r.decideLE(o.St, iv[0], ix) == yes && g.r.decideLE(o.St, g.c.U.AddK(ix, 1), iv[1]) == yes {
			return true
		}
	}
	return false
}

// list: the path, if an element of the list is invalid, is a refusal.
func (g *guarded) list(o *Outcome, l *Term, pos token.Pos) {
	c, u := g.c, g.c.U
	r := c.newRun()
	r.ReadHook, r.OnAtom = g.r.ReadHook, g.r.OnAtom
	if o.Kind == OutReturn && c.refused(r, o.St, g.fn, o) == "" {
		g.rep.ok("an invalid node is refused with an error and the failure value")
		return
	}
	n := r.length(o.St, l, l.T)
	// elements that are handled: by loops, by a call on a part of the list, or
	// one at a time
	ivs := g.checked(o, l, true, nil)
	type one struct{ elem, ix *Term }
	var ones []one
	for _, e := range o.St.events() {
		for _, a := range e.Args {
			if e.Kind != EvHead || !c.isNodeList(a.T) || rootSlice(a) != l {
				continue
			}
			lo, hi := u.Int(0), n
			x := a
			for x.Op == OSlice {
				lo = u.Add(lo, x.Args[1])
				x = x.Args[0]
			}
			if a.Op == OSlice && a.Args[0] == l {
				hi = a.Args[2]
			} else if a != l {
				continue
			}
			if e.Fn == g.fn {
				if !g.smallerThan(o, lo, hi, n) {
					continue
				}
			} else if !c.guardsList(e.Fn, g.rep) {
				continue
			}
			if e.Val == nil || !types.Identical(e.Val.T, c.NodeTy) {
				continue
			}
			// by induction, its result is nil
			st := o.St.clone()
			if r.nonNil(st, e.Val) || !r.assume(st, r.eqTerm(e.Val, u.Nil()), true) || st.dead {
				ivs = append(ivs, [2]*Term{lo, hi})
				g.rep.ok("an invalid node in a part of the list gives nil")
			} else if o.Kind == OutReturn {
				if why := c.refused(r, st, g.fn, o); why == "" || why == "no error is set" {
					// the call sets it
					ivs = append(ivs, [2]*Term{lo, hi})
					g.rep.ok("an invalid node in a part of the list gives nil")
				}
			}
		}
	}
	for _, e := range g.read(o.St.events(), l) {
		ix := g.index(e)
		if !isIntConst(u.Sub(ix, u.Int(0))) && !isIntConst(u.Sub(ix, n)) {
			continue
		}
		ones = append(ones, one{e, ix})
	}
	// is there another one ?
	var other func(st *State, k int) *State
	ghost := u.Param("element", types.Typ[types.Int])
	all := len(ivs) + len(ones)
	other = func(st *State, k int) *State {
		if st.dead {
			return nil
		}
		if k == all {
			return st
		}
		var lo, hi *Term
		if k < len(ivs) {
			lo, hi = ivs[k][0], ivs[k][1]
		} else {
			lo = ones[k-len(ivs)].ix
			hi = u.AddK(lo, 1)
		}
		a := st.clone()
		r.assumeLE(a, u.AddK(ghost, 1), lo)
		if x := other(a, k+1); x != nil {
			return x
		}
		r.assumeLE(st, hi, ghost)
		return other(st, k+1)
	}
	st := o.St.clone()
	r.assumeLE(st, u.Int(0), ghost)
	r.assumeLE(st, u.AddK(ghost, 1), n)
	if x := other(st, 0); x != nil {
		if o.Kind == OutPanic {
			g.rep.bad(c, o.Pos, g.name, "no panic", o.St.pathString(), "%s may panic on an invalid node: %s", g.fn.Name(), o.Why)
			return
		}
		g.rep.bad(c, pos, g.name, "refused", o.St.pathString(), "an element of the list %s is accepted without a check", l)
		return
	}
	g.rep.ok("every element of the list is checked")
	for _, x := range ones {
		// the elements kept by a loop
		kept := false
		for _, v := range g.views {
			if !left(o, v.Inst) {
				continue
			}
			for _, p := range g.poisoned(v) {
				if v.Inst.Init[p] != x.elem {
					continue
				}
				kept = kept || g.keeps(v, p, o)
			}
		}
		if kept {
			g.rep.ok("an invalid node is kept by the loop")
			continue
		}
		in := false
		for _, iv := range ivs {
			if r.decideLE(o.St, iv[0], x.ix) == yes && r.decideLE(o.St, u.AddK(x.ix, 1), iv[1]) == yes {
				in = true
			}
		}
		if in {
			continue
		}
		for k, what := range invalid {
			if !g.sub(o, x.elem, k, what, pos, nil) {
				return
			}
		}
	}
}

// smallerThan: the part of the list is not all of it.
func (g *guarded) smallerThan(o *Outcome, lo, hi, n *Term) bool {
	return g.r.decideLE(o.St, g.c.U.Int(1), lo) == yes || g.r.decideLE(o.St, g.c.U.AddK(hi, 1), n) == yes
}

// guardsList: the function is an operation on a list of nodes, or a recursive
// function that gives nil when one of the nodes of its list is invalid.
func (c *Ctx) guardsList(fn *ssa.Function, rep *Report) bool {
	for _, m := range c.bddMethods() {
		if m == fn {
			return true
		}
	}
	key := "guards:" + fn.String()
	if v, ok := c.shared[key].(bool); ok {
		return v
	}
	c.shared[key] = false
	g := &guarded{c: c, fn: fn, name: fname(fn), rep: newReport(rep.Prop, rep.Config)}
	for _, a := range c.headArgs(fn) {
		if c.isNodeList(a.T) {
			g.lists = append(g.lists, a)
		}
	}
	if len(g.lists) == 0 {
		return false
	}
	g.outs, g.r = c.rawRun(fn, c.headArgs(fn))
	if rep.undecided(c, g.name, g.outs) {
		return false
	}
	rep.paths(c, g.r, g.outs)
	rep.site(g.name)
	g.start()
	g.check()
	rep.Findings = append(rep.Findings, g.rep.Findings...)
	for k, n := range g.rep.Obl {
		rep.okn(k, n)
	}
	c.shared[key] = len(g.rep.Findings) == 0
	return len(g.rep.Findings) == 0
}

func init() {
	register("C22", "every path of an operation that is given an invalid node sets the error status and returns the failure value, and reads no node before it is checked", func(c *Ctx, rep *Report) {
		c.checkC22(rep)
	})
}
