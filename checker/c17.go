package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// handles decides how references to nodes are counted.
type handles struct {
	c   *Ctx
	m   *tableModel
	rep *Report
	max int64 // largest count when the node is not marked
	s   int64 // count from which a node is never released
	top int64 // largest count that a node can have
}

// assumeCount restricts the count of references read at a node to an interval,
// the node being marked or not; false if it is impossible on this path.
func (h *handles) assumeCount(r *Run, st *State, old *Term, lo, hi int64, marked bool) bool {
	m := h.m
	off := int64(0)
	if marked {
		off = m.mask
	}
	if hi > h.max {
		hi = h.max
	}
	r.assumeLE(st, h.c.U.Int(lo+off), old)
	r.assumeLE(st, old, h.c.U.Int(hi+off))
	if m.markF != m.refF {
		return !st.dead
	}
	for _, t := range h.c.U.all {
		if t.Op != OBin || st.dead {
			continue
		}
		for i := 0; i < 2; i++ {
			if stripConv(t.Args[i]) != old || !isIntConst(t.Args[1-i]) {
				continue
			}
			k := t.Args[1-i].K
			switch t.Aux {
			case "&":
				// the bits below the mark hold the count
				switch {
				case k&m.mask == 0 && k&(m.mask-1) == m.mask-1:
					r.assumeLE(st, h.c.U.Int(lo), t)
					r.assumeLE(st, t, h.c.U.Int(hi))
				case k == m.mask:
					r.assume(st, r.eqTerm(t, h.c.U.Int(off)), true)
				case k&m.mask != 0 && k&(m.mask-1) == m.mask-1:
					r.assume(st, r.eqTerm(t, old), true)
				}
			case "&^":
				if i == 0 && k == m.mask {
					r.assumeLE(st, h.c.U.Int(lo), t)
					r.assumeLE(st, t, h.c.U.Int(hi))
				}
			}
		}
	}
	return !st.dead
}

// possible: a count in the interval can be on this path.
func (h *handles) possible(r *Run, st *State, old *Term, lo, hi int64, marked bool) bool {
	if hi > h.max {
		hi = h.max
	}
	if lo > hi {
		return false
	}
	return h.assumeCount(r, st.clone(), old, lo, hi, marked)
}

// counts lists the counts of references of the node n that are read or stored.
func (h *handles) counts(o *Outcome, n func(*Term) bool) (loads []*Term, stores []*Event) {
	seen := map[*Term]bool{}
	for _, e := range o.St.events() {
		if e.Kind != EvLoad && e.Kind != EvStore {
			continue
		}
		f, i, _ := h.m.nodeElem(e.Addr)
		if f != h.m.refF || !n(i) {
			continue
		}
		if e.Kind == EvStore {
			stores = append(stores, e)
		} else if e.Val.Op == OLoad && !seen[e.Val] {
			seen[e.Val] = true
			loads = append(loads, e.Val)
		}
	}
	return
}

func isCallOf(e *Event, name string) bool { return e.Kind == EvCall && e.Name == name }

// retnode: every node that is returned is a new object with a reference of its own,
// except when the node can never be released.
func (h *handles) retnode() {
	c, rep := h.c, h.rep
	fn := c.Retnode
	name := fname(fn)
	var u *unit
	for _, x := range c.units() {
		if x.Fn == fn {
			u = x
		}
	}
	if u == nil {
		rep.bad(c, fn.Pos(), name, "anchor", "", "Retnode is not analysed")
		return
	}
	r := u.Run
	rep.site(name)
	rep.paths(c, r, u.Outs)
	if rep.undecided(c, name, u.Outs) {
		return
	}
	var n *Term
	for _, a := range c.unitArgs(fn) {
		if isIntType(a.T) {
			n = a
		}
	}
	isN := func(t *Term) bool { return t == n }
	// the count from which nodes are not counted any more
	for _, o := range u.Outs {
		if o.Kind != OutReturn {
			continue
		}
		_, stores := h.counts(o, isN)
		for _, e := range stores {
			old := c.U.AddK(e.Val, -1)
			if old.Op != OLoad || old.Args[0] != e.Addr {
				rep.bad(c, e.Instr.Pos(), name, "one reference for each node", o.St.pathString(), "Retnode replaces the count of references by %s", short(e.Val.String(), 100))
				return
			}
			// the largest count that is increased, by bisection
			lo, hi := int64(-1), h.max
			for lo < hi {
				mid := lo + (hi-lo+1)/2
				if h.possible(r, o.St, old, mid, h.max, false) {
					lo = mid
				} else {
					hi = mid - 1
				}
			}
			if lo+1 > h.s {
				h.s = lo + 1
			}
		}
	}
	if h.s == 0 {
		rep.bad(c, fn.Pos(), name, "one reference for each node", "", "Retnode never counts a reference")
		return
	}
	if h.s > h.max {
		rep.bad(c, fn.Pos(), name, "counter", "", "nothing prevents the count of references from going beyond the capacity of its field (%d)", h.max)
		return
	}
	rep.ok("the count of references stays within the capacity of its field")
	table := c.U.mk(OLoad, nil, 0, c.nodesF.Type(), nil, c.U.FA(c.T, c.nodesF))
	for _, o := range u.Outs {
		pth := o.St.pathString()
		bad := func(rule, f string, a ...interface{}) { rep.bad(c, c.retPos(o, fn), name, rule, pth, f, a...) }
		if o.Kind == OutPanic {
			st := o.St.clone()
			r.assumeLE(st, c.U.Int(0), n)
			if !st.dead && r.decideLE(st, r.length(st, table, table.T), n) != yes {
				rep.bad(c, o.Pos, name, "valid node", pth, "Retnode may panic for a valid identifier: %s", o.Why)
			}
			continue
		}
		if o.Kind != OutReturn {
			continue
		}
		loads, stores := h.counts(o, isN)
		var fins []*Event
		for _, e := range o.St.events() {
			if isCallOf(e, "runtime.SetFinalizer") {
				fins = append(fins, e)
			}
		}
		for _, e := range o.St.events() {
			if e.Kind == EvStore {
				if f, i, _ := h.m.nodeElem(e.Addr); f == h.m.refF && i != n {
					bad("one reference for each node", "Retnode changes the count of references of another node (%s)", short(i.String(), 60))
				}
			}
		}
		x := o.Res[0]
		switch {
		case x.Op == ONil:
			switch {
			case r.decideLE(o.St, n, c.U.Int(-1)) == yes, r.decideLE(o.St, r.length(o.St, table, table.T), n) == yes:
				rep.ok("an invalid identifier gives nil")
			default:
				bad("valid node", "Retnode may return nil for a valid identifier")
			}
			if len(stores) > 0 || len(fins) > 0 {
				bad("one reference for each node", "Retnode counts a reference that it does not return")
			}
			continue
		case x == c.Zero || x == c.One:
			k := int64(0)
			if x == c.One {
				k = 1
			}
			if r.decideEQ(o.St, n, c.U.Int(k)) != yes {
				bad("valid node", "Retnode may return a constant for the node %s", n)
			} else {
				rep.ok("the constants are not counted")
			}
			if len(stores) > 0 || len(fins) > 0 {
				bad("one reference for each node", "Retnode counts references to a constant")
			}
			continue
		case x.Op != OAlloc:
			bad("one reference for each node", "Retnode returns %s, that is not a new object", short(x.String(), 80))
			continue
		}
		if v := c.content(r, o, x); v != n {
			bad("valid node", "Retnode returns an object that holds %s", short(v.String(), 80))
			continue
		}
		good := true
		if len(stores) != len(fins) {
			if len(stores) > len(fins) {
				bad("released", "Retnode counts a reference but sets no finalizer on the object returned, so it is never released")
			} else {
				bad("one reference for each node", "Retnode sets a finalizer, that releases a reference, without counting one")
			}
			continue
		}
		if len(stores) > 1 {
			bad("one reference for each node", "Retnode counts more than one reference")
			continue
		}
		if len(stores) == 0 {
			// never released
			low := r.decideLE(o.St, n, c.U.Int(1)) == yes
			ok := low
			for _, l := range loads {
				if !h.possible(r, o.St, l, 0, h.s-1, false) {
					ok = true
				}
			}
			if ok {
				rep.ok("a reference is only left out when the node can never be released")
			} else {
				bad("one reference for each node", "Retnode may return a node without counting a reference, although references to this node are released (count below %d)", h.s)
			}
			continue
		}
		if stripIface(fins[0].Args[0]) != x {
			bad("released", "the finalizer is set on something else than the object returned (%s)", short(fins[0].Args[0].String(), 80))
			good = false
		}
		if f := stripIface(fins[0].Args[1]); f.Op == ONil {
			bad("released", "the finalizer is nil")
			good = false
		}
		if good {
			rep.ok("a reference that is counted is released by the finalizer of the object returned")
		}
	}
}

// finalizer: one reference is released, unless the count is not exact.
func (h *handles) finalizer(fn *ssa.Function) {
	c, rep := h.c, h.rep
	name := fname(fn)
	rep.site(name)
	r := c.unitRun(fn)
	args := c.unitArgs(fn)
	for _, v := range fn.FreeVars {
		args = append(args, c.U.Param("captured "+v.Name(), v.Type()))
	}
	if len(fn.Params) == 0 {
		rep.bad(c, fn.Pos(), name, "anchor", "", "the finalizer has no parameter")
		return
	}
	n := args[len(fn.Params)-1]
	outs := r.Exec(fn, args, c.rawState)
	rep.paths(c, r, outs)
	if rep.undecided(c, name, outs) {
		return
	}
	any := false
	for _, o := range outs {
		pth := o.St.pathString()
		if o.Kind == OutPanic {
			rep.bad(c, o.Pos, name, "released", pth, "the finalizer may panic: %s", o.Why)
			continue
		}
		if o.Kind != OutReturn {
			continue
		}
		isN := func(t *Term) bool { return t.Op == OLoad && t.Args[0] == n }
		loads, stores := h.counts(o, isN)
		for _, e := range o.St.events() {
			if e.Kind == EvStore {
				if f, i, _ := h.m.nodeElem(e.Addr); f == h.m.refF && !isN(i) {
					rep.bad(c, e.Instr.Pos(), name, "released at most once", pth, "the finalizer changes the count of references of another node (%s)", short(i.String(), 60))
				}
			}
			if e.Kind == EvHead && e.Fn != fn {
				for cl := range c.P.modref(e.Fn).Mod {
					if v, ok := cl.(*types.Var); ok && v == h.m.refF {
						rep.bad(c, e.Instr.Pos(), name, "released at most once", pth, "the analysis cannot follow %s", fname(e.Fn))
					}
				}
			}
		}
		marks := []bool{false}
		if h.m.markF == h.m.refF {
			marks = append(marks, true)
		}
		if len(stores) > 1 {
			rep.bad(c, stores[1].Instr.Pos(), name, "released at most once", pth, "the finalizer may release more than one reference")
			continue
		}
		for _, mk := range marks {
			how := ""
			if mk {
				how = ", the node being marked"
			}
			if len(stores) == 0 {
				ok := false
				for _, l := range loads {
					if !h.possible(r, o.St, l, 1, h.s-1, mk) {
						ok = true
					}
				}
				if ok {
					rep.ok("a reference is released unless the count is saturated")
				} else {
					rep.bad(c, fn.Pos(), name, "released", pth, "the finalizer may not release the reference, although the count is exact (below %d)%s", h.s, how)
				}
				continue
			}
			any = true
			e := stores[0]
			old := c.U.AddK(e.Val, 1)
			if old.Op != OLoad || old.Args[0] != e.Addr {
				rep.bad(c, e.Instr.Pos(), name, "released at most once", pth, "the finalizer replaces the count of references by %s", short(e.Val.String(), 100))
				continue
			}
			if h.possible(r, o.St, old, h.s, h.top, mk) {
				rep.bad(c, e.Instr.Pos(), name, "never released early", pth, "the finalizer may decrease a count that is saturated (%d or more)%s", h.s, how)
			} else {
				rep.ok("a saturated count is never decreased")
			}
		}
	}
	if !any {
		rep.bad(c, fn.Pos(), name, "released", "", "the finalizer never releases a reference")
	}
	// the table whose counts are decreased is the one of the BDD
	bases := map[*Term]token.Pos{}
	for _, o := range outs {
		_, stores := h.counts(o, func(*Term) bool { return true })
		for _, e := range stores {
			_, _, b := h.m.nodeElem(e.Addr)
			bases[b] = e.Instr.Pos()
		}
	}
	for b, pos := range bases {
		if b.Op != OLoad || b.Args[0].Op != OFA || b.Args[0].Aux != c.nodesF {
			rep.bad(c, pos, name, "released", "", "the finalizer does not use the current table of nodes, but %s", short(b.String(), 80))
			continue
		}
		h.installed(fn, b.Args[0].Args[0], pos)
	}
}

// installed: the finalizer of a new BDD works on the table of that BDD.
func (h *handles) installed(fn *ssa.Function, table *Term, pos token.Pos) {
	c, rep := h.c, h.rep
	name := fname(fn)
	// how the finalizer is found in Retnode
	var field *types.Var
	for _, u := range c.units() {
		if u.Fn != c.Retnode {
			continue
		}
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if isCallOf(e, "runtime.SetFinalizer") {
					if f := stripIface(e.Args[1]); f.Op == OLoad && f.Args[0].Op == OFA {
						field = f.Args[0].Aux.(*types.Var)
					} else if f.Op == OClosure {
						// made on the spot
						if x := h.eval(u.Run, o.St, table, fn, f); x != c.T {
							rep.bad(c, pos, name, "released", "", "the finalizer works on another table than Retnode")
						} else {
							rep.ok("the finalizer works on the table of the BDD")
						}
					} else {
						rep.bad(c, e.Instr.Pos(), name, "released", o.St.pathString(), "the finalizer is %s", short(f.String(), 80))
					}
				}
			}
		}
	}
	if field == nil {
		return
	}
	n := 0
	for _, cr := range c.creations() {
		for _, o := range cr.Outs {
			if o.Kind != OutReturn || o.Res[0].Op == ONil {
				continue
			}
			n++
			pth := o.St.pathString()
			t := h.tableOf(cr.Run, o)
			if t == nil {
				rep.bad(c, c.retPos(o, cr.Fn), fname(cr.Fn), "released", pth, "the table of the new BDD is not understood")
				continue
			}
			f := stripIface(cr.Run.loadMem(o.St, o.St.mem, c.U.FA(t, field), field.Type()))
			if f.Op != OClosure {
				rep.bad(c, c.retPos(o, cr.Fn), fname(cr.Fn), "released", pth, "the finalizer of the nodes of the new BDD is %s", short(f.String(), 60))
				continue
			}
			if f.Aux.(*ssa.Function) != fn {
				rep.bad(c, c.retPos(o, cr.Fn), fname(cr.Fn), "released", pth, "the finalizer of the nodes of the new BDD is not %s", name)
				continue
			}
			if x := h.eval(cr.Run, o.St, table, fn, f); x != t {
				rep.bad(c, pos, name, "released", pth, "the finalizer works on %s, that is not the table of the new BDD", short(table.String(), 80))
			} else {
				rep.ok("the finalizer works on the table of the BDD")
			}
		}
	}
	if n == 0 {
		rep.bad(c, pos, name, "anchor", "", "no function creates a BDD")
	}
	// nothing else changes it
	for _, u := range c.units() {
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == field && rootOf(e.Addr).Op != OAlloc {
					rep.bad(c, e.Instr.Pos(), fname(u.Fn), "released", o.St.pathString(), "the finalizer of the nodes is changed")
				}
			}
		}
	}
}

// tableOf is the table of the BDD that a creation returns.
func (h *handles) tableOf(r *Run, o *Outcome) *Term {
	c := h.c
	s := structOf(derefType(c.B.T))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.Identical(f.Type(), c.tablesType()) {
			return r.loadMem(o.St, o.St.mem, c.U.FA(o.Res[0], f), f.Type())
		}
		if types.Identical(types.NewPointer(f.Type()), c.tablesType()) {
			return c.U.FA(o.Res[0], f)
		}
	}
	return nil
}

// eval gives the value that a term of the finalizer has in a state, for the
// closure f.
func (h *handles) eval(r *Run, st *State, t *Term, fn *ssa.Function, f *Term) *Term {
	switch t.Op {
	case OParam:
		for i, v := range fn.FreeVars {
			if t == h.c.U.Param("captured "+v.Name(), v.Type()) && i < len(f.Args) {
				return f.Args[i]
			}
		}
	case OLoad:
		return r.loadMem(st, st.mem, h.eval(r, st, t.Args[0], fn, f), t.T)
	case OFA:
		return h.c.U.FA(h.eval(r, st, t.Args[0], fn, f), t.Aux.(*types.Var))
	}
	return t
}

// others: the counts are only changed by Retnode and the finalizers, except for
// new tables and for marks.
func (h *handles) others() {
	c, rep := h.c, h.rep
	fin := map[*ssa.Function]bool{c.Retnode: true}
	for _, f := range c.finalizers() {
		fin[f] = true
	}
	// every use of finalizers is on a path of Retnode
	inRet := map[ssa.Instruction]bool{}
	for _, u := range c.units() {
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if u.Fn == c.Retnode && isCallOf(e, "runtime.SetFinalizer") {
					inRet[e.Instr] = true
				}
			}
		}
	}
	for _, s := range c.setFinalizerCalls() {
		if inRet[s] {
			rep.ok("finalizers are only set by Retnode")
		} else {
			rep.bad(c, s.Pos(), fname(s.Parent()), "released at most once", "", "a finalizer is set outside of Retnode")
		}
	}
	create := map[*ssa.Function]bool{}
	for _, cr := range c.creations() {
		create[cr.Fn] = true
		rep.site(fname(cr.Fn))
		rep.paths(c, cr.Run, cr.Outs)
		for _, o := range cr.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvStore {
					continue
				}
				f, i, _ := h.m.nodeElem(e.Addr)
				if f == h.m.refF {
					h.pin(cr.Fn, o, e, i)
				}
			}
		}
	}
	for _, u := range c.units() {
		if fin[u.Fn] || create[u.Fn] {
			continue
		}
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvStore {
					continue
				}
				f, i, _ := h.m.nodeElem(e.Addr)
				if f != h.m.refF {
					continue
				}
				v := stripConv(e.Val)
				switch {
				case isIntConst(v):
					h.pin(u.Fn, o, e, i)
				case h.m.markF == h.m.refF && v.Op == OBin && v.Aux == "|" && (isMask(v.Args[0], h.m.mask) && sameLoad(v.Args[1], e.Addr) || isMask(v.Args[1], h.m.mask) && sameLoad(v.Args[0], e.Addr)):
					rep.ok("a mark does not change the count")
				case h.m.markF == h.m.refF && h.m.clearedOf(u.Run, o.St, e.Val, u.Run.loadAt(o.St, e), e.Addr):
					rep.ok("a mark does not change the count")
				case v.Op == OLoad && v.Args[0].Op == OFA && v.Args[0].Aux == h.m.refF && copyOf(v.Args[0], e.Addr):
					rep.ok("a count is copied with its node")
				default:
					rep.bad(c, e.Instr.Pos(), fname(u.Fn), "released at most once", o.St.pathString(), "the count of references is replaced by %s", short(e.Val.String(), 80))
				}
			}
		}
	}
}

func isMask(t *Term, mask int64) bool { return isIntConst(t) && t.K == mask }

func sameLoad(t, addr *Term) bool { return t.Op == OLoad && t.Args[0] == addr }

// copyOf: both addresses are the same field of the node with the same number.
func copyOf(a, b *Term) bool {
	return a.Args[0].Op == OIA && b.Args[0].Op == OIA && a.Args[0].Args[1] == b.Args[0].Args[1]
}

// pins records the largest constant count.
func (h *handles) pins(o *Outcome) {
	for _, e := range o.St.events() {
		if e.Kind != EvStore {
			continue
		}
		if f, _, _ := h.m.nodeElem(e.Addr); f != h.m.refF {
			continue
		}
		if v := stripConv(e.Val); isIntConst(v) && v.K > h.top && v.K <= h.max {
			h.top = v.K
		}
	}
}

// pin: a constant count is the one of a slot without references, or of a node that
// stays for ever.
func (h *handles) pin(fn *ssa.Function, o *Outcome, e *Event, i *Term) {
	v := stripConv(e.Val)
	switch {
	case isIntConst(v) && v.K == 0, v.Op == OZero:
		h.rep.ok("a free slot or a new node has no reference")
	case isIntConst(v) && v.K >= h.s && v.K <= h.max:
		h.rep.ok("a node that is never released has a saturated count")
	default:
		h.rep.bad(h.c, e.Instr.Pos(), fname(fn), "never released early", o.St.pathString(), "the count of references of a node is set to %s, that is neither 0 nor saturated (%d)", short(e.Val.String(), 60), h.s)
	}
}

// results: what the user is given is counted.
func (h *handles) results() {
	c, rep := h.c, h.rep
	for _, u := range c.units() {
		if u.Fn == c.Retnode {
			continue
		}
		res := u.Fn.Signature.Results()
		for k := 0; k < res.Len(); k++ {
			if !types.Identical(res.At(k).Type(), c.NodeTy) {
				continue
			}
			rep.site(fname(u.Fn))
			for _, o := range u.Outs {
				if o.Kind != OutReturn {
					continue
				}
				x := o.Res[k]
				if x.Op != OAlloc || x == c.Zero || x == c.One {
					rep.ok("a node returned is counted, constant, or known already")
					continue
				}
				v := c.content(u.Run, o, x)
				switch {
				case isIntConst(v) && (v.K == 0 || v.K == 1):
					rep.ok("a node returned is counted, constant, or known already")
				case h.variable(v):
					rep.ok("the nodes of the variables are not counted")
				default:
					rep.bad(c, c.retPos(o, u.Fn), fname(u.Fn), "one reference for each node", o.St.pathString(), "%s returns a reference to the node %s that is not counted", u.Fn.Name(), short(v.String(), 80))
				}
			}
		}
	}
	// the nodes of the variables are never released
	vf := map[*types.Var]bool{}
	for _, m := range []string{"Ithvar", "NIthvar"} {
		outs, r, err := c.method(m)
		if err != nil {
			continue
		}
		for _, o := range outs {
			if o.Kind == OutReturn && o.Res[0].Op == OAlloc {
				if f := h.varField(c.content(r, o, o.Res[0])); f != nil {
					vf[f] = true
				}
			}
		}
	}
	for _, cr := range c.creations() {
		for _, o := range cr.Outs {
			pinned := map[*Term]bool{}
			for _, e := range o.St.events() {
				if e.Kind == EvStore {
					if f, i, _ := h.m.nodeElem(e.Addr); f == h.m.refF && isIntConst(stripConv(e.Val)) && stripConv(e.Val).K >= h.s {
						pinned[i] = true
					}
				}
			}
			for _, e := range o.St.events() {
				if e.Kind != EvStore {
					continue
				}
				in := false
				for a := e.Addr; a != nil && (a.Op == OFA || a.Op == OIA); a = a.Args[0] {
					if s := a.Args[0]; a.Op == OIA {
						for f := range vf {
							if types.Identical(s.T, f.Type()) {
								in = true
							}
						}
					}
				}
				if !in {
					continue
				}
				for _, v := range leaves(e.Val) {
					if pinned[v] || isIntConst(v) && (v.K == 0 || v.K == 1) {
						rep.ok("the nodes of the variables have a saturated count")
					} else {
						rep.bad(c, e.Instr.Pos(), fname(cr.Fn), "never released early", o.St.pathString(), "the node %s, recorded for a variable, is not given a saturated count", short(v.String(), 80))
					}
				}
			}
		}
	}
}

// leaves lists the values inside of an array or structure.
func leaves(t *Term) []*Term {
	if t.Op == OArr || t.Op == OStruct {
		var l []*Term
		for _, a := range t.Args {
			l = append(l, leaves(a)...)
		}
		return l
	}
	return []*Term{t}
}

// variable: the value is one that New recorded for a variable.
func (h *handles) variable(v *Term) bool { return h.varField(v) != nil }

func (h *handles) varField(v *Term) *types.Var {
	if v.Op != OLoad {
		return nil
	}
	for a := v.Args[0]; a.Op == OFA || a.Op == OIA; a = a.Args[0] {
		if a.Op == OIA && a.Args[0].Op == OLoad && a.Args[0].Args[0].Op == OFA && a.Args[0].Args[0].Args[0] == h.c.B {
			return a.Args[0].Args[0].Aux.(*types.Var)
		}
	}
	return nil
}

// kept: the nodes given to a function that calls back the user are kept until it
// returns.
func (h *handles) kept() {
	c, rep := h.c, h.rep
	api := map[*ssa.Function]bool{}
	for _, f := range c.apiFuncs() {
		api[f] = true
	}
	for _, u := range c.units() {
		if !api[u.Fn] {
			continue
		}
		var nodes []*Term
		args := c.unitArgs(u.Fn)
		for _, a := range args {
			if types.Identical(a.T, c.NodeTy) {
				nodes = append(nodes, a)
			} else if s, ok := a.T.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), c.NodeTy) {
				nodes = append(nodes, a)
			}
		}
		if len(nodes) == 0 {
			continue
		}
		for _, o := range u.Outs {
			if o.Kind != OutReturn {
				continue
			}
			evs := o.St.events()
			last := -1
			for i, e := range evs {
				switch e.Kind {
				case EvCallback:
					last = i
				case EvHead:
					if api[e.Fn] && takesAll(e, nodes) {
						continue // it answers for itself
					}
					for _, a := range e.Args {
						if a.T != nil {
							if _, ok := a.T.Underlying().(*types.Signature); ok {
								last = i
							}
						}
					}
				}
			}
			if last < 0 {
				continue
			}
			rep.site(fname(u.Fn))
			for _, n := range nodes {
				if n.Op == ONil || types.Identical(n.T, c.NodeTy) && u.Run.truth(o.St, u.Run.eqTerm(n, c.U.Nil())) == yes {
					continue
				}
				if !types.Identical(n.T, c.NodeTy) && u.Run.decideLE(o.St, u.Run.length(o.St, n, n.T), c.U.Int(0)) == yes {
					rep.ok("there is no node to keep")
					continue
				}
				alive := false
				for _, e := range evs[last+1:] {
					if isCallOf(e, "runtime.KeepAlive") && len(e.Args) > 0 && stripIface(e.Args[0]) == n {
						alive = true
					}
				}
				if alive {
					rep.ok("the nodes given to a traversal are kept until it returns")
				} else {
					rep.bad(c, evs[last].Instr.Pos(), fname(u.Fn), "kept during the traversal", o.St.pathString(), "%s may be released while functions of the user are called", n)
				}
			}
		}
	}
}

func stripIface(t *Term) *Term {
	for t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

func takesAll(e *Event, nodes []*Term) bool {
	for _, n := range nodes {
		ok := false
		for _, a := range e.Args {
			ok = ok || a == n
		}
		if !ok {
			return false
		}
	}
	return true
}

func (c *Ctx) checkC17(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	h := &handles{c: c, m: m, rep: rep}
	h.max = 1<<31 - 1
	if b, ok := m.refF.Type().Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8:
			h.max = 1<<7 - 1
		case types.Uint8:
			h.max = 1<<8 - 1
		case types.Int16:
			h.max = 1<<15 - 1
		case types.Uint16:
			h.max = 1<<16 - 1
		}
	}
	if m.markF == m.refF {
		h.max = m.mask - 1
	}
	h.retnode()
	if len(rep.Findings) > 0 {
		return
	}
	// counts only increase up to the saturation, or are pinned
	h.top = h.s
	for _, u := range c.units() {
		for _, o := range u.Outs {
			h.pins(o)
		}
	}
	for _, cr := range c.creations() {
		for _, o := range cr.Outs {
			h.pins(o)
		}
	}
	fins := c.finalizers()
	if len(fins) == 0 {
		rep.bad(c, token.NoPos, "", "released", "", "no finalizer was found")
	}
	for _, f := range fins {
		h.finalizer(f)
	}
	h.others()
	h.results()
	h.kept()
	c.tableResults(rep)
}

func init() {
	register("C17", "the references counted by Retnode are exactly the ones that finalizers release, below a saturation that the counter never leaves; traversals keep the nodes they are given", func(c *Ctx, rep *Report) {
		c.checkC17(rep)
	})
}
