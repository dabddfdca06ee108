package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// traversal decides what Allnodes gives to the function of the user.
type traversal struct {
	c      *Ctx
	m      *tableModel
	rep    *Report
	fn     *ssa.Function
	r      *Run
	f      *Term // function of the user
	roots  *Term // slice of nodes
	views  map[int64]*loopView
	all    []*loopView
	consts bool // constants may be marked
}

// markers: a node is only marked when it is given, or below a node that is marked.
func (t *traversal) checkMarkers() {
	c, m := t.c, t.m
	for fn := range m.markers {
		for _, u := range m.unitsOf(fn) {
			r := u.Run
			t.rep.site(fname(fn))
			var param *Term
			for _, a := range c.unitArgs(fn) {
				if isIntType(a.T) {
					param = a
				}
			}
			for _, o := range u.Outs {
				if o.Kind == OutPanic || o.Kind == OutUndecided {
					continue // (C14)
				}
				pth := o.St.pathString()
				cur := map[*Term]bool{param: true}
				for _, e := range o.St.events() {
					switch e.Kind {
					case EvLoopEnter:
						for p, ph := range e.Loop.Phi {
							if !isIntType(p.Type()) || !cur[e.Loop.Init[p]] {
								continue
							}
							// it goes from a node to one of its successors
							ok := true
							for _, v := range loopViews(u.Outs) {
								if v.Inst.ID != e.Loop.ID {
									continue
								}
								for _, b := range v.Backs {
									n := b.Loop.Next[p]
									if n != ph && !m.succ(n, ph, c.lowF) && !m.succ(n, ph, c.highF) {
										ok = false
									}
								}
							}
							if ok {
								cur[ph] = true
							}
						}
					case EvStore:
						f, i, _ := m.nodeElem(e.Addr)
						if f != m.markF {
							continue
						}
						if !cur[i] {
							t.rep.bad(c, e.Instr.Pos(), fname(fn), "reachable nodes only", pth, "a node that may not be reachable is marked (%s)", short(i.String(), 60))
							continue
						}
						if r.decideLE(o.St, r.U.Int(2), i) != yes {
							t.consts = true
						}
						t.rep.ok("only the nodes below the one given are marked")
					case EvHead:
						if !m.markers[e.Fn] {
							continue
						}
						for _, a := range e.Args {
							if !isIntType(a.T) {
								continue
							}
							ok := cur[a]
							for x := range cur {
								ok = ok || m.succ(a, x, c.lowF) || m.succ(a, x, c.highF)
							}
							if !ok {
								t.rep.bad(c, e.Instr.Pos(), fname(fn), "reachable nodes only", pth, "a node that may not be reachable is marked (%s)", short(a.String(), 60))
							} else {
								t.rep.ok("only the nodes below the one given are marked")
							}
						}
					}
				}
			}
		}
	}
}

// fieldOf: the value is that of a field of the node id.
func (t *traversal) fieldOf(o *Outcome, v *Term, f *types.Var, id *Term, clean bool) bool {
	m, r := t.m, t.r
	v = stripConv(v)
	if v.Op == OBin && f == m.markF && f != m.refF {
		for i := 0; i < 2; i++ {
			k, x := v.Args[i], stripConv(v.Args[1-i])
			if !isIntConst(k) || x.Op != OLoad || !t.fieldOf(o, x, f, id, false) {
				continue
			}
			switch v.Aux {
			case "&":
				return k.K&m.mask == 0 && k.K&(m.mask-1) == m.mask-1
			case "&^":
				return i == 1 && k.K == m.mask
			case "^":
				return k.K == m.mask && notTri(r.decideEQ(o.St, r.binopAnd(o.St, x, m.mask), r.U.Int(0))) == yes
			}
		}
		return false
	}
	if v.Op != OLoad {
		return false
	}
	g, i, _ := m.nodeElem(v.Args[0])
	if g != f || i != id && r.decideEQ(o.St, i, id) != yes {
		return false
	}
	if clean && f == m.markF {
		return r.decideEQ(o.St, r.binopAnd(o.St, v, m.mask), r.U.Int(0)) == yes
	}
	return true
}

// part is the place of an address in an element of a list: the list, the index of
// the element and the place.
func part(a *Term) (list, idx *Term, sel []interface{}) {
	for a != nil && (a.Op == OFA || a.Op == OIA) {
		if a.Op == OFA {
			sel = append([]interface{}{a.Aux}, sel...)
			a = a.Args[0]
			continue
		}
		if _, ok := derefType(a.T).Underlying().(*types.Basic); ok || len(sel) == 0 || !isIntConst(a.Args[1]) || isSliceTerm(a.Args[0]) {
			if isSliceTerm(a.Args[0]) {
				return a.Args[0], a.Args[1], sel
			}
		}
		if !isIntConst(a.Args[1]) {
			return nil, nil, nil
		}
		sel = append([]interface{}{a.Args[1].K}, sel...)
		a = a.Args[0]
	}
	return nil, nil, nil
}

func isSliceTerm(t *Term) bool {
	if t.T == nil {
		return false
	}
	_, ok := t.T.Underlying().(*types.Slice)
	return ok
}

// selected is the part of a value.
func selected(v *Term, sel []interface{}) *Term {
	for _, s := range sel {
		switch x := s.(type) {
		case int64:
			if v.Op != OArr || x >= int64(len(v.Args)) {
				return nil
			}
			v = v.Args[x]
		case *types.Var:
			st := structOf(v.T)
			if v.Op != OStruct || st == nil {
				return nil
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == x {
					v = v.Args[i]
					break
				}
			}
		}
	}
	return v
}

// marked: what the turn knows of the mark of the node n.
func (t *traversal) marked(v *loopView, b *Outcome, n *Term) tri {
	m, r := t.m, t.r
	for _, e := range v.body(b) {
		if e.Kind != EvLoad && e.Kind != EvStore {
			continue
		}
		f, i, _ := m.nodeElem(e.Addr)
		if f != m.markF || stripConv(i) != n && r.decideEQ(b.St, i, n) != yes {
			continue
		}
		x := e.Val
		if e.Kind == EvStore {
			break // what is read afterwards is the new value
		}
		if x.Op == OLoad {
			if k := notTri(r.decideEQ(b.St, r.binopAnd(b.St, x, m.mask), r.U.Int(0))); k != unknown {
				return k
			}
		}
	}
	return unknown
}

func (t *traversal) callbacks(evs []*Event) (l []*Event) {
	for _, e := range evs {
		if e.Kind == EvCallback && e.Args[0] == t.f {
			l = append(l, e)
		}
	}
	return
}

// stops: the function of the user is not called any more after it fails.
func (t *traversal) stops(o *Outcome) {
	c, r, rep := t.c, t.r, t.rep
	pth := o.St.pathString()
	calls := t.callbacks(o.St.events())
	for i, e := range calls {
		failed := notTri(r.truth(o.St, r.eqTerm(e.Val, c.U.Nil())))
		switch {
		case failed == no:
			rep.ok("the traversal goes on only after a success")
		case i < len(calls)-1 || o.Kind == OutLoopBack:
			rep.bad(c, e.Instr.Pos(), fname(t.fn), "stops on error", pth, "the traversal may go on after an error")
		case o.Kind == OutReturn && o.Res[0] != e.Val:
			rep.bad(c, e.Instr.Pos(), fname(t.fn), "stops on error", pth, "the error of the function given by the user is not the result")
		default:
			rep.ok("the traversal stops at the first error, and returns it")
		}
	}
	if o.Kind != OutReturn {
		return
	}
	x := o.Res[0]
	if x.Op == ONil || len(calls) > 0 && calls[len(calls)-1].Val == x {
		return
	}
	if len(calls) > 0 || !c.errorSet(o) {
		rep.bad(c, c.retPos(o, t.fn), fname(t.fn), "result", pth, "an error is returned although the nodes are valid")
	} else {
		rep.ok("another error is only for invalid nodes")
	}
}

// ends: the outcomes that leave the loop without an error.
func (t *traversal) ends(v *loopView) (l []*Outcome) {
	for _, o := range v.Exits {
		if o.Kind == OutReturn && o.Res[0].Op != ONil && len(t.callbacks(v.body(o))) > 0 {
			continue
		}
		l = append(l, o)
	}
	return
}

func (t *traversal) tableLen(v *loopView) *Term {
	c, r := t.c, t.r
	pre := v.Inst.Pre
	nodes := r.loadMem(pre, pre.mem, c.U.FA(t.m.T, c.nodesF), c.nodesF.Type())
	return r.length(pre, nodes, nodes.T)
}

// visit checks one turn that gives the node id, with the values of its fields, to
// the user or to a list; it returns false if it is not so.
func (t *traversal) visit(o *Outcome, pos token.Pos, id, level, low, high *Term, clean bool) bool {
	pth := o.St.pathString()
	bad := func(f string) { t.rep.bad(t.c, pos, fname(t.fn), "contents", pth, "%s", f) }
	switch {
	case !t.fieldOf(o, level, t.c.levelF, id, clean):
		bad("the level that is reported is not the one of the node")
	case !t.fieldOf(o, low, t.c.lowF, id, clean):
		bad("the low successor that is reported is not the one of the node")
	case !t.fieldOf(o, high, t.c.highF, id, clean):
		bad("the high successor that is reported is not the one of the node")
	default:
		t.rep.ok("a node is reported with its own level and successors")
		return true
	}
	return false
}

// table: each turn of the loop looks at the next slot of the table; got tells if
// the turn reports it.
func (t *traversal) table(v *loopView, id *Term, roots bool, got func(*Outcome) bool) {
	c, r, rep, u := t.c, t.r, t.rep, t.c.U
	name := fname(t.fn)
	pos := t.loopPos(v)
	for _, b := range v.Backs {
		pth := b.St.pathString()
		g := got(b)
		if roots {
			mk := t.marked(v, b, id)
			switch {
			case g && mk != yes:
				rep.bad(c, pos, name, "reachable nodes only", pth, "a node that may not be marked is reported")
			case g && t.consts && r.decideLE(b.St, u.Int(2), id) != yes:
				rep.bad(c, pos, name, "reachable nodes only", pth, "a constant may be reported")
			case !g && mk != no && r.decideLE(b.St, id, u.Int(1)) != yes:
				rep.bad(c, pos, name, "every node", pth, "a node that may be marked is not reported")
			default:
				rep.ok("the nodes reported are the ones marked")
			}
			continue
		}
		nodes := r.loadMem(b.St, v.Inst.Head, c.U.FA(t.m.T, c.nodesF), c.nodesF.Type())
		sign := unknown // in use
		try := func(lv *Term) {
			if r.decideLE(b.St, lv, u.Int(-1)) == yes || r.decideEQ(b.St, lv, u.Int(-1)) == yes {
				sign = no
			} else if r.decideLE(b.St, u.Int(0), lv) == yes || r.decideEQ(b.St, lv, u.Int(-1)) == no {
				sign = yes
			}
		}
		try(r.loadMem(b.St, v.Inst.Head, t.m.elemAddr(nodes, id, c.lowF), c.lowF.Type()))
		for _, e := range v.body(b) {
			if e.Kind == EvLoad && sign == unknown {
				if f, i, _ := t.m.nodeElem(e.Addr); f == c.lowF && i == id {
					try(e.Val)
				}
			}
		}
		switch {
		case g && sign != yes:
			rep.bad(c, pos, name, "active nodes only", pth, "a slot that may be free is reported")
		case !g && sign != no:
			rep.bad(c, pos, name, "every node", pth, "a node that may be in use is not reported")
		default:
			rep.ok("the nodes reported are the ones in use")
		}
	}
	lo := u.Int(0)
	if roots {
		lo = u.Int(2)
	}
	if !v.covers(r, id, lo, t.tableLen(v), t.ends(v)) {
		rep.bad(c, pos, name, "every node", v.Inst.Pre.pathString(), "the loop may leave out some slots of the table")
	} else {
		rep.ok("all the slots are looked at once")
	}
}

func (t *traversal) loopPos(v *loopView) token.Pos {
	for _, o := range v.Backs {
		for _, e := range v.body(o) {
			if e.Instr != nil && e.Instr.Pos().IsValid() {
				return e.Instr.Pos()
			}
		}
	}
	return t.fn.Pos()
}

// rootsMarked: before that loop, the nodes given by the user, and no other, were
// marked.
func (t *traversal) rootsMarked(o *Outcome, until int64) bool {
	c, r, rep, u := t.c, t.r, t.rep, t.c.U
	good := false
	for _, e := range o.St.events() {
		if e.Kind == EvLoopEnter && e.Loop.ID == until {
			break
		}
		if e.Kind == EvHead && t.m.markers[e.Fn] {
			rep.bad(c, e.Instr.Pos(), fname(t.fn), "reachable nodes only", o.St.pathString(), "a node is marked outside of the loop over the nodes given")
			return true
		}
		if e.Kind != EvLoopEnter {
			continue
		}
		v := t.views[e.Loop.ID]
		if v == nil {
			continue
		}
		var idx *Term
		marks, all := false, true
		for _, b := range v.Backs {
			here := false
			for _, x := range v.body(b) {
				if x.Kind != EvHead || !t.m.markers[x.Fn] {
					continue
				}
				marks = true
				for _, a := range x.Args {
					if !isIntType(a.T) {
						continue
					}
					ok := false
					if a.Op == OLoad && a.Args[0].Op == OLoad && a.Args[0].Args[0].Op == OIA && a.Args[0].Args[0].Args[0] == t.roots {
						i := a.Args[0].Args[0].Args[1]
						ok = idx == nil || idx == i
						idx = i
					}
					if !ok {
						rep.bad(c, x.Instr.Pos(), fname(t.fn), "reachable nodes only", b.St.pathString(), "a node that was not given is marked (%s)", short(a.String(), 60))
						return true
					}
					here = true
				}
			}
			all = all && here
		}
		if !marks {
			continue
		}
		if !all || idx == nil || !v.covers(r, idx, u.Int(0), r.length(v.Inst.Pre, t.roots, t.roots.T), []*Outcome{o}) {
			rep.bad(c, t.loopPos(v), fname(t.fn), "every node", o.St.pathString(), "some of the nodes given may not be marked")
			return true
		}
		rep.ok("all the nodes given are marked")
		good = true
	}
	return good
}

func (t *traversal) check(outs []*Outcome) {
	c, r, rep, u := t.c, t.r, t.rep, t.c.U
	name := fname(t.fn)
	for _, o := range outs {
		switch o.Kind {
		case OutPanic:
			rep.bad(c, o.Pos, name, "no panic", o.St.pathString(), "Allnodes may panic: %s", o.Why)
		case OutReturn, OutLoopBack:
			t.stops(o)
		}
	}
	// the loops that call the function of the user
	calls := map[int64]bool{}
	for _, v := range t.all {
		var cb *Event
		for _, b := range v.Backs {
			l := t.callbacks(v.body(b))
			if len(l) > 1 {
				rep.bad(c, l[1].Instr.Pos(), name, "exactly once", b.St.pathString(), "the function may be called twice for a node")
				return
			}
			if len(l) == 1 {
				if in := loopsAt(b, l[0]); len(in) == 0 || in[len(in)-1].ID != v.Inst.ID {
					continue // an inner loop
				}
				if cb != nil && cb.Instr != l[0].Instr {
					rep.bad(c, l[0].Instr.Pos(), name, "exactly once", b.St.pathString(), "the function is called at two places")
					return
				}
				cb = l[0]
			}
		}
		if cb == nil {
			continue
		}
		calls[v.Inst.ID] = true
		pos := cb.Instr.Pos()
		pre := v.Inst.Pre
		nr := r.length(pre, t.roots, t.roots.T)
		empty := r.decideEQ(pre, nr, u.Int(0))
		if empty == unknown {
			rep.bad(c, pos, name, "every node", pre.pathString(), "the traversal is the same with and without nodes")
			continue
		}
		id := stripConv(cb.Args[1])
		has := func(b *Outcome) bool { return len(t.callbacks(v.body(b))) == 1 }
		if len(cb.Args) != 5 {
			rep.bad(c, pos, name, "anchor", "", "the function of the user has other parameters")
			continue
		}
		if id.Op != OLoad {
			// directly from the table
			if empty == no {
				if len(v.Exits) > 0 && !t.rootsMarked(v.Exits[0], v.Inst.ID) {
					rep.bad(c, pos, name, "every node", pre.pathString(), "the nodes given are not marked")
				}
			}
			for _, b := range v.Backs {
				for _, e := range t.callbacks(v.body(b)) {
					if stripConv(e.Args[1]) != id {
						rep.bad(c, pos, name, "contents", b.St.pathString(), "the identifier is not always the one of the slot")
					}
					t.visit(b, pos, id, e.Args[2], e.Args[3], e.Args[4], empty == no)
				}
			}
			t.table(v, id, empty == no, has)
			continue
		}
		// from a list
		list, j, selID := part(id.Args[0])
		if list == nil {
			rep.bad(c, pos, name, "contents", pre.pathString(), "the identifier reported is not understood: %s", short(id.String(), 80))
			continue
		}
		for _, b := range v.Backs {
			if !has(b) {
				rep.bad(c, pos, name, "every node", b.St.pathString(), "a node of the list may be left out")
			}
		}
		if !v.covers(r, j, u.Int(0), r.length(pre, list, list.T), t.ends(v)) {
			rep.bad(c, pos, name, "every node", pre.pathString(), "the loop may leave out some of the nodes of the list")
		} else {
			rep.ok("all the nodes of the list are reported once")
		}
		// where the list comes from
		var w *loopView
		var acc *ssa.Phi
		for _, x := range t.all {
			for p, ph := range x.Inst.Phi {
				if ph == list {
					w, acc = x, p
				}
			}
		}
		if w == nil {
			rep.bad(c, pos, name, "every node", pre.pathString(), "the list of nodes is not understood: %s", short(list.String(), 60))
			continue
		}
		if i := w.Inst.Init[acc]; i.Op != ONil && r.decideEQ(w.Inst.Pre, r.length(w.Inst.Pre, i, i.T), u.Int(0)) != yes {
			rep.bad(c, pos, name, "reachable nodes only", w.Inst.Pre.pathString(), "the list of nodes is not empty at the start")
		}
		if len(w.Exits) > 0 && empty == no && !t.rootsMarked(w.Exits[0], w.Inst.ID) {
			rep.bad(c, pos, name, "every node", w.Inst.Pre.pathString(), "the nodes given are not marked")
		}
		var slot *Term
		added := map[*Outcome]bool{}
		fine := true
		for _, b := range w.Backs {
			n := b.Loop.Next[acc]
			if n == w.Inst.Phi[acc] {
				continue
			}
			lp := t.loopPos(w)
			if n.Op != OAppend || len(n.Args) != 2 || n.Args[0] != w.Inst.Phi[acc] {
				rep.bad(c, lp, name, "exactly once", b.St.pathString(), "the list of nodes is not extended with one node but becomes %s", short(n.String(), 80))
				fine = false
				continue
			}
			added[b] = true
			k := selected(n.Args[1], selID)
			if k == nil {
				rep.bad(c, lp, name, "contents", b.St.pathString(), "the nodes in the list are not understood")
				fine = false
				continue
			}
			k = stripConv(k)
			if slot == nil {
				slot = k
			} else if slot != k {
				rep.bad(c, lp, name, "exactly once", b.St.pathString(), "the nodes in the list are not the ones of the slots")
				fine = false
				continue
			}
			var vals [3]*Term
			for i := range vals {
				a := stripConv(cb.Args[2+i])
				f := []*types.Var{c.levelF, c.lowF, c.highF}[i]
				if a.Op == OLoad {
					if l2, j2, s2 := part(a.Args[0]); l2 == list && j2 == j {
						vals[i] = selected(n.Args[1], s2)
						continue
					}
					if t.fieldOf(v.Backs[0], a, f, id, false) {
						// read when it is reported; it did not change
						vals[i] = r.loadMem(b.St, w.Inst.Head, t.m.elemAddr(r.loadMem(b.St, w.Inst.Head, u.FA(t.m.T, c.nodesF), c.nodesF.Type()), k, f), f.Type())
						if f == t.m.markF {
							vals[i] = nil
							rep.ok("contents read from the table")
							vals[i] = u.mk(OBin, "&^", 0, f.Type(), nil, r.loadMem(b.St, w.Inst.Head, t.m.elemAddr(r.loadMem(b.St, w.Inst.Head, u.FA(t.m.T, c.nodesF), c.nodesF.Type()), k, f), f.Type()), u.Int(t.m.mask))
						}
					}
				}
			}
			if vals[0] == nil || vals[1] == nil || vals[2] == nil {
				rep.bad(c, pos, name, "contents", b.St.pathString(), "what is reported is not what the list holds")
				fine = false
				continue
			}
			t.visit(b, lp, k, vals[0], vals[1], vals[2], empty == no)
		}
		if !fine {
			continue
		}
		if slot == nil {
			rep.bad(c, pos, name, "every node", pre.pathString(), "the list of nodes is always empty")
			continue
		}
		t.table(w, slot, empty == no, func(b *Outcome) bool { return added[b] })
	}
	// every successful path goes through one of these loops
	for _, o := range outs {
		if o.Kind != OutReturn || o.Res[0].Op != ONil {
			continue
		}
		n := 0
		for _, e := range o.St.events() {
			if e.Kind == EvLoopEnter && calls[e.Loop.ID] {
				n++
			}
		}
		switch n {
		case 0:
			rep.bad(c, c.retPos(o, t.fn), name, "every node", o.St.pathString(), "Allnodes may return without an error, and without a traversal")
		case 1:
			rep.ok("every successful call makes one traversal")
		default:
			rep.bad(c, c.retPos(o, t.fn), name, "exactly once", o.St.pathString(), "there may be two traversals")
		}
	}
}

func (c *Ctx) checkC10(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	fn := c.P.method("BDD", "Allnodes")
	if fn == nil {
		rep.bad(c, token.NoPos, "Allnodes", "anchor", "", "method Allnodes not found")
		return
	}
	t := &traversal{c: c, m: m, rep: rep, fn: fn, views: map[int64]*loopView{}}
	t.checkMarkers()
	r := c.unitRun(fn)
	r.Snap = true
	r.NoUnroll = true
	for f := range r.NoInline {
		if f != c.Makenode && f != c.Retnode && f != c.lowMaker() && !m.markers[f] {
			delete(r.NoInline, f)
		}
	}
	args := c.unitArgs(fn)
	for _, a := range args[1:] {
		switch a.T.Underlying().(type) {
		case *types.Signature:
			t.f = a
		case *types.Slice:
			t.roots = a
		}
	}
	if t.f == nil || t.roots == nil {
		rep.bad(c, fn.Pos(), fname(fn), "anchor", "", "parameters not understood")
		return
	}
	t.r = r
	outs := r.Exec(fn, args, func() *State {
		st := c.rawState()
		nodes := c.U.mk(OLoad, nil, 0, c.nodesF.Type(), nil, c.U.FA(c.T, c.nodesF))
		r.assumeLE(st, c.U.Int(2), r.length(st, nodes, nodes.T))
		return st
	})
	rep.site(fname(fn))
	rep.paths(c, r, outs)
	if rep.undecided(c, fname(fn), outs) {
		return
	}
	t.all = loopViews(outs)
	for _, v := range t.all {
		t.views[v.Inst.ID] = v
	}
	t.check(outs)
	c.tableResults(rep)
}

func init() {
	register("C10", "Allnodes calls the function once for each node that is marked, or in use, with its contents, stops at the first error, and leaves no mark", func(c *Ctx, rep *Report) {
		c.checkC10(rep)
	})
}
