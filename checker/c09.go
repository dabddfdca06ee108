package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// enumeration decides what Allsat gives to the function of the user. The recursive
// function is given a node n and a profile; it must call the function once for each
// path from n to True, with a profile that holds, for the variables from the level
// of n on, the values on that path and -1 for the variables skipped, and that is
// unchanged for the variables above.
type enumeration struct {
	c     *Ctx
	rep   *Report
	r     *Run
	fn    *ssa.Function
	node  *Term // id of the node
	prof  *Term
	f     *Term
	place *enumHead
	heads map[*ssa.Function]*enumHead
	clean bool // the profile is -1 from the level of the node on, before and after
	views map[int64]*loopView
}

type enumHead struct {
	node, prof, f int            // places of the arguments; -1 for the ones captured by a closure
	profs         map[*Term]bool // the profiles captured
}

// visit is a recursive call, or a call of the function of the user.
type visit struct {
	e    *Event
	node *Term // nil: call of the function of the user
	prof *Term
	ok   bool
}

func errResult(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() == 1 && types.Identical(res.At(0).Type(), types.Universe.Lookup("error").Type())
}

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isIntType(s.Elem())
}

// place of the arguments of a recursive function, from a call.
func (n *enumeration) placeOf(e *Event) *enumHead {
	h := &enumHead{-1, -1, -1, map[*Term]bool{}}
	for i, a := range e.Args {
		t := e.Fn.Params[i].Type()
		if _, ok := t.Underlying().(*types.Signature); ok && h.f < 0 && a == n.f {
			h.f = i
		}
		if isIntSlice(t) && h.prof < 0 {
			h.prof = i
		}
		if isIntType(t) && h.node < 0 {
			h.node = i
		}
	}
	if h.node < 0 || (h.f < 0 || h.prof < 0) && len(e.Fn.FreeVars) == 0 {
		return nil
	}
	return h
}

func (n *enumeration) bad(e *Event, o *Outcome, rule, f string, a ...interface{}) {
	pos := n.fn.Pos()
	if e != nil && e.Instr != nil && e.Instr.Pos().IsValid() {
		pos = e.Instr.Pos()
	} else if o != nil && o.Kind == OutReturn && e == nil {
		pos = n.c.retPos(o, n.fn)
	}
	p := ""
	if o != nil {
		p = o.St.pathString()
	}
	n.rep.bad(n.c, pos, fname(n.fn), rule, p, f, a...)
}

// entry of the profile that an address is.
func (n *enumeration) entry(a *Term) (base, idx *Term) {
	if a == nil || a.Op != OIA {
		return nil, nil
	}
	base, idx = a.Args[0], a.Args[1]
	for base.Op == OSlice && len(base.Args) == 3 {
		idx = n.c.U.Add(base.Args[1], idx)
		base = base.Args[0]
	}
	return base, stripConv(idx)
}

// copyOf: the value is the profile, or a copy of it.
func (n *enumeration) copyOf(o *Outcome, v *Term) bool {
	if v == n.prof {
		return true
	}
	if v.Op == OAppendS && v.Args[1] == n.prof {
		b := v.Args[0]
		return b.Op == ONil || n.r.decideEQ(o.St, n.r.length(o.St, b, n.prof.T), n.c.U.Int(0)) == yes
	}
	return false
}

// visits lists the calls of the path.
func (n *enumeration) visits(o *Outcome) (l []*visit, ok bool) {
	ok = true
	for _, e := range o.St.events() {
		switch {
		case e.Kind == EvHead && n.heads[e.Fn] != nil:
			h := n.heads[e.Fn]
			v := &visit{e: e, node: stripConv(e.Args[h.node]), prof: n.prof}
			if h.prof >= 0 {
				v.prof = e.Args[h.prof]
			} else if n.prof == nil {
				// the one captured, made on this path
				k := 0
				for p := range h.profs {
					if freshTable(o, p) {
						v.prof = p
						k++
					}
				}
				if k != 1 {
					n.bad(e, o, "values on the path", "the profile that the closure uses is not known")
					ok = false
				}
			}
			if h.f >= 0 && e.Args[h.f] != n.f {
				n.bad(e, o, "every assignment", "the function given to the recursive call is not the one of the user")
				ok = false
			}
			l = append(l, v)
		case e.Kind == EvHead && errResult(e.Fn):
			n.bad(e, o, "analysable", "the call of %s is not understood", fname(e.Fn))
			ok = false
		case e.Kind == EvCallback && e.Args[0] == n.f:
			l = append(l, &visit{e: e, prof: e.Args[1]})
		}
	}
	return
}

// stops: no call after one that fails, and its error is the result.
func (n *enumeration) stops(o *Outcome, l []*visit) {
	c, r := n.c, n.r
	for i, v := range l {
		failed := notTri(r.truth(o.St, r.eqTerm(v.e.Val, c.U.Nil())))
		switch {
		case failed == no:
			n.rep.ok("the enumeration goes on only after a success")
		case i < len(l)-1 || o.Kind == OutLoopBack:
			n.bad(v.e, o, "stops on error", "the enumeration may go on after an error")
		case o.Kind == OutReturn && o.Res[0] != v.e.Val:
			n.bad(v.e, o, "stops on error", "the error of the function given by the user is not the result")
		default:
			n.rep.ok("the enumeration stops at the first error, and returns it")
		}
	}
}

// at checks the profile at a call: the entry of the level of the node (when it is
// given) is val, and the entries up to the level of the successor are -1.
func (n *enumeration) at(o *Outcome, v *visit, since *Event, lv, val, until *Term) {
	r, u := n.r, n.c.U
	st := o.St
	lo := u.Int(0)
	if lv != nil {
		lo = u.AddK(lv, 1)
	}
	var cur *Term
	known := false
	cleared := false
	if n.clean && lv != nil {
		cleared = true
	}
	if r.decideLE(st, until, lo) == yes {
		cleared = true
	}
	started := since == nil
	for _, e := range st.events() {
		if e == v.e {
			break
		}
		if e == since {
			started = true
			continue
		}
		switch e.Kind {
		case EvLoopEnter:
			w := n.views[e.Loop.ID]
			if w == nil {
				continue
			}
			var idx *Term
			good := len(w.Backs) > 0
			wrote := false
			for _, b := range w.Backs {
				here := false
				for _, x := range w.body(b) {
					if x.Kind != EvStore {
						continue
					}
					base, i := n.entry(x.Addr)
					if base != n.prof {
						continue
					}
					wrote = true
					if !isIntConst(x.Val) || x.Val.K != -1 || idx != nil && idx != i {
						good = false
					}
					idx = i
					here = true
					if lv != nil && r.decideLE(b.St, lo, i) != yes {
						known = false // the entry of this level may change
					}
				}
				good = good && here
			}
			if wrote && good && started && w.covers(r, idx, lo, until, []*Outcome{o}) {
				cleared = true
			}
		case EvStore:
			base, i := n.entry(e.Addr)
			if base != n.prof || len(loopsAt(o, e)) > 0 {
				continue
			}
			if lv != nil && r.decideEQ(st, i, lv) == yes {
				cur, known = e.Val, true
			} else if !isIntConst(e.Val) || e.Val.K != -1 {
				cleared = false
				known = false
			}
		}
	}
	if lv != nil {
		if !known || cur == nil || r.decideEQ(st, cur, val) != yes {
			s := "?"
			if known && cur != nil {
				s = cur.String()
			}
			n.bad(v.e, o, "values on the path", "the value of the variable of the node is %s instead of %s in the profile", short(s, 40), val)
		} else {
			n.rep.ok("the variable of the node has the value of the branch")
		}
	}
	if !cleared {
		n.bad(v.e, o, "don't care", "the variables between the node and its successor may not be -1 in the profile")
	} else {
		n.rep.ok("the variables skipped are -1")
	}
}

// headPath checks one path of the recursive function.
func (n *enumeration) headPath(o *Outcome) {
	c, r, u, st := n.c, n.r, n.c.U, o.St
	if o.Kind == OutPanic {
		return // (C32, C23)
	}
	id := n.node
	lv := c.nodeField(r, st, c.levelF, id)
	terminal := r.decideLE(st, id, u.Int(1)) == yes
	if n.place.prof < 0 {
		// the profile is a variable captured by the closure
		n.prof = nil
		for _, e := range st.events() {
			if n.prof == nil && e.Kind == EvCallback && e.Args[0] == n.f {
				n.prof = e.Args[1]
			}
			if base, _ := n.entry(e.Addr); n.prof == nil && e.Kind == EvStore && base != nil && isIntSlice(base.T) {
				n.prof = base
			}
		}
		if n.prof != nil {
			n.place.profs[n.prof] = true
		}
	}
	// writes
	for _, e := range st.events() {
		if e.Kind != EvStore {
			continue
		}
		base, i := n.entry(e.Addr)
		if base != n.prof {
			continue
		}
		switch {
		case terminal:
			n.bad(e, o, "variables above", "the profile is changed for a constant")
		case n.clean && r.decideEQ(st, i, lv) != yes:
			n.bad(e, o, "variables above", "the profile is changed for a variable that may not be the one of the node")
		case r.decideLE(st, lv, i) != yes:
			n.bad(e, o, "variables above", "the profile is changed for a variable that may be above the node")
		default:
			n.rep.ok("the entries of the variables above are kept")
		}
	}
	l, ok := n.visits(o)
	if !ok {
		return
	}
	n.stops(o, l)
	if o.Kind == OutLoopBack {
		if len(l) > 0 {
			for _, v := range l {
				if ls := loopsAt(o, v.e); len(ls) > 0 {
					n.bad(v.e, o, "analysable", "the successors are enumerated in a loop that is not understood")
				}
			}
		}
		return
	}
	for _, v := range l {
		if v.node == nil && !n.copyOf(o, v.prof) || v.node != nil && v.prof != n.prof {
			n.bad(v.e, o, "values on the path", "the profile given is not the one of the node")
			return
		}
	}
	res := o.Res[0]
	isRes := func() bool { return res.Op == ONil || len(l) > 0 && l[len(l)-1].e.Val == res }
	if !isRes() {
		n.bad(nil, o, "stops on error", "the result is not the error of the function of the user: %s", short(res.String(), 80))
		return
	}
	switch {
	case r.decideEQ(st, id, u.Int(0)) == yes:
		for _, v := range l {
			n.bad(v.e, o, "every assignment", "the function may be called for False")
		}
		n.rep.ok("no assignment for False")
		return
	case r.decideEQ(st, id, u.Int(1)) == yes:
		if len(l) != 1 || l[0].node != nil {
			n.bad(nil, o, "every assignment", "the function is not called exactly once for True")
			return
		}
		n.rep.ok("one call for each path to True")
		return
	case r.decideLE(st, u.Int(2), id) != yes:
		n.bad(nil, o, "every assignment", "the constants may be treated as other nodes")
		return
	}
	low, high := c.nodeField(r, st, c.lowF, id), c.nodeField(r, st, c.highF, id)
	seen := map[int]bool{}
	var last *Event
	failed := false
	for _, v := range l {
		which := -1
		for i, s := range []*Term{low, high} {
			if seen[i] {
				continue
			}
			if v.node == s || v.node != nil && r.decideEQ(st, v.node, s) == yes {
				which = i
			} else if v.node == nil && r.decideEQ(st, s, u.Int(1)) == yes {
				which = i
			}
			if which == i {
				break
			}
		}
		if which < 0 {
			n.bad(v.e, o, "every assignment", "the call is not for a successor of the node, or is made twice for it")
			return
		}
		seen[which] = true
		s := low
		if which == 1 {
			s = high
		}
		n.at(o, v, last, lv, u.Int(int64(which)), c.nodeField(r, st, c.levelF, s))
		last = v.e
		failed = r.truth(st, r.eqTerm(v.e.Val, u.Nil())) == no
	}
	if failed || o.Kind != OutReturn {
		return
	}
	for i, s := range []*Term{low, high} {
		if !seen[i] && r.decideEQ(st, s, u.Int(0)) != yes {
			n.bad(nil, o, "every assignment", "a successor of the node may be left out: %s", short(s.String(), 60))
		} else {
			n.rep.ok("each successor is enumerated, unless it is False")
		}
	}
	if n.clean {
		var cur *Term
		for _, e := range st.events() {
			if e.Kind == EvStore {
				if base, _ := n.entry(e.Addr); base == n.prof {
					cur = e.Val
				}
			}
		}
		if cur != nil && !(isIntConst(cur) && cur.K == -1) {
			n.bad(nil, o, "don't care", "the profile is not restored")
		} else {
			n.rep.ok("the profile is restored")
		}
	}
}

// method checks one path of Allsat.
func (n *enumeration) methodPath(o *Outcome, arg *Term) {
	c, r, u, st := n.c, n.r, n.c.U, o.St
	if o.Kind == OutPanic {
		return
	}
	id := c.nodeVal(r, st, arg)
	n.prof = nil
	l, ok := n.visits(o)
	if !ok {
		return
	}
	n.stops(o, l)
	if o.Kind != OutReturn {
		if len(l) > 0 {
			n.bad(l[0].e, o, "analysable", "a call of the function in a loop is not understood")
		}
		return
	}
	res := o.Res[0]
	if len(l) == 0 {
		switch {
		case c.errorSet(o) && r.nonNil(st, res):
			n.rep.ok("an error for a node that is not valid")
		case res.Op == ONil && !c.errorSet(o) && r.decideEQ(st, id, u.Int(0)) == yes:
			n.rep.ok("no assignment for False")
		default:
			n.bad(nil, o, "every assignment", "the result is %s without an enumeration", short(res.String(), 60))
		}
		return
	}
	if len(l) > 1 {
		n.bad(l[1].e, o, "every assignment", "the enumeration may be made twice")
		return
	}
	v := l[0]
	switch {
	case c.errorSet(o):
		n.bad(v.e, o, "every assignment", "a node that is not valid is enumerated")
		return
	case res != v.e.Val && !(res.Op == ONil && r.truth(st, r.eqTerm(v.e.Val, u.Nil())) == yes):
		n.bad(nil, o, "stops on error", "the result is not the error of the function of the user: %s", short(res.String(), 80))
		return
	case v.node != nil && v.node != id && r.decideEQ(st, v.node, id) != yes, v.node == nil && r.decideEQ(st, id, u.Int(1)) != yes:
		n.bad(v.e, o, "every assignment", "the enumeration is not the one of the node given")
		return
	}
	n.prof = v.prof
	for n.prof.Op == OSlice && len(n.prof.Args) == 3 && isIntConst(n.prof.Args[1]) && n.prof.Args[1].K == 0 && r.decideEQ(st, n.prof.Args[2], r.length(st, n.prof.Args[0], n.prof.T)) == yes {
		n.prof = n.prof.Args[0]
	}
	if n.appended(o) {
		n.rep.ok("one entry per variable")
		n.rep.ok("the variables skipped are -1")
		return
	}
	if r.decideEQ(st, r.length(st, n.prof, v.prof.T), c.V) != yes {
		n.bad(v.e, o, "one entry per variable", "the length of the profile is %s", short(r.length(st, n.prof, v.prof.T).String(), 60))
	} else {
		n.rep.ok("one entry per variable")
	}
	if !freshTable(o, n.prof) {
		n.bad(v.e, o, "one entry per variable", "the profile is not made for this call")
		return
	}
	until := c.V
	if !n.clean {
		until = c.nodeField(r, st, c.levelF, id)
		if r.decideEQ(st, id, u.Int(1)) == yes {
			until = c.V
		}
	}
	n.at(o, v, nil, nil, nil, until)
}

// appended: the profile is a list to which -1 was added once per variable.
func (n *enumeration) appended(o *Outcome) bool {
	c, r, st := n.c, n.r, o.St
	for _, w := range n.views {
		for p, ph := range w.Inst.Phi {
			if ph != n.prof {
				continue
			}
			init := w.Inst.Init[p]
			if init.Op != ONil && r.decideEQ(w.Inst.Pre, r.length(w.Inst.Pre, init, p.Type()), c.U.Int(0)) != yes {
				return false
			}
			for _, b := range w.Backs {
				x := b.Loop.Next[p]
				if x.Op != OAppend || len(x.Args) != 2 || x.Args[0] != ph || !isIntConst(x.Args[1]) || x.Args[1].K != -1 {
					return false
				}
			}
			// no other writes
			for _, e := range st.events() {
				if base, _ := n.entry(e.Addr); e.Kind == EvStore && base != nil && base == n.prof {
					return false
				}
			}
			// as many turns as variables
			for q, cnt := range w.Inst.Phi {
				if !isIntType(q.Type()) {
					continue
				}
				k, ok := w.step(r, q)
				d := c.U.Sub(cnt, w.Inst.Init[q])
				if !ok || k != 1 || r.decideLE(st, c.V, d) != yes {
					continue
				}
				for _, b := range w.Backs {
					ok = ok && r.decideLE(b.St, c.U.AddK(d, 1), c.V) == yes
				}
				if ok {
					return len(w.Backs) > 0
				}
			}
		}
	}
	return false
}

func (c *Ctx) checkC09(rep *Report) {
	fn := c.P.method("BDD", "Allsat")
	if fn == nil {
		rep.bad(c, token.NoPos, "Allsat", "anchor", "", "method Allsat not found")
		return
	}
	if err := c.opsFix(); err != nil {
		rep.bad(c, token.NoPos, "Allsat", "analysable", "", "%v", err)
		return
	}
	outs, r, err := c.method("Allsat")
	if err != nil {
		rep.bad(c, fn.Pos(), "Allsat", "analysable", "", "%v", err)
		return
	}
	rep.site(fname(fn))
	rep.paths(c, r, outs)
	if rep.undecided(c, fname(fn), outs) {
		return
	}
	var arg, f *Term
	for _, a := range c.methodArgs(fn)[1:] {
		if types.Identical(a.T, c.NodeTy) {
			arg = a
		} else if _, ok := a.T.Underlying().(*types.Signature); ok {
			f = a
		}
	}
	if arg == nil || f == nil {
		rep.bad(c, fn.Pos(), fname(fn), "anchor", "", "the parameters of Allsat are not understood")
		return
	}
	// the recursive functions
	try := func(clean bool) *Report {
		sub := newReport(rep.Prop, rep.Config)
		n := &enumeration{c: c, rep: sub, r: r, fn: fn, f: f, heads: map[*ssa.Function]*enumHead{}, clean: clean, views: map[int64]*loopView{}}
		var todo []*ssa.Function
		find := func(n *enumeration, outs []*Outcome) {
			for _, o := range outs {
				for _, e := range o.St.events() {
					if e.Kind == EvHead && errResult(e.Fn) && n.heads[e.Fn] == nil {
						if h := n.placeOf(e); h != nil {
							n.heads[e.Fn] = h
							todo = append(todo, e.Fn)
						}
					}
				}
			}
		}
		find(n, outs)
		done := map[*ssa.Function]bool{}
		for len(todo) > 0 {
			g := todo[0]
			todo = todo[1:]
			if done[g] {
				continue
			}
			done[g] = true
			h := c.head(g)
			sub.site(fname(g))
			sub.paths(c, h.Run, h.Outs)
			if sub.undecided(c, fname(g), h.Outs) {
				continue
			}
			pl := n.heads[g]
			m := &enumeration{c: c, rep: sub, r: h.Run, fn: g, f: f, place: pl, node: h.Params[pl.node], heads: n.heads, clean: clean, views: map[int64]*loopView{}}
			if pl.f >= 0 {
				m.f = h.Params[pl.f]
			}
			if pl.prof >= 0 {
				m.prof = h.Params[pl.prof]
			}
			find(m, h.Outs)
			for _, v := range loopViews(h.Outs) {
				m.views[v.Inst.ID] = v
			}
			for _, o := range h.Outs {
				m.headPath(o)
			}
		}
		for _, v := range loopViews(outs) {
			n.views[v.Inst.ID] = v
		}
		for _, o := range outs {
			n.methodPath(o, arg)
		}
		return sub
	}
	sub := try(false)
	if len(sub.Findings) > 0 {
		if s := try(true); len(s.Findings) == 0 {
			sub = s
		}
	}
	rep.Findings = append(rep.Findings, sub.Findings...)
	for k, n := range sub.Obl {
		rep.okn(k, n)
	}
	for k := range sub.Funcs {
		rep.Funcs[k] = true
	}
	for k := range sub.Sites {
		rep.site(k)
	}
	rep.Paths += sub.Paths
}

func init() {
	register("C09", "on every path of the recursive enumeration each successor other than False is enumerated once, with the profile holding the value of the branch at the level of the node and -1 at the levels skipped (a loop that is shown to cover them), True gives one call of the function, entries above are kept, and the first error is returned at once; Allsat starts with a new profile of -1", func(c *Ctx, rep *Report) {
		c.checkC09(rep)
	})
}
