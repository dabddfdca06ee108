package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cubes decides how sets of variables and cubes are built and read.
type cubes struct {
	c   *Ctx
	rep *Report
	fn  *ssa.Function
	r   *Run
	vs  *Term // slice of variables given by the user
	pol *Term // polarity of the literals, nil for sets
}

// derived: the slice holds exactly the elements of src, in another order perhaps,
// when the event was reached; order is 1 when it is sorted in increasing order, -1
// in decreasing order.
func (k *cubes) derived(o *Outcome, v, src *Term) (ok bool, order int) {
	c := k.c
	ok = v == src
	for _, e := range o.St.events() {
		switch e.Kind {
		case EvAppend:
			if e.Val == v && len(e.Args) == 2 && e.Args[1] == src {
				if e.Args[0].Op == ONil || k.r.decideEQ(o.St, k.r.length(o.St, e.Args[0], v.T), c.U.Int(0)) == yes {
					ok = true
				}
			}
		case EvCall:
			switch {
			case e.Name == "copy" && e.Args[0] == v:
				// all of it
				ok = e.Args[1] == src && k.r.decideEQ(o.St, k.r.length(o.St, v, src.T), k.r.length(o.St, src, src.T)) == yes
				order = 0
			case strings.HasPrefix(e.Name, "slices.Clone") && e.Val == v && e.Args[0] == src:
				ok = true
			case (e.Name == "sort.Ints" || e.Name == "sort.IntSlice.Sort" || strings.HasPrefix(e.Name, "slices.Sort[") || e.Name == "slices.Sort") && e.Args[0] == v:
				order = 1
			case e.Name == "sort.Sort" && stripConv(stripIface(e.Args[0])) == v && asIntSlice(e.Instr):
				order = 1
			default:
				for _, a := range e.Args {
					if a != nil && v != src && stripConv(stripIface(a)) == v && e.Name != "copy" {
						order = 0
						ok = false
					}
				}
			}
		case EvStore:
			if a := e.Addr; a.Op == OIA && v != src && partOf(a, v) {
				ok = false
			}
		}
	}
	return
}

// asIntSlice: the argument of the call is a sort.IntSlice.
func asIntSlice(i ssa.Instruction) bool {
	call, ok := i.(ssa.CallInstruction)
	if !ok || len(call.Common().Args) == 0 {
		return false
	}
	m, ok := call.Common().Args[0].(*ssa.MakeInterface)
	if !ok {
		return false
	}
	n, ok := m.X.Type().(*types.Named)
	return ok && n.Obj().Name() == "IntSlice" && n.Obj().Pkg().Path() == "sort"
}

// element: the term is an element of a slice of integers.
func element(t *Term) (sl, idx *Term) {
	t = stripConv(t)
	if t.Op == OLoad && t.Args[0].Op == OIA {
		return t.Args[0].Args[0], t.Args[0].Args[1]
	}
	return nil, nil
}

// invalid: an element of the list is not a variable, or it is not before the
// variables of acc, on this path.
func (k *cubes) invalid(o *Outcome, acc *Term) bool {
	c, r := k.c, k.r
	for _, t := range c.U.all {
		if t.Op != OLoad || !isIntType(t.T) {
			continue
		}
		sl, _ := element(t)
		if sl == nil || !types.Identical(sl.T, k.vs.T) {
			continue
		}
		if ok, _ := k.derived(o, sl, k.vs); !ok {
			continue
		}
		if r.decideLE(o.St, t, c.U.Int(-1)) == yes || r.decideLE(o.St, c.V, t) == yes {
			return true
		}
		if acc != nil && r.decideLE(o.St, c.U.Int(0), acc) == yes && r.decideLE(o.St, c.lvl(acc), t) == yes {
			// for sets, a variable that is listed twice is fine
			if k.pol != nil || r.decideEQ(o.St, c.lvl(acc), t) == no || r.decideLE(o.St, acc, c.U.Int(1)) == yes {
				return true
			}
		}
	}
	return false
}

// mismatch: the lengths do not match on this path.
func (k *cubes) mismatch(o *Outcome) bool {
	if k.pol == nil {
		return false
	}
	c, r := k.c, k.r
	lv, lp := r.length(o.St, k.vs, k.vs.T), r.length(o.St, k.pol, k.pol.T)
	switch r.decideEQ(o.St, lv, c.U.Int(0)) {
	case yes:
		return r.decideEQ(o.St, lp, c.V) == no
	case no:
		return r.decideEQ(o.St, lv, lp) == no
	}
	return false
}

// polarity of the literal idx on this path.
func (k *cubes) polarity(o *Outcome, idx *Term) (pos, known bool) {
	for _, t := range k.c.U.all {
		if t.Op != OLoad || t.Args[0].Op != OIA || t.Args[0].Args[0] != k.pol {
			continue
		}
		if k.r.decideEQ(o.St, t.Args[0].Args[1], idx) != yes {
			continue
		}
		switch k.r.truth(o.St, t) {
		case yes:
			return true, true
		case no:
			return false, true
		}
	}
	return
}

func (k *cubes) check(outs []*Outcome) {
	c, r, rep, u := k.c, k.r, k.rep, k.c.U
	name := fname(k.fn)
	failed := func(x *Term) bool {
		if k.pol == nil {
			return x == c.Zero
		}
		return x.Op == ONil
	}
	failure := "False"
	if k.pol != nil {
		failure = "nil"
	}
	covered := map[*Outcome]bool{}
	loops := 0
	for _, v := range loopViews(outs) {
		// the result that is built
		var acc *ssa.Phi
		builds := false
		for _, o := range append(append([]*Outcome{}, v.Backs...), v.Exits...) {
			for _, e := range v.body(o) {
				if e.Kind != EvMk || len(loopsAt(o, e)) == 0 || loopsAt(o, e)[len(loopsAt(o, e))-1].ID != v.Inst.ID {
					continue
				}
				builds = true
				for p, ph := range v.Inst.Phi {
					if len(e.Args) == 3 && (e.Args[1] == ph || e.Args[2] == ph) {
						acc = p
					}
				}
			}
		}
		if !builds {
			continue
		}
		loops++
		if acc == nil {
			rep.bad(c, k.fn.Pos(), name, "cube", "", "the nodes are not built one on top of the other")
			return
		}
		ph := v.Inst.Phi[acc]
		if init := v.Inst.Init[acc]; !isIntConst(init) || init.K != 1 {
			rep.bad(c, k.fn.Pos(), name, "cube", v.Inst.Pre.pathString(), "the result is not built from True but from %s", init)
			continue
		}
		rep.ok("the result is built from True")
		// one turn
		var elem, idx *Term // the variable added, and its index in the list
		var list *Term
		same := func(o *Outcome, e *Event, lvl *Term) bool {
			l := stripConv(lvl)
			sl, ix := element(l)
			if sl == nil {
				ix = l
			}
			if elem == nil {
				elem, idx, list = l, ix, sl
				return true
			}
			return list == sl && idx == ix
		}
		direction := 0
		for _, o := range v.Backs {
			pth := o.St.pathString()
			var mk []*Event
			for _, e := range v.body(o) {
				if e.Kind == EvMk {
					mk = append(mk, e)
				}
			}
			next := o.Loop.Next[acc]
			pos := v.Inst.Loop.Head.Instrs[0].Pos()
			if len(mk) > 0 {
				pos = mk[0].Instr.Pos()
			}
			bad := func(rule, f string, a ...interface{}) { rep.bad(c, pos, name, rule, pth, f, a...) }
			switch {
			case len(mk) > 1:
				bad("cube", "more than one node is built for a variable")
				continue
			case len(mk) == 0:
				if next != ph {
					bad("cube", "the result is replaced by %s", short(next.String(), 60))
					continue
				}
				if r.decideLE(o.St, ph, u.Int(-1)) == yes {
					rep.ok("nothing is added to a failed result")
					continue
				}
				// the variable is there already
				ok := false
				if k.pol == nil {
					for _, t := range u.all {
						if t.Op == OLoad && isIntType(t.T) {
							if sl, ix := element(t); sl != nil && (list == nil || sl == list && ix == idx) && types.Identical(sl.T, k.vs.T) && r.decideEQ(o.St, t, c.lvl(ph)) == yes && r.decideLE(o.St, u.Int(2), ph) == yes {
								if same(o, nil, t) {
									ok = true
								}
							}
						}
					}
				}
				if !ok {
					bad("cube", "a variable of the list may be left out")
				} else {
					rep.ok("a variable is only left out when it is already in the set")
				}
				continue
			}
			e := mk[0]
			if next != e.Val && !(isIntConst(next) && next.K < 0 && r.decideLE(o.St, e.Val, u.Int(-1)) == yes) {
				bad("cube", "the node that is built is not the new result")
				continue
			}
			if !same(o, e, e.Args[0]) {
				bad("cube", "the level of the new node is %s", short(e.Args[0].String(), 60))
				continue
			}
			if k.pol == nil {
				if !isIntConst(e.Args[1]) || e.Args[1].K != 0 || e.Args[2] != ph {
					bad("cube", "the node that is built is not the conjunction of the variable and of the set")
					continue
				}
				rep.ok("the new result is the conjunction of a variable and of the result")
			} else {
				p, known := k.polarity(o, idx)
				switch {
				case !known:
					bad("cube", "the literal that is added does not depend on its polarity")
					continue
				case p && !(isIntConst(e.Args[1]) && e.Args[1].K == 0 && e.Args[2] == ph), !p && !(isIntConst(e.Args[2]) && e.Args[2].K == 0 && e.Args[1] == ph):
					bad("cube", "the node that is built is not the conjunction of the literal and of the cube")
					continue
				}
				rep.ok("the new result is the conjunction of a literal and of the result")
			}
			if r.decideLE(o.St, ph, u.Int(-1)) == yes {
				continue
			}
			if sl, _ := element(e.Args[0]); sl != nil {
				l := stripConv(e.Args[0])
				if r.decideLE(o.St, u.Int(0), l) != yes || r.decideLE(o.St, u.AddK(l, 1), c.lvl(ph)) != yes && r.decideLE(o.St, u.AddK(l, 1), c.V) != yes {
					bad("unknown variables", "a variable out of [0..Varnum) may be accepted")
				} else {
					rep.ok("only variables in range are accepted")
				}
			}
		}
		if elem == nil {
			rep.bad(c, k.fn.Pos(), name, "cube", v.Inst.Pre.pathString(), "no variable is added to the result")
			continue
		}
		for p := range v.Inst.Phi {
			if _, s, ok := v.position(r, idx, p); ok {
				direction = int(s)
			}
		}
		// the exits
		var ends []*Outcome
		for _, o := range v.Exits {
			covered[o] = true
			if o.Kind != OutReturn {
				continue
			}
			pth := o.St.pathString()
			bad := func(rule, f string, a ...interface{}) {
				rep.bad(c, c.retPos(o, k.fn), name, rule, pth, f, a...)
			}
			x := o.Res[0]
			if c.errorTouched(o) {
				switch {
				case !failed(x):
					bad("refused", "the result is not %s after an error", failure)
				case !c.errorSet(o):
					bad("refused", "no error status is set")
				case !k.invalid(o, ph) && !k.mismatch(o):
					bad("refused", "a valid list may be refused")
				default:
					rep.ok("a list is refused only if it is not valid, with an error and " + failure)
				}
				continue
			}
			broken := r.decideLE(o.St, ph, u.Int(-1)) == yes
			for _, e := range v.body(o) {
				if e.Kind == EvMk && e.Val != nil && r.decideLE(o.St, e.Val, u.Int(-1)) == yes {
					broken = true
				}
			}
			if !broken {
				ends = append(ends, o)
			}
			ret := false
			for _, e := range v.after(o) {
				ret = ret || e.Kind == EvRet && len(e.Args) == 1 && e.Args[0] == ph
			}
			val := u.Int(-1)
			if x.Op != ONil {
				val = c.content(r, o, x)
			}
			switch {
			case x.Op == ONil && (ret || broken):
				rep.ok("the result is the last node built")
			case val == ph || x.Op != ONil && r.decideEQ(o.St, val, ph) == yes:
				rep.ok("the result is the last node built")
			default:
				bad("cube", "the result is not the last node built but %s", short(x.String(), 60))
			}
		}
		// all the variables
		if list == nil {
			// all the variables of the BDD
			if k.pol == nil {
				rep.bad(c, k.fn.Pos(), name, "cube", v.Inst.Pre.pathString(), "the variables added are not the ones of the list")
				continue
			}
			if r.decideEQ(v.Inst.Pre, r.length(v.Inst.Pre, k.vs, k.vs.T), u.Int(0)) != yes || r.decideEQ(v.Inst.Pre, r.length(v.Inst.Pre, k.pol, k.pol.T), c.V) != yes {
				rep.bad(c, k.fn.Pos(), name, "lengths", v.Inst.Pre.pathString(), "a cube over all variables is built although a list is given, or polarity does not have one element for each variable")
				continue
			}
			rep.ok("lengths match")
			if !v.covers(r, idx, u.Int(0), c.V, ends) {
				rep.bad(c, k.fn.Pos(), name, "all variables", v.Inst.Pre.pathString(), "the loop may leave out a literal")
			} else {
				rep.ok("all the literals are added")
			}
			continue
		}
		for _, o := range append(append([]*Outcome{}, ends...), v.Backs...) {
			ok, order := k.derived(o, list, k.vs)
			switch {
			case !ok:
				rep.bad(c, k.fn.Pos(), name, "cube", o.St.pathString(), "the variables added are not the ones of the list given (%s)", short(list.String(), 60))
			case k.pol == nil && order*direction >= 0:
				rep.bad(c, k.fn.Pos(), name, "any order", o.St.pathString(), "the variables are not added from the last to the first one, so a valid list is refused")
			case k.pol != nil && (list != k.vs || direction != -1):
				rep.bad(c, k.fn.Pos(), name, "increasing order", o.St.pathString(), "the literals are not added from the last to the first one")
			default:
				rep.ok("the variables are the ones of the list, from the last to the first one")
			}
		}
		pre := v.Inst.Pre
		n := r.length(pre, k.vs, k.vs.T)
		if k.pol != nil {
			if r.decideEQ(pre, n, r.length(pre, k.pol, k.pol.T)) != yes || r.decideEQ(pre, n, u.Int(0)) != no {
				rep.bad(c, k.fn.Pos(), name, "lengths", pre.pathString(), "a cube is built although the lengths of the lists are different, or there is no list of variables")
			} else {
				rep.ok("lengths match")
			}
		} else {
			n = r.length(pre, list, list.T)
		}
		if !v.covers(r, idx, u.Int(0), n, ends) {
			rep.bad(c, k.fn.Pos(), name, "all variables", pre.pathString(), "the loop may leave out a variable")
		} else {
			rep.ok("all the variables are added")
		}
	}
	if loops == 0 {
		rep.bad(c, k.fn.Pos(), name, "anchor", "", "no loop builds the result")
	}
	for _, o := range outs {
		if o.Kind == OutPanic {
			rep.bad(c, o.Pos, name, "no panic", o.St.pathString(), "%s may panic: %s", k.fn.Name(), o.Why)
		}
		if o.Kind != OutReturn || covered[o] {
			continue
		}
		x := o.Res[0]
		pth := o.St.pathString()
		bad := func(rule, f string, a ...interface{}) { rep.bad(c, c.retPos(o, k.fn), name, rule, pth, f, a...) }
		switch {
		case c.errorTouched(o):
			switch {
			case !failed(x):
				bad("refused", "the result is not %s after an error", failure)
			case !c.errorSet(o):
				bad("refused", "no error status is set")
			case !k.invalid(o, nil) && !k.mismatch(o):
				bad("refused", "a valid list may be refused")
			default:
				rep.ok("a list is refused only if it is not valid, with an error and " + failure)
			}
		case x == c.One && k.pol == nil && r.decideEQ(o.St, r.length(o.St, k.vs, k.vs.T), u.Int(0)) == yes:
			rep.ok("the set of no variables is True")
		default:
			bad("cube", "a result that is not built from the list is returned: %s", short(x.String(), 60))
		}
	}
}

// scanset: the levels of the nodes on the high branches, from the root.
func (c *Ctx) scanset(rep *Report) {
	outs, r, err := c.method("Scanset")
	fn := c.P.method("BDD", "Scanset")
	if err != nil {
		rep.bad(c, token.NoPos, "Scanset", "anchor", "", "%v", err)
		return
	}
	u := c.U
	name := fname(fn)
	rep.site(name)
	rep.paths(c, r, outs)
	if rep.undecided(c, name, outs) {
		return
	}
	args := c.methodArgs(fn)
	if len(args) != 2 {
		rep.bad(c, fn.Pos(), name, "anchor", "", "parameters not understood")
		return
	}
	n := c.nodeVal(r, nil, args[1])
	covered := map[*Outcome]bool{}
	loops := 0
	for _, v := range loopViews(outs) {
		if len(v.Backs) == 0 {
			continue
		}
		var acc, cur *ssa.Phi
		for p := range v.Inst.Phi {
			if isIntType(p.Type()) && v.Inst.Init[p] == n {
				cur = p
			} else if s, ok := p.Type().Underlying().(*types.Slice); ok && isIntType(s.Elem()) {
				acc = p
			}
		}
		if acc == nil || cur == nil {
			continue
		}
		loops++
		pa, pc := v.Inst.Phi[acc], v.Inst.Phi[cur]
		if i := v.Inst.Init[acc]; i.Op != ONil && r.decideEQ(v.Inst.Pre, r.length(v.Inst.Pre, i, i.T), u.Int(0)) != yes {
			rep.bad(c, fn.Pos(), name, "read", v.Inst.Pre.pathString(), "the list of variables is not empty at the start")
		}
		for _, o := range v.Backs {
			pth := o.St.pathString()
			pos := v.Inst.Loop.Head.Instrs[0].Pos()
			na, nc := o.Loop.Next[acc], o.Loop.Next[cur]
			if r.decideLE(o.St, u.Int(2), pc) != yes {
				rep.bad(c, pos, name, "read", pth, "the level of a constant may be listed")
				continue
			}
			if na.Op != OAppend || len(na.Args) != 2 || na.Args[0] != pa || r.decideEQ(o.St, stripConv(na.Args[1]), c.lvl(pc)) != yes {
				rep.bad(c, pos, name, "read", pth, "the list is not extended with the level of the node but becomes %s", short(na.String(), 60))
				continue
			}
			if nc != c.high(pc) && r.decideEQ(o.St, nc, c.high(pc)) != yes {
				rep.bad(c, pos, name, "read", pth, "the next node is not the high branch but %s", short(nc.String(), 60))
				continue
			}
			rep.ok("each turn lists the level of a node and goes on with its high branch")
		}
		for _, o := range v.Exits {
			covered[o] = true
			if o.Kind != OutReturn {
				continue
			}
			pth := o.St.pathString()
			if o.Res[0] != pa || r.decideLE(o.St, pc, u.Int(1)) != yes {
				rep.bad(c, c.retPos(o, fn), name, "read", pth, "the list may be returned before the end of the branch, or something else is returned")
				continue
			}
			rep.ok("the list is returned at the end of the branch")
		}
	}
	if loops == 0 {
		rep.bad(c, fn.Pos(), name, "anchor", "", "no loop follows the high branches")
	}
	for _, o := range outs {
		if o.Kind == OutPanic {
			rep.bad(c, o.Pos, name, "no panic", o.St.pathString(), "Scanset may panic: %s", o.Why)
		}
		if o.Kind != OutReturn || covered[o] {
			continue
		}
		x := o.Res[0]
		empty := x.Op == ONil || r.decideEQ(o.St, r.length(o.St, x, x.T), u.Int(0)) == yes
		bad := r.truth(o.St, r.eqTerm(args[1], u.Nil())) == yes || r.decideLE(o.St, n, u.Int(1)) == yes || c.errorSet(o)
		if !empty || !bad {
			rep.bad(c, c.retPos(o, fn), name, "read", o.St.pathString(), "the list that is returned is not the one of the node (%s)", short(x.String(), 60))
		} else {
			rep.ok("the list is empty only for constants and invalid nodes")
		}
	}
}

func (c *Ctx) checkC11(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	for _, m := range []string{"Makeset", "Makecube"} {
		outs, r, err := c.method(m)
		fn := c.P.method("BDD", m)
		if err != nil {
			rep.bad(c, token.NoPos, m, "anchor", "", "%v", err)
			continue
		}
		rep.site(fname(fn))
		rep.paths(c, r, outs)
		if rep.undecided(c, fname(fn), outs) {
			continue
		}
		k := &cubes{c: c, rep: rep, fn: fn, r: r}
		for _, a := range c.methodArgs(fn)[1:] {
			s, ok := a.T.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if isIntType(s.Elem()) {
				k.vs = a
			} else {
				k.pol = a
			}
		}
		if k.vs == nil || (k.pol != nil) != (m == "Makecube") {
			rep.bad(c, fn.Pos(), fname(fn), "anchor", "", "parameters not understood")
			continue
		}
		k.check(outs)
	}
	c.scanset(rep)
}

func init() {
	register("C11", "Makeset and Makecube build the conjunction of the variables of the list, one node for each, or refuse it; Scanset lists the levels of a branch", func(c *Ctx, rep *Report) {
		c.checkC11(rep)
	})
}
