package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const ttAnd = 1 << 3
const ttImp = 1<<0 | 1<<1 | 1<<3
const ttEqv = 1<<0 | 1<<3

// assumeValidNow restricts a path to operands that are valid when it ends too:
// nodes in use stay in use (C14), and the table does not shrink.
func (c *Ctx) assumeValidNow(r *Run, st *State, nodes []*Term) bool {
	if !c.assumeInUse(r, st, nodes) {
		return false
	}
	for _, mem := range c.memories(st) {
		sl := r.loadMem(st, mem, c.U.FA(c.T, c.nodesF), c.nodesF.Type())
		for _, n := range nodes {
			r.assumeLE(st, c.U.AddK(c.nodeVal(r, st, n), 1), r.length(st, sl, c.nodesF.Type()))
			if st.dead {
				return false
			}
		}
	}
	return true
}

// memories of a path: at each call that is not followed, and at the end.
func (c *Ctx) memories(st *State) []map[Class]*classMem {
	l := []map[Class]*classMem{st.mem}
	for e := st.ev; e != nil; e = e.prev {
		if (e.ev.Kind == EvHead || e.ev.Kind == EvMk) && e.ev.Mem != nil {
			l = append(l, e.ev.Mem)
		}
	}
	return l
}

// binary: the methods that are instances of others.
var derived = []struct {
	name string
	tt   int
	ex   bool
}{
	{"Imp", ttImp, false},
	{"Equiv", ttEqv, false},
	{"AndExist", ttAnd, true},
}

func (c *Ctx) checkDerived(rep *Report) {
	for _, dm := range derived {
		outs, r0, err := c.method(dm.name)
		fn := c.P.method("BDD", dm.name)
		if err != nil {
			rep.bad(c, token.NoPos, dm.name, "anchor", "", "%v", err)
			continue
		}
		name := fname(fn)
		rep.site(name)
		rep.paths(c, r0, outs)
		rep.undecided(c, name, outs)
		nodes, _ := c.splitArgs(fn)
		want := 2
		if dm.ex {
			want = 3
		}
		if len(nodes) != want {
			rep.bad(c, fn.Pos(), name, "anchor", "", "parameters not understood")
			continue
		}
		good := 0
		for _, o := range outs {
			if o.Kind != OutReturn && o.Kind != OutPanic {
				continue
			}
			r := c.newRun()
			st := o.St.clone()
			if !c.assumeValidNow(r, st, nodes) {
				continue
			}
			if o.Kind == OutPanic {
				rep.bad(c, o.Pos, name, "no panic", o.St.pathString(), "%s may panic on valid nodes: %s", dm.name, o.Why)
				continue
			}
			if o.Res[0].Op == ONil {
				if c.stepFailed(r, st) {
					rep.ok("failures give nil")
				} else {
					rep.bad(c, c.retPos(o, fn), name, "result", o.St.pathString(), "nil is returned for valid operands")
				}
				continue
			}
			a := c.newAPIDen(r, st, nodes)
			if dm.ex {
				a.vs = c.nodeVal(r, st, nodes[2])
			}
			x, y := a.node(c.nodeVal(r, st, nodes[0])), a.node(c.nodeVal(r, st, nodes[1]))
			w := exAp(dm.tt, x, y)
			if dm.ex {
				w = a.quantified(w)
			}
			got := a.value(o.Res[0])
			if a.err != "" {
				rep.bad(c, c.retPos(o, fn), name, "result", o.St.pathString(), "%s", a.err)
				continue
			}
			if ok, why := a.d.same(got, w); !ok {
				rep.bad(c, c.retPos(o, fn), name, "result", o.St.pathString(), "the result is not the one of the operation: %s", why)
				continue
			}
			good++
			rep.ok("result of the method = specification")
		}
		if good == 0 {
			rep.bad(c, fn.Pos(), name, "result", "", "no path of %s returns a result for valid nodes", dm.name)
		}
	}
}

// folding gives a meaning to the operations on lists of nodes: fold(i, j) is the
// conjunction (or disjunction) of the elements from i to j-1.
type folding struct {
	c    *Ctx
	fn   *ssa.Function
	tt   int
	unit int // value for the empty list
	list *Term
	r    *Run
	st   *State
	a    *apiDen
	acc  map[*Term][2]*Term // terms known to be fold(i, j)
	args []*Term            // arguments of the function
	pos  int                // position of the list
	rep  *Report
}

func (f *folding) ge(a, b *Term) bool { return f.r.decideLE(f.st, b, a) == yes }
func (f *folding) eq(a, b *Term) bool {
	return a == b || f.r.decideEQ(f.st, a, b) == yes
}

// elem is the meaning of the element at i.
func (f *folding) elem(i *Term) *Ex {
	for t, n := range f.a.op {
		if n.Op == OLoad && n.Args[0].Op == OIA && rootSlice(n.Args[0].Args[0]) == f.list {
			if x := f.index(n.Args[0]); x != nil && f.eq(x, i) {
				return f.a.node(t)
			}
		}
	}
	return nil
}

// index of an element, from the start of the list.
func (f *folding) index(a *Term) *Term {
	ix := stripConv(a.Args[1])
	for s := a.Args[0]; s.Op == OSlice; s = s.Args[0] {
		ix = f.c.U.Add(ix, s.Args[1])
	}
	return ix
}

// fold(i, j), opened at one of its ends: "first" or "last".
func (f *folding) fold(i, j *Term, open string) *Ex {
	u := f.c.U
	i, j = f.clip(i), f.clip(j)
	if f.eq(i, j) {
		if f.unit == 1 {
			return ex1
		}
		return ex0
	}
	d := u.Sub(j, i)
	if lo, hi := f.r.bounds(f.st, d); lo == 1 && hi == 1 {
		if x := f.elem(i); x != nil {
			return x
		}
	}
	switch open {
	case "first":
		if x := f.elem(i); x != nil && f.ge(j, u.AddK(i, 1)) {
			return exAp(f.tt, x, f.fold(u.AddK(i, 1), j, ""))
		}
	case "last":
		if x := f.elem(u.AddK(j, -1)); x != nil && f.ge(u.AddK(j, -1), i) {
			return exAp(f.tt, f.fold(i, u.AddK(j, -1), ""), x)
		}
	}
	return exAtom("fold:" + f.name(i) + ":" + f.name(j))
}

// clip: the elements up to an index were all read, so it is not outside of the
// list.
func (f *folding) clip(i *Term) *Term {
	n := f.r.length(f.st, f.list, f.list.T)
	if f.ge(i, n) {
		return n
	}
	if f.ge(f.c.U.Int(0), i) {
		return f.c.U.Int(0)
	}
	return i
}

// name of an index, the same for equal ones.
func (f *folding) name(t *Term) string {
	if lo, hi := f.r.bounds(f.st, t); lo == hi {
		return f.c.U.Int(lo).String()
	}
	return t.String()
}

// register gives its meaning to the accumulator t.
func (f *folding) register(t, i, j *Term) {
	f.acc[t] = [2]*Term{i, j}
}

// value of a node result.
func (f *folding) value(t *Term) *Ex {
	return f.subst(f.a.value(t))
}

// subst replaces the operands that are folds.
func (f *folding) subst(e *Ex) *Ex {
	if e == nil {
		return e
	}
	if e.op == "atom" {
		for t, ij := range f.acc {
			if e.name == "p:"+t.String() {
				return f.fold(ij[0], ij[1], "")
			}
		}
		return e
	}
	x := *e
	x.a = nil
	for _, y := range e.a {
		x.a = append(x.a, f.subst(y))
	}
	return &x
}

func (f *folding) is(res, i, j *Term) (bool, string) {
	why := ""
	// a part that is the absorbing constant gives the result
	n := f.r.length(f.st, f.list, f.list.T)
	if f.eq(f.clip(i), f.c.U.Int(0)) && f.eq(f.clip(j), n) {
		abs := int64(1 - f.unit)
		for t, x := range f.a.op {
			if f.r.decideEQ(f.st, t, f.c.U.Int(abs)) != yes {
				continue
			}
			_, part := f.acc[x]
			elem := x.Op == OLoad && x.Args[0].Op == OIA && rootSlice(x.Args[0].Args[0]) == f.list
			if part || elem {
				f.a.err = ""
				if v := f.a.value(res); f.a.err == "" && (abs == 0 && v == ex0 || abs == 1 && v == ex1) {
					return true, ""
				}
			}
		}
	}
	for e := f.st.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvHead && e.ev.Val != nil && e.ev.Val.Op == OHead && isIntType(e.ev.Val.T) {
			abs := int64(1 - f.unit)
			if f.r.decideEQ(f.st, e.ev.Val, f.c.U.Int(abs)) == yes && f.extends(e.ev.Val) {
				f.a.err = ""
				if v := f.a.value(res); f.a.err == "" && (abs == 0 && v == ex0 || abs == 1 && v == ex1) {
					return true, ""
				}
			}
		}
	}
	for _, open := range []string{"", "first", "last"} {
		f.a.err, f.a.d.err = "", ""
		want := f.fold(i, j, open)
		got := f.value(res)
		if f.a.err != "" {
			return false, f.a.err
		}
		ok, w := f.a.d.same(got, want)
		if ok {
			return true, ""
		}
		why = w
	}
	return false, why
}

// extends: the operation combines a part of the list with the next element.
func (f *folding) extends(t *Term) bool {
	if t.Op != OHead || f.c.spec(t.Aux.(*headInfo).Fn) == nil {
		return false
	}
	for _, ij := range f.acc {
		for _, w := range [][3]interface{}{{ij[0], f.c.U.AddK(ij[1], 1), "last"}, {f.c.U.AddK(ij[0], -1), ij[1], "first"}} {
			f.a.err, f.a.d.err = "", ""
			want := f.fold(w[0].(*Term), w[1].(*Term), w[2].(string))
			got := f.subst(f.a.head(t))
			if ok, _ := f.a.d.same(got, want); ok && f.a.err == "" {
				return true
			}
		}
	}
	return false
}

// on is the same question on another path.
func (f *folding) on(o *Outcome) *folding {
	g := *f
	g.r, g.st, g.acc, g.a = f.c.newRun(), o.St.clone(), map[*Term][2]*Term{}, nil
	return &g
}

// foldsWith: the function that is called computes the same combination of the
// list that it is given.
func (c *Ctx) foldsWith(f *folding, e *Event, k int) bool {
	args := append([]*Term(nil), e.Args...)
	key := fmt.Sprintf("fold:%s:%d:%d:%d", e.Fn, k, f.tt, f.unit)
	for i, a := range args {
		if i == k {
			args[i] = c.U.Param("list", a.T)
			continue
		}
		if i > 0 && !isIntConst(a) && !isBoolConst(a) && a != c.One && a != c.Zero && a != c.B {
			return false
		}
		key += ":" + a.String()
	}
	if v, ok := c.shared[key].(bool); ok {
		return v
	}
	c.shared[key] = false
	r := c.newRun()
	outs := r.Exec(e.Fn, args, c.newState)
	g := &folding{c: c, fn: e.Fn, tt: f.tt, unit: f.unit, args: args, pos: k, list: args[k], rep: newReport(f.rep.Prop, f.rep.Config)}
	c.checkFolding(g, e.Fn.Name(), r, outs)
	ok := len(g.rep.Findings) == 0
	if ok {
		f.rep.paths(c, r, outs)
		for rule, n := range g.rep.Obl {
			f.rep.okn(rule, n)
		}
	}
	c.shared[key] = ok
	return ok
}

// prepare finds the nodes that the path uses and assumes that they are valid.
func (f *folding) prepare(o *Outcome, accs []*Term) bool {
	c := f.c
	seen := map[*Term]bool{}
	var nodes []*Term
	var add func(t *Term)
	visited := map[*Term]bool{}
	add = func(t *Term) {
		if t == nil || visited[t] {
			return
		}
		visited[t] = true
		if t.T != nil && types.Identical(t.T, c.NodeTy) && !seen[t] {
			switch {
			case t.Op == OLoad && t.Args[0].Op == OIA && rootSlice(t.Args[0].Args[0]) == f.list:
				seen[t] = true
				nodes = append(nodes, t)
			}
		}
		for _, a := range t.Args {
			add(a)
		}
	}
	for _, e := range o.St.events() {
		if e.Kind == EvLoad {
			add(e.Val)
		}
		for _, a := range e.Args {
			add(a)
		}
	}
	for _, x := range o.Res {
		add(x)
	}
	for _, e := range o.St.events() {
		if e.Kind != EvHead || e.Val == nil || !types.Identical(e.Val.T, c.NodeTy) {
			continue
		}
		// the same operation on a part of the list
		for k, a := range e.Args {
			i, j, ok := f.part(a)
			if !ok || f.acc[e.Val][0] != nil {
				continue
			}
			if e.Fn == f.fn {
				same := k == f.pos
				for q, x := range e.Args {
					same = same && (q == k || x == f.args[q])
				}
				if !same || !f.smaller(i, j) {
					continue
				}
			} else if !c.foldsWith(f, e, k) {
				continue
			}
			f.register(e.Val, i, j)
			accs = append(accs, e.Val)
		}
	}
	for t := range f.acc {
		found := false
		for _, a := range accs {
			found = found || a == t
		}
		if !found {
			accs = append(accs, t)
		}
	}
	all := nodes
	for _, a := range accs {
		if !seen[a] {
			seen[a] = true
			if f.nilOn(a) {
				continue
			}
			all = append(all, a)
		}
	}
	if !c.assumeValidNow(f.r, f.st, all) {
		return false
	}
	f.a = c.newAPIDen(f.r, f.st, all)
	return true
}

func (f *folding) nilOn(t *Term) bool { return f.r.decideEQ(f.st, t, f.c.U.Nil()) == yes }

// part of the list given to a recursive call.
func (f *folding) part(t *Term) (i, j *Term, ok bool) {
	u := f.c.U
	i = u.Int(0)
	if t == f.list {
		return i, f.r.length(f.st, f.list, f.list.T), true
	}
	if t.Op != OSlice {
		return nil, nil, false
	}
	a, b, ok := f.part(t.Args[0])
	if !ok || len(t.Args) < 3 {
		return nil, nil, false
	}
	_ = b
	return u.Add(a, t.Args[1]), u.Add(a, t.Args[2]), true
}

// smaller: the part is shorter than the list (so the recursion ends).
func (f *folding) smaller(i, j *Term) bool {
	n := f.r.length(f.st, f.list, f.list.T)
	d := f.c.U.Sub(j, i)
	return f.r.decideLE(f.st, f.c.U.AddK(d, 1), n) == yes
}

// failed: a step of the path failed.
func (f *folding) failed() bool {
	if f.c.stepFailed(f.r, f.st) {
		return true
	}
	for t := range f.acc {
		if f.nilOn(t) {
			return true
		}
	}
	return false
}

// accumulators of a loop: for each loop variable that holds a node, the part of
// the list that it is the conjunction of.
func (c *Ctx) checkFold(rep *Report, m string, tt, unit int) {
	outs, r0, err := c.method(m)
	fn := c.P.method("BDD", m)
	if err != nil {
		rep.bad(c, token.NoPos, m, "anchor", "", "%v", err)
		return
	}
	name := fname(fn)
	rep.site(name)
	rep.paths(c, r0, outs)
	args := c.methodArgs(fn)
	if len(args) != 2 {
		rep.bad(c, fn.Pos(), name, "anchor", "", "parameters not understood")
		return
	}
	if _, ok := args[1].T.Underlying().(*types.Slice); !ok {
		rep.bad(c, fn.Pos(), name, "anchor", "", "parameters not understood")
		return
	}
	f := &folding{c: c, fn: fn, tt: tt, unit: unit, args: args, pos: 1, list: args[1], rep: rep}
	c.checkFolding(f, m, r0, outs)
}

// checkFolding: every path returns the combination of the whole list.
func (c *Ctx) checkFolding(f0 *folding, m string, r0 *Run, outs []*Outcome) {
	rep, fn, list := f0.rep, f0.fn, f0.list
	name := fname(fn)
	rep.undecided(c, name, outs)
	u := c.U
	// loops
	inv := map[*Term][2]*Term{} // loop variable -> part of the list
	for _, v := range loopViews(outs) {
		var accs []*ssa.Phi
		for p := range v.Inst.Phi {
			if types.Identical(p.Type(), c.NodeTy) {
				accs = append(accs, p)
			}
		}
		if len(accs) == 0 {
			continue
		}
		ln := r0.length(v.Inst.Pre, list, list.T)
		for _, p := range accs {
			ph := v.Inst.Phi[p]
			ok := false
			for q, ix := range v.Inst.Phi {
				if !isIntType(q.Type()) || ok {
					continue
				}
				step, known := v.step(r0, q)
				if !known || step != 1 && step != -1 {
					continue
				}
				for d := int64(0); d <= 3 && !ok; d++ {
					part := func(x *Term) [2]*Term {
						if step == 1 {
							return [2]*Term{u.Int(0), u.AddK(x, d)}
						}
						return [2]*Term{u.AddK(x, d), ln}
					}
					// before the loop
					f := f0.on(&Outcome{St: v.Inst.Pre})
					if !f.prepare(&Outcome{St: v.Inst.Pre, Res: []*Term{v.Inst.Init[p]}}, nil) {
						continue
					}
					w := part(v.Inst.Init[q])
					if good, _ := f.is(v.Inst.Init[p], w[0], w[1]); !good {
						continue
					}
					// a turn
					good := true
					for _, b := range v.Backs {
						f := f0.on(b)
						w := part(ix)
						f.register(ph, w[0], w[1])
						if !f.prepare(&Outcome{St: b.St, Res: []*Term{b.Loop.Next[p]}}, nil) {
							continue
						}
						if b.Loop.Next[p].Op == ONil && f.failed() {
							continue
						}
						w2 := part(b.Loop.Next[q])
						if g, _ := f.is(b.Loop.Next[p], w2[0], w2[1]); !g {
							good = false
						}
					}
					if good {
						inv[ph] = part(ix)
						ok = true
					}
				}
			}
			if !ok {
				rep.bad(c, fn.Pos(), name, "loop", v.Inst.Pre.pathString(), "the loop of %s is not shown to combine the elements of the list one by one", m)
			} else {
				rep.ok("each turn of the loop combines one more element")
			}
		}
	}
	good := 0
	for _, o := range outs {
		if o.Kind != OutReturn && o.Kind != OutPanic {
			continue
		}
		f := f0.on(o)
		for t, w := range inv {
			f.register(t, w[0], w[1])
		}
		if !f.prepare(o, nil) {
			continue
		}
		pth := o.St.pathString()
		if o.Kind == OutPanic {
			rep.bad(c, o.Pos, name, "no panic", pth, "%s may panic on valid nodes: %s", m, o.Why)
			continue
		}
		res := o.Res[0]
		if res.Op == ONil || f.nilOn(res) {
			if f.failed() {
				rep.ok("failures give nil")
			} else {
				rep.bad(c, c.retPos(o, fn), name, "result", pth, "nil is returned for valid operands")
			}
			continue
		}
		if ok, why := f.is(res, u.Int(0), f.r.length(f.st, list, list.T)); !ok {
			rep.bad(c, c.retPos(o, fn), name, "result", pth, "the result is not the combination of all the nodes: %s", why)
			continue
		}
		good++
		rep.ok("result of the method = combination of the nodes")
	}
	if good == 0 {
		rep.bad(c, fn.Pos(), name, "result", "", "no path of %s returns a result for valid nodes", m)
	}
}

// checkEqual: Equal answers true exactly when the nodes are the same.
func (c *Ctx) checkEqual(rep *Report) {
	outs, r0, err := c.method("Equal")
	fn := c.P.method("BDD", "Equal")
	if err != nil {
		rep.bad(c, token.NoPos, "Equal", "anchor", "", "%v", err)
		return
	}
	name := fname(fn)
	rep.site(name)
	rep.paths(c, r0, outs)
	rep.undecided(c, name, outs)
	nodes, _ := c.splitArgs(fn)
	if len(nodes) != 2 {
		rep.bad(c, fn.Pos(), name, "anchor", "", "parameters not understood")
		return
	}
	n := 0
	for _, o := range outs {
		if o.Kind != OutReturn && o.Kind != OutPanic {
			continue
		}
		for _, same := range []bool{true, false} {
			r := c.newRun()
			st := o.St.clone()
			if !c.assumeValidNow(r, st, nodes) {
				continue
			}
			x, y := c.nodeVal(r, st, nodes[0]), c.nodeVal(r, st, nodes[1])
			if r.decideEQ(st, nodes[0], nodes[1]) == yes && !same {
				continue // one pointer has one content
			}
			if same {
				r.assumeEQ(st, x, y)
			} else if !r.assume(st, r.eqTerm(x, y), false) {
				continue
			}
			if st.dead {
				continue
			}
			if o.Kind == OutPanic {
				rep.bad(c, o.Pos, name, "no panic", o.St.pathString(), "Equal may panic on valid nodes: %s", o.Why)
				continue
			}
			n++
			want := no
			if same {
				want = yes
			}
			if r.truth(st, o.Res[0]) != want {
				rep.bad(c, c.retPos(o, fn), name, "result", o.St.pathString(), "Equal is not shown to answer %v for nodes whose identifiers are %s", same, map[bool]string{true: "the same", false: "different"}[same])
				continue
			}
			rep.ok("Equal compares identifiers")
		}
	}
	if n == 0 {
		rep.bad(c, fn.Pos(), name, "result", "", "no path of Equal answers")
	}
}

func (c *Ctx) checkFrom(rep *Report) {
	outs, r0, err := c.method("From")
	fn := c.P.method("BDD", "From")
	if err != nil {
		rep.bad(c, token.NoPos, "From", "anchor", "", "%v", err)
		return
	}
	name := fname(fn)
	rep.site(name)
	rep.paths(c, r0, outs)
	rep.undecided(c, name, outs)
	args := c.methodArgs(fn)
	for _, o := range outs {
		if o.Kind == OutPanic {
			rep.bad(c, o.Pos, name, "no panic", o.St.pathString(), "From may panic")
		}
		if o.Kind != OutReturn {
			continue
		}
		for _, v := range []bool{true, false} {
			r := c.newRun()
			st := o.St.clone()
			if !r.assume(st, args[len(args)-1], v) || st.dead {
				continue
			}
			k := int64(0)
			if v {
				k = 1
			}
			x := c.content(r, &Outcome{St: st}, o.Res[0])
			if r.decideEQ(st, x, c.U.Int(k)) != yes {
				rep.bad(c, c.retPos(o, fn), name, "result", o.St.pathString(), "From(%v) is not the constant %d", v, k)
				continue
			}
			rep.ok("From gives the constants")
		}
	}
}

func (c *Ctx) checkC28(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	c.checkDerived(rep)
	c.checkFold(rep, "And", ttAnd, 1)
	c.checkFold(rep, "Or", ttOr, 0)
	c.checkEqual(rep)
	c.checkFrom(rep)
}

func init() {
	register("C28", "denotation of each path of And and Or as a combination of the list given (induction on its length, or on the turns of a loop), of Imp, Equiv and AndExist as the operation of their name; Equal compares identifiers; From gives the constants", (*Ctx).checkC28)
}
