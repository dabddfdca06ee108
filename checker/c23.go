package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// failures decides how failures go through the operations.
type failures struct {
	c    *Ctx
	rep  *Report
	pf   map[*ssa.Function]map[int]bool // parameters whose failure gives a failure
	todo []*ssa.Function
	seen map[*ssa.Function]bool
	done map[*Event]bool
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// steps lists the constructions of nodes and the operations on a path.
func (f *failures) steps(o *Outcome) []*Event {
	var l []*Event
	for _, e := range o.St.events() {
		if e.Kind != EvMk && e.Kind != EvHead || e.Val == nil || e.Val.T == nil {
			continue
		}
		if isIntType(e.Val.T) || types.Identical(e.Val.T, f.c.NodeTy) {
			l = append(l, e)
		}
	}
	return l
}

// fail restricts a path to the failure of a value; false if it is impossible.
func (f *failures) fail(r *Run, st *State, t *Term) bool {
	if t.T != nil && isIntType(t.T) || isIntConst(t) {
		r.assumeLE(st, t, f.c.U.Int(-1))
		return !st.dead
	}
	if t.Op == ONil {
		return true
	}
	if r.nonNil(st, t) {
		return false
	}
	return r.assume(st, r.eqTerm(t, f.c.U.Nil()), true) && !st.dead
}

// succeed restricts a path to the success of a value.
func (f *failures) succeed(r *Run, st *State, t *Term) bool {
	if t.T != nil && isIntType(t.T) || isIntConst(t) {
		r.assumeLE(st, f.c.U.Int(0), t)
		return !st.dead
	}
	if t.Op == ONil {
		return false
	}
	return r.assume(st, r.eqTerm(t, f.c.U.Nil()), false) && !st.dead
}

// failed: the value is a failure.
func (f *failures) failed(r *Run, st *State, t *Term) bool {
	switch {
	case t == nil:
		return false
	case t.Op == ONil:
		return true
	case t.T != nil && isIntType(t.T) || isIntConst(t):
		_, hi := r.bounds(st, t)
		return hi < 0
	}
	return r.truth(st, r.eqTerm(t, f.c.U.Nil())) == yes
}

// mayFail: the value can be a failure.
func (f *failures) mayFail(r *Run, st *State, t *Term) bool {
	s := st.clone()
	return f.fail(r, s, t)
}

// inputs of a step whose failure makes it fail.
func (f *failures) inputs(e *Event) []*Term {
	var l []*Term
	if e.Kind == EvMk {
		for i, a := range e.Args {
			if f.propagates(e.Fn)[i+1] {
				l = append(l, a)
			}
		}
		return l
	}
	for i, a := range e.Args {
		if f.propagates(e.Fn)[i] {
			l = append(l, a)
		}
	}
	return l
}

// propagates lists the parameters of a step whose failure gives a failure.
func (f *failures) propagates(fn *ssa.Function) map[int]bool {
	if m, ok := f.pf[fn]; ok {
		return m
	}
	m := map[int]bool{}
	f.pf[fn] = m
	c := f.c
	var outs []*Outcome
	var params []*Term
	var r0 *Run
	if fn == c.Makenode {
		u := f.makenode()
		outs, params, r0 = u.Outs, c.unitArgs(fn), u.Run
	} else {
		h := c.head(fn)
		if h == nil {
			return m
		}
		outs, params, r0 = h.Outs, h.Params, h.Run
	}
	// candidates, by decreasing sets: a call of the function itself may be assumed
	// to propagate them
	for i, a := range params {
		if i > 0 && (isIntType(a.T) && (fn == c.Makenode && i > 1 || c.negParam(fn, i)) || types.Identical(a.T, c.NodeTy)) {
			m[i] = true
		}
	}
	for {
		n := len(m)
		for i := range m {
			for _, o := range outs {
				if o.Kind == OutLoopBack || o.Kind == OutUndecided {
					continue
				}
				r := f.run(r0)
				st := o.St.clone()
				if !f.fail(r, st, params[i]) || !f.flow(r, st) {
					continue
				}
				if o.Kind == OutPanic || len(o.Res) == 0 || !f.failed(r, st, o.Res[0]) {
					delete(m, i)
					break
				}
			}
		}
		if len(m) == n {
			return m
		}
	}
}

func (f *failures) run(r0 *Run) *Run {
	r := f.c.newRun()
	r.ReadHook, r.OnAtom = r0.ReadHook, r0.OnAtom
	return r
}

// makenode is the interpretation of Makenode on its own.
func (f *failures) makenode() *unit {
	c := f.c
	if u, ok := c.shared["c23:makenode"].(*unit); ok {
		return u
	}
	r := c.unitRun(c.Makenode)
	for g := range r.NoInline {
		if res := g.Signature.Results(); g != c.lowMaker() && !c.P.recursive(g) && c.P.noEffects(g) && !(res.Len() == 1 && isIntType(res.At(0).Type())) {
			delete(r.NoInline, g)
		}
	}
	u := &unit{Fn: c.Makenode, Run: r}
	u.Outs = r.Exec(c.Makenode, c.unitArgs(c.Makenode), func() *State { return c.rawState() })
	c.shared["c23:makenode"] = u
	return u
}

// flow adds the failures that follow from the ones that are known; false if the
// path becomes impossible.
func (f *failures) flow(r *Run, st *State) bool {
	for _, e := range st.events() {
		if e.Kind != EvMk && e.Kind != EvHead || e.Val == nil {
			continue
		}
		for _, a := range f.inputs(e) {
			if f.failed(r, st, a) && !f.failed(r, st, e.Val) && !f.fail(r, st, e.Val) {
				return false
			}
		}
	}
	return !st.dead
}

// result: the results of the path are a failure.
func (f *failures) result(r *Run, st *State, fn *ssa.Function, o *Outcome) bool {
	if len(o.Res) == 0 {
		return false
	}
	for i, x := range o.Res {
		t := fn.Signature.Results().At(i).Type()
		switch {
		case isErrorType(t):
			if !r.nonNil(st, x) {
				return false
			}
		case !f.failed(r, st, x):
			return false
		}
	}
	return true
}

// visible: the error status is set, or an error is returned.
func (f *failures) visible(r *Run, st *State, fn *ssa.Function, o *Outcome) bool {
	for i, x := range o.Res {
		if isErrorType(fn.Signature.Results().At(i).Type()) && r.nonNil(st, x) {
			return true
		}
	}
	return f.c.errorSet(&Outcome{St: st}) || r.nonNil(st, r.loadMem(st, st.mem, f.c.U.FA(f.c.B, f.c.errorF), f.c.errorF.Type()))
}

// function checks the paths of an operation.
func (f *failures) function(fn *ssa.Function, outs []*Outcome, r0 *Run, params []*Term) {
	c, rep := f.c, f.rep
	name := fname(fn)
	rep.site(name)
	rep.paths(c, r0, outs)
	if rep.undecided(c, name, outs) {
		return
	}
	views := loopViews(outs)
	sticky := map[int64][]*ssa.Phi{}
	used := map[*ssa.Phi]bool{}
	for _, v := range views {
		for p, ph := range v.Inst.Phi {
			if !isIntType(p.Type()) && !types.Identical(p.Type(), c.NodeTy) || len(v.Backs) == 0 {
				continue
			}
			good := true
			for _, b := range v.Backs {
				r := f.run(r0)
				st := b.St.clone()
				if f.fail(r, st, ph) && f.flow(r, st) && !f.failed(r, st, b.Loop.Next[p]) {
					good = false
				}
			}
			if good {
				sticky[v.Inst.ID] = append(sticky[v.Inst.ID], p)
			}
		}
		sort.Slice(sticky[v.Inst.ID], func(i, j int) bool {
			return sticky[v.Inst.ID][i].Pos() < sticky[v.Inst.ID][j].Pos()
		})
	}
	for _, o := range outs {
		pth := o.St.pathString()
		// identifiers used to read the table
		for _, e := range o.St.events() {
			if e.Kind == EvHead && !f.seen[e.Fn] {
				f.seen[e.Fn] = true
				f.todo = append(f.todo, e.Fn)
			}
			if e.Kind != EvIndex || f.done[e] || !c.isTableLen(e.Args[2]) {
				continue
			}
			f.done[e] = true
			if e.Neg {
				rep.bad(c, e.Instr.Pos(), name, "no panic", pth, "the table is read at %s, which may be the result of a failed step", short(e.Args[1].String(), 80))
			} else {
				rep.ok("the table is not read at the result of a failed step")
			}
		}
		steps := f.steps(o)
		// the failure of a step gives a failure
		for _, s := range steps {
			r := f.run(r0)
			st := o.St.clone()
			if !f.fail(r, st, s.Val) || !f.flow(r, st) {
				continue
			}
			switch o.Kind {
			case OutPanic:
				rep.bad(c, o.Pos, name, "no panic", pth, "%s may panic when %s fails: %s", fn.Name(), stepName(s), o.Why)
			case OutLoopBack:
				kept := false
				for _, p := range sticky[o.Loop.ID] {
					if f.failed(r, st, o.Loop.Next[p]) {
						kept, used[p] = true, true
					}
				}
				if kept {
					rep.ok("the failure of a step in a loop is kept by the loop")
				} else {
					rep.bad(c, s.Instr.Pos(), name, "failures are propagated", pth, "the failure of %s is forgotten by the loop", stepName(s))
				}
			case OutReturn:
				if f.result(r, st, fn, o) {
					rep.ok("the failure of a step gives a failure")
				} else {
					rep.bad(c, s.Instr.Pos(), name, "failures are propagated", pth, "%s may return %s although %s failed", fn.Name(), short(resString(o), 80), stepName(s))
				}
			}
		}
		if o.Kind != OutReturn {
			continue
		}
		// a failure comes from a step, or is recorded
		fails := false
		for i, x := range o.Res {
			t := fn.Signature.Results().At(i).Type()
			fails = fails || (types.Identical(t, c.NodeTy) || isIntType(t) && f.isStep(fn)) && f.mayFail(f.run(r0), o.St, x)
		}
		if fails {
			r := f.run(r0)
			st := o.St.clone()
			ok := true
			for i, x := range o.Res {
				if t := fn.Signature.Results().At(i).Type(); types.Identical(t, c.NodeTy) || isIntType(t) {
					ok = ok && f.fail(r, st, x)
				}
			}
			if f.isStep(fn) {
				for i := range f.propagates(fn) {
					ok = ok && f.succeed(r, st, params[i])
				}
			}
			for _, s := range steps {
				for _, a := range f.inputs(s) {
					if ok && !f.known(r, st, a) {
						rep.bad(c, s.Instr.Pos(), name, "failures are visible", pth, "%s is given %s, that may be a failure without an error", stepName(s), short(a.String(), 80))
					}
				}
				ok = ok && f.succeed(r, st, s.Val)
			}
			switch {
			case !ok:
				rep.ok("a failure comes from a step that failed")
			case f.visible(r, st, fn, o):
				rep.ok("a failure is recorded in the error status")
			default:
				carried := false
				for _, v := range views {
					for _, p := range sticky[v.Inst.ID] {
						if left(o, v.Inst) && o.Res[0] != nil && f.carries(fn, r0, o, v, p) {
							carried = true
						}
					}
				}
				if carried {
					rep.ok("a failure comes from a step that failed in a loop")
				} else {
					rep.bad(c, c.retPos(o, fn), name, "failures are visible", pth, "%s may return %s without an error", fn.Name(), short(resString(o), 80))
				}
			}
		}
	}
	// failures kept by loops
	for _, v := range views {
		for _, p := range sticky[v.Inst.ID] {
			if !used[p] {
				continue
			}
			for _, o := range outs {
				if !left(o, v.Inst) || o.Kind == OutLoopBack {
					continue
				}
				r := f.run(r0)
				st := o.St.clone()
				if !f.fail(r, st, v.Inst.Phi[p]) || !f.flow(r, st) {
					continue
				}
				if o.Kind == OutPanic || !f.result(r, st, fn, o) {
					rep.bad(c, c.retPos(o, fn), name, "failures are propagated", o.St.pathString(), "%s may return %s although a step failed in the loop", fn.Name(), short(resString(o), 80))
				} else {
					rep.ok("the failure of a step gives a failure")
				}
			}
		}
	}
}

// carries: the path has no failure if the node carried by the loop is not one, and
// that node is only a failure if a step failed, or with an error status (that
// stays for good).
func (f *failures) carries(fn *ssa.Function, r0 *Run, o *Outcome, v *loopView, p *ssa.Phi) bool {
	r := f.run(r0)
	st := o.St.clone()
	ok := f.succeed(r, st, v.Inst.Phi[p])
	for _, s := range f.steps(o) {
		ok = ok && f.succeed(r, st, s.Val)
	}
	if ok && f.fail(r, st, o.Res[0]) {
		return false
	}
	if f.mayFail(r, v.Inst.Pre, v.Inst.Init[p]) {
		return false
	}
	for _, b := range v.Backs {
		r := f.run(r0)
		st := b.St.clone()
		ok := f.succeed(r, st, v.Inst.Phi[p])
		for _, s := range f.steps(b) {
			ok = ok && f.succeed(r, st, s.Val)
		}
		if ok && f.fail(r, st, b.Loop.Next[p]) && !f.visible(r, st, fn, &Outcome{St: st}) {
			return false
		}
	}
	return true
}

// known: the value given to a step is not a failure, when the steps before it
// succeed.
func (f *failures) known(r *Run, st *State, a *Term) bool {
	if types.Identical(a.T, f.c.NodeTy) {
		return true // an operation checks its operands (C22)
	}
	if _, ok := a.T.Underlying().(*types.Pointer); ok {
		return r.nonNil(st, a)
	}
	return isIntConst(a) && a.K >= 0 || r.decideLE(st, f.c.U.Int(0), a) == yes || f.failed(r, st, a)
}

// isStep: the function is a recursive step of an operation.
func (f *failures) isStep(fn *ssa.Function) bool {
	return fn == f.c.Makenode || f.c.P.recursive(fn)
}

func stepName(s *Event) string {
	if s.Kind == EvMk {
		return "the construction of a node"
	}
	return "the call of " + s.Fn.Name()
}

func resString(o *Outcome) string {
	s := ""
	for i, x := range o.Res {
		if i > 0 {
			s += ", "
		}
		s += x.String()
	}
	return s
}

func (c *Ctx) checkC23(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	f := &failures{c: c, rep: rep, pf: map[*ssa.Function]map[int]bool{}, seen: map[*ssa.Function]bool{}, done: map[*Event]bool{}}
	c.checkErrorStatus(rep)
	f.checkMakenode()
	for _, fn := range c.bddMethods() {
		if fn == c.Makenode || c.P.recursive(fn) && fn.Signature.Results().Len() == 1 && isIntType(fn.Signature.Results().At(0).Type()) {
			continue
		}
		outs, r, err := c.method(fn.Name())
		if err != nil {
			rep.bad(c, fn.Pos(), fname(fn), "anchor", "", "%v", err)
			continue
		}
		f.function(fn, outs, r, c.methodArgs(fn))
	}
	for len(f.todo) > 0 {
		fn := f.todo[0]
		f.todo = f.todo[1:]
		res := fn.Signature.Results()
		if res.Len() != 1 || !isIntType(res.At(0).Type()) && !types.Identical(res.At(0).Type(), c.NodeTy) {
			continue
		}
		if s := c.intSummary(fn, nil); s != nil && s.low >= 0 {
			continue
		}
		h := c.head(fn)
		f.function(fn, h.Outs, h.Run, h.Params)
	}
	for _, cr := range c.creations() {
		f.function(cr.Fn, cr.Outs, cr.Run, nil)
	}
	// the collection meets the results of failed steps
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	lm := c.lowMaker()
	_, frees := c.reclaimers()
	below := map[*ssa.Function]bool{lm: true}
	for n := 0; n != len(below); {
		n = len(below)
		for _, u := range c.units() {
			if !below[u.Fn] {
				continue
			}
			for _, o := range u.Outs {
				for _, e := range o.St.events() {
					if e.Kind == EvHead {
						below[e.Fn] = true
					}
				}
			}
		}
	}
	for _, u := range c.units() {
		if u.Fn == lm || !(below[u.Fn] && frees[u.Fn]) && !m.markers[u.Fn] {
			continue
		}
		rep.site(fname(u.Fn))
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind == EvIndex && c.isTableLen(e.Args[2]) && e.Neg {
					rep.bad(c, e.Instr.Pos(), fname(u.Fn), "no panic", o.St.pathString(), "a collection may read the table at %s, which may be the result of a failed step", short(e.Args[1].String(), 80))
				} else if e.Kind == EvIndex {
					rep.ok("the table is not read at the result of a failed step")
				}
			}
		}
	}
}

// checkErrorStatus: an error, once set, is never cleared, and it is visible.
func (c *Ctx) checkErrorStatus(rep *Report) {
	fn := map[*ssa.Function]bool{}
	for _, u := range c.units() {
		fn[u.Fn] = true
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvStore || e.Addr.Op != OFA || e.Addr.Aux != c.errorF {
					continue
				}
				if root := rootOf(e.Addr); root.Op == OAlloc {
					continue // a new object
				}
				if u.Run.nonNil(o.St, e.Val) {
					rep.ok("the error status is never cleared")
				} else {
					rep.bad(c, e.Instr.Pos(), fname(u.Fn), "for good", o.St.pathString(), "the error status is set to %s, which may be nil", short(e.Val.String(), 80))
				}
			}
		}
	}
	// no other access to the status
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldVar(fa) != c.errorF {
					continue
				}
				rep.site(fname(f))
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(fa) {
							continue
						}
					}
					rep.bad(c, ref.Pos(), fname(f), "for good", "", "the address of the error status is used for something else than to read it or to set it")
				}
			}
		}
	}
	// Errored
	outs, r, err := c.method("Errored")
	ef := c.P.method("BDD", "Errored")
	if err != nil {
		rep.bad(c, token.NoPos, "Errored", "anchor", "", "%v", err)
		return
	}
	for _, o := range outs {
		if o.Kind != OutReturn {
			continue
		}
		for _, set := range []bool{true, false} {
			st := o.St.clone()
			v := r.loadMem(st, map[Class]*classMem{}, c.U.FA(c.B, c.errorF), c.errorF.Type())
			if !r.assume(st, r.eqTerm(v, c.U.Nil()), !set) || st.dead {
				continue
			}
			want := no
			if set {
				want = yes
			}
			if r.truth(st, o.Res[0]) != want {
				rep.bad(c, ef.Pos(), fname(ef), "visible", o.St.pathString(), "Errored does not tell whether the error status is set")
			} else {
				rep.ok("Errored tells whether the error status is set")
			}
		}
	}
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	s := structOf(derefType(fa.X.Type()))
	if s == nil {
		return nil
	}
	return s.Field(fa.Field)
}

// checkMakenode: when the table cannot give a node, Makenode returns a failure and
// sets the error status.
func (f *failures) checkMakenode() {
	c, rep := f.c, f.rep
	lm := c.lowMaker()
	u := f.makenode()
	name := fname(c.Makenode)
	rep.site(name)
	rep.paths(c, u.Run, u.Outs)
	if rep.undecided(c, name, u.Outs) {
		return
	}
	args := c.unitArgs(c.Makenode)
	for i := 2; i < len(args); i++ {
		if f.propagates(c.Makenode)[i] {
			rep.ok("a failed successor gives a failure")
		} else {
			rep.bad(c, c.Makenode.Pos(), name, "failures are propagated", "", "Makenode may return a node when its argument %s is a failure", args[i])
		}
	}
	quiet := map[*Term]bool{} // errors for which the status is not set
	for _, o := range u.Outs {
		if o.Kind == OutPanic {
			rep.bad(c, o.Pos, name, "no panic", o.St.pathString(), "Makenode may panic: %s", o.Why)
			continue
		}
		if o.Kind != OutReturn {
			continue
		}
		var call *Event
		for _, e := range o.St.events() {
			if e.Kind == EvHead && e.Fn == lm {
				call = e
			}
		}
		if call == nil || call.Val.Op != OExtr {
			continue
		}
		for _, a := range call.Args {
			if isIntType(a.T) && a != args[1] {
				if r := u.Run; r.decideLE(o.St, c.U.Int(0), a) != yes {
					rep.bad(c, call.Instr.Pos(), name, "failures are propagated", o.St.pathString(), "a node may be created from a failed step")
				} else {
					rep.ok("no node is created from a failed step")
				}
			}
		}
		st := o.St.clone()
		r := c.newRun()
		r.ReadHook, r.OnAtom = nil, u.Run.OnAtom
		if !f.fail(r, st, call.Val) {
			continue
		}
		if !f.failed(r, st, o.Res[0]) {
			rep.bad(c, c.retPos(o, c.Makenode), name, "failures are propagated", o.St.pathString(), "Makenode may return %s although the table has no room", short(resString(o), 80))
			continue
		}
		if f.visible(r, st, c.Makenode, o) {
			rep.ok("a failure is recorded in the error status")
			continue
		}
		err := c.U.mk(OExtr, nil, 1, lm.Signature.Results().At(1).Type(), nil, call.Val.Args[0])
		x := r.rigid(st, err)
		if x == err {
			rep.bad(c, c.retPos(o, c.Makenode), name, "failures are visible", o.St.pathString(), "Makenode may fail without an error")
			continue
		}
		quiet[x] = true
	}
	// the errors that are not recorded do not come with a failure
	t := c.tableRun(lm)
	for _, o := range t.Outs {
		if o.Kind == OutPanic {
			rep.bad(c, o.Pos, fname(lm), "no panic", o.St.pathString(), "%s may panic: %s", lm.Name(), o.Why)
			continue
		}
		if o.Kind != OutReturn || len(o.Res) < 2 {
			continue
		}
		r := f.run(t.Run)
		st := o.St.clone()
		for _, a := range t.Args {
			if isIntType(a.T) {
				r.assumeLE(st, c.U.Int(0), a)
			}
		}
		if st.dead || !f.failed(r, st, o.Res[0]) {
			continue // an identifier found in the table (C12)
		}
		good := true
		for q := range quiet {
			if r.truth(st, r.eqTerm(o.Res[1], q)) != no {
				good = false
				rep.bad(c, c.retPos(o, lm), fname(lm), "failures are visible", o.St.pathString(), "%s may fail with the error %s, for which Makenode does not set the error status", lm.Name(), short(q.String(), 60))
			}
		}
		if good {
			rep.ok("a table that cannot grow gives an error that is recorded")
		}
	}
}

func init() {
	register("C23", "every failed step of every operation gives a failure on each path, and every failure is recorded in the error status, which is never cleared", func(c *Ctx, rep *Report) {
		c.checkC23(rep)
	})
}
