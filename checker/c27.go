package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// content is the identifier that a node result holds when the path ends.
func (c *Ctx) content(r *Run, o *Outcome, n *Term) *Term {
	if n.Op == OAlloc && n != c.One && n != c.Zero {
		return r.loadMem(o.St, o.St.mem, n, types.Typ[types.Int])
	}
	return c.nodeVal(r, o.St, n)
}

// substTerm replaces a term inside of the address of a location.
func (c *Ctx) substAddr(a *Term, f func(*Term) *Term) *Term {
	if x := f(a); x != nil {
		return x
	}
	switch a.Op {
	case OFA:
		return c.U.FA(c.substAddr(a.Args[0], f), a.Aux.(*types.Var))
	case OIA:
		return c.U.IA(c.substAddr(a.Args[0], f), c.substAddr(a.Args[1], f), derefType(a.T))
	}
	return a
}

// varCells: what Ithvar and NIthvar read, as functions of the BDD and of the
// index.
type varCells struct {
	field *types.Var // field of the BDD that holds them
	elem  types.Type // type of the elements
	addr  [2]*Term   // address read by Ithvar, NIthvar
	idx   [2]*Term   // index in it
	load  [2]*Term   // slice
	fn    [2]*ssa.Function
}

func (c *Ctx) checkIthvar(rep *Report) *varCells {
	vc := &varCells{}
	for k, m := range []string{"Ithvar", "NIthvar"} {
		outs, r, err := c.method(m)
		fn := c.P.method("BDD", m)
		if err != nil {
			rep.bad(c, token.NoPos, m, "anchor", "", "%v", err)
			return nil
		}
		name := fname(fn)
		vc.fn[k] = fn
		rep.paths(c, r, outs)
		rep.undecided(c, name, outs)
		args := c.methodArgs(fn)
		if len(args) != 2 || !isIntType(args[1].T) {
			rep.bad(c, fn.Pos(), name, "anchor", "", "parameters not understood")
			return nil
		}
		i := args[1]
		rep.site(name)
		for _, o := range outs {
			pth := o.St.pathString()
			bad := func(rule, f string, a ...interface{}) {
				rep.bad(c, c.retPos(o, fn), name, rule, pth, f, a...)
			}
			lo := r.decideLE(o.St, c.U.Int(0), i)
			hi := r.decideLE(o.St, c.U.AddK(i, 1), c.V)
			if o.Kind == OutPanic {
				rep.bad(c, o.Pos, name, "no panic", pth, "%s may panic: %s", m, o.Why)
				continue
			}
			if o.Kind != OutReturn {
				continue
			}
			if o.Res[0].Op == ONil {
				switch {
				case !(lo == no || hi == no):
					bad("variables in range", "%s may refuse a variable in [0..Varnum)", m)
				case !c.errorSet(o):
					bad("variables out of range", "%s returns nil without an error for a variable out of range", m)
				default:
					rep.ok("a variable out of range is refused with an error")
				}
				continue
			}
			if lo != yes || hi != yes {
				bad("variables out of range", "%s may return a node for a variable out of [0..Varnum)", m)
				continue
			}
			if c.errorTouched(o) {
				bad("variables in range", "%s changes the error status for a variable in range", m)
				continue
			}
			v := c.content(r, o, o.Res[0])
			if v.Op != OLoad {
				bad("variables in range", "the node returned by %s is not the one recorded for the variable (%s)", m, short(v.String(), 100))
				continue
			}
			a := v.Args[0]
			// the slice and the index
			var sl, ix *Term
			for x := a; x != nil && (x.Op == OIA || x.Op == OFA); x = x.Args[0] {
				if x.Op == OIA && x.Args[0].Op == OLoad && x.Args[0].Args[0].Op == OFA && x.Args[0].Args[0].Args[0] == c.B {
					sl, ix = x.Args[0], x.Args[1]
					vc.elem = derefType(x.T)
				}
			}
			if sl == nil || r.decideEQ(o.St, ix, i) != yes {
				bad("variables in range", "the node returned by %s is not the one recorded for the variable (%s)", m, short(v.String(), 100))
				continue
			}
			f := sl.Args[0].Aux.(*types.Var)
			if vc.field == nil {
				vc.field = f
			}
			if vc.addr[k] != nil && vc.addr[k] != a {
				bad("variables in range", "%s does not always read the same place", m)
				continue
			}
			vc.addr[k], vc.idx[k], vc.load[k] = a, ix, sl
			rep.ok("a variable in range gives the node recorded for it, without an error")
		}
		if vc.addr[k] == nil {
			rep.bad(c, fn.Pos(), name, "variables in range", "", "no path of %s returns a variable", m)
			return nil
		}
	}
	return vc
}

// errorTouched: the path stores an error status.
func (c *Ctx) errorTouched(o *Outcome) bool {
	for _, e := range o.St.events() {
		if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == c.errorF {
			return true
		}
	}
	return false
}

// roles of the parameters of the function that builds nodes, from what it stores
// in the fields that Label, Low and High read.
func (m *tableModel) stored() (level, low, high int) {
	level, low, high = -1, -1, -1
	for _, o := range m.t.Outs {
		if o.Kind != OutReturn || len(o.Res) == 0 || isIntConst(o.Res[0]) {
			continue
		}
		for _, e := range o.St.events() {
			if e.Kind != EvStore {
				continue
			}
			f, i, _ := m.nodeElem(e.Addr)
			if f == nil || i != o.Res[0] {
				continue
			}
			for k, a := range m.t.Args {
				if stripConv(e.Val) != a {
					continue
				}
				switch f {
				case m.c.levelF:
					level = k
				case m.c.lowF:
					low = k
				case m.c.highF:
					high = k
				}
			}
		}
	}
	return
}

// checkVarset: New records, for each variable, the nodes of the variable and of
// its negation, and these nodes are counted as referenced.
func (c *Ctx) checkVarset(rep *Report, vc *varCells) {
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	lm := m.t.Fn
	pl, p0, p1 := m.stored()
	if pl < 0 || p0 < 0 || p1 < 0 {
		rep.bad(c, lm.Pos(), fname(lm), "analysable", "", "the level and the successors that Label, Low and High read are not the ones that %s is given", fname(lm))
		return
	}
	for _, cr := range c.creations() {
		r := cr.Run
		fn := fname(cr.Fn)
		rep.paths(c, r, cr.Outs)
		rep.undecided(c, fn, cr.Outs)
		rep.site(fn)
		// result of a construction, and its arguments
		call := func(o *Outcome, v *Term) *Event {
			for e := o.St.ev; e != nil; e = e.prev {
				if e.ev.Kind != EvHead || e.ev.Fn != lm && e.ev.Fn != c.Makenode {
					continue
				}
				if v == e.ev.Val || v.Op == OExtr && e.ev.Val != nil && v.Args[0] == e.ev.Val && v.K == 0 || v.Op == OExtr && e.ev.Val != nil && e.ev.Val.Op == OExtr && v == e.ev.Val {
					return e.ev
				}
			}
			return nil
		}
		isVar := func(o *Outcome, v, idx *Term, k int) (bool, string) {
			e := call(o, v)
			if e == nil {
				return false, "it is not the result of a construction (" + short(v.String(), 80) + ")"
			}
			args := e.Args
			off := 0
			if e.Fn == c.Makenode {
				// same order as the kernel function
				ks := map[int]int{}
				for i, a := range m.t.Args {
					switch a {
					case m.pLevel:
						ks[i] = 1
					case m.pLow:
						ks[i] = 2
					case m.pHigh:
						ks[i] = 3
					}
				}
				args = make([]*Term, len(m.t.Args))
				for i, j := range ks {
					args[i] = e.Args[j+off]
				}
			}
			if r.decideEQ(o.St, stripConv(args[pl]), stripConv(idx)) != yes {
				return false, "its level is not the variable"
			}
			if r.decideEQ(o.St, args[p0], c.U.Int(int64(k))) != yes || r.decideEQ(o.St, args[p1], c.U.Int(int64(1-k))) != yes {
				return false, "its successors are not the right constants"
			}
			return true, ""
		}
		var built int
		for _, o := range cr.Outs {
			if o.Kind != OutReturn || len(o.Res) != 2 || o.Res[0].Op == ONil {
				continue
			}
			built++
			b := o.Res[0]
			fa := c.U.FA(b, vc.field)
			sl := r.loadMem(o.St, o.St.mem, fa, vc.field.Type())
			if sl.Op != OAlloc {
				rep.bad(c, c.retPos(o, cr.Fn), fn, "variables recorded", o.St.pathString(), "the nodes of the variables are not recorded in a new list")
				continue
			}
			for k := 0; k < 2; k++ {
				done := false
				why := "no loop records them"
				for _, v := range loopViews(cr.Outs) {
					if !inPath(o, v.Inst) {
						continue
					}
					st, w := c.recordsVar(cr, v, o, sl, vc, k, isVar)
					switch st {
					case 1:
						done = true
					case -1:
						done, why = false, w
					}
					if st == -1 {
						break
					}
				}
				// nothing else is stored there
				if done {
					for _, e := range o.St.events() {
						if e.Kind == EvStore && len(loopsAt(o, e)) == 0 && partOf(e.Addr, sl) {
							done, why = false, "an entry is overwritten"
						}
					}
				}
				if !done {
					rep.bad(c, cr.Fn.Pos(), fn, "variables recorded", o.St.pathString(), "the nodes that %s returns are not the right ones: %s", vc.fn[k].Name(), why)
				} else {
					rep.ok("New records the node of each variable, and of its negation")
				}
			}
		}
		if built == 0 {
			rep.bad(c, cr.Fn.Pos(), fn, "variables recorded", "", "no path of %s creates a BDD", fn)
		}
	}
}

func inPath(o *Outcome, in *LoopInst) bool {
	for e := o.St.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvLoopEnter && e.ev.Loop.ID == in.ID {
			return true
		}
	}
	return false
}

// partOf: the address is inside of an element of the slice.
func partOf(a, sl *Term) bool {
	for x := a; x != nil && (x.Op == OIA || x.Op == OFA); x = x.Args[0] {
		if x.Op == OIA && rootSlice(x.Args[0]) == sl {
			return true
		}
	}
	return false
}

// recordsVar: 1 when each turn of the loop records the node of its variable, 0
// when the loop does not change the list, -1 if it does something else.
func (c *Ctx) recordsVar(cr *creation, v *loopView, o *Outcome, sl *Term, vc *varCells, k int, isVar func(o *Outcome, v, idx *Term, k int) (bool, string)) (int, string) {
	r := cr.Run
	touched := false
	var index *Term
	for _, b := range v.Backs {
		for _, e := range v.body(b) {
			if e.Kind != EvStore || !partOf(e.Addr, sl) {
				continue
			}
			touched = true
			for x := e.Addr; x.Op == OIA || x.Op == OFA; x = x.Args[0] {
				if x.Op == OIA && rootSlice(x.Args[0]) == sl {
					ix := stripConv(x.Args[1])
					if index != nil && index != ix {
						return -1, "several entries change in one turn"
					}
					index = ix
				}
			}
		}
	}
	if !touched {
		return 0, ""
	}
	changed := 0
	for _, b := range v.Backs {
		addr := c.substAddr(vc.addr[k], func(t *Term) *Term {
			if t == vc.load[k] {
				return sl
			}
			if t == vc.idx[k] {
				return index
			}
			return nil
		})
		before := r.loadMem(b.St, v.Inst.Head, addr, types.Typ[types.Int])
		val := r.loadMem(b.St, b.St.mem, addr, types.Typ[types.Int])
		if val == before {
			continue
		}
		changed++
		if ok, why := isVar(b, val, index, k); !ok {
			return -1, why
		}
	}
	if changed == 0 {
		return 0, ""
	}
	if changed != len(v.Backs) {
		return -1, "not every variable is recorded"
	}
	var exits []*Outcome
	for _, x := range v.Exits {
		if x == o {
			exits = append(exits, x)
		}
	}
	if !v.covers(r, index, c.U.Int(0), cr.Varnum, exits) {
		return -1, "not every variable is recorded"
	}
	return 1, ""
}

// checkVarsetFrozen: nothing else changes the list of the variables.
func (c *Ctx) checkVarsetFrozen(rep *Report, vc *varCells) {
	ctors := map[*ssa.Function]bool{}
	for f := range c.constructors() {
		ctors[f] = true
	}
	for _, cr := range c.creations() {
		ctors[cr.Fn] = true
	}
	slT := vc.field.Type().Underlying()
	n := 0
	isList := func(t types.Type) bool { return types.Identical(t.Underlying(), slT) }
	_, arr := vc.elem.Underlying().(*types.Array)
	st := structOf(vc.elem) != nil
	for _, fn := range c.P.Funcs {
		if fn.Blocks == nil || !c.P.isSrc(fn) || ctors[fn] {
			continue
		}
		n++
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					a := in.Addr
					hit := false
					for a != nil {
						switch x := a.(type) {
						case *ssa.FieldAddr:
							if s := structOf(derefType(x.X.Type())); s != nil && s.Field(x.Field) == vc.field {
								hit = true
							}
							a = x.X
							continue
						case *ssa.IndexAddr:
							if isList(x.X.Type()) {
								hit = true
							}
							a = x.X
							continue
						case *ssa.Alloc:
							a = nil
							continue
						}
						if p, ok := a.Type().Underlying().(*types.Pointer); ok && (arr || st) && types.Identical(p.Elem(), vc.elem) {
							hit = true
						}
						break
					}
					if hit {
						rep.bad(c, in.Pos(), fname(fn), "list of variables frozen", "", "the nodes recorded for the variables may be changed after the BDD was created")
					}
				case ssa.CallInstruction:
					b, ok := in.Common().Value.(*ssa.Builtin)
					if !ok || len(in.Common().Args) == 0 {
						continue
					}
					switch b.Name() {
					case "copy", "append", "clear":
						if isList(in.Common().Args[0].Type()) && !(isIntType(slT.(*types.Slice).Elem())) {
							rep.bad(c, in.Pos(), fname(fn), "list of variables frozen", "", "the nodes recorded for the variables may be changed after the BDD was created")
						}
					}
				}
			}
		}
	}
	rep.okn("no other function changes the nodes recorded for the variables", n)
}

// checkBranches: Label, Low and High read the node that they are given.
func (c *Ctx) checkBranches(rep *Report) {
	for _, m := range []string{"Label", "Low", "High"} {
		fn := c.P.method("BDD", m)
		outs, r0, err := c.method(m)
		if err != nil {
			rep.bad(c, token.NoPos, m, "anchor", "", "%v", err)
			continue
		}
		name := fname(fn)
		rep.paths(c, r0, outs)
		rep.undecided(c, name, outs)
		rep.site(name)
		nodes, _ := c.splitArgs(fn)
		if len(nodes) != 1 {
			rep.bad(c, fn.Pos(), name, "anchor", "", "parameters not understood")
			continue
		}
		good := 0
		for _, o := range outs {
			if o.Kind != OutReturn && o.Kind != OutPanic {
				continue
			}
			for _, k := range []int64{0, 1, 2} {
				r := c.newRun()
				st := o.St.clone()
				if !c.assumeInUse(r, st, nodes) {
					continue
				}
				v := c.nodeVal(r, st, nodes[0])
				if k < 2 {
					r.assumeEQ(st, v, c.U.Int(k))
				} else {
					r.assumeLE(st, c.U.Int(2), v)
				}
				if st.dead {
					continue
				}
				pth := o.St.pathString()
				if o.Kind == OutPanic {
					rep.bad(c, o.Pos, name, "no panic", pth, "%s may panic on a valid node: %s", m, o.Why)
					continue
				}
				res := o.Res[0]
				bad := func(f string, a ...interface{}) {
					rep.bad(c, c.retPos(o, fn), name, "result", pth, f, a...)
				}
				if m == "Label" {
					switch {
					case k < 2 && isIntConst(res) && res.K < 0 && c.errorSet(o):
						rep.ok("Label refuses constants")
					case k < 2:
						bad("Label does not report an error for a constant")
					case stripConv(res) == c.lvl(v) && !c.errorTouched(o):
						rep.ok("Label returns the level of the node")
						good++
					default:
						bad("Label does not return the variable of the node (%s)", short(res.String(), 100))
					}
					continue
				}
				f := c.lowF
				if m == "High" {
					f = c.highF
				}
				var got *Term
				if res.Op == ONil {
					if c.stepFailed(r, st) {
						continue
					}
					bad("%s returns nil for a valid node", m)
					continue
				}
				got = c.content(r, &Outcome{St: st}, res)
				want := c.nodeField(r, st, f, v)
				if got != c.nodeField(nil, nil, f, v) && r.decideEQ(st, got, want) != yes || c.errorTouched(o) {
					bad("%s does not return the branch of the node (%s)", m, short(got.String(), 100))
					continue
				}
				good++
				rep.ok("Low and High return the branch of the node")
			}
		}
		if good == 0 {
			rep.bad(c, fn.Pos(), name, "result", "", "no path of %s returns a result for a valid node", m)
		}
	}
}

// assumeInUse restricts a path to operands in use.
func (c *Ctx) assumeInUse(r *Run, st *State, nodes []*Term) bool {
	if !c.assumeValid(r, st, nodes) {
		return false
	}
	for _, n := range nodes {
		v := c.nodeVal(r, st, n)
		for _, f := range []*types.Var{c.lowF, c.highF} {
			r.assumeLE(st, c.U.Int(0), c.nodeField(r, st, f, v))
		}
		if st.dead {
			return false
		}
	}
	return true
}

// checkConstants: the nodes that True and False return hold 1 and 0, for ever.
func (c *Ctx) checkConstants(rep *Report) {
	for k, n := range map[int64]*Term{0: c.Zero, 1: c.One} {
		v := c.InitMem[n]
		if v == nil || !isIntConst(v) || v.K != k {
			rep.bad(c, token.NoPos, map[int64]string{0: "False", 1: "True"}[k], "constants", "", "the constant does not hold %d", k)
			continue
		}
		rep.ok("True and False hold 1 and 0")
	}
	// the variables that hold them, and nodes, are never changed
	globals := map[*ssa.Global]bool{}
	for g, t := range c.Globals {
		if t == c.One || t == c.Zero {
			globals[g] = true
		}
	}
	n := 0
	for _, fn := range c.P.Funcs {
		if fn.Blocks == nil || !c.P.isSrc(fn) {
			continue
		}
		n++
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := s.Addr.(*ssa.Global); ok && globals[g] && fn.Name() != "init" {
					rep.bad(c, s.Pos(), fname(fn), "constants", "", "a constant node is replaced")
				}
				a := s.Addr
				for {
					if x, ok := a.(*ssa.ChangeType); ok {
						a = x.X
						continue
					}
					break
				}
				if types.Identical(a.Type(), c.NodeTy) {
					if _, ok := a.(*ssa.Alloc); !ok {
						rep.bad(c, s.Pos(), fname(fn), "constants", "", "the identifier held by a node is changed: it can be a constant")
					}
				}
			}
		}
	}
	rep.okn("no function changes the identifier that a node holds", n)
}

func (c *Ctx) checkC27(rep *Report) {
	c.checkConstants(rep)
	c.checkBranches(rep)
	if vc := c.checkIthvar(rep); vc != nil {
		c.checkVarset(rep, vc)
		c.checkVarsetFrozen(rep, vc)
	}
	if m := c.tableResults(rep); m != nil {
		_ = m
	}
}

func init() {
	register("C27", "Ithvar and NIthvar return the nodes recorded for the variable, New records the right nodes and counts them at once, nothing else changes the record; Label, Low and High read the node given; the constants hold 1 and 0 for ever", (*Ctx).checkC27)
}
