package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hctx is a context in which a recursive function runs: the values, in terms of
// the arguments of a method, of the cells and parameters that do not change
// during the recursion.
type hctx struct {
	Call *apiCall
	Vals map[*Term]*Term // environment term (load of a cell, parameter) -> value
	Neg  map[int]bool    // parameters that may stand for a failed result
}

func (h *hctx) key() string {
	var l []string
	for k, v := range h.Vals {
		l = append(l, fmt.Sprintf("%d=%d", k.ID, v.ID))
	}
	sort.Strings(l)
	return strings.Join(l, ",") + h.negKey()
}

func (h *hctx) negKey() string {
	var l []string
	for i := range h.Neg {
		l = append(l, fmt.Sprint(i))
	}
	sort.Strings(l)
	return "-" + strings.Join(l, ",")
}

// env lists the environment of a recursive function: cells read at entry and
// parameters that are not nodes.
func (c *Ctx) env(s *HeadSpec) []*Term {
	key := "env:" + s.Fn.String()
	if l, ok := c.shared[key].([]*Term); ok {
		return l
	}
	set := map[*Term]bool{}
	written := map[*Term]bool{} // cells that do not keep their value
	var visit func(fn *ssa.Function, seen map[*ssa.Function]bool)
	visit = func(fn *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		h := c.head(fn)
		kept := map[*Term]bool{}
		for _, a := range h.Cells {
			kept[a] = true
		}
		walked := map[*Term]bool{}
		add := func(t *Term) {
			t.walk(func(x *Term) bool {
				if walked[x] {
					return false
				}
				walked[x] = true
				if x.Op == OLoad && x.K == 0 && singleCell(x.Args[0]) && x.Args[0].Op == OFA && !c.constCell(x.Args[0]) {
					set[x] = true
				}
				return true
			})
		}
		for _, o := range h.Outs {
			for f := range o.St.facts {
				add(f)
			}
			for _, t := range o.Res {
				add(t)
			}
			for _, t := range o.St.zone.list {
				if t != nil {
					add(t)
				}
			}
			for _, e := range o.St.events() {
				if e.Kind == EvStore && singleCell(e.Addr) && !kept[e.Addr] {
					written[e.Addr] = true
				}
				for _, a := range e.Args {
					if a != nil {
						add(a)
					}
				}
				if e.Addr != nil {
					add(e.Addr)
				}
				if e.Val != nil {
					add(e.Val)
				}
				if e.Kind == EvHead && c.spec(e.Fn) != nil {
					visit(e.Fn, seen)
				}
			}
		}
		// cells that hold the operator of functions that are called
		if hs := c.spec(fn); hs != nil {
			for _, p := range hs.Param {
				if p.Op == OLoad {
					set[p] = true
				}
			}
		}
	}
	visit(s.Fn, map[*ssa.Function]bool{})
	for i, a := range c.headArgs(s.Fn) {
		if a == c.B || a == c.T {
			continue
		}
		if r := s.Role[i]; len(r) == 2 && r[0] == 'n' || r == "low" || r == "high" || r == "level" {
			continue
		}
		set[a] = true
	}
	var l []*Term
	for t := range set {
		if t.Op == OLoad && (!isScalar(t.T) || t.Args[0].Aux == c.varnumF || written[t.Args[0]]) {
			continue
		}
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	c.shared[key] = l
	return l
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// constCell: a field that operations never change (the caches, the node table).
func (c *Ctx) constCell(a *Term) bool {
	return !c.apiMod().Mod[termClass(a)]
}

// envAt gives the value of an environment term of the callee at a call.
func (c *Ctx) envAt(r *Run, st *State, s *HeadSpec, t *Term, e *Event) *Term {
	if t.Op == OLoad {
		return r.loadMem(st, e.Mem, t.Args[0], derefType(t.Args[0].T))
	}
	for i, p := range c.headArgs(s.Fn) {
		if p == t {
			return e.Args[i]
		}
	}
	return t
}

// contexts computes the contexts of the recursive functions.
func (c *Ctx) contexts() map[*ssa.Function][]*hctx {
	if m, ok := c.shared["contexts"].(map[*ssa.Function][]*hctx); ok {
		return m
	}
	res := map[*ssa.Function][]*hctx{}
	c.shared["contexts"] = res
	seen := map[string]bool{}
	var todo []struct {
		s *HeadSpec
		h *hctx
	}
	add := func(s *HeadSpec, h *hctx) {
		k := s.Fn.String() + "|" + h.key()
		if seen[k] || len(seen) > 5000 {
			return
		}
		seen[k] = true
		res[s.Fn] = append(res[s.Fn], h)
		todo = append(todo, struct {
			s *HeadSpec
			h *hctx
		}{s, h})
	}
	for _, m := range c.opMethods() {
		outs, r, err := c.method(m)
		if err != nil {
			continue
		}
		done := map[*Event]bool{}
		for _, o := range outs {
			for _, e := range o.St.events() {
				if e.Kind != EvHead || done[e] {
					continue
				}
				done[e] = true
				s := c.spec(e.Fn)
				if s == nil {
					continue
				}
				h := &hctx{Call: &apiCall{m, o, e}, Vals: map[*Term]*Term{}, Neg: map[int]bool{}}
				for _, t := range c.env(s) {
					h.Vals[t] = c.envAt(r, o.St, s, t, e)
				}
				for i, a := range e.Args {
					if intish(a) && !c.nonNegAt(e, a) {
						h.Neg[i] = true
					}
				}
				add(s, h)
			}
		}
	}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		ha := c.head(x.s.Fn)
		done := map[string]bool{}
		for _, o := range ha.Outs {
			if o.Kind != OutReturn || !c.compatible(x.s, x.h, o) {
				continue
			}
			for _, e := range o.St.events() {
				if e.Kind != EvHead {
					continue
				}
				s := c.spec(e.Fn)
				if s == nil {
					continue
				}
				h := &hctx{Call: x.h.Call, Vals: map[*Term]*Term{}, Neg: map[int]bool{}}
				for i, a := range e.Args {
					if !intish(a) || c.nonNegAt(e, a) {
						continue
					}
					neg := true
					for j, p := range c.headArgs(x.s.Fn) {
						if p == a && !x.h.Neg[j] {
							neg = false
						}
					}
					if neg {
						h.Neg[i] = true
					}
				}
				for _, t := range c.env(s) {
					v := c.envAt(ha.Run, o.St, s, t, e)
					h.Vals[t] = c.U.subst(v, x.h.Vals)
				}
				if k := e.Fn.String() + h.key(); !done[k] {
					done[k] = true
					add(s, h)
				}
			}
		}
	}
	return res
}

// compatible: the path is possible in the context.
func (c *Ctx) compatible(s *HeadSpec, h *hctx, o *Outcome) bool {
	p := s.Param["op"]
	if p == nil {
		return true
	}
	v := stripConv(c.U.subst(p, h.Vals))
	r := c.newRun()
	st := o.St.clone()
	if isIntConst(v) {
		r.assumeEQ(st, stripConv(p), v)
		return !st.dead
	}
	// bounds known by the method
	az := c.rawState()
	az.zone = h.Call.Ev.Zone.Clone()
	lo, hi := r.bounds(az, v)
	if lo > -inf {
		r.assumeLE(st, c.U.Int(lo), stripConv(p))
	}
	if hi < inf {
		r.assumeLE(st, stripConv(p), c.U.Int(hi))
	}
	return !st.dead
}

// ---------------------------------------------------------------- variable sets

// setCell describes how the operations represent the set of quantified
// variables: variable v is in the set iff table[v] == id; last is the last one.
type setCell struct {
	Table, ID, Last *Term // addresses
}

func (s *setCell) all() []*Term { return []*Term{s.Table, s.ID, s.Last} }

func (c *Ctx) setCells() *setCell {
	c.checkSets()
	x, _ := c.shared["setcells"].(*setCell)
	return x
}

type setProblem struct {
	method string
	o      *Outcome
	e      *Event
	msg    string
}

// checkSets verifies that the methods that quantify record exactly the
// variables found along the high branches of their variable set.
func (c *Ctx) checkSets() []setProblem {
	if p, ok := c.shared["setproblems"].([]setProblem); ok {
		return p
	}
	probs := []setProblem{}
	c.shared["setproblems"] = probs
	var cells *setCell
	n := 0
	okStores := map[ssa.Instruction]bool{}
	for _, m := range []string{"Exist", "AppEx"} {
		outs, r, err := c.method(m)
		if err != nil {
			continue
		}
		fn := c.P.method("BDD", m)
		nodes, _ := c.splitArgs(fn)
		vs := nodes[len(nodes)-1]
		done := map[*Event]bool{}
		for _, o := range outs {
			evs := o.St.events()
			for i, e := range evs {
				if e.Kind != EvHead || done[e] {
					continue
				}
				s := c.spec(e.Fn)
				if s == nil || s.Kind != "quant" && s.Kind != "appquant" {
					continue
				}
				done[e] = true
				sc, why := c.setup(r, outs, o, evs[:i], e, c.nodeVal(r, o.St, vs), okStores)
				if why != "" {
					probs = append(probs, setProblem{m, o, e, why})
					continue
				}
				n++
				if cells == nil {
					cells = sc
				} else if *cells != *sc {
					probs = append(probs, setProblem{m, o, e, "the methods do not represent variable sets in the same way"})
				}
			}
		}
	}
	if cells != nil {
		// nothing else changes the representation
		idF, tabF := cells.ID.Aux.(*types.Var), cells.Table.Aux.(*types.Var)
		for _, f := range c.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					fv := structOf(derefType(fa.X.Type())).Field(fa.Field)
					if fv != idF && fv != tabF || okStores[in] {
						continue
					}
					if fv == idF {
						if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
							continue
						}
					} else if _, ok := st.Val.(*ssa.MakeSlice); ok && !c.inOps(f) {
						continue
					}
					probs = append(probs, setProblem{fname(f), nil, nil, fmt.Sprintf("field %s is also changed at %s", fv.Name(), c.P.pos(in.Pos()))})
				}
			}
		}
	}
	c.shared["setcells"] = cells
	c.shared["setproblems"] = probs
	c.shared["setcount"] = n
	return probs
}

// inOps: the function runs as part of an operation.
func (c *Ctx) inOps(f *ssa.Function) bool {
	for _, m := range c.opMethods() {
		if r := c.runs[m]; r != nil && r.Funcs[f] {
			return true
		}
	}
	return false
}

func (c *Ctx) setup(r *Run, outs []*Outcome, o *Outcome, pre []*Event, call *Event, vs *Term, okStores map[ssa.Instruction]bool) (*setCell, string) {
	why := "no loop over the high branches of the variable set was found before the call"
	for i := len(pre) - 1; i >= 0; i-- {
		e := pre[i]
		if e.Kind != EvLoopEnter {
			continue
		}
		inst := e.Loop
		// the loop variable
		var phi *ssa.Phi
		for p, v := range inst.Init {
			if v == vs {
				phi = p
			}
		}
		if phi == nil {
			continue
		}
		ph := inst.Phi[phi]
		sc := &setCell{}
		nb := 0
		why = ""
		for _, ob := range outs {
			if ob.Kind != OutLoopBack || ob.Loop.ID != inst.ID {
				continue
			}
			nb++
			if ob.Loop.Next[phi] != c.high(ph) {
				return nil, fmt.Sprintf("the loop goes from a node to %v instead of its high successor", ob.Loop.Next[phi])
			}
			var tab, id, last *Term
			in := false
			for _, x := range ob.St.events() {
				if x.Kind == EvLoopEnter && x.Loop == inst {
					in = true
				}
				if !in || x.Kind != EvStore {
					continue
				}
				switch {
				case x.Addr.Op == OIA && stripConv(x.Addr.Args[1]) == c.lvl(ph) && x.Addr.Args[0].Op != OParam:
					tab, id = x.Addr.Args[0], x.Val
				case singleCell(x.Addr) && stripConv(x.Val) == c.lvl(ph):
					last = x.Addr
				}
			}
			if tab == nil {
				return nil, "a variable of the set is not recorded"
			}
			if last == nil {
				return nil, "the last variable of the set is not recorded"
			}
			// cells that hold the table and the identifier at the call
			tc := c.cellHolding(r, o.St, call, tab)
			ic := c.cellHolding(r, o.St, call, id)
			if tc == nil || ic == nil {
				return nil, "the table of quantified variables used by the recursion is not the one that was filled"
			}
			n := &setCell{tc, ic, last}
			if nb > 1 && *n != *sc {
				return nil, "variables are not always recorded in the same way"
			}
			sc = n
			// freshness of the identifier
			tcell := r.loadMem(o.St, map[Class]*classMem{}, tc, derefType(tc.T))
			old := r.loadMem(o.St, map[Class]*classMem{}, ic, derefType(ic.T))
			fresh := tab.Op == OAlloc && tab.K > 0
			switch {
			case fresh && isIntConst(id) && id.K != 0:
			case fresh && id == c.U.AddK(old, 1):
			case !fresh && tab == tcell && isIntConst(id) && id.K != 0 && clearedBefore(r, outs, o, pre[:i], tab):
			case !fresh && tab == tcell && id == c.U.AddK(old, 1):
				z := o.St.clone()
				r.assumeEQ(z, id, c.U.Int(math.MaxInt32))
				if !z.dead {
					lo, hi := typeRange(derefType(ic.T))
					if lo > -inf && hi < inf {
						return nil, fmt.Sprintf("the identifier of the set can overflow (%v)", id)
					}
				}
			default:
				return nil, fmt.Sprintf("the identifier of the set (%v) may be the one of a previous set", id)
			}
		}
		if nb == 0 {
			return nil, "the variables of the set are not recorded"
		}
		// the loop stops on a constant only
		if _, hi := r.bounds(o.St, ph); hi > 1 {
			return nil, "the recording of the variable set may stop too early"
		}
		// nothing changes between the loop and the call
		for _, x := range pre[i:] {
			if x.Kind == EvStore && (x.Addr == sc.Table || x.Addr == sc.ID) {
				return nil, "the variable set is changed before the call"
			}
			if x.Kind == EvStore && x.Addr == sc.Last {
				return nil, "the last variable is changed before the call"
			}
		}
		for _, x := range pre {
			if x.Kind == EvStore && (x.Addr == sc.Table || x.Addr == sc.ID) {
				okStores[x.Instr] = true
			}
		}
		return sc, ""
	}
	return nil, why
}

// clearedBefore: the events end with a loop that sets all the entries of tab to zero,
// and no entry is written afterwards.
func clearedBefore(r *Run, outs []*Outcome, o *Outcome, pre []*Event, tab *Term) bool {
	for i := len(pre) - 1; i >= 0; i-- {
		e := pre[i]
		switch {
		case e.Kind == EvCall, e.Kind == EvStore && e.Addr.Op == OIA:
			return false
		case e.Kind != EvLoopExit:
			continue
		}
		for _, v := range loopViews(outs) {
			if v.Inst.ID != e.Loop.ID {
				continue
			}
			var idx *Term
			for _, ob := range v.Backs {
				n := 0
				for _, x := range v.body(ob) {
					if x.Kind != EvStore || x.Addr.Op != OIA {
						continue
					}
					if x.Addr.Args[0] != tab || !isIntConst(x.Val) || x.Val.K != 0 || idx != nil && idx != x.Addr.Args[1] {
						return false
					}
					idx = x.Addr.Args[1]
					n++
				}
				if n == 0 {
					return false
				}
			}
			return idx != nil && v.covers(r, idx, r.U.Int(0), r.length(v.Inst.Pre, tab, tab.T), []*Outcome{o})
		}
		return false
	}
	return false
}

// cellHolding finds the cell whose contents at the call is v.
func (c *Ctx) cellHolding(r *Run, st *State, call *Event, v *Term) *Term {
	if v.Op == OLoad && v.K == 0 && singleCell(v.Args[0]) {
		if r.loadMem(st, call.Mem, v.Args[0], derefType(v.Args[0].T)) == v {
			return v.Args[0]
		}
	}
	for _, m := range call.Mem {
		for _, w := range m.writes {
			if w.val == v && singleCell(w.addr) && r.loadMem(st, call.Mem, w.addr, derefType(w.addr.T)) == v {
				return w.addr
			}
		}
	}
	return nil
}

// replaceImage gives the variable that a level is renamed to.
func (d *den) replaceImage(level *Term) *Ex {
	t := d.c.imageOf(d.r, d.st, level)
	if t == nil {
		return d.fail("the renaming of level %v is not understood", level)
	}
	return d.varOf(t)
}

// replacerOf gives the replacer of a path of Replace.
func (c *Ctx) replacerOf(s *HeadSpec) (*Term, *ssa.Function) {
	it := c.P.typeNamed("Replacer")
	if it == nil {
		return nil, nil
	}
	for i, p := range s.Fn.Params {
		if types.Identical(p.Type(), it) {
			a := c.headArgs(s.Fn)[i]
			fn := c.replacerMethod("Replace")
			if fn == nil {
				return nil, nil
			}
			rt := fn.Signature.Recv().Type()
			return c.U.mk(OUn, "impl "+typeKey(rt), 0, rt, nil, a), fn
		}
	}
	return nil, nil
}

func (c *Ctx) replacerMethod(name string) *ssa.Function {
	nr := c.P.method("BDD", "NewReplacer")
	it := c.P.typeNamed("Replacer")
	if nr == nil || it == nil {
		return nil
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res *ssa.Function
	for _, f := range c.P.Funcs {
		if f.Name() != name || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		if types.Implements(f.Signature.Recv().Type(), iface) {
			if res != nil && res != f {
				return nil
			}
			res = f
		}
	}
	return res
}

func (c *Ctx) imageOf(r *Run, st *State, level *Term) *Term {
	s := c.specOfKind("replace")
	if s == nil {
		return nil
	}
	recv, fn := c.replacerOf(s)
	if fn == nil {
		return nil
	}
	rr := c.newRun()
	outs := rr.Exec(fn, []*Term{recv, level}, func() *State {
		n := st.clone()
		n.ev = nil
		n.loops = nil
		n.mem = map[Class]*classMem{}
		return n
	})
	var res *Term
	for _, o := range outs {
		if o.Kind != OutReturn || len(o.Res) == 0 {
			return nil
		}
		if res != nil && res != o.Res[0] {
			return nil
		}
		res = o.Res[0]
	}
	return res
}
