package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ordering proves lower bounds on the level of nodes.
type ordering struct {
	c    *Ctx
	r    *Run
	st   *State
	mins map[*Term]bool
	deep int
	phis map[*Term]*phiFact
}

// phiFact: the level of the loop variable is at least Bound.
type phiFact struct{ Bound *Term }

func headEventOf(st *State, t *Term) *Event {
	for e := st.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvHead && e.ev.Val == t {
			return e.ev
		}
	}
	return nil
}

func (o *ordering) le(a, b *Term) bool { return o.r.decideLE(o.st, a, b) == yes }

// atLeast proves that the level of the node t (not negative) is k or more.
func (o *ordering) atLeast(k, t *Term) bool {
	o.deep++
	defer func() { o.deep-- }()
	if o.deep > 12 {
		return false
	}
	c := o.c
	if lo, hi := o.r.bounds(o.st, t); hi < 0 {
		return true // a failed result: no node is built from it
	} else if hi <= 1 && lo >= -1 {
		return o.le(k, c.V)
	}
	if f, ok := o.phis[t]; ok {
		return o.le(k, f.Bound)
	}
	switch {
	case t.Op == OMk:
		if o.le(k, t.Args[0]) {
			return true
		}
		return o.atLeast(k, t.Args[1]) && o.atLeast(k, t.Args[2])
	case t.Op == OHead:
		s := c.spec(t.Aux.(*headInfo).Fn)
		e := headEventOf(o.st, t)
		if s == nil || e == nil {
			return o.le(k, c.lvl(t))
		}
		if s.Kind == "replace" {
			return o.le(k, o.r.U.Int(0)) || o.le(k, c.lvl(t))
		}
		if o.le(k, c.lvl(t)) {
			return true
		}
		n := 0
		for i, role := range s.Role {
			switch {
			case len(role) == 2 && role[0] == 'n' || role == "low" || role == "high":
				if !o.atLeast(k, e.Args[i]) {
					return false
				}
				n++
			case role == "level":
				if !o.le(k, stripConv(e.Args[i])) {
					return false
				}
			}
		}
		return n > 0
	case c.isNodeField(t, c.lowF), c.isNodeField(t, c.highF):
		p := t.Args[0]
		if lo, _ := o.r.bounds(o.st, p); lo >= 2 {
			if o.le(k, c.U.AddK(c.lvl(p), 1)) {
				return true
			}
		}
		if o.le(k, c.lvl(p)) {
			return true
		}
	}
	if n, ok := o.sameAs(t); ok {
		return o.atLeast(k, n)
	}
	return o.le(k, c.lvl(t))
}

// sameAs: t is equal to a constant or to another term about which more is known.
func (o *ordering) sameAs(t *Term) (*Term, bool) {
	if isIntConst(t) {
		return nil, false
	}
	if lo, hi := o.r.bounds(o.st, t); lo == hi {
		return o.c.U.Int(lo), true
	}
	return nil, false
}

// mkOK proves that a node built on the path is well ordered.
func (o *ordering) mkOK(e *Event) string {
	c := o.c
	lv := stripConv(e.Args[0])
	for i := 1; i <= 2; i++ {
		if _, hi := o.r.bounds(o.st, e.Args[i]); hi < 0 {
			return "" // refused by Makenode (C22)
		}
	}
	if !o.le(c.U.Int(0), lv) {
		return fmt.Sprintf("the level %s may be negative", short(lv.String(), 80))
	}
	for i, n := range []string{"low", "high"} {
		ch := e.Args[1+i]
		if !o.atLeast(c.U.AddK(lv, 1), ch) {
			return fmt.Sprintf("the level %s of a new node is not shown to be above the one of its %s successor %s", short(lv.String(), 80), n, short(ch.String(), 120))
		}
	}
	return ""
}

func (c *Ctx) checkOrder(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	c.contexts()
	// functions that build nodes
	seen := map[*ssa.Function]bool{}
	for fn, s := range c.specs() {
		seen[fn] = true
		h := c.head(fn)
		rep.paths(c, h.Run, h.Outs)
		rep.undecided(c, fname(fn), h.Outs)
		for _, o := range h.Outs {
			if o.Kind != OutReturn {
				continue
			}
			for _, pc := range c.cases(s, h, o, c.contexts()[fn]) {
				d := pc.d
				st := d.st.clone()
				od := &ordering{c: c, r: d.r, st: st}
				if lp := s.Param["level"]; lp != nil {
					d.r.assumeLE(st, c.U.Int(0), lp)
					d.r.assumeLE(st, c.U.AddK(lp, 1), c.V)
					if st.dead {
						continue
					}
				}
				c.constNodes(d.r, st, s)
				if st.dead {
					continue
				}
				bad := false
				for _, e := range o.St.events() {
					switch e.Kind {
					case EvMk:
						rep.site("node built at " + c.P.pos(e.Instr.Pos()))
						if why := od.mkOK(e); why != "" {
							rep.bad(c, e.Instr.Pos(), fname(fn), "ordered node", o.St.pathString(), "%s (%s)", why, pc.desc)
							bad = true
						} else {
							rep.ok("new node above its successors")
						}
					case EvHead:
						s2 := c.spec(e.Fn)
						if s2 == nil || s2.Param["level"] == nil {
							continue
						}
						lv := stripConv(s2.argOf(e, "level"))
						if c.levelInRange(d, lv) {
							rep.ok("level given to the reordering step in range")
						} else {
							rep.bad(c, e.Instr.Pos(), fname(fn), "level in range", o.St.pathString(), "the level %s may be out of range", short(lv.String(), 100))
						}
					}
				}
				if bad || s.Kind == "replace" {
					continue
				}
				ret := o.Res[0]
				if _, hi := d.r.bounds(st, ret); hi < 0 {
					continue
				}
				if k, _, _ := c.entryOf(loadAddr(ret)); k != "" {
					rep.ok("remembered result (C19)")
					continue
				}
				min := c.V
				if len(d.order) > 0 {
					min = d.order[0]
				}
				if !od.atLeast(min, ret) {
					rep.bad(c, o.St.lastPos(c, s), fname(fn), "level of the result", o.St.pathString(), "the result %s may be above all the operands (%s)", short(ret.String(), 160), pc.desc)
				} else {
					rep.ok("result not above the operands")
				}
			}
		}
	}
	// other functions of the interface
	for _, fn := range c.apiFuncs() {
		if fn == c.Makenode || fn.Signature.Recv() == nil || !types.Identical(fn.Signature.Recv().Type(), c.B.T) {
			continue
		}
		outs, r, err := c.method(fn.Name())
		if err != nil {
			continue
		}
		mk := false
		for _, o := range outs {
			for e := o.St.ev; e != nil; e = e.prev {
				if e.ev.Kind == EvMk {
					mk = true
				}
			}
		}
		if !mk {
			continue
		}
		rep.paths(c, r, outs)
		rep.undecided(c, fname(fn), outs)
		for _, o := range outs {
			if o.Kind == OutUndecided {
				continue
			}
			for _, e := range o.St.events() {
				if e.Kind != EvMk {
					continue
				}
				rep.site("node built at " + c.P.pos(e.Instr.Pos()))
				st := c.rawState()
				st.zone = e.Zone.Clone()
				st.ev = o.St.ev
				od := &ordering{c: c, r: c.newRun(), st: st, phis: c.loopLevels(o, outs, e)}
				if why := od.mkOK(e); why != "" {
					rep.bad(c, e.Instr.Pos(), fname(fn), "ordered node", o.St.pathString(), "%s", why)
				} else {
					rep.ok("new node above its successors")
				}
			}
		}
	}
	c.rawMakers(rep)
}

// constNodes adds what holds of the parameters that are constants.
func (c *Ctx) constNodes(r *Run, st *State, s *HeadSpec) {
	for role, p := range s.Param {
		if len(role) == 2 && role[0] == 'n' || role == "low" || role == "high" {
			if lo, hi := r.bounds(st, p); lo == hi && (lo == 0 || lo == 1) {
				r.assumeEQ(st, c.lvl(p), c.V)
				r.assumeEQ(st, c.low(p), c.U.Int(lo))
				r.assumeEQ(st, c.high(p), c.U.Int(lo))
			}
		}
	}
}

func loadAddr(t *Term) *Term {
	if t != nil && t.Op == OLoad {
		return t.Args[0]
	}
	return nil
}

// levelInRange: a level given to the function that inserts it.
func (c *Ctx) levelInRange(d *den, lv *Term) bool {
	if d.self != nil && d.self.Param["level"] == lv {
		return true
	}
	st := d.st
	if d.r.decideLE(st, c.U.AddK(lv, 1), c.V) == yes && d.r.decideLE(st, c.U.Int(0), lv) == yes {
		return true
	}
	// the image of a level under a replacer (C07)
	for _, role := range []string{"n0"} {
		n := d.self.Param[role]
		if n == nil {
			continue
		}
		if im := c.imageOf(d.r, st, c.lvl(n)); im != nil && stripConv(im) == lv {
			return true
		}
	}
	return false
}

// loopLevels finds, for the loop variables that hold a node, a bound on its
// level that holds at the head of the loop.
func (c *Ctx) loopLevels(o *Outcome, outs []*Outcome, at *Event) map[*Term]*phiFact {
	res := map[*Term]*phiFact{}
	for _, in := range loopsAt(o, at) {
		var v *loopView
		for _, x := range loopViews(outs) {
			if x.Inst.ID == in.ID {
				v = x
			}
		}
		if v == nil {
			continue
		}
		r := c.newRun()
		for p, ph := range v.Inst.Phi {
			if !isIntType(p.Type()) {
				continue
			}
			for q, qh := range v.Inst.Phi {
				if q == p || !isIntType(q.Type()) {
					continue
				}
				if s, ok := v.step(r, q); !ok || s != -1 {
					continue
				}
				for _, dk := range []int64{1, 0} {
					// candidate: level(p) >= q + dk
					bound := c.U.AddK(qh, dk)
					init := c.U.AddK(v.Inst.Init[q], dk)
					oi := &ordering{c: c, r: r, st: v.Inst.Pre, phis: res}
					if !oi.atLeast(init, v.Inst.Init[p]) {
						continue
					}
					good := true
					for _, b := range v.Backs {
						m := map[*Term]*phiFact{ph: {bound}}
						for k, f := range res {
							m[k] = f
						}
						ob := &ordering{c: c, r: r, st: b.St, phis: m}
						if !ob.atLeast(c.U.AddK(b.Loop.Next[q], dk), b.Loop.Next[p]) {
							good = false
						}
					}
					if good && res[ph] == nil {
						res[ph] = &phiFact{bound}
					}
				}
			}
		}
	}
	return res
}

// lowMakers are the functions of the node table that Makenode relies on to build
// a node.
func (c *Ctx) lowMaker() *ssa.Function {
	var res *ssa.Function
	for _, b := range c.Makenode.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := staticCallee(&call.Call)
			if f == nil || !c.P.isSrc(f) {
				continue
			}
			if f.Signature.Results().Len() >= 1 && isIntType(f.Signature.Results().At(0).Type()) && len(f.Params) >= 4 {
				res = f
			}
		}
	}
	return res
}

// alwaysConstNode: the value is one of the two constants; it can be given by the
// callers of the function.
func (c *Ctx) alwaysConstNode(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Int64() >= 0 && x.Int64() <= 1
	case *ssa.Parameter:
		f := x.Parent()
		if depth > 3 || f.Object() == nil || f.Object().Exported() || c.P.escapes(f) {
			return false
		}
		pos, n := -1, 0
		for i, p := range f.Params {
			if p == x {
				pos = i
			}
		}
		for _, g := range c.P.Funcs {
			if g.Synthetic != "" {
				continue // wrapper of a promoted method
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || staticCallee(ci.Common()) != f {
						continue
					}
					n++
					if pos < 0 || !c.alwaysConstNode(ci.Common().Args[pos], depth+1) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// rawMakers checks the nodes that are built without Makenode.
func (c *Ctx) rawMakers(rep *Report) {
	lm := c.lowMaker()
	if lm == nil {
		rep.bad(c, c.Makenode.Pos(), fname(c.Makenode), "anchor", "", "the function of the node table that builds nodes was not found")
		return
	}
	n := 0
	for _, f := range c.P.Funcs {
		if f == c.Makenode || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || staticCallee(ci.Common()) != lm {
					continue
				}
				n++
				rep.site("node built at " + c.P.pos(in.Pos()))
				a := ci.Common().Args
				if !c.alwaysConstNode(a[2], 0) || !c.alwaysConstNode(a[3], 0) {
					rep.bad(c, in.Pos(), fname(f), "ordered node", "", "a node is built below Makenode with successors that are not constants")
				} else {
					rep.ok("variables have constant successors")
				}
			}
		}
	}
	_ = n
}

func init() {
	register("C13", "every call that builds a node, in the recursive functions (for each order of the levels of the operands) and in the other methods (with loop invariants), is proved to have a level in range and strictly smaller than the one of the successors; each recursive function is proved to return a node whose level is not above those of its operands", func(c *Ctx, rep *Report) {
		c.checkOrder(rep)
	})
}
