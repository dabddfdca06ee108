package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// maxVarnum is the documented limit on the number of variables.
const maxVarnum = 1<<21 - 1

// creation is the interpretation of a function that creates a BDD: everything is
// followed, except the construction of nodes and functions without effects.
type creation struct {
	Fn     *ssa.Function
	Run    *Run
	Outs   []*Outcome
	Varnum *Term
	optT   types.Type // type of the options
}

func (c *Ctx) creations() []*creation {
	if l, ok := c.shared["creations"].([]*creation); ok {
		return l
	}
	var l []*creation
	for _, fn := range c.apiFuncs() {
		if fn.Signature.Recv() != nil || !c.createsFn(fn) {
			continue
		}
		r := c.unitRun(fn)
		r.Loads = false
		for f := range r.NoInline {
			if f == c.Makenode || f == c.Retnode || f == c.lowMaker() || c.P.recursive(f) || c.P.noEffects(f) {
				continue
			}
			delete(r.NoInline, f)
		}
		args := c.unitArgs(fn)
		cr := &creation{Fn: fn, Run: r}
		for _, a := range args {
			if isIntType(a.T) && cr.Varnum == nil {
				cr.Varnum = a
			}
			if sl, ok := a.T.Underlying().(*types.Slice); ok {
				cr.optT = sl.Elem()
			}
		}
		cr.Outs = r.Exec(fn, args, func() *State { return c.rawState() })
		l = append(l, cr)
	}
	c.shared["creations"] = l
	return l
}

// option is an exported function that returns a configuration option.
type option struct {
	name  string
	fn    *ssa.Function
	field *types.Var // the field of the configuration that it sets
	param *Term
	outs  []*Outcome // of the option itself, on the configuration cfg
	run   *Run
	cfg   *Term
}

// optionOf follows an option and the function that it returns.
func (c *Ctx) optionOf(rep *Report, fn *ssa.Function) *option {
	r := c.unitRun(fn)
	args := c.unitArgs(fn)
	outs := r.Exec(fn, args, func() *State { return c.rawState() })
	o := &option{name: fn.Name(), fn: fn, run: r}
	if len(args) != 1 || !isIntType(args[0].T) {
		rep.bad(c, fn.Pos(), fname(fn), "option", "", "option %s was expected to have one integer parameter", fn.Name())
		return nil
	}
	o.param = args[0]
	rep.undecided(c, fname(fn), outs)
	for _, x := range outs {
		if x.Kind != OutReturn {
			continue
		}
		if len(x.Res) != 1 || x.Res[0].Op != OClosure {
			rep.bad(c, fn.Pos(), fname(fn), "option", x.St.pathString(), "the option returned by %s is not understood", fn.Name())
			return nil
		}
		f := x.Res[0].Aux.(*ssa.Function)
		if len(f.Params) != 1 {
			rep.bad(c, fn.Pos(), fname(fn), "option", x.St.pathString(), "the option returned by %s is not understood", fn.Name())
			return nil
		}
		o.cfg = c.U.Param("config", f.Params[0].Type())
		r2 := c.unitRun(f)
		as := append([]*Term{o.cfg}, x.Res[0].Args...)
		l := r2.Exec(f, as, func() *State {
			st := x.St.clone()
			st.ev = nil
			return st
		})
		o.run = r2
		rep.undecided(c, fname(fn), l)
		rep.paths(c, r2, l)
		o.outs = append(o.outs, l...)
	}
	return o
}

// setField is the field that receives the parameter of the option.
func (o *option) setField(c *Ctx) *types.Var {
	var res *types.Var
	for _, x := range o.outs {
		for _, e := range x.St.events() {
			if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Args[0] == o.cfg {
				f := e.Addr.Aux.(*types.Var)
				if stripConv(e.Val) == o.param {
					return f
				}
				res = f
			}
		}
	}
	return res
}

// scalars lists the integer locations of an object: path of fields and address.
func (c *Ctx) scalars(r *Run, st *State, base *Term) map[string]*Term {
	res := map[string]*Term{}
	var walk func(a *Term, path string, d int)
	walk = func(a *Term, path string, d int) {
		t := derefType(a.T)
		s := structOf(t)
		if s == nil || d > 5 {
			return
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != c.P.Types {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fa := c.U.FA(a, f)
			switch {
			case isIntType(f.Type()):
				res[path+f.Name()] = fa
			case structOf(f.Type()) != nil:
				walk(fa, path+f.Name()+".", d+1)
			default:
				if p, ok := f.Type().Underlying().(*types.Pointer); ok && structOf(p.Elem()) != nil {
					v := r.loadMem(st, st.mem, fa, f.Type())
					if v.Op != ONil {
						walk(v, path+f.Name()+".", d+1)
					}
				}
			}
		}
	}
	walk(base, "", 0)
	return res
}

func mentions(t *Term, f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, f) {
			return true
		}
	}
	return false
}

// links lists the integer locations below an object that hold the value of a
// field of the configuration.
func (c *Ctx) links(r *Run, st *State, base, cfg *Term, f *types.Var) []string {
	var l []string
	for k, a := range c.scalars(r, st, base) {
		v := stripConv(r.loadMem(st, st.mem, a, derefType(a.T)))
		if v.Op == OLoad && v.Args[0].Op == OFA && v.Args[0].Aux == f && v.Args[0].Args[0] == cfg && rootOf(a) != rootOf(cfg) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func (c *Ctx) checkC24(rep *Report) {
	cl := c.creations()
	if len(cl) == 0 {
		rep.bad(c, token.NoPos, "", "creation", "", "the function that creates a BDD was not found")
		return
	}
	opts := map[string]*option{}
	for _, n := range []string{"Nodesize", "Maxnodesize", "Maxnodeincrease", "Minfreenodes", "Cachesize", "Cacheratio"} {
		fn := c.P.function(n)
		if fn == nil {
			rep.bad(c, token.NoPos, n, "option", "", "option %s was not found", n)
			return
		}
		o := c.optionOf(rep, fn)
		if o == nil {
			return
		}
		o.field = o.setField(c)
		if o.field == nil {
			rep.bad(c, fn.Pos(), n, "option", "", "option %s has no effect on the configuration", n)
			return
		}
		opts[n] = o
		rep.site(n)
	}
	names := make([]string, 0, len(opts))
	for n := range opts {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		for _, n2 := range names[:i] {
			if opts[n].field == opts[n2].field {
				rep.bad(c, opts[n].fn.Pos(), n, "option", "", "options %s and %s set the same parameter", n, n2)
			}
		}
	}
	for _, cr := range cl {
		c.checkCreation(rep, cr, opts)
	}
}

func (c *Ctx) checkCreation(rep *Report, cr *creation, opts map[string]*option) {
	u, r := c.U, cr.Run
	fn := fname(cr.Fn)
	bad := func(o *Outcome, rule, f string, a ...interface{}) {
		rep.bad(c, c.retPos(o, cr.Fn), fn, rule, o.St.pathString(), f, a...)
	}
	rep.paths(c, r, cr.Outs)
	rep.undecided(c, fn, cr.Outs)
	if cr.Varnum == nil {
		rep.bad(c, cr.Fn.Pos(), fn, "creation", "", "the number of variables was not found")
		return
	}
	lm := c.lowMaker()
	// the configuration, and what it holds when the options are applied
	var cfg *Term
	var first *State
	var firstMem map[Class]*classMem
	for _, o := range cr.Outs {
		for _, e := range o.St.events() {
			if e.Kind == EvCallback && len(e.Args) == 2 && cr.optT != nil && types.Identical(e.Args[0].T.Underlying(), cr.optT.Underlying()) {
				cfg = e.Args[1]
				first, firstMem = o.St, e.Mem
				if in := loopsAt(o, e); len(in) > 0 {
					first, firstMem = in[0].Pre, in[0].Pre.mem
				}
			}
		}
	}
	if cfg == nil {
		rep.bad(c, cr.Fn.Pos(), fn, "options applied", "", "no path applies the options")
		return
	}
	// the options are applied in a loop that covers the list
	applied := false
	for _, v := range loopViews(cr.Outs) {
		call := false
		for _, o := range v.Backs {
			for _, e := range v.body(o) {
				if e.Kind == EvCallback && len(e.Args) == 2 && e.Args[1] == cfg {
					call = true
				}
			}
		}
		if !call {
			continue
		}
		applied = c.coversOptions(rep, cr, v, cfg)
	}
	if !applied {
		rep.bad(c, cr.Fn.Pos(), fn, "options applied", "", "the options are not all applied")
	} else {
		rep.ok("every option is applied to the configuration, in order")
	}
	// the copy of the number of variables in the configuration
	vfs := map[*types.Var]bool{}
	for _, a := range c.scalars(r, first, cfg) {
		if stripConv(r.loadMem(first, firstMem, a, derefType(a.T))) == cr.Varnum {
			vfs[a.Aux.(*types.Var)] = true
		}
	}
	// options: each one sets its field to the value given
	for _, op := range opts {
		for _, x := range op.outs {
			if x.Kind != OutReturn {
				continue
			}
			for _, e := range x.St.events() {
				if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Args[0] == op.cfg && e.Addr.Aux != op.field {
					rep.bad(c, e.Instr.Pos(), op.name, "option", x.St.pathString(), "option %s changes field %s, that it is not about", op.name, e.Addr.Aux.(*types.Var).Name())
				}
			}
			v := op.run.loadMem(x.St, x.St.mem, u.FA(op.cfg, op.field), op.field.Type())
			if stripConv(v) == op.param {
				rep.ok("an option sets the parameter that it documents")
				continue
			}
			if op.name == "Nodesize" {
				// too small for the variables
				small := false
				for f := range vfs {
					vn := op.run.loadMem(x.St, x.St.mem, u.FA(op.cfg, f), f.Type())
					if op.run.decideLE(x.St, u.AddK(op.param, 1), u.AddK(u.Add(vn, vn), 2)) == yes {
						small = true
					}
				}
				if small {
					rep.ok("an option sets the parameter that it documents")
					continue
				}
			}
			rep.bad(c, c.retPos(x, op.fn), op.name, "option", x.St.pathString(), "option %s may leave %v in the configuration", op.name, short(v.String(), 100))
		}
	}
	// the initial size is large enough for the variables, whatever the options
	need := func(st *State, v *Term) *Term { return u.AddK(u.Add(v, v), 2) }
	nf := opts["Nodesize"].field
	inv := r.decideLE(first, need(first, cr.Varnum), r.loadMem(first, firstMem, u.FA(cfg, nf), nf.Type())) == yes
	for _, op := range opts {
		for _, x := range op.outs {
			if x.Kind != OutReturn || !inv {
				continue
			}
			v0 := op.run.loadMem(x.St, map[Class]*classMem{}, u.FA(op.cfg, nf), nf.Type())
			v := op.run.loadMem(x.St, x.St.mem, u.FA(op.cfg, nf), nf.Type())
			if v == v0 {
				continue
			}
			ok := false
			for f := range vfs {
				vn := op.run.loadMem(x.St, x.St.mem, u.FA(op.cfg, f), f.Type())
				if op.run.decideLE(x.St, need(x.St, vn), v) == yes {
					ok = true
				}
			}
			inv = ok
		}
	}
	minKeys, maxKeys, incKeys := map[string]bool{}, map[string]bool{}, map[string]bool{}
	ratioKeys := map[string]bool{}
	built := 0
	fs, _, _ := c.nonEmpty()
	for _, o := range cr.Outs {
		if o.Kind != OutReturn || len(o.Res) != 2 {
			if o.Kind == OutReturn {
				bad(o, "creation", "the results of %s are not understood", fn)
			}
			continue
		}
		b, er := o.Res[0], o.Res[1]
		lo := r.decideLE(o.St, u.Int(1), cr.Varnum)
		hi := r.decideLE(o.St, cr.Varnum, u.Int(maxVarnum))
		if b.Op == ONil {
			if !r.nonNil(o.St, er) {
				bad(o, "number of variables", "a nil BDD is returned without an error")
				continue
			}
			if lo == no || hi == no {
				rep.ok("New refuses a number of variables out of bounds, with an error")
				continue
			}
			// the only other reason is a node that cannot be built
			failed := false
			for _, e := range o.St.events() {
				if e.Kind != EvHead || e.Fn != lm && e.Fn != c.Makenode || e.Val == nil {
					continue
				}
				if r.decideLE(o.St, e.Val, u.Int(-1)) == yes {
					failed = true
				}
				if e.Val.Op == OExtr {
					x := u.mk(OExtr, nil, 1, types.Universe.Lookup("error").Type(), nil, e.Val.Args[0])
					if r.nonNil(o.St, x) {
						failed = true
					}
				}
			}
			if !failed {
				bad(o, "number of variables", "a number of variables in [1..%d] may be refused", maxVarnum)
				continue
			}
			rep.ok("New returns an error when the variables cannot be allocated")
			continue
		}
		if lo != yes || hi != yes {
			bad(o, "number of variables", "a BDD may be created for a number of variables outside of [1..%d]", maxVarnum)
			continue
		}
		if er.Op != ONil {
			bad(o, "number of variables", "a BDD is returned together with an error")
			continue
		}
		built++
		rep.ok("a BDD is created only for 1 to 2^21-1 variables")
		// the table
		tp := u.FA(b, c.tablesF)
		T := r.loadMem(o.St, o.St.mem, tp, derefType(tp.T))
		if T.Op != OAlloc {
			bad(o, "initial size", "the table of the new BDD is not understood")
			continue
		}
		post := func(f *types.Var) *Term { return r.loadMem(o.St, o.St.mem, u.FA(cfg, f), f.Type()) }
		ns := post(nf)
		if inv {
			r.assumeLE(o.St, need(o.St, cr.Varnum), ns)
		}
		var mk *Event
		for _, e := range o.St.events() {
			if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == c.nodesF && e.Addr.Args[0] == T {
				mk = e
			}
		}
		if mk == nil {
			bad(o, "initial size", "the table of nodes is not allocated")
			continue
		}
		ln := r.length(o.St, mk.Val, c.nodesF.Type())
		if r.decideLE(o.St, ns, ln) != yes {
			rep.bad(c, mk.Instr.Pos(), fn, "initial size", o.St.pathString(), "the table of nodes (length %v) may be smaller than the size set by option Nodesize", short(ln.String(), 100))
		} else if r.decideLE(o.St, need(o.St, cr.Varnum), ln) != yes {
			rep.bad(c, mk.Instr.Pos(), fn, "initial size", o.St.pathString(), "the table of nodes (length %v) may be too small for the variables", short(ln.String(), 100))
		} else {
			rep.ok("the initial table has at least the size set by option Nodesize, and room for the variables")
		}
		if c.sizeHook != nil {
			c.sizeHook("table", r, o, mk.Instr.Pos(), "node table", ln, []*Term{ns})
		}
		// limits
		for _, x := range []struct {
			n    string
			keys map[string]bool
		}{{"Maxnodesize", maxKeys}, {"Maxnodeincrease", incKeys}, {"Minfreenodes", minKeys}} {
			l := c.links(r, o.St, T, cfg, opts[x.n].field)
			if len(l) == 0 {
				bad(o, "limits", "the value of option %s does not reach the node table", x.n)
				continue
			}
			if built == 1 {
				for _, k := range l {
					x.keys[k] = true
				}
			} else {
				for k := range x.keys {
					if !contains(l, k) {
						delete(x.keys, k)
					}
				}
			}
			rep.ok("limits are copied to the table")
		}
		// caches
		cs := post(opts["Cachesize"].field)
		ratios := c.links(r, o.St, b, cfg, opts["Cacheratio"].field)
		if built == 1 {
			for _, k := range ratios {
				ratioKeys[k] = true
			}
		} else {
			for k := range ratioKeys {
				if !contains(ratios, k) {
					delete(ratioKeys, k)
				}
			}
		}
		for f, keys := range c.fieldPaths(b.T, fs) {
			if !c.isCacheTable(f) {
				continue
			}
			for _, k := range keys {
				a := c.pathFrom(r, o.St, b, k)
				if a == nil {
					continue
				}
				v := r.loadMem(o.St, o.St.mem, a, derefType(a.T))
				n := r.length(o.St, v, derefType(a.T))
				if c.sizeHook != nil {
					c.sizeHook("cache", r, o, f.Pos(), k, n, []*Term{cs})
				}
				switch {
				case r.decideLE(o.St, cs, u.Int(0)) == yes:
					if r.decideLE(o.St, u.Int(10000), n) != yes {
						bad(o, "cache size", "cache %s has less entries than documented when option Cachesize is not used (%v)", k, short(n.String(), 100))
					} else {
						rep.ok("caches have the default size when none is given")
					}
				case r.decideLE(o.St, cs, n) == yes:
					rep.ok("caches have at least the size given by option Cachesize")
				default:
					bad(o, "cache size", "cache %s (length %v) may be smaller than asked with option Cachesize", k, short(n.String(), 100))
				}
			}
		}
	}
	if built == 0 {
		rep.bad(c, cr.Fn.Pos(), fn, "creation", "", "no path creates a BDD")
		return
	}
	c.checkLimits(rep, maxKeys, incKeys, minKeys)
	c.checkRatio(rep, ratioKeys, fs)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// isCacheTable: the records are not the nodes, and hold results of operations
// (they have a table in cacheKeys).
func (c *Ctx) isCacheTable(f *types.Var) bool {
	if _, ok := c.shared["specs"]; !ok {
		if err := c.buildSpecs(); err != nil {
			return false
		}
		if err := c.opsFix(); err != nil {
			return false
		}
	}
	return c.cacheTables()[f]
}

// coversOptions: the loop applies each option of the list.
func (c *Ctx) coversOptions(rep *Report, cr *creation, v *loopView, cfg *Term) bool {
	r := cr.Run
	var list *Term
	for _, o := range v.Backs {
		n := 0
		for _, e := range v.body(o) {
			if e.Kind == EvCallback && len(e.Args) == 2 && e.Args[1] == cfg {
				n++
				f := e.Args[0]
				if f.Op != OLoad || f.Args[0].Op != OIA {
					return false
				}
				list = rootSlice(f.Args[0].Args[0])
				if list.Op != OParam {
					return false
				}
				idx := f.Args[0].Args[1]
				if !v.covers(r, idx, c.U.Int(0), r.length(v.Inst.Pre, list, list.T), v.Exits) {
					return false
				}
			}
		}
		if n != 1 {
			return false
		}
	}
	return list != nil
}

// checkLimits: the table of nodes grows within its limits, when there are not
// enough free nodes.
func (c *Ctx) checkLimits(rep *Report, maxKeys, incKeys, minKeys map[string]bool) {
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	t := m.t
	fn := fname(t.Fn)
	rep.paths(c, t.Run, t.Outs)
	st0 := c.rawState()
	loads := func(keys map[string]bool) []*Term {
		var l []*Term
		for _, k := range sortedKeys(keys) {
			if a := c.pathFrom(t.Run, st0, m.T, k); a != nil {
				l = append(l, t.Run.loadMem(st0, map[Class]*classMem{}, a, derefType(a.T)))
			}
		}
		return l
	}
	maxs, incs, mins := loads(maxKeys), loads(incKeys), loads(minKeys)
	// the limits do not change afterwards
	frozen := map[*types.Var]bool{}
	for _, l := range [][]*Term{maxs, incs, mins} {
		for _, x := range l {
			frozen[x.Args[0].Aux.(*types.Var)] = true
		}
	}
	for _, f := range c.apiFuncs() {
		if c.createsFn(f) || !c.P.isSrc(f) {
			continue
		}
		for cl := range c.P.modref(f).Mod {
			if v, ok := cl.(*types.Var); ok && frozen[v] && c.optionFns()[f] == false {
				rep.bad(c, f.Pos(), fname(f), "limits", "", "%s may change the limit %s of the table", fname(f), v.Name())
			}
		}
	}
	old := t.Run.length(st0, c.U.mk(OLoad, nil, 0, c.nodesF.Type(), nil, c.U.FA(m.T, c.nodesF)), c.nodesF.Type())
	grows := 0
	for _, o := range t.Outs {
		if o.Kind != OutReturn && o.Kind != OutLoopBack {
			continue
		}
		var grown *Event
		for _, e := range o.St.events() {
			if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == c.nodesF && e.Addr.Args[0] == m.T {
				grown = e
				ln := t.Run.length(o.St, e.Val, c.nodesF.Type())
				if c.sizeHook != nil {
					c.sizeHook("growth", t.Run, o, e.Instr.Pos(), "node table", ln, nil)
				}
				ok := false
				for _, x := range maxs {
					if t.Run.decideLE(o.St, x, c.U.Int(0)) == yes || t.Run.decideLE(o.St, ln, x) == yes {
						ok = true
					}
				}
				if !ok {
					rep.bad(c, e.Instr.Pos(), fn, "maximal size", o.St.pathString(), "the table may grow beyond its maximal size (length %v)", short(ln.String(), 150))
				} else {
					rep.ok("growth within the maximal size")
				}
				ok = false
				for _, x := range incs {
					if t.Run.decideLE(o.St, x, c.U.Int(0)) == yes || t.Run.decideLE(o.St, ln, c.U.Add(old, x)) == yes {
						ok = true
					}
				}
				if !ok {
					rep.bad(c, e.Instr.Pos(), fn, "maximal increase", o.St.pathString(), "the table may grow by more than its maximal increase (length %v)", short(ln.String(), 150))
				} else {
					rep.ok("growth within the maximal increase")
				}
			}
		}
		if o.Kind != OutReturn || len(o.Res) != 2 {
			continue
		}
		low, high := c.freeRatio(m, o, mins)
		switch {
		case grown != nil:
			grows++
			if !low {
				rep.bad(c, grown.Instr.Pos(), fn, "free nodes", o.St.pathString(), "the table grows without comparing the ratio of free nodes with option Minfreenodes")
			} else {
				rep.ok("the table grows when there are not enough free nodes")
			}
		case o.Res[1].Op != ONil && t.Run.decideLE(o.St, o.Res[0], c.U.Int(-1)) != yes:
			// memory was reclaimed, and the table was not resized
			if !high {
				rep.bad(c, c.retPos(o, t.Fn), fn, "free nodes", o.St.pathString(), "the table is not resized although there may be less free nodes than asked with option Minfreenodes")
			} else {
				rep.ok("the table keeps its size when there are enough free nodes")
			}
		}
	}
	if grows == 0 {
		rep.bad(c, t.Fn.Pos(), fn, "free nodes", "", "the table never grows")
	}
}

func (c *Ctx) optionFns() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, cr := range c.creations() {
		if cr.optT == nil {
			continue
		}
		for _, f := range c.apiFuncs() {
			if f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type().Underlying(), cr.optT.Underlying()) {
				m[f] = true
			}
		}
	}
	return m
}

// freeRatio finds the comparison of the ratio of free nodes, after reclaiming
// memory, with its limit: known to be low, or high enough, on the path.
func (c *Ctx) freeRatio(m *tableModel, o *Outcome, mins []*Term) (low, high bool) {
	r := m.t.Run
	for f, v := range o.St.facts {
		if f.Op != OCmp || f.Aux == "==" {
			continue
		}
		a, b := f.Args[0], f.Args[1]
		if !v {
			a, b = c.U.AddK(b, 1), a
		}
		// a <= b
		l := c.U.lin(c.U.Sub(a, b))
		sFree, sMin, hundred, size := int64(0), int64(0), false, false
		for t, k := range l.coef {
			isMin := mentions(t, func(x *Term) bool {
				for _, y := range mins {
					if x == y {
						return true
					}
				}
				return false
			})
			isFree := mentions(t, func(x *Term) bool {
				return x.Op == OLoad && x.K != 0 && x.Args[0].Op == OFA && x.Args[0].Aux == m.freenum ||
					x.Op == OFresh && c.isFreeCount(m, o, x)
			})
			if isMin {
				sMin = sign(k)
			}
			if isFree {
				sFree = sign(k)
			}
			if isMin && isFree {
				sMin, sFree = 0, 0
			}
			if mentions(t, func(x *Term) bool { return isIntConst(x) && x.K == 100 || x.Op == OLin && has100(x) }) || k == 100 || k == -100 {
				hundred = true
			}
			if mentions(t, func(x *Term) bool { return c.isTableLen(x) || x.Op == OLen }) {
				size = true
			}
		}
		if sFree*sMin != -1 || !hundred || !size {
			continue
		}
		if sFree > 0 {
			low = true
		} else {
			high = true
		}
	}
	_ = r
	return
}

func has100(x *Term) bool {
	for _, k := range x.Coef {
		if k == 100 || k == -100 {
			return true
		}
	}
	return false
}

func sign(k int64) int64 {
	if k > 0 {
		return 1
	}
	if k < 0 {
		return -1
	}
	return 0
}

// isFreeCount: the value is stored as the number of free nodes on the path.
func (c *Ctx) isFreeCount(m *tableModel, o *Outcome, x *Term) bool {
	for _, e := range o.St.events() {
		if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == m.freenum && e.Val == x {
			return true
		}
	}
	return false
}

// checkRatio: after a resize of the node table, caches follow its size if they
// have a ratio.
func (c *Ctx) checkRatio(rep *Report, ratioKeys map[string]bool, fs map[*types.Var]bool) {
	fn := fname(c.Makenode)
	// what the constructor answers when the table has grown
	m, err := c.tableModel()
	if err != nil {
		return
	}
	grown := map[*Term]bool{}
	for _, o := range m.t.Outs {
		if o.Kind != OutReturn || len(o.Res) != 2 {
			continue
		}
		for _, e := range o.St.events() {
			if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == c.nodesF && e.Addr.Args[0] == m.T {
				grown[o.Res[1]] = true
			}
		}
	}
	r := c.unitRun(c.Makenode)
	for f := range r.NoInline {
		if f == c.lowMaker() || c.P.recursive(f) {
			continue
		}
		for cl := range c.P.modref(f).Mod {
			if v, ok := cl.(*types.Var); ok {
				if _, ok := fs[v]; ok {
					delete(r.NoInline, f)
				}
			}
		}
	}
	outs := r.Exec(c.Makenode, c.unitArgs(c.Makenode), func() *State { return c.rawState() })
	rep.paths(c, r, outs)
	rep.undecided(c, fn, outs)
	st0 := c.rawState()
	type cache struct {
		key   string
		f     *types.Var
		tbl   *Term
		ratio *Term
	}
	var caches []cache
	for f, keys := range c.fieldPaths(c.B.T, fs) {
		if !c.isCacheTable(f) {
			continue
		}
		for _, k := range keys {
			x := cache{key: k, f: f, tbl: c.pathFrom(r, st0, c.B, k)}
			// its ratio: next to it
			dir := k[:strings.LastIndex(k, ".")+1]
			best := ""
			for rk := range ratioKeys {
				d := rk[:strings.LastIndex(rk, ".")+1]
				if strings.HasPrefix(dir, d) && len(d) >= len(best) {
					best = d
					if a := c.pathFrom(r, st0, c.B, rk); a != nil {
						x.ratio = r.loadMem(st0, map[Class]*classMem{}, a, derefType(a.T))
					}
				}
			}
			if x.ratio == nil {
				rep.bad(c, f.Pos(), fn, "cache ratio", "", "the value of option Cacheratio does not reach cache %s", k)
				continue
			}
			caches = append(caches, x)
		}
	}
	sort.Slice(caches, func(i, j int) bool { return caches[i].key < caches[j].key })
	resized := 0
	for _, o := range outs {
		if o.Kind != OutReturn {
			continue
		}
		resize := false
		var call *Event
		for _, e := range o.St.events() {
			if e.Kind == EvHead && e.Fn == c.lowMaker() && e.Val != nil && e.Val.Op == OExtr {
				call = e
				x := c.U.mk(OExtr, nil, 1, types.Universe.Lookup("error").Type(), nil, e.Val.Args[0])
				for g := range grown {
					if r.decideEQ(o.St, x, g) == yes {
						resize = true
					}
				}
			}
		}
		cur := (*Term)(nil)
		if call != nil {
			a := c.U.FA(c.T, c.nodesF)
			cur = r.length(o.St, r.loadMem(o.St, o.St.mem, a, c.nodesF.Type()), c.nodesF.Type())
		}
		for _, x := range caches {
			v := r.loadMem(o.St, o.St.mem, x.tbl, x.f.Type())
			v0 := r.loadMem(o.St, map[Class]*classMem{}, x.tbl, x.f.Type())
			if v == v0 || fieldLoad(v, map[*types.Var]bool{x.f: true}) {
				if resize && r.decideLE(o.St, x.ratio, c.U.Int(0)) != yes {
					rep.bad(c, c.Makenode.Pos(), fn, "cache ratio", o.St.pathString(), "cache %s keeps its size when the node table grows, although it may have a ratio", x.key)
				} else {
					rep.ok("caches without a ratio keep their size")
				}
				continue
			}
			if r.decideLE(o.St, c.U.Int(1), x.ratio) != yes {
				rep.bad(c, c.Makenode.Pos(), fn, "cache ratio", o.St.pathString(), "cache %s is resized although it may have no ratio", x.key)
				continue
			}
			n := r.length(o.St, v, x.f.Type())
			if c.sizeHook != nil && cur != nil {
				c.sizeHook("resized cache", r, o, x.f.Pos(), x.key, n, []*Term{c.percent(cur, x.ratio)})
			}
			dep := func(f func(*Term) bool) bool { return mentions(n, f) }
			if cur == nil || !dep(func(t *Term) bool { return t == x.ratio }) || !dep(func(t *Term) bool { return t == cur }) ||
				!dep(func(t *Term) bool { return isIntConst(t) && t.K == 100 }) || !c.ratioOf(r, o.St, n, cur, x.ratio) {
				rep.bad(c, c.Makenode.Pos(), fn, "cache ratio", o.St.pathString(), "the new length of cache %s (%v) is not its ratio of the size of the node table", x.key, short(n.String(), 200))
				continue
			}
			if resize {
				resized++
			}
			rep.ok("caches with a ratio follow the size of the node table")
		}
	}
	if resized == 0 {
		rep.bad(c, c.Makenode.Pos(), fn, "cache ratio", "", "caches with a ratio do not follow the size of the node table")
	}
}

// percent is size * ratio / 100.
func (c *Ctx) percent(size, ratio *Term) *Term {
	x, y := size, ratio
	if x.ID > y.ID {
		x, y = y, x
	}
	return c.U.mk(OBin, "/", 0, types.Typ[types.Int], nil, c.U.mk(OBin, "*", 0, types.Typ[types.Int], nil, x, y), c.U.Int(100))
}

// ratioOf: n is at least size*ratio/100 (possibly rounded up by a function that
// is known to do so).
func (c *Ctx) ratioOf(r *Run, st *State, n, size, ratio *Term) bool {
	return r.decideLE(st, c.percent(size, ratio), n) == yes
}

func init() {
	register("C24", "each option is followed from its parameter to the configuration, to the field of the table or cache that holds it, and to the allocation or comparison that it governs; growth is bounded on every path; New refuses exactly the numbers of variables out of bounds", func(c *Ctx, rep *Report) { c.checkC24(rep) })
	registry["C24"].both = true
}
