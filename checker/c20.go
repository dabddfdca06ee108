package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// access is a read or a write of a location that outlives the function.
type access struct {
	Class Class
	Addr  *Term
	Write bool
	Event *Event
}

// accesses lists what an event reads and writes in memory.
func (c *Ctx) accesses(e *Event) []access {
	var l []access
	leaves := func(t types.Type, a *Term, cl Class, w bool) {
		leafClasses(t, cl, func(x Class) { l = append(l, access{x, a, w, e}) })
	}
	switch e.Kind {
	case EvLoad:
		if rootOf(e.Addr).Op == OAlloc {
			return nil
		}
		leaves(derefType(e.Addr.T), e.Addr, termClass(e.Addr), false)
	case EvStore:
		if rootOf(e.Addr).Op == OAlloc {
			return nil
		}
		leaves(derefType(e.Addr.T), e.Addr, termClass(e.Addr), true)
	case EvCall:
		if e.Name == "copy" {
			for i, x := range e.Args {
				if s := sliceOf(x); s != nil {
					leaves(s.Elem(), x, elemClass(s.Elem()), i == 0)
				}
			}
		}
	case EvAppend:
		if s := sliceOf(e.Val); s != nil {
			for _, x := range e.Args {
				if x.T != nil && types.Identical(x.T.Underlying(), s) && rootOf(x).Op != OAlloc && x.Op != ONil {
					leaves(s.Elem(), x, elemClass(s.Elem()), false)
				}
			}
		}
	case EvMapGet:
		if e.Args[0].T == nil {
			return nil
		}
		l = append(l, access{mapClass(e.Args[0].T), e.Args[0], false, e})
	case EvMapSet, EvMapDel:
		l = append(l, access{mapClass(e.Args[0].T), e.Args[0], true, e})
	}
	return l
}

// sliceOf is the type of a slice, nil for the nil slice.
func sliceOf(t *Term) *types.Slice {
	if t == nil || t.T == nil {
		return nil
	}
	s, _ := t.T.Underlying().(*types.Slice)
	return s
}

func (c *Ctx) className(cl Class) string {
	switch x := cl.(type) {
	case *types.Var:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	}
	return fmt.Sprint(cl)
}

// mode with which the mutex class is held: 0, 'R' or 'W'.
func heldMode(e *Event, cl string) byte {
	var m byte
	for _, h := range e.Held {
		if lockClass(h.mu) == cl && (m == 0 || h.mode == 'W') {
			m = h.mode
		}
	}
	return m
}

// sameSection: no lock operation on cl between two events of a path.
func sameSection(evs []*Event, a, b *Event, cl string) bool {
	in := false
	for _, e := range evs {
		if e == a || e == b {
			if in {
				return heldMode(a, cl) != 0 && heldMode(b, cl) != 0
			}
			in = true
			if a == b {
				return heldMode(a, cl) != 0
			}
			continue
		}
		if in && e.Kind == EvLock && lockClass(e.Addr) == cl {
			return false
		}
	}
	return false
}

// published: the function runs while finalizers may exist.
func (c *Ctx) beforePublication(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	// the function that creates the BDD, and configuration closures
	return f.Signature.Recv() == nil && fn == f && f.Name() == "New" || f.Signature.Recv() == nil && c.isOption(f)
}

// isOption: a function of the interface that returns a function (a
// configuration option) used while the BDD is created.
func (c *Ctx) isOption(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	_, ok := r.At(0).Type().Underlying().(*types.Signature)
	return ok
}

func (c *Ctx) checkRaces(rep *Report) {
	fins := c.finalizers()
	if len(fins) == 0 {
		rep.bad(c, token.NoPos, "SetFinalizer", "anchor", "", "no finalizer was found")
		return
	}
	isFin := map[*ssa.Function]bool{}
	for _, f := range fins {
		isFin[f] = true
	}
	// what finalizers do, transitively
	finUnits := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	units := c.units()
	byFn := map[*ssa.Function][]*unit{}
	for _, u := range units {
		byFn[u.Fn] = append(byFn[u.Fn], u)
	}
	reach = func(f *ssa.Function) {
		if finUnits[f] {
			return
		}
		finUnits[f] = true
		for _, u := range byFn[f] {
			for _, o := range u.Outs {
				for e := o.St.ev; e != nil; e = e.prev {
					if e.ev.Kind == EvHead {
						reach(e.ev.Fn)
					}
					if e.ev.Kind == EvCallback {
						rep.bad(c, e.ev.Instr.Pos(), fname(f), "finalizer", "", "a finalizer calls unknown code")
					}
				}
			}
		}
	}
	for _, f := range fins {
		reach(f)
	}
	type finAcc struct {
		access
		modes map[string]byte // mutex class -> mode
	}
	shared := map[Class][]finAcc{}
	for _, u := range units {
		if !finUnits[u.Fn] {
			continue
		}
		if !isFin[u.Fn] && len(byFn[u.Fn]) > 0 {
			// a helper: only as called from the finalizer
		}
		rep.paths(c, u.Run, u.Outs)
		rep.undecided(c, fname(u.Fn), u.Outs)
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				for _, a := range c.accesses(e) {
					if c.localToFinalizer(u, a) {
						continue
					}
					m := map[string]byte{}
					for _, h := range e.Held {
						m[lockClass(h.mu)] = heldMode(e, lockClass(h.mu))
					}
					shared[a.Class] = append(shared[a.Class], finAcc{a, m})
				}
			}
		}
	}
	if len(shared) == 0 {
		rep.bad(c, fins[0].Pos(), fname(fins[0]), "anchor", "", "the finalizer has no effect on the BDD")
		return
	}
	written := map[Class]bool{}
	for cl, l := range shared {
		for _, a := range l {
			if a.Write {
				written[cl] = true
			}
		}
	}
	// the reference counts: what the finalizer writes
	for _, u := range units {
		if finUnits[u.Fn] || c.beforePublication(u.Fn) {
			continue
		}
		rep.paths(c, u.Run, u.Outs)
		for _, o := range u.Outs {
			if o.Kind == OutUndecided {
				continue
			}
			evs := o.St.events()
			for _, e := range evs {
				for _, a := range c.accesses(e) {
					fl := shared[a.Class]
					if len(fl) == 0 {
						continue
					}
					if c.newSlot(u, o, e, a) {
						rep.ok("slots added by a resize are not yet referenced")
						continue
					}
					for _, f := range fl {
						if !a.Write && !f.Write {
							continue
						}
						ok := false
						for cl, fm := range f.modes {
							if m := heldMode(e, cl); m != 0 && (m == 'W' || fm == 'W') {
								ok = true
							}
						}
						what := "read"
						if a.Write {
							what = "written"
						}
						if !ok {
							rep.bad(c, e.Instr.Pos(), u.name(), "no data race", o.St.pathString(), "%s is %s without excluding the finalizer, that uses it in %s", c.className(a.Class), what, c.P.pos(f.Event.Instr.Pos()))
						} else {
							rep.ok("access excluded by the lock of the finalizer")
						}
					}
				}
			}
		}
	}
	// updates are not lost
	for _, u := range units {
		if c.beforePublication(u.Fn) {
			continue
		}
		strict := isFin[u.Fn]
		for _, o := range u.Outs {
			if o.Kind == OutUndecided {
				continue
			}
			c.lostUpdates(rep, u, o, written, strict)
			c.swapInOneSection(rep, u, o, written)
		}
	}
}

// localToFinalizer: variables of the finalizer itself, and captured variables
// that are set only before it exists.
func (c *Ctx) localToFinalizer(u *unit, a access) bool {
	root := rootOf(a.Addr)
	if root.Op == OAlloc {
		return true
	}
	if root.Op == OParam && root == a.Addr {
		return true // captured variable or the object itself
	}
	return false
}

// newSlot: the access is to a slot of the table added by the current function.
func (c *Ctx) newSlot(u *unit, o *Outcome, e *Event, a access) bool {
	x := a.Addr
	for x.Op == OFA {
		x = x.Args[0]
	}
	if x.Op != OIA {
		return false
	}
	stored := int64(-1)
	for _, e2 := range o.St.events() {
		if e2 == e {
			break
		}
		if e2.Kind == EvStore && e2.Addr.Op == OFA && e2.Addr.Aux == c.nodesF {
			stored = e2.Seq
		}
	}
	if stored < 0 {
		return false
	}
	for t := range o.St.zone.vars {
		if c.isTableLen(t) && t.Args[0].K < stored && u.Run.decideLE(o.St, t, x.Args[1]) == yes {
			return true
		}
	}
	return false
}

// sharedLoads lists the loads of the classes in a term.
func sharedLoads(t *Term, in map[Class]bool) []*Term {
	var l []*Term
	t.walk(func(x *Term) bool {
		if x.Op == OLoad && in[termClass(x.Args[0])] {
			l = append(l, x)
		}
		return true
	})
	return l
}

// lostUpdates: what is written in a counter shared with the finalizer is
// computed from a value read in the same critical section.
func (c *Ctx) lostUpdates(rep *Report, u *unit, o *Outcome, written map[Class]bool, strict bool) {
	evs := o.St.events()
	for _, e := range evs {
		if e.Kind != EvStore || !written[termClass(e.Addr)] || rootOf(e.Addr).Op == OAlloc {
			continue
		}
		if c.newSlot(u, o, e, access{Addr: e.Addr}) {
			continue
		}
		cl := ""
		for _, h := range e.Held {
			cl = lockClass(h.mu)
		}
		if cl == "" {
			continue // reported as a race
		}
		loads := map[*Term]bool{}
		for _, l := range sharedLoads(e.Val, written) {
			loads[l] = true
		}
		if len(loads) == 0 && !isIntConst(e.Val) {
			continue
		}
		if len(loads) == 0 {
			// a constant: the previous value is lost
			if c.freeSlotStore(u, o, e) {
				continue
			}
			rep.bad(c, e.Instr.Pos(), u.name(), "no lost update", o.St.pathString(), "%s is overwritten with %s", c.className(termClass(e.Addr)), e.Val)
			continue
		}
		var last *Event
		var rel []*Event
		for _, l := range evs {
			if l == e {
				break
			}
			if l.Kind != EvLoad {
				continue
			}
			used := false
			l.Val.walk(func(x *Term) bool {
				if loads[x] {
					used = true
				}
				return !used
			})
			if used || strict && l.Addr == e.Addr {
				rel = append(rel, l)
				last = l
			}
		}
		if !strict && last != nil {
			rel = []*Event{last}
		}
		for _, l := range rel {
			if !sameSection(evs, l, e, cl) {
				rep.bad(c, e.Instr.Pos(), u.name(), "no lost update", o.St.pathString(), "%s is computed from a value read in another critical section (%s)", c.className(termClass(e.Addr)), c.P.pos(l.Instr.Pos()))
			} else {
				rep.ok("counter read and written in the same critical section")
			}
		}
	}
}

// freeSlotStore: the store initialises the slot of a new node (taken from the
// list of free slots), that nothing refers to.
func (c *Ctx) freeSlotStore(u *unit, o *Outcome, e *Event) bool {
	x := e.Addr
	for x.Op == OFA {
		x = x.Args[0]
	}
	if x.Op != OIA {
		return false
	}
	return c.isFreeSlot(u.Run, o, x.Args[1])
}

// isFreeSlot: the index was taken from the list of free slots on this path.
func (c *Ctx) isFreeSlot(r *Run, o *Outcome, idx *Term) bool {
	f := c.freeposField()
	if f == nil {
		return false
	}
	i := stripConv(idx)
	if i.Op == OLoad && i.Args[0].Op == OFA && i.Args[0].Aux == f {
		return true
	}
	return false
}

// freeposField: the field of the node table with the first free slot: the one
// whose value Makenode uses as the index of the nodes that it builds.
func (c *Ctx) freeposField() *types.Var {
	if v, ok := c.shared["freepos"].(*types.Var); ok {
		return v
	}
	var res *types.Var
	count := map[*types.Var]int{}
	for _, u := range c.units() {
		if u.Fn != c.lowMaker() {
			continue
		}
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvStore || e.Addr.Op != OFA || e.Addr.Aux != c.lowF || e.Addr.Args[0].Op != OIA {
					continue
				}
				i := stripConv(e.Addr.Args[0].Args[1])
				if i.Op == OLoad && i.Args[0].Op == OFA {
					count[i.Args[0].Aux.(*types.Var)]++
				}
			}
		}
	}
	for v, n := range count {
		if res == nil || n > count[res] {
			res = v
		}
	}
	c.shared["freepos"] = res
	return res
}

// swapInOneSection: when the table is replaced, the counters are copied in the
// same critical section.
func (c *Ctx) swapInOneSection(rep *Report, u *unit, o *Outcome, written map[Class]bool) {
	evs := o.St.events()
	var swap *Event
	for _, e := range evs {
		if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == c.nodesF && rootOf(e.Addr).Op != OAlloc {
			swap = e
		}
	}
	if swap == nil {
		return
	}
	cl := ""
	for _, h := range swap.Held {
		cl = lockClass(h.mu)
	}
	if cl == "" {
		return // reported as a race
	}
	n := 0
	for _, e := range evs {
		copies := false
		switch e.Kind {
		case EvCall, EvAppend:
			for _, a := range c.accesses(e) {
				if written[a.Class] {
					copies = true
				}
			}
		case EvStore:
			if written[termClass(e.Addr)] {
				for _, l := range sharedLoads(e.Val, written) {
					if l.Args[0] != e.Addr {
						copies = true
					}
				}
			}
		case EvLoopEnter, EvLoopExit:
			for _, x := range u.Outs {
				if x.Kind != OutLoopBack || x.Loop.ID != e.Loop.ID {
					continue
				}
				for _, y := range x.St.events() {
					if y.Kind != EvStore || !written[termClass(y.Addr)] {
						continue
					}
					for _, l := range sharedLoads(y.Val, written) {
						if l.Args[0] != y.Addr {
							for _, in := range loopsAt(x, y) {
								if in.ID == e.Loop.ID {
									copies = true
								}
							}
						}
					}
				}
			}
		}
		if !copies {
			continue
		}
		n++
		if !sameSection(evs, e, swap, cl) {
			pos := u.Fn.Pos()
			if e.Instr != nil {
				pos = e.Instr.Pos()
			}
			rep.bad(c, pos, u.name(), "no lost update", o.St.pathString(), "the counters are copied to the new table in another critical section than the one that installs it (%s)", c.P.pos(swap.Instr.Pos()))
		} else {
			rep.ok("counters copied and table replaced in the same critical section")
		}
	}
	if n == 0 && o.Kind == OutReturn {
		rep.bad(c, swap.Instr.Pos(), u.name(), "no lost update", o.St.pathString(), "the table of nodes is replaced and nothing copies the counters")
	}
}

func init() {
	register("C20", "each access of the API to a location that the finalizer also uses (one of the two writing) is made with the lock of the finalizer; counters are read and written back in one critical section; the table is copied and replaced in one critical section", func(c *Ctx, rep *Report) {
		c.checkGrowth(rep)
		c.checkRaces(rep)
	})
}
